//! Runs independent jobs on all cores, in order of submission.
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub fn run<J: Sync, R: Send>(jobs: &[J], threads: usize, f: impl Fn(&J) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..threads.max(1) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= jobs.len() {
                    break;
                }
                let r = f(&jobs[i]);
                out.lock().unwrap().push((i, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
