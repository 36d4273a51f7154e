//! One group of configurations, in a crate of its own so that they compile in parallel.
use vecsut::*;
pub fn all(v: &mut Vec<&'static dyn Make>) {
    w32!(v, Small,0);
}
