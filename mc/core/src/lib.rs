//! Shared pieces of the model-checking harnesses: a guarded and accounting
//! allocator, crash reporting, JSON output and a small thread pool.
pub mod alloc;
pub mod crash;
pub mod json;
pub mod pool;

/// Deterministic mixing function used to make distinguishable contents.
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

/// 128-bit FNV-style hash of a byte string, used for visited-state sets.
pub fn hash128(b: &[u8]) -> u128 {
    let mut a: u64 = 0xcbf2_9ce4_8422_2325;
    let mut c: u64 = 0x1234_5678_9abc_def1;
    for ch in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..ch.len()].copy_from_slice(ch);
        let x = u64::from_le_bytes(w) ^ ((ch.len() as u64) << 56);
        a = mix(a ^ x);
        c = (c ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29) ^ a;
    }
    ((a as u128) << 64) | mix(c) as u128
}
