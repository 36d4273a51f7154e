//! One group of configurations, in a crate of its own so that they compile in parallel.
use vecsut::*;
pub fn all(v: &mut Vec<&'static dyn Make>) {
    w8!(v, U8,0);
    w8!(v, U8,1);
    w16!(v, U16,0);
}
