// generated by tools/gen_lim.py
use limsut::*;
pub fn all(v: &mut Vec<Cfg>) {
    v.push(u8_::cfg::<6>());
    v.push(u8_::cfg::<14>());
    v.push(u8_::cfg::<22>());
    v.push(u8_::cfg::<30>());
    v.push(u8_::cfg::<38>());
    v.push(u8_::cfg::<46>());
    v.push(u8_::cfg::<54>());
    v.push(u8_::cfg::<62>());
    v.push(u8_::cfg::<70>());
    v.push(u8_::cfg::<78>());
    v.push(u8_::cfg::<86>());
    v.push(u8_::cfg::<94>());
    v.push(u8_::cfg::<102>());
    v.push(u8_::cfg::<110>());
    v.push(u8_::cfg::<118>());
    v.push(u8_::cfg::<126>());
    v.push(u8_::cfg::<134>());
    v.push(u8_::cfg::<142>());
    v.push(u8_::cfg::<150>());
    v.push(u8_::cfg::<158>());
    v.push(u8_::cfg::<166>());
    v.push(u8_::cfg::<174>());
    v.push(u8_::cfg::<182>());
    v.push(u8_::cfg::<190>());
    v.push(u8_::cfg::<198>());
    v.push(u8_::cfg::<206>());
    v.push(u8_::cfg::<214>());
    v.push(u8_::cfg::<222>());
    v.push(u8_::cfg::<230>());
    v.push(u8_::cfg::<238>());
    v.push(u8_::cfg::<246>());
    v.push(u8_::cfg::<254>());
    v.push(u16_::cfg::<7>());
    v.push(u16_::cfg::<31>());
    v.push(u16_::cfg::<128>());
    v.push(u16_::cfg::<1000>());
    v.push(u16_::cfg::<4096>());
    v.push(u16_::cfg::<32767>());
    v.push(u32_::cfg::<5>());
    v.push(u32_::cfg::<16>());
    v.push(u32_::cfg::<100>());
    v.push(u32_::cfg::<512>());
    v.push(u32_::cfg::<2049>());
    v.push(u32_::cfg::<16384>());
    v.push(u32_::cfg::<131071>());
    v.push(u32_::cfg::<524289>());
    v.push(u32_::cfg::<4194303>());
    v.push(u32_::cfg::<16777217>());
    v.push(u32_::cfg::<134217728>());
    v.push(u32_::cfg::<1000000000>());
    v.push(u32_::cfg::<4294967296>());
    v.push(u64_::cfg::<9>());
    v.push(u64_::cfg::<33>());
    v.push(u64_::cfg::<255>());
    v.push(u64_::cfg::<1024>());
    v.push(u64_::cfg::<8191>());
    v.push(u64_::cfg::<32769>());
    v.push(u64_::cfg::<262144>());
    v.push(u64_::cfg::<2097151>());
    v.push(u64_::cfg::<8388608>());
    v.push(u64_::cfg::<67108863>());
    v.push(u64_::cfg::<268435457>());
    v.push(u64_::cfg::<2147483647>());
    v.push(u64_::cfg::<8589934593>());
    v.push(u64_::cfg::<68719476736>());
    v.push(u64_::cfg::<549755813887>());
    v.push(u64_::cfg::<2199023255553>());
    v.push(u64_::cfg::<17592186044416>());
    v.push(u64_::cfg::<140737488355327>());
    v.push(u64_::cfg::<562949953421313>());
    v.push(u64_::cfg::<4503599627370495>());
    v.push(u64_::cfg::<18014398509481985>());
    v.push(u64_::cfg::<144115188075855872>());
    v.push(u64_::cfg::<1152921504606846975>());
    v.push(u64_::cfg::<4611686018427387905>());
    v.push(u128_::cfg::<5>());
    v.push(u128_::cfg::<16>());
    v.push(u128_::cfg::<100>());
    v.push(u128_::cfg::<512>());
    v.push(u128_::cfg::<2049>());
    v.push(u128_::cfg::<16384>());
    v.push(u128_::cfg::<131071>());
    v.push(u128_::cfg::<524289>());
    v.push(u128_::cfg::<4194303>());
    v.push(u128_::cfg::<16777217>());
    v.push(u128_::cfg::<134217728>());
    v.push(u128_::cfg::<1000000000>());
    v.push(u128_::cfg::<4294967296>());
    v.push(u128_::cfg::<34359738367>());
    v.push(u128_::cfg::<137438953473>());
    v.push(u128_::cfg::<1099511627776>());
    v.push(u128_::cfg::<8796093022207>());
    v.push(u128_::cfg::<35184372088833>());
    v.push(u128_::cfg::<281474976710656>());
    v.push(u128_::cfg::<1125899906842625>());
    v.push(u128_::cfg::<9007199254740992>());
    v.push(u128_::cfg::<72057594037927935>());
    v.push(u128_::cfg::<288230376151711745>());
    v.push(u128_::cfg::<2305843009213693952>());
    v.push(u128_::cfg::<18446744073709551615>());
    v.push(small_::cfg::<9>());
    v.push(small_::cfg::<33>());
    v.push(small_::cfg::<255>());
    v.push(small_::cfg::<1024>());
    v.push(small_::cfg::<8191>());
    v.push(small_::cfg::<32769>());
    v.push(small_::cfg::<262144>());
    v.push(small_::cfg::<2097151>());
    v.push(small_::cfg::<8388608>());
    v.push(small_::cfg::<67108863>());
    v.push(small_::cfg::<268435457>());
    v.push(small_::cfg::<2147483647>());
}
