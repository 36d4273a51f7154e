// generated by tools/gen_lim.py
use limsut::*;
pub fn all(v: &mut Vec<Cfg>) {
    v.push(u8_::cfg::<2>());
    v.push(u8_::cfg::<10>());
    v.push(u8_::cfg::<18>());
    v.push(u8_::cfg::<26>());
    v.push(u8_::cfg::<34>());
    v.push(u8_::cfg::<42>());
    v.push(u8_::cfg::<50>());
    v.push(u8_::cfg::<58>());
    v.push(u8_::cfg::<66>());
    v.push(u8_::cfg::<74>());
    v.push(u8_::cfg::<82>());
    v.push(u8_::cfg::<90>());
    v.push(u8_::cfg::<98>());
    v.push(u8_::cfg::<106>());
    v.push(u8_::cfg::<114>());
    v.push(u8_::cfg::<122>());
    v.push(u8_::cfg::<130>());
    v.push(u8_::cfg::<138>());
    v.push(u8_::cfg::<146>());
    v.push(u8_::cfg::<154>());
    v.push(u8_::cfg::<162>());
    v.push(u8_::cfg::<170>());
    v.push(u8_::cfg::<178>());
    v.push(u8_::cfg::<186>());
    v.push(u8_::cfg::<194>());
    v.push(u8_::cfg::<202>());
    v.push(u8_::cfg::<210>());
    v.push(u8_::cfg::<218>());
    v.push(u8_::cfg::<226>());
    v.push(u8_::cfg::<234>());
    v.push(u8_::cfg::<242>());
    v.push(u8_::cfg::<250>());
    v.push(u16_::cfg::<3>());
    v.push(u16_::cfg::<12>());
    v.push(u16_::cfg::<64>());
    v.push(u16_::cfg::<257>());
    v.push(u16_::cfg::<2047>());
    v.push(u16_::cfg::<8193>());
    v.push(u16_::cfg::<65536>());
    v.push(u32_::cfg::<9>());
    v.push(u32_::cfg::<33>());
    v.push(u32_::cfg::<255>());
    v.push(u32_::cfg::<1024>());
    v.push(u32_::cfg::<8191>());
    v.push(u32_::cfg::<32769>());
    v.push(u32_::cfg::<262144>());
    v.push(u32_::cfg::<2097151>());
    v.push(u32_::cfg::<8388608>());
    v.push(u32_::cfg::<67108863>());
    v.push(u32_::cfg::<268435457>());
    v.push(u32_::cfg::<2147483647>());
    v.push(u64_::cfg::<5>());
    v.push(u64_::cfg::<16>());
    v.push(u64_::cfg::<100>());
    v.push(u64_::cfg::<512>());
    v.push(u64_::cfg::<2049>());
    v.push(u64_::cfg::<16384>());
    v.push(u64_::cfg::<131071>());
    v.push(u64_::cfg::<524289>());
    v.push(u64_::cfg::<4194303>());
    v.push(u64_::cfg::<16777217>());
    v.push(u64_::cfg::<134217728>());
    v.push(u64_::cfg::<1000000000>());
    v.push(u64_::cfg::<4294967296>());
    v.push(u64_::cfg::<34359738367>());
    v.push(u64_::cfg::<137438953473>());
    v.push(u64_::cfg::<1099511627776>());
    v.push(u64_::cfg::<8796093022207>());
    v.push(u64_::cfg::<35184372088833>());
    v.push(u64_::cfg::<281474976710656>());
    v.push(u64_::cfg::<1125899906842625>());
    v.push(u64_::cfg::<9007199254740992>());
    v.push(u64_::cfg::<72057594037927935>());
    v.push(u64_::cfg::<288230376151711745>());
    v.push(u64_::cfg::<2305843009213693952>());
    v.push(u64_::cfg::<18446744073709551615>());
    v.push(u128_::cfg::<9>());
    v.push(u128_::cfg::<33>());
    v.push(u128_::cfg::<255>());
    v.push(u128_::cfg::<1024>());
    v.push(u128_::cfg::<8191>());
    v.push(u128_::cfg::<32769>());
    v.push(u128_::cfg::<262144>());
    v.push(u128_::cfg::<2097151>());
    v.push(u128_::cfg::<8388608>());
    v.push(u128_::cfg::<67108863>());
    v.push(u128_::cfg::<268435457>());
    v.push(u128_::cfg::<2147483647>());
    v.push(u128_::cfg::<8589934593>());
    v.push(u128_::cfg::<68719476736>());
    v.push(u128_::cfg::<549755813887>());
    v.push(u128_::cfg::<2199023255553>());
    v.push(u128_::cfg::<17592186044416>());
    v.push(u128_::cfg::<140737488355327>());
    v.push(u128_::cfg::<562949953421313>());
    v.push(u128_::cfg::<4503599627370495>());
    v.push(u128_::cfg::<18014398509481985>());
    v.push(u128_::cfg::<144115188075855872>());
    v.push(u128_::cfg::<1152921504606846975>());
    v.push(u128_::cfg::<4611686018427387905>());
    v.push(small_::cfg::<5>());
    v.push(small_::cfg::<16>());
    v.push(small_::cfg::<100>());
    v.push(small_::cfg::<512>());
    v.push(small_::cfg::<2049>());
    v.push(small_::cfg::<16384>());
    v.push(small_::cfg::<131071>());
    v.push(small_::cfg::<524289>());
    v.push(small_::cfg::<4194303>());
    v.push(small_::cfg::<16777217>());
    v.push(small_::cfg::<134217728>());
    v.push(small_::cfg::<1000000000>());
    v.push(small_::cfg::<4294967296>());
}
