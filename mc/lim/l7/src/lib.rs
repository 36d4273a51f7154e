// generated by tools/gen_lim.py
use limsut::*;
pub fn all(v: &mut Vec<Cfg>) {
    v.push(u8_::cfg::<9>());
    v.push(u8_::cfg::<17>());
    v.push(u8_::cfg::<25>());
    v.push(u8_::cfg::<33>());
    v.push(u8_::cfg::<41>());
    v.push(u8_::cfg::<49>());
    v.push(u8_::cfg::<57>());
    v.push(u8_::cfg::<65>());
    v.push(u8_::cfg::<73>());
    v.push(u8_::cfg::<81>());
    v.push(u8_::cfg::<89>());
    v.push(u8_::cfg::<97>());
    v.push(u8_::cfg::<105>());
    v.push(u8_::cfg::<113>());
    v.push(u8_::cfg::<121>());
    v.push(u8_::cfg::<129>());
    v.push(u8_::cfg::<137>());
    v.push(u8_::cfg::<145>());
    v.push(u8_::cfg::<153>());
    v.push(u8_::cfg::<161>());
    v.push(u8_::cfg::<169>());
    v.push(u8_::cfg::<177>());
    v.push(u8_::cfg::<185>());
    v.push(u8_::cfg::<193>());
    v.push(u8_::cfg::<201>());
    v.push(u8_::cfg::<209>());
    v.push(u8_::cfg::<217>());
    v.push(u8_::cfg::<225>());
    v.push(u8_::cfg::<233>());
    v.push(u8_::cfg::<241>());
    v.push(u8_::cfg::<249>());
    v.push(u16_::cfg::<2>());
    v.push(u16_::cfg::<10>());
    v.push(u16_::cfg::<63>());
    v.push(u16_::cfg::<256>());
    v.push(u16_::cfg::<1025>());
    v.push(u16_::cfg::<8192>());
    v.push(u16_::cfg::<65535>());
    v.push(u32_::cfg::<8>());
    v.push(u32_::cfg::<32>());
    v.push(u32_::cfg::<129>());
    v.push(u32_::cfg::<1023>());
    v.push(u32_::cfg::<4097>());
    v.push(u32_::cfg::<32768>());
    v.push(u32_::cfg::<262143>());
    v.push(u32_::cfg::<1048577>());
    v.push(u32_::cfg::<8388607>());
    v.push(u32_::cfg::<33554433>());
    v.push(u32_::cfg::<268435456>());
    v.push(u32_::cfg::<1073741825>());
    v.push(u64_::cfg::<4>());
    v.push(u64_::cfg::<15>());
    v.push(u64_::cfg::<65>());
    v.push(u64_::cfg::<511>());
    v.push(u64_::cfg::<2048>());
    v.push(u64_::cfg::<16383>());
    v.push(u64_::cfg::<65537>());
    v.push(u64_::cfg::<524288>());
    v.push(u64_::cfg::<3145728>());
    v.push(u64_::cfg::<16777216>());
    v.push(u64_::cfg::<134217727>());
    v.push(u64_::cfg::<536870913>());
    v.push(u64_::cfg::<4294967295>());
    v.push(u64_::cfg::<17179869185>());
    v.push(u64_::cfg::<137438953472>());
    v.push(u64_::cfg::<1099511627775>());
    v.push(u64_::cfg::<4398046511105>());
    v.push(u64_::cfg::<35184372088832>());
    v.push(u64_::cfg::<281474976710655>());
    v.push(u64_::cfg::<1125899906842624>());
    v.push(u64_::cfg::<9007199254740991>());
    v.push(u64_::cfg::<36028797018963969>());
    v.push(u64_::cfg::<288230376151711744>());
    v.push(u64_::cfg::<2305843009213693951>());
    v.push(u64_::cfg::<9223372036854775809>());
    v.push(u128_::cfg::<8>());
    v.push(u128_::cfg::<32>());
    v.push(u128_::cfg::<129>());
    v.push(u128_::cfg::<1023>());
    v.push(u128_::cfg::<4097>());
    v.push(u128_::cfg::<32768>());
    v.push(u128_::cfg::<262143>());
    v.push(u128_::cfg::<1048577>());
    v.push(u128_::cfg::<8388607>());
    v.push(u128_::cfg::<33554433>());
    v.push(u128_::cfg::<268435456>());
    v.push(u128_::cfg::<1073741825>());
    v.push(u128_::cfg::<8589934592>());
    v.push(u128_::cfg::<68719476735>());
    v.push(u128_::cfg::<274877906945>());
    v.push(u128_::cfg::<2199023255552>());
    v.push(u128_::cfg::<17592186044415>());
    v.push(u128_::cfg::<70368744177665>());
    v.push(u128_::cfg::<562949953421312>());
    v.push(u128_::cfg::<2251799813685249>());
    v.push(u128_::cfg::<18014398509481984>());
    v.push(u128_::cfg::<144115188075855871>());
    v.push(u128_::cfg::<576460752303423489>());
    v.push(u128_::cfg::<4611686018427387904>());
    v.push(small_::cfg::<4>());
    v.push(small_::cfg::<15>());
    v.push(small_::cfg::<65>());
    v.push(small_::cfg::<511>());
    v.push(small_::cfg::<2048>());
    v.push(small_::cfg::<16383>());
    v.push(small_::cfg::<65537>());
    v.push(small_::cfg::<524288>());
    v.push(small_::cfg::<3145728>());
    v.push(small_::cfg::<16777216>());
    v.push(small_::cfg::<134217727>());
    v.push(small_::cfg::<536870913>());
    v.push(small_::cfg::<4294967295>());
}
