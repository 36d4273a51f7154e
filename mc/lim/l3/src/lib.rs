// generated by tools/gen_lim.py
use limsut::*;
pub fn all(v: &mut Vec<Cfg>) {
    v.push(u8_::cfg::<5>());
    v.push(u8_::cfg::<13>());
    v.push(u8_::cfg::<21>());
    v.push(u8_::cfg::<29>());
    v.push(u8_::cfg::<37>());
    v.push(u8_::cfg::<45>());
    v.push(u8_::cfg::<53>());
    v.push(u8_::cfg::<61>());
    v.push(u8_::cfg::<69>());
    v.push(u8_::cfg::<77>());
    v.push(u8_::cfg::<85>());
    v.push(u8_::cfg::<93>());
    v.push(u8_::cfg::<101>());
    v.push(u8_::cfg::<109>());
    v.push(u8_::cfg::<117>());
    v.push(u8_::cfg::<125>());
    v.push(u8_::cfg::<133>());
    v.push(u8_::cfg::<141>());
    v.push(u8_::cfg::<149>());
    v.push(u8_::cfg::<157>());
    v.push(u8_::cfg::<165>());
    v.push(u8_::cfg::<173>());
    v.push(u8_::cfg::<181>());
    v.push(u8_::cfg::<189>());
    v.push(u8_::cfg::<197>());
    v.push(u8_::cfg::<205>());
    v.push(u8_::cfg::<213>());
    v.push(u8_::cfg::<221>());
    v.push(u8_::cfg::<229>());
    v.push(u8_::cfg::<237>());
    v.push(u8_::cfg::<245>());
    v.push(u8_::cfg::<253>());
    v.push(u16_::cfg::<6>());
    v.push(u16_::cfg::<17>());
    v.push(u16_::cfg::<127>());
    v.push(u16_::cfg::<513>());
    v.push(u16_::cfg::<4095>());
    v.push(u16_::cfg::<16385>());
    v.push(u32_::cfg::<4>());
    v.push(u32_::cfg::<15>());
    v.push(u32_::cfg::<65>());
    v.push(u32_::cfg::<511>());
    v.push(u32_::cfg::<2048>());
    v.push(u32_::cfg::<16383>());
    v.push(u32_::cfg::<65537>());
    v.push(u32_::cfg::<524288>());
    v.push(u32_::cfg::<3145728>());
    v.push(u32_::cfg::<16777216>());
    v.push(u32_::cfg::<134217727>());
    v.push(u32_::cfg::<536870913>());
    v.push(u32_::cfg::<4294967295>());
    v.push(u64_::cfg::<8>());
    v.push(u64_::cfg::<32>());
    v.push(u64_::cfg::<129>());
    v.push(u64_::cfg::<1023>());
    v.push(u64_::cfg::<4097>());
    v.push(u64_::cfg::<32768>());
    v.push(u64_::cfg::<262143>());
    v.push(u64_::cfg::<1048577>());
    v.push(u64_::cfg::<8388607>());
    v.push(u64_::cfg::<33554433>());
    v.push(u64_::cfg::<268435456>());
    v.push(u64_::cfg::<1073741825>());
    v.push(u64_::cfg::<8589934592>());
    v.push(u64_::cfg::<68719476735>());
    v.push(u64_::cfg::<274877906945>());
    v.push(u64_::cfg::<2199023255552>());
    v.push(u64_::cfg::<17592186044415>());
    v.push(u64_::cfg::<70368744177665>());
    v.push(u64_::cfg::<562949953421312>());
    v.push(u64_::cfg::<2251799813685249>());
    v.push(u64_::cfg::<18014398509481984>());
    v.push(u64_::cfg::<144115188075855871>());
    v.push(u64_::cfg::<576460752303423489>());
    v.push(u64_::cfg::<4611686018427387904>());
    v.push(u128_::cfg::<4>());
    v.push(u128_::cfg::<15>());
    v.push(u128_::cfg::<65>());
    v.push(u128_::cfg::<511>());
    v.push(u128_::cfg::<2048>());
    v.push(u128_::cfg::<16383>());
    v.push(u128_::cfg::<65537>());
    v.push(u128_::cfg::<524288>());
    v.push(u128_::cfg::<3145728>());
    v.push(u128_::cfg::<16777216>());
    v.push(u128_::cfg::<134217727>());
    v.push(u128_::cfg::<536870913>());
    v.push(u128_::cfg::<4294967295>());
    v.push(u128_::cfg::<17179869185>());
    v.push(u128_::cfg::<137438953472>());
    v.push(u128_::cfg::<1099511627775>());
    v.push(u128_::cfg::<4398046511105>());
    v.push(u128_::cfg::<35184372088832>());
    v.push(u128_::cfg::<281474976710655>());
    v.push(u128_::cfg::<1125899906842624>());
    v.push(u128_::cfg::<9007199254740991>());
    v.push(u128_::cfg::<36028797018963969>());
    v.push(u128_::cfg::<288230376151711744>());
    v.push(u128_::cfg::<2305843009213693951>());
    v.push(u128_::cfg::<9223372036854775809>());
    v.push(small_::cfg::<8>());
    v.push(small_::cfg::<32>());
    v.push(small_::cfg::<129>());
    v.push(small_::cfg::<1023>());
    v.push(small_::cfg::<4097>());
    v.push(small_::cfg::<32768>());
    v.push(small_::cfg::<262143>());
    v.push(small_::cfg::<1048577>());
    v.push(small_::cfg::<8388607>());
    v.push(small_::cfg::<33554433>());
    v.push(small_::cfg::<268435456>());
    v.push(small_::cfg::<1073741825>());
}
