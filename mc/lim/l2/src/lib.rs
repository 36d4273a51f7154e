// generated by tools/gen_lim.py
use limsut::*;
pub fn all(v: &mut Vec<Cfg>) {
    v.push(u8_::cfg::<4>());
    v.push(u8_::cfg::<12>());
    v.push(u8_::cfg::<20>());
    v.push(u8_::cfg::<28>());
    v.push(u8_::cfg::<36>());
    v.push(u8_::cfg::<44>());
    v.push(u8_::cfg::<52>());
    v.push(u8_::cfg::<60>());
    v.push(u8_::cfg::<68>());
    v.push(u8_::cfg::<76>());
    v.push(u8_::cfg::<84>());
    v.push(u8_::cfg::<92>());
    v.push(u8_::cfg::<100>());
    v.push(u8_::cfg::<108>());
    v.push(u8_::cfg::<116>());
    v.push(u8_::cfg::<124>());
    v.push(u8_::cfg::<132>());
    v.push(u8_::cfg::<140>());
    v.push(u8_::cfg::<148>());
    v.push(u8_::cfg::<156>());
    v.push(u8_::cfg::<164>());
    v.push(u8_::cfg::<172>());
    v.push(u8_::cfg::<180>());
    v.push(u8_::cfg::<188>());
    v.push(u8_::cfg::<196>());
    v.push(u8_::cfg::<204>());
    v.push(u8_::cfg::<212>());
    v.push(u8_::cfg::<220>());
    v.push(u8_::cfg::<228>());
    v.push(u8_::cfg::<236>());
    v.push(u8_::cfg::<244>());
    v.push(u8_::cfg::<252>());
    v.push(u16_::cfg::<5>());
    v.push(u16_::cfg::<16>());
    v.push(u16_::cfg::<100>());
    v.push(u16_::cfg::<512>());
    v.push(u16_::cfg::<2049>());
    v.push(u16_::cfg::<16384>());
    v.push(u32_::cfg::<3>());
    v.push(u32_::cfg::<12>());
    v.push(u32_::cfg::<64>());
    v.push(u32_::cfg::<257>());
    v.push(u32_::cfg::<2047>());
    v.push(u32_::cfg::<8193>());
    v.push(u32_::cfg::<65536>());
    v.push(u32_::cfg::<524287>());
    v.push(u32_::cfg::<2097153>());
    v.push(u32_::cfg::<16777215>());
    v.push(u32_::cfg::<67108865>());
    v.push(u32_::cfg::<536870912>());
    v.push(u32_::cfg::<2147483649>());
    v.push(u64_::cfg::<7>());
    v.push(u64_::cfg::<31>());
    v.push(u64_::cfg::<128>());
    v.push(u64_::cfg::<1000>());
    v.push(u64_::cfg::<4096>());
    v.push(u64_::cfg::<32767>());
    v.push(u64_::cfg::<131073>());
    v.push(u64_::cfg::<1048576>());
    v.push(u64_::cfg::<4194305>());
    v.push(u64_::cfg::<33554432>());
    v.push(u64_::cfg::<268435455>());
    v.push(u64_::cfg::<1073741824>());
    v.push(u64_::cfg::<8589934591>());
    v.push(u64_::cfg::<34359738369>());
    v.push(u64_::cfg::<274877906944>());
    v.push(u64_::cfg::<2199023255551>());
    v.push(u64_::cfg::<8796093022209>());
    v.push(u64_::cfg::<70368744177664>());
    v.push(u64_::cfg::<562949953421311>());
    v.push(u64_::cfg::<2251799813685248>());
    v.push(u64_::cfg::<18014398509481983>());
    v.push(u64_::cfg::<72057594037927937>());
    v.push(u64_::cfg::<576460752303423488>());
    v.push(u64_::cfg::<4611686018427387903>());
    v.push(u128_::cfg::<3>());
    v.push(u128_::cfg::<12>());
    v.push(u128_::cfg::<64>());
    v.push(u128_::cfg::<257>());
    v.push(u128_::cfg::<2047>());
    v.push(u128_::cfg::<8193>());
    v.push(u128_::cfg::<65536>());
    v.push(u128_::cfg::<524287>());
    v.push(u128_::cfg::<2097153>());
    v.push(u128_::cfg::<16777215>());
    v.push(u128_::cfg::<67108865>());
    v.push(u128_::cfg::<536870912>());
    v.push(u128_::cfg::<2147483649>());
    v.push(u128_::cfg::<17179869184>());
    v.push(u128_::cfg::<137438953471>());
    v.push(u128_::cfg::<549755813889>());
    v.push(u128_::cfg::<4398046511104>());
    v.push(u128_::cfg::<35184372088831>());
    v.push(u128_::cfg::<140737488355329>());
    v.push(u128_::cfg::<1125899906842623>());
    v.push(u128_::cfg::<4503599627370497>());
    v.push(u128_::cfg::<36028797018963968>());
    v.push(u128_::cfg::<288230376151711743>());
    v.push(u128_::cfg::<1152921504606846977>());
    v.push(u128_::cfg::<9223372036854775808>());
    v.push(small_::cfg::<7>());
    v.push(small_::cfg::<31>());
    v.push(small_::cfg::<128>());
    v.push(small_::cfg::<1000>());
    v.push(small_::cfg::<4096>());
    v.push(small_::cfg::<32767>());
    v.push(small_::cfg::<131073>());
    v.push(small_::cfg::<1048576>());
    v.push(small_::cfg::<4194305>());
    v.push(small_::cfg::<33554432>());
    v.push(small_::cfg::<268435455>());
    v.push(small_::cfg::<1073741824>());
}
