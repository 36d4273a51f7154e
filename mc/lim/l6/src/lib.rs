// generated by tools/gen_lim.py
use limsut::*;
pub fn all(v: &mut Vec<Cfg>) {
    v.push(u8_::cfg::<8>());
    v.push(u8_::cfg::<16>());
    v.push(u8_::cfg::<24>());
    v.push(u8_::cfg::<32>());
    v.push(u8_::cfg::<40>());
    v.push(u8_::cfg::<48>());
    v.push(u8_::cfg::<56>());
    v.push(u8_::cfg::<64>());
    v.push(u8_::cfg::<72>());
    v.push(u8_::cfg::<80>());
    v.push(u8_::cfg::<88>());
    v.push(u8_::cfg::<96>());
    v.push(u8_::cfg::<104>());
    v.push(u8_::cfg::<112>());
    v.push(u8_::cfg::<120>());
    v.push(u8_::cfg::<128>());
    v.push(u8_::cfg::<136>());
    v.push(u8_::cfg::<144>());
    v.push(u8_::cfg::<152>());
    v.push(u8_::cfg::<160>());
    v.push(u8_::cfg::<168>());
    v.push(u8_::cfg::<176>());
    v.push(u8_::cfg::<184>());
    v.push(u8_::cfg::<192>());
    v.push(u8_::cfg::<200>());
    v.push(u8_::cfg::<208>());
    v.push(u8_::cfg::<216>());
    v.push(u8_::cfg::<224>());
    v.push(u8_::cfg::<232>());
    v.push(u8_::cfg::<240>());
    v.push(u8_::cfg::<248>());
    v.push(u8_::cfg::<256>());
    v.push(u16_::cfg::<9>());
    v.push(u16_::cfg::<33>());
    v.push(u16_::cfg::<255>());
    v.push(u16_::cfg::<1024>());
    v.push(u16_::cfg::<8191>());
    v.push(u16_::cfg::<32769>());
    v.push(u32_::cfg::<7>());
    v.push(u32_::cfg::<31>());
    v.push(u32_::cfg::<128>());
    v.push(u32_::cfg::<1000>());
    v.push(u32_::cfg::<4096>());
    v.push(u32_::cfg::<32767>());
    v.push(u32_::cfg::<131073>());
    v.push(u32_::cfg::<1048576>());
    v.push(u32_::cfg::<4194305>());
    v.push(u32_::cfg::<33554432>());
    v.push(u32_::cfg::<268435455>());
    v.push(u32_::cfg::<1073741824>());
    v.push(u64_::cfg::<3>());
    v.push(u64_::cfg::<12>());
    v.push(u64_::cfg::<64>());
    v.push(u64_::cfg::<257>());
    v.push(u64_::cfg::<2047>());
    v.push(u64_::cfg::<8193>());
    v.push(u64_::cfg::<65536>());
    v.push(u64_::cfg::<524287>());
    v.push(u64_::cfg::<2097153>());
    v.push(u64_::cfg::<16777215>());
    v.push(u64_::cfg::<67108865>());
    v.push(u64_::cfg::<536870912>());
    v.push(u64_::cfg::<2147483649>());
    v.push(u64_::cfg::<17179869184>());
    v.push(u64_::cfg::<137438953471>());
    v.push(u64_::cfg::<549755813889>());
    v.push(u64_::cfg::<4398046511104>());
    v.push(u64_::cfg::<35184372088831>());
    v.push(u64_::cfg::<140737488355329>());
    v.push(u64_::cfg::<1125899906842623>());
    v.push(u64_::cfg::<4503599627370497>());
    v.push(u64_::cfg::<36028797018963968>());
    v.push(u64_::cfg::<288230376151711743>());
    v.push(u64_::cfg::<1152921504606846977>());
    v.push(u64_::cfg::<9223372036854775808>());
    v.push(u128_::cfg::<7>());
    v.push(u128_::cfg::<31>());
    v.push(u128_::cfg::<128>());
    v.push(u128_::cfg::<1000>());
    v.push(u128_::cfg::<4096>());
    v.push(u128_::cfg::<32767>());
    v.push(u128_::cfg::<131073>());
    v.push(u128_::cfg::<1048576>());
    v.push(u128_::cfg::<4194305>());
    v.push(u128_::cfg::<33554432>());
    v.push(u128_::cfg::<268435455>());
    v.push(u128_::cfg::<1073741824>());
    v.push(u128_::cfg::<8589934591>());
    v.push(u128_::cfg::<34359738369>());
    v.push(u128_::cfg::<274877906944>());
    v.push(u128_::cfg::<2199023255551>());
    v.push(u128_::cfg::<8796093022209>());
    v.push(u128_::cfg::<70368744177664>());
    v.push(u128_::cfg::<562949953421311>());
    v.push(u128_::cfg::<2251799813685248>());
    v.push(u128_::cfg::<18014398509481983>());
    v.push(u128_::cfg::<72057594037927937>());
    v.push(u128_::cfg::<576460752303423488>());
    v.push(u128_::cfg::<4611686018427387903>());
    v.push(small_::cfg::<3>());
    v.push(small_::cfg::<12>());
    v.push(small_::cfg::<64>());
    v.push(small_::cfg::<257>());
    v.push(small_::cfg::<2047>());
    v.push(small_::cfg::<8193>());
    v.push(small_::cfg::<65536>());
    v.push(small_::cfg::<524287>());
    v.push(small_::cfg::<2097153>());
    v.push(small_::cfg::<16777215>());
    v.push(small_::cfg::<67108865>());
    v.push(small_::cfg::<536870912>());
    v.push(small_::cfg::<2147483649>());
}
