// generated by tools/gen_lim.py
use limsut::*;
pub fn all(v: &mut Vec<Cfg>) {
    v.push(u8_::cfg::<7>());
    v.push(u8_::cfg::<15>());
    v.push(u8_::cfg::<23>());
    v.push(u8_::cfg::<31>());
    v.push(u8_::cfg::<39>());
    v.push(u8_::cfg::<47>());
    v.push(u8_::cfg::<55>());
    v.push(u8_::cfg::<63>());
    v.push(u8_::cfg::<71>());
    v.push(u8_::cfg::<79>());
    v.push(u8_::cfg::<87>());
    v.push(u8_::cfg::<95>());
    v.push(u8_::cfg::<103>());
    v.push(u8_::cfg::<111>());
    v.push(u8_::cfg::<119>());
    v.push(u8_::cfg::<127>());
    v.push(u8_::cfg::<135>());
    v.push(u8_::cfg::<143>());
    v.push(u8_::cfg::<151>());
    v.push(u8_::cfg::<159>());
    v.push(u8_::cfg::<167>());
    v.push(u8_::cfg::<175>());
    v.push(u8_::cfg::<183>());
    v.push(u8_::cfg::<191>());
    v.push(u8_::cfg::<199>());
    v.push(u8_::cfg::<207>());
    v.push(u8_::cfg::<215>());
    v.push(u8_::cfg::<223>());
    v.push(u8_::cfg::<231>());
    v.push(u8_::cfg::<239>());
    v.push(u8_::cfg::<247>());
    v.push(u8_::cfg::<255>());
    v.push(u16_::cfg::<8>());
    v.push(u16_::cfg::<32>());
    v.push(u16_::cfg::<129>());
    v.push(u16_::cfg::<1023>());
    v.push(u16_::cfg::<4097>());
    v.push(u16_::cfg::<32768>());
    v.push(u32_::cfg::<6>());
    v.push(u32_::cfg::<17>());
    v.push(u32_::cfg::<127>());
    v.push(u32_::cfg::<513>());
    v.push(u32_::cfg::<4095>());
    v.push(u32_::cfg::<16385>());
    v.push(u32_::cfg::<131072>());
    v.push(u32_::cfg::<1048575>());
    v.push(u32_::cfg::<4194304>());
    v.push(u32_::cfg::<33554431>());
    v.push(u32_::cfg::<134217729>());
    v.push(u32_::cfg::<1073741823>());
    v.push(u64_::cfg::<2>());
    v.push(u64_::cfg::<10>());
    v.push(u64_::cfg::<63>());
    v.push(u64_::cfg::<256>());
    v.push(u64_::cfg::<1025>());
    v.push(u64_::cfg::<8192>());
    v.push(u64_::cfg::<65535>());
    v.push(u64_::cfg::<262145>());
    v.push(u64_::cfg::<2097152>());
    v.push(u64_::cfg::<8388609>());
    v.push(u64_::cfg::<67108864>());
    v.push(u64_::cfg::<536870911>());
    v.push(u64_::cfg::<2147483648>());
    v.push(u64_::cfg::<17179869183>());
    v.push(u64_::cfg::<68719476737>());
    v.push(u64_::cfg::<549755813888>());
    v.push(u64_::cfg::<4398046511103>());
    v.push(u64_::cfg::<17592186044417>());
    v.push(u64_::cfg::<140737488355328>());
    v.push(u64_::cfg::<1000000000000000>());
    v.push(u64_::cfg::<4503599627370496>());
    v.push(u64_::cfg::<36028797018963967>());
    v.push(u64_::cfg::<144115188075855873>());
    v.push(u64_::cfg::<1152921504606846976>());
    v.push(u64_::cfg::<9223372036854775807>());
    v.push(u128_::cfg::<6>());
    v.push(u128_::cfg::<17>());
    v.push(u128_::cfg::<127>());
    v.push(u128_::cfg::<513>());
    v.push(u128_::cfg::<4095>());
    v.push(u128_::cfg::<16385>());
    v.push(u128_::cfg::<131072>());
    v.push(u128_::cfg::<1048575>());
    v.push(u128_::cfg::<4194304>());
    v.push(u128_::cfg::<33554431>());
    v.push(u128_::cfg::<134217729>());
    v.push(u128_::cfg::<1073741823>());
    v.push(u128_::cfg::<4294967297>());
    v.push(u128_::cfg::<34359738368>());
    v.push(u128_::cfg::<274877906943>());
    v.push(u128_::cfg::<1099511627777>());
    v.push(u128_::cfg::<8796093022208>());
    v.push(u128_::cfg::<70368744177663>());
    v.push(u128_::cfg::<281474976710657>());
    v.push(u128_::cfg::<2251799813685247>());
    v.push(u128_::cfg::<9007199254740993>());
    v.push(u128_::cfg::<72057594037927936>());
    v.push(u128_::cfg::<576460752303423487>());
    v.push(u128_::cfg::<2305843009213693953>());
    v.push(small_::cfg::<2>());
    v.push(small_::cfg::<10>());
    v.push(small_::cfg::<63>());
    v.push(small_::cfg::<256>());
    v.push(small_::cfg::<1025>());
    v.push(small_::cfg::<8192>());
    v.push(small_::cfg::<65535>());
    v.push(small_::cfg::<262145>());
    v.push(small_::cfg::<2097152>());
    v.push(small_::cfg::<8388609>());
    v.push(small_::cfg::<67108864>());
    v.push(small_::cfg::<536870911>());
    v.push(small_::cfg::<2147483648>());
}
