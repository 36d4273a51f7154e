// generated by tools/gen_lim.py
use limsut::*;
pub fn all(v: &mut Vec<Cfg>) {
    v.push(u8_::cfg::<3>());
    v.push(u8_::cfg::<11>());
    v.push(u8_::cfg::<19>());
    v.push(u8_::cfg::<27>());
    v.push(u8_::cfg::<35>());
    v.push(u8_::cfg::<43>());
    v.push(u8_::cfg::<51>());
    v.push(u8_::cfg::<59>());
    v.push(u8_::cfg::<67>());
    v.push(u8_::cfg::<75>());
    v.push(u8_::cfg::<83>());
    v.push(u8_::cfg::<91>());
    v.push(u8_::cfg::<99>());
    v.push(u8_::cfg::<107>());
    v.push(u8_::cfg::<115>());
    v.push(u8_::cfg::<123>());
    v.push(u8_::cfg::<131>());
    v.push(u8_::cfg::<139>());
    v.push(u8_::cfg::<147>());
    v.push(u8_::cfg::<155>());
    v.push(u8_::cfg::<163>());
    v.push(u8_::cfg::<171>());
    v.push(u8_::cfg::<179>());
    v.push(u8_::cfg::<187>());
    v.push(u8_::cfg::<195>());
    v.push(u8_::cfg::<203>());
    v.push(u8_::cfg::<211>());
    v.push(u8_::cfg::<219>());
    v.push(u8_::cfg::<227>());
    v.push(u8_::cfg::<235>());
    v.push(u8_::cfg::<243>());
    v.push(u8_::cfg::<251>());
    v.push(u16_::cfg::<4>());
    v.push(u16_::cfg::<15>());
    v.push(u16_::cfg::<65>());
    v.push(u16_::cfg::<511>());
    v.push(u16_::cfg::<2048>());
    v.push(u16_::cfg::<16383>());
    v.push(u32_::cfg::<2>());
    v.push(u32_::cfg::<10>());
    v.push(u32_::cfg::<63>());
    v.push(u32_::cfg::<256>());
    v.push(u32_::cfg::<1025>());
    v.push(u32_::cfg::<8192>());
    v.push(u32_::cfg::<65535>());
    v.push(u32_::cfg::<262145>());
    v.push(u32_::cfg::<2097152>());
    v.push(u32_::cfg::<8388609>());
    v.push(u32_::cfg::<67108864>());
    v.push(u32_::cfg::<536870911>());
    v.push(u32_::cfg::<2147483648>());
    v.push(u64_::cfg::<6>());
    v.push(u64_::cfg::<17>());
    v.push(u64_::cfg::<127>());
    v.push(u64_::cfg::<513>());
    v.push(u64_::cfg::<4095>());
    v.push(u64_::cfg::<16385>());
    v.push(u64_::cfg::<131072>());
    v.push(u64_::cfg::<1048575>());
    v.push(u64_::cfg::<4194304>());
    v.push(u64_::cfg::<33554431>());
    v.push(u64_::cfg::<134217729>());
    v.push(u64_::cfg::<1073741823>());
    v.push(u64_::cfg::<4294967297>());
    v.push(u64_::cfg::<34359738368>());
    v.push(u64_::cfg::<274877906943>());
    v.push(u64_::cfg::<1099511627777>());
    v.push(u64_::cfg::<8796093022208>());
    v.push(u64_::cfg::<70368744177663>());
    v.push(u64_::cfg::<281474976710657>());
    v.push(u64_::cfg::<2251799813685247>());
    v.push(u64_::cfg::<9007199254740993>());
    v.push(u64_::cfg::<72057594037927936>());
    v.push(u64_::cfg::<576460752303423487>());
    v.push(u64_::cfg::<2305843009213693953>());
    v.push(u128_::cfg::<2>());
    v.push(u128_::cfg::<10>());
    v.push(u128_::cfg::<63>());
    v.push(u128_::cfg::<256>());
    v.push(u128_::cfg::<1025>());
    v.push(u128_::cfg::<8192>());
    v.push(u128_::cfg::<65535>());
    v.push(u128_::cfg::<262145>());
    v.push(u128_::cfg::<2097152>());
    v.push(u128_::cfg::<8388609>());
    v.push(u128_::cfg::<67108864>());
    v.push(u128_::cfg::<536870911>());
    v.push(u128_::cfg::<2147483648>());
    v.push(u128_::cfg::<17179869183>());
    v.push(u128_::cfg::<68719476737>());
    v.push(u128_::cfg::<549755813888>());
    v.push(u128_::cfg::<4398046511103>());
    v.push(u128_::cfg::<17592186044417>());
    v.push(u128_::cfg::<140737488355328>());
    v.push(u128_::cfg::<1000000000000000>());
    v.push(u128_::cfg::<4503599627370496>());
    v.push(u128_::cfg::<36028797018963967>());
    v.push(u128_::cfg::<144115188075855873>());
    v.push(u128_::cfg::<1152921504606846976>());
    v.push(u128_::cfg::<9223372036854775807>());
    v.push(small_::cfg::<6>());
    v.push(small_::cfg::<17>());
    v.push(small_::cfg::<127>());
    v.push(small_::cfg::<513>());
    v.push(small_::cfg::<4095>());
    v.push(small_::cfg::<16385>());
    v.push(small_::cfg::<131072>());
    v.push(small_::cfg::<1048575>());
    v.push(small_::cfg::<4194304>());
    v.push(small_::cfg::<33554431>());
    v.push(small_::cfg::<134217729>());
    v.push(small_::cfg::<1073741823>());
}
