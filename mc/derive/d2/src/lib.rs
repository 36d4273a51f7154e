// generated by tools/gen_derive.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use enum_like_derive::EnumLike;
use likesut::*;
fn pick<T: Spec>(r: &mut u128) -> T {
    let c = T::count();
    let v = T::make(*r % c);
    *r /= c;
    v
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2  { Mid, Zed }
impl Spec for E2 {
    fn count() -> u128 { 2u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2::Mid; } i -= 1;
        if i == 0 { return E2::Zed; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2::Mid => 0u128,
            E2::Zed => 1u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E10  { V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43, V42, V41, V40, V39, V38, V37, V36, V35, V34, V33, V32, V31, V30, V29, V28, V27, V26, V25, V24, V23, V22, V21, V20, V19, V18, V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E10 {
    fn count() -> u128 { 64u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E10::V64; } i -= 1;
        if i == 0 { return E10::V63; } i -= 1;
        if i == 0 { return E10::V62; } i -= 1;
        if i == 0 { return E10::V61; } i -= 1;
        if i == 0 { return E10::V60; } i -= 1;
        if i == 0 { return E10::V59; } i -= 1;
        if i == 0 { return E10::V58; } i -= 1;
        if i == 0 { return E10::V57; } i -= 1;
        if i == 0 { return E10::V56; } i -= 1;
        if i == 0 { return E10::V55; } i -= 1;
        if i == 0 { return E10::V54; } i -= 1;
        if i == 0 { return E10::V53; } i -= 1;
        if i == 0 { return E10::V52; } i -= 1;
        if i == 0 { return E10::V51; } i -= 1;
        if i == 0 { return E10::V50; } i -= 1;
        if i == 0 { return E10::V49; } i -= 1;
        if i == 0 { return E10::V48; } i -= 1;
        if i == 0 { return E10::V47; } i -= 1;
        if i == 0 { return E10::V46; } i -= 1;
        if i == 0 { return E10::V45; } i -= 1;
        if i == 0 { return E10::V44; } i -= 1;
        if i == 0 { return E10::V43; } i -= 1;
        if i == 0 { return E10::V42; } i -= 1;
        if i == 0 { return E10::V41; } i -= 1;
        if i == 0 { return E10::V40; } i -= 1;
        if i == 0 { return E10::V39; } i -= 1;
        if i == 0 { return E10::V38; } i -= 1;
        if i == 0 { return E10::V37; } i -= 1;
        if i == 0 { return E10::V36; } i -= 1;
        if i == 0 { return E10::V35; } i -= 1;
        if i == 0 { return E10::V34; } i -= 1;
        if i == 0 { return E10::V33; } i -= 1;
        if i == 0 { return E10::V32; } i -= 1;
        if i == 0 { return E10::V31; } i -= 1;
        if i == 0 { return E10::V30; } i -= 1;
        if i == 0 { return E10::V29; } i -= 1;
        if i == 0 { return E10::V28; } i -= 1;
        if i == 0 { return E10::V27; } i -= 1;
        if i == 0 { return E10::V26; } i -= 1;
        if i == 0 { return E10::V25; } i -= 1;
        if i == 0 { return E10::V24; } i -= 1;
        if i == 0 { return E10::V23; } i -= 1;
        if i == 0 { return E10::V22; } i -= 1;
        if i == 0 { return E10::V21; } i -= 1;
        if i == 0 { return E10::V20; } i -= 1;
        if i == 0 { return E10::V19; } i -= 1;
        if i == 0 { return E10::V18; } i -= 1;
        if i == 0 { return E10::V17; } i -= 1;
        if i == 0 { return E10::V16; } i -= 1;
        if i == 0 { return E10::V15; } i -= 1;
        if i == 0 { return E10::V14; } i -= 1;
        if i == 0 { return E10::V13; } i -= 1;
        if i == 0 { return E10::V12; } i -= 1;
        if i == 0 { return E10::V11; } i -= 1;
        if i == 0 { return E10::V10; } i -= 1;
        if i == 0 { return E10::V9; } i -= 1;
        if i == 0 { return E10::V8; } i -= 1;
        if i == 0 { return E10::V7; } i -= 1;
        if i == 0 { return E10::V6; } i -= 1;
        if i == 0 { return E10::V5; } i -= 1;
        if i == 0 { return E10::V4; } i -= 1;
        if i == 0 { return E10::V3; } i -= 1;
        if i == 0 { return E10::V2; } i -= 1;
        if i == 0 { return E10::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E10::V64 => 0u128,
            E10::V63 => 1u128,
            E10::V62 => 2u128,
            E10::V61 => 3u128,
            E10::V60 => 4u128,
            E10::V59 => 5u128,
            E10::V58 => 6u128,
            E10::V57 => 7u128,
            E10::V56 => 8u128,
            E10::V55 => 9u128,
            E10::V54 => 10u128,
            E10::V53 => 11u128,
            E10::V52 => 12u128,
            E10::V51 => 13u128,
            E10::V50 => 14u128,
            E10::V49 => 15u128,
            E10::V48 => 16u128,
            E10::V47 => 17u128,
            E10::V46 => 18u128,
            E10::V45 => 19u128,
            E10::V44 => 20u128,
            E10::V43 => 21u128,
            E10::V42 => 22u128,
            E10::V41 => 23u128,
            E10::V40 => 24u128,
            E10::V39 => 25u128,
            E10::V38 => 26u128,
            E10::V37 => 27u128,
            E10::V36 => 28u128,
            E10::V35 => 29u128,
            E10::V34 => 30u128,
            E10::V33 => 31u128,
            E10::V32 => 32u128,
            E10::V31 => 33u128,
            E10::V30 => 34u128,
            E10::V29 => 35u128,
            E10::V28 => 36u128,
            E10::V27 => 37u128,
            E10::V26 => 38u128,
            E10::V25 => 39u128,
            E10::V24 => 40u128,
            E10::V23 => 41u128,
            E10::V22 => 42u128,
            E10::V21 => 43u128,
            E10::V20 => 44u128,
            E10::V19 => 45u128,
            E10::V18 => 46u128,
            E10::V17 => 47u128,
            E10::V16 => 48u128,
            E10::V15 => 49u128,
            E10::V14 => 50u128,
            E10::V13 => 51u128,
            E10::V12 => 52u128,
            E10::V11 => 53u128,
            E10::V10 => 54u128,
            E10::V9 => 55u128,
            E10::V8 => 56u128,
            E10::V7 => 57u128,
            E10::V6 => 58u128,
            E10::V5 => 59u128,
            E10::V4 => 60u128,
            E10::V3 => 61u128,
            E10::V2 => 62u128,
            E10::V1 => 63u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E18  { Mid, Zed = 100, Alpha }
impl Spec for E18 {
    fn count() -> u128 { 3u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E18::Mid; } i -= 1;
        if i == 0 { return E18::Zed; } i -= 1;
        if i == 0 { return E18::Alpha; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E18::Mid => 0u128,
            E18::Zed => 1u128,
            E18::Alpha => 2u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E26  { Mid = 1, Zed = 2, Alpha = 4, Quux = 8 }
impl Spec for E26 {
    fn count() -> u128 { 4u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E26::Mid; } i -= 1;
        if i == 0 { return E26::Zed; } i -= 1;
        if i == 0 { return E26::Alpha; } i -= 1;
        if i == 0 { return E26::Quux; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E26::Mid => 0u128,
            E26::Zed => 1u128,
            E26::Alpha => 2u128,
            E26::Quux => 3u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E34  { Mid(Tri) }
impl Spec for E34 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E34::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E34::Mid(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E42  { Mid((), Tri) }
impl Spec for E42 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E42::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E42::Mid(f0, f1) => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E50  { Mid(Never, Tri) }
impl Spec for E50 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); return E50::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E50::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E58  { Mid { m: (), z: Tri } }
impl Spec for E58 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E58::Mid { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E58::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E66  { Mid { m: Never, z: Tri } }
impl Spec for E66 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); return E66::Mid { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E66::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E74  { Mid((), (), Tri) }
impl Spec for E74 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return E74::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E74::Mid(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E82  { Mid((), Never, Tri) }
impl Spec for E82 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Tri>(&mut r); return E82::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E82::Mid(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E90  { Mid(bool, (), Tri) }
impl Spec for E90 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return E90::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E90::Mid(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E98  { Mid(bool, Never, Tri) }
impl Spec for E98 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Tri>(&mut r); return E98::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E98::Mid(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E106  { Mid(Never, (), Tri) }
impl Spec for E106 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return E106::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E106::Mid(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E114  { Mid(Never, Never, Tri) }
impl Spec for E114 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Tri>(&mut r); return E114::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E114::Mid(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E122  { Mid(Tri, (), Tri) }
impl Spec for E122 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return E122::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E122::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E130  { Mid(Tri, Never, Tri) }
impl Spec for E130 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Tri>(&mut r); return E130::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E130::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E138  { Mid(Two, One, Tri, bool) }
impl Spec for E138 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() * <One as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count() * <One as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); let f1 = pick::<One>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<bool>(&mut r); return E138::Mid(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E138::Mid(f0, f1, f2, f3) => 0u128 + f0.index() + <Two as Spec>::count() * f1.index() + <Two as Spec>::count() * <One as Spec>::count() * f2.index() + <Two as Spec>::count() * <One as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E146  { Mid, Zed(bool, Tri) }
impl Spec for E146 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E146::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E146::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E146::Mid => 0u128,
            E146::Zed(f0, f1) => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E154  { Mid(()), Zed(Never) }
impl Spec for E154 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E154::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E154::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E154::Mid(f0) => 0u128 + f0.index(),
            E154::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E162  { Mid(()), Zed { m: (), z: Tri } }
impl Spec for E162 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E162::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E162::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E162::Mid(f0) => 0u128 + f0.index(),
            E162::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E170  { Mid(bool), Zed(bool, Tri) }
impl Spec for E170 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E170::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E170::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E170::Mid(f0) => 0u128 + f0.index(),
            E170::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E178  { Mid(Never), Zed(Never) }
impl Spec for E178 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E178::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E178::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E178::Mid(f0) => 0u128 + f0.index(),
            E178::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E186  { Mid(Never), Zed { m: (), z: Tri } }
impl Spec for E186 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E186::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E186::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E186::Mid(f0) => 0u128 + f0.index(),
            E186::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E194  { Mid(Tri), Zed(bool, Tri) }
impl Spec for E194 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E194::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E194::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E194::Mid(f0) => 0u128 + f0.index(),
            E194::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E202  { Mid { m: bool }, Zed(Never) }
impl Spec for E202 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E202::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E202::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E202::Mid { m: f0 } => 0u128 + f0.index(),
            E202::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E210  { Mid { m: bool }, Zed { m: (), z: Tri } }
impl Spec for E210 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E210::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E210::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E210::Mid { m: f0 } => 0u128 + f0.index(),
            E210::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E218  { Mid { m: Tri }, Zed(bool, Tri) }
impl Spec for E218 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E218::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E218::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E218::Mid { m: f0 } => 0u128 + f0.index(),
            E218::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E226  { Mid(bool, Tri), Zed(Never) }
impl Spec for E226 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E226::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E226::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E226::Mid(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E226::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E234  { Mid(bool, Tri), Zed { m: (), z: Tri } }
impl Spec for E234 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E234::Mid(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E234::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E234::Mid(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E234::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E242  { Mid { m: Tri, z: bool }, Zed(bool, Tri) }
impl Spec for E242 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E242::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E242::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E242::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E242::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E250  { Mid(Never, bool), Zed(Never) }
impl Spec for E250 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E250::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E250::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E250::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E250::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E258  { Mid(Never, bool), Zed { m: (), z: Tri } }
impl Spec for E258 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E258::Mid(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E258::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E258::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E258::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E266  { Mid(Tri, Two, Tri), Zed(bool, Tri) }
impl Spec for E266 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E266::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E266::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E266::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E266::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E274  { Mid { m: (), z: Tri }, Zed(Never) }
impl Spec for E274 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E274::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E274::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E274::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
            E274::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E282  { Mid { m: (), z: Tri }, Zed { m: (), z: Tri } }
impl Spec for E282 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E282::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E282::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E282::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
            E282::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E290  { Mid, Zed, Alpha { m: Never, z: bool } }
impl Spec for E290 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E290::Mid; } i -= 1;
        if i == 0 { return E290::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E290::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E290::Mid => 0u128,
            E290::Zed => 1u128,
            E290::Alpha { m: f0, z: f1 } => 2u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E298  { Mid, Zed(bool), Alpha(()) }
impl Spec for E298 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E298::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E298::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E298::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E298::Mid => 0u128,
            E298::Zed(f0) => 1u128 + f0.index(),
            E298::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E306  { Mid, Zed(Never), Alpha(Tri, bool) }
impl Spec for E306 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E306::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E306::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E306::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E306::Mid => 0u128,
            E306::Zed(f0) => 1u128 + f0.index(),
            E306::Alpha(f0, f1) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E314  { Mid, Zed { m: Tri }, Alpha(Never) }
impl Spec for E314 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E314::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E314::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E314::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E314::Mid => 0u128,
            E314::Zed { m: f0 } => 1u128 + f0.index(),
            E314::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E322  { Mid, Zed(Tri, bool), Alpha }
impl Spec for E322 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E322::Mid; } i -= 1;
        if i == 0 { return E322::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E322::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E322::Mid => 0u128,
            E322::Alpha => 1u128,
            E322::Zed(f0, f1) => 2u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E330  { Mid, Zed(Tri, bool), Alpha { m: Never, z: bool } }
impl Spec for E330 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E330::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E330::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E330::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E330::Mid => 0u128,
            E330::Zed(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E330::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E338  { Mid, Zed { m: bool, z: Tri }, Alpha(()) }
impl Spec for E338 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E338::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E338::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E338::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E338::Mid => 0u128,
            E338::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E338::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E346  { Mid, Zed(()), Alpha(Tri, bool) }
impl Spec for E346 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E346::Mid; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E346::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E346::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E346::Mid => 0u128,
            E346::Zed(f0) => 1u128 + f0.index(),
            E346::Alpha(f0, f1) => 1u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E354  { Mid, Zed(Tri, Two, Tri), Alpha(Never) }
impl Spec for E354 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E354::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E354::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E354::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E354::Mid => 0u128,
            E354::Zed(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E354::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E362  { Mid, Zed { m: Never, z: bool }, Alpha }
impl Spec for E362 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E362::Mid; } i -= 1;
        if i == 0 { return E362::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E362::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E362::Mid => 0u128,
            E362::Alpha => 1u128,
            E362::Zed { m: f0, z: f1 } => 2u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E370  { Mid, Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }
impl Spec for E370 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E370::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E370::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E370::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E370::Mid => 0u128,
            E370::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E370::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E378  { Mid, Zed(Option<bool>), Alpha(()) }
impl Spec for E378 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E378::Mid; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E378::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E378::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E378::Mid => 0u128,
            E378::Zed(f0) => 1u128 + f0.index(),
            E378::Alpha(f0) => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E386  { Mid(bool), Zed, Alpha(Tri, bool) }
impl Spec for E386 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E386::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E386::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E386::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E386::Zed => 0u128,
            E386::Mid(f0) => 1u128 + f0.index(),
            E386::Alpha(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E394  { Mid(bool), Zed(bool), Alpha(Never) }
impl Spec for E394 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E394::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E394::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E394::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E394::Mid(f0) => 0u128 + f0.index(),
            E394::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E394::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E402  { Mid(bool), Zed(Never), Alpha }
impl Spec for E402 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E402::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E402::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E402::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E402::Alpha => 0u128,
            E402::Mid(f0) => 1u128 + f0.index(),
            E402::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E410  { Mid(bool), Zed(Never), Alpha { m: Never, z: bool } }
impl Spec for E410 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E410::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E410::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E410::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E410::Mid(f0) => 0u128 + f0.index(),
            E410::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E410::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E418  { Mid(bool), Zed { m: Tri }, Alpha(()) }
impl Spec for E418 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E418::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E418::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E418::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E418::Mid(f0) => 0u128 + f0.index(),
            E418::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E418::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E426  { Mid(bool), Zed(Tri, bool), Alpha(Tri, bool) }
impl Spec for E426 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E426::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E426::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E426::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E426::Mid(f0) => 0u128 + f0.index(),
            E426::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E426::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E434  { Mid(bool), Zed { m: bool, z: Tri }, Alpha(Never) }
impl Spec for E434 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E434::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E434::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E434::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E434::Mid(f0) => 0u128 + f0.index(),
            E434::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E434::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E442  { Mid(bool), Zed(()), Alpha }
impl Spec for E442 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E442::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E442::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E442::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E442::Alpha => 0u128,
            E442::Mid(f0) => 1u128 + f0.index(),
            E442::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E450  { Mid(bool), Zed(()), Alpha { m: Never, z: bool } }
impl Spec for E450 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E450::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E450::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E450::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E450::Mid(f0) => 0u128 + f0.index(),
            E450::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E450::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E458  { Mid(bool), Zed(Tri, Two, Tri), Alpha(()) }
impl Spec for E458 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E458::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E458::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E458::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E458::Mid(f0) => 0u128 + f0.index(),
            E458::Zed(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E458::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E466  { Mid(bool), Zed { m: Never, z: bool }, Alpha(Tri, bool) }
impl Spec for E466 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E466::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E466::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E466::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E466::Mid(f0) => 0u128 + f0.index(),
            E466::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E466::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E474  { Mid(bool), Zed(Option<bool>), Alpha(Never) }
impl Spec for E474 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E474::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E474::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E474::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E474::Mid(f0) => 0u128 + f0.index(),
            E474::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E474::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E482  { Mid(Never), Zed, Alpha }
impl Spec for E482 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E482::Zed; } i -= 1;
        if i == 0 { return E482::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E482::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E482::Zed => 0u128,
            E482::Alpha => 1u128,
            E482::Mid(f0) => 2u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E490  { Mid(Never), Zed, Alpha { m: Never, z: bool } }
impl Spec for E490 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E490::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E490::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E490::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E490::Zed => 0u128,
            E490::Mid(f0) => 1u128 + f0.index(),
            E490::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E498  { Mid(Never), Zed(bool), Alpha(()) }
impl Spec for E498 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E498::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E498::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E498::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E498::Mid(f0) => 0u128 + f0.index(),
            E498::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E498::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E506  { Mid(Never), Zed(Never), Alpha(Tri, bool) }
impl Spec for E506 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E506::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E506::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E506::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E506::Mid(f0) => 0u128 + f0.index(),
            E506::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E506::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E514  { Mid(Never), Zed { m: Tri }, Alpha(Never) }
impl Spec for E514 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E514::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E514::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E514::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E514::Mid(f0) => 0u128 + f0.index(),
            E514::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E514::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E522  { Mid(Never), Zed(Tri, bool), Alpha }
impl Spec for E522 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E522::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E522::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E522::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E522::Alpha => 0u128,
            E522::Mid(f0) => 1u128 + f0.index(),
            E522::Zed(f0, f1) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E530  { Mid(Never), Zed(Tri, bool), Alpha { m: Never, z: bool } }
impl Spec for E530 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E530::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E530::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E530::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E530::Mid(f0) => 0u128 + f0.index(),
            E530::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E530::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E538  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(()) }
impl Spec for E538 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E538::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E538::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E538::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E538::Mid(f0) => 0u128 + f0.index(),
            E538::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E538::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E546  { Mid(Never), Zed(()), Alpha(Tri, bool) }
impl Spec for E546 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E546::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E546::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E546::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E546::Mid(f0) => 0u128 + f0.index(),
            E546::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E546::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E554  { Mid(Never), Zed(Tri, Two, Tri), Alpha(Never) }
impl Spec for E554 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E554::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E554::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E554::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E554::Mid(f0) => 0u128 + f0.index(),
            E554::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E554::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E562  { Mid(Never), Zed { m: Never, z: bool }, Alpha }
impl Spec for E562 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E562::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E562::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E562::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E562::Alpha => 0u128,
            E562::Mid(f0) => 1u128 + f0.index(),
            E562::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E570  { Mid(Never), Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }
impl Spec for E570 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E570::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E570::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E570::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E570::Mid(f0) => 0u128 + f0.index(),
            E570::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E570::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E578  { Mid(Never), Zed(Option<bool>), Alpha(()) }
impl Spec for E578 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E578::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E578::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E578::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E578::Mid(f0) => 0u128 + f0.index(),
            E578::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E578::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E586  { Mid { m: Tri }, Zed, Alpha(Tri, bool) }
impl Spec for E586 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E586::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E586::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E586::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E586::Zed => 0u128,
            E586::Mid { m: f0 } => 1u128 + f0.index(),
            E586::Alpha(f0, f1) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E594  { Mid { m: Tri }, Zed(bool), Alpha(Never) }
impl Spec for E594 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E594::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E594::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E594::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E594::Mid { m: f0 } => 0u128 + f0.index(),
            E594::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E594::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E602  { Mid { m: Tri }, Zed(Never), Alpha }
impl Spec for E602 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E602::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E602::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E602::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E602::Alpha => 0u128,
            E602::Mid { m: f0 } => 1u128 + f0.index(),
            E602::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E610  { Mid { m: Tri }, Zed(Never), Alpha { m: Never, z: bool } }
impl Spec for E610 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E610::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E610::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E610::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E610::Mid { m: f0 } => 0u128 + f0.index(),
            E610::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E610::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E618  { Mid { m: Tri }, Zed { m: Tri }, Alpha(()) }
impl Spec for E618 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E618::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E618::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E618::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E618::Mid { m: f0 } => 0u128 + f0.index(),
            E618::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E618::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E626  { Mid { m: Tri }, Zed(Tri, bool), Alpha(Tri, bool) }
impl Spec for E626 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E626::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E626::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E626::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E626::Mid { m: f0 } => 0u128 + f0.index(),
            E626::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E626::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E634  { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha(Never) }
impl Spec for E634 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E634::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E634::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E634::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E634::Mid { m: f0 } => 0u128 + f0.index(),
            E634::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E634::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E642  { Mid { m: Tri }, Zed(()), Alpha }
impl Spec for E642 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E642::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E642::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E642::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E642::Alpha => 0u128,
            E642::Mid { m: f0 } => 1u128 + f0.index(),
            E642::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E650  { Mid { m: Tri }, Zed(()), Alpha { m: Never, z: bool } }
impl Spec for E650 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E650::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E650::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E650::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E650::Mid { m: f0 } => 0u128 + f0.index(),
            E650::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E650::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E658  { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha(()) }
impl Spec for E658 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E658::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E658::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E658::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E658::Mid { m: f0 } => 0u128 + f0.index(),
            E658::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E658::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E666  { Mid { m: Tri }, Zed { m: Never, z: bool }, Alpha(Tri, bool) }
impl Spec for E666 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E666::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E666::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E666::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E666::Mid { m: f0 } => 0u128 + f0.index(),
            E666::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E666::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E674  { Mid { m: Tri }, Zed(Option<bool>), Alpha(Never) }
impl Spec for E674 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E674::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E674::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E674::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E674::Mid { m: f0 } => 0u128 + f0.index(),
            E674::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E674::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E682  { Mid(Tri, bool), Zed, Alpha }
impl Spec for E682 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E682::Zed; } i -= 1;
        if i == 0 { return E682::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E682::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E682::Zed => 0u128,
            E682::Alpha => 1u128,
            E682::Mid(f0, f1) => 2u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E690  { Mid(Tri, bool), Zed, Alpha { m: Never, z: bool } }
impl Spec for E690 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E690::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E690::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E690::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E690::Zed => 0u128,
            E690::Mid(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E690::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E698  { Mid(Tri, bool), Zed(bool), Alpha(()) }
impl Spec for E698 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E698::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E698::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E698::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E698::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E698::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E698::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E706  { Mid(Tri, bool), Zed(Never), Alpha(Tri, bool) }
impl Spec for E706 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E706::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E706::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E706::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E706::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E706::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E706::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E714  { Mid(Tri, bool), Zed { m: Tri }, Alpha(Never) }
impl Spec for E714 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E714::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E714::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E714::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E714::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E714::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E714::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E722  { Mid(Tri, bool), Zed(Tri, bool), Alpha }
impl Spec for E722 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E722::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E722::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E722::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E722::Alpha => 0u128,
            E722::Mid(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E722::Zed(f0, f1) => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E730  { Mid(Tri, bool), Zed(Tri, bool), Alpha { m: Never, z: bool } }
impl Spec for E730 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E730::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E730::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E730::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E730::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E730::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E730::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E738  { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha(()) }
impl Spec for E738 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E738::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E738::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E738::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E738::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E738::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E738::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E746  { Mid(Tri, bool), Zed(()), Alpha(Tri, bool) }
impl Spec for E746 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E746::Mid(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E746::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E746::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E746::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E746::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E746::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E754  { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha(Never) }
impl Spec for E754 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E754::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E754::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E754::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E754::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E754::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E754::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E762  { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha }
impl Spec for E762 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E762::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E762::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E762::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E762::Alpha => 0u128,
            E762::Mid(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E762::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E770  { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }
impl Spec for E770 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E770::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E770::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E770::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E770::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E770::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E770::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E778  { Mid(Tri, bool), Zed(Option<bool>), Alpha(()) }
impl Spec for E778 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E778::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E778::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E778::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E778::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E778::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E778::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E786  { Mid { m: bool, z: Tri }, Zed, Alpha(Tri, bool) }
impl Spec for E786 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E786::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E786::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E786::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E786::Zed => 0u128,
            E786::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E786::Alpha(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E794  { Mid { m: bool, z: Tri }, Zed(bool), Alpha(Never) }
impl Spec for E794 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E794::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E794::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E794::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E794::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E794::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E794::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E802  { Mid { m: bool, z: Tri }, Zed(Never), Alpha }
impl Spec for E802 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E802::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E802::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E802::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E802::Alpha => 0u128,
            E802::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E802::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E810  { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: Never, z: bool } }
impl Spec for E810 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E810::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E810::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E810::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E810::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E810::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E810::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E818  { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha(()) }
impl Spec for E818 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E818::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E818::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E818::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E818::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E818::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E818::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E826  { Mid { m: bool, z: Tri }, Zed(Tri, bool), Alpha(Tri, bool) }
impl Spec for E826 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E826::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E826::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E826::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E826::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E826::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E826::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E834  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Never) }
impl Spec for E834 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E834::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E834::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E834::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E834::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E834::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E834::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E842  { Mid { m: bool, z: Tri }, Zed(()), Alpha }
impl Spec for E842 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E842::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E842::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E842::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E842::Alpha => 0u128,
            E842::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E842::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E850  { Mid { m: bool, z: Tri }, Zed(()), Alpha { m: Never, z: bool } }
impl Spec for E850 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E850::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E850::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E850::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E850::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E850::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E850::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E858  { Mid { m: bool, z: Tri }, Zed(Tri, Two, Tri), Alpha(()) }
impl Spec for E858 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E858::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E858::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E858::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E858::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E858::Zed(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E858::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E866  { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha(Tri, bool) }
impl Spec for E866 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E866::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E866::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E866::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E866::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E866::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E866::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E874  { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha(Never) }
impl Spec for E874 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E874::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E874::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E874::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E874::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E874::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E874::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E882  { Mid(()), Zed, Alpha }
impl Spec for E882 {
    fn count() -> u128 { 2u128 + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E882::Zed; } i -= 1;
        if i == 0 { return E882::Alpha; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E882::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E882::Zed => 0u128,
            E882::Alpha => 1u128,
            E882::Mid(f0) => 2u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E890  { Mid(()), Zed, Alpha { m: Never, z: bool } }
impl Spec for E890 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E890::Zed; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E890::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E890::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E890::Zed => 0u128,
            E890::Mid(f0) => 1u128 + f0.index(),
            E890::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E898  { Mid(()), Zed(bool), Alpha(()) }
impl Spec for E898 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E898::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E898::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E898::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E898::Mid(f0) => 0u128 + f0.index(),
            E898::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E898::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E906  { Mid(()), Zed(Never), Alpha(Tri, bool) }
impl Spec for E906 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E906::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E906::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E906::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E906::Mid(f0) => 0u128 + f0.index(),
            E906::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E906::Alpha(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E914  { Mid(()), Zed { m: Tri }, Alpha(Never) }
impl Spec for E914 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E914::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E914::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E914::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E914::Mid(f0) => 0u128 + f0.index(),
            E914::Zed { m: f0 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E914::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E922  { Mid(()), Zed(Tri, bool), Alpha }
impl Spec for E922 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E922::Alpha; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E922::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E922::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E922::Alpha => 0u128,
            E922::Mid(f0) => 1u128 + f0.index(),
            E922::Zed(f0, f1) => 1u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E930  { Mid(()), Zed(Tri, bool), Alpha { m: Never, z: bool } }
impl Spec for E930 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E930::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E930::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E930::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E930::Mid(f0) => 0u128 + f0.index(),
            E930::Zed(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E930::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E938  { Mid(()), Zed { m: bool, z: Tri }, Alpha(()) }
impl Spec for E938 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E938::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E938::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E938::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E938::Mid(f0) => 0u128 + f0.index(),
            E938::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E938::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E946  { Mid(()), Zed(()), Alpha(Tri, bool) }
impl Spec for E946 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E946::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E946::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E946::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E946::Mid(f0) => 0u128 + f0.index(),
            E946::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E946::Alpha(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E954  { Mid(()), Zed(Tri, Two, Tri), Alpha(Never) }
impl Spec for E954 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E954::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E954::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E954::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E954::Mid(f0) => 0u128 + f0.index(),
            E954::Zed(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E954::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E962  { Mid(()), Zed { m: Never, z: bool }, Alpha }
impl Spec for E962 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E962::Alpha; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E962::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E962::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E962::Alpha => 0u128,
            E962::Mid(f0) => 1u128 + f0.index(),
            E962::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E970  { Mid(()), Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }
impl Spec for E970 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E970::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E970::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E970::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E970::Mid(f0) => 0u128 + f0.index(),
            E970::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E970::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E978  { Mid(()), Zed(Option<bool>), Alpha(()) }
impl Spec for E978 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E978::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E978::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E978::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E978::Mid(f0) => 0u128 + f0.index(),
            E978::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E978::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E986  { Mid(Tri, Two, Tri), Zed, Alpha(Tri, bool) }
impl Spec for E986 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E986::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E986::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E986::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E986::Zed => 0u128,
            E986::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E986::Alpha(f0, f1) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E994  { Mid(Tri, Two, Tri), Zed(bool), Alpha(Never) }
impl Spec for E994 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E994::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E994::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E994::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E994::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E994::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E994::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1002  { Mid(Tri, Two, Tri), Zed(Never), Alpha }
impl Spec for E1002 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1002::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1002::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1002::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1002::Alpha => 0u128,
            E1002::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1002::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1010  { Mid(Tri, Two, Tri), Zed(Never), Alpha { m: Never, z: bool } }
impl Spec for E1010 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1010::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1010::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1010::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1010::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1010::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1010::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1018  { Mid(Tri, Two, Tri), Zed { m: Tri }, Alpha(()) }
impl Spec for E1018 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1018::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1018::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1018::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1018::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1018::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1018::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1026  { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha(Tri, bool) }
impl Spec for E1026 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1026::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1026::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1026::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1026::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1026::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1026::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1034  { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha(Never) }
impl Spec for E1034 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1034::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1034::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1034::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1034::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1034::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1034::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1042  { Mid(Tri, Two, Tri), Zed(()), Alpha }
impl Spec for E1042 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1042::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1042::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1042::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1042::Alpha => 0u128,
            E1042::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1042::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1050  { Mid(Tri, Two, Tri), Zed(()), Alpha { m: Never, z: bool } }
impl Spec for E1050 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1050::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1050::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1050::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1050::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1050::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1050::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1058  { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha(()) }
impl Spec for E1058 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1058::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1058::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1058::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1058::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1058::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1058::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1066  { Mid(Tri, Two, Tri), Zed { m: Never, z: bool }, Alpha(Tri, bool) }
impl Spec for E1066 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1066::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1066::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1066::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1066::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1066::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1066::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1074  { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha(Never) }
impl Spec for E1074 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1074::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1074::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1074::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1074::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1074::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1074::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1082  { Mid { m: Never, z: bool }, Zed, Alpha }
impl Spec for E1082 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1082::Zed; } i -= 1;
        if i == 0 { return E1082::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1082::Mid { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1082::Zed => 0u128,
            E1082::Alpha => 1u128,
            E1082::Mid { m: f0, z: f1 } => 2u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1090  { Mid { m: Never, z: bool }, Zed, Alpha { m: Never, z: bool } }
impl Spec for E1090 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1090::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1090::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1090::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1090::Zed => 0u128,
            E1090::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1090::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1098  { Mid { m: Never, z: bool }, Zed(bool), Alpha(()) }
impl Spec for E1098 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1098::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1098::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1098::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1098::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1098::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1098::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1106  { Mid { m: Never, z: bool }, Zed(Never), Alpha(Tri, bool) }
impl Spec for E1106 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1106::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1106::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1106::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1106::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1106::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1106::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1114  { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha(Never) }
impl Spec for E1114 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1114::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1114::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1114::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1114::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1114::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1114::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1122  { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha }
impl Spec for E1122 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1122::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1122::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1122::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1122::Alpha => 0u128,
            E1122::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1122::Zed(f0, f1) => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1130  { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha { m: Never, z: bool } }
impl Spec for E1130 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1130::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1130::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1130::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1130::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1130::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1130::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1138  { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha(()) }
impl Spec for E1138 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1138::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1138::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1138::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1138::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1138::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1138::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1146  { Mid { m: Never, z: bool }, Zed(()), Alpha(Tri, bool) }
impl Spec for E1146 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1146::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1146::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1146::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1146::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1146::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1146::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1154  { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha(Never) }
impl Spec for E1154 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1154::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1154::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1154::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1154::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1154::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1154::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1162  { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha }
impl Spec for E1162 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1162::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1162::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1162::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1162::Alpha => 0u128,
            E1162::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1162::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1170  { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }
impl Spec for E1170 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1170::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1170::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1170::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1170::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1170::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1170::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1178  { Mid { m: Never, z: bool }, Zed(Option<bool>), Alpha(()) }
impl Spec for E1178 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1178::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1178::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1178::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1178::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1178::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1178::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1186  { Mid(Option<bool>), Zed, Alpha(Tri, bool) }
impl Spec for E1186 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1186::Zed; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1186::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1186::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1186::Zed => 0u128,
            E1186::Mid(f0) => 1u128 + f0.index(),
            E1186::Alpha(f0, f1) => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1194  { Mid(Option<bool>), Zed(bool), Alpha(Never) }
impl Spec for E1194 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1194::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1194::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1194::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1194::Mid(f0) => 0u128 + f0.index(),
            E1194::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1194::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1202  { Mid(Option<bool>), Zed(Never), Alpha }
impl Spec for E1202 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1202::Alpha; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1202::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1202::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1202::Alpha => 0u128,
            E1202::Mid(f0) => 1u128 + f0.index(),
            E1202::Zed(f0) => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1210  { Mid(Option<bool>), Zed(Never), Alpha { m: Never, z: bool } }
impl Spec for E1210 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1210::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1210::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1210::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1210::Mid(f0) => 0u128 + f0.index(),
            E1210::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1210::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1218  { Mid(Option<bool>), Zed { m: Tri }, Alpha(()) }
impl Spec for E1218 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1218::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1218::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1218::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1218::Mid(f0) => 0u128 + f0.index(),
            E1218::Zed { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1218::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1226  { Mid(Option<bool>), Zed(Tri, bool), Alpha(Tri, bool) }
impl Spec for E1226 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1226::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1226::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1226::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1226::Mid(f0) => 0u128 + f0.index(),
            E1226::Zed(f0, f1) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1226::Alpha(f0, f1) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1234  { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha(Never) }
impl Spec for E1234 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1234::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1234::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1234::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1234::Mid(f0) => 0u128 + f0.index(),
            E1234::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1234::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1242  { Mid(Option<bool>), Zed(()), Alpha }
impl Spec for E1242 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1242::Alpha; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1242::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1242::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1242::Alpha => 0u128,
            E1242::Mid(f0) => 1u128 + f0.index(),
            E1242::Zed(f0) => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1250  { Mid(Option<bool>), Zed(()), Alpha { m: Never, z: bool } }
impl Spec for E1250 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1250::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1250::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1250::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1250::Mid(f0) => 0u128 + f0.index(),
            E1250::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1250::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1258  { Mid(Option<bool>), Zed(Tri, Two, Tri), Alpha(()) }
impl Spec for E1258 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1258::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1258::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1258::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1258::Mid(f0) => 0u128 + f0.index(),
            E1258::Zed(f0, f1, f2) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1258::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1266  { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha(Tri, bool) }
impl Spec for E1266 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1266::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1266::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1266::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1266::Mid(f0) => 0u128 + f0.index(),
            E1266::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1266::Alpha(f0, f1) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1274  { Mid(Option<bool>), Zed(Option<bool>), Alpha(Never) }
impl Spec for E1274 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1274::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1274::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1274::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1274::Mid(f0) => 0u128 + f0.index(),
            E1274::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1274::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1282  { Mid, Zed, Alpha, Quux(Tri) }
impl Spec for E1282 {
    fn count() -> u128 { 3u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1282::Mid; } i -= 1;
        if i == 0 { return E1282::Zed; } i -= 1;
        if i == 0 { return E1282::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1282::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1282::Mid => 0u128,
            E1282::Zed => 1u128,
            E1282::Alpha => 2u128,
            E1282::Quux(f0) => 3u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1290  { Mid, Zed, Alpha(Tri), Quux(Two) }
impl Spec for E1290 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1290::Mid; } i -= 1;
        if i == 0 { return E1290::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1290::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1290::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1290::Mid => 0u128,
            E1290::Zed => 1u128,
            E1290::Alpha(f0) => 2u128 + f0.index(),
            E1290::Quux(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1298  { Mid, Zed, Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1298 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1298::Mid; } i -= 1;
        if i == 0 { return E1298::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1298::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1298::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1298::Mid => 0u128,
            E1298::Zed => 1u128,
            E1298::Alpha(f0) => 2u128 + f0.index(),
            E1298::Quux { m: f0, z: f1 } => 2u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1306  { Mid, Zed(Tri), Alpha, Quux }
impl Spec for E1306 {
    fn count() -> u128 { 3u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1306::Mid; } i -= 1;
        if i == 0 { return E1306::Alpha; } i -= 1;
        if i == 0 { return E1306::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1306::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1306::Mid => 0u128,
            E1306::Alpha => 1u128,
            E1306::Quux => 2u128,
            E1306::Zed(f0) => 3u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1314  { Mid, Zed(Tri), Alpha(Tri), Quux(Never) }
impl Spec for E1314 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1314::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1314::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1314::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1314::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1314::Mid => 0u128,
            E1314::Zed(f0) => 1u128 + f0.index(),
            E1314::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1314::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1322  { Mid, Zed(Tri), Alpha(Never), Quux(Tri) }
impl Spec for E1322 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1322::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1322::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1322::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1322::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1322::Mid => 0u128,
            E1322::Zed(f0) => 1u128 + f0.index(),
            E1322::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1322::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1330  { Mid, Zed(Tri), Alpha(Two), Quux(Two) }
impl Spec for E1330 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1330::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1330::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1330::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1330::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1330::Mid => 0u128,
            E1330::Zed(f0) => 1u128 + f0.index(),
            E1330::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1330::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1338  { Mid, Zed { m: bool, z: Tri }, Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1338 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1338::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1338::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1338::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1338::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1338::Mid => 0u128,
            E1338::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1338::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1338::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1346  { Mid, Zed { m: bool, z: Tri }, Alpha(Never), Quux }
impl Spec for E1346 {
    fn count() -> u128 { 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1346::Mid; } i -= 1;
        if i == 0 { return E1346::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1346::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1346::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1346::Mid => 0u128,
            E1346::Quux => 1u128,
            E1346::Zed { m: f0, z: f1 } => 2u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1346::Alpha(f0) => 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1354  { Mid, Zed { m: bool, z: Tri }, Alpha(Two), Quux(Never) }
impl Spec for E1354 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1354::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1354::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1354::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1354::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1354::Mid => 0u128,
            E1354::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1354::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1354::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1362  { Mid, Zed(Never), Alpha(Tri), Quux(Tri) }
impl Spec for E1362 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1362::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1362::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1362::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1362::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1362::Mid => 0u128,
            E1362::Zed(f0) => 1u128 + f0.index(),
            E1362::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1362::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1370  { Mid, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1370 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1370::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1370::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1370::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1370::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1370::Mid => 0u128,
            E1370::Zed(f0) => 1u128 + f0.index(),
            E1370::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1370::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1378  { Mid, Zed(Never), Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1378 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1378::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1378::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1378::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1378::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1378::Mid => 0u128,
            E1378::Zed(f0) => 1u128 + f0.index(),
            E1378::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1378::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1386  { Mid, Zed(Two), Alpha(Tri), Quux }
impl Spec for E1386 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1386::Mid; } i -= 1;
        if i == 0 { return E1386::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1386::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1386::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1386::Mid => 0u128,
            E1386::Quux => 1u128,
            E1386::Zed(f0) => 2u128 + f0.index(),
            E1386::Alpha(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1394  { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1394 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1394::Mid; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1394::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1394::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1394::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1394::Mid => 0u128,
            E1394::Zed(f0) => 1u128 + f0.index(),
            E1394::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1394::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1402  { Mid, Zed(Two), Alpha(Two), Quux(Tri) }
impl Spec for E1402 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1402::Mid; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1402::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1402::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1402::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1402::Mid => 0u128,
            E1402::Zed(f0) => 1u128 + f0.index(),
            E1402::Alpha(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1402::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1410  { Mid(Tri), Zed, Alpha, Quux(Two) }
impl Spec for E1410 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1410::Zed; } i -= 1;
        if i == 0 { return E1410::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1410::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1410::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1410::Zed => 0u128,
            E1410::Alpha => 1u128,
            E1410::Mid(f0) => 2u128 + f0.index(),
            E1410::Quux(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1418  { Mid(Tri), Zed, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1418 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1418::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1418::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1418::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1418::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1418::Zed => 0u128,
            E1418::Mid(f0) => 1u128 + f0.index(),
            E1418::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1418::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1426  { Mid(Tri), Zed, Alpha(Two), Quux }
impl Spec for E1426 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1426::Zed; } i -= 1;
        if i == 0 { return E1426::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1426::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1426::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1426::Zed => 0u128,
            E1426::Quux => 1u128,
            E1426::Mid(f0) => 2u128 + f0.index(),
            E1426::Alpha(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1434  { Mid(Tri), Zed(Tri), Alpha, Quux(Never) }
impl Spec for E1434 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1434::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1434::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1434::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1434::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1434::Alpha => 0u128,
            E1434::Mid(f0) => 1u128 + f0.index(),
            E1434::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1434::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1442  { Mid(Tri), Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1442 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1442::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1442::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1442::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1442::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1442::Mid(f0) => 0u128 + f0.index(),
            E1442::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1442::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1442::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1450  { Mid(Tri), Zed(Tri), Alpha(Never), Quux(Two) }
impl Spec for E1450 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1450::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1450::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1450::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1450::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1450::Mid(f0) => 0u128 + f0.index(),
            E1450::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1450::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1450::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1458  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1458 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1458::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1458::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1458::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1458::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1458::Alpha => 0u128,
            E1458::Mid(f0) => 1u128 + f0.index(),
            E1458::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1458::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1466  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1466 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1466::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1466::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1466::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1466::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1466::Quux => 0u128,
            E1466::Mid(f0) => 1u128 + f0.index(),
            E1466::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1466::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1474  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Never) }
impl Spec for E1474 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1474::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1474::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1474::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1474::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1474::Mid(f0) => 0u128 + f0.index(),
            E1474::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1474::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1474::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1482  { Mid(Tri), Zed(Never), Alpha, Quux(Tri) }
impl Spec for E1482 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1482::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1482::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1482::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1482::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1482::Alpha => 0u128,
            E1482::Mid(f0) => 1u128 + f0.index(),
            E1482::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1482::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1490  { Mid(Tri), Zed(Never), Alpha(Tri), Quux(Two) }
impl Spec for E1490 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1490::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1490::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1490::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1490::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1490::Mid(f0) => 0u128 + f0.index(),
            E1490::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1490::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1490::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1498  { Mid(Tri), Zed(Never), Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1498 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1498::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1498::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1498::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1498::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1498::Mid(f0) => 0u128 + f0.index(),
            E1498::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1498::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1498::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1506  { Mid(Tri), Zed(Two), Alpha, Quux }
impl Spec for E1506 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1506::Alpha; } i -= 1;
        if i == 0 { return E1506::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1506::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1506::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1506::Alpha => 0u128,
            E1506::Quux => 1u128,
            E1506::Mid(f0) => 2u128 + f0.index(),
            E1506::Zed(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1514  { Mid(Tri), Zed(Two), Alpha(Tri), Quux(Never) }
impl Spec for E1514 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1514::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1514::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1514::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1514::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1514::Mid(f0) => 0u128 + f0.index(),
            E1514::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1514::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1514::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1522  { Mid(Tri), Zed(Two), Alpha(Never), Quux(Tri) }
impl Spec for E1522 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1522::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1522::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1522::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1522::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1522::Mid(f0) => 0u128 + f0.index(),
            E1522::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1522::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1522::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1530  { Mid(Tri), Zed(Two), Alpha(Two), Quux(Two) }
impl Spec for E1530 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1530::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1530::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1530::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1530::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1530::Mid(f0) => 0u128 + f0.index(),
            E1530::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1530::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1530::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1538  { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1538 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1538::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1538::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1538::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1538::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1538::Zed => 0u128,
            E1538::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1538::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1538::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1546  { Mid { m: bool, z: Tri }, Zed, Alpha(Never), Quux }
impl Spec for E1546 {
    fn count() -> u128 { 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1546::Zed; } i -= 1;
        if i == 0 { return E1546::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1546::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1546::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1546::Zed => 0u128,
            E1546::Quux => 1u128,
            E1546::Mid { m: f0, z: f1 } => 2u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1546::Alpha(f0) => 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1554  { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux(Never) }
impl Spec for E1554 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1554::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1554::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1554::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1554::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1554::Zed => 0u128,
            E1554::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1554::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1554::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1562  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Tri), Quux(Tri) }
impl Spec for E1562 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1562::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1562::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1562::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1562::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1562::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1562::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1562::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1562::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1570  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1570 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1570::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1570::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1570::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1570::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1570::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1570::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1570::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1570::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1578  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1578 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1578::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1578::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1578::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1578::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1578::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1578::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1578::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1578::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1586  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Tri), Quux }
impl Spec for E1586 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1586::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1586::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1586::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1586::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1586::Quux => 0u128,
            E1586::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1586::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1586::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1594  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1594 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1594::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1594::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1594::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1594::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1594::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1594::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1594::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1594::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1602  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Two), Quux(Tri) }
impl Spec for E1602 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1602::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1602::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1602::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1602::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1602::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1602::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1602::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1602::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1610  { Mid { m: bool, z: Tri }, Zed(Never), Alpha, Quux(Two) }
impl Spec for E1610 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1610::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1610::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1610::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1610::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1610::Alpha => 0u128,
            E1610::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1610::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1610::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1618  { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1618 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1618::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1618::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1618::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1618::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1618::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1618::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1618::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1618::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1626  { Mid { m: bool, z: Tri }, Zed(Never), Alpha(Two), Quux }
impl Spec for E1626 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1626::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1626::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1626::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1626::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1626::Quux => 0u128,
            E1626::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1626::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1626::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1634  { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux(Never) }
impl Spec for E1634 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1634::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1634::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1634::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1634::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1634::Alpha => 0u128,
            E1634::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1634::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1634::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1642  { Mid { m: bool, z: Tri }, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1642 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1642::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1642::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1642::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1642::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1642::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1642::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1642::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1642::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1650  { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Never), Quux(Two) }
impl Spec for E1650 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1650::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1650::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1650::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1650::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1650::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1650::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1650::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1650::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1658  { Mid(Never), Zed, Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1658 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1658::Zed; } i -= 1;
        if i == 0 { return E1658::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1658::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1658::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1658::Zed => 0u128,
            E1658::Alpha => 1u128,
            E1658::Mid(f0) => 2u128 + f0.index(),
            E1658::Quux { m: f0, z: f1 } => 2u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1666  { Mid(Never), Zed, Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1666 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1666::Zed; } i -= 1;
        if i == 0 { return E1666::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1666::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1666::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1666::Zed => 0u128,
            E1666::Quux => 1u128,
            E1666::Mid(f0) => 2u128 + f0.index(),
            E1666::Alpha { m: f0, z: f1 } => 2u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1674  { Mid(Never), Zed, Alpha(Never), Quux(Never) }
impl Spec for E1674 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1674::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1674::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1674::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1674::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1674::Zed => 0u128,
            E1674::Mid(f0) => 1u128 + f0.index(),
            E1674::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1674::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1682  { Mid(Never), Zed(Tri), Alpha, Quux(Tri) }
impl Spec for E1682 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1682::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1682::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1682::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1682::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1682::Alpha => 0u128,
            E1682::Mid(f0) => 1u128 + f0.index(),
            E1682::Zed(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1682::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1690  { Mid(Never), Zed(Tri), Alpha(Tri), Quux(Two) }
impl Spec for E1690 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1690::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1690::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1690::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1690::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1690::Mid(f0) => 0u128 + f0.index(),
            E1690::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1690::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1690::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1698  { Mid(Never), Zed(Tri), Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1698 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1698::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1698::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1698::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1698::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1698::Mid(f0) => 0u128 + f0.index(),
            E1698::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1698::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1698::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1706  { Mid(Never), Zed { m: bool, z: Tri }, Alpha, Quux }
impl Spec for E1706 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1706::Alpha; } i -= 1;
        if i == 0 { return E1706::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1706::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1706::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1706::Alpha => 0u128,
            E1706::Quux => 1u128,
            E1706::Mid(f0) => 2u128 + f0.index(),
            E1706::Zed { m: f0, z: f1 } => 2u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1714  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Never) }
impl Spec for E1714 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1714::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1714::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1714::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1714::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1714::Mid(f0) => 0u128 + f0.index(),
            E1714::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1714::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1714::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1722  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Tri) }
impl Spec for E1722 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1722::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1722::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1722::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1722::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1722::Mid(f0) => 0u128 + f0.index(),
            E1722::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1722::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1722::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1730  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Two), Quux(Two) }
impl Spec for E1730 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1730::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1730::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1730::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1730::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1730::Mid(f0) => 0u128 + f0.index(),
            E1730::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1730::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1730::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1738  { Mid(Never), Zed(Never), Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1738 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1738::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1738::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1738::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1738::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1738::Mid(f0) => 0u128 + f0.index(),
            E1738::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1738::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1738::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1746  { Mid(Never), Zed(Never), Alpha(Never), Quux }
impl Spec for E1746 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1746::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1746::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1746::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1746::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1746::Quux => 0u128,
            E1746::Mid(f0) => 1u128 + f0.index(),
            E1746::Zed(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1746::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1754  { Mid(Never), Zed(Never), Alpha(Two), Quux(Never) }
impl Spec for E1754 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1754::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1754::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1754::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1754::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1754::Mid(f0) => 0u128 + f0.index(),
            E1754::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1754::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1754::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1762  { Mid(Never), Zed(Two), Alpha(Tri), Quux(Tri) }
impl Spec for E1762 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1762::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1762::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1762::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1762::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1762::Mid(f0) => 0u128 + f0.index(),
            E1762::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1762::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1762::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1770  { Mid(Never), Zed(Two), Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1770 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1770::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1770::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1770::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1770::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1770::Mid(f0) => 0u128 + f0.index(),
            E1770::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1770::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1770::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1778  { Mid(Never), Zed(Two), Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1778 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1778::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1778::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1778::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1778::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1778::Mid(f0) => 0u128 + f0.index(),
            E1778::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1778::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1778::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1786  { Mid(Two), Zed, Alpha(Tri), Quux }
impl Spec for E1786 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1786::Zed; } i -= 1;
        if i == 0 { return E1786::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1786::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1786::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1786::Zed => 0u128,
            E1786::Quux => 1u128,
            E1786::Mid(f0) => 2u128 + f0.index(),
            E1786::Alpha(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1794  { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1794 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1794::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1794::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1794::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1794::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1794::Zed => 0u128,
            E1794::Mid(f0) => 1u128 + f0.index(),
            E1794::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1794::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1802  { Mid(Two), Zed, Alpha(Two), Quux(Tri) }
impl Spec for E1802 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1802::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1802::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1802::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1802::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1802::Zed => 0u128,
            E1802::Mid(f0) => 1u128 + f0.index(),
            E1802::Alpha(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1802::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1810  { Mid(Two), Zed(Tri), Alpha, Quux(Two) }
impl Spec for E1810 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1810::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1810::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1810::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1810::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1810::Alpha => 0u128,
            E1810::Mid(f0) => 1u128 + f0.index(),
            E1810::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1810::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1818  { Mid(Two), Zed(Tri), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1818 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1818::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1818::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1818::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1818::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1818::Mid(f0) => 0u128 + f0.index(),
            E1818::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1818::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1818::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1826  { Mid(Two), Zed(Tri), Alpha(Two), Quux }
impl Spec for E1826 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1826::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1826::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1826::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1826::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1826::Quux => 0u128,
            E1826::Mid(f0) => 1u128 + f0.index(),
            E1826::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1826::Alpha(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1834  { Mid(Two), Zed { m: bool, z: Tri }, Alpha, Quux(Never) }
impl Spec for E1834 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1834::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1834::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1834::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1834::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1834::Alpha => 0u128,
            E1834::Mid(f0) => 1u128 + f0.index(),
            E1834::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1834::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1842  { Mid(Two), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1842 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1842::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1842::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1842::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1842::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1842::Mid(f0) => 0u128 + f0.index(),
            E1842::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1842::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1842::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1850  { Mid(Two), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Two) }
impl Spec for E1850 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1850::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1850::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1850::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1850::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1850::Mid(f0) => 0u128 + f0.index(),
            E1850::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1850::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1850::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1858  { Mid(Two), Zed(Never), Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1858 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1858::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1858::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1858::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1858::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1858::Alpha => 0u128,
            E1858::Mid(f0) => 1u128 + f0.index(),
            E1858::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1858::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1866  { Mid(Two), Zed(Never), Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1866 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1866::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1866::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1866::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1866::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1866::Quux => 0u128,
            E1866::Mid(f0) => 1u128 + f0.index(),
            E1866::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1866::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1874  { Mid(Two), Zed(Never), Alpha(Never), Quux(Never) }
impl Spec for E1874 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1874::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1874::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1874::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1874::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1874::Mid(f0) => 0u128 + f0.index(),
            E1874::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1874::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1874::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1882  { Mid(Two), Zed(Two), Alpha, Quux(Tri) }
impl Spec for E1882 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1882::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1882::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1882::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1882::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1882::Alpha => 0u128,
            E1882::Mid(f0) => 1u128 + f0.index(),
            E1882::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1882::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1890  { Mid(Two), Zed(Two), Alpha(Tri), Quux(Two) }
impl Spec for E1890 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1890::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1890::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1890::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1890::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1890::Mid(f0) => 0u128 + f0.index(),
            E1890::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1890::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1890::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1898  { Mid(Two), Zed(Two), Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1898 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1898::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1898::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1898::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1898::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1898::Mid(f0) => 0u128 + f0.index(),
            E1898::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1898::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1898::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1906  { Mid, Zed, Alpha, Quux, Beta(bool, Tri) }
impl Spec for E1906 {
    fn count() -> u128 { 4u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1906::Mid; } i -= 1;
        if i == 0 { return E1906::Zed; } i -= 1;
        if i == 0 { return E1906::Alpha; } i -= 1;
        if i == 0 { return E1906::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1906::Beta(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1906::Mid => 0u128,
            E1906::Zed => 1u128,
            E1906::Alpha => 2u128,
            E1906::Quux => 3u128,
            E1906::Beta(f0, f1) => 4u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1914  { Mid, Zed(bool, Tri), Alpha, Quux, Beta(bool, Tri) }
impl Spec for E1914 {
    fn count() -> u128 { 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1914::Mid; } i -= 1;
        if i == 0 { return E1914::Alpha; } i -= 1;
        if i == 0 { return E1914::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1914::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1914::Beta(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1914::Mid => 0u128,
            E1914::Alpha => 1u128,
            E1914::Quux => 2u128,
            E1914::Zed(f0, f1) => 3u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1914::Beta(f0, f1) => 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1922  { Mid(bool, Tri), Zed, Alpha, Quux, Beta(bool, Tri) }
impl Spec for E1922 {
    fn count() -> u128 { 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1922::Zed; } i -= 1;
        if i == 0 { return E1922::Alpha; } i -= 1;
        if i == 0 { return E1922::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1922::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1922::Beta(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1922::Zed => 0u128,
            E1922::Alpha => 1u128,
            E1922::Quux => 2u128,
            E1922::Mid(f0, f1) => 3u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1922::Beta(f0, f1) => 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1930  { Mid(bool, Tri), Zed(bool, Tri), Alpha, Quux, Beta(bool, Tri) }
impl Spec for E1930 {
    fn count() -> u128 { 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1930::Alpha; } i -= 1;
        if i == 0 { return E1930::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1930::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1930::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1930::Beta(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1930::Alpha => 0u128,
            E1930::Quux => 1u128,
            E1930::Mid(f0, f1) => 2u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1930::Zed(f0, f1) => 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1930::Beta(f0, f1) => 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1938  { Mid, Zed, Alpha, Quux, Beta { m: Two }, Yard }
impl Spec for E1938 {
    fn count() -> u128 { 5u128 + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1938::Mid; } i -= 1;
        if i == 0 { return E1938::Zed; } i -= 1;
        if i == 0 { return E1938::Alpha; } i -= 1;
        if i == 0 { return E1938::Quux; } i -= 1;
        if i == 0 { return E1938::Yard; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1938::Beta { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1938::Mid => 0u128,
            E1938::Zed => 1u128,
            E1938::Alpha => 2u128,
            E1938::Quux => 3u128,
            E1938::Yard => 4u128,
            E1938::Beta { m: f0 } => 5u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1946  { Mid, Zed { m: Two }, Alpha, Quux, Beta { m: Two }, Yard { m: Two } }
impl Spec for E1946 {
    fn count() -> u128 { 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1946::Mid; } i -= 1;
        if i == 0 { return E1946::Alpha; } i -= 1;
        if i == 0 { return E1946::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1946::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1946::Beta { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1946::Yard { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1946::Mid => 0u128,
            E1946::Alpha => 1u128,
            E1946::Quux => 2u128,
            E1946::Zed { m: f0 } => 3u128 + f0.index(),
            E1946::Beta { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1946::Yard { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1954  { Mid { m: Two }, Zed, Alpha, Quux, Beta { m: Two }, Yard { m: Two } }
impl Spec for E1954 {
    fn count() -> u128 { 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1954::Zed; } i -= 1;
        if i == 0 { return E1954::Alpha; } i -= 1;
        if i == 0 { return E1954::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1954::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1954::Beta { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1954::Yard { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1954::Zed => 0u128,
            E1954::Alpha => 1u128,
            E1954::Quux => 2u128,
            E1954::Mid { m: f0 } => 3u128 + f0.index(),
            E1954::Beta { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1954::Yard { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1962  { Mid { m: Two }, Zed { m: Two }, Alpha, Quux, Beta { m: Two }, Yard }
impl Spec for E1962 {
    fn count() -> u128 { 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1962::Alpha; } i -= 1;
        if i == 0 { return E1962::Quux; } i -= 1;
        if i == 0 { return E1962::Yard; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1962::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1962::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1962::Beta { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1962::Alpha => 0u128,
            E1962::Quux => 1u128,
            E1962::Yard => 2u128,
            E1962::Mid { m: f0 } => 3u128 + f0.index(),
            E1962::Zed { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1962::Beta { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1970  { V33(bool), V32(bool), V31(bool), V30(bool), V29(bool), V28(bool), V27(bool), V26(bool), V25(bool), V24(bool), V23(bool), V22(bool), V21(bool), V20(bool), V19(bool), V18(bool), V17(bool), V16(bool), V15(bool), V14(bool), V13, V12, V11, V10 { m: Tri }, V9 { m: Tri }, V8 { m: Tri }, V7 { m: Tri }, V6 { m: Tri }, V5 { m: Tri }, V4 { m: Tri }, V3 { m: Tri }, V2 { m: Tri }, V1 { m: Tri } }
impl Spec for E1970 {
    fn count() -> u128 { 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1970::V13; } i -= 1;
        if i == 0 { return E1970::V12; } i -= 1;
        if i == 0 { return E1970::V11; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V33(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V32(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V31(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V30(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V29(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V28(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V27(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V26(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V25(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V24(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V23(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V22(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V21(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V20(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V19(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V18(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V17(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V16(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V15(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1970::V14(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V10 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V9 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V8 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V7 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V6 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V5 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V4 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V3 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V2 { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1970::V1 { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1970::V13 => 0u128,
            E1970::V12 => 1u128,
            E1970::V11 => 2u128,
            E1970::V33(f0) => 3u128 + f0.index(),
            E1970::V32(f0) => 3u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V31(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V30(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V29(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V28(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V27(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V26(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V25(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V24(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V23(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V22(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V21(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V20(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V19(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V18(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V17(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V16(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V15(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V14(f0) => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V10 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
            E1970::V9 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1970::V8 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1970::V7 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1970::V6 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1970::V5 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1970::V4 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1970::V3 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1970::V2 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1970::V1 { m: f0 } => 3u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1978  { Mid(), Zed(Tri) }
impl Spec for E1978 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1978::Mid(); } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1978::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1978::Mid() => 0u128,
            E1978::Zed(f0) => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1986  { Mid {  }, Zed {  } }
impl Spec for E1986 {
    fn count() -> u128 { 2u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1986::Mid {  }; } i -= 1;
        if i == 0 { return E1986::Zed {  }; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1986::Mid {  } => 0u128,
            E1986::Zed {  } => 1u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1994  { Mid([bool;2]), Zed, Alpha { m: bool, z: [bool;2] } }
impl Spec for E1994 {
    fn count() -> u128 { 1u128 + 1u128 * <[bool;2] as Spec>::count() + 1u128 * <bool as Spec>::count() * <[bool;2] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1994::Zed; } i -= 1;
        let c = 1u128 * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); return E1994::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<[bool;2]>(&mut r); return E1994::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1994::Zed => 0u128,
            E1994::Mid(f0) => 1u128 + f0.index(),
            E1994::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <[bool;2] as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2002  { Mid([Tri;0]), Zed, Alpha { m: bool, z: [Tri;0] } }
impl Spec for E2002 {
    fn count() -> u128 { 1u128 + 1u128 * <[Tri;0] as Spec>::count() + 1u128 * <bool as Spec>::count() * <[Tri;0] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2002::Zed; } i -= 1;
        let c = 1u128 * <[Tri;0] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Tri;0]>(&mut r); return E2002::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <[Tri;0] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<[Tri;0]>(&mut r); return E2002::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2002::Zed => 0u128,
            E2002::Mid(f0) => 1u128 + f0.index(),
            E2002::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <[Tri;0] as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2010  { Mid(Option<bool>, Option<bool>), Zed { m: Option<bool> } }
impl Spec for E2010 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count() * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); let f1 = pick::<Option<bool>>(&mut r); return E2010::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E2010::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2010::Mid(f0, f1) => 0u128 + f0.index() + <Option<bool> as Spec>::count() * f1.index(),
            E2010::Zed { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2018  { Mid([bool;2], [bool;2]), Zed { m: [bool;2] } }
impl Spec for E2018 {
    fn count() -> u128 { 0u128 + 1u128 * <[bool;2] as Spec>::count() * <[bool;2] as Spec>::count() + 1u128 * <[bool;2] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[bool;2] as Spec>::count() * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); let f1 = pick::<[bool;2]>(&mut r); return E2018::Mid(f0, f1); } i -= c;
        let c = 1u128 * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); return E2018::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2018::Mid(f0, f1) => 0u128 + f0.index() + <[bool;2] as Spec>::count() * f1.index(),
            E2018::Zed { m: f0 } => 0u128 + 1u128 * <[bool;2] as Spec>::count() * <[bool;2] as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2026  { Mid((bool,Tri), (bool,Tri)), Zed { m: (bool,Tri) } }
impl Spec for E2026 {
    fn count() -> u128 { 0u128 + 1u128 * <(bool,Tri) as Spec>::count() * <(bool,Tri) as Spec>::count() + 1u128 * <(bool,Tri) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <(bool,Tri) as Spec>::count() * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(bool,Tri)>(&mut r); let f1 = pick::<(bool,Tri)>(&mut r); return E2026::Mid(f0, f1); } i -= c;
        let c = 1u128 * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(bool,Tri)>(&mut r); return E2026::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2026::Mid(f0, f1) => 0u128 + f0.index() + <(bool,Tri) as Spec>::count() * f1.index(),
            E2026::Zed { m: f0 } => 0u128 + 1u128 * <(bool,Tri) as Spec>::count() * <(bool,Tri) as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2034  { Mid(Option<Never>, Option<Never>), Zed { m: Option<Never> } }
impl Spec for E2034 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<Never> as Spec>::count() * <Option<Never> as Spec>::count() + 1u128 * <Option<Never> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<Never> as Spec>::count() * <Option<Never> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<Never>>(&mut r); let f1 = pick::<Option<Never>>(&mut r); return E2034::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<Never> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<Never>>(&mut r); return E2034::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2034::Mid(f0, f1) => 0u128 + f0.index() + <Option<Never> as Spec>::count() * f1.index(),
            E2034::Zed { m: f0 } => 0u128 + 1u128 * <Option<Never> as Spec>::count() * <Option<Never> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2042  { Mid(Result<Tri,bool>, Result<Tri,bool>), Zed { m: Result<Tri,bool> } }
impl Spec for E2042 {
    fn count() -> u128 { 0u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <Result<Tri,bool> as Spec>::count() + 1u128 * <Result<Tri,bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Result<Tri,bool> as Spec>::count() * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); let f1 = pick::<Result<Tri,bool>>(&mut r); return E2042::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); return E2042::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2042::Mid(f0, f1) => 0u128 + f0.index() + <Result<Tri,bool> as Spec>::count() * f1.index(),
            E2042::Zed { m: f0 } => 0u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <Result<Tri,bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2050  { Mid([Tri;0], [Tri;0]), Zed { m: [Tri;0] } }
impl Spec for E2050 {
    fn count() -> u128 { 0u128 + 1u128 * <[Tri;0] as Spec>::count() * <[Tri;0] as Spec>::count() + 1u128 * <[Tri;0] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[Tri;0] as Spec>::count() * <[Tri;0] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Tri;0]>(&mut r); let f1 = pick::<[Tri;0]>(&mut r); return E2050::Mid(f0, f1); } i -= c;
        let c = 1u128 * <[Tri;0] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Tri;0]>(&mut r); return E2050::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2050::Mid(f0, f1) => 0u128 + f0.index() + <[Tri;0] as Spec>::count() * f1.index(),
            E2050::Zed { m: f0 } => 0u128 + 1u128 * <[Tri;0] as Spec>::count() * <[Tri;0] as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2058  { Mid(D17, D17), Zed { m: D17 } }
impl Spec for E2058 {
    fn count() -> u128 { 0u128 + 1u128 * <D17 as Spec>::count() * <D17 as Spec>::count() + 1u128 * <D17 as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <D17 as Spec>::count() * <D17 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<D17>(&mut r); let f1 = pick::<D17>(&mut r); return E2058::Mid(f0, f1); } i -= c;
        let c = 1u128 * <D17 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<D17>(&mut r); return E2058::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2058::Mid(f0, f1) => 0u128 + f0.index() + <D17 as Spec>::count() * f1.index(),
            E2058::Zed { m: f0 } => 0u128 + 1u128 * <D17 as Spec>::count() * <D17 as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2066 (Never) ;
impl Spec for S2066 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return S2066(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2066(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2074 ((), bool) ;
impl Spec for S2074 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); return S2074(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2074(f0, f1) => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2082 (bool, ()) ;
impl Spec for S2082 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); return S2082(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2082(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2090 (bool, Five) ;
impl Spec for S2090 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Five>(&mut r); return S2090(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2090(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2098 (Never, Tri) ;
impl Spec for S2098 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); return S2098(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2098(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2106 (Tri, Never) ;
impl Spec for S2106 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Never>(&mut r); return S2106(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2106(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2114 (Five, bool) ;
impl Spec for S2114 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<bool>(&mut r); return S2114(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2114(f0, f1) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2122 ((), (), ()) ;
impl Spec for S2122 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); return S2122(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2122(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2130 ((), (), Five) ;
impl Spec for S2130 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Five>(&mut r); return S2130(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2130(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2138 ((), bool, Tri) ;
impl Spec for S2138 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); return S2138(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2138(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2146 ((), Never, Never) ;
impl Spec for S2146 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return S2146(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2146(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2154 ((), Tri, bool) ;
impl Spec for S2154 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); return S2154(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2154(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2162 ((), Five, ()) ;
impl Spec for S2162 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<()>(&mut r); return S2162(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2162(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2170 ((), Five, Five) ;
impl Spec for S2170 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Five>(&mut r); return S2170(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2170(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2178 (bool, (), Tri) ;
impl Spec for S2178 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return S2178(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2178(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2186 (bool, bool, Never) ;
impl Spec for S2186 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Never>(&mut r); return S2186(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2186(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2194 (bool, Never, bool) ;
impl Spec for S2194 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return S2194(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2194(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2202 (bool, Tri, ()) ;
impl Spec for S2202 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return S2202(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2202(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2210 (bool, Tri, Five) ;
impl Spec for S2210 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return S2210(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2210(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2218 (bool, Five, Tri) ;
impl Spec for S2218 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Tri>(&mut r); return S2218(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2218(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2226 (Never, (), Never) ;
impl Spec for S2226 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Never>(&mut r); return S2226(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2226(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2234 (Never, bool, bool) ;
impl Spec for S2234 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); return S2234(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2234(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2242 (Never, Never, ()) ;
impl Spec for S2242 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<()>(&mut r); return S2242(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2242(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2250 (Never, Never, Five) ;
impl Spec for S2250 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Five>(&mut r); return S2250(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2250(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2258 (Never, Tri, Tri) ;
impl Spec for S2258 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Tri>(&mut r); return S2258(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2258(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2266 (Never, Five, Never) ;
impl Spec for S2266 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Five as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Five as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Never>(&mut r); return S2266(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2266(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2274 (Tri, (), bool) ;
impl Spec for S2274 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); return S2274(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2274(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2282 (Tri, bool, ()) ;
impl Spec for S2282 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); return S2282(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2282(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2290 (Tri, bool, Five) ;
impl Spec for S2290 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Five>(&mut r); return S2290(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2290(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2298 (Tri, Never, Tri) ;
impl Spec for S2298 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Tri>(&mut r); return S2298(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2298(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2306 (Tri, Tri, Never) ;
impl Spec for S2306 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Never>(&mut r); return S2306(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2306(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2314 (Tri, Five, bool) ;
impl Spec for S2314 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<bool>(&mut r); return S2314(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2314(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2322 (Five, (), ()) ;
impl Spec for S2322 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); return S2322(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2322(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2330 (Five, (), Five) ;
impl Spec for S2330 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Five>(&mut r); return S2330(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2330(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2338 (Five, bool, Tri) ;
impl Spec for S2338 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); return S2338(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2338(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2346 (Five, Never, Never) ;
impl Spec for S2346 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return S2346(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2346(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2354 (Five, Tri, bool) ;
impl Spec for S2354 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); return S2354(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2354(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2362 (Five, Five, ()) ;
impl Spec for S2362 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<()>(&mut r); return S2362(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2362(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2370 (Five, Five, Five) ;
impl Spec for S2370 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Five>(&mut r); return S2370(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2370(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2378 (bool, bool, Tri, bool) ;
impl Spec for S2378 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<bool>(&mut r); return S2378(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2378(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2386 (bool, bool, (), Tri) ;
impl Spec for S2386 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<Tri>(&mut r); return S2386(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2386(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2394 (bool, Tri, bool, ()) ;
impl Spec for S2394 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<()>(&mut r); return S2394(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2394(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2402 (bool, Tri, (), bool) ;
impl Spec for S2402 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<bool>(&mut r); return S2402(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2402(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2410 (bool, (), bool, Tri) ;
impl Spec for S2410 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); return S2410(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2410(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2418 (bool, (), Tri, ()) ;
impl Spec for S2418 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<()>(&mut r); return S2418(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2418(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2426 (Tri, bool, bool, bool) ;
impl Spec for S2426 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<bool>(&mut r); return S2426(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2426(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index() + <Tri as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2434 (Tri, bool, Tri, Tri) ;
impl Spec for S2434 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<Tri>(&mut r); return S2434(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2434(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index() + <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2442 (Tri, bool, (), ()) ;
impl Spec for S2442 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<()>(&mut r); return S2442(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2442(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index() + <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2450 (Tri, Tri, Tri, bool) ;
impl Spec for S2450 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<bool>(&mut r); return S2450(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2450(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2458 (Tri, Tri, (), Tri) ;
impl Spec for S2458 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<Tri>(&mut r); return S2458(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2458(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2466 (Tri, (), bool, ()) ;
impl Spec for S2466 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<()>(&mut r); return S2466(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2466(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2474 (Tri, (), (), bool) ;
impl Spec for S2474 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<bool>(&mut r); return S2474(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2474(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2482 ((), bool, bool, ()) ;
impl Spec for S2482 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<()>(&mut r); return S2482(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2482(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <bool as Spec>::count() * f2.index() + <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2490 ((), Tri, bool, Tri) ;
impl Spec for S2490 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); return S2490(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2490(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index() + <() as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2498 ((), (), bool, bool) ;
impl Spec for S2498 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<bool>(&mut r); return S2498(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2498(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index() + <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2506 ((), (), (), ()) ;
impl Spec for S2506 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<()>(&mut r); return S2506(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2506(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index() + <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2514   { m: bool, z: Tri, a: bool, q: Tri, b: bool, y: Tri, _c: bool, x: Tri }
impl Spec for S2514 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); let f4 = pick::<bool>(&mut r); let f5 = pick::<Tri>(&mut r); let f6 = pick::<bool>(&mut r); let f7 = pick::<Tri>(&mut r); return S2514 { m: f0, z: f1, a: f2, q: f3, b: f4, y: f5, _c: f6, x: f7 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2514 { m: f0, z: f1, a: f2, q: f3, b: f4, y: f5, _c: f6, x: f7 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f4.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f5.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f6.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f7.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2522 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool) ;
impl Spec for S2522 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<bool>(&mut r); let f4 = pick::<bool>(&mut r); let f5 = pick::<bool>(&mut r); let f6 = pick::<bool>(&mut r); let f7 = pick::<bool>(&mut r); let f8 = pick::<bool>(&mut r); let f9 = pick::<bool>(&mut r); let f10 = pick::<bool>(&mut r); let f11 = pick::<bool>(&mut r); let f12 = pick::<bool>(&mut r); let f13 = pick::<bool>(&mut r); let f14 = pick::<bool>(&mut r); let f15 = pick::<bool>(&mut r); let f16 = pick::<bool>(&mut r); let f17 = pick::<bool>(&mut r); let f18 = pick::<bool>(&mut r); let f19 = pick::<bool>(&mut r); return S2522(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2522(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f3.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f4.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f5.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f6.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f7.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f8.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f9.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f10.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f11.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f12.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f13.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f14.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f15.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f16.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f17.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f18.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f19.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2530 (Tri, [bool;2], bool) ;
impl Spec for S2530 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <[bool;2] as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <[bool;2] as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<[bool;2]>(&mut r); let f2 = pick::<bool>(&mut r); return S2530(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2530(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <[bool;2] as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2538   { m: Result<Tri,bool>, z: Tri }
impl Spec for S2538 {
    fn count() -> u128 { 0u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Result<Tri,bool> as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); let f1 = pick::<Tri>(&mut r); return S2538 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2538 { m: f0, z: f1 } => 0u128 + f0.index() + <Result<Tri,bool> as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2546 ([Never;1]) ;
impl Spec for S2546 {
    fn count() -> u128 { 0u128 + 1u128 * <[Never;1] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[Never;1] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Never;1]>(&mut r); return S2546(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2546(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2554 (N32, N16, Tri) ;
impl Spec for S2554 {
    fn count() -> u128 { 0u128 + 1u128 * <N32 as Spec>::count() * <N16 as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <N32 as Spec>::count() * <N16 as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<N32>(&mut r); let f1 = pick::<N16>(&mut r); let f2 = pick::<Tri>(&mut r); return S2554(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2554(f0, f1, f2) => 0u128 + f0.index() + <N32 as Spec>::count() * f1.index() + <N32 as Spec>::count() * <N16 as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
/// Documented.
#[allow(dead_code)]
pub struct S2562   { x: Tri }
impl Spec for S2562 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return S2562 { x: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2562 { x: f0 } => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2570  { /// doc
    Mid { discr: Tri, y: bool }, /// doc
    Zed, /// doc
    Alpha { discr: bool } }
impl Spec for E2570 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2570::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E2570::Mid { discr: f0, y: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E2570::Alpha { discr: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2570::Zed => 0u128,
            E2570::Mid { discr: f0, y: f1 } => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E2570::Alpha { discr: f0 } => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2578<A: Clone + 'static>  { Mid(A), Zed }
impl<A: Spec> Spec for E2578<A> {
    fn count() -> u128 { 1u128 + 1u128 * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2578::Zed; } i -= 1;
        let c = 1u128 * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); return E2578::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2578::Zed => 0u128,
            E2578::Mid(f0) => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2586<A: Clone + 'static>  { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }
impl<A: Spec> Spec for E2586<A> {
    fn count() -> u128 { 1u128 + 1u128 * <Option<A> as Spec>::count() + 1u128 * <(A,bool) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2586::Alpha; } i -= 1;
        let c = 1u128 * <Option<A> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<A>>(&mut r); return E2586::Mid(f0); } i -= c;
        let c = 1u128 * <(A,bool) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(A,bool)>(&mut r); return E2586::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2586::Alpha => 0u128,
            E2586::Mid(f0) => 1u128 + f0.index(),
            E2586::Zed { m: f0 } => 1u128 + 1u128 * <Option<A> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2594<A> (bool, A, A) where A: Clone;
impl<A: Spec> Spec for S2594<A> {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <A as Spec>::count() * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <A as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<A>(&mut r); let f2 = pick::<A>(&mut r); return S2594(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2594(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <A as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2602<A, B>   { m: B, z: A, a: bool }
impl<A: Spec, B: Spec> Spec for S2602<A, B> {
    fn count() -> u128 { 0u128 + 1u128 * <B as Spec>::count() * <A as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <B as Spec>::count() * <A as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<B>(&mut r); let f1 = pick::<A>(&mut r); let f2 = pick::<bool>(&mut r); return S2602 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2602 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <B as Spec>::count() * f1.index() + <B as Spec>::count() * <A as Spec>::count() * f2.index(),
        }
    }
}
pub fn all(v: &mut Vec<(bool, Ty)>) {
    v.push((true, Ty::of::<E2>("E2: enum E2 { Mid, Zed }")));
    v.push((true, Ty::of::<E10>("E10: enum E10 { V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43, V42, V41, V40, V39, V38, V37, V36, V35,...")));
    v.push((true, Ty::of::<E18>("E18: enum E18 { Mid, Zed = 100, Alpha }")));
    v.push((true, Ty::of::<E26>("E26: enum E26 { Mid = 1, Zed = 2, Alpha = 4, Quux = 8 }")));
    v.push((true, Ty::of::<E34>("E34: enum E34 { Mid(Tri) }")));
    v.push((true, Ty::of::<E42>("E42: enum E42 { Mid((), Tri) }")));
    v.push((true, Ty::of::<E50>("E50: enum E50 { Mid(Never, Tri) }")));
    v.push((true, Ty::of::<E58>("E58: enum E58 { Mid { m: (), z: Tri } }")));
    v.push((true, Ty::of::<E66>("E66: enum E66 { Mid { m: Never, z: Tri } }")));
    v.push((true, Ty::of::<E74>("E74: enum E74 { Mid((), (), Tri) }")));
    v.push((true, Ty::of::<E82>("E82: enum E82 { Mid((), Never, Tri) }")));
    v.push((true, Ty::of::<E90>("E90: enum E90 { Mid(bool, (), Tri) }")));
    v.push((true, Ty::of::<E98>("E98: enum E98 { Mid(bool, Never, Tri) }")));
    v.push((true, Ty::of::<E106>("E106: enum E106 { Mid(Never, (), Tri) }")));
    v.push((true, Ty::of::<E114>("E114: enum E114 { Mid(Never, Never, Tri) }")));
    v.push((true, Ty::of::<E122>("E122: enum E122 { Mid(Tri, (), Tri) }")));
    v.push((true, Ty::of::<E130>("E130: enum E130 { Mid(Tri, Never, Tri) }")));
    v.push((true, Ty::of::<E138>("E138: enum E138 { Mid(Two, One, Tri, bool) }")));
    v.push((true, Ty::of::<E146>("E146: enum E146 { Mid, Zed(bool, Tri) }")));
    v.push((true, Ty::of::<E154>("E154: enum E154 { Mid(()), Zed(Never) }")));
    v.push((true, Ty::of::<E162>("E162: enum E162 { Mid(()), Zed { m: (), z: Tri } }")));
    v.push((true, Ty::of::<E170>("E170: enum E170 { Mid(bool), Zed(bool, Tri) }")));
    v.push((true, Ty::of::<E178>("E178: enum E178 { Mid(Never), Zed(Never) }")));
    v.push((true, Ty::of::<E186>("E186: enum E186 { Mid(Never), Zed { m: (), z: Tri } }")));
    v.push((true, Ty::of::<E194>("E194: enum E194 { Mid(Tri), Zed(bool, Tri) }")));
    v.push((true, Ty::of::<E202>("E202: enum E202 { Mid { m: bool }, Zed(Never) }")));
    v.push((true, Ty::of::<E210>("E210: enum E210 { Mid { m: bool }, Zed { m: (), z: Tri } }")));
    v.push((true, Ty::of::<E218>("E218: enum E218 { Mid { m: Tri }, Zed(bool, Tri) }")));
    v.push((true, Ty::of::<E226>("E226: enum E226 { Mid(bool, Tri), Zed(Never) }")));
    v.push((true, Ty::of::<E234>("E234: enum E234 { Mid(bool, Tri), Zed { m: (), z: Tri } }")));
    v.push((true, Ty::of::<E242>("E242: enum E242 { Mid { m: Tri, z: bool }, Zed(bool, Tri) }")));
    v.push((true, Ty::of::<E250>("E250: enum E250 { Mid(Never, bool), Zed(Never) }")));
    v.push((true, Ty::of::<E258>("E258: enum E258 { Mid(Never, bool), Zed { m: (), z: Tri } }")));
    v.push((true, Ty::of::<E266>("E266: enum E266 { Mid(Tri, Two, Tri), Zed(bool, Tri) }")));
    v.push((true, Ty::of::<E274>("E274: enum E274 { Mid { m: (), z: Tri }, Zed(Never) }")));
    v.push((true, Ty::of::<E282>("E282: enum E282 { Mid { m: (), z: Tri }, Zed { m: (), z: Tri } }")));
    v.push((true, Ty::of::<E290>("E290: enum E290 { Mid, Zed, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E298>("E298: enum E298 { Mid, Zed(bool), Alpha(()) }")));
    v.push((true, Ty::of::<E306>("E306: enum E306 { Mid, Zed(Never), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E314>("E314: enum E314 { Mid, Zed { m: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E322>("E322: enum E322 { Mid, Zed(Tri, bool), Alpha }")));
    v.push((true, Ty::of::<E330>("E330: enum E330 { Mid, Zed(Tri, bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E338>("E338: enum E338 { Mid, Zed { m: bool, z: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E346>("E346: enum E346 { Mid, Zed(()), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E354>("E354: enum E354 { Mid, Zed(Tri, Two, Tri), Alpha(Never) }")));
    v.push((true, Ty::of::<E362>("E362: enum E362 { Mid, Zed { m: Never, z: bool }, Alpha }")));
    v.push((true, Ty::of::<E370>("E370: enum E370 { Mid, Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E378>("E378: enum E378 { Mid, Zed(Option<bool>), Alpha(()) }")));
    v.push((true, Ty::of::<E386>("E386: enum E386 { Mid(bool), Zed, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E394>("E394: enum E394 { Mid(bool), Zed(bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E402>("E402: enum E402 { Mid(bool), Zed(Never), Alpha }")));
    v.push((true, Ty::of::<E410>("E410: enum E410 { Mid(bool), Zed(Never), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E418>("E418: enum E418 { Mid(bool), Zed { m: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E426>("E426: enum E426 { Mid(bool), Zed(Tri, bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E434>("E434: enum E434 { Mid(bool), Zed { m: bool, z: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E442>("E442: enum E442 { Mid(bool), Zed(()), Alpha }")));
    v.push((true, Ty::of::<E450>("E450: enum E450 { Mid(bool), Zed(()), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E458>("E458: enum E458 { Mid(bool), Zed(Tri, Two, Tri), Alpha(()) }")));
    v.push((true, Ty::of::<E466>("E466: enum E466 { Mid(bool), Zed { m: Never, z: bool }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E474>("E474: enum E474 { Mid(bool), Zed(Option<bool>), Alpha(Never) }")));
    v.push((true, Ty::of::<E482>("E482: enum E482 { Mid(Never), Zed, Alpha }")));
    v.push((true, Ty::of::<E490>("E490: enum E490 { Mid(Never), Zed, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E498>("E498: enum E498 { Mid(Never), Zed(bool), Alpha(()) }")));
    v.push((true, Ty::of::<E506>("E506: enum E506 { Mid(Never), Zed(Never), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E514>("E514: enum E514 { Mid(Never), Zed { m: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E522>("E522: enum E522 { Mid(Never), Zed(Tri, bool), Alpha }")));
    v.push((true, Ty::of::<E530>("E530: enum E530 { Mid(Never), Zed(Tri, bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E538>("E538: enum E538 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E546>("E546: enum E546 { Mid(Never), Zed(()), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E554>("E554: enum E554 { Mid(Never), Zed(Tri, Two, Tri), Alpha(Never) }")));
    v.push((true, Ty::of::<E562>("E562: enum E562 { Mid(Never), Zed { m: Never, z: bool }, Alpha }")));
    v.push((true, Ty::of::<E570>("E570: enum E570 { Mid(Never), Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E578>("E578: enum E578 { Mid(Never), Zed(Option<bool>), Alpha(()) }")));
    v.push((true, Ty::of::<E586>("E586: enum E586 { Mid { m: Tri }, Zed, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E594>("E594: enum E594 { Mid { m: Tri }, Zed(bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E602>("E602: enum E602 { Mid { m: Tri }, Zed(Never), Alpha }")));
    v.push((true, Ty::of::<E610>("E610: enum E610 { Mid { m: Tri }, Zed(Never), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E618>("E618: enum E618 { Mid { m: Tri }, Zed { m: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E626>("E626: enum E626 { Mid { m: Tri }, Zed(Tri, bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E634>("E634: enum E634 { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E642>("E642: enum E642 { Mid { m: Tri }, Zed(()), Alpha }")));
    v.push((true, Ty::of::<E650>("E650: enum E650 { Mid { m: Tri }, Zed(()), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E658>("E658: enum E658 { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha(()) }")));
    v.push((true, Ty::of::<E666>("E666: enum E666 { Mid { m: Tri }, Zed { m: Never, z: bool }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E674>("E674: enum E674 { Mid { m: Tri }, Zed(Option<bool>), Alpha(Never) }")));
    v.push((true, Ty::of::<E682>("E682: enum E682 { Mid(Tri, bool), Zed, Alpha }")));
    v.push((true, Ty::of::<E690>("E690: enum E690 { Mid(Tri, bool), Zed, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E698>("E698: enum E698 { Mid(Tri, bool), Zed(bool), Alpha(()) }")));
    v.push((true, Ty::of::<E706>("E706: enum E706 { Mid(Tri, bool), Zed(Never), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E714>("E714: enum E714 { Mid(Tri, bool), Zed { m: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E722>("E722: enum E722 { Mid(Tri, bool), Zed(Tri, bool), Alpha }")));
    v.push((true, Ty::of::<E730>("E730: enum E730 { Mid(Tri, bool), Zed(Tri, bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E738>("E738: enum E738 { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E746>("E746: enum E746 { Mid(Tri, bool), Zed(()), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E754>("E754: enum E754 { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha(Never) }")));
    v.push((true, Ty::of::<E762>("E762: enum E762 { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha }")));
    v.push((true, Ty::of::<E770>("E770: enum E770 { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E778>("E778: enum E778 { Mid(Tri, bool), Zed(Option<bool>), Alpha(()) }")));
    v.push((true, Ty::of::<E786>("E786: enum E786 { Mid { m: bool, z: Tri }, Zed, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E794>("E794: enum E794 { Mid { m: bool, z: Tri }, Zed(bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E802>("E802: enum E802 { Mid { m: bool, z: Tri }, Zed(Never), Alpha }")));
    v.push((true, Ty::of::<E810>("E810: enum E810 { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E818>("E818: enum E818 { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E826>("E826: enum E826 { Mid { m: bool, z: Tri }, Zed(Tri, bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E834>("E834: enum E834 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E842>("E842: enum E842 { Mid { m: bool, z: Tri }, Zed(()), Alpha }")));
    v.push((true, Ty::of::<E850>("E850: enum E850 { Mid { m: bool, z: Tri }, Zed(()), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E858>("E858: enum E858 { Mid { m: bool, z: Tri }, Zed(Tri, Two, Tri), Alpha(()) }")));
    v.push((true, Ty::of::<E866>("E866: enum E866 { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E874>("E874: enum E874 { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha(Never) }")));
    v.push((true, Ty::of::<E882>("E882: enum E882 { Mid(()), Zed, Alpha }")));
    v.push((true, Ty::of::<E890>("E890: enum E890 { Mid(()), Zed, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E898>("E898: enum E898 { Mid(()), Zed(bool), Alpha(()) }")));
    v.push((true, Ty::of::<E906>("E906: enum E906 { Mid(()), Zed(Never), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E914>("E914: enum E914 { Mid(()), Zed { m: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E922>("E922: enum E922 { Mid(()), Zed(Tri, bool), Alpha }")));
    v.push((true, Ty::of::<E930>("E930: enum E930 { Mid(()), Zed(Tri, bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E938>("E938: enum E938 { Mid(()), Zed { m: bool, z: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E946>("E946: enum E946 { Mid(()), Zed(()), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E954>("E954: enum E954 { Mid(()), Zed(Tri, Two, Tri), Alpha(Never) }")));
    v.push((true, Ty::of::<E962>("E962: enum E962 { Mid(()), Zed { m: Never, z: bool }, Alpha }")));
    v.push((true, Ty::of::<E970>("E970: enum E970 { Mid(()), Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E978>("E978: enum E978 { Mid(()), Zed(Option<bool>), Alpha(()) }")));
    v.push((true, Ty::of::<E986>("E986: enum E986 { Mid(Tri, Two, Tri), Zed, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E994>("E994: enum E994 { Mid(Tri, Two, Tri), Zed(bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E1002>("E1002: enum E1002 { Mid(Tri, Two, Tri), Zed(Never), Alpha }")));
    v.push((true, Ty::of::<E1010>("E1010: enum E1010 { Mid(Tri, Two, Tri), Zed(Never), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1018>("E1018: enum E1018 { Mid(Tri, Two, Tri), Zed { m: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E1026>("E1026: enum E1026 { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1034>("E1034: enum E1034 { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E1042>("E1042: enum E1042 { Mid(Tri, Two, Tri), Zed(()), Alpha }")));
    v.push((true, Ty::of::<E1050>("E1050: enum E1050 { Mid(Tri, Two, Tri), Zed(()), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1058>("E1058: enum E1058 { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha(()) }")));
    v.push((true, Ty::of::<E1066>("E1066: enum E1066 { Mid(Tri, Two, Tri), Zed { m: Never, z: bool }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1074>("E1074: enum E1074 { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha(Never) }")));
    v.push((true, Ty::of::<E1082>("E1082: enum E1082 { Mid { m: Never, z: bool }, Zed, Alpha }")));
    v.push((true, Ty::of::<E1090>("E1090: enum E1090 { Mid { m: Never, z: bool }, Zed, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1098>("E1098: enum E1098 { Mid { m: Never, z: bool }, Zed(bool), Alpha(()) }")));
    v.push((true, Ty::of::<E1106>("E1106: enum E1106 { Mid { m: Never, z: bool }, Zed(Never), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1114>("E1114: enum E1114 { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E1122>("E1122: enum E1122 { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha }")));
    v.push((true, Ty::of::<E1130>("E1130: enum E1130 { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1138>("E1138: enum E1138 { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E1146>("E1146: enum E1146 { Mid { m: Never, z: bool }, Zed(()), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1154>("E1154: enum E1154 { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha(Never) }")));
    v.push((true, Ty::of::<E1162>("E1162: enum E1162 { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha }")));
    v.push((true, Ty::of::<E1170>("E1170: enum E1170 { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1178>("E1178: enum E1178 { Mid { m: Never, z: bool }, Zed(Option<bool>), Alpha(()) }")));
    v.push((true, Ty::of::<E1186>("E1186: enum E1186 { Mid(Option<bool>), Zed, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1194>("E1194: enum E1194 { Mid(Option<bool>), Zed(bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E1202>("E1202: enum E1202 { Mid(Option<bool>), Zed(Never), Alpha }")));
    v.push((true, Ty::of::<E1210>("E1210: enum E1210 { Mid(Option<bool>), Zed(Never), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1218>("E1218: enum E1218 { Mid(Option<bool>), Zed { m: Tri }, Alpha(()) }")));
    v.push((true, Ty::of::<E1226>("E1226: enum E1226 { Mid(Option<bool>), Zed(Tri, bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1234>("E1234: enum E1234 { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha(Never) }")));
    v.push((true, Ty::of::<E1242>("E1242: enum E1242 { Mid(Option<bool>), Zed(()), Alpha }")));
    v.push((true, Ty::of::<E1250>("E1250: enum E1250 { Mid(Option<bool>), Zed(()), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1258>("E1258: enum E1258 { Mid(Option<bool>), Zed(Tri, Two, Tri), Alpha(()) }")));
    v.push((true, Ty::of::<E1266>("E1266: enum E1266 { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1274>("E1274: enum E1274 { Mid(Option<bool>), Zed(Option<bool>), Alpha(Never) }")));
    v.push((true, Ty::of::<E1282>("E1282: enum E1282 { Mid, Zed, Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1290>("E1290: enum E1290 { Mid, Zed, Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1298>("E1298: enum E1298 { Mid, Zed, Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1306>("E1306: enum E1306 { Mid, Zed(Tri), Alpha, Quux }")));
    v.push((true, Ty::of::<E1314>("E1314: enum E1314 { Mid, Zed(Tri), Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1322>("E1322: enum E1322 { Mid, Zed(Tri), Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1330>("E1330: enum E1330 { Mid, Zed(Tri), Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1338>("E1338: enum E1338 { Mid, Zed { m: bool, z: Tri }, Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1346>("E1346: enum E1346 { Mid, Zed { m: bool, z: Tri }, Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1354>("E1354: enum E1354 { Mid, Zed { m: bool, z: Tri }, Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1362>("E1362: enum E1362 { Mid, Zed(Never), Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1370>("E1370: enum E1370 { Mid, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1378>("E1378: enum E1378 { Mid, Zed(Never), Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1386>("E1386: enum E1386 { Mid, Zed(Two), Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1394>("E1394: enum E1394 { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1402>("E1402: enum E1402 { Mid, Zed(Two), Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1410>("E1410: enum E1410 { Mid(Tri), Zed, Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1418>("E1418: enum E1418 { Mid(Tri), Zed, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1426>("E1426: enum E1426 { Mid(Tri), Zed, Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1434>("E1434: enum E1434 { Mid(Tri), Zed(Tri), Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1442>("E1442: enum E1442 { Mid(Tri), Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1450>("E1450: enum E1450 { Mid(Tri), Zed(Tri), Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1458>("E1458: enum E1458 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1466>("E1466: enum E1466 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1474>("E1474: enum E1474 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1482>("E1482: enum E1482 { Mid(Tri), Zed(Never), Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1490>("E1490: enum E1490 { Mid(Tri), Zed(Never), Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1498>("E1498: enum E1498 { Mid(Tri), Zed(Never), Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1506>("E1506: enum E1506 { Mid(Tri), Zed(Two), Alpha, Quux }")));
    v.push((true, Ty::of::<E1514>("E1514: enum E1514 { Mid(Tri), Zed(Two), Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1522>("E1522: enum E1522 { Mid(Tri), Zed(Two), Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1530>("E1530: enum E1530 { Mid(Tri), Zed(Two), Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1538>("E1538: enum E1538 { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1546>("E1546: enum E1546 { Mid { m: bool, z: Tri }, Zed, Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1554>("E1554: enum E1554 { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1562>("E1562: enum E1562 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1570>("E1570: enum E1570 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1578>("E1578: enum E1578 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1586>("E1586: enum E1586 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1594>("E1594: enum E1594 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1602>("E1602: enum E1602 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1610>("E1610: enum E1610 { Mid { m: bool, z: Tri }, Zed(Never), Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1618>("E1618: enum E1618 { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1626>("E1626: enum E1626 { Mid { m: bool, z: Tri }, Zed(Never), Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1634>("E1634: enum E1634 { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1642>("E1642: enum E1642 { Mid { m: bool, z: Tri }, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1650>("E1650: enum E1650 { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1658>("E1658: enum E1658 { Mid(Never), Zed, Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1666>("E1666: enum E1666 { Mid(Never), Zed, Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1674>("E1674: enum E1674 { Mid(Never), Zed, Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1682>("E1682: enum E1682 { Mid(Never), Zed(Tri), Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1690>("E1690: enum E1690 { Mid(Never), Zed(Tri), Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1698>("E1698: enum E1698 { Mid(Never), Zed(Tri), Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1706>("E1706: enum E1706 { Mid(Never), Zed { m: bool, z: Tri }, Alpha, Quux }")));
    v.push((true, Ty::of::<E1714>("E1714: enum E1714 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1722>("E1722: enum E1722 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1730>("E1730: enum E1730 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1738>("E1738: enum E1738 { Mid(Never), Zed(Never), Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1746>("E1746: enum E1746 { Mid(Never), Zed(Never), Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1754>("E1754: enum E1754 { Mid(Never), Zed(Never), Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1762>("E1762: enum E1762 { Mid(Never), Zed(Two), Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1770>("E1770: enum E1770 { Mid(Never), Zed(Two), Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1778>("E1778: enum E1778 { Mid(Never), Zed(Two), Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1786>("E1786: enum E1786 { Mid(Two), Zed, Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1794>("E1794: enum E1794 { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1802>("E1802: enum E1802 { Mid(Two), Zed, Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1810>("E1810: enum E1810 { Mid(Two), Zed(Tri), Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1818>("E1818: enum E1818 { Mid(Two), Zed(Tri), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1826>("E1826: enum E1826 { Mid(Two), Zed(Tri), Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1834>("E1834: enum E1834 { Mid(Two), Zed { m: bool, z: Tri }, Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1842>("E1842: enum E1842 { Mid(Two), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1850>("E1850: enum E1850 { Mid(Two), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1858>("E1858: enum E1858 { Mid(Two), Zed(Never), Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1866>("E1866: enum E1866 { Mid(Two), Zed(Never), Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1874>("E1874: enum E1874 { Mid(Two), Zed(Never), Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1882>("E1882: enum E1882 { Mid(Two), Zed(Two), Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1890>("E1890: enum E1890 { Mid(Two), Zed(Two), Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1898>("E1898: enum E1898 { Mid(Two), Zed(Two), Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1906>("E1906: enum E1906 { Mid, Zed, Alpha, Quux, Beta(bool, Tri) }")));
    v.push((true, Ty::of::<E1914>("E1914: enum E1914 { Mid, Zed(bool, Tri), Alpha, Quux, Beta(bool, Tri) }")));
    v.push((true, Ty::of::<E1922>("E1922: enum E1922 { Mid(bool, Tri), Zed, Alpha, Quux, Beta(bool, Tri) }")));
    v.push((true, Ty::of::<E1930>("E1930: enum E1930 { Mid(bool, Tri), Zed(bool, Tri), Alpha, Quux, Beta(bool, Tri) }")));
    v.push((true, Ty::of::<E1938>("E1938: enum E1938 { Mid, Zed, Alpha, Quux, Beta { m: Two }, Yard }")));
    v.push((true, Ty::of::<E1946>("E1946: enum E1946 { Mid, Zed { m: Two }, Alpha, Quux, Beta { m: Two }, Yard { m: Two } }")));
    v.push((true, Ty::of::<E1954>("E1954: enum E1954 { Mid { m: Two }, Zed, Alpha, Quux, Beta { m: Two }, Yard { m: Two } }")));
    v.push((true, Ty::of::<E1962>("E1962: enum E1962 { Mid { m: Two }, Zed { m: Two }, Alpha, Quux, Beta { m: Two }, Yard }")));
    v.push((true, Ty::of::<E1970>("E1970: enum E1970 { V33(bool), V32(bool), V31(bool), V30(bool), V29(bool), V28(bool), V27(bool), V26(bool), V25(bool), V24(bool), V23(bool), V22(bool), V21(bool), V20(...")));
    v.push((true, Ty::of::<E1978>("E1978: enum E1978 { Mid(), Zed(Tri) }")));
    v.push((true, Ty::of::<E1986>("E1986: enum E1986 { Mid { }, Zed { } }")));
    v.push((true, Ty::of::<E1994>("E1994: enum E1994 { Mid([bool;2]), Zed, Alpha { m: bool, z: [bool;2] } }")));
    v.push((true, Ty::of::<E2002>("E2002: enum E2002 { Mid([Tri;0]), Zed, Alpha { m: bool, z: [Tri;0] } }")));
    v.push((true, Ty::of::<E2010>("E2010: enum E2010 { Mid(Option<bool>, Option<bool>), Zed { m: Option<bool> } }")));
    v.push((true, Ty::of::<E2018>("E2018: enum E2018 { Mid([bool;2], [bool;2]), Zed { m: [bool;2] } }")));
    v.push((true, Ty::of::<E2026>("E2026: enum E2026 { Mid((bool,Tri), (bool,Tri)), Zed { m: (bool,Tri) } }")));
    v.push((true, Ty::of::<E2034>("E2034: enum E2034 { Mid(Option<Never>, Option<Never>), Zed { m: Option<Never> } }")));
    v.push((true, Ty::of::<E2042>("E2042: enum E2042 { Mid(Result<Tri,bool>, Result<Tri,bool>), Zed { m: Result<Tri,bool> } }")));
    v.push((true, Ty::of::<E2050>("E2050: enum E2050 { Mid([Tri;0], [Tri;0]), Zed { m: [Tri;0] } }")));
    v.push((true, Ty::of::<E2058>("E2058: enum E2058 { Mid(D17, D17), Zed { m: D17 } }")));
    v.push((false, Ty::of::<S2066>("S2066: struct S2066 (Never) ;")));
    v.push((false, Ty::of::<S2074>("S2074: struct S2074 ((), bool) ;")));
    v.push((false, Ty::of::<S2082>("S2082: struct S2082 (bool, ()) ;")));
    v.push((false, Ty::of::<S2090>("S2090: struct S2090 (bool, Five) ;")));
    v.push((false, Ty::of::<S2098>("S2098: struct S2098 (Never, Tri) ;")));
    v.push((false, Ty::of::<S2106>("S2106: struct S2106 (Tri, Never) ;")));
    v.push((false, Ty::of::<S2114>("S2114: struct S2114 (Five, bool) ;")));
    v.push((false, Ty::of::<S2122>("S2122: struct S2122 ((), (), ()) ;")));
    v.push((false, Ty::of::<S2130>("S2130: struct S2130 ((), (), Five) ;")));
    v.push((false, Ty::of::<S2138>("S2138: struct S2138 ((), bool, Tri) ;")));
    v.push((false, Ty::of::<S2146>("S2146: struct S2146 ((), Never, Never) ;")));
    v.push((false, Ty::of::<S2154>("S2154: struct S2154 ((), Tri, bool) ;")));
    v.push((false, Ty::of::<S2162>("S2162: struct S2162 ((), Five, ()) ;")));
    v.push((false, Ty::of::<S2170>("S2170: struct S2170 ((), Five, Five) ;")));
    v.push((false, Ty::of::<S2178>("S2178: struct S2178 (bool, (), Tri) ;")));
    v.push((false, Ty::of::<S2186>("S2186: struct S2186 (bool, bool, Never) ;")));
    v.push((false, Ty::of::<S2194>("S2194: struct S2194 (bool, Never, bool) ;")));
    v.push((false, Ty::of::<S2202>("S2202: struct S2202 (bool, Tri, ()) ;")));
    v.push((false, Ty::of::<S2210>("S2210: struct S2210 (bool, Tri, Five) ;")));
    v.push((false, Ty::of::<S2218>("S2218: struct S2218 (bool, Five, Tri) ;")));
    v.push((false, Ty::of::<S2226>("S2226: struct S2226 (Never, (), Never) ;")));
    v.push((false, Ty::of::<S2234>("S2234: struct S2234 (Never, bool, bool) ;")));
    v.push((false, Ty::of::<S2242>("S2242: struct S2242 (Never, Never, ()) ;")));
    v.push((false, Ty::of::<S2250>("S2250: struct S2250 (Never, Never, Five) ;")));
    v.push((false, Ty::of::<S2258>("S2258: struct S2258 (Never, Tri, Tri) ;")));
    v.push((false, Ty::of::<S2266>("S2266: struct S2266 (Never, Five, Never) ;")));
    v.push((false, Ty::of::<S2274>("S2274: struct S2274 (Tri, (), bool) ;")));
    v.push((false, Ty::of::<S2282>("S2282: struct S2282 (Tri, bool, ()) ;")));
    v.push((false, Ty::of::<S2290>("S2290: struct S2290 (Tri, bool, Five) ;")));
    v.push((false, Ty::of::<S2298>("S2298: struct S2298 (Tri, Never, Tri) ;")));
    v.push((false, Ty::of::<S2306>("S2306: struct S2306 (Tri, Tri, Never) ;")));
    v.push((false, Ty::of::<S2314>("S2314: struct S2314 (Tri, Five, bool) ;")));
    v.push((false, Ty::of::<S2322>("S2322: struct S2322 (Five, (), ()) ;")));
    v.push((false, Ty::of::<S2330>("S2330: struct S2330 (Five, (), Five) ;")));
    v.push((false, Ty::of::<S2338>("S2338: struct S2338 (Five, bool, Tri) ;")));
    v.push((false, Ty::of::<S2346>("S2346: struct S2346 (Five, Never, Never) ;")));
    v.push((false, Ty::of::<S2354>("S2354: struct S2354 (Five, Tri, bool) ;")));
    v.push((false, Ty::of::<S2362>("S2362: struct S2362 (Five, Five, ()) ;")));
    v.push((false, Ty::of::<S2370>("S2370: struct S2370 (Five, Five, Five) ;")));
    v.push((false, Ty::of::<S2378>("S2378: struct S2378 (bool, bool, Tri, bool) ;")));
    v.push((false, Ty::of::<S2386>("S2386: struct S2386 (bool, bool, (), Tri) ;")));
    v.push((false, Ty::of::<S2394>("S2394: struct S2394 (bool, Tri, bool, ()) ;")));
    v.push((false, Ty::of::<S2402>("S2402: struct S2402 (bool, Tri, (), bool) ;")));
    v.push((false, Ty::of::<S2410>("S2410: struct S2410 (bool, (), bool, Tri) ;")));
    v.push((false, Ty::of::<S2418>("S2418: struct S2418 (bool, (), Tri, ()) ;")));
    v.push((false, Ty::of::<S2426>("S2426: struct S2426 (Tri, bool, bool, bool) ;")));
    v.push((false, Ty::of::<S2434>("S2434: struct S2434 (Tri, bool, Tri, Tri) ;")));
    v.push((false, Ty::of::<S2442>("S2442: struct S2442 (Tri, bool, (), ()) ;")));
    v.push((false, Ty::of::<S2450>("S2450: struct S2450 (Tri, Tri, Tri, bool) ;")));
    v.push((false, Ty::of::<S2458>("S2458: struct S2458 (Tri, Tri, (), Tri) ;")));
    v.push((false, Ty::of::<S2466>("S2466: struct S2466 (Tri, (), bool, ()) ;")));
    v.push((false, Ty::of::<S2474>("S2474: struct S2474 (Tri, (), (), bool) ;")));
    v.push((false, Ty::of::<S2482>("S2482: struct S2482 ((), bool, bool, ()) ;")));
    v.push((false, Ty::of::<S2490>("S2490: struct S2490 ((), Tri, bool, Tri) ;")));
    v.push((false, Ty::of::<S2498>("S2498: struct S2498 ((), (), bool, bool) ;")));
    v.push((false, Ty::of::<S2506>("S2506: struct S2506 ((), (), (), ()) ;")));
    v.push((false, Ty::of::<S2514>("S2514: struct S2514 { m: bool, z: Tri, a: bool, q: Tri, b: bool, y: Tri, _c: bool, x: Tri }")));
    v.push((false, Ty::of::<S2522>("S2522: struct S2522 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool) ;")));
    v.push((false, Ty::of::<S2530>("S2530: struct S2530 (Tri, [bool;2], bool) ;")));
    v.push((false, Ty::of::<S2538>("S2538: struct S2538 { m: Result<Tri,bool>, z: Tri }")));
    v.push((false, Ty::of::<S2546>("S2546: struct S2546 ([Never;1]) ;")));
    v.push((false, Ty::of::<S2554>("S2554: struct S2554 (N32, N16, Tri) ;")));
    v.push((false, Ty::of::<S2562>("S2562: /// Documented. #[allow(dead_code)] struct S2562 { x: Tri }")));
    v.push((true, Ty::of::<E2570>("E2570: enum E2570 { Mid { discr: Tri, y: bool }, Zed, Alpha { discr: bool } }")));
    v.push((true, Ty::of::<E2578<()>>("E2578<()>: enum E2578<A: Clone + 'static> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2578<bool>>("E2578<bool>: enum E2578<A: Clone + 'static> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2578<Never>>("E2578<Never>: enum E2578<A: Clone + 'static> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2586<()>>("E2586<()>: enum E2586<A: Clone + 'static> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((true, Ty::of::<E2586<bool>>("E2586<bool>: enum E2586<A: Clone + 'static> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((true, Ty::of::<E2586<Never>>("E2586<Never>: enum E2586<A: Clone + 'static> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((false, Ty::of::<S2594<bool>>("S2594<bool>: struct S2594<A> (bool, A, A) where A: Clone;")));
    v.push((false, Ty::of::<S2594<Never>>("S2594<Never>: struct S2594<A> (bool, A, A) where A: Clone;")));
    v.push((false, Ty::of::<S2594<Tri>>("S2594<Tri>: struct S2594<A> (bool, A, A) where A: Clone;")));
    v.push((false, Ty::of::<S2602<bool, Tri>>("S2602<bool, Tri>: struct S2602<A, B> { m: B, z: A, a: bool }")));
    v.push((false, Ty::of::<S2602<Tri, bool>>("S2602<Tri, bool>: struct S2602<A, B> { m: B, z: A, a: bool }")));
    v.push((false, Ty::of::<S2602<Never, Five>>("S2602<Never, Five>: struct S2602<A, B> { m: B, z: A, a: bool }")));
    v.push((false, Ty::of::<S2602<Five, Never>>("S2602<Five, Never>: struct S2602<A, B> { m: B, z: A, a: bool }")));
    v.push((false, Ty::of::<S2602<Option<bool>, [bool;2]>>("S2602<Option<bool>, [bool;2]>: struct S2602<A, B> { m: B, z: A, a: bool }")));
    v.push((false, Ty::of::<S2602<(), ()>>("S2602<(), ()>: struct S2602<A, B> { m: B, z: A, a: bool }")));
}
