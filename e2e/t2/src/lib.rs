// generated by tools/gen_e2e.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use e2esut::*;
use enum_like_derive::EnumLike;
#[derive(Clone, Copy, EnumLike)]
pub enum E2  { Mid, Zed }
impl Spec for E2 {
    fn count() -> u128 { 2u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2::Mid; } i -= 1;
        if i == 0 { return E2::Zed; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2::Mid => 0u128,
            E2::Zed => 1u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E10  { V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43, V42, V41, V40, V39, V38, V37, V36, V35, V34, V33, V32, V31, V30, V29, V28, V27, V26, V25, V24, V23, V22, V21, V20, V19, V18, V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E10 {
    fn count() -> u128 { 64u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E10::V64; } i -= 1;
        if i == 0 { return E10::V63; } i -= 1;
        if i == 0 { return E10::V62; } i -= 1;
        if i == 0 { return E10::V61; } i -= 1;
        if i == 0 { return E10::V60; } i -= 1;
        if i == 0 { return E10::V59; } i -= 1;
        if i == 0 { return E10::V58; } i -= 1;
        if i == 0 { return E10::V57; } i -= 1;
        if i == 0 { return E10::V56; } i -= 1;
        if i == 0 { return E10::V55; } i -= 1;
        if i == 0 { return E10::V54; } i -= 1;
        if i == 0 { return E10::V53; } i -= 1;
        if i == 0 { return E10::V52; } i -= 1;
        if i == 0 { return E10::V51; } i -= 1;
        if i == 0 { return E10::V50; } i -= 1;
        if i == 0 { return E10::V49; } i -= 1;
        if i == 0 { return E10::V48; } i -= 1;
        if i == 0 { return E10::V47; } i -= 1;
        if i == 0 { return E10::V46; } i -= 1;
        if i == 0 { return E10::V45; } i -= 1;
        if i == 0 { return E10::V44; } i -= 1;
        if i == 0 { return E10::V43; } i -= 1;
        if i == 0 { return E10::V42; } i -= 1;
        if i == 0 { return E10::V41; } i -= 1;
        if i == 0 { return E10::V40; } i -= 1;
        if i == 0 { return E10::V39; } i -= 1;
        if i == 0 { return E10::V38; } i -= 1;
        if i == 0 { return E10::V37; } i -= 1;
        if i == 0 { return E10::V36; } i -= 1;
        if i == 0 { return E10::V35; } i -= 1;
        if i == 0 { return E10::V34; } i -= 1;
        if i == 0 { return E10::V33; } i -= 1;
        if i == 0 { return E10::V32; } i -= 1;
        if i == 0 { return E10::V31; } i -= 1;
        if i == 0 { return E10::V30; } i -= 1;
        if i == 0 { return E10::V29; } i -= 1;
        if i == 0 { return E10::V28; } i -= 1;
        if i == 0 { return E10::V27; } i -= 1;
        if i == 0 { return E10::V26; } i -= 1;
        if i == 0 { return E10::V25; } i -= 1;
        if i == 0 { return E10::V24; } i -= 1;
        if i == 0 { return E10::V23; } i -= 1;
        if i == 0 { return E10::V22; } i -= 1;
        if i == 0 { return E10::V21; } i -= 1;
        if i == 0 { return E10::V20; } i -= 1;
        if i == 0 { return E10::V19; } i -= 1;
        if i == 0 { return E10::V18; } i -= 1;
        if i == 0 { return E10::V17; } i -= 1;
        if i == 0 { return E10::V16; } i -= 1;
        if i == 0 { return E10::V15; } i -= 1;
        if i == 0 { return E10::V14; } i -= 1;
        if i == 0 { return E10::V13; } i -= 1;
        if i == 0 { return E10::V12; } i -= 1;
        if i == 0 { return E10::V11; } i -= 1;
        if i == 0 { return E10::V10; } i -= 1;
        if i == 0 { return E10::V9; } i -= 1;
        if i == 0 { return E10::V8; } i -= 1;
        if i == 0 { return E10::V7; } i -= 1;
        if i == 0 { return E10::V6; } i -= 1;
        if i == 0 { return E10::V5; } i -= 1;
        if i == 0 { return E10::V4; } i -= 1;
        if i == 0 { return E10::V3; } i -= 1;
        if i == 0 { return E10::V2; } i -= 1;
        if i == 0 { return E10::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E10::V64 => 0u128,
            E10::V63 => 1u128,
            E10::V62 => 2u128,
            E10::V61 => 3u128,
            E10::V60 => 4u128,
            E10::V59 => 5u128,
            E10::V58 => 6u128,
            E10::V57 => 7u128,
            E10::V56 => 8u128,
            E10::V55 => 9u128,
            E10::V54 => 10u128,
            E10::V53 => 11u128,
            E10::V52 => 12u128,
            E10::V51 => 13u128,
            E10::V50 => 14u128,
            E10::V49 => 15u128,
            E10::V48 => 16u128,
            E10::V47 => 17u128,
            E10::V46 => 18u128,
            E10::V45 => 19u128,
            E10::V44 => 20u128,
            E10::V43 => 21u128,
            E10::V42 => 22u128,
            E10::V41 => 23u128,
            E10::V40 => 24u128,
            E10::V39 => 25u128,
            E10::V38 => 26u128,
            E10::V37 => 27u128,
            E10::V36 => 28u128,
            E10::V35 => 29u128,
            E10::V34 => 30u128,
            E10::V33 => 31u128,
            E10::V32 => 32u128,
            E10::V31 => 33u128,
            E10::V30 => 34u128,
            E10::V29 => 35u128,
            E10::V28 => 36u128,
            E10::V27 => 37u128,
            E10::V26 => 38u128,
            E10::V25 => 39u128,
            E10::V24 => 40u128,
            E10::V23 => 41u128,
            E10::V22 => 42u128,
            E10::V21 => 43u128,
            E10::V20 => 44u128,
            E10::V19 => 45u128,
            E10::V18 => 46u128,
            E10::V17 => 47u128,
            E10::V16 => 48u128,
            E10::V15 => 49u128,
            E10::V14 => 50u128,
            E10::V13 => 51u128,
            E10::V12 => 52u128,
            E10::V11 => 53u128,
            E10::V10 => 54u128,
            E10::V9 => 55u128,
            E10::V8 => 56u128,
            E10::V7 => 57u128,
            E10::V6 => 58u128,
            E10::V5 => 59u128,
            E10::V4 => 60u128,
            E10::V3 => 61u128,
            E10::V2 => 62u128,
            E10::V1 => 63u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E18  { Mid(Tri, ()) }
impl Spec for E18 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); return E18::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E18::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E26  { Mid(Never), Zed(Tri) }
impl Spec for E26 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E26::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E26::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E26::Mid(f0) => 0u128 + f0.index(),
            E26::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E34  { Mid, Zed(Never), Alpha { m: bool, z: Tri } }
impl Spec for E34 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E34::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E34::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E34::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E34::Mid => 0u128,
            E34::Zed(f0) => 1u128 + f0.index(),
            E34::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E42  { Mid(bool), Zed { m: bool, z: Tri }, Alpha { m: Tri } }
impl Spec for E42 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E42::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E42::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E42::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E42::Mid(f0) => 0u128 + f0.index(),
            E42::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E42::Alpha { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E50  { Mid(Never), Zed { m: Never, z: bool }, Alpha(bool) }
impl Spec for E50 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E50::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E50::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E50::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E50::Mid(f0) => 0u128 + f0.index(),
            E50::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E50::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E58  { Mid(Tri, bool), Zed, Alpha(Option<bool>) }
impl Spec for E58 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E58::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E58::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E58::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E58::Zed => 0u128,
            E58::Mid(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E58::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E66  { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha(Tri, Two, Tri) }
impl Spec for E66 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E66::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E66::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E66::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E66::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E66::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E66::Alpha(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E74  { Mid(()), Zed(()), Alpha { m: bool, z: Tri } }
impl Spec for E74 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E74::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E74::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E74::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E74::Mid(f0) => 0u128 + f0.index(),
            E74::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E74::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E82  { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha { m: Tri } }
impl Spec for E82 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E82::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E82::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E82::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E82::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E82::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E82::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E90  { Mid(Option<bool>), Zed(Never), Alpha(bool) }
impl Spec for E90 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E90::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E90::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E90::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E90::Mid(f0) => 0u128 + f0.index(),
            E90::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E90::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E98  { Mid, Zed { m: bool, z: Tri }, Alpha, Quux }
impl Spec for E98 {
    fn count() -> u128 { 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E98::Mid; } i -= 1;
        if i == 0 { return E98::Alpha; } i -= 1;
        if i == 0 { return E98::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E98::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E98::Mid => 0u128,
            E98::Alpha => 1u128,
            E98::Quux => 2u128,
            E98::Zed { m: f0, z: f1 } => 3u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E106  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux(Never) }
impl Spec for E106 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E106::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E106::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E106::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E106::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E106::Alpha => 0u128,
            E106::Mid(f0) => 1u128 + f0.index(),
            E106::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E106::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E114  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Tri) }
impl Spec for E114 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E114::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E114::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E114::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E114::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E114::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E114::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E114::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E114::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E122  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Two) }
impl Spec for E122 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E122::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E122::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E122::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E122::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E122::Mid(f0) => 0u128 + f0.index(),
            E122::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E122::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E122::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E130  { Mid(Two), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E130 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E130::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E130::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E130::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E130::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E130::Mid(f0) => 0u128 + f0.index(),
            E130::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E130::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E130::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E138  { Mid, Zed(N32), Alpha, Quux { m: N16, z: Tri } }
impl Spec for E138 {
    fn count() -> u128 { 2u128 + 1u128 * <N32 as Spec>::count() + 1u128 * <N16 as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E138::Mid; } i -= 1;
        if i == 0 { return E138::Alpha; } i -= 1;
        let c = 1u128 * <N32 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<N32>(&mut r); return E138::Zed(f0); } i -= c;
        let c = 1u128 * <N16 as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<N16>(&mut r); let f1 = pick::<Tri>(&mut r); return E138::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E138::Mid => 0u128,
            E138::Alpha => 1u128,
            E138::Zed(f0) => 2u128 + f0.index(),
            E138::Quux { m: f0, z: f1 } => 2u128 + 1u128 * <N32 as Spec>::count() + f0.index() + <N16 as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S146   { m: Never, z: Tri }
impl Spec for S146 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); return S146 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S146 { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S154   { m: Never, z: (), a: Never }
impl Spec for S154 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Never>(&mut r); return S154 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S154 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S162   { m: Five, z: Tri, a: bool }
impl Spec for S162 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); return S162 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S162 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S170 ((), bool, Tri, bool) ;
impl Spec for S170 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<bool>(&mut r); return S170(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S170(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <bool as Spec>::count() * f2.index() + <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E178<A>  { Mid { m: A }, Zed(bool, A) }
impl<A: Spec> Spec for E178<A> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() + 1u128 * <bool as Spec>::count() * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); return E178::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<A>(&mut r); return E178::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E178::Mid { m: f0 } => 0u128 + f0.index(),
            E178::Zed(f0, f1) => 0u128 + 1u128 * <A as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S186<A, B> (A, B) ;
impl<A: Spec, B: Spec> Spec for S186<A, B> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() * <B as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count() * <B as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<B>(&mut r); return S186(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S186(f0, f1) => 0u128 + f0.index() + <A as Spec>::count() * f1.index(),
        }
    }
}
pub fn all(v: &mut Vec<Ty>) {
    v.push(ty::<E2>("E2: enum E2 { Mid, Zed }", vec![u8_::<E2>(), u16_::<E2>(), u32_::<E2>(), u64_::<E2>(), u128_::<E2>(), small_::<E2>(), p8_::<E2>(), p16_::<E2>()]));
    v.push(ty::<Result<E2, Tri>>("Result<E2, Tri>: enum E2 { Mid, Zed }", vec![u8_::<Result<E2, Tri>>(), u16_::<Result<E2, Tri>>(), u32_::<Result<E2, Tri>>(), u64_::<Result<E2, Tri>>(), u128_::<Result<E2, Tri>>(), small_::<Result<E2, Tri>>(), p8_::<Result<E2, Tri>>(), p16_::<Result<E2, Tri>>()]));
    v.push(ty::<E10>("E10: enum E10 { V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43,", vec![u8_::<E10>(), u16_::<E10>(), u32_::<E10>(), u64_::<E10>(), u128_::<E10>(), small_::<E10>(), p8_::<E10>(), p16_::<E10>()]));
    v.push(ty::<[E10; 2]>("[E10; 2]: enum E10 { V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43,", vec![u16_::<[E10; 2]>(), u32_::<[E10; 2]>(), u64_::<[E10; 2]>(), u128_::<[E10; 2]>(), small_::<[E10; 2]>(), p16_::<[E10; 2]>()]));
    v.push(ty::<E18>("E18: enum E18 { Mid(Tri, ()) }", vec![u8_::<E18>(), u16_::<E18>(), u32_::<E18>(), u64_::<E18>(), u128_::<E18>(), small_::<E18>(), p8_::<E18>(), p16_::<E18>()]));
    v.push(ty::<Option<(Tri, E18)>>("Option<(Tri, E18)>: enum E18 { Mid(Tri, ()) }", vec![u8_::<Option<(Tri, E18)>>(), u16_::<Option<(Tri, E18)>>(), u32_::<Option<(Tri, E18)>>(), u64_::<Option<(Tri, E18)>>(), u128_::<Option<(Tri, E18)>>(), small_::<Option<(Tri, E18)>>(), p8_::<Option<(Tri, E18)>>(), p16_::<Option<(Tri, E18)>>()]));
    v.push(ty::<E26>("E26: enum E26 { Mid(Never), Zed(Tri) }", vec![u8_::<E26>(), u16_::<E26>(), u32_::<E26>(), u64_::<E26>(), u128_::<E26>(), small_::<E26>(), p8_::<E26>(), p16_::<E26>()]));
    v.push(ty::<(E26,)>("(E26,): enum E26 { Mid(Never), Zed(Tri) }", vec![u8_::<(E26,)>(), u16_::<(E26,)>(), u32_::<(E26,)>(), u64_::<(E26,)>(), u128_::<(E26,)>(), small_::<(E26,)>(), p8_::<(E26,)>(), p16_::<(E26,)>()]));
    v.push(ty::<E34>("E34: enum E34 { Mid, Zed(Never), Alpha { m: bool, z: Tri } }", vec![u8_::<E34>(), u16_::<E34>(), u32_::<E34>(), u64_::<E34>(), u128_::<E34>(), small_::<E34>(), p8_::<E34>(), p16_::<E34>()]));
    v.push(ty::<Result<bool, [E34; 1]>>("Result<bool, [E34; 1]>: enum E34 { Mid, Zed(Never), Alpha { m: bool, z: Tri } }", vec![u8_::<Result<bool, [E34; 1]>>(), u16_::<Result<bool, [E34; 1]>>(), u32_::<Result<bool, [E34; 1]>>(), u64_::<Result<bool, [E34; 1]>>(), u128_::<Result<bool, [E34; 1]>>(), small_::<Result<bool, [E34; 1]>>(), p8_::<Result<bool, [E34; 1]>>(), p16_::<Result<bool, [E34; 1]>>()]));
    v.push(ty::<E42>("E42: enum E42 { Mid(bool), Zed { m: bool, z: Tri }, Alpha { m: Tri } }", vec![u8_::<E42>(), u16_::<E42>(), u32_::<E42>(), u64_::<E42>(), u128_::<E42>(), small_::<E42>(), p8_::<E42>(), p16_::<E42>()]));
    v.push(ty::<Option<E42>>("Option<E42>: enum E42 { Mid(bool), Zed { m: bool, z: Tri }, Alpha { m: Tri } }", vec![u8_::<Option<E42>>(), u16_::<Option<E42>>(), u32_::<Option<E42>>(), u64_::<Option<E42>>(), u128_::<Option<E42>>(), small_::<Option<E42>>(), p8_::<Option<E42>>(), p16_::<Option<E42>>()]));
    v.push(ty::<E50>("E50: enum E50 { Mid(Never), Zed { m: Never, z: bool }, Alpha(bool) }", vec![u8_::<E50>(), u16_::<E50>(), u32_::<E50>(), u64_::<E50>(), u128_::<E50>(), small_::<E50>(), p8_::<E50>(), p16_::<E50>()]));
    v.push(ty::<(E50, bool)>("(E50, bool): enum E50 { Mid(Never), Zed { m: Never, z: bool }, Alpha(bool) }", vec![u8_::<(E50, bool)>(), u16_::<(E50, bool)>(), u32_::<(E50, bool)>(), u64_::<(E50, bool)>(), u128_::<(E50, bool)>(), small_::<(E50, bool)>(), p8_::<(E50, bool)>(), p16_::<(E50, bool)>()]));
    v.push(ty::<E58>("E58: enum E58 { Mid(Tri, bool), Zed, Alpha(Option<bool>) }", vec![u8_::<E58>(), u16_::<E58>(), u32_::<E58>(), u64_::<E58>(), u128_::<E58>(), small_::<E58>(), p8_::<E58>(), p16_::<E58>()]));
    v.push(ty::<Result<E58, Tri>>("Result<E58, Tri>: enum E58 { Mid(Tri, bool), Zed, Alpha(Option<bool>) }", vec![u8_::<Result<E58, Tri>>(), u16_::<Result<E58, Tri>>(), u32_::<Result<E58, Tri>>(), u64_::<Result<E58, Tri>>(), u128_::<Result<E58, Tri>>(), small_::<Result<E58, Tri>>(), p8_::<Result<E58, Tri>>(), p16_::<Result<E58, Tri>>()]));
    v.push(ty::<E66>("E66: enum E66 { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<E66>(), u16_::<E66>(), u32_::<E66>(), u64_::<E66>(), u128_::<E66>(), small_::<E66>(), p8_::<E66>(), p16_::<E66>()]));
    v.push(ty::<[E66; 2]>("[E66; 2]: enum E66 { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha(Tri, Two, Tri) }", vec![u16_::<[E66; 2]>(), u32_::<[E66; 2]>(), u64_::<[E66; 2]>(), u128_::<[E66; 2]>(), small_::<[E66; 2]>(), p16_::<[E66; 2]>()]));
    v.push(ty::<E74>("E74: enum E74 { Mid(()), Zed(()), Alpha { m: bool, z: Tri } }", vec![u8_::<E74>(), u16_::<E74>(), u32_::<E74>(), u64_::<E74>(), u128_::<E74>(), small_::<E74>(), p8_::<E74>(), p16_::<E74>()]));
    v.push(ty::<Option<(Tri, E74)>>("Option<(Tri, E74)>: enum E74 { Mid(()), Zed(()), Alpha { m: bool, z: Tri } }", vec![u8_::<Option<(Tri, E74)>>(), u16_::<Option<(Tri, E74)>>(), u32_::<Option<(Tri, E74)>>(), u64_::<Option<(Tri, E74)>>(), u128_::<Option<(Tri, E74)>>(), small_::<Option<(Tri, E74)>>(), p8_::<Option<(Tri, E74)>>(), p16_::<Option<(Tri, E74)>>()]));
    v.push(ty::<E82>("E82: enum E82 { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha { m: Tri } }", vec![u8_::<E82>(), u16_::<E82>(), u32_::<E82>(), u64_::<E82>(), u128_::<E82>(), small_::<E82>(), p8_::<E82>(), p16_::<E82>()]));
    v.push(ty::<(E82,)>("(E82,): enum E82 { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha { m: Tri } }", vec![u8_::<(E82,)>(), u16_::<(E82,)>(), u32_::<(E82,)>(), u64_::<(E82,)>(), u128_::<(E82,)>(), small_::<(E82,)>(), p8_::<(E82,)>(), p16_::<(E82,)>()]));
    v.push(ty::<E90>("E90: enum E90 { Mid(Option<bool>), Zed(Never), Alpha(bool) }", vec![u8_::<E90>(), u16_::<E90>(), u32_::<E90>(), u64_::<E90>(), u128_::<E90>(), small_::<E90>(), p8_::<E90>(), p16_::<E90>()]));
    v.push(ty::<Result<bool, [E90; 1]>>("Result<bool, [E90; 1]>: enum E90 { Mid(Option<bool>), Zed(Never), Alpha(bool) }", vec![u8_::<Result<bool, [E90; 1]>>(), u16_::<Result<bool, [E90; 1]>>(), u32_::<Result<bool, [E90; 1]>>(), u64_::<Result<bool, [E90; 1]>>(), u128_::<Result<bool, [E90; 1]>>(), small_::<Result<bool, [E90; 1]>>(), p8_::<Result<bool, [E90; 1]>>(), p16_::<Result<bool, [E90; 1]>>()]));
    v.push(ty::<E98>("E98: enum E98 { Mid, Zed { m: bool, z: Tri }, Alpha, Quux }", vec![u8_::<E98>(), u16_::<E98>(), u32_::<E98>(), u64_::<E98>(), u128_::<E98>(), small_::<E98>(), p8_::<E98>(), p16_::<E98>()]));
    v.push(ty::<Option<E98>>("Option<E98>: enum E98 { Mid, Zed { m: bool, z: Tri }, Alpha, Quux }", vec![u8_::<Option<E98>>(), u16_::<Option<E98>>(), u32_::<Option<E98>>(), u64_::<Option<E98>>(), u128_::<Option<E98>>(), small_::<Option<E98>>(), p8_::<Option<E98>>(), p16_::<Option<E98>>()]));
    v.push(ty::<E106>("E106: enum E106 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux(Never) }", vec![u8_::<E106>(), u16_::<E106>(), u32_::<E106>(), u64_::<E106>(), u128_::<E106>(), small_::<E106>(), p8_::<E106>(), p16_::<E106>()]));
    v.push(ty::<(E106, bool)>("(E106, bool): enum E106 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux(Never) }", vec![u8_::<(E106, bool)>(), u16_::<(E106, bool)>(), u32_::<(E106, bool)>(), u64_::<(E106, bool)>(), u128_::<(E106, bool)>(), small_::<(E106, bool)>(), p8_::<(E106, bool)>(), p16_::<(E106, bool)>()]));
    v.push(ty::<E114>("E114: enum E114 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Tri) }", vec![u8_::<E114>(), u16_::<E114>(), u32_::<E114>(), u64_::<E114>(), u128_::<E114>(), small_::<E114>(), p8_::<E114>(), p16_::<E114>()]));
    v.push(ty::<Result<E114, Tri>>("Result<E114, Tri>: enum E114 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Tri) }", vec![u8_::<Result<E114, Tri>>(), u16_::<Result<E114, Tri>>(), u32_::<Result<E114, Tri>>(), u64_::<Result<E114, Tri>>(), u128_::<Result<E114, Tri>>(), small_::<Result<E114, Tri>>(), p8_::<Result<E114, Tri>>(), p16_::<Result<E114, Tri>>()]));
    v.push(ty::<E122>("E122: enum E122 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Two) }", vec![u8_::<E122>(), u16_::<E122>(), u32_::<E122>(), u64_::<E122>(), u128_::<E122>(), small_::<E122>(), p8_::<E122>(), p16_::<E122>()]));
    v.push(ty::<[E122; 2]>("[E122; 2]: enum E122 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Two) }", vec![u8_::<[E122; 2]>(), u16_::<[E122; 2]>(), u32_::<[E122; 2]>(), u64_::<[E122; 2]>(), u128_::<[E122; 2]>(), small_::<[E122; 2]>(), p8_::<[E122; 2]>(), p16_::<[E122; 2]>()]));
    v.push(ty::<E130>("E130: enum E130 { Mid(Two), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }", vec![u8_::<E130>(), u16_::<E130>(), u32_::<E130>(), u64_::<E130>(), u128_::<E130>(), small_::<E130>(), p8_::<E130>(), p16_::<E130>()]));
    v.push(ty::<Option<(Tri, E130)>>("Option<(Tri, E130)>: enum E130 { Mid(Two), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }", vec![u8_::<Option<(Tri, E130)>>(), u16_::<Option<(Tri, E130)>>(), u32_::<Option<(Tri, E130)>>(), u64_::<Option<(Tri, E130)>>(), u128_::<Option<(Tri, E130)>>(), small_::<Option<(Tri, E130)>>(), p8_::<Option<(Tri, E130)>>(), p16_::<Option<(Tri, E130)>>()]));
    v.push(ty::<E138>("E138: enum E138 { Mid, Zed(N32), Alpha, Quux { m: N16, z: Tri } }", vec![u64_::<E138>(), u128_::<E138>()]));
    v.push(ty::<(E138,)>("(E138,): enum E138 { Mid, Zed(N32), Alpha, Quux { m: N16, z: Tri } }", vec![u64_::<(E138,)>(), u128_::<(E138,)>()]));
    v.push(ty::<S146>("S146: struct S146 { m: Never, z: Tri }", vec![]));
    v.push(ty::<Result<bool, [S146; 1]>>("Result<bool, [S146; 1]>: struct S146 { m: Never, z: Tri }", vec![u8_::<Result<bool, [S146; 1]>>(), u16_::<Result<bool, [S146; 1]>>(), u32_::<Result<bool, [S146; 1]>>(), u64_::<Result<bool, [S146; 1]>>(), u128_::<Result<bool, [S146; 1]>>(), small_::<Result<bool, [S146; 1]>>(), p8_::<Result<bool, [S146; 1]>>(), p16_::<Result<bool, [S146; 1]>>()]));
    v.push(ty::<S154>("S154: struct S154 { m: Never, z: (), a: Never }", vec![]));
    v.push(ty::<Option<S154>>("Option<S154>: struct S154 { m: Never, z: (), a: Never }", vec![p8_::<Option<S154>>(), p16_::<Option<S154>>()]));
    v.push(ty::<S162>("S162: struct S162 { m: Five, z: Tri, a: bool }", vec![u8_::<S162>(), u16_::<S162>(), u32_::<S162>(), u64_::<S162>(), u128_::<S162>(), small_::<S162>(), p8_::<S162>(), p16_::<S162>()]));
    v.push(ty::<(S162, bool)>("(S162, bool): struct S162 { m: Five, z: Tri, a: bool }", vec![u8_::<(S162, bool)>(), u16_::<(S162, bool)>(), u32_::<(S162, bool)>(), u64_::<(S162, bool)>(), u128_::<(S162, bool)>(), small_::<(S162, bool)>(), p8_::<(S162, bool)>(), p16_::<(S162, bool)>()]));
    v.push(ty::<S170>("S170: struct S170 ((), bool, Tri, bool) ;", vec![u8_::<S170>(), u16_::<S170>(), u32_::<S170>(), u64_::<S170>(), u128_::<S170>(), small_::<S170>(), p8_::<S170>(), p16_::<S170>()]));
    v.push(ty::<Result<S170, Tri>>("Result<S170, Tri>: struct S170 ((), bool, Tri, bool) ;", vec![u8_::<Result<S170, Tri>>(), u16_::<Result<S170, Tri>>(), u32_::<Result<S170, Tri>>(), u64_::<Result<S170, Tri>>(), u128_::<Result<S170, Tri>>(), small_::<Result<S170, Tri>>(), p8_::<Result<S170, Tri>>(), p16_::<Result<S170, Tri>>()]));
    v.push(ty::<E178<()>>("E178<()>: enum E178<A> { Mid { m: A }, Zed(bool, A) }", vec![u8_::<E178<()>>(), u16_::<E178<()>>(), u32_::<E178<()>>(), u64_::<E178<()>>(), u128_::<E178<()>>(), small_::<E178<()>>(), p8_::<E178<()>>(), p16_::<E178<()>>()]));
    v.push(ty::<E178<Never>>("E178<Never>: enum E178<A> { Mid { m: A }, Zed(bool, A) }", vec![]));
    v.push(ty::<[E178<Never>; 2]>("[E178<Never>; 2]: enum E178<A> { Mid { m: A }, Zed(bool, A) }", vec![]));
    v.push(ty::<S186<bool, Tri>>("S186<bool, Tri>: struct S186<A, B> (A, B) ;", vec![u8_::<S186<bool, Tri>>(), u16_::<S186<bool, Tri>>(), u32_::<S186<bool, Tri>>(), u64_::<S186<bool, Tri>>(), u128_::<S186<bool, Tri>>(), small_::<S186<bool, Tri>>(), p8_::<S186<bool, Tri>>(), p16_::<S186<bool, Tri>>()]));
    v.push(ty::<S186<Never, Five>>("S186<Never, Five>: struct S186<A, B> (A, B) ;", vec![]));
    v.push(ty::<Option<(Tri, S186<Never, Five>)>>("Option<(Tri, S186<Never, Five>)>: struct S186<A, B> (A, B) ;", vec![p8_::<Option<(Tri, S186<Never, Five>)>>(), p16_::<Option<(Tri, S186<Never, Five>)>>()]));
    v.push(ty::<[(); 3]>("[(); 3]", vec![p8_::<[(); 3]>(), p16_::<[(); 3]>()]));
    v.push(ty::<((), Five)>("((), Five)", vec![u8_::<((), Five)>(), u16_::<((), Five)>(), u32_::<((), Five)>(), u64_::<((), Five)>(), u128_::<((), Five)>(), small_::<((), Five)>(), p8_::<((), Five)>(), p16_::<((), Five)>()]));
    v.push(ty::<Result<bool, bool>>("Result<bool, bool>", vec![u8_::<Result<bool, bool>>(), u16_::<Result<bool, bool>>(), u32_::<Result<bool, bool>>(), u64_::<Result<bool, bool>>(), u128_::<Result<bool, bool>>(), small_::<Result<bool, bool>>(), p8_::<Result<bool, bool>>(), p16_::<Result<bool, bool>>()]));
    v.push(ty::<(Tri, ())>("(Tri, ())", vec![u8_::<(Tri, ())>(), u16_::<(Tri, ())>(), u32_::<(Tri, ())>(), u64_::<(Tri, ())>(), u128_::<(Tri, ())>(), small_::<(Tri, ())>(), p8_::<(Tri, ())>(), p16_::<(Tri, ())>()]));
    v.push(ty::<Option<Five>>("Option<Five>", vec![u8_::<Option<Five>>(), u16_::<Option<Five>>(), u32_::<Option<Five>>(), u64_::<Option<Five>>(), u128_::<Option<Five>>(), small_::<Option<Five>>(), p8_::<Option<Five>>(), p16_::<Option<Five>>()]));
    v.push(ty::<Result<Five, Tri>>("Result<Five, Tri>", vec![u8_::<Result<Five, Tri>>(), u16_::<Result<Five, Tri>>(), u32_::<Result<Five, Tri>>(), u64_::<Result<Five, Tri>>(), u128_::<Result<Five, Tri>>(), small_::<Result<Five, Tri>>(), p8_::<Result<Five, Tri>>(), p16_::<Result<Five, Tri>>()]));
    v.push(ty::<(Never, bool)>("(Never, bool)", vec![]));
    v.push(ty::<[D17; 0]>("[D17; 0]", vec![p8_::<[D17; 0]>(), p16_::<[D17; 0]>()]));
    v.push(ty::<Result<D17, Five>>("Result<D17, Five>", vec![u8_::<Result<D17, Five>>(), u16_::<Result<D17, Five>>(), u32_::<Result<D17, Five>>(), u64_::<Result<D17, Five>>(), u128_::<Result<D17, Five>>(), small_::<Result<D17, Five>>(), p8_::<Result<D17, Five>>(), p16_::<Result<D17, Five>>()]));
    v.push(ty::<Result<((), Tri), Result<Never, Tri>>>("Result<((), Tri), Result<Never, Tri>>", vec![u8_::<Result<((), Tri), Result<Never, Tri>>>(), u16_::<Result<((), Tri), Result<Never, Tri>>>(), u32_::<Result<((), Tri), Result<Never, Tri>>>(), u64_::<Result<((), Tri), Result<Never, Tri>>>(), u128_::<Result<((), Tri), Result<Never, Tri>>>(), small_::<Result<((), Tri), Result<Never, Tri>>>(), p8_::<Result<((), Tri), Result<Never, Tri>>>(), p16_::<Result<((), Tri), Result<Never, Tri>>>()]));
    v.push(ty::<Option<Result<bool, ()>>>("Option<Result<bool, ()>>", vec![u8_::<Option<Result<bool, ()>>>(), u16_::<Option<Result<bool, ()>>>(), u32_::<Option<Result<bool, ()>>>(), u64_::<Option<Result<bool, ()>>>(), u128_::<Option<Result<bool, ()>>>(), small_::<Option<Result<bool, ()>>>(), p8_::<Option<Result<bool, ()>>>(), p16_::<Option<Result<bool, ()>>>()]));
    v.push(ty::<[[Tri; 3]; 2]>("[[Tri; 3]; 2]", vec![u16_::<[[Tri; 3]; 2]>(), u32_::<[[Tri; 3]; 2]>(), u64_::<[[Tri; 3]; 2]>(), u128_::<[[Tri; 3]; 2]>(), small_::<[[Tri; 3]; 2]>(), p16_::<[[Tri; 3]; 2]>()]));
    v.push(ty::<((Tri, Five), Option<Tri>)>("((Tri, Five), Option<Tri>)", vec![u8_::<((Tri, Five), Option<Tri>)>(), u16_::<((Tri, Five), Option<Tri>)>(), u32_::<((Tri, Five), Option<Tri>)>(), u64_::<((Tri, Five), Option<Tri>)>(), u128_::<((Tri, Five), Option<Tri>)>(), small_::<((Tri, Five), Option<Tri>)>(), p8_::<((Tri, Five), Option<Tri>)>(), p16_::<((Tri, Five), Option<Tri>)>()]));
    v.push(ty::<(Result<Five, bool>, bool, [bool; 3])>("(Result<Five, bool>, bool, [bool; 3])", vec![u8_::<(Result<Five, bool>, bool, [bool; 3])>(), u16_::<(Result<Five, bool>, bool, [bool; 3])>(), u32_::<(Result<Five, bool>, bool, [bool; 3])>(), u64_::<(Result<Five, bool>, bool, [bool; 3])>(), u128_::<(Result<Five, bool>, bool, [bool; 3])>(), small_::<(Result<Five, bool>, bool, [bool; 3])>(), p8_::<(Result<Five, bool>, bool, [bool; 3])>(), p16_::<(Result<Five, bool>, bool, [bool; 3])>()]));
    v.push(ty::<Result<(Never, ()), [(); 0]>>("Result<(Never, ()), [(); 0]>", vec![p8_::<Result<(Never, ()), [(); 0]>>(), p16_::<Result<(Never, ()), [(); 0]>>()]));
    v.push(ty::<Option<Option<D17>>>("Option<Option<D17>>", vec![u8_::<Option<Option<D17>>>(), u16_::<Option<Option<D17>>>(), u32_::<Option<Option<D17>>>(), u64_::<Option<Option<D17>>>(), u128_::<Option<Option<D17>>>(), small_::<Option<Option<D17>>>(), p8_::<Option<Option<D17>>>(), p16_::<Option<Option<D17>>>()]));
    v.push(ty::<[Result<D17, Tri>; 2]>("[Result<D17, Tri>; 2]", vec![u16_::<[Result<D17, Tri>; 2]>(), u32_::<[Result<D17, Tri>; 2]>(), u64_::<[Result<D17, Tri>; 2]>(), u128_::<[Result<D17, Tri>; 2]>(), small_::<[Result<D17, Tri>; 2]>(), p16_::<[Result<D17, Tri>; 2]>()]));
    v.push(ty::<[bool; 16]>("[bool; 16]", vec![u16_::<[bool; 16]>(), u32_::<[bool; 16]>(), u64_::<[bool; 16]>(), u128_::<[bool; 16]>(), small_::<[bool; 16]>(), p16_::<[bool; 16]>()]));
    v.push(ty::<Option<Byte>>("Option<Byte>", vec![u16_::<Option<Byte>>(), u32_::<Option<Byte>>(), u64_::<Option<Byte>>(), u128_::<Option<Byte>>(), small_::<Option<Byte>>(), p16_::<Option<Byte>>()]));
    v.push(ty::<[[Tri; 3]; 3]>("[[Tri; 3]; 3]", vec![u16_::<[[Tri; 3]; 3]>(), u32_::<[[Tri; 3]; 3]>(), u64_::<[[Tri; 3]; 3]>(), u128_::<[[Tri; 3]; 3]>(), small_::<[[Tri; 3]; 3]>(), p16_::<[[Tri; 3]; 3]>()]));
}
