// generated by tools/gen_e2e.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use e2esut::*;
use enum_like_derive::EnumLike;
#[derive(Clone, Copy, EnumLike)]
pub enum E3  { Mid, Zed, Alpha }
impl Spec for E3 {
    fn count() -> u128 { 3u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E3::Mid; } i -= 1;
        if i == 0 { return E3::Zed; } i -= 1;
        if i == 0 { return E3::Alpha; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E3::Mid => 0u128,
            E3::Zed => 1u128,
            E3::Alpha => 2u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E11  { V100, V99, V98, V97, V96, V95, V94, V93, V92, V91, V90, V89, V88, V87, V86, V85, V84, V83, V82, V81, V80, V79, V78, V77, V76, V75, V74, V73, V72, V71, V70, V69, V68, V67, V66, V65, V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43, V42, V41, V40, V39, V38, V37, V36, V35, V34, V33, V32, V31, V30, V29, V28, V27, V26, V25, V24, V23, V22, V21, V20, V19, V18, V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E11 {
    fn count() -> u128 { 100u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E11::V100; } i -= 1;
        if i == 0 { return E11::V99; } i -= 1;
        if i == 0 { return E11::V98; } i -= 1;
        if i == 0 { return E11::V97; } i -= 1;
        if i == 0 { return E11::V96; } i -= 1;
        if i == 0 { return E11::V95; } i -= 1;
        if i == 0 { return E11::V94; } i -= 1;
        if i == 0 { return E11::V93; } i -= 1;
        if i == 0 { return E11::V92; } i -= 1;
        if i == 0 { return E11::V91; } i -= 1;
        if i == 0 { return E11::V90; } i -= 1;
        if i == 0 { return E11::V89; } i -= 1;
        if i == 0 { return E11::V88; } i -= 1;
        if i == 0 { return E11::V87; } i -= 1;
        if i == 0 { return E11::V86; } i -= 1;
        if i == 0 { return E11::V85; } i -= 1;
        if i == 0 { return E11::V84; } i -= 1;
        if i == 0 { return E11::V83; } i -= 1;
        if i == 0 { return E11::V82; } i -= 1;
        if i == 0 { return E11::V81; } i -= 1;
        if i == 0 { return E11::V80; } i -= 1;
        if i == 0 { return E11::V79; } i -= 1;
        if i == 0 { return E11::V78; } i -= 1;
        if i == 0 { return E11::V77; } i -= 1;
        if i == 0 { return E11::V76; } i -= 1;
        if i == 0 { return E11::V75; } i -= 1;
        if i == 0 { return E11::V74; } i -= 1;
        if i == 0 { return E11::V73; } i -= 1;
        if i == 0 { return E11::V72; } i -= 1;
        if i == 0 { return E11::V71; } i -= 1;
        if i == 0 { return E11::V70; } i -= 1;
        if i == 0 { return E11::V69; } i -= 1;
        if i == 0 { return E11::V68; } i -= 1;
        if i == 0 { return E11::V67; } i -= 1;
        if i == 0 { return E11::V66; } i -= 1;
        if i == 0 { return E11::V65; } i -= 1;
        if i == 0 { return E11::V64; } i -= 1;
        if i == 0 { return E11::V63; } i -= 1;
        if i == 0 { return E11::V62; } i -= 1;
        if i == 0 { return E11::V61; } i -= 1;
        if i == 0 { return E11::V60; } i -= 1;
        if i == 0 { return E11::V59; } i -= 1;
        if i == 0 { return E11::V58; } i -= 1;
        if i == 0 { return E11::V57; } i -= 1;
        if i == 0 { return E11::V56; } i -= 1;
        if i == 0 { return E11::V55; } i -= 1;
        if i == 0 { return E11::V54; } i -= 1;
        if i == 0 { return E11::V53; } i -= 1;
        if i == 0 { return E11::V52; } i -= 1;
        if i == 0 { return E11::V51; } i -= 1;
        if i == 0 { return E11::V50; } i -= 1;
        if i == 0 { return E11::V49; } i -= 1;
        if i == 0 { return E11::V48; } i -= 1;
        if i == 0 { return E11::V47; } i -= 1;
        if i == 0 { return E11::V46; } i -= 1;
        if i == 0 { return E11::V45; } i -= 1;
        if i == 0 { return E11::V44; } i -= 1;
        if i == 0 { return E11::V43; } i -= 1;
        if i == 0 { return E11::V42; } i -= 1;
        if i == 0 { return E11::V41; } i -= 1;
        if i == 0 { return E11::V40; } i -= 1;
        if i == 0 { return E11::V39; } i -= 1;
        if i == 0 { return E11::V38; } i -= 1;
        if i == 0 { return E11::V37; } i -= 1;
        if i == 0 { return E11::V36; } i -= 1;
        if i == 0 { return E11::V35; } i -= 1;
        if i == 0 { return E11::V34; } i -= 1;
        if i == 0 { return E11::V33; } i -= 1;
        if i == 0 { return E11::V32; } i -= 1;
        if i == 0 { return E11::V31; } i -= 1;
        if i == 0 { return E11::V30; } i -= 1;
        if i == 0 { return E11::V29; } i -= 1;
        if i == 0 { return E11::V28; } i -= 1;
        if i == 0 { return E11::V27; } i -= 1;
        if i == 0 { return E11::V26; } i -= 1;
        if i == 0 { return E11::V25; } i -= 1;
        if i == 0 { return E11::V24; } i -= 1;
        if i == 0 { return E11::V23; } i -= 1;
        if i == 0 { return E11::V22; } i -= 1;
        if i == 0 { return E11::V21; } i -= 1;
        if i == 0 { return E11::V20; } i -= 1;
        if i == 0 { return E11::V19; } i -= 1;
        if i == 0 { return E11::V18; } i -= 1;
        if i == 0 { return E11::V17; } i -= 1;
        if i == 0 { return E11::V16; } i -= 1;
        if i == 0 { return E11::V15; } i -= 1;
        if i == 0 { return E11::V14; } i -= 1;
        if i == 0 { return E11::V13; } i -= 1;
        if i == 0 { return E11::V12; } i -= 1;
        if i == 0 { return E11::V11; } i -= 1;
        if i == 0 { return E11::V10; } i -= 1;
        if i == 0 { return E11::V9; } i -= 1;
        if i == 0 { return E11::V8; } i -= 1;
        if i == 0 { return E11::V7; } i -= 1;
        if i == 0 { return E11::V6; } i -= 1;
        if i == 0 { return E11::V5; } i -= 1;
        if i == 0 { return E11::V4; } i -= 1;
        if i == 0 { return E11::V3; } i -= 1;
        if i == 0 { return E11::V2; } i -= 1;
        if i == 0 { return E11::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E11::V100 => 0u128,
            E11::V99 => 1u128,
            E11::V98 => 2u128,
            E11::V97 => 3u128,
            E11::V96 => 4u128,
            E11::V95 => 5u128,
            E11::V94 => 6u128,
            E11::V93 => 7u128,
            E11::V92 => 8u128,
            E11::V91 => 9u128,
            E11::V90 => 10u128,
            E11::V89 => 11u128,
            E11::V88 => 12u128,
            E11::V87 => 13u128,
            E11::V86 => 14u128,
            E11::V85 => 15u128,
            E11::V84 => 16u128,
            E11::V83 => 17u128,
            E11::V82 => 18u128,
            E11::V81 => 19u128,
            E11::V80 => 20u128,
            E11::V79 => 21u128,
            E11::V78 => 22u128,
            E11::V77 => 23u128,
            E11::V76 => 24u128,
            E11::V75 => 25u128,
            E11::V74 => 26u128,
            E11::V73 => 27u128,
            E11::V72 => 28u128,
            E11::V71 => 29u128,
            E11::V70 => 30u128,
            E11::V69 => 31u128,
            E11::V68 => 32u128,
            E11::V67 => 33u128,
            E11::V66 => 34u128,
            E11::V65 => 35u128,
            E11::V64 => 36u128,
            E11::V63 => 37u128,
            E11::V62 => 38u128,
            E11::V61 => 39u128,
            E11::V60 => 40u128,
            E11::V59 => 41u128,
            E11::V58 => 42u128,
            E11::V57 => 43u128,
            E11::V56 => 44u128,
            E11::V55 => 45u128,
            E11::V54 => 46u128,
            E11::V53 => 47u128,
            E11::V52 => 48u128,
            E11::V51 => 49u128,
            E11::V50 => 50u128,
            E11::V49 => 51u128,
            E11::V48 => 52u128,
            E11::V47 => 53u128,
            E11::V46 => 54u128,
            E11::V45 => 55u128,
            E11::V44 => 56u128,
            E11::V43 => 57u128,
            E11::V42 => 58u128,
            E11::V41 => 59u128,
            E11::V40 => 60u128,
            E11::V39 => 61u128,
            E11::V38 => 62u128,
            E11::V37 => 63u128,
            E11::V36 => 64u128,
            E11::V35 => 65u128,
            E11::V34 => 66u128,
            E11::V33 => 67u128,
            E11::V32 => 68u128,
            E11::V31 => 69u128,
            E11::V30 => 70u128,
            E11::V29 => 71u128,
            E11::V28 => 72u128,
            E11::V27 => 73u128,
            E11::V26 => 74u128,
            E11::V25 => 75u128,
            E11::V24 => 76u128,
            E11::V23 => 77u128,
            E11::V22 => 78u128,
            E11::V21 => 79u128,
            E11::V20 => 80u128,
            E11::V19 => 81u128,
            E11::V18 => 82u128,
            E11::V17 => 83u128,
            E11::V16 => 84u128,
            E11::V15 => 85u128,
            E11::V14 => 86u128,
            E11::V13 => 87u128,
            E11::V12 => 88u128,
            E11::V11 => 89u128,
            E11::V10 => 90u128,
            E11::V9 => 91u128,
            E11::V8 => 92u128,
            E11::V7 => 93u128,
            E11::V6 => 94u128,
            E11::V5 => 95u128,
            E11::V4 => 96u128,
            E11::V3 => 97u128,
            E11::V2 => 98u128,
            E11::V1 => 99u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E19  { Mid { m: Tri, z: () } }
impl Spec for E19 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); return E19::Mid { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E19::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E27  { Mid(Tri), Zed { m: Tri, z: bool } }
impl Spec for E27 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E27::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E27::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E27::Mid(f0) => 0u128 + f0.index(),
            E27::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E35  { Mid, Zed(Tri, bool), Alpha(bool) }
impl Spec for E35 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E35::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E35::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E35::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E35::Mid => 0u128,
            E35::Zed(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E35::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E43  { Mid(bool), Zed(()), Alpha(Option<bool>) }
impl Spec for E43 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E43::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E43::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E43::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E43::Mid(f0) => 0u128 + f0.index(),
            E43::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E43::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E51  { Mid(Never), Zed(Option<bool>), Alpha(Tri, Two, Tri) }
impl Spec for E51 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E51::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E51::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E51::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E51::Mid(f0) => 0u128 + f0.index(),
            E51::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E51::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E59  { Mid(Tri, bool), Zed(Never), Alpha { m: bool, z: Tri } }
impl Spec for E59 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E59::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E59::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E59::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E59::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E59::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E59::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E67  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: Tri } }
impl Spec for E67 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E67::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E67::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E67::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E67::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E67::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E67::Alpha { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E75  { Mid(()), Zed { m: Never, z: bool }, Alpha(bool) }
impl Spec for E75 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E75::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E75::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E75::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E75::Mid(f0) => 0u128 + f0.index(),
            E75::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E75::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E83  { Mid { m: Never, z: bool }, Zed, Alpha(Option<bool>) }
impl Spec for E83 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E83::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E83::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E83::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E83::Zed => 0u128,
            E83::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E83::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E91  { Mid(Option<bool>), Zed { m: Tri }, Alpha(Tri, Two, Tri) }
impl Spec for E91 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E91::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E91::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E91::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E91::Mid(f0) => 0u128 + f0.index(),
            E91::Zed { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E91::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E99  { Mid, Zed { m: bool, z: Tri }, Alpha(Never), Quux(Tri) }
impl Spec for E99 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E99::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E99::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E99::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E99::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E99::Mid => 0u128,
            E99::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E99::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E99::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E107  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Two) }
impl Spec for E107 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E107::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E107::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E107::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E107::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E107::Mid(f0) => 0u128 + f0.index(),
            E107::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E107::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E107::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E115  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E115 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E115::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E115::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E115::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E115::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E115::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E115::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E115::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E115::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E123  { Mid(Never), Zed(Never), Alpha, Quux }
impl Spec for E123 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E123::Alpha; } i -= 1;
        if i == 0 { return E123::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E123::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E123::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E123::Alpha => 0u128,
            E123::Quux => 1u128,
            E123::Mid(f0) => 2u128 + f0.index(),
            E123::Zed(f0) => 2u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E131  { Mid(Two), Zed(Never), Alpha, Quux(Never) }
impl Spec for E131 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E131::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E131::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E131::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E131::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E131::Alpha => 0u128,
            E131::Mid(f0) => 1u128 + f0.index(),
            E131::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E131::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E139  { Mid {  }, Zed(Tri) }
impl Spec for E139 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E139::Mid {  }; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E139::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E139::Mid {  } => 0u128,
            E139::Zed(f0) => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S147   { m: Five, z: bool }
impl Spec for S147 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<bool>(&mut r); return S147 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S147 { m: f0, z: f1 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S155   { m: Never, z: Never, a: () }
impl Spec for S155 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<()>(&mut r); return S155 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S155 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S163   { m: Five, z: Five, a: Five }
impl Spec for S163 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Five>(&mut r); return S163 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S163 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S171 ((), (), bool, Tri) ;
impl Spec for S171 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); return S171(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S171(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index() + <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E179<A: Clone + 'static>  { Mid { m: A }, Zed(bool, A) }
impl<A: Spec> Spec for E179<A> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() + 1u128 * <bool as Spec>::count() * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); return E179::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<A>(&mut r); return E179::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E179::Mid { m: f0 } => 0u128 + f0.index(),
            E179::Zed(f0, f1) => 0u128 + 1u128 * <A as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
pub fn all(v: &mut Vec<Ty>) {
    v.push(ty::<E3>("E3: enum E3 { Mid, Zed, Alpha }", vec![u8_::<E3>(), u16_::<E3>(), u32_::<E3>(), u64_::<E3>(), u128_::<E3>(), small_::<E3>(), p8_::<E3>(), p16_::<E3>()]));
    v.push(ty::<[E3; 2]>("[E3; 2]: enum E3 { Mid, Zed, Alpha }", vec![u8_::<[E3; 2]>(), u16_::<[E3; 2]>(), u32_::<[E3; 2]>(), u64_::<[E3; 2]>(), u128_::<[E3; 2]>(), small_::<[E3; 2]>(), p8_::<[E3; 2]>(), p16_::<[E3; 2]>()]));
    v.push(ty::<E11>("E11: enum E11 { V100, V99, V98, V97, V96, V95, V94, V93, V92, V91, V90, V89, V88, V87, V86, V85, V84, V83, V82, V81, V80, V79", vec![u8_::<E11>(), u16_::<E11>(), u32_::<E11>(), u64_::<E11>(), u128_::<E11>(), small_::<E11>(), p8_::<E11>(), p16_::<E11>()]));
    v.push(ty::<Option<(Tri, E11)>>("Option<(Tri, E11)>: enum E11 { V100, V99, V98, V97, V96, V95, V94, V93, V92, V91, V90, V89, V88, V87, V86, V85, V84, V83, V82, V81, V80, V79", vec![u16_::<Option<(Tri, E11)>>(), u32_::<Option<(Tri, E11)>>(), u64_::<Option<(Tri, E11)>>(), u128_::<Option<(Tri, E11)>>(), small_::<Option<(Tri, E11)>>(), p16_::<Option<(Tri, E11)>>()]));
    v.push(ty::<E19>("E19: enum E19 { Mid { m: Tri, z: () } }", vec![u8_::<E19>(), u16_::<E19>(), u32_::<E19>(), u64_::<E19>(), u128_::<E19>(), small_::<E19>(), p8_::<E19>(), p16_::<E19>()]));
    v.push(ty::<(E19,)>("(E19,): enum E19 { Mid { m: Tri, z: () } }", vec![u8_::<(E19,)>(), u16_::<(E19,)>(), u32_::<(E19,)>(), u64_::<(E19,)>(), u128_::<(E19,)>(), small_::<(E19,)>(), p8_::<(E19,)>(), p16_::<(E19,)>()]));
    v.push(ty::<E27>("E27: enum E27 { Mid(Tri), Zed { m: Tri, z: bool } }", vec![u8_::<E27>(), u16_::<E27>(), u32_::<E27>(), u64_::<E27>(), u128_::<E27>(), small_::<E27>(), p8_::<E27>(), p16_::<E27>()]));
    v.push(ty::<Result<bool, [E27; 1]>>("Result<bool, [E27; 1]>: enum E27 { Mid(Tri), Zed { m: Tri, z: bool } }", vec![u8_::<Result<bool, [E27; 1]>>(), u16_::<Result<bool, [E27; 1]>>(), u32_::<Result<bool, [E27; 1]>>(), u64_::<Result<bool, [E27; 1]>>(), u128_::<Result<bool, [E27; 1]>>(), small_::<Result<bool, [E27; 1]>>(), p8_::<Result<bool, [E27; 1]>>(), p16_::<Result<bool, [E27; 1]>>()]));
    v.push(ty::<E35>("E35: enum E35 { Mid, Zed(Tri, bool), Alpha(bool) }", vec![u8_::<E35>(), u16_::<E35>(), u32_::<E35>(), u64_::<E35>(), u128_::<E35>(), small_::<E35>(), p8_::<E35>(), p16_::<E35>()]));
    v.push(ty::<Option<E35>>("Option<E35>: enum E35 { Mid, Zed(Tri, bool), Alpha(bool) }", vec![u8_::<Option<E35>>(), u16_::<Option<E35>>(), u32_::<Option<E35>>(), u64_::<Option<E35>>(), u128_::<Option<E35>>(), small_::<Option<E35>>(), p8_::<Option<E35>>(), p16_::<Option<E35>>()]));
    v.push(ty::<E43>("E43: enum E43 { Mid(bool), Zed(()), Alpha(Option<bool>) }", vec![u8_::<E43>(), u16_::<E43>(), u32_::<E43>(), u64_::<E43>(), u128_::<E43>(), small_::<E43>(), p8_::<E43>(), p16_::<E43>()]));
    v.push(ty::<(E43, bool)>("(E43, bool): enum E43 { Mid(bool), Zed(()), Alpha(Option<bool>) }", vec![u8_::<(E43, bool)>(), u16_::<(E43, bool)>(), u32_::<(E43, bool)>(), u64_::<(E43, bool)>(), u128_::<(E43, bool)>(), small_::<(E43, bool)>(), p8_::<(E43, bool)>(), p16_::<(E43, bool)>()]));
    v.push(ty::<E51>("E51: enum E51 { Mid(Never), Zed(Option<bool>), Alpha(Tri, Two, Tri) }", vec![u8_::<E51>(), u16_::<E51>(), u32_::<E51>(), u64_::<E51>(), u128_::<E51>(), small_::<E51>(), p8_::<E51>(), p16_::<E51>()]));
    v.push(ty::<Result<E51, Tri>>("Result<E51, Tri>: enum E51 { Mid(Never), Zed(Option<bool>), Alpha(Tri, Two, Tri) }", vec![u8_::<Result<E51, Tri>>(), u16_::<Result<E51, Tri>>(), u32_::<Result<E51, Tri>>(), u64_::<Result<E51, Tri>>(), u128_::<Result<E51, Tri>>(), small_::<Result<E51, Tri>>(), p8_::<Result<E51, Tri>>(), p16_::<Result<E51, Tri>>()]));
    v.push(ty::<E59>("E59: enum E59 { Mid(Tri, bool), Zed(Never), Alpha { m: bool, z: Tri } }", vec![u8_::<E59>(), u16_::<E59>(), u32_::<E59>(), u64_::<E59>(), u128_::<E59>(), small_::<E59>(), p8_::<E59>(), p16_::<E59>()]));
    v.push(ty::<[E59; 2]>("[E59; 2]: enum E59 { Mid(Tri, bool), Zed(Never), Alpha { m: bool, z: Tri } }", vec![u8_::<[E59; 2]>(), u16_::<[E59; 2]>(), u32_::<[E59; 2]>(), u64_::<[E59; 2]>(), u128_::<[E59; 2]>(), small_::<[E59; 2]>(), p8_::<[E59; 2]>(), p16_::<[E59; 2]>()]));
    v.push(ty::<E67>("E67: enum E67 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: Tri } }", vec![u8_::<E67>(), u16_::<E67>(), u32_::<E67>(), u64_::<E67>(), u128_::<E67>(), small_::<E67>(), p8_::<E67>(), p16_::<E67>()]));
    v.push(ty::<Option<(Tri, E67)>>("Option<(Tri, E67)>: enum E67 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: Tri } }", vec![u8_::<Option<(Tri, E67)>>(), u16_::<Option<(Tri, E67)>>(), u32_::<Option<(Tri, E67)>>(), u64_::<Option<(Tri, E67)>>(), u128_::<Option<(Tri, E67)>>(), small_::<Option<(Tri, E67)>>(), p8_::<Option<(Tri, E67)>>(), p16_::<Option<(Tri, E67)>>()]));
    v.push(ty::<E75>("E75: enum E75 { Mid(()), Zed { m: Never, z: bool }, Alpha(bool) }", vec![u8_::<E75>(), u16_::<E75>(), u32_::<E75>(), u64_::<E75>(), u128_::<E75>(), small_::<E75>(), p8_::<E75>(), p16_::<E75>()]));
    v.push(ty::<(E75,)>("(E75,): enum E75 { Mid(()), Zed { m: Never, z: bool }, Alpha(bool) }", vec![u8_::<(E75,)>(), u16_::<(E75,)>(), u32_::<(E75,)>(), u64_::<(E75,)>(), u128_::<(E75,)>(), small_::<(E75,)>(), p8_::<(E75,)>(), p16_::<(E75,)>()]));
    v.push(ty::<E83>("E83: enum E83 { Mid { m: Never, z: bool }, Zed, Alpha(Option<bool>) }", vec![u8_::<E83>(), u16_::<E83>(), u32_::<E83>(), u64_::<E83>(), u128_::<E83>(), small_::<E83>(), p8_::<E83>(), p16_::<E83>()]));
    v.push(ty::<Result<bool, [E83; 1]>>("Result<bool, [E83; 1]>: enum E83 { Mid { m: Never, z: bool }, Zed, Alpha(Option<bool>) }", vec![u8_::<Result<bool, [E83; 1]>>(), u16_::<Result<bool, [E83; 1]>>(), u32_::<Result<bool, [E83; 1]>>(), u64_::<Result<bool, [E83; 1]>>(), u128_::<Result<bool, [E83; 1]>>(), small_::<Result<bool, [E83; 1]>>(), p8_::<Result<bool, [E83; 1]>>(), p16_::<Result<bool, [E83; 1]>>()]));
    v.push(ty::<E91>("E91: enum E91 { Mid(Option<bool>), Zed { m: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<E91>(), u16_::<E91>(), u32_::<E91>(), u64_::<E91>(), u128_::<E91>(), small_::<E91>(), p8_::<E91>(), p16_::<E91>()]));
    v.push(ty::<Option<E91>>("Option<E91>: enum E91 { Mid(Option<bool>), Zed { m: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<Option<E91>>(), u16_::<Option<E91>>(), u32_::<Option<E91>>(), u64_::<Option<E91>>(), u128_::<Option<E91>>(), small_::<Option<E91>>(), p8_::<Option<E91>>(), p16_::<Option<E91>>()]));
    v.push(ty::<E99>("E99: enum E99 { Mid, Zed { m: bool, z: Tri }, Alpha(Never), Quux(Tri) }", vec![u8_::<E99>(), u16_::<E99>(), u32_::<E99>(), u64_::<E99>(), u128_::<E99>(), small_::<E99>(), p8_::<E99>(), p16_::<E99>()]));
    v.push(ty::<(E99, bool)>("(E99, bool): enum E99 { Mid, Zed { m: bool, z: Tri }, Alpha(Never), Quux(Tri) }", vec![u8_::<(E99, bool)>(), u16_::<(E99, bool)>(), u32_::<(E99, bool)>(), u64_::<(E99, bool)>(), u128_::<(E99, bool)>(), small_::<(E99, bool)>(), p8_::<(E99, bool)>(), p16_::<(E99, bool)>()]));
    v.push(ty::<E107>("E107: enum E107 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Two) }", vec![u8_::<E107>(), u16_::<E107>(), u32_::<E107>(), u64_::<E107>(), u128_::<E107>(), small_::<E107>(), p8_::<E107>(), p16_::<E107>()]));
    v.push(ty::<Result<E107, Tri>>("Result<E107, Tri>: enum E107 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Two) }", vec![u8_::<Result<E107, Tri>>(), u16_::<Result<E107, Tri>>(), u32_::<Result<E107, Tri>>(), u64_::<Result<E107, Tri>>(), u128_::<Result<E107, Tri>>(), small_::<Result<E107, Tri>>(), p8_::<Result<E107, Tri>>(), p16_::<Result<E107, Tri>>()]));
    v.push(ty::<E115>("E115: enum E115 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Two), Quux { m: bool, z: Tri } }", vec![u8_::<E115>(), u16_::<E115>(), u32_::<E115>(), u64_::<E115>(), u128_::<E115>(), small_::<E115>(), p8_::<E115>(), p16_::<E115>()]));
    v.push(ty::<[E115; 2]>("[E115; 2]: enum E115 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Two), Quux { m: bool, z: Tri } }", vec![u16_::<[E115; 2]>(), u32_::<[E115; 2]>(), u64_::<[E115; 2]>(), u128_::<[E115; 2]>(), small_::<[E115; 2]>(), p16_::<[E115; 2]>()]));
    v.push(ty::<E123>("E123: enum E123 { Mid(Never), Zed(Never), Alpha, Quux }", vec![u8_::<E123>(), u16_::<E123>(), u32_::<E123>(), u64_::<E123>(), u128_::<E123>(), small_::<E123>(), p8_::<E123>(), p16_::<E123>()]));
    v.push(ty::<Option<(Tri, E123)>>("Option<(Tri, E123)>: enum E123 { Mid(Never), Zed(Never), Alpha, Quux }", vec![u8_::<Option<(Tri, E123)>>(), u16_::<Option<(Tri, E123)>>(), u32_::<Option<(Tri, E123)>>(), u64_::<Option<(Tri, E123)>>(), u128_::<Option<(Tri, E123)>>(), small_::<Option<(Tri, E123)>>(), p8_::<Option<(Tri, E123)>>(), p16_::<Option<(Tri, E123)>>()]));
    v.push(ty::<E131>("E131: enum E131 { Mid(Two), Zed(Never), Alpha, Quux(Never) }", vec![u8_::<E131>(), u16_::<E131>(), u32_::<E131>(), u64_::<E131>(), u128_::<E131>(), small_::<E131>(), p8_::<E131>(), p16_::<E131>()]));
    v.push(ty::<(E131,)>("(E131,): enum E131 { Mid(Two), Zed(Never), Alpha, Quux(Never) }", vec![u8_::<(E131,)>(), u16_::<(E131,)>(), u32_::<(E131,)>(), u64_::<(E131,)>(), u128_::<(E131,)>(), small_::<(E131,)>(), p8_::<(E131,)>(), p16_::<(E131,)>()]));
    v.push(ty::<E139>("E139: enum E139 { Mid { }, Zed(Tri) }", vec![u8_::<E139>(), u16_::<E139>(), u32_::<E139>(), u64_::<E139>(), u128_::<E139>(), small_::<E139>(), p8_::<E139>(), p16_::<E139>()]));
    v.push(ty::<Result<bool, [E139; 1]>>("Result<bool, [E139; 1]>: enum E139 { Mid { }, Zed(Tri) }", vec![u8_::<Result<bool, [E139; 1]>>(), u16_::<Result<bool, [E139; 1]>>(), u32_::<Result<bool, [E139; 1]>>(), u64_::<Result<bool, [E139; 1]>>(), u128_::<Result<bool, [E139; 1]>>(), small_::<Result<bool, [E139; 1]>>(), p8_::<Result<bool, [E139; 1]>>(), p16_::<Result<bool, [E139; 1]>>()]));
    v.push(ty::<S147>("S147: struct S147 { m: Five, z: bool }", vec![u8_::<S147>(), u16_::<S147>(), u32_::<S147>(), u64_::<S147>(), u128_::<S147>(), small_::<S147>(), p8_::<S147>(), p16_::<S147>()]));
    v.push(ty::<Option<S147>>("Option<S147>: struct S147 { m: Five, z: bool }", vec![u8_::<Option<S147>>(), u16_::<Option<S147>>(), u32_::<Option<S147>>(), u64_::<Option<S147>>(), u128_::<Option<S147>>(), small_::<Option<S147>>(), p8_::<Option<S147>>(), p16_::<Option<S147>>()]));
    v.push(ty::<S155>("S155: struct S155 { m: Never, z: Never, a: () }", vec![]));
    v.push(ty::<(S155, bool)>("(S155, bool): struct S155 { m: Never, z: Never, a: () }", vec![]));
    v.push(ty::<S163>("S163: struct S163 { m: Five, z: Five, a: Five }", vec![u8_::<S163>(), u16_::<S163>(), u32_::<S163>(), u64_::<S163>(), u128_::<S163>(), small_::<S163>(), p8_::<S163>(), p16_::<S163>()]));
    v.push(ty::<Result<S163, Tri>>("Result<S163, Tri>: struct S163 { m: Five, z: Five, a: Five }", vec![u8_::<Result<S163, Tri>>(), u16_::<Result<S163, Tri>>(), u32_::<Result<S163, Tri>>(), u64_::<Result<S163, Tri>>(), u128_::<Result<S163, Tri>>(), small_::<Result<S163, Tri>>(), p8_::<Result<S163, Tri>>(), p16_::<Result<S163, Tri>>()]));
    v.push(ty::<S171>("S171: struct S171 ((), (), bool, Tri) ;", vec![u8_::<S171>(), u16_::<S171>(), u32_::<S171>(), u64_::<S171>(), u128_::<S171>(), small_::<S171>(), p8_::<S171>(), p16_::<S171>()]));
    v.push(ty::<[S171; 2]>("[S171; 2]: struct S171 ((), (), bool, Tri) ;", vec![u8_::<[S171; 2]>(), u16_::<[S171; 2]>(), u32_::<[S171; 2]>(), u64_::<[S171; 2]>(), u128_::<[S171; 2]>(), small_::<[S171; 2]>(), p8_::<[S171; 2]>(), p16_::<[S171; 2]>()]));
    v.push(ty::<E179<bool>>("E179<bool>: enum E179<A: Clone + 'static> { Mid { m: A }, Zed(bool, A) }", vec![u8_::<E179<bool>>(), u16_::<E179<bool>>(), u32_::<E179<bool>>(), u64_::<E179<bool>>(), u128_::<E179<bool>>(), small_::<E179<bool>>(), p8_::<E179<bool>>(), p16_::<E179<bool>>()]));
    v.push(ty::<Option<(Tri, E179<bool>)>>("Option<(Tri, E179<bool>)>: enum E179<A: Clone + 'static> { Mid { m: A }, Zed(bool, A) }", vec![u8_::<Option<(Tri, E179<bool>)>>(), u16_::<Option<(Tri, E179<bool>)>>(), u32_::<Option<(Tri, E179<bool>)>>(), u64_::<Option<(Tri, E179<bool>)>>(), u128_::<Option<(Tri, E179<bool>)>>(), small_::<Option<(Tri, E179<bool>)>>(), p8_::<Option<(Tri, E179<bool>)>>(), p16_::<Option<(Tri, E179<bool>)>>()]));
    v.push(ty::<()>("()", vec![p8_::<()>(), p16_::<()>()]));
    v.push(ty::<[(); 0]>("[(); 0]", vec![p8_::<[(); 0]>(), p16_::<[(); 0]>()]));
    v.push(ty::<Result<(), Five>>("Result<(), Five>", vec![u8_::<Result<(), Five>>(), u16_::<Result<(), Five>>(), u32_::<Result<(), Five>>(), u64_::<Result<(), Five>>(), u128_::<Result<(), Five>>(), small_::<Result<(), Five>>(), p8_::<Result<(), Five>>(), p16_::<Result<(), Five>>()]));
    v.push(ty::<(bool, Tri)>("(bool, Tri)", vec![u8_::<(bool, Tri)>(), u16_::<(bool, Tri)>(), u32_::<(bool, Tri)>(), u64_::<(bool, Tri)>(), u128_::<(bool, Tri)>(), small_::<(bool, Tri)>(), p8_::<(bool, Tri)>(), p16_::<(bool, Tri)>()]));
    v.push(ty::<Result<Tri, ()>>("Result<Tri, ()>", vec![u8_::<Result<Tri, ()>>(), u16_::<Result<Tri, ()>>(), u32_::<Result<Tri, ()>>(), u64_::<Result<Tri, ()>>(), u128_::<Result<Tri, ()>>(), small_::<Result<Tri, ()>>(), p8_::<Result<Tri, ()>>(), p16_::<Result<Tri, ()>>()]));
    v.push(ty::<[Five; 3]>("[Five; 3]", vec![u8_::<[Five; 3]>(), u16_::<[Five; 3]>(), u32_::<[Five; 3]>(), u64_::<[Five; 3]>(), u128_::<[Five; 3]>(), small_::<[Five; 3]>(), p8_::<[Five; 3]>(), p16_::<[Five; 3]>()]));
    v.push(ty::<(Five, Five)>("(Five, Five)", vec![u8_::<(Five, Five)>(), u16_::<(Five, Five)>(), u32_::<(Five, Five)>(), u64_::<(Five, Five)>(), u128_::<(Five, Five)>(), small_::<(Five, Five)>(), p8_::<(Five, Five)>(), p16_::<(Five, Five)>()]));
    v.push(ty::<Result<Never, bool>>("Result<Never, bool>", vec![u8_::<Result<Never, bool>>(), u16_::<Result<Never, bool>>(), u32_::<Result<Never, bool>>(), u64_::<Result<Never, bool>>(), u128_::<Result<Never, bool>>(), small_::<Result<Never, bool>>(), p8_::<Result<Never, bool>>(), p16_::<Result<Never, bool>>()]));
    v.push(ty::<(D17, ())>("(D17, ())", vec![u8_::<(D17, ())>(), u16_::<(D17, ())>(), u32_::<(D17, ())>(), u64_::<(D17, ())>(), u128_::<(D17, ())>(), small_::<(D17, ())>(), p8_::<(D17, ())>(), p16_::<(D17, ())>()]));
    v.push(ty::<Option<Option<()>>>("Option<Option<()>>", vec![u8_::<Option<Option<()>>>(), u16_::<Option<Option<()>>>(), u32_::<Option<Option<()>>>(), u64_::<Option<Option<()>>>(), u128_::<Option<Option<()>>>(), small_::<Option<Option<()>>>(), p8_::<Option<Option<()>>>(), p16_::<Option<Option<()>>>()]));
    v.push(ty::<[Result<(), Tri>; 2]>("[Result<(), Tri>; 2]", vec![u8_::<[Result<(), Tri>; 2]>(), u16_::<[Result<(), Tri>; 2]>(), u32_::<[Result<(), Tri>; 2]>(), u64_::<[Result<(), Tri>; 2]>(), u128_::<[Result<(), Tri>; 2]>(), small_::<[Result<(), Tri>; 2]>(), p8_::<[Result<(), Tri>; 2]>(), p16_::<[Result<(), Tri>; 2]>()]));
    v.push(ty::<((bool, bool), (Never, bool))>("((bool, bool), (Never, bool))", vec![]));
    v.push(ty::<([Tri; 0], bool, Result<Five, bool>)>("([Tri; 0], bool, Result<Five, bool>)", vec![u8_::<([Tri; 0], bool, Result<Five, bool>)>(), u16_::<([Tri; 0], bool, Result<Five, bool>)>(), u32_::<([Tri; 0], bool, Result<Five, bool>)>(), u64_::<([Tri; 0], bool, Result<Five, bool>)>(), u128_::<([Tri; 0], bool, Result<Five, bool>)>(), small_::<([Tri; 0], bool, Result<Five, bool>)>(), p8_::<([Tri; 0], bool, Result<Five, bool>)>(), p16_::<([Tri; 0], bool, Result<Five, bool>)>()]));
    v.push(ty::<Result<Result<Tri, Five>, (Tri, Tri)>>("Result<Result<Tri, Five>, (Tri, Tri)>", vec![u8_::<Result<Result<Tri, Five>, (Tri, Tri)>>(), u16_::<Result<Result<Tri, Five>, (Tri, Tri)>>(), u32_::<Result<Result<Tri, Five>, (Tri, Tri)>>(), u64_::<Result<Result<Tri, Five>, (Tri, Tri)>>(), u128_::<Result<Result<Tri, Five>, (Tri, Tri)>>(), small_::<Result<Result<Tri, Five>, (Tri, Tri)>>(), p8_::<Result<Result<Tri, Five>, (Tri, Tri)>>(), p16_::<Result<Result<Tri, Five>, (Tri, Tri)>>()]));
    v.push(ty::<Option<(Five, Tri)>>("Option<(Five, Tri)>", vec![u8_::<Option<(Five, Tri)>>(), u16_::<Option<(Five, Tri)>>(), u32_::<Option<(Five, Tri)>>(), u64_::<Option<(Five, Tri)>>(), u128_::<Option<(Five, Tri)>>(), small_::<Option<(Five, Tri)>>(), p8_::<Option<(Five, Tri)>>(), p16_::<Option<(Five, Tri)>>()]));
    v.push(ty::<[Result<Never, ()>; 2]>("[Result<Never, ()>; 2]", vec![p8_::<[Result<Never, ()>; 2]>(), p16_::<[Result<Never, ()>; 2]>()]));
    v.push(ty::<([D17; 3], Result<D17, Five>)>("([D17; 3], Result<D17, Five>)", vec![u32_::<([D17; 3], Result<D17, Five>)>(), u64_::<([D17; 3], Result<D17, Five>)>(), u128_::<([D17; 3], Result<D17, Five>)>(), small_::<([D17; 3], Result<D17, Five>)>()]));
    v.push(ty::<((D17, Five), bool, Option<D17>)>("((D17, Five), bool, Option<D17>)", vec![u16_::<((D17, Five), bool, Option<D17>)>(), u32_::<((D17, Five), bool, Option<D17>)>(), u64_::<((D17, Five), bool, Option<D17>)>(), u128_::<((D17, Five), bool, Option<D17>)>(), small_::<((D17, Five), bool, Option<D17>)>(), p16_::<((D17, Five), bool, Option<D17>)>()]));
    v.push(ty::<[bool; 17]>("[bool; 17]", vec![u32_::<[bool; 17]>(), u64_::<[bool; 17]>(), u128_::<[bool; 17]>(), small_::<[bool; 17]>()]));
    v.push(ty::<(Byte, Byte)>("(Byte, Byte)", vec![u16_::<(Byte, Byte)>(), u32_::<(Byte, Byte)>(), u64_::<(Byte, Byte)>(), u128_::<(Byte, Byte)>(), small_::<(Byte, Byte)>(), p16_::<(Byte, Byte)>()]));
    v.push(ty::<((Byte, Two), Option<Byte>)>("((Byte, Two), Option<Byte>)", vec![u32_::<((Byte, Two), Option<Byte>)>(), u64_::<((Byte, Two), Option<Byte>)>(), u128_::<((Byte, Two), Option<Byte>)>(), small_::<((Byte, Two), Option<Byte>)>()]));
}
