// generated by tools/gen_e2e.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use e2esut::*;
use enum_like_derive::EnumLike;
#[derive(Clone, Copy, EnumLike)]
pub enum E0  {  }
impl Spec for E0 {
    fn count() -> u128 { 0u128 }
    fn make(mut i: u128) -> Self {
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E8  { V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E8 {
    fn count() -> u128 { 16u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E8::V16; } i -= 1;
        if i == 0 { return E8::V15; } i -= 1;
        if i == 0 { return E8::V14; } i -= 1;
        if i == 0 { return E8::V13; } i -= 1;
        if i == 0 { return E8::V12; } i -= 1;
        if i == 0 { return E8::V11; } i -= 1;
        if i == 0 { return E8::V10; } i -= 1;
        if i == 0 { return E8::V9; } i -= 1;
        if i == 0 { return E8::V8; } i -= 1;
        if i == 0 { return E8::V7; } i -= 1;
        if i == 0 { return E8::V6; } i -= 1;
        if i == 0 { return E8::V5; } i -= 1;
        if i == 0 { return E8::V4; } i -= 1;
        if i == 0 { return E8::V3; } i -= 1;
        if i == 0 { return E8::V2; } i -= 1;
        if i == 0 { return E8::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E8::V16 => 0u128,
            E8::V15 => 1u128,
            E8::V14 => 2u128,
            E8::V13 => 3u128,
            E8::V12 => 4u128,
            E8::V11 => 5u128,
            E8::V10 => 6u128,
            E8::V9 => 7u128,
            E8::V8 => 8u128,
            E8::V7 => 9u128,
            E8::V6 => 10u128,
            E8::V5 => 11u128,
            E8::V4 => 12u128,
            E8::V3 => 13u128,
            E8::V2 => 14u128,
            E8::V1 => 15u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E16  { Mid = 5, Zed = 4, Alpha = 3 }
impl Spec for E16 {
    fn count() -> u128 { 3u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E16::Mid; } i -= 1;
        if i == 0 { return E16::Zed; } i -= 1;
        if i == 0 { return E16::Alpha; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E16::Mid => 0u128,
            E16::Zed => 1u128,
            E16::Alpha => 2u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E24  { Mid, Zed { m: Tri, z: bool } }
impl Spec for E24 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E24::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E24::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E24::Mid => 0u128,
            E24::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E32  { Mid { m: (), z: Tri }, Zed(Tri) }
impl Spec for E32 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E32::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E32::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E32::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
            E32::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E40  { Mid(bool), Zed(Never), Alpha(bool) }
impl Spec for E40 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E40::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E40::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E40::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E40::Mid(f0) => 0u128 + f0.index(),
            E40::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E40::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E48  { Mid(Never), Zed(Tri, bool), Alpha(Option<bool>) }
impl Spec for E48 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E48::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E48::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E48::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E48::Mid(f0) => 0u128 + f0.index(),
            E48::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E48::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E56  { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha(Tri, Two, Tri) }
impl Spec for E56 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E56::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E56::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E56::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E56::Mid { m: f0 } => 0u128 + f0.index(),
            E56::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E56::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E64  { Mid { m: bool, z: Tri }, Zed, Alpha { m: bool, z: Tri } }
impl Spec for E64 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E64::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E64::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E64::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E64::Zed => 0u128,
            E64::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E64::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E72  { Mid(()), Zed { m: Tri }, Alpha { m: Tri } }
impl Spec for E72 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E72::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E72::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E72::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E72::Mid(f0) => 0u128 + f0.index(),
            E72::Zed { m: f0 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E72::Alpha { m: f0 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E80  { Mid(Tri, Two, Tri), Zed(()), Alpha(bool) }
impl Spec for E80 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E80::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E80::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E80::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E80::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E80::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E80::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E88  { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha(Option<bool>) }
impl Spec for E88 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E88::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E88::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E88::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E88::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E88::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E88::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E96  { Mid, Zed, Alpha(Never), Quux(Never) }
impl Spec for E96 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E96::Mid; } i -= 1;
        if i == 0 { return E96::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E96::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E96::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E96::Mid => 0u128,
            E96::Zed => 1u128,
            E96::Alpha(f0) => 2u128 + f0.index(),
            E96::Quux(f0) => 2u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E104  { Mid(Tri), Zed, Alpha(Two), Quux(Tri) }
impl Spec for E104 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E104::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E104::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E104::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E104::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E104::Zed => 0u128,
            E104::Mid(f0) => 1u128 + f0.index(),
            E104::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E104::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E112  { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux(Two) }
impl Spec for E112 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E112::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E112::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E112::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E112::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E112::Zed => 0u128,
            E112::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E112::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E112::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E120  { Mid(Never), Zed(Tri), Alpha, Quux { m: bool, z: Tri } }
impl Spec for E120 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E120::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E120::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E120::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E120::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E120::Alpha => 0u128,
            E120::Mid(f0) => 1u128 + f0.index(),
            E120::Zed(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E120::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E128  { Mid(Two), Zed(Tri), Alpha(Tri), Quux }
impl Spec for E128 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E128::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E128::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E128::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E128::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E128::Quux => 0u128,
            E128::Mid(f0) => 1u128 + f0.index(),
            E128::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E128::Alpha(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E136  { Mid, Zed, Alpha, Quux { m: Two }, Beta, Yard }
impl Spec for E136 {
    fn count() -> u128 { 5u128 + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E136::Mid; } i -= 1;
        if i == 0 { return E136::Zed; } i -= 1;
        if i == 0 { return E136::Alpha; } i -= 1;
        if i == 0 { return E136::Beta; } i -= 1;
        if i == 0 { return E136::Yard; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E136::Quux { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E136::Mid => 0u128,
            E136::Zed => 1u128,
            E136::Alpha => 2u128,
            E136::Beta => 3u128,
            E136::Yard => 4u128,
            E136::Quux { m: f0 } => 5u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S144   { m: Never }
impl Spec for S144 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return S144 { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S144 { m: f0 } => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S152   { m: bool, z: Never, a: bool }
impl Spec for S152 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return S152 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S152 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S160   { m: Five, z: (), a: () }
impl Spec for S160 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); return S160 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S160 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S168   { m: Tri, z: Tri, a: Tri, q: bool }
impl Spec for S168 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<bool>(&mut r); return S168 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S168 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E176<A: Clone + 'static>  { Mid(A) }
impl<A: Spec> Spec for E176<A> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); return E176::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E176::Mid(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S184<A>   { m: Option<A>, z: A }
impl<A: Spec> Spec for S184<A> {
    fn count() -> u128 { 0u128 + 1u128 * <Option<A> as Spec>::count() * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<A> as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<A>>(&mut r); let f1 = pick::<A>(&mut r); return S184 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S184 { m: f0, z: f1 } => 0u128 + f0.index() + <Option<A> as Spec>::count() * f1.index(),
        }
    }
}

#[derive(Clone, Copy, EnumLike)] pub enum Suit { Hearts, Spades, Clubs, Diamonds }
#[derive(Clone, Copy, EnumLike)] pub struct Card { pub suit: Suit, pub rank: Rank }
#[derive(Clone, Copy, EnumLike)] pub struct Rank(pub Five, pub bool);
#[derive(Clone, Copy, EnumLike)] pub enum Play { Pass, Lead(Card), Follow { first: Card, second: Option<Suit> }, Fold }
#[derive(Clone, Copy, EnumLike)] pub enum Wrap<T> { None, Just(T), Both(T, Suit) }
impl Spec for Suit { fn count() -> u128 { 4 } fn make(i: u128) -> Self { [Suit::Hearts, Suit::Spades, Suit::Clubs, Suit::Diamonds][i as usize] } fn index(self) -> u128 { match self { Suit::Hearts => 0, Suit::Spades => 1, Suit::Clubs => 2, Suit::Diamonds => 3 } } }
impl Spec for Rank { fn count() -> u128 { 10 } fn make(i: u128) -> Self { Rank(Five::make(i % 5), bool::make(i / 5)) } fn index(self) -> u128 { Spec::index(self.0) + 5 * Spec::index(self.1) } }
impl Spec for Card { fn count() -> u128 { 40 } fn make(i: u128) -> Self { Card { suit: Suit::make(i % 4), rank: Rank::make(i / 4) } } fn index(self) -> u128 { Spec::index(self.suit) + 4 * Spec::index(self.rank) } }
impl Spec for Play {
    fn count() -> u128 { 2 + 40 + 200 }
    fn make(i: u128) -> Self { match i { 0 => Play::Pass, 1 => Play::Fold, 2..=41 => Play::Lead(Card::make(i - 2)), _ => Play::Follow { first: Card::make((i - 42) % 40), second: Option::<Suit>::make((i - 42) / 40) } } }
    fn index(self) -> u128 { match self { Play::Pass => 0, Play::Fold => 1, Play::Lead(c) => 2 + Spec::index(c), Play::Follow { first, second } => 42 + Spec::index(first) + 40 * Spec::index(second) } }
}
impl<T: Spec> Spec for Wrap<T> {
    fn count() -> u128 { 1 + T::count() * 5 }
    fn make(i: u128) -> Self { if i == 0 { return Wrap::None } let i = i - 1; if i < T::count() { return Wrap::Just(T::make(i)) } let i = i - T::count(); Wrap::Both(T::make(i % T::count()), Suit::make(i / T::count())) }
    fn index(self) -> u128 { match self { Wrap::None => 0, Wrap::Just(t) => 1 + t.index(), Wrap::Both(t, s) => 1 + T::count() + t.index() + T::count() * Spec::index(s) } }
}

pub fn all(v: &mut Vec<Ty>) {
    v.push(ty::<E0>("E0: enum E0 { }", vec![]));
    v.push(ty::<Option<E0>>("Option<E0>: enum E0 { }", vec![p8_::<Option<E0>>(), p16_::<Option<E0>>()]));
    v.push(ty::<E8>("E8: enum E8 { V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }", vec![u8_::<E8>(), u16_::<E8>(), u32_::<E8>(), u64_::<E8>(), u128_::<E8>(), small_::<E8>(), p8_::<E8>(), p16_::<E8>()]));
    v.push(ty::<(E8, bool)>("(E8, bool): enum E8 { V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }", vec![u8_::<(E8, bool)>(), u16_::<(E8, bool)>(), u32_::<(E8, bool)>(), u64_::<(E8, bool)>(), u128_::<(E8, bool)>(), small_::<(E8, bool)>(), p8_::<(E8, bool)>(), p16_::<(E8, bool)>()]));
    v.push(ty::<E16>("E16: enum E16 { Mid = 5, Zed = 4, Alpha = 3 }", vec![u8_::<E16>(), u16_::<E16>(), u32_::<E16>(), u64_::<E16>(), u128_::<E16>(), small_::<E16>(), p8_::<E16>(), p16_::<E16>()]));
    v.push(ty::<Result<E16, Tri>>("Result<E16, Tri>: enum E16 { Mid = 5, Zed = 4, Alpha = 3 }", vec![u8_::<Result<E16, Tri>>(), u16_::<Result<E16, Tri>>(), u32_::<Result<E16, Tri>>(), u64_::<Result<E16, Tri>>(), u128_::<Result<E16, Tri>>(), small_::<Result<E16, Tri>>(), p8_::<Result<E16, Tri>>(), p16_::<Result<E16, Tri>>()]));
    v.push(ty::<E24>("E24: enum E24 { Mid, Zed { m: Tri, z: bool } }", vec![u8_::<E24>(), u16_::<E24>(), u32_::<E24>(), u64_::<E24>(), u128_::<E24>(), small_::<E24>(), p8_::<E24>(), p16_::<E24>()]));
    v.push(ty::<[E24; 2]>("[E24; 2]: enum E24 { Mid, Zed { m: Tri, z: bool } }", vec![u8_::<[E24; 2]>(), u16_::<[E24; 2]>(), u32_::<[E24; 2]>(), u64_::<[E24; 2]>(), u128_::<[E24; 2]>(), small_::<[E24; 2]>(), p8_::<[E24; 2]>(), p16_::<[E24; 2]>()]));
    v.push(ty::<E32>("E32: enum E32 { Mid { m: (), z: Tri }, Zed(Tri) }", vec![u8_::<E32>(), u16_::<E32>(), u32_::<E32>(), u64_::<E32>(), u128_::<E32>(), small_::<E32>(), p8_::<E32>(), p16_::<E32>()]));
    v.push(ty::<Option<(Tri, E32)>>("Option<(Tri, E32)>: enum E32 { Mid { m: (), z: Tri }, Zed(Tri) }", vec![u8_::<Option<(Tri, E32)>>(), u16_::<Option<(Tri, E32)>>(), u32_::<Option<(Tri, E32)>>(), u64_::<Option<(Tri, E32)>>(), u128_::<Option<(Tri, E32)>>(), small_::<Option<(Tri, E32)>>(), p8_::<Option<(Tri, E32)>>(), p16_::<Option<(Tri, E32)>>()]));
    v.push(ty::<E40>("E40: enum E40 { Mid(bool), Zed(Never), Alpha(bool) }", vec![u8_::<E40>(), u16_::<E40>(), u32_::<E40>(), u64_::<E40>(), u128_::<E40>(), small_::<E40>(), p8_::<E40>(), p16_::<E40>()]));
    v.push(ty::<(E40,)>("(E40,): enum E40 { Mid(bool), Zed(Never), Alpha(bool) }", vec![u8_::<(E40,)>(), u16_::<(E40,)>(), u32_::<(E40,)>(), u64_::<(E40,)>(), u128_::<(E40,)>(), small_::<(E40,)>(), p8_::<(E40,)>(), p16_::<(E40,)>()]));
    v.push(ty::<E48>("E48: enum E48 { Mid(Never), Zed(Tri, bool), Alpha(Option<bool>) }", vec![u8_::<E48>(), u16_::<E48>(), u32_::<E48>(), u64_::<E48>(), u128_::<E48>(), small_::<E48>(), p8_::<E48>(), p16_::<E48>()]));
    v.push(ty::<Result<bool, [E48; 1]>>("Result<bool, [E48; 1]>: enum E48 { Mid(Never), Zed(Tri, bool), Alpha(Option<bool>) }", vec![u8_::<Result<bool, [E48; 1]>>(), u16_::<Result<bool, [E48; 1]>>(), u32_::<Result<bool, [E48; 1]>>(), u64_::<Result<bool, [E48; 1]>>(), u128_::<Result<bool, [E48; 1]>>(), small_::<Result<bool, [E48; 1]>>(), p8_::<Result<bool, [E48; 1]>>(), p16_::<Result<bool, [E48; 1]>>()]));
    v.push(ty::<E56>("E56: enum E56 { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha(Tri, Two, Tri) }", vec![u8_::<E56>(), u16_::<E56>(), u32_::<E56>(), u64_::<E56>(), u128_::<E56>(), small_::<E56>(), p8_::<E56>(), p16_::<E56>()]));
    v.push(ty::<Option<E56>>("Option<E56>: enum E56 { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha(Tri, Two, Tri) }", vec![u8_::<Option<E56>>(), u16_::<Option<E56>>(), u32_::<Option<E56>>(), u64_::<Option<E56>>(), u128_::<Option<E56>>(), small_::<Option<E56>>(), p8_::<Option<E56>>(), p16_::<Option<E56>>()]));
    v.push(ty::<E64>("E64: enum E64 { Mid { m: bool, z: Tri }, Zed, Alpha { m: bool, z: Tri } }", vec![u8_::<E64>(), u16_::<E64>(), u32_::<E64>(), u64_::<E64>(), u128_::<E64>(), small_::<E64>(), p8_::<E64>(), p16_::<E64>()]));
    v.push(ty::<(E64, bool)>("(E64, bool): enum E64 { Mid { m: bool, z: Tri }, Zed, Alpha { m: bool, z: Tri } }", vec![u8_::<(E64, bool)>(), u16_::<(E64, bool)>(), u32_::<(E64, bool)>(), u64_::<(E64, bool)>(), u128_::<(E64, bool)>(), small_::<(E64, bool)>(), p8_::<(E64, bool)>(), p16_::<(E64, bool)>()]));
    v.push(ty::<E72>("E72: enum E72 { Mid(()), Zed { m: Tri }, Alpha { m: Tri } }", vec![u8_::<E72>(), u16_::<E72>(), u32_::<E72>(), u64_::<E72>(), u128_::<E72>(), small_::<E72>(), p8_::<E72>(), p16_::<E72>()]));
    v.push(ty::<Result<E72, Tri>>("Result<E72, Tri>: enum E72 { Mid(()), Zed { m: Tri }, Alpha { m: Tri } }", vec![u8_::<Result<E72, Tri>>(), u16_::<Result<E72, Tri>>(), u32_::<Result<E72, Tri>>(), u64_::<Result<E72, Tri>>(), u128_::<Result<E72, Tri>>(), small_::<Result<E72, Tri>>(), p8_::<Result<E72, Tri>>(), p16_::<Result<E72, Tri>>()]));
    v.push(ty::<E80>("E80: enum E80 { Mid(Tri, Two, Tri), Zed(()), Alpha(bool) }", vec![u8_::<E80>(), u16_::<E80>(), u32_::<E80>(), u64_::<E80>(), u128_::<E80>(), small_::<E80>(), p8_::<E80>(), p16_::<E80>()]));
    v.push(ty::<[E80; 2]>("[E80; 2]: enum E80 { Mid(Tri, Two, Tri), Zed(()), Alpha(bool) }", vec![u16_::<[E80; 2]>(), u32_::<[E80; 2]>(), u64_::<[E80; 2]>(), u128_::<[E80; 2]>(), small_::<[E80; 2]>(), p16_::<[E80; 2]>()]));
    v.push(ty::<E88>("E88: enum E88 { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha(Option<bool>) }", vec![u8_::<E88>(), u16_::<E88>(), u32_::<E88>(), u64_::<E88>(), u128_::<E88>(), small_::<E88>(), p8_::<E88>(), p16_::<E88>()]));
    v.push(ty::<Option<(Tri, E88)>>("Option<(Tri, E88)>: enum E88 { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha(Option<bool>) }", vec![u8_::<Option<(Tri, E88)>>(), u16_::<Option<(Tri, E88)>>(), u32_::<Option<(Tri, E88)>>(), u64_::<Option<(Tri, E88)>>(), u128_::<Option<(Tri, E88)>>(), small_::<Option<(Tri, E88)>>(), p8_::<Option<(Tri, E88)>>(), p16_::<Option<(Tri, E88)>>()]));
    v.push(ty::<E96>("E96: enum E96 { Mid, Zed, Alpha(Never), Quux(Never) }", vec![u8_::<E96>(), u16_::<E96>(), u32_::<E96>(), u64_::<E96>(), u128_::<E96>(), small_::<E96>(), p8_::<E96>(), p16_::<E96>()]));
    v.push(ty::<(E96,)>("(E96,): enum E96 { Mid, Zed, Alpha(Never), Quux(Never) }", vec![u8_::<(E96,)>(), u16_::<(E96,)>(), u32_::<(E96,)>(), u64_::<(E96,)>(), u128_::<(E96,)>(), small_::<(E96,)>(), p8_::<(E96,)>(), p16_::<(E96,)>()]));
    v.push(ty::<E104>("E104: enum E104 { Mid(Tri), Zed, Alpha(Two), Quux(Tri) }", vec![u8_::<E104>(), u16_::<E104>(), u32_::<E104>(), u64_::<E104>(), u128_::<E104>(), small_::<E104>(), p8_::<E104>(), p16_::<E104>()]));
    v.push(ty::<Result<bool, [E104; 1]>>("Result<bool, [E104; 1]>: enum E104 { Mid(Tri), Zed, Alpha(Two), Quux(Tri) }", vec![u8_::<Result<bool, [E104; 1]>>(), u16_::<Result<bool, [E104; 1]>>(), u32_::<Result<bool, [E104; 1]>>(), u64_::<Result<bool, [E104; 1]>>(), u128_::<Result<bool, [E104; 1]>>(), small_::<Result<bool, [E104; 1]>>(), p8_::<Result<bool, [E104; 1]>>(), p16_::<Result<bool, [E104; 1]>>()]));
    v.push(ty::<E112>("E112: enum E112 { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux(Two) }", vec![u8_::<E112>(), u16_::<E112>(), u32_::<E112>(), u64_::<E112>(), u128_::<E112>(), small_::<E112>(), p8_::<E112>(), p16_::<E112>()]));
    v.push(ty::<Option<E112>>("Option<E112>: enum E112 { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux(Two) }", vec![u8_::<Option<E112>>(), u16_::<Option<E112>>(), u32_::<Option<E112>>(), u64_::<Option<E112>>(), u128_::<Option<E112>>(), small_::<Option<E112>>(), p8_::<Option<E112>>(), p16_::<Option<E112>>()]));
    v.push(ty::<E120>("E120: enum E120 { Mid(Never), Zed(Tri), Alpha, Quux { m: bool, z: Tri } }", vec![u8_::<E120>(), u16_::<E120>(), u32_::<E120>(), u64_::<E120>(), u128_::<E120>(), small_::<E120>(), p8_::<E120>(), p16_::<E120>()]));
    v.push(ty::<(E120, bool)>("(E120, bool): enum E120 { Mid(Never), Zed(Tri), Alpha, Quux { m: bool, z: Tri } }", vec![u8_::<(E120, bool)>(), u16_::<(E120, bool)>(), u32_::<(E120, bool)>(), u64_::<(E120, bool)>(), u128_::<(E120, bool)>(), small_::<(E120, bool)>(), p8_::<(E120, bool)>(), p16_::<(E120, bool)>()]));
    v.push(ty::<E128>("E128: enum E128 { Mid(Two), Zed(Tri), Alpha(Tri), Quux }", vec![u8_::<E128>(), u16_::<E128>(), u32_::<E128>(), u64_::<E128>(), u128_::<E128>(), small_::<E128>(), p8_::<E128>(), p16_::<E128>()]));
    v.push(ty::<Result<E128, Tri>>("Result<E128, Tri>: enum E128 { Mid(Two), Zed(Tri), Alpha(Tri), Quux }", vec![u8_::<Result<E128, Tri>>(), u16_::<Result<E128, Tri>>(), u32_::<Result<E128, Tri>>(), u64_::<Result<E128, Tri>>(), u128_::<Result<E128, Tri>>(), small_::<Result<E128, Tri>>(), p8_::<Result<E128, Tri>>(), p16_::<Result<E128, Tri>>()]));
    v.push(ty::<E136>("E136: enum E136 { Mid, Zed, Alpha, Quux { m: Two }, Beta, Yard }", vec![u8_::<E136>(), u16_::<E136>(), u32_::<E136>(), u64_::<E136>(), u128_::<E136>(), small_::<E136>(), p8_::<E136>(), p16_::<E136>()]));
    v.push(ty::<[E136; 2]>("[E136; 2]: enum E136 { Mid, Zed, Alpha, Quux { m: Two }, Beta, Yard }", vec![u8_::<[E136; 2]>(), u16_::<[E136; 2]>(), u32_::<[E136; 2]>(), u64_::<[E136; 2]>(), u128_::<[E136; 2]>(), small_::<[E136; 2]>(), p8_::<[E136; 2]>(), p16_::<[E136; 2]>()]));
    v.push(ty::<S144>("S144: struct S144 { m: Never }", vec![]));
    v.push(ty::<Option<(Tri, S144)>>("Option<(Tri, S144)>: struct S144 { m: Never }", vec![p8_::<Option<(Tri, S144)>>(), p16_::<Option<(Tri, S144)>>()]));
    v.push(ty::<S152>("S152: struct S152 { m: bool, z: Never, a: bool }", vec![]));
    v.push(ty::<(S152,)>("(S152,): struct S152 { m: bool, z: Never, a: bool }", vec![]));
    v.push(ty::<S160>("S160: struct S160 { m: Five, z: (), a: () }", vec![u8_::<S160>(), u16_::<S160>(), u32_::<S160>(), u64_::<S160>(), u128_::<S160>(), small_::<S160>(), p8_::<S160>(), p16_::<S160>()]));
    v.push(ty::<Result<bool, [S160; 1]>>("Result<bool, [S160; 1]>: struct S160 { m: Five, z: (), a: () }", vec![u8_::<Result<bool, [S160; 1]>>(), u16_::<Result<bool, [S160; 1]>>(), u32_::<Result<bool, [S160; 1]>>(), u64_::<Result<bool, [S160; 1]>>(), u128_::<Result<bool, [S160; 1]>>(), small_::<Result<bool, [S160; 1]>>(), p8_::<Result<bool, [S160; 1]>>(), p16_::<Result<bool, [S160; 1]>>()]));
    v.push(ty::<S168>("S168: struct S168 { m: Tri, z: Tri, a: Tri, q: bool }", vec![u8_::<S168>(), u16_::<S168>(), u32_::<S168>(), u64_::<S168>(), u128_::<S168>(), small_::<S168>(), p8_::<S168>(), p16_::<S168>()]));
    v.push(ty::<Option<S168>>("Option<S168>: struct S168 { m: Tri, z: Tri, a: Tri, q: bool }", vec![u8_::<Option<S168>>(), u16_::<Option<S168>>(), u32_::<Option<S168>>(), u64_::<Option<S168>>(), u128_::<Option<S168>>(), small_::<Option<S168>>(), p8_::<Option<S168>>(), p16_::<Option<S168>>()]));
    v.push(ty::<E176<()>>("E176<()>: enum E176<A: Clone + 'static> { Mid(A) }", vec![p8_::<E176<()>>(), p16_::<E176<()>>()]));
    v.push(ty::<E176<Never>>("E176<Never>: enum E176<A: Clone + 'static> { Mid(A) }", vec![]));
    v.push(ty::<(E176<Never>, bool)>("(E176<Never>, bool): enum E176<A: Clone + 'static> { Mid(A) }", vec![]));
    v.push(ty::<S184<()>>("S184<()>: struct S184<A> { m: Option<A>, z: A }", vec![u8_::<S184<()>>(), u16_::<S184<()>>(), u32_::<S184<()>>(), u64_::<S184<()>>(), u128_::<S184<()>>(), small_::<S184<()>>(), p8_::<S184<()>>(), p16_::<S184<()>>()]));
    v.push(ty::<S184<Never>>("S184<Never>: struct S184<A> { m: Option<A>, z: A }", vec![]));
    v.push(ty::<Result<S184<Never>, Tri>>("Result<S184<Never>, Tri>: struct S184<A> { m: Option<A>, z: A }", vec![u8_::<Result<S184<Never>, Tri>>(), u16_::<Result<S184<Never>, Tri>>(), u32_::<Result<S184<Never>, Tri>>(), u64_::<Result<S184<Never>, Tri>>(), u128_::<Result<S184<Never>, Tri>>(), small_::<Result<S184<Never>, Tri>>(), p8_::<Result<S184<Never>, Tri>>(), p16_::<Result<S184<Never>, Tri>>()]));
    v.push(ty::<D17>("D17", vec![u8_::<D17>(), u16_::<D17>(), u32_::<D17>(), u64_::<D17>(), u128_::<D17>(), small_::<D17>(), p8_::<D17>(), p16_::<D17>()]));
    v.push(ty::<((), Tri)>("((), Tri)", vec![u8_::<((), Tri)>(), u16_::<((), Tri)>(), u32_::<((), Tri)>(), u64_::<((), Tri)>(), u128_::<((), Tri)>(), small_::<((), Tri)>(), p8_::<((), Tri)>(), p16_::<((), Tri)>()]));
    v.push(ty::<Result<bool, ()>>("Result<bool, ()>", vec![u8_::<Result<bool, ()>>(), u16_::<Result<bool, ()>>(), u32_::<Result<bool, ()>>(), u64_::<Result<bool, ()>>(), u128_::<Result<bool, ()>>(), small_::<Result<bool, ()>>(), p8_::<Result<bool, ()>>(), p16_::<Result<bool, ()>>()]));
    v.push(ty::<[Tri; 3]>("[Tri; 3]", vec![u8_::<[Tri; 3]>(), u16_::<[Tri; 3]>(), u32_::<[Tri; 3]>(), u64_::<[Tri; 3]>(), u128_::<[Tri; 3]>(), small_::<[Tri; 3]>(), p8_::<[Tri; 3]>(), p16_::<[Tri; 3]>()]));
    v.push(ty::<(Tri, Five)>("(Tri, Five)", vec![u8_::<(Tri, Five)>(), u16_::<(Tri, Five)>(), u32_::<(Tri, Five)>(), u64_::<(Tri, Five)>(), u128_::<(Tri, Five)>(), small_::<(Tri, Five)>(), p8_::<(Tri, Five)>(), p16_::<(Tri, Five)>()]));
    v.push(ty::<Result<Five, bool>>("Result<Five, bool>", vec![u8_::<Result<Five, bool>>(), u16_::<Result<Five, bool>>(), u32_::<Result<Five, bool>>(), u64_::<Result<Five, bool>>(), u128_::<Result<Five, bool>>(), small_::<Result<Five, bool>>(), p8_::<Result<Five, bool>>(), p16_::<Result<Five, bool>>()]));
    v.push(ty::<(Never, ())>("(Never, ())", vec![]));
    v.push(ty::<Option<D17>>("Option<D17>", vec![u8_::<Option<D17>>(), u16_::<Option<D17>>(), u32_::<Option<D17>>(), u64_::<Option<D17>>(), u128_::<Option<D17>>(), small_::<Option<D17>>(), p8_::<Option<D17>>(), p16_::<Option<D17>>()]));
    v.push(ty::<Result<D17, Tri>>("Result<D17, Tri>", vec![u8_::<Result<D17, Tri>>(), u16_::<Result<D17, Tri>>(), u32_::<Result<D17, Tri>>(), u64_::<Result<D17, Tri>>(), u128_::<Result<D17, Tri>>(), small_::<Result<D17, Tri>>(), p8_::<Result<D17, Tri>>(), p16_::<Result<D17, Tri>>()]));
    v.push(ty::<Option<((), bool)>>("Option<((), bool)>", vec![u8_::<Option<((), bool)>>(), u16_::<Option<((), bool)>>(), u32_::<Option<((), bool)>>(), u64_::<Option<((), bool)>>(), u128_::<Option<((), bool)>>(), small_::<Option<((), bool)>>(), p8_::<Option<((), bool)>>(), p16_::<Option<((), bool)>>()]));
    v.push(ty::<[[bool; 0]; 2]>("[[bool; 0]; 2]", vec![p8_::<[[bool; 0]; 2]>(), p16_::<[[bool; 0]; 2]>()]));
    v.push(ty::<(Result<bool, Five>, (bool, Tri))>("(Result<bool, Five>, (bool, Tri))", vec![u8_::<(Result<bool, Five>, (bool, Tri))>(), u16_::<(Result<bool, Five>, (bool, Tri))>(), u32_::<(Result<bool, Five>, (bool, Tri))>(), u64_::<(Result<bool, Five>, (bool, Tri))>(), u128_::<(Result<bool, Five>, (bool, Tri))>(), small_::<(Result<bool, Five>, (bool, Tri))>(), p8_::<(Result<bool, Five>, (bool, Tri))>(), p16_::<(Result<bool, Five>, (bool, Tri))>()]));
    v.push(ty::<((Tri, Tri), bool, Result<(), Tri>)>("((Tri, Tri), bool, Result<(), Tri>)", vec![u8_::<((Tri, Tri), bool, Result<(), Tri>)>(), u16_::<((Tri, Tri), bool, Result<(), Tri>)>(), u32_::<((Tri, Tri), bool, Result<(), Tri>)>(), u64_::<((Tri, Tri), bool, Result<(), Tri>)>(), u128_::<((Tri, Tri), bool, Result<(), Tri>)>(), small_::<((Tri, Tri), bool, Result<(), Tri>)>(), p8_::<((Tri, Tri), bool, Result<(), Tri>)>(), p16_::<((Tri, Tri), bool, Result<(), Tri>)>()]));
    v.push(ty::<Result<Result<Five, ()>, (D17, Five)>>("Result<Result<Five, ()>, (D17, Five)>", vec![u8_::<Result<Result<Five, ()>, (D17, Five)>>(), u16_::<Result<Result<Five, ()>, (D17, Five)>>(), u32_::<Result<Result<Five, ()>, (D17, Five)>>(), u64_::<Result<Result<Five, ()>, (D17, Five)>>(), u128_::<Result<Result<Five, ()>, (D17, Five)>>(), small_::<Result<Result<Five, ()>, (D17, Five)>>(), p8_::<Result<Result<Five, ()>, (D17, Five)>>(), p16_::<Result<Result<Five, ()>, (D17, Five)>>()]));
    v.push(ty::<Option<[Never; 3]>>("Option<[Never; 3]>", vec![p8_::<Option<[Never; 3]>>(), p16_::<Option<[Never; 3]>>()]));
    v.push(ty::<[(Never, Five); 2]>("[(Never, Five); 2]", vec![]));
    v.push(ty::<(Result<D17, bool>, [Five; 3])>("(Result<D17, bool>, [Five; 3])", vec![u16_::<(Result<D17, bool>, [Five; 3])>(), u32_::<(Result<D17, bool>, [Five; 3])>(), u64_::<(Result<D17, bool>, [Five; 3])>(), u128_::<(Result<D17, bool>, [Five; 3])>(), small_::<(Result<D17, bool>, [Five; 3])>(), p16_::<(Result<D17, bool>, [Five; 3])>()]));
    v.push(ty::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>("(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)", vec![u32_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>(), u64_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>(), u128_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>(), small_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>()]));
    v.push(ty::<[Tri; 32]>("[Tri; 32]", vec![u64_::<[Tri; 32]>(), u128_::<[Tri; 32]>()]));
    v.push(ty::<[Byte; 7]>("[Byte; 7]", vec![u64_::<[Byte; 7]>(), u128_::<[Byte; 7]>()]));
    v.push(ty::<Suit>("Suit", vec![u8_::<Suit>(), u16_::<Suit>(), u32_::<Suit>(), u64_::<Suit>(), u128_::<Suit>(), small_::<Suit>(), p8_::<Suit>(), p16_::<Suit>()]));
    v.push(ty::<Card>("Card", vec![u8_::<Card>(), u16_::<Card>(), u32_::<Card>(), u64_::<Card>(), u128_::<Card>(), small_::<Card>(), p8_::<Card>(), p16_::<Card>()]));
    v.push(ty::<Rank>("Rank", vec![u8_::<Rank>(), u16_::<Rank>(), u32_::<Rank>(), u64_::<Rank>(), u128_::<Rank>(), small_::<Rank>(), p8_::<Rank>(), p16_::<Rank>()]));
    v.push(ty::<Play>("Play", vec![u8_::<Play>(), u16_::<Play>(), u32_::<Play>(), u64_::<Play>(), u128_::<Play>(), small_::<Play>(), p8_::<Play>(), p16_::<Play>()]));
    v.push(ty::<Wrap<Suit>>("Wrap<Suit>", vec![u8_::<Wrap<Suit>>(), u16_::<Wrap<Suit>>(), u32_::<Wrap<Suit>>(), u64_::<Wrap<Suit>>(), u128_::<Wrap<Suit>>(), small_::<Wrap<Suit>>(), p8_::<Wrap<Suit>>(), p16_::<Wrap<Suit>>()]));
    v.push(ty::<Wrap<Play>>("Wrap<Play>", vec![u16_::<Wrap<Play>>(), u32_::<Wrap<Play>>(), u64_::<Wrap<Play>>(), u128_::<Wrap<Play>>(), small_::<Wrap<Play>>(), p16_::<Wrap<Play>>()]));
    v.push(ty::<Wrap<Wrap<Card>>>("Wrap<Wrap<Card>>", vec![u16_::<Wrap<Wrap<Card>>>(), u32_::<Wrap<Wrap<Card>>>(), u64_::<Wrap<Wrap<Card>>>(), u128_::<Wrap<Wrap<Card>>>(), small_::<Wrap<Wrap<Card>>>(), p16_::<Wrap<Wrap<Card>>>()]));
    v.push(ty::<Wrap<Wrap<Wrap<Never>>>>("Wrap<Wrap<Wrap<Never>>>", vec![u8_::<Wrap<Wrap<Wrap<Never>>>>(), u16_::<Wrap<Wrap<Wrap<Never>>>>(), u32_::<Wrap<Wrap<Wrap<Never>>>>(), u64_::<Wrap<Wrap<Wrap<Never>>>>(), u128_::<Wrap<Wrap<Wrap<Never>>>>(), small_::<Wrap<Wrap<Wrap<Never>>>>(), p8_::<Wrap<Wrap<Wrap<Never>>>>(), p16_::<Wrap<Wrap<Wrap<Never>>>>()]));
    v.push(ty::<Wrap<Option<Wrap<Rank>>>>("Wrap<Option<Wrap<Rank>>>", vec![u16_::<Wrap<Option<Wrap<Rank>>>>(), u32_::<Wrap<Option<Wrap<Rank>>>>(), u64_::<Wrap<Option<Wrap<Rank>>>>(), u128_::<Wrap<Option<Wrap<Rank>>>>(), small_::<Wrap<Option<Wrap<Rank>>>>(), p16_::<Wrap<Option<Wrap<Rank>>>>()]));
    v.push(ty::<Option<Play>>("Option<Play>", vec![u8_::<Option<Play>>(), u16_::<Option<Play>>(), u32_::<Option<Play>>(), u64_::<Option<Play>>(), u128_::<Option<Play>>(), small_::<Option<Play>>(), p8_::<Option<Play>>(), p16_::<Option<Play>>()]));
    v.push(ty::<(Card, Card)>("(Card, Card)", vec![u16_::<(Card, Card)>(), u32_::<(Card, Card)>(), u64_::<(Card, Card)>(), u128_::<(Card, Card)>(), small_::<(Card, Card)>(), p16_::<(Card, Card)>()]));
    v.push(ty::<[Wrap<bool>; 3]>("[Wrap<bool>; 3]", vec![u16_::<[Wrap<bool>; 3]>(), u32_::<[Wrap<bool>; 3]>(), u64_::<[Wrap<bool>; 3]>(), u128_::<[Wrap<bool>; 3]>(), small_::<[Wrap<bool>; 3]>(), p16_::<[Wrap<bool>; 3]>()]));
    v.push(ty::<Result<Card, Wrap<Suit>>>("Result<Card, Wrap<Suit>>", vec![u8_::<Result<Card, Wrap<Suit>>>(), u16_::<Result<Card, Wrap<Suit>>>(), u32_::<Result<Card, Wrap<Suit>>>(), u64_::<Result<Card, Wrap<Suit>>>(), u128_::<Result<Card, Wrap<Suit>>>(), small_::<Result<Card, Wrap<Suit>>>(), p8_::<Result<Card, Wrap<Suit>>>(), p16_::<Result<Card, Wrap<Suit>>>()]));
}
