// generated by tools/gen_e2e.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use e2esut::*;
use enum_like_derive::EnumLike;
#[derive(Clone, Copy, EnumLike)]
pub enum E1  { Mid }
impl Spec for E1 {
    fn count() -> u128 { 1u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1::Mid; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1::Mid => 0u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E9  { V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E9 {
    fn count() -> u128 { 17u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E9::V17; } i -= 1;
        if i == 0 { return E9::V16; } i -= 1;
        if i == 0 { return E9::V15; } i -= 1;
        if i == 0 { return E9::V14; } i -= 1;
        if i == 0 { return E9::V13; } i -= 1;
        if i == 0 { return E9::V12; } i -= 1;
        if i == 0 { return E9::V11; } i -= 1;
        if i == 0 { return E9::V10; } i -= 1;
        if i == 0 { return E9::V9; } i -= 1;
        if i == 0 { return E9::V8; } i -= 1;
        if i == 0 { return E9::V7; } i -= 1;
        if i == 0 { return E9::V6; } i -= 1;
        if i == 0 { return E9::V5; } i -= 1;
        if i == 0 { return E9::V4; } i -= 1;
        if i == 0 { return E9::V3; } i -= 1;
        if i == 0 { return E9::V2; } i -= 1;
        if i == 0 { return E9::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E9::V17 => 0u128,
            E9::V16 => 1u128,
            E9::V15 => 2u128,
            E9::V14 => 3u128,
            E9::V13 => 4u128,
            E9::V12 => 5u128,
            E9::V11 => 6u128,
            E9::V10 => 7u128,
            E9::V9 => 8u128,
            E9::V8 => 9u128,
            E9::V7 => 10u128,
            E9::V6 => 11u128,
            E9::V5 => 12u128,
            E9::V4 => 13u128,
            E9::V3 => 14u128,
            E9::V2 => 15u128,
            E9::V1 => 16u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E17  { Mid { m: () } }
impl Spec for E17 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E17::Mid { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E17::Mid { m: f0 } => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E25  { Mid(bool), Zed }
impl Spec for E25 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E25::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E25::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E25::Zed => 0u128,
            E25::Mid(f0) => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E33  { Mid, Zed, Alpha(Option<bool>) }
impl Spec for E33 {
    fn count() -> u128 { 2u128 + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E33::Mid; } i -= 1;
        if i == 0 { return E33::Zed; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E33::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E33::Mid => 0u128,
            E33::Zed => 1u128,
            E33::Alpha(f0) => 2u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E41  { Mid(bool), Zed { m: Tri }, Alpha(Tri, Two, Tri) }
impl Spec for E41 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E41::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E41::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E41::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E41::Mid(f0) => 0u128 + f0.index(),
            E41::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E41::Alpha(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E49  { Mid(Never), Zed(()), Alpha { m: bool, z: Tri } }
impl Spec for E49 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E49::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E49::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E49::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E49::Mid(f0) => 0u128 + f0.index(),
            E49::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E49::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E57  { Mid { m: Tri }, Zed(Option<bool>), Alpha { m: Tri } }
impl Spec for E57 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E57::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E57::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E57::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E57::Mid { m: f0 } => 0u128 + f0.index(),
            E57::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E57::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E65  { Mid { m: bool, z: Tri }, Zed(Never), Alpha(bool) }
impl Spec for E65 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E65::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E65::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E65::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E65::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E65::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E65::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E73  { Mid(()), Zed(Tri, bool), Alpha(Option<bool>) }
impl Spec for E73 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E73::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E73::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E73::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E73::Mid(f0) => 0u128 + f0.index(),
            E73::Zed(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E73::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E81  { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha(Tri, Two, Tri) }
impl Spec for E81 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E81::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E81::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E81::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E81::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E81::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E81::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E89  { Mid(Option<bool>), Zed, Alpha { m: bool, z: Tri } }
impl Spec for E89 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E89::Zed; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E89::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E89::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E89::Zed => 0u128,
            E89::Mid(f0) => 1u128 + f0.index(),
            E89::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E97  { Mid, Zed(Tri), Alpha(Tri), Quux(Two) }
impl Spec for E97 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E97::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E97::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E97::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E97::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E97::Mid => 0u128,
            E97::Zed(f0) => 1u128 + f0.index(),
            E97::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E97::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E105  { Mid(Tri), Zed(Tri), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E105 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E105::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E105::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E105::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E105::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E105::Mid(f0) => 0u128 + f0.index(),
            E105::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E105::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E105::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E113  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Never), Quux }
impl Spec for E113 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E113::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E113::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E113::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E113::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E113::Quux => 0u128,
            E113::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E113::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E113::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E121  { Mid(Never), Zed(Tri), Alpha(Never), Quux(Never) }
impl Spec for E121 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E121::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E121::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E121::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E121::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E121::Mid(f0) => 0u128 + f0.index(),
            E121::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E121::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E121::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E129  { Mid(Two), Zed(Tri), Alpha(Two), Quux(Tri) }
impl Spec for E129 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E129::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E129::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E129::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E129::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E129::Mid(f0) => 0u128 + f0.index(),
            E129::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E129::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E129::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E137  { Mid { m: Two }, Zed, Alpha, Quux { m: Two }, Beta, Yard { m: Two } }
impl Spec for E137 {
    fn count() -> u128 { 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E137::Zed; } i -= 1;
        if i == 0 { return E137::Alpha; } i -= 1;
        if i == 0 { return E137::Beta; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E137::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E137::Quux { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E137::Yard { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E137::Zed => 0u128,
            E137::Alpha => 1u128,
            E137::Beta => 2u128,
            E137::Mid { m: f0 } => 3u128 + f0.index(),
            E137::Quux { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E137::Yard { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S145   { m: bool, z: () }
impl Spec for S145 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); return S145 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S145 { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S153   { m: bool, z: Tri, a: Five }
impl Spec for S153 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return S153 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S153 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S161   { m: Five, z: bool, a: Tri }
impl Spec for S161 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); return S161 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S161 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S169   { m: Tri, z: (), a: bool, q: () }
impl Spec for S169 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<()>(&mut r); return S169 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S169 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E177<A>  { Mid(A), Zed }
impl<A: Spec> Spec for E177<A> {
    fn count() -> u128 { 1u128 + 1u128 * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E177::Zed; } i -= 1;
        let c = 1u128 * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); return E177::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E177::Zed => 0u128,
            E177::Mid(f0) => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E185<A, B>  { Mid { m: A, z: B }, Zed, Alpha(B, A) }
impl<A: Spec, B: Spec> Spec for E185<A, B> {
    fn count() -> u128 { 1u128 + 1u128 * <A as Spec>::count() * <B as Spec>::count() + 1u128 * <B as Spec>::count() * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E185::Zed; } i -= 1;
        let c = 1u128 * <A as Spec>::count() * <B as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<B>(&mut r); return E185::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <B as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<B>(&mut r); let f1 = pick::<A>(&mut r); return E185::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E185::Zed => 0u128,
            E185::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <A as Spec>::count() * f1.index(),
            E185::Alpha(f0, f1) => 1u128 + 1u128 * <A as Spec>::count() * <B as Spec>::count() + f0.index() + <B as Spec>::count() * f1.index(),
        }
    }
}

use std::marker::PhantomData;
#[derive(Clone, Copy)] pub struct Lt<'a>(PhantomData<&'a str>);
unsafe impl<'a> enum_like::EnumLike for Lt<'a> { const NUM_VARIANTS: usize = 1; fn to_discr(self) -> usize { 0 } fn from_discr(x: usize) -> Self { assert!(x == 0); Lt(PhantomData) } }
#[derive(Clone, Copy, EnumLike)] pub enum Life<'a> { Zed(Lt<'a>, Tri), Alpha, Mid { q: Tri, b: Lt<'a> } }
#[derive(Clone, Copy, EnumLike)] pub struct Deft<T = bool>(Tri, T) where T: Copy;
#[derive(Clone, Copy, EnumLike)] pub struct LifeS<'a, T: 'a + Copy> { z: T, a: Lt<'a>, m: Option<T> }
impl Spec for Life<'static> { fn count() -> u128 { 7 } fn make(i: u128) -> Self { match i { 0 => Life::Alpha, 1..=3 => Life::Zed(Lt(PhantomData), Tri::make(i - 1)), _ => Life::Mid { q: Tri::make(i - 4), b: Lt(PhantomData) } } } fn index(self) -> u128 { match self { Life::Alpha => 0, Life::Zed(_, t) => 1 + Spec::index(t), Life::Mid { q, .. } => 4 + Spec::index(q) } } }
impl<T: Spec> Spec for Deft<T> { fn count() -> u128 { 3 * T::count() } fn make(i: u128) -> Self { Deft(Tri::make(i % 3), T::make(i / 3)) } fn index(self) -> u128 { Spec::index(self.0) + 3 * self.1.index() } }
impl<T: Spec> Spec for LifeS<'static, T> { fn count() -> u128 { T::count() * (T::count() + 1) } fn make(i: u128) -> Self { LifeS { z: T::make(i % T::count()), a: Lt(PhantomData), m: Option::<T>::make(i / T::count()) } } fn index(self) -> u128 { self.z.index() + T::count() * self.m.index() } }
/// No trait in scope, and names that could be mistaken for it.
pub mod hygiene {
    use e2esut::{Spec, Tri};
    #[derive(Clone, Copy)] pub struct Odd(pub bool);
    impl Odd { pub const NUM_VARIANTS: usize = 77; pub fn to_discr(self) -> usize { 99 } pub fn from_discr(_: usize) -> Odd { Odd(true) } }
    unsafe impl ::enum_like::EnumLike for Odd { const NUM_VARIANTS: usize = 2; fn to_discr(self) -> usize { self.0 as usize } fn from_discr(x: usize) -> Odd { assert!(x < 2); Odd(x == 1) } }
    impl Spec for Odd { fn count() -> u128 { 2 } fn make(i: u128) -> Self { Odd(i == 1) } fn index(self) -> u128 { self.0 as u128 } }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub struct So { pub o: Odd, pub t: Tri, pub p: Odd }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub enum Eo { Two(Tri, Odd), None, Some(Odd), Ok { o: Odd, t: Tri }, Err }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub(crate) enum Co { Option, Result, Self_, Usize }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub enum usize_ { usize(bool), bool }
    impl Spec for So { fn count() -> u128 { 12 } fn make(i: u128) -> Self { So { o: Odd::make(i % 2), t: Tri::make(i / 2 % 3), p: Odd::make(i / 6) } } fn index(self) -> u128 { self.o.index() + 2 * self.t.index() + 6 * self.p.index() } }
    impl Spec for Eo {
        fn count() -> u128 { 16 }
        fn make(i: u128) -> Self { match i { 0 => Eo::None, 1 => Eo::Err, 2..=7 => Eo::Two(Tri::make((i - 2) % 3), Odd::make((i - 2) / 3)), 8 | 9 => Eo::Some(Odd::make(i - 8)), _ => Eo::Ok { o: Odd::make((i - 10) % 2), t: Tri::make((i - 10) / 2) } } }
        fn index(self) -> u128 { match self { Eo::None => 0, Eo::Err => 1, Eo::Two(t, o) => 2 + t.index() + 3 * o.index(), Eo::Some(o) => 8 + o.index(), Eo::Ok { o, t } => 10 + o.index() + 2 * t.index() } }
    }
    impl Spec for Co { fn count() -> u128 { 4 } fn make(i: u128) -> Self { [Co::Option, Co::Result, Co::Self_, Co::Usize][i as usize] } fn index(self) -> u128 { match self { Co::Option => 0, Co::Result => 1, Co::Self_ => 2, Co::Usize => 3 } } }
    impl Spec for usize_ { fn count() -> u128 { 3 } fn make(i: u128) -> Self { match i { 0 => usize_::bool, 1 => usize_::usize(false), _ => usize_::usize(true) } } fn index(self) -> u128 { match self { usize_::bool => 0, usize_::usize(false) => 1, usize_::usize(true) => 2 } } }
}

macro_rules! made { ($n:ident, $m:ident, $($v:ident($t:ty, $f:ident)),*) => {
    #[derive(Clone, Copy, EnumLike)] pub enum $n { $($v($t, Tri)),*, Last { $($f: $t),* }, Unit }
    #[derive(Clone, Copy, EnumLike)] pub struct $m { $(pub $f: $t),* }
} }
made!(MadeE, MadeS, Va(Option<bool>, fa), Vb((bool, Tri), fb));
impl Spec for MadeS { fn count() -> u128 { 18 } fn make(i: u128) -> Self { MadeS { fa: Spec::make(i % 3), fb: Spec::make(i / 3) } } fn index(self) -> u128 { Spec::index(self.fa) + 3 * Spec::index(self.fb) } }
impl Spec for MadeE { fn count() -> u128 { 1 + 9 + 18 + 18 } fn make(i: u128) -> Self { match i { 0 => MadeE::Unit, 1..=9 => MadeE::Va(Spec::make((i - 1) % 3), Spec::make((i - 1) / 3)), 10..=27 => MadeE::Vb(Spec::make((i - 10) % 6), Spec::make((i - 10) / 6)), _ => MadeE::Last { fa: Spec::make((i - 28) % 3), fb: Spec::make((i - 28) / 3) } } }
    fn index(self) -> u128 { match self { MadeE::Unit => 0, MadeE::Va(a, t) => 1 + Spec::index(a) + 3 * Spec::index(t), MadeE::Vb(a, t) => 10 + Spec::index(a) + 6 * Spec::index(t), MadeE::Last { fa, fb } => 28 + Spec::index(fa) + 3 * Spec::index(fb) } } }

pub fn all(v: &mut Vec<Ty>) {
    v.push(ty::<E1>("E1: enum E1 { Mid }", vec![p8_::<E1>(), p16_::<E1>()]));
    v.push(ty::<(E1, bool)>("(E1, bool): enum E1 { Mid }", vec![u8_::<(E1, bool)>(), u16_::<(E1, bool)>(), u32_::<(E1, bool)>(), u64_::<(E1, bool)>(), u128_::<(E1, bool)>(), small_::<(E1, bool)>(), p8_::<(E1, bool)>(), p16_::<(E1, bool)>()]));
    v.push(ty::<E9>("E9: enum E9 { V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }", vec![u8_::<E9>(), u16_::<E9>(), u32_::<E9>(), u64_::<E9>(), u128_::<E9>(), small_::<E9>(), p8_::<E9>(), p16_::<E9>()]));
    v.push(ty::<Result<E9, Tri>>("Result<E9, Tri>: enum E9 { V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }", vec![u8_::<Result<E9, Tri>>(), u16_::<Result<E9, Tri>>(), u32_::<Result<E9, Tri>>(), u64_::<Result<E9, Tri>>(), u128_::<Result<E9, Tri>>(), small_::<Result<E9, Tri>>(), p8_::<Result<E9, Tri>>(), p16_::<Result<E9, Tri>>()]));
    v.push(ty::<E17>("E17: enum E17 { Mid { m: () } }", vec![p8_::<E17>(), p16_::<E17>()]));
    v.push(ty::<[E17; 2]>("[E17; 2]: enum E17 { Mid { m: () } }", vec![p8_::<[E17; 2]>(), p16_::<[E17; 2]>()]));
    v.push(ty::<E25>("E25: enum E25 { Mid(bool), Zed }", vec![u8_::<E25>(), u16_::<E25>(), u32_::<E25>(), u64_::<E25>(), u128_::<E25>(), small_::<E25>(), p8_::<E25>(), p16_::<E25>()]));
    v.push(ty::<Option<(Tri, E25)>>("Option<(Tri, E25)>: enum E25 { Mid(bool), Zed }", vec![u8_::<Option<(Tri, E25)>>(), u16_::<Option<(Tri, E25)>>(), u32_::<Option<(Tri, E25)>>(), u64_::<Option<(Tri, E25)>>(), u128_::<Option<(Tri, E25)>>(), small_::<Option<(Tri, E25)>>(), p8_::<Option<(Tri, E25)>>(), p16_::<Option<(Tri, E25)>>()]));
    v.push(ty::<E33>("E33: enum E33 { Mid, Zed, Alpha(Option<bool>) }", vec![u8_::<E33>(), u16_::<E33>(), u32_::<E33>(), u64_::<E33>(), u128_::<E33>(), small_::<E33>(), p8_::<E33>(), p16_::<E33>()]));
    v.push(ty::<(E33,)>("(E33,): enum E33 { Mid, Zed, Alpha(Option<bool>) }", vec![u8_::<(E33,)>(), u16_::<(E33,)>(), u32_::<(E33,)>(), u64_::<(E33,)>(), u128_::<(E33,)>(), small_::<(E33,)>(), p8_::<(E33,)>(), p16_::<(E33,)>()]));
    v.push(ty::<E41>("E41: enum E41 { Mid(bool), Zed { m: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<E41>(), u16_::<E41>(), u32_::<E41>(), u64_::<E41>(), u128_::<E41>(), small_::<E41>(), p8_::<E41>(), p16_::<E41>()]));
    v.push(ty::<Result<bool, [E41; 1]>>("Result<bool, [E41; 1]>: enum E41 { Mid(bool), Zed { m: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<Result<bool, [E41; 1]>>(), u16_::<Result<bool, [E41; 1]>>(), u32_::<Result<bool, [E41; 1]>>(), u64_::<Result<bool, [E41; 1]>>(), u128_::<Result<bool, [E41; 1]>>(), small_::<Result<bool, [E41; 1]>>(), p8_::<Result<bool, [E41; 1]>>(), p16_::<Result<bool, [E41; 1]>>()]));
    v.push(ty::<E49>("E49: enum E49 { Mid(Never), Zed(()), Alpha { m: bool, z: Tri } }", vec![u8_::<E49>(), u16_::<E49>(), u32_::<E49>(), u64_::<E49>(), u128_::<E49>(), small_::<E49>(), p8_::<E49>(), p16_::<E49>()]));
    v.push(ty::<Option<E49>>("Option<E49>: enum E49 { Mid(Never), Zed(()), Alpha { m: bool, z: Tri } }", vec![u8_::<Option<E49>>(), u16_::<Option<E49>>(), u32_::<Option<E49>>(), u64_::<Option<E49>>(), u128_::<Option<E49>>(), small_::<Option<E49>>(), p8_::<Option<E49>>(), p16_::<Option<E49>>()]));
    v.push(ty::<E57>("E57: enum E57 { Mid { m: Tri }, Zed(Option<bool>), Alpha { m: Tri } }", vec![u8_::<E57>(), u16_::<E57>(), u32_::<E57>(), u64_::<E57>(), u128_::<E57>(), small_::<E57>(), p8_::<E57>(), p16_::<E57>()]));
    v.push(ty::<(E57, bool)>("(E57, bool): enum E57 { Mid { m: Tri }, Zed(Option<bool>), Alpha { m: Tri } }", vec![u8_::<(E57, bool)>(), u16_::<(E57, bool)>(), u32_::<(E57, bool)>(), u64_::<(E57, bool)>(), u128_::<(E57, bool)>(), small_::<(E57, bool)>(), p8_::<(E57, bool)>(), p16_::<(E57, bool)>()]));
    v.push(ty::<E65>("E65: enum E65 { Mid { m: bool, z: Tri }, Zed(Never), Alpha(bool) }", vec![u8_::<E65>(), u16_::<E65>(), u32_::<E65>(), u64_::<E65>(), u128_::<E65>(), small_::<E65>(), p8_::<E65>(), p16_::<E65>()]));
    v.push(ty::<Result<E65, Tri>>("Result<E65, Tri>: enum E65 { Mid { m: bool, z: Tri }, Zed(Never), Alpha(bool) }", vec![u8_::<Result<E65, Tri>>(), u16_::<Result<E65, Tri>>(), u32_::<Result<E65, Tri>>(), u64_::<Result<E65, Tri>>(), u128_::<Result<E65, Tri>>(), small_::<Result<E65, Tri>>(), p8_::<Result<E65, Tri>>(), p16_::<Result<E65, Tri>>()]));
    v.push(ty::<E73>("E73: enum E73 { Mid(()), Zed(Tri, bool), Alpha(Option<bool>) }", vec![u8_::<E73>(), u16_::<E73>(), u32_::<E73>(), u64_::<E73>(), u128_::<E73>(), small_::<E73>(), p8_::<E73>(), p16_::<E73>()]));
    v.push(ty::<[E73; 2]>("[E73; 2]: enum E73 { Mid(()), Zed(Tri, bool), Alpha(Option<bool>) }", vec![u8_::<[E73; 2]>(), u16_::<[E73; 2]>(), u32_::<[E73; 2]>(), u64_::<[E73; 2]>(), u128_::<[E73; 2]>(), small_::<[E73; 2]>(), p8_::<[E73; 2]>(), p16_::<[E73; 2]>()]));
    v.push(ty::<E81>("E81: enum E81 { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha(Tri, Two, Tri) }", vec![u8_::<E81>(), u16_::<E81>(), u32_::<E81>(), u64_::<E81>(), u128_::<E81>(), small_::<E81>(), p8_::<E81>(), p16_::<E81>()]));
    v.push(ty::<Option<(Tri, E81)>>("Option<(Tri, E81)>: enum E81 { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha(Tri, Two, Tri) }", vec![u8_::<Option<(Tri, E81)>>(), u16_::<Option<(Tri, E81)>>(), u32_::<Option<(Tri, E81)>>(), u64_::<Option<(Tri, E81)>>(), u128_::<Option<(Tri, E81)>>(), small_::<Option<(Tri, E81)>>(), p8_::<Option<(Tri, E81)>>(), p16_::<Option<(Tri, E81)>>()]));
    v.push(ty::<E89>("E89: enum E89 { Mid(Option<bool>), Zed, Alpha { m: bool, z: Tri } }", vec![u8_::<E89>(), u16_::<E89>(), u32_::<E89>(), u64_::<E89>(), u128_::<E89>(), small_::<E89>(), p8_::<E89>(), p16_::<E89>()]));
    v.push(ty::<(E89,)>("(E89,): enum E89 { Mid(Option<bool>), Zed, Alpha { m: bool, z: Tri } }", vec![u8_::<(E89,)>(), u16_::<(E89,)>(), u32_::<(E89,)>(), u64_::<(E89,)>(), u128_::<(E89,)>(), small_::<(E89,)>(), p8_::<(E89,)>(), p16_::<(E89,)>()]));
    v.push(ty::<E97>("E97: enum E97 { Mid, Zed(Tri), Alpha(Tri), Quux(Two) }", vec![u8_::<E97>(), u16_::<E97>(), u32_::<E97>(), u64_::<E97>(), u128_::<E97>(), small_::<E97>(), p8_::<E97>(), p16_::<E97>()]));
    v.push(ty::<Result<bool, [E97; 1]>>("Result<bool, [E97; 1]>: enum E97 { Mid, Zed(Tri), Alpha(Tri), Quux(Two) }", vec![u8_::<Result<bool, [E97; 1]>>(), u16_::<Result<bool, [E97; 1]>>(), u32_::<Result<bool, [E97; 1]>>(), u64_::<Result<bool, [E97; 1]>>(), u128_::<Result<bool, [E97; 1]>>(), small_::<Result<bool, [E97; 1]>>(), p8_::<Result<bool, [E97; 1]>>(), p16_::<Result<bool, [E97; 1]>>()]));
    v.push(ty::<E105>("E105: enum E105 { Mid(Tri), Zed(Tri), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }", vec![u8_::<E105>(), u16_::<E105>(), u32_::<E105>(), u64_::<E105>(), u128_::<E105>(), small_::<E105>(), p8_::<E105>(), p16_::<E105>()]));
    v.push(ty::<Option<E105>>("Option<E105>: enum E105 { Mid(Tri), Zed(Tri), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }", vec![u8_::<Option<E105>>(), u16_::<Option<E105>>(), u32_::<Option<E105>>(), u64_::<Option<E105>>(), u128_::<Option<E105>>(), small_::<Option<E105>>(), p8_::<Option<E105>>(), p16_::<Option<E105>>()]));
    v.push(ty::<E113>("E113: enum E113 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Never), Quux }", vec![u8_::<E113>(), u16_::<E113>(), u32_::<E113>(), u64_::<E113>(), u128_::<E113>(), small_::<E113>(), p8_::<E113>(), p16_::<E113>()]));
    v.push(ty::<(E113, bool)>("(E113, bool): enum E113 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Never), Quux }", vec![u8_::<(E113, bool)>(), u16_::<(E113, bool)>(), u32_::<(E113, bool)>(), u64_::<(E113, bool)>(), u128_::<(E113, bool)>(), small_::<(E113, bool)>(), p8_::<(E113, bool)>(), p16_::<(E113, bool)>()]));
    v.push(ty::<E121>("E121: enum E121 { Mid(Never), Zed(Tri), Alpha(Never), Quux(Never) }", vec![u8_::<E121>(), u16_::<E121>(), u32_::<E121>(), u64_::<E121>(), u128_::<E121>(), small_::<E121>(), p8_::<E121>(), p16_::<E121>()]));
    v.push(ty::<Result<E121, Tri>>("Result<E121, Tri>: enum E121 { Mid(Never), Zed(Tri), Alpha(Never), Quux(Never) }", vec![u8_::<Result<E121, Tri>>(), u16_::<Result<E121, Tri>>(), u32_::<Result<E121, Tri>>(), u64_::<Result<E121, Tri>>(), u128_::<Result<E121, Tri>>(), small_::<Result<E121, Tri>>(), p8_::<Result<E121, Tri>>(), p16_::<Result<E121, Tri>>()]));
    v.push(ty::<E129>("E129: enum E129 { Mid(Two), Zed(Tri), Alpha(Two), Quux(Tri) }", vec![u8_::<E129>(), u16_::<E129>(), u32_::<E129>(), u64_::<E129>(), u128_::<E129>(), small_::<E129>(), p8_::<E129>(), p16_::<E129>()]));
    v.push(ty::<[E129; 2]>("[E129; 2]: enum E129 { Mid(Two), Zed(Tri), Alpha(Two), Quux(Tri) }", vec![u8_::<[E129; 2]>(), u16_::<[E129; 2]>(), u32_::<[E129; 2]>(), u64_::<[E129; 2]>(), u128_::<[E129; 2]>(), small_::<[E129; 2]>(), p8_::<[E129; 2]>(), p16_::<[E129; 2]>()]));
    v.push(ty::<E137>("E137: enum E137 { Mid { m: Two }, Zed, Alpha, Quux { m: Two }, Beta, Yard { m: Two } }", vec![u8_::<E137>(), u16_::<E137>(), u32_::<E137>(), u64_::<E137>(), u128_::<E137>(), small_::<E137>(), p8_::<E137>(), p16_::<E137>()]));
    v.push(ty::<Option<(Tri, E137)>>("Option<(Tri, E137)>: enum E137 { Mid { m: Two }, Zed, Alpha, Quux { m: Two }, Beta, Yard { m: Two } }", vec![u8_::<Option<(Tri, E137)>>(), u16_::<Option<(Tri, E137)>>(), u32_::<Option<(Tri, E137)>>(), u64_::<Option<(Tri, E137)>>(), u128_::<Option<(Tri, E137)>>(), small_::<Option<(Tri, E137)>>(), p8_::<Option<(Tri, E137)>>(), p16_::<Option<(Tri, E137)>>()]));
    v.push(ty::<S145>("S145: struct S145 { m: bool, z: () }", vec![u8_::<S145>(), u16_::<S145>(), u32_::<S145>(), u64_::<S145>(), u128_::<S145>(), small_::<S145>(), p8_::<S145>(), p16_::<S145>()]));
    v.push(ty::<(S145,)>("(S145,): struct S145 { m: bool, z: () }", vec![u8_::<(S145,)>(), u16_::<(S145,)>(), u32_::<(S145,)>(), u64_::<(S145,)>(), u128_::<(S145,)>(), small_::<(S145,)>(), p8_::<(S145,)>(), p16_::<(S145,)>()]));
    v.push(ty::<S153>("S153: struct S153 { m: bool, z: Tri, a: Five }", vec![u8_::<S153>(), u16_::<S153>(), u32_::<S153>(), u64_::<S153>(), u128_::<S153>(), small_::<S153>(), p8_::<S153>(), p16_::<S153>()]));
    v.push(ty::<Result<bool, [S153; 1]>>("Result<bool, [S153; 1]>: struct S153 { m: bool, z: Tri, a: Five }", vec![u8_::<Result<bool, [S153; 1]>>(), u16_::<Result<bool, [S153; 1]>>(), u32_::<Result<bool, [S153; 1]>>(), u64_::<Result<bool, [S153; 1]>>(), u128_::<Result<bool, [S153; 1]>>(), small_::<Result<bool, [S153; 1]>>(), p8_::<Result<bool, [S153; 1]>>(), p16_::<Result<bool, [S153; 1]>>()]));
    v.push(ty::<S161>("S161: struct S161 { m: Five, z: bool, a: Tri }", vec![u8_::<S161>(), u16_::<S161>(), u32_::<S161>(), u64_::<S161>(), u128_::<S161>(), small_::<S161>(), p8_::<S161>(), p16_::<S161>()]));
    v.push(ty::<Option<S161>>("Option<S161>: struct S161 { m: Five, z: bool, a: Tri }", vec![u8_::<Option<S161>>(), u16_::<Option<S161>>(), u32_::<Option<S161>>(), u64_::<Option<S161>>(), u128_::<Option<S161>>(), small_::<Option<S161>>(), p8_::<Option<S161>>(), p16_::<Option<S161>>()]));
    v.push(ty::<S169>("S169: struct S169 { m: Tri, z: (), a: bool, q: () }", vec![u8_::<S169>(), u16_::<S169>(), u32_::<S169>(), u64_::<S169>(), u128_::<S169>(), small_::<S169>(), p8_::<S169>(), p16_::<S169>()]));
    v.push(ty::<(S169, bool)>("(S169, bool): struct S169 { m: Tri, z: (), a: bool, q: () }", vec![u8_::<(S169, bool)>(), u16_::<(S169, bool)>(), u32_::<(S169, bool)>(), u64_::<(S169, bool)>(), u128_::<(S169, bool)>(), small_::<(S169, bool)>(), p8_::<(S169, bool)>(), p16_::<(S169, bool)>()]));
    v.push(ty::<E177<bool>>("E177<bool>: enum E177<A> { Mid(A), Zed }", vec![u8_::<E177<bool>>(), u16_::<E177<bool>>(), u32_::<E177<bool>>(), u64_::<E177<bool>>(), u128_::<E177<bool>>(), small_::<E177<bool>>(), p8_::<E177<bool>>(), p16_::<E177<bool>>()]));
    v.push(ty::<E177<Tri>>("E177<Tri>: enum E177<A> { Mid(A), Zed }", vec![u8_::<E177<Tri>>(), u16_::<E177<Tri>>(), u32_::<E177<Tri>>(), u64_::<E177<Tri>>(), u128_::<E177<Tri>>(), small_::<E177<Tri>>(), p8_::<E177<Tri>>(), p16_::<E177<Tri>>()]));
    v.push(ty::<Result<E177<Tri>, Tri>>("Result<E177<Tri>, Tri>: enum E177<A> { Mid(A), Zed }", vec![u8_::<Result<E177<Tri>, Tri>>(), u16_::<Result<E177<Tri>, Tri>>(), u32_::<Result<E177<Tri>, Tri>>(), u64_::<Result<E177<Tri>, Tri>>(), u128_::<Result<E177<Tri>, Tri>>(), small_::<Result<E177<Tri>, Tri>>(), p8_::<Result<E177<Tri>, Tri>>(), p16_::<Result<E177<Tri>, Tri>>()]));
    v.push(ty::<E185<Tri, bool>>("E185<Tri, bool>: enum E185<A, B> { Mid { m: A, z: B }, Zed, Alpha(B, A) }", vec![u8_::<E185<Tri, bool>>(), u16_::<E185<Tri, bool>>(), u32_::<E185<Tri, bool>>(), u64_::<E185<Tri, bool>>(), u128_::<E185<Tri, bool>>(), small_::<E185<Tri, bool>>(), p8_::<E185<Tri, bool>>(), p16_::<E185<Tri, bool>>()]));
    v.push(ty::<E185<Five, Never>>("E185<Five, Never>: enum E185<A, B> { Mid { m: A, z: B }, Zed, Alpha(B, A) }", vec![p8_::<E185<Five, Never>>(), p16_::<E185<Five, Never>>()]));
    v.push(ty::<[E185<Five, Never>; 2]>("[E185<Five, Never>; 2]: enum E185<A, B> { Mid { m: A, z: B }, Zed, Alpha(B, A) }", vec![p8_::<[E185<Five, Never>; 2]>(), p16_::<[E185<Five, Never>; 2]>()]));
    v.push(ty::<Option<()>>("Option<()>", vec![u8_::<Option<()>>(), u16_::<Option<()>>(), u32_::<Option<()>>(), u64_::<Option<()>>(), u128_::<Option<()>>(), small_::<Option<()>>(), p8_::<Option<()>>(), p16_::<Option<()>>()]));
    v.push(ty::<Result<(), Tri>>("Result<(), Tri>", vec![u8_::<Result<(), Tri>>(), u16_::<Result<(), Tri>>(), u32_::<Result<(), Tri>>(), u64_::<Result<(), Tri>>(), u128_::<Result<(), Tri>>(), small_::<Result<(), Tri>>(), p8_::<Result<(), Tri>>(), p16_::<Result<(), Tri>>()]));
    v.push(ty::<(bool, bool)>("(bool, bool)", vec![u8_::<(bool, bool)>(), u16_::<(bool, bool)>(), u32_::<(bool, bool)>(), u64_::<(bool, bool)>(), u128_::<(bool, bool)>(), small_::<(bool, bool)>(), p8_::<(bool, bool)>(), p16_::<(bool, bool)>()]));
    v.push(ty::<[Tri; 0]>("[Tri; 0]", vec![p8_::<[Tri; 0]>(), p16_::<[Tri; 0]>()]));
    v.push(ty::<Result<Tri, Five>>("Result<Tri, Five>", vec![u8_::<Result<Tri, Five>>(), u16_::<Result<Tri, Five>>(), u32_::<Result<Tri, Five>>(), u64_::<Result<Tri, Five>>(), u128_::<Result<Tri, Five>>(), small_::<Result<Tri, Five>>(), p8_::<Result<Tri, Five>>(), p16_::<Result<Tri, Five>>()]));
    v.push(ty::<(Five, Tri)>("(Five, Tri)", vec![u8_::<(Five, Tri)>(), u16_::<(Five, Tri)>(), u32_::<(Five, Tri)>(), u64_::<(Five, Tri)>(), u128_::<(Five, Tri)>(), small_::<(Five, Tri)>(), p8_::<(Five, Tri)>(), p16_::<(Five, Tri)>()]));
    v.push(ty::<Result<Never, ()>>("Result<Never, ()>", vec![p8_::<Result<Never, ()>>(), p16_::<Result<Never, ()>>()]));
    v.push(ty::<[D17; 3]>("[D17; 3]", vec![u16_::<[D17; 3]>(), u32_::<[D17; 3]>(), u64_::<[D17; 3]>(), u128_::<[D17; 3]>(), small_::<[D17; 3]>(), p16_::<[D17; 3]>()]));
    v.push(ty::<(D17, Five)>("(D17, Five)", vec![u8_::<(D17, Five)>(), u16_::<(D17, Five)>(), u32_::<(D17, Five)>(), u64_::<(D17, Five)>(), u128_::<(D17, Five)>(), small_::<(D17, Five)>(), p8_::<(D17, Five)>(), p16_::<(D17, Five)>()]));
    v.push(ty::<(Result<(), bool>, [Never; 3])>("(Result<(), bool>, [Never; 3])", vec![]));
    v.push(ty::<((bool, ()), bool, [Five; 0])>("((bool, ()), bool, [Five; 0])", vec![u8_::<((bool, ()), bool, [Five; 0])>(), u16_::<((bool, ()), bool, [Five; 0])>(), u32_::<((bool, ()), bool, [Five; 0])>(), u64_::<((bool, ()), bool, [Five; 0])>(), u128_::<((bool, ()), bool, [Five; 0])>(), small_::<((bool, ()), bool, [Five; 0])>(), p8_::<((bool, ()), bool, [Five; 0])>(), p16_::<((bool, ()), bool, [Five; 0])>()]));
    v.push(ty::<Result<Option<Tri>, (Tri, ())>>("Result<Option<Tri>, (Tri, ())>", vec![u8_::<Result<Option<Tri>, (Tri, ())>>(), u16_::<Result<Option<Tri>, (Tri, ())>>(), u32_::<Result<Option<Tri>, (Tri, ())>>(), u64_::<Result<Option<Tri>, (Tri, ())>>(), u128_::<Result<Option<Tri>, (Tri, ())>>(), small_::<Result<Option<Tri>, (Tri, ())>>(), p8_::<Result<Option<Tri>, (Tri, ())>>(), p16_::<Result<Option<Tri>, (Tri, ())>>()]));
    v.push(ty::<Option<Result<Tri, Tri>>>("Option<Result<Tri, Tri>>", vec![u8_::<Option<Result<Tri, Tri>>>(), u16_::<Option<Result<Tri, Tri>>>(), u32_::<Option<Result<Tri, Tri>>>(), u64_::<Option<Result<Tri, Tri>>>(), u128_::<Option<Result<Tri, Tri>>>(), small_::<Option<Result<Tri, Tri>>>(), p8_::<Option<Result<Tri, Tri>>>(), p16_::<Option<Result<Tri, Tri>>>()]));
    v.push(ty::<[(Five, bool); 2]>("[(Five, bool); 2]", vec![u8_::<[(Five, bool); 2]>(), u16_::<[(Five, bool); 2]>(), u32_::<[(Five, bool); 2]>(), u64_::<[(Five, bool); 2]>(), u128_::<[(Five, bool); 2]>(), small_::<[(Five, bool); 2]>(), p8_::<[(Five, bool); 2]>(), p16_::<[(Five, bool); 2]>()]));
    v.push(ty::<([Never; 0], Result<D17, bool>)>("([Never; 0], Result<D17, bool>)", vec![u8_::<([Never; 0], Result<D17, bool>)>(), u16_::<([Never; 0], Result<D17, bool>)>(), u32_::<([Never; 0], Result<D17, bool>)>(), u64_::<([Never; 0], Result<D17, bool>)>(), u128_::<([Never; 0], Result<D17, bool>)>(), small_::<([Never; 0], Result<D17, bool>)>(), p8_::<([Never; 0], Result<D17, bool>)>(), p16_::<([Never; 0], Result<D17, bool>)>()]));
    v.push(ty::<(Result<Never, Five>, bool, (Never, Tri))>("(Result<Never, Five>, bool, (Never, Tri))", vec![]));
    v.push(ty::<Result<(D17, Tri), Result<Five, Tri>>>("Result<(D17, Tri), Result<Five, Tri>>", vec![u8_::<Result<(D17, Tri), Result<Five, Tri>>>(), u16_::<Result<(D17, Tri), Result<Five, Tri>>>(), u32_::<Result<(D17, Tri), Result<Five, Tri>>>(), u64_::<Result<(D17, Tri), Result<Five, Tri>>>(), u128_::<Result<(D17, Tri), Result<Five, Tri>>>(), small_::<Result<(D17, Tri), Result<Five, Tri>>>(), p8_::<Result<(D17, Tri), Result<Five, Tri>>>(), p16_::<Result<(D17, Tri), Result<Five, Tri>>>()]));
    v.push(ty::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>("((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)", vec![u8_::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>(), u16_::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>(), u32_::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>(), u64_::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>(), u128_::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>(), small_::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>(), p8_::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>(), p16_::<((), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), One, (), Five)>()]));
    v.push(ty::<Byte>("Byte", vec![u8_::<Byte>(), u16_::<Byte>(), u32_::<Byte>(), u64_::<Byte>(), u128_::<Byte>(), small_::<Byte>(), p8_::<Byte>(), p16_::<Byte>()]));
    v.push(ty::<Result<N32, N32>>("Result<N32, N32>", vec![u64_::<Result<N32, N32>>(), u128_::<Result<N32, N32>>()]));
    v.push(ty::<Life<'static>>("Life<'static>", vec![u8_::<Life<'static>>(), u16_::<Life<'static>>(), u32_::<Life<'static>>(), u64_::<Life<'static>>(), u128_::<Life<'static>>(), small_::<Life<'static>>(), p8_::<Life<'static>>(), p16_::<Life<'static>>()]));
    v.push(ty::<Deft>("Deft", vec![u8_::<Deft>(), u16_::<Deft>(), u32_::<Deft>(), u64_::<Deft>(), u128_::<Deft>(), small_::<Deft>(), p8_::<Deft>(), p16_::<Deft>()]));
    v.push(ty::<Deft<Tri>>("Deft<Tri>", vec![u8_::<Deft<Tri>>(), u16_::<Deft<Tri>>(), u32_::<Deft<Tri>>(), u64_::<Deft<Tri>>(), u128_::<Deft<Tri>>(), small_::<Deft<Tri>>(), p8_::<Deft<Tri>>(), p16_::<Deft<Tri>>()]));
    v.push(ty::<Deft<Never>>("Deft<Never>", vec![]));
    v.push(ty::<LifeS<'static, bool>>("LifeS<'static, bool>", vec![u8_::<LifeS<'static, bool>>(), u16_::<LifeS<'static, bool>>(), u32_::<LifeS<'static, bool>>(), u64_::<LifeS<'static, bool>>(), u128_::<LifeS<'static, bool>>(), small_::<LifeS<'static, bool>>(), p8_::<LifeS<'static, bool>>(), p16_::<LifeS<'static, bool>>()]));
    v.push(ty::<LifeS<'static, Option<Tri>>>("LifeS<'static, Option<Tri>>", vec![u8_::<LifeS<'static, Option<Tri>>>(), u16_::<LifeS<'static, Option<Tri>>>(), u32_::<LifeS<'static, Option<Tri>>>(), u64_::<LifeS<'static, Option<Tri>>>(), u128_::<LifeS<'static, Option<Tri>>>(), small_::<LifeS<'static, Option<Tri>>>(), p8_::<LifeS<'static, Option<Tri>>>(), p16_::<LifeS<'static, Option<Tri>>>()]));
    v.push(ty::<hygiene::So>("hygiene::So", vec![u8_::<hygiene::So>(), u16_::<hygiene::So>(), u32_::<hygiene::So>(), u64_::<hygiene::So>(), u128_::<hygiene::So>(), small_::<hygiene::So>(), p8_::<hygiene::So>(), p16_::<hygiene::So>()]));
    v.push(ty::<hygiene::Eo>("hygiene::Eo", vec![u8_::<hygiene::Eo>(), u16_::<hygiene::Eo>(), u32_::<hygiene::Eo>(), u64_::<hygiene::Eo>(), u128_::<hygiene::Eo>(), small_::<hygiene::Eo>(), p8_::<hygiene::Eo>(), p16_::<hygiene::Eo>()]));
    v.push(ty::<hygiene::Co>("hygiene::Co", vec![u8_::<hygiene::Co>(), u16_::<hygiene::Co>(), u32_::<hygiene::Co>(), u64_::<hygiene::Co>(), u128_::<hygiene::Co>(), small_::<hygiene::Co>(), p8_::<hygiene::Co>(), p16_::<hygiene::Co>()]));
    v.push(ty::<hygiene::usize_>("hygiene::usize_", vec![u8_::<hygiene::usize_>(), u16_::<hygiene::usize_>(), u32_::<hygiene::usize_>(), u64_::<hygiene::usize_>(), u128_::<hygiene::usize_>(), small_::<hygiene::usize_>(), p8_::<hygiene::usize_>(), p16_::<hygiene::usize_>()]));
    v.push(ty::<Option<hygiene::So>>("Option<hygiene::So>", vec![u8_::<Option<hygiene::So>>(), u16_::<Option<hygiene::So>>(), u32_::<Option<hygiene::So>>(), u64_::<Option<hygiene::So>>(), u128_::<Option<hygiene::So>>(), small_::<Option<hygiene::So>>(), p8_::<Option<hygiene::So>>(), p16_::<Option<hygiene::So>>()]));
}
