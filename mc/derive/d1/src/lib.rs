// generated by tools/gen_derive.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use enum_like_derive::EnumLike;
use likesut::*;
fn pick<T: Spec>(r: &mut u128) -> T {
    let c = T::count();
    let v = T::make(*r % c);
    *r /= c;
    v
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1  { Mid }
impl Spec for E1 {
    fn count() -> u128 { 1u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1::Mid; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1::Mid => 0u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E9  { V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E9 {
    fn count() -> u128 { 17u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E9::V17; } i -= 1;
        if i == 0 { return E9::V16; } i -= 1;
        if i == 0 { return E9::V15; } i -= 1;
        if i == 0 { return E9::V14; } i -= 1;
        if i == 0 { return E9::V13; } i -= 1;
        if i == 0 { return E9::V12; } i -= 1;
        if i == 0 { return E9::V11; } i -= 1;
        if i == 0 { return E9::V10; } i -= 1;
        if i == 0 { return E9::V9; } i -= 1;
        if i == 0 { return E9::V8; } i -= 1;
        if i == 0 { return E9::V7; } i -= 1;
        if i == 0 { return E9::V6; } i -= 1;
        if i == 0 { return E9::V5; } i -= 1;
        if i == 0 { return E9::V4; } i -= 1;
        if i == 0 { return E9::V3; } i -= 1;
        if i == 0 { return E9::V2; } i -= 1;
        if i == 0 { return E9::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E9::V17 => 0u128,
            E9::V16 => 1u128,
            E9::V15 => 2u128,
            E9::V14 => 3u128,
            E9::V13 => 4u128,
            E9::V12 => 5u128,
            E9::V11 => 6u128,
            E9::V10 => 7u128,
            E9::V9 => 8u128,
            E9::V8 => 9u128,
            E9::V7 => 10u128,
            E9::V6 => 11u128,
            E9::V5 => 12u128,
            E9::V4 => 13u128,
            E9::V3 => 14u128,
            E9::V2 => 15u128,
            E9::V1 => 16u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E17  { Mid = 100, Zed }
impl Spec for E17 {
    fn count() -> u128 { 2u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E17::Mid; } i -= 1;
        if i == 0 { return E17::Zed; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E17::Mid => 0u128,
            E17::Zed => 1u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E25  { Mid = 255, Zed = 0, Alpha = 128 }
impl Spec for E25 {
    fn count() -> u128 { 3u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E25::Mid; } i -= 1;
        if i == 0 { return E25::Zed; } i -= 1;
        if i == 0 { return E25::Alpha; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E25::Mid => 0u128,
            E25::Zed => 1u128,
            E25::Alpha => 2u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E33  { Mid(Never) }
impl Spec for E33 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E33::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E33::Mid(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E41  { Mid((), Never) }
impl Spec for E41 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); return E41::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E41::Mid(f0, f1) => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E49  { Mid(Never, Never) }
impl Spec for E49 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); return E49::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E49::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E57  { Mid { m: (), z: Never } }
impl Spec for E57 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); return E57::Mid { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E57::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E65  { Mid { m: Never, z: Never } }
impl Spec for E65 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); return E65::Mid { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E65::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E73  { Mid((), (), Never) }
impl Spec for E73 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Never>(&mut r); return E73::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E73::Mid(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E81  { Mid((), Never, Never) }
impl Spec for E81 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return E81::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E81::Mid(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E89  { Mid(bool, (), Never) }
impl Spec for E89 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Never>(&mut r); return E89::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E89::Mid(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E97  { Mid(bool, Never, Never) }
impl Spec for E97 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return E97::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E97::Mid(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E105  { Mid(Never, (), Never) }
impl Spec for E105 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Never>(&mut r); return E105::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E105::Mid(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E113  { Mid(Never, Never, Never) }
impl Spec for E113 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return E113::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E113::Mid(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E121  { Mid(Tri, (), Never) }
impl Spec for E121 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Never>(&mut r); return E121::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E121::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E129  { Mid(Tri, Never, Never) }
impl Spec for E129 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return E129::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E129::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E137  { Mid { m: Two, z: One, a: Tri, q: bool } }
impl Spec for E137 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() * <One as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count() * <One as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); let f1 = pick::<One>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<bool>(&mut r); return E137::Mid { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E137::Mid { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Two as Spec>::count() * f1.index() + <Two as Spec>::count() * <One as Spec>::count() * f2.index() + <Two as Spec>::count() * <One as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E145  { Mid, Zed { m: Tri } }
impl Spec for E145 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E145::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E145::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E145::Mid => 0u128,
            E145::Zed { m: f0 } => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E153  { Mid(()), Zed(bool) }
impl Spec for E153 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E153::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E153::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E153::Mid(f0) => 0u128 + f0.index(),
            E153::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E161  { Mid(()), Zed(Tri, Two, Tri) }
impl Spec for E161 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E161::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E161::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E161::Mid(f0) => 0u128 + f0.index(),
            E161::Zed(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E169  { Mid(bool), Zed { m: Tri } }
impl Spec for E169 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E169::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E169::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E169::Mid(f0) => 0u128 + f0.index(),
            E169::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E177  { Mid(Never), Zed(bool) }
impl Spec for E177 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E177::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E177::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E177::Mid(f0) => 0u128 + f0.index(),
            E177::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E185  { Mid(Never), Zed(Tri, Two, Tri) }
impl Spec for E185 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E185::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E185::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E185::Mid(f0) => 0u128 + f0.index(),
            E185::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E193  { Mid(Tri), Zed { m: Tri } }
impl Spec for E193 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E193::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E193::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E193::Mid(f0) => 0u128 + f0.index(),
            E193::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E201  { Mid { m: bool }, Zed(bool) }
impl Spec for E201 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E201::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E201::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E201::Mid { m: f0 } => 0u128 + f0.index(),
            E201::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E209  { Mid { m: bool }, Zed(Tri, Two, Tri) }
impl Spec for E209 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E209::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E209::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E209::Mid { m: f0 } => 0u128 + f0.index(),
            E209::Zed(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E217  { Mid { m: Tri }, Zed { m: Tri } }
impl Spec for E217 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E217::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E217::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E217::Mid { m: f0 } => 0u128 + f0.index(),
            E217::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E225  { Mid(bool, Tri), Zed(bool) }
impl Spec for E225 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E225::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E225::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E225::Mid(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E225::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E233  { Mid(bool, Tri), Zed(Tri, Two, Tri) }
impl Spec for E233 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E233::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E233::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E233::Mid(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E233::Zed(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E241  { Mid { m: Tri, z: bool }, Zed { m: Tri } }
impl Spec for E241 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E241::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E241::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E241::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E241::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E249  { Mid(Never, bool), Zed(bool) }
impl Spec for E249 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E249::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E249::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E249::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E249::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E257  { Mid(Never, bool), Zed(Tri, Two, Tri) }
impl Spec for E257 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E257::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E257::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E257::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E257::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E265  { Mid(Tri, Two, Tri), Zed { m: Tri } }
impl Spec for E265 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E265::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E265::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E265::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E265::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E273  { Mid { m: (), z: Tri }, Zed(bool) }
impl Spec for E273 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E273::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E273::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E273::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
            E273::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E281  { Mid { m: (), z: Tri }, Zed(Tri, Two, Tri) }
impl Spec for E281 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E281::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E281::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E281::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
            E281::Zed(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E289  { Mid, Zed, Alpha(Tri, Two, Tri) }
impl Spec for E289 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E289::Mid; } i -= 1;
        if i == 0 { return E289::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E289::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E289::Mid => 0u128,
            E289::Zed => 1u128,
            E289::Alpha(f0, f1, f2) => 2u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E297  { Mid, Zed(bool), Alpha { m: bool, z: Tri } }
impl Spec for E297 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E297::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E297::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E297::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E297::Mid => 0u128,
            E297::Zed(f0) => 1u128 + f0.index(),
            E297::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E305  { Mid, Zed(Never), Alpha { m: Tri } }
impl Spec for E305 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E305::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E305::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E305::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E305::Mid => 0u128,
            E305::Zed(f0) => 1u128 + f0.index(),
            E305::Alpha { m: f0 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E313  { Mid, Zed { m: Tri }, Alpha(bool) }
impl Spec for E313 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E313::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E313::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E313::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E313::Mid => 0u128,
            E313::Zed { m: f0 } => 1u128 + f0.index(),
            E313::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E321  { Mid, Zed { m: Tri }, Alpha(Option<bool>) }
impl Spec for E321 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E321::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E321::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E321::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E321::Mid => 0u128,
            E321::Zed { m: f0 } => 1u128 + f0.index(),
            E321::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E329  { Mid, Zed(Tri, bool), Alpha(Tri, Two, Tri) }
impl Spec for E329 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E329::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E329::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E329::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E329::Mid => 0u128,
            E329::Zed(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E329::Alpha(f0, f1, f2) => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E337  { Mid, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E337 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E337::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E337::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E337::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E337::Mid => 0u128,
            E337::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E337::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E345  { Mid, Zed(()), Alpha { m: Tri } }
impl Spec for E345 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E345::Mid; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E345::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E345::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E345::Mid => 0u128,
            E345::Zed(f0) => 1u128 + f0.index(),
            E345::Alpha { m: f0 } => 1u128 + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E353  { Mid, Zed(Tri, Two, Tri), Alpha(bool) }
impl Spec for E353 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E353::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E353::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E353::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E353::Mid => 0u128,
            E353::Zed(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E353::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E361  { Mid, Zed(Tri, Two, Tri), Alpha(Option<bool>) }
impl Spec for E361 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E361::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E361::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E361::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E361::Mid => 0u128,
            E361::Zed(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E361::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E369  { Mid, Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }
impl Spec for E369 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E369::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E369::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E369::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E369::Mid => 0u128,
            E369::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E369::Alpha(f0, f1, f2) => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E377  { Mid, Zed(Option<bool>), Alpha { m: bool, z: Tri } }
impl Spec for E377 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E377::Mid; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E377::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E377::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E377::Mid => 0u128,
            E377::Zed(f0) => 1u128 + f0.index(),
            E377::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E385  { Mid(bool), Zed, Alpha { m: Tri } }
impl Spec for E385 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E385::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E385::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E385::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E385::Zed => 0u128,
            E385::Mid(f0) => 1u128 + f0.index(),
            E385::Alpha { m: f0 } => 1u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E393  { Mid(bool), Zed(bool), Alpha(bool) }
impl Spec for E393 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E393::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E393::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E393::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E393::Mid(f0) => 0u128 + f0.index(),
            E393::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E393::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E401  { Mid(bool), Zed(bool), Alpha(Option<bool>) }
impl Spec for E401 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E401::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E401::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E401::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E401::Mid(f0) => 0u128 + f0.index(),
            E401::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E401::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E409  { Mid(bool), Zed(Never), Alpha(Tri, Two, Tri) }
impl Spec for E409 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E409::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E409::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E409::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E409::Mid(f0) => 0u128 + f0.index(),
            E409::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E409::Alpha(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E417  { Mid(bool), Zed { m: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E417 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E417::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E417::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E417::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E417::Mid(f0) => 0u128 + f0.index(),
            E417::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E417::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E425  { Mid(bool), Zed(Tri, bool), Alpha { m: Tri } }
impl Spec for E425 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E425::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E425::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E425::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E425::Mid(f0) => 0u128 + f0.index(),
            E425::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E425::Alpha { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E433  { Mid(bool), Zed { m: bool, z: Tri }, Alpha(bool) }
impl Spec for E433 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E433::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E433::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E433::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E433::Mid(f0) => 0u128 + f0.index(),
            E433::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E433::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E441  { Mid(bool), Zed { m: bool, z: Tri }, Alpha(Option<bool>) }
impl Spec for E441 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E441::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E441::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E441::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E441::Mid(f0) => 0u128 + f0.index(),
            E441::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E441::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E449  { Mid(bool), Zed(()), Alpha(Tri, Two, Tri) }
impl Spec for E449 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E449::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E449::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E449::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E449::Mid(f0) => 0u128 + f0.index(),
            E449::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E449::Alpha(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E457  { Mid(bool), Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }
impl Spec for E457 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E457::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E457::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E457::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E457::Mid(f0) => 0u128 + f0.index(),
            E457::Zed(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E457::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E465  { Mid(bool), Zed { m: Never, z: bool }, Alpha { m: Tri } }
impl Spec for E465 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E465::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E465::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E465::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E465::Mid(f0) => 0u128 + f0.index(),
            E465::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E465::Alpha { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E473  { Mid(bool), Zed(Option<bool>), Alpha(bool) }
impl Spec for E473 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E473::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E473::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E473::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E473::Mid(f0) => 0u128 + f0.index(),
            E473::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E473::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E481  { Mid(bool), Zed(Option<bool>), Alpha(Option<bool>) }
impl Spec for E481 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E481::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E481::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E481::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E481::Mid(f0) => 0u128 + f0.index(),
            E481::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E481::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E489  { Mid(Never), Zed, Alpha(Tri, Two, Tri) }
impl Spec for E489 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E489::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E489::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E489::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E489::Zed => 0u128,
            E489::Mid(f0) => 1u128 + f0.index(),
            E489::Alpha(f0, f1, f2) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E497  { Mid(Never), Zed(bool), Alpha { m: bool, z: Tri } }
impl Spec for E497 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E497::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E497::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E497::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E497::Mid(f0) => 0u128 + f0.index(),
            E497::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E497::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E505  { Mid(Never), Zed(Never), Alpha { m: Tri } }
impl Spec for E505 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E505::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E505::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E505::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E505::Mid(f0) => 0u128 + f0.index(),
            E505::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E505::Alpha { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E513  { Mid(Never), Zed { m: Tri }, Alpha(bool) }
impl Spec for E513 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E513::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E513::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E513::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E513::Mid(f0) => 0u128 + f0.index(),
            E513::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E513::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E521  { Mid(Never), Zed { m: Tri }, Alpha(Option<bool>) }
impl Spec for E521 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E521::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E521::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E521::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E521::Mid(f0) => 0u128 + f0.index(),
            E521::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E521::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E529  { Mid(Never), Zed(Tri, bool), Alpha(Tri, Two, Tri) }
impl Spec for E529 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E529::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E529::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E529::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E529::Mid(f0) => 0u128 + f0.index(),
            E529::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E529::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E537  { Mid(Never), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E537 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E537::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E537::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E537::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E537::Mid(f0) => 0u128 + f0.index(),
            E537::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E537::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E545  { Mid(Never), Zed(()), Alpha { m: Tri } }
impl Spec for E545 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E545::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E545::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E545::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E545::Mid(f0) => 0u128 + f0.index(),
            E545::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E545::Alpha { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E553  { Mid(Never), Zed(Tri, Two, Tri), Alpha(bool) }
impl Spec for E553 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E553::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E553::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E553::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E553::Mid(f0) => 0u128 + f0.index(),
            E553::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E553::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E561  { Mid(Never), Zed(Tri, Two, Tri), Alpha(Option<bool>) }
impl Spec for E561 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E561::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E561::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E561::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E561::Mid(f0) => 0u128 + f0.index(),
            E561::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E561::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E569  { Mid(Never), Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }
impl Spec for E569 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E569::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E569::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E569::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E569::Mid(f0) => 0u128 + f0.index(),
            E569::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E569::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E577  { Mid(Never), Zed(Option<bool>), Alpha { m: bool, z: Tri } }
impl Spec for E577 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E577::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E577::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E577::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E577::Mid(f0) => 0u128 + f0.index(),
            E577::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E577::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E585  { Mid { m: Tri }, Zed, Alpha { m: Tri } }
impl Spec for E585 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E585::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E585::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E585::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E585::Zed => 0u128,
            E585::Mid { m: f0 } => 1u128 + f0.index(),
            E585::Alpha { m: f0 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E593  { Mid { m: Tri }, Zed(bool), Alpha(bool) }
impl Spec for E593 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E593::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E593::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E593::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E593::Mid { m: f0 } => 0u128 + f0.index(),
            E593::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E593::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E601  { Mid { m: Tri }, Zed(bool), Alpha(Option<bool>) }
impl Spec for E601 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E601::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E601::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E601::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E601::Mid { m: f0 } => 0u128 + f0.index(),
            E601::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E601::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E609  { Mid { m: Tri }, Zed(Never), Alpha(Tri, Two, Tri) }
impl Spec for E609 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E609::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E609::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E609::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E609::Mid { m: f0 } => 0u128 + f0.index(),
            E609::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E609::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E617  { Mid { m: Tri }, Zed { m: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E617 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E617::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E617::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E617::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E617::Mid { m: f0 } => 0u128 + f0.index(),
            E617::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E617::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E625  { Mid { m: Tri }, Zed(Tri, bool), Alpha { m: Tri } }
impl Spec for E625 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E625::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E625::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E625::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E625::Mid { m: f0 } => 0u128 + f0.index(),
            E625::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E625::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E633  { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha(bool) }
impl Spec for E633 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E633::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E633::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E633::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E633::Mid { m: f0 } => 0u128 + f0.index(),
            E633::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E633::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E641  { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha(Option<bool>) }
impl Spec for E641 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E641::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E641::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E641::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E641::Mid { m: f0 } => 0u128 + f0.index(),
            E641::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E641::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E649  { Mid { m: Tri }, Zed(()), Alpha(Tri, Two, Tri) }
impl Spec for E649 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E649::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E649::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E649::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E649::Mid { m: f0 } => 0u128 + f0.index(),
            E649::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E649::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E657  { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }
impl Spec for E657 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E657::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E657::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E657::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E657::Mid { m: f0 } => 0u128 + f0.index(),
            E657::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E657::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E665  { Mid { m: Tri }, Zed { m: Never, z: bool }, Alpha { m: Tri } }
impl Spec for E665 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E665::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E665::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E665::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E665::Mid { m: f0 } => 0u128 + f0.index(),
            E665::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E665::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E673  { Mid { m: Tri }, Zed(Option<bool>), Alpha(bool) }
impl Spec for E673 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E673::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E673::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E673::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E673::Mid { m: f0 } => 0u128 + f0.index(),
            E673::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E673::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E681  { Mid { m: Tri }, Zed(Option<bool>), Alpha(Option<bool>) }
impl Spec for E681 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E681::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E681::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E681::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E681::Mid { m: f0 } => 0u128 + f0.index(),
            E681::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E681::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E689  { Mid(Tri, bool), Zed, Alpha(Tri, Two, Tri) }
impl Spec for E689 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E689::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E689::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E689::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E689::Zed => 0u128,
            E689::Mid(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E689::Alpha(f0, f1, f2) => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E697  { Mid(Tri, bool), Zed(bool), Alpha { m: bool, z: Tri } }
impl Spec for E697 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E697::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E697::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E697::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E697::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E697::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E697::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E705  { Mid(Tri, bool), Zed(Never), Alpha { m: Tri } }
impl Spec for E705 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E705::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E705::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E705::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E705::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E705::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E705::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E713  { Mid(Tri, bool), Zed { m: Tri }, Alpha(bool) }
impl Spec for E713 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E713::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E713::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E713::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E713::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E713::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E713::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E721  { Mid(Tri, bool), Zed { m: Tri }, Alpha(Option<bool>) }
impl Spec for E721 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E721::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E721::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E721::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E721::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E721::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E721::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E729  { Mid(Tri, bool), Zed(Tri, bool), Alpha(Tri, Two, Tri) }
impl Spec for E729 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E729::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E729::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E729::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E729::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E729::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E729::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E737  { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E737 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E737::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E737::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E737::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E737::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E737::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E737::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E745  { Mid(Tri, bool), Zed(()), Alpha { m: Tri } }
impl Spec for E745 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E745::Mid(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E745::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E745::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E745::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E745::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E745::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E753  { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha(bool) }
impl Spec for E753 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E753::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E753::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E753::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E753::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E753::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E753::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E761  { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha(Option<bool>) }
impl Spec for E761 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E761::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E761::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E761::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E761::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E761::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E761::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E769  { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }
impl Spec for E769 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E769::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E769::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E769::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E769::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E769::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E769::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E777  { Mid(Tri, bool), Zed(Option<bool>), Alpha { m: bool, z: Tri } }
impl Spec for E777 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E777::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E777::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E777::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E777::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E777::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E777::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E785  { Mid { m: bool, z: Tri }, Zed, Alpha { m: Tri } }
impl Spec for E785 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E785::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E785::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E785::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E785::Zed => 0u128,
            E785::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E785::Alpha { m: f0 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E793  { Mid { m: bool, z: Tri }, Zed(bool), Alpha(bool) }
impl Spec for E793 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E793::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E793::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E793::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E793::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E793::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E793::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E801  { Mid { m: bool, z: Tri }, Zed(bool), Alpha(Option<bool>) }
impl Spec for E801 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E801::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E801::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E801::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E801::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E801::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E801::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E809  { Mid { m: bool, z: Tri }, Zed(Never), Alpha(Tri, Two, Tri) }
impl Spec for E809 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E809::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E809::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E809::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E809::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E809::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E809::Alpha(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E817  { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E817 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E817::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E817::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E817::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E817::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E817::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E817::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E825  { Mid { m: bool, z: Tri }, Zed(Tri, bool), Alpha { m: Tri } }
impl Spec for E825 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E825::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E825::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E825::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E825::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E825::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E825::Alpha { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E833  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(bool) }
impl Spec for E833 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E833::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E833::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E833::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E833::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E833::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E833::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E841  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Option<bool>) }
impl Spec for E841 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E841::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E841::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E841::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E841::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E841::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E841::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E849  { Mid { m: bool, z: Tri }, Zed(()), Alpha(Tri, Two, Tri) }
impl Spec for E849 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E849::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E849::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E849::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E849::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E849::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E849::Alpha(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E857  { Mid { m: bool, z: Tri }, Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }
impl Spec for E857 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E857::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E857::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E857::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E857::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E857::Zed(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E857::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E865  { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha { m: Tri } }
impl Spec for E865 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E865::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E865::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E865::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E865::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E865::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E865::Alpha { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E873  { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha(bool) }
impl Spec for E873 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E873::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E873::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E873::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E873::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E873::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E873::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E881  { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha(Option<bool>) }
impl Spec for E881 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E881::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E881::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E881::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E881::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E881::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E881::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E889  { Mid(()), Zed, Alpha(Tri, Two, Tri) }
impl Spec for E889 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E889::Zed; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E889::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E889::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E889::Zed => 0u128,
            E889::Mid(f0) => 1u128 + f0.index(),
            E889::Alpha(f0, f1, f2) => 1u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E897  { Mid(()), Zed(bool), Alpha { m: bool, z: Tri } }
impl Spec for E897 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E897::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E897::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E897::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E897::Mid(f0) => 0u128 + f0.index(),
            E897::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E897::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E905  { Mid(()), Zed(Never), Alpha { m: Tri } }
impl Spec for E905 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E905::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E905::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E905::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E905::Mid(f0) => 0u128 + f0.index(),
            E905::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E905::Alpha { m: f0 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E913  { Mid(()), Zed { m: Tri }, Alpha(bool) }
impl Spec for E913 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E913::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E913::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E913::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E913::Mid(f0) => 0u128 + f0.index(),
            E913::Zed { m: f0 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E913::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E921  { Mid(()), Zed { m: Tri }, Alpha(Option<bool>) }
impl Spec for E921 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E921::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E921::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E921::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E921::Mid(f0) => 0u128 + f0.index(),
            E921::Zed { m: f0 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E921::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E929  { Mid(()), Zed(Tri, bool), Alpha(Tri, Two, Tri) }
impl Spec for E929 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E929::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E929::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E929::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E929::Mid(f0) => 0u128 + f0.index(),
            E929::Zed(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E929::Alpha(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E937  { Mid(()), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E937 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E937::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E937::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E937::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E937::Mid(f0) => 0u128 + f0.index(),
            E937::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E937::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E945  { Mid(()), Zed(()), Alpha { m: Tri } }
impl Spec for E945 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E945::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E945::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E945::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E945::Mid(f0) => 0u128 + f0.index(),
            E945::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E945::Alpha { m: f0 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E953  { Mid(()), Zed(Tri, Two, Tri), Alpha(bool) }
impl Spec for E953 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E953::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E953::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E953::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E953::Mid(f0) => 0u128 + f0.index(),
            E953::Zed(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E953::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E961  { Mid(()), Zed(Tri, Two, Tri), Alpha(Option<bool>) }
impl Spec for E961 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E961::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E961::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E961::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E961::Mid(f0) => 0u128 + f0.index(),
            E961::Zed(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E961::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E969  { Mid(()), Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }
impl Spec for E969 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E969::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E969::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E969::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E969::Mid(f0) => 0u128 + f0.index(),
            E969::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E969::Alpha(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E977  { Mid(()), Zed(Option<bool>), Alpha { m: bool, z: Tri } }
impl Spec for E977 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E977::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E977::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E977::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E977::Mid(f0) => 0u128 + f0.index(),
            E977::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E977::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E985  { Mid(Tri, Two, Tri), Zed, Alpha { m: Tri } }
impl Spec for E985 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E985::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E985::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E985::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E985::Zed => 0u128,
            E985::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E985::Alpha { m: f0 } => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E993  { Mid(Tri, Two, Tri), Zed(bool), Alpha(bool) }
impl Spec for E993 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E993::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E993::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E993::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E993::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E993::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E993::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1001  { Mid(Tri, Two, Tri), Zed(bool), Alpha(Option<bool>) }
impl Spec for E1001 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1001::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1001::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1001::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1001::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1001::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1001::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1009  { Mid(Tri, Two, Tri), Zed(Never), Alpha(Tri, Two, Tri) }
impl Spec for E1009 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1009::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1009::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1009::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1009::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1009::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1009::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1017  { Mid(Tri, Two, Tri), Zed { m: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E1017 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1017::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1017::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1017::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1017::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1017::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1017::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1025  { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha { m: Tri } }
impl Spec for E1025 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1025::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1025::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1025::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1025::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1025::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1025::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1033  { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha(bool) }
impl Spec for E1033 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1033::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1033::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1033::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1033::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1033::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1033::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1041  { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha(Option<bool>) }
impl Spec for E1041 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1041::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1041::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1041::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1041::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1041::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1041::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1049  { Mid(Tri, Two, Tri), Zed(()), Alpha(Tri, Two, Tri) }
impl Spec for E1049 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1049::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1049::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1049::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1049::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1049::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1049::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1057  { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }
impl Spec for E1057 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1057::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1057::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1057::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1057::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1057::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1057::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1065  { Mid(Tri, Two, Tri), Zed { m: Never, z: bool }, Alpha { m: Tri } }
impl Spec for E1065 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1065::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1065::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1065::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1065::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1065::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1065::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1073  { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha(bool) }
impl Spec for E1073 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1073::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1073::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1073::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1073::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1073::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1073::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1081  { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha(Option<bool>) }
impl Spec for E1081 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1081::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1081::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1081::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1081::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1081::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1081::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1089  { Mid { m: Never, z: bool }, Zed, Alpha(Tri, Two, Tri) }
impl Spec for E1089 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1089::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1089::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1089::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1089::Zed => 0u128,
            E1089::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1089::Alpha(f0, f1, f2) => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1097  { Mid { m: Never, z: bool }, Zed(bool), Alpha { m: bool, z: Tri } }
impl Spec for E1097 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1097::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1097::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1097::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1097::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1097::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1097::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1105  { Mid { m: Never, z: bool }, Zed(Never), Alpha { m: Tri } }
impl Spec for E1105 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1105::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1105::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1105::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1105::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1105::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1105::Alpha { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1113  { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha(bool) }
impl Spec for E1113 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1113::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1113::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1113::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1113::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1113::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1113::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1121  { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha(Option<bool>) }
impl Spec for E1121 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1121::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1121::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1121::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1121::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1121::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1121::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1129  { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha(Tri, Two, Tri) }
impl Spec for E1129 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1129::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1129::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1129::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1129::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1129::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1129::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1137  { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E1137 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1137::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1137::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1137::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1137::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1137::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1137::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1145  { Mid { m: Never, z: bool }, Zed(()), Alpha { m: Tri } }
impl Spec for E1145 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1145::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1145::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1145::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1145::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1145::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1145::Alpha { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1153  { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha(bool) }
impl Spec for E1153 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1153::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1153::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1153::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1153::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1153::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1153::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1161  { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha(Option<bool>) }
impl Spec for E1161 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1161::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1161::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1161::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1161::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1161::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1161::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1169  { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }
impl Spec for E1169 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1169::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1169::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1169::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1169::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1169::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1169::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1177  { Mid { m: Never, z: bool }, Zed(Option<bool>), Alpha { m: bool, z: Tri } }
impl Spec for E1177 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1177::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1177::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1177::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1177::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1177::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1177::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1185  { Mid(Option<bool>), Zed, Alpha { m: Tri } }
impl Spec for E1185 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1185::Zed; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1185::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1185::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1185::Zed => 0u128,
            E1185::Mid(f0) => 1u128 + f0.index(),
            E1185::Alpha { m: f0 } => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1193  { Mid(Option<bool>), Zed(bool), Alpha(bool) }
impl Spec for E1193 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1193::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1193::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1193::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1193::Mid(f0) => 0u128 + f0.index(),
            E1193::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1193::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1201  { Mid(Option<bool>), Zed(bool), Alpha(Option<bool>) }
impl Spec for E1201 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1201::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1201::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1201::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1201::Mid(f0) => 0u128 + f0.index(),
            E1201::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1201::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1209  { Mid(Option<bool>), Zed(Never), Alpha(Tri, Two, Tri) }
impl Spec for E1209 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1209::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1209::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1209::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1209::Mid(f0) => 0u128 + f0.index(),
            E1209::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1209::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1217  { Mid(Option<bool>), Zed { m: Tri }, Alpha { m: bool, z: Tri } }
impl Spec for E1217 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1217::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1217::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1217::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1217::Mid(f0) => 0u128 + f0.index(),
            E1217::Zed { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1217::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1225  { Mid(Option<bool>), Zed(Tri, bool), Alpha { m: Tri } }
impl Spec for E1225 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1225::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1225::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1225::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1225::Mid(f0) => 0u128 + f0.index(),
            E1225::Zed(f0, f1) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1225::Alpha { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1233  { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha(bool) }
impl Spec for E1233 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1233::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1233::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1233::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1233::Mid(f0) => 0u128 + f0.index(),
            E1233::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1233::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1241  { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha(Option<bool>) }
impl Spec for E1241 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1241::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1241::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1241::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1241::Mid(f0) => 0u128 + f0.index(),
            E1241::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1241::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1249  { Mid(Option<bool>), Zed(()), Alpha(Tri, Two, Tri) }
impl Spec for E1249 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1249::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1249::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1249::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1249::Mid(f0) => 0u128 + f0.index(),
            E1249::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1249::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1257  { Mid(Option<bool>), Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }
impl Spec for E1257 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1257::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1257::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1257::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1257::Mid(f0) => 0u128 + f0.index(),
            E1257::Zed(f0, f1, f2) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1257::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1265  { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha { m: Tri } }
impl Spec for E1265 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1265::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1265::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1265::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1265::Mid(f0) => 0u128 + f0.index(),
            E1265::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1265::Alpha { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1273  { Mid(Option<bool>), Zed(Option<bool>), Alpha(bool) }
impl Spec for E1273 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1273::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1273::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1273::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1273::Mid(f0) => 0u128 + f0.index(),
            E1273::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1273::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1281  { Mid(Option<bool>), Zed(Option<bool>), Alpha(Option<bool>) }
impl Spec for E1281 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1281::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1281::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1281::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1281::Mid(f0) => 0u128 + f0.index(),
            E1281::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1281::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1289  { Mid, Zed, Alpha(Tri), Quux(Never) }
impl Spec for E1289 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1289::Mid; } i -= 1;
        if i == 0 { return E1289::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1289::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1289::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1289::Mid => 0u128,
            E1289::Zed => 1u128,
            E1289::Alpha(f0) => 2u128 + f0.index(),
            E1289::Quux(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1297  { Mid, Zed, Alpha(Never), Quux(Tri) }
impl Spec for E1297 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1297::Mid; } i -= 1;
        if i == 0 { return E1297::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1297::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1297::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1297::Mid => 0u128,
            E1297::Zed => 1u128,
            E1297::Alpha(f0) => 2u128 + f0.index(),
            E1297::Quux(f0) => 2u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1305  { Mid, Zed, Alpha(Two), Quux(Two) }
impl Spec for E1305 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1305::Mid; } i -= 1;
        if i == 0 { return E1305::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1305::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1305::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1305::Mid => 0u128,
            E1305::Zed => 1u128,
            E1305::Alpha(f0) => 2u128 + f0.index(),
            E1305::Quux(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1313  { Mid, Zed(Tri), Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1313 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1313::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1313::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1313::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1313::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1313::Mid => 0u128,
            E1313::Zed(f0) => 1u128 + f0.index(),
            E1313::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1313::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1321  { Mid, Zed(Tri), Alpha(Never), Quux }
impl Spec for E1321 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1321::Mid; } i -= 1;
        if i == 0 { return E1321::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1321::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1321::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1321::Mid => 0u128,
            E1321::Quux => 1u128,
            E1321::Zed(f0) => 2u128 + f0.index(),
            E1321::Alpha(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1329  { Mid, Zed(Tri), Alpha(Two), Quux(Never) }
impl Spec for E1329 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1329::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1329::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1329::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1329::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1329::Mid => 0u128,
            E1329::Zed(f0) => 1u128 + f0.index(),
            E1329::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1329::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1337  { Mid, Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Tri) }
impl Spec for E1337 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1337::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1337::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1337::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1337::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1337::Mid => 0u128,
            E1337::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1337::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1337::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1345  { Mid, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1345 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1345::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1345::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1345::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1345::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1345::Mid => 0u128,
            E1345::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1345::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1345::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1353  { Mid, Zed { m: bool, z: Tri }, Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1353 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1353::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1353::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1353::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1353::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1353::Mid => 0u128,
            E1353::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1353::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1353::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1361  { Mid, Zed(Never), Alpha(Tri), Quux }
impl Spec for E1361 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1361::Mid; } i -= 1;
        if i == 0 { return E1361::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1361::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1361::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1361::Mid => 0u128,
            E1361::Quux => 1u128,
            E1361::Zed(f0) => 2u128 + f0.index(),
            E1361::Alpha(f0) => 2u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1369  { Mid, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1369 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1369::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1369::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1369::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1369::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1369::Mid => 0u128,
            E1369::Zed(f0) => 1u128 + f0.index(),
            E1369::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1369::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1377  { Mid, Zed(Never), Alpha(Two), Quux(Tri) }
impl Spec for E1377 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1377::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1377::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1377::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1377::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1377::Mid => 0u128,
            E1377::Zed(f0) => 1u128 + f0.index(),
            E1377::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1377::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1385  { Mid, Zed(Two), Alpha, Quux(Two) }
impl Spec for E1385 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1385::Mid; } i -= 1;
        if i == 0 { return E1385::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1385::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1385::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1385::Mid => 0u128,
            E1385::Alpha => 1u128,
            E1385::Zed(f0) => 2u128 + f0.index(),
            E1385::Quux(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1393  { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1393 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1393::Mid; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1393::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1393::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1393::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1393::Mid => 0u128,
            E1393::Zed(f0) => 1u128 + f0.index(),
            E1393::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1393::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1401  { Mid, Zed(Two), Alpha(Two), Quux }
impl Spec for E1401 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1401::Mid; } i -= 1;
        if i == 0 { return E1401::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1401::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1401::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1401::Mid => 0u128,
            E1401::Quux => 1u128,
            E1401::Zed(f0) => 2u128 + f0.index(),
            E1401::Alpha(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1409  { Mid(Tri), Zed, Alpha, Quux(Never) }
impl Spec for E1409 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1409::Zed; } i -= 1;
        if i == 0 { return E1409::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1409::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1409::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1409::Zed => 0u128,
            E1409::Alpha => 1u128,
            E1409::Mid(f0) => 2u128 + f0.index(),
            E1409::Quux(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1417  { Mid(Tri), Zed, Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1417 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1417::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1417::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1417::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1417::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1417::Zed => 0u128,
            E1417::Mid(f0) => 1u128 + f0.index(),
            E1417::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1417::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1425  { Mid(Tri), Zed, Alpha(Never), Quux(Two) }
impl Spec for E1425 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1425::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1425::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1425::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1425::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1425::Zed => 0u128,
            E1425::Mid(f0) => 1u128 + f0.index(),
            E1425::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1425::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1433  { Mid(Tri), Zed(Tri), Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1433 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1433::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1433::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1433::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1433::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1433::Alpha => 0u128,
            E1433::Mid(f0) => 1u128 + f0.index(),
            E1433::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1433::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1441  { Mid(Tri), Zed(Tri), Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1441 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1441::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1441::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1441::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1441::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1441::Quux => 0u128,
            E1441::Mid(f0) => 1u128 + f0.index(),
            E1441::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1441::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1449  { Mid(Tri), Zed(Tri), Alpha(Never), Quux(Never) }
impl Spec for E1449 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1449::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1449::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1449::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1449::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1449::Mid(f0) => 0u128 + f0.index(),
            E1449::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1449::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1449::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1457  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux(Tri) }
impl Spec for E1457 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1457::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1457::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1457::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1457::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1457::Alpha => 0u128,
            E1457::Mid(f0) => 1u128 + f0.index(),
            E1457::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1457::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1465  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Two) }
impl Spec for E1465 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1465::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1465::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1465::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1465::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1465::Mid(f0) => 0u128 + f0.index(),
            E1465::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1465::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1465::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1473  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1473 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1473::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1473::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1473::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1473::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1473::Mid(f0) => 0u128 + f0.index(),
            E1473::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1473::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1473::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1481  { Mid(Tri), Zed(Never), Alpha, Quux }
impl Spec for E1481 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1481::Alpha; } i -= 1;
        if i == 0 { return E1481::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1481::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1481::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1481::Alpha => 0u128,
            E1481::Quux => 1u128,
            E1481::Mid(f0) => 2u128 + f0.index(),
            E1481::Zed(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1489  { Mid(Tri), Zed(Never), Alpha(Tri), Quux(Never) }
impl Spec for E1489 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1489::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1489::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1489::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1489::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1489::Mid(f0) => 0u128 + f0.index(),
            E1489::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1489::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1489::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1497  { Mid(Tri), Zed(Never), Alpha(Never), Quux(Tri) }
impl Spec for E1497 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1497::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1497::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1497::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1497::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1497::Mid(f0) => 0u128 + f0.index(),
            E1497::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1497::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1497::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1505  { Mid(Tri), Zed(Never), Alpha(Two), Quux(Two) }
impl Spec for E1505 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1505::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1505::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1505::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1505::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1505::Mid(f0) => 0u128 + f0.index(),
            E1505::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1505::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1505::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1513  { Mid(Tri), Zed(Two), Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1513 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1513::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1513::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1513::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1513::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1513::Mid(f0) => 0u128 + f0.index(),
            E1513::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1513::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1513::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1521  { Mid(Tri), Zed(Two), Alpha(Never), Quux }
impl Spec for E1521 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1521::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1521::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1521::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1521::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1521::Quux => 0u128,
            E1521::Mid(f0) => 1u128 + f0.index(),
            E1521::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1521::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1529  { Mid(Tri), Zed(Two), Alpha(Two), Quux(Never) }
impl Spec for E1529 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1529::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1529::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1529::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1529::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1529::Mid(f0) => 0u128 + f0.index(),
            E1529::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1529::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1529::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1537  { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux(Tri) }
impl Spec for E1537 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1537::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1537::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1537::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1537::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1537::Zed => 0u128,
            E1537::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1537::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1537::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1545  { Mid { m: bool, z: Tri }, Zed, Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1545 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1545::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1545::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1545::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1545::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1545::Zed => 0u128,
            E1545::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1545::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1545::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1553  { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1553 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1553::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1553::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1553::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1553::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1553::Zed => 0u128,
            E1553::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1553::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1553::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1561  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Tri), Quux }
impl Spec for E1561 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1561::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1561::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1561::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1561::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1561::Quux => 0u128,
            E1561::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1561::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1561::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1569  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1569 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1569::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1569::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1569::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1569::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1569::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1569::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1569::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1569::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1577  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Two), Quux(Tri) }
impl Spec for E1577 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1577::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1577::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1577::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1577::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1577::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1577::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1577::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1577::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1585  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha, Quux(Two) }
impl Spec for E1585 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1585::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1585::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1585::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1585::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1585::Alpha => 0u128,
            E1585::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1585::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1585::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1593  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1593 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1593::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1593::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1593::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1593::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1593::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1593::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1593::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1593::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1601  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Two), Quux }
impl Spec for E1601 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1601::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1601::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1601::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1601::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1601::Quux => 0u128,
            E1601::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1601::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1601::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1609  { Mid { m: bool, z: Tri }, Zed(Never), Alpha, Quux(Never) }
impl Spec for E1609 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1609::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1609::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1609::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1609::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1609::Alpha => 0u128,
            E1609::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1609::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1609::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1617  { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1617 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1617::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1617::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1617::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1617::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1617::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1617::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1617::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1617::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1625  { Mid { m: bool, z: Tri }, Zed(Never), Alpha(Never), Quux(Two) }
impl Spec for E1625 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1625::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1625::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1625::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1625::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1625::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1625::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1625::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1625::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1633  { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1633 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1633::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1633::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1633::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1633::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1633::Alpha => 0u128,
            E1633::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1633::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1633::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1641  { Mid { m: bool, z: Tri }, Zed(Two), Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1641 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1641::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1641::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1641::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1641::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1641::Quux => 0u128,
            E1641::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1641::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1641::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1649  { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Never), Quux(Never) }
impl Spec for E1649 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1649::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1649::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1649::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1649::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1649::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1649::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1649::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1649::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1657  { Mid(Never), Zed, Alpha, Quux(Tri) }
impl Spec for E1657 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1657::Zed; } i -= 1;
        if i == 0 { return E1657::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1657::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1657::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1657::Zed => 0u128,
            E1657::Alpha => 1u128,
            E1657::Mid(f0) => 2u128 + f0.index(),
            E1657::Quux(f0) => 2u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1665  { Mid(Never), Zed, Alpha(Tri), Quux(Two) }
impl Spec for E1665 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1665::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1665::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1665::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1665::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1665::Zed => 0u128,
            E1665::Mid(f0) => 1u128 + f0.index(),
            E1665::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1665::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1673  { Mid(Never), Zed, Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1673 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1673::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1673::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1673::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1673::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1673::Zed => 0u128,
            E1673::Mid(f0) => 1u128 + f0.index(),
            E1673::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1673::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1681  { Mid(Never), Zed(Tri), Alpha, Quux }
impl Spec for E1681 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1681::Alpha; } i -= 1;
        if i == 0 { return E1681::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1681::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1681::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1681::Alpha => 0u128,
            E1681::Quux => 1u128,
            E1681::Mid(f0) => 2u128 + f0.index(),
            E1681::Zed(f0) => 2u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1689  { Mid(Never), Zed(Tri), Alpha(Tri), Quux(Never) }
impl Spec for E1689 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1689::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1689::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1689::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1689::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1689::Mid(f0) => 0u128 + f0.index(),
            E1689::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1689::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1689::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1697  { Mid(Never), Zed(Tri), Alpha(Never), Quux(Tri) }
impl Spec for E1697 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1697::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1697::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1697::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1697::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1697::Mid(f0) => 0u128 + f0.index(),
            E1697::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1697::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1697::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1705  { Mid(Never), Zed(Tri), Alpha(Two), Quux(Two) }
impl Spec for E1705 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1705::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1705::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1705::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1705::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1705::Mid(f0) => 0u128 + f0.index(),
            E1705::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1705::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1705::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1713  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1713 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1713::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1713::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1713::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1713::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1713::Mid(f0) => 0u128 + f0.index(),
            E1713::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1713::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1713::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1721  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Never), Quux }
impl Spec for E1721 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1721::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1721::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1721::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1721::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1721::Quux => 0u128,
            E1721::Mid(f0) => 1u128 + f0.index(),
            E1721::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1721::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1729  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Two), Quux(Never) }
impl Spec for E1729 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1729::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1729::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1729::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1729::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1729::Mid(f0) => 0u128 + f0.index(),
            E1729::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1729::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1729::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1737  { Mid(Never), Zed(Never), Alpha(Tri), Quux(Tri) }
impl Spec for E1737 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1737::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1737::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1737::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1737::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1737::Mid(f0) => 0u128 + f0.index(),
            E1737::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1737::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1737::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1745  { Mid(Never), Zed(Never), Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1745 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1745::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1745::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1745::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1745::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1745::Mid(f0) => 0u128 + f0.index(),
            E1745::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1745::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1745::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1753  { Mid(Never), Zed(Never), Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1753 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1753::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1753::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1753::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1753::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1753::Mid(f0) => 0u128 + f0.index(),
            E1753::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1753::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1753::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1761  { Mid(Never), Zed(Two), Alpha(Tri), Quux }
impl Spec for E1761 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1761::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1761::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1761::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1761::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1761::Quux => 0u128,
            E1761::Mid(f0) => 1u128 + f0.index(),
            E1761::Zed(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1761::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1769  { Mid(Never), Zed(Two), Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1769 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1769::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1769::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1769::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1769::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1769::Mid(f0) => 0u128 + f0.index(),
            E1769::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1769::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1769::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1777  { Mid(Never), Zed(Two), Alpha(Two), Quux(Tri) }
impl Spec for E1777 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1777::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1777::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1777::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1777::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1777::Mid(f0) => 0u128 + f0.index(),
            E1777::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1777::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1777::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1785  { Mid(Two), Zed, Alpha, Quux(Two) }
impl Spec for E1785 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1785::Zed; } i -= 1;
        if i == 0 { return E1785::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1785::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1785::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1785::Zed => 0u128,
            E1785::Alpha => 1u128,
            E1785::Mid(f0) => 2u128 + f0.index(),
            E1785::Quux(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1793  { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1793 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1793::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1793::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1793::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1793::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1793::Zed => 0u128,
            E1793::Mid(f0) => 1u128 + f0.index(),
            E1793::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1793::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1801  { Mid(Two), Zed, Alpha(Two), Quux }
impl Spec for E1801 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1801::Zed; } i -= 1;
        if i == 0 { return E1801::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1801::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1801::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1801::Zed => 0u128,
            E1801::Quux => 1u128,
            E1801::Mid(f0) => 2u128 + f0.index(),
            E1801::Alpha(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1809  { Mid(Two), Zed(Tri), Alpha, Quux(Never) }
impl Spec for E1809 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1809::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1809::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1809::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1809::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1809::Alpha => 0u128,
            E1809::Mid(f0) => 1u128 + f0.index(),
            E1809::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1809::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1817  { Mid(Two), Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1817 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1817::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1817::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1817::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1817::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1817::Mid(f0) => 0u128 + f0.index(),
            E1817::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1817::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1817::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1825  { Mid(Two), Zed(Tri), Alpha(Never), Quux(Two) }
impl Spec for E1825 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1825::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1825::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1825::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1825::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1825::Mid(f0) => 0u128 + f0.index(),
            E1825::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1825::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1825::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1833  { Mid(Two), Zed { m: bool, z: Tri }, Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1833 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1833::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1833::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1833::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1833::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1833::Alpha => 0u128,
            E1833::Mid(f0) => 1u128 + f0.index(),
            E1833::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1833::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1841  { Mid(Two), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1841 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1841::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1841::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1841::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1841::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1841::Quux => 0u128,
            E1841::Mid(f0) => 1u128 + f0.index(),
            E1841::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1841::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1849  { Mid(Two), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Never) }
impl Spec for E1849 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1849::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1849::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1849::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1849::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1849::Mid(f0) => 0u128 + f0.index(),
            E1849::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1849::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1849::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1857  { Mid(Two), Zed(Never), Alpha, Quux(Tri) }
impl Spec for E1857 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1857::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1857::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1857::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1857::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1857::Alpha => 0u128,
            E1857::Mid(f0) => 1u128 + f0.index(),
            E1857::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1857::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1865  { Mid(Two), Zed(Never), Alpha(Tri), Quux(Two) }
impl Spec for E1865 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1865::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1865::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1865::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1865::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1865::Mid(f0) => 0u128 + f0.index(),
            E1865::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1865::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1865::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1873  { Mid(Two), Zed(Never), Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1873 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1873::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1873::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1873::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1873::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1873::Mid(f0) => 0u128 + f0.index(),
            E1873::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1873::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1873::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1881  { Mid(Two), Zed(Two), Alpha, Quux }
impl Spec for E1881 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1881::Alpha; } i -= 1;
        if i == 0 { return E1881::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1881::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1881::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1881::Alpha => 0u128,
            E1881::Quux => 1u128,
            E1881::Mid(f0) => 2u128 + f0.index(),
            E1881::Zed(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1889  { Mid(Two), Zed(Two), Alpha(Tri), Quux(Never) }
impl Spec for E1889 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1889::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1889::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1889::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1889::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1889::Mid(f0) => 0u128 + f0.index(),
            E1889::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1889::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1889::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1897  { Mid(Two), Zed(Two), Alpha(Never), Quux(Tri) }
impl Spec for E1897 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1897::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1897::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1897::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1897::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1897::Mid(f0) => 0u128 + f0.index(),
            E1897::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1897::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1897::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1905  { Mid(Two), Zed(Two), Alpha(Two), Quux(Two) }
impl Spec for E1905 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1905::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1905::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1905::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1905::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1905::Mid(f0) => 0u128 + f0.index(),
            E1905::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1905::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1905::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1913  { Mid, Zed(bool, Tri), Alpha, Quux, Beta }
impl Spec for E1913 {
    fn count() -> u128 { 4u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1913::Mid; } i -= 1;
        if i == 0 { return E1913::Alpha; } i -= 1;
        if i == 0 { return E1913::Quux; } i -= 1;
        if i == 0 { return E1913::Beta; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1913::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1913::Mid => 0u128,
            E1913::Alpha => 1u128,
            E1913::Quux => 2u128,
            E1913::Beta => 3u128,
            E1913::Zed(f0, f1) => 4u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1921  { Mid(bool, Tri), Zed, Alpha, Quux, Beta }
impl Spec for E1921 {
    fn count() -> u128 { 4u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1921::Zed; } i -= 1;
        if i == 0 { return E1921::Alpha; } i -= 1;
        if i == 0 { return E1921::Quux; } i -= 1;
        if i == 0 { return E1921::Beta; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1921::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1921::Zed => 0u128,
            E1921::Alpha => 1u128,
            E1921::Quux => 2u128,
            E1921::Beta => 3u128,
            E1921::Mid(f0, f1) => 4u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1929  { Mid(bool, Tri), Zed(bool, Tri), Alpha, Quux, Beta }
impl Spec for E1929 {
    fn count() -> u128 { 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1929::Alpha; } i -= 1;
        if i == 0 { return E1929::Quux; } i -= 1;
        if i == 0 { return E1929::Beta; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1929::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1929::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1929::Alpha => 0u128,
            E1929::Quux => 1u128,
            E1929::Beta => 2u128,
            E1929::Mid(f0, f1) => 3u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1929::Zed(f0, f1) => 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1937  { Mid, Zed, Alpha, Quux, Beta, Yard { m: Two } }
impl Spec for E1937 {
    fn count() -> u128 { 5u128 + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1937::Mid; } i -= 1;
        if i == 0 { return E1937::Zed; } i -= 1;
        if i == 0 { return E1937::Alpha; } i -= 1;
        if i == 0 { return E1937::Quux; } i -= 1;
        if i == 0 { return E1937::Beta; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1937::Yard { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1937::Mid => 0u128,
            E1937::Zed => 1u128,
            E1937::Alpha => 2u128,
            E1937::Quux => 3u128,
            E1937::Beta => 4u128,
            E1937::Yard { m: f0 } => 5u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1945  { Mid, Zed { m: Two }, Alpha, Quux, Beta, Yard }
impl Spec for E1945 {
    fn count() -> u128 { 5u128 + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1945::Mid; } i -= 1;
        if i == 0 { return E1945::Alpha; } i -= 1;
        if i == 0 { return E1945::Quux; } i -= 1;
        if i == 0 { return E1945::Beta; } i -= 1;
        if i == 0 { return E1945::Yard; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1945::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1945::Mid => 0u128,
            E1945::Alpha => 1u128,
            E1945::Quux => 2u128,
            E1945::Beta => 3u128,
            E1945::Yard => 4u128,
            E1945::Zed { m: f0 } => 5u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1953  { Mid { m: Two }, Zed, Alpha, Quux, Beta, Yard }
impl Spec for E1953 {
    fn count() -> u128 { 5u128 + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1953::Zed; } i -= 1;
        if i == 0 { return E1953::Alpha; } i -= 1;
        if i == 0 { return E1953::Quux; } i -= 1;
        if i == 0 { return E1953::Beta; } i -= 1;
        if i == 0 { return E1953::Yard; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1953::Mid { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1953::Zed => 0u128,
            E1953::Alpha => 1u128,
            E1953::Quux => 2u128,
            E1953::Beta => 3u128,
            E1953::Yard => 4u128,
            E1953::Mid { m: f0 } => 5u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1961  { Mid { m: Two }, Zed { m: Two }, Alpha, Quux, Beta, Yard { m: Two } }
impl Spec for E1961 {
    fn count() -> u128 { 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1961::Alpha; } i -= 1;
        if i == 0 { return E1961::Quux; } i -= 1;
        if i == 0 { return E1961::Beta; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1961::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1961::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1961::Yard { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1961::Alpha => 0u128,
            E1961::Quux => 1u128,
            E1961::Beta => 2u128,
            E1961::Mid { m: f0 } => 3u128 + f0.index(),
            E1961::Zed { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1961::Yard { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1969  { Mid { m: Two }, Zed { m: Two }, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard { m: Two } }
impl Spec for E1969 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1969::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1969::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1969::Alpha { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1969::Quux { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1969::Beta { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1969::Yard { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1969::Mid { m: f0 } => 0u128 + f0.index(),
            E1969::Zed { m: f0 } => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1969::Alpha { m: f0 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1969::Quux { m: f0 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1969::Beta { m: f0 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1969::Yard { m: f0 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1977  { Mid(), Zed {  }, Alpha, Quux }
impl Spec for E1977 {
    fn count() -> u128 { 4u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1977::Mid(); } i -= 1;
        if i == 0 { return E1977::Zed {  }; } i -= 1;
        if i == 0 { return E1977::Alpha; } i -= 1;
        if i == 0 { return E1977::Quux; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1977::Mid() => 0u128,
            E1977::Zed {  } => 1u128,
            E1977::Alpha => 2u128,
            E1977::Quux => 3u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1985  { Mid, Zed {  } }
impl Spec for E1985 {
    fn count() -> u128 { 2u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1985::Mid; } i -= 1;
        if i == 0 { return E1985::Zed {  }; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1985::Mid => 0u128,
            E1985::Zed {  } => 1u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1993  { Mid, Zed { m: Option<bool>, z: Tri }, Alpha(Tri, Option<bool>), Quux }
impl Spec for E1993 {
    fn count() -> u128 { 2u128 + 1u128 * <Option<bool> as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1993::Mid; } i -= 1;
        if i == 0 { return E1993::Quux; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); let f1 = pick::<Tri>(&mut r); return E1993::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Option<bool>>(&mut r); return E1993::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1993::Mid => 0u128,
            E1993::Quux => 1u128,
            E1993::Zed { m: f0, z: f1 } => 2u128 + f0.index() + <Option<bool> as Spec>::count() * f1.index(),
            E1993::Alpha(f0, f1) => 2u128 + 1u128 * <Option<bool> as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2001  { Mid, Zed { m: Result<Tri,bool>, z: Tri }, Alpha(Tri, Result<Tri,bool>), Quux }
impl Spec for E2001 {
    fn count() -> u128 { 2u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Result<Tri,bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2001::Mid; } i -= 1;
        if i == 0 { return E2001::Quux; } i -= 1;
        let c = 1u128 * <Result<Tri,bool> as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); let f1 = pick::<Tri>(&mut r); return E2001::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Result<Tri,bool>>(&mut r); return E2001::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2001::Mid => 0u128,
            E2001::Quux => 1u128,
            E2001::Zed { m: f0, z: f1 } => 2u128 + f0.index() + <Result<Tri,bool> as Spec>::count() * f1.index(),
            E2001::Alpha(f0, f1) => 2u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2009  { Mid, Zed { m: (Never,bool), z: Tri }, Alpha(Tri, (Never,bool)), Quux }
impl Spec for E2009 {
    fn count() -> u128 { 2u128 + 1u128 * <(Never,bool) as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <(Never,bool) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2009::Mid; } i -= 1;
        if i == 0 { return E2009::Quux; } i -= 1;
        let c = 1u128 * <(Never,bool) as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(Never,bool)>(&mut r); let f1 = pick::<Tri>(&mut r); return E2009::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <(Never,bool) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<(Never,bool)>(&mut r); return E2009::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2009::Mid => 0u128,
            E2009::Quux => 1u128,
            E2009::Zed { m: f0, z: f1 } => 2u128 + f0.index() + <(Never,bool) as Spec>::count() * f1.index(),
            E2009::Alpha(f0, f1) => 2u128 + 1u128 * <(Never,bool) as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2017  { Mid([bool;2], Option<bool>), Zed { m: Option<bool> } }
impl Spec for E2017 {
    fn count() -> u128 { 0u128 + 1u128 * <[bool;2] as Spec>::count() * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[bool;2] as Spec>::count() * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); let f1 = pick::<Option<bool>>(&mut r); return E2017::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E2017::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2017::Mid(f0, f1) => 0u128 + f0.index() + <[bool;2] as Spec>::count() * f1.index(),
            E2017::Zed { m: f0 } => 0u128 + 1u128 * <[bool;2] as Spec>::count() * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2025  { Mid((bool,Tri), [bool;2]), Zed { m: [bool;2] } }
impl Spec for E2025 {
    fn count() -> u128 { 0u128 + 1u128 * <(bool,Tri) as Spec>::count() * <[bool;2] as Spec>::count() + 1u128 * <[bool;2] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <(bool,Tri) as Spec>::count() * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(bool,Tri)>(&mut r); let f1 = pick::<[bool;2]>(&mut r); return E2025::Mid(f0, f1); } i -= c;
        let c = 1u128 * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); return E2025::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2025::Mid(f0, f1) => 0u128 + f0.index() + <(bool,Tri) as Spec>::count() * f1.index(),
            E2025::Zed { m: f0 } => 0u128 + 1u128 * <(bool,Tri) as Spec>::count() * <[bool;2] as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2033  { Mid(Option<Never>, (bool,Tri)), Zed { m: (bool,Tri) } }
impl Spec for E2033 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<Never> as Spec>::count() * <(bool,Tri) as Spec>::count() + 1u128 * <(bool,Tri) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<Never> as Spec>::count() * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<Never>>(&mut r); let f1 = pick::<(bool,Tri)>(&mut r); return E2033::Mid(f0, f1); } i -= c;
        let c = 1u128 * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(bool,Tri)>(&mut r); return E2033::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2033::Mid(f0, f1) => 0u128 + f0.index() + <Option<Never> as Spec>::count() * f1.index(),
            E2033::Zed { m: f0 } => 0u128 + 1u128 * <Option<Never> as Spec>::count() * <(bool,Tri) as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2041  { Mid(Result<Tri,bool>, Option<Never>), Zed { m: Option<Never> } }
impl Spec for E2041 {
    fn count() -> u128 { 0u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <Option<Never> as Spec>::count() + 1u128 * <Option<Never> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Result<Tri,bool> as Spec>::count() * <Option<Never> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); let f1 = pick::<Option<Never>>(&mut r); return E2041::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<Never> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<Never>>(&mut r); return E2041::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2041::Mid(f0, f1) => 0u128 + f0.index() + <Result<Tri,bool> as Spec>::count() * f1.index(),
            E2041::Zed { m: f0 } => 0u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <Option<Never> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2049  { Mid([Tri;0], Result<Tri,bool>), Zed { m: Result<Tri,bool> } }
impl Spec for E2049 {
    fn count() -> u128 { 0u128 + 1u128 * <[Tri;0] as Spec>::count() * <Result<Tri,bool> as Spec>::count() + 1u128 * <Result<Tri,bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[Tri;0] as Spec>::count() * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Tri;0]>(&mut r); let f1 = pick::<Result<Tri,bool>>(&mut r); return E2049::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); return E2049::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2049::Mid(f0, f1) => 0u128 + f0.index() + <[Tri;0] as Spec>::count() * f1.index(),
            E2049::Zed { m: f0 } => 0u128 + 1u128 * <[Tri;0] as Spec>::count() * <Result<Tri,bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2057  { Mid(D17, [Tri;0]), Zed { m: [Tri;0] } }
impl Spec for E2057 {
    fn count() -> u128 { 0u128 + 1u128 * <D17 as Spec>::count() * <[Tri;0] as Spec>::count() + 1u128 * <[Tri;0] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <D17 as Spec>::count() * <[Tri;0] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<D17>(&mut r); let f1 = pick::<[Tri;0]>(&mut r); return E2057::Mid(f0, f1); } i -= c;
        let c = 1u128 * <[Tri;0] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Tri;0]>(&mut r); return E2057::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2057::Mid(f0, f1) => 0u128 + f0.index() + <D17 as Spec>::count() * f1.index(),
            E2057::Zed { m: f0 } => 0u128 + 1u128 * <D17 as Spec>::count() * <[Tri;0] as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2065   { m: bool }
impl Spec for S2065 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return S2065 { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2065 { m: f0 } => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2073   { m: (), z: () }
impl Spec for S2073 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); return S2073 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2073 { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2081   { m: (), z: Five }
impl Spec for S2081 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Five>(&mut r); return S2081 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2081 { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2089   { m: bool, z: Tri }
impl Spec for S2089 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return S2089 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2089 { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2097   { m: Never, z: Never }
impl Spec for S2097 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); return S2097 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2097 { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2105   { m: Tri, z: bool }
impl Spec for S2105 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return S2105 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2105 { m: f0, z: f1 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2113   { m: Five, z: () }
impl Spec for S2113 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<()>(&mut r); return S2113 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2113 { m: f0, z: f1 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2121   { m: Five, z: Five }
impl Spec for S2121 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Five>(&mut r); return S2121 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2121 { m: f0, z: f1 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2129   { m: (), z: (), a: Tri }
impl Spec for S2129 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return S2129 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2129 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2137   { m: (), z: bool, a: Never }
impl Spec for S2137 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Never>(&mut r); return S2137 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2137 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2145   { m: (), z: Never, a: bool }
impl Spec for S2145 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return S2145 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2145 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2153   { m: (), z: Tri, a: () }
impl Spec for S2153 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return S2153 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2153 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2161   { m: (), z: Tri, a: Five }
impl Spec for S2161 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return S2161 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2161 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2169   { m: (), z: Five, a: Tri }
impl Spec for S2169 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Tri>(&mut r); return S2169 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2169 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2177   { m: bool, z: (), a: Never }
impl Spec for S2177 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Never>(&mut r); return S2177 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2177 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2185   { m: bool, z: bool, a: bool }
impl Spec for S2185 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); return S2185 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2185 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2193   { m: bool, z: Never, a: () }
impl Spec for S2193 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<()>(&mut r); return S2193 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2193 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2201   { m: bool, z: Never, a: Five }
impl Spec for S2201 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Five>(&mut r); return S2201 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2201 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2209   { m: bool, z: Tri, a: Tri }
impl Spec for S2209 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Tri>(&mut r); return S2209 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2209 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2217   { m: bool, z: Five, a: Never }
impl Spec for S2217 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Five as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Five as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Never>(&mut r); return S2217 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2217 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2225   { m: Never, z: (), a: bool }
impl Spec for S2225 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); return S2225 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2225 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2233   { m: Never, z: bool, a: () }
impl Spec for S2233 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); return S2233 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2233 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2241   { m: Never, z: bool, a: Five }
impl Spec for S2241 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Five>(&mut r); return S2241 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2241 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2249   { m: Never, z: Never, a: Tri }
impl Spec for S2249 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Tri>(&mut r); return S2249 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2249 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2257   { m: Never, z: Tri, a: Never }
impl Spec for S2257 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Never>(&mut r); return S2257 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2257 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2265   { m: Never, z: Five, a: bool }
impl Spec for S2265 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Five as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Five as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<bool>(&mut r); return S2265 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2265 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2273   { m: Tri, z: (), a: () }
impl Spec for S2273 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); return S2273 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2273 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2281   { m: Tri, z: (), a: Five }
impl Spec for S2281 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Five>(&mut r); return S2281 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2281 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2289   { m: Tri, z: bool, a: Tri }
impl Spec for S2289 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); return S2289 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2289 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2297   { m: Tri, z: Never, a: Never }
impl Spec for S2297 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return S2297 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2297 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2305   { m: Tri, z: Tri, a: bool }
impl Spec for S2305 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); return S2305 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2305 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2313   { m: Tri, z: Five, a: () }
impl Spec for S2313 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<()>(&mut r); return S2313 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2313 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2321   { m: Tri, z: Five, a: Five }
impl Spec for S2321 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Five>(&mut r); return S2321 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2321 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2329   { m: Five, z: (), a: Tri }
impl Spec for S2329 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return S2329 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2329 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2337   { m: Five, z: bool, a: Never }
impl Spec for S2337 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Never>(&mut r); return S2337 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2337 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2345   { m: Five, z: Never, a: bool }
impl Spec for S2345 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return S2345 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2345 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2353   { m: Five, z: Tri, a: () }
impl Spec for S2353 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return S2353 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2353 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2361   { m: Five, z: Tri, a: Five }
impl Spec for S2361 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return S2361 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2361 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2369   { m: Five, z: Five, a: Tri }
impl Spec for S2369 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Tri>(&mut r); return S2369 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2369 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2377   { m: bool, z: bool, a: bool, q: () }
impl Spec for S2377 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<()>(&mut r); return S2377 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2377 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2385   { m: bool, z: bool, a: (), q: bool }
impl Spec for S2385 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<bool>(&mut r); return S2385 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2385 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2393   { m: bool, z: Tri, a: bool, q: Tri }
impl Spec for S2393 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); return S2393 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2393 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2401   { m: bool, z: Tri, a: Tri, q: () }
impl Spec for S2401 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<()>(&mut r); return S2401 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2401 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2409   { m: bool, z: (), a: bool, q: bool }
impl Spec for S2409 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<bool>(&mut r); return S2409 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2409 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2417   { m: bool, z: (), a: Tri, q: Tri }
impl Spec for S2417 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<Tri>(&mut r); return S2417 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2417 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2425   { m: bool, z: (), a: (), q: () }
impl Spec for S2425 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<()>(&mut r); return S2425 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2425 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2433   { m: Tri, z: bool, a: Tri, q: bool }
impl Spec for S2433 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<bool>(&mut r); return S2433 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2433 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index() + <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2441   { m: Tri, z: bool, a: (), q: Tri }
impl Spec for S2441 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<Tri>(&mut r); return S2441 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2441 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index() + <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2449   { m: Tri, z: Tri, a: bool, q: () }
impl Spec for S2449 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<()>(&mut r); return S2449 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2449 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2457   { m: Tri, z: Tri, a: (), q: bool }
impl Spec for S2457 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<bool>(&mut r); return S2457 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2457 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2465   { m: Tri, z: (), a: bool, q: Tri }
impl Spec for S2465 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); return S2465 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2465 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2473   { m: Tri, z: (), a: Tri, q: () }
impl Spec for S2473 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<()>(&mut r); return S2473 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2473 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2481 ((), bool, bool, Tri) ;
impl Spec for S2481 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); return S2481(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2481(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <bool as Spec>::count() * f2.index() + <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2489 ((), Tri, bool, bool) ;
impl Spec for S2489 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<bool>(&mut r); return S2489(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2489(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index() + <() as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2497 ((), Tri, (), ()) ;
impl Spec for S2497 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<()>(&mut r); return S2497(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2497(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index() + <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2505 ((), (), (), Tri) ;
impl Spec for S2505 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<Tri>(&mut r); return S2505(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2505(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index() + <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2513 (bool, bool, bool, bool, bool, bool, bool, bool) ;
impl Spec for S2513 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<bool>(&mut r); let f4 = pick::<bool>(&mut r); let f5 = pick::<bool>(&mut r); let f6 = pick::<bool>(&mut r); let f7 = pick::<bool>(&mut r); return S2513(f0, f1, f2, f3, f4, f5, f6, f7); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2513(f0, f1, f2, f3, f4, f5, f6, f7) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f3.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f4.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f5.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f6.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f7.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2521 (Tri, (), Two, Tri, (), Two, Tri, (), Two, Tri, (), Two, Tri, (), Two, Tri) ;
impl Spec for S2521 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Two>(&mut r); let f3 = pick::<Tri>(&mut r); let f4 = pick::<()>(&mut r); let f5 = pick::<Two>(&mut r); let f6 = pick::<Tri>(&mut r); let f7 = pick::<()>(&mut r); let f8 = pick::<Two>(&mut r); let f9 = pick::<Tri>(&mut r); let f10 = pick::<()>(&mut r); let f11 = pick::<Two>(&mut r); let f12 = pick::<Tri>(&mut r); let f13 = pick::<()>(&mut r); let f14 = pick::<Two>(&mut r); let f15 = pick::<Tri>(&mut r); return S2521(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2521(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * f3.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * f4.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f5.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * f6.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * f7.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f8.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * f9.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * f10.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f11.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * f12.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * f13.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f14.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * f15.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2529   { m: [bool;2], z: Tri }
impl Spec for S2529 {
    fn count() -> u128 { 0u128 + 1u128 * <[bool;2] as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[bool;2] as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); let f1 = pick::<Tri>(&mut r); return S2529 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2529 { m: f0, z: f1 } => 0u128 + f0.index() + <[bool;2] as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2537 (Result<Tri,bool>) ;
impl Spec for S2537 {
    fn count() -> u128 { 0u128 + 1u128 * <Result<Tri,bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); return S2537(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2537(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2545 (Tri, D17, bool) ;
impl Spec for S2545 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <D17 as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <D17 as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<D17>(&mut r); let f2 = pick::<bool>(&mut r); return S2545(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2545(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <D17 as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2553   { m: N16, z: N16, a: N32 }
impl Spec for S2553 {
    fn count() -> u128 { 0u128 + 1u128 * <N16 as Spec>::count() * <N16 as Spec>::count() * <N32 as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <N16 as Spec>::count() * <N16 as Spec>::count() * <N32 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<N16>(&mut r); let f1 = pick::<N16>(&mut r); let f2 = pick::<N32>(&mut r); return S2553 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2553 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <N16 as Spec>::count() * f1.index() + <N16 as Spec>::count() * <N16 as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
/// Documented.
#[allow(dead_code)]
pub struct S2561   { x: bool, value: Tri, x0: Five }
impl Spec for S2561 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return S2561 { x: f0, value: f1, x0: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2561 { x: f0, value: f1, x0: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2569  { /// doc
    Mid, /// doc
    Zed { discr: bool, y: Tri, x: Five }, /// doc
    Alpha(Tri, bool), /// doc
    Quux { discr: Tri, y: Five } }
impl Spec for E2569 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2569::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return E2569::Zed { discr: f0, y: f1, x: f2 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E2569::Alpha(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Five>(&mut r); return E2569::Quux { discr: f0, y: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2569::Mid => 0u128,
            E2569::Zed { discr: f0, y: f1, x: f2 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
            E2569::Alpha(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E2569::Quux { discr: f0, y: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2577<A>  { Mid(A), Zed }
impl<A: Spec> Spec for E2577<A> {
    fn count() -> u128 { 1u128 + 1u128 * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2577::Zed; } i -= 1;
        let c = 1u128 * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); return E2577::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2577::Zed => 0u128,
            E2577::Mid(f0) => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2585<A>  { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }
impl<A: Spec> Spec for E2585<A> {
    fn count() -> u128 { 1u128 + 1u128 * <Option<A> as Spec>::count() + 1u128 * <(A,bool) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2585::Alpha; } i -= 1;
        let c = 1u128 * <Option<A> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<A>>(&mut r); return E2585::Mid(f0); } i -= c;
        let c = 1u128 * <(A,bool) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(A,bool)>(&mut r); return E2585::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2585::Alpha => 0u128,
            E2585::Mid(f0) => 1u128 + f0.index(),
            E2585::Zed { m: f0 } => 1u128 + 1u128 * <Option<A> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2593<A> (bool, A, A) ;
impl<A: Spec> Spec for S2593<A> {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <A as Spec>::count() * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <A as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<A>(&mut r); let f2 = pick::<A>(&mut r); return S2593(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2593(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <A as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2601<A, B> (A, B) ;
impl<A: Spec, B: Spec> Spec for S2601<A, B> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() * <B as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count() * <B as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<B>(&mut r); return S2601(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2601(f0, f1) => 0u128 + f0.index() + <A as Spec>::count() * f1.index(),
        }
    }
}
pub fn all(v: &mut Vec<(bool, Ty)>) {
    v.push((true, Ty::of::<E1>("E1: enum E1 { Mid }")));
    v.push((true, Ty::of::<E9>("E9: enum E9 { V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }")));
    v.push((true, Ty::of::<E17>("E17: enum E17 { Mid = 100, Zed }")));
    v.push((true, Ty::of::<E25>("E25: enum E25 { Mid = 255, Zed = 0, Alpha = 128 }")));
    v.push((true, Ty::of::<E33>("E33: enum E33 { Mid(Never) }")));
    v.push((true, Ty::of::<E41>("E41: enum E41 { Mid((), Never) }")));
    v.push((true, Ty::of::<E49>("E49: enum E49 { Mid(Never, Never) }")));
    v.push((true, Ty::of::<E57>("E57: enum E57 { Mid { m: (), z: Never } }")));
    v.push((true, Ty::of::<E65>("E65: enum E65 { Mid { m: Never, z: Never } }")));
    v.push((true, Ty::of::<E73>("E73: enum E73 { Mid((), (), Never) }")));
    v.push((true, Ty::of::<E81>("E81: enum E81 { Mid((), Never, Never) }")));
    v.push((true, Ty::of::<E89>("E89: enum E89 { Mid(bool, (), Never) }")));
    v.push((true, Ty::of::<E97>("E97: enum E97 { Mid(bool, Never, Never) }")));
    v.push((true, Ty::of::<E105>("E105: enum E105 { Mid(Never, (), Never) }")));
    v.push((true, Ty::of::<E113>("E113: enum E113 { Mid(Never, Never, Never) }")));
    v.push((true, Ty::of::<E121>("E121: enum E121 { Mid(Tri, (), Never) }")));
    v.push((true, Ty::of::<E129>("E129: enum E129 { Mid(Tri, Never, Never) }")));
    v.push((true, Ty::of::<E137>("E137: enum E137 { Mid { m: Two, z: One, a: Tri, q: bool } }")));
    v.push((true, Ty::of::<E145>("E145: enum E145 { Mid, Zed { m: Tri } }")));
    v.push((true, Ty::of::<E153>("E153: enum E153 { Mid(()), Zed(bool) }")));
    v.push((true, Ty::of::<E161>("E161: enum E161 { Mid(()), Zed(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E169>("E169: enum E169 { Mid(bool), Zed { m: Tri } }")));
    v.push((true, Ty::of::<E177>("E177: enum E177 { Mid(Never), Zed(bool) }")));
    v.push((true, Ty::of::<E185>("E185: enum E185 { Mid(Never), Zed(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E193>("E193: enum E193 { Mid(Tri), Zed { m: Tri } }")));
    v.push((true, Ty::of::<E201>("E201: enum E201 { Mid { m: bool }, Zed(bool) }")));
    v.push((true, Ty::of::<E209>("E209: enum E209 { Mid { m: bool }, Zed(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E217>("E217: enum E217 { Mid { m: Tri }, Zed { m: Tri } }")));
    v.push((true, Ty::of::<E225>("E225: enum E225 { Mid(bool, Tri), Zed(bool) }")));
    v.push((true, Ty::of::<E233>("E233: enum E233 { Mid(bool, Tri), Zed(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E241>("E241: enum E241 { Mid { m: Tri, z: bool }, Zed { m: Tri } }")));
    v.push((true, Ty::of::<E249>("E249: enum E249 { Mid(Never, bool), Zed(bool) }")));
    v.push((true, Ty::of::<E257>("E257: enum E257 { Mid(Never, bool), Zed(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E265>("E265: enum E265 { Mid(Tri, Two, Tri), Zed { m: Tri } }")));
    v.push((true, Ty::of::<E273>("E273: enum E273 { Mid { m: (), z: Tri }, Zed(bool) }")));
    v.push((true, Ty::of::<E281>("E281: enum E281 { Mid { m: (), z: Tri }, Zed(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E289>("E289: enum E289 { Mid, Zed, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E297>("E297: enum E297 { Mid, Zed(bool), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E305>("E305: enum E305 { Mid, Zed(Never), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E313>("E313: enum E313 { Mid, Zed { m: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E321>("E321: enum E321 { Mid, Zed { m: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E329>("E329: enum E329 { Mid, Zed(Tri, bool), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E337>("E337: enum E337 { Mid, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E345>("E345: enum E345 { Mid, Zed(()), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E353>("E353: enum E353 { Mid, Zed(Tri, Two, Tri), Alpha(bool) }")));
    v.push((true, Ty::of::<E361>("E361: enum E361 { Mid, Zed(Tri, Two, Tri), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E369>("E369: enum E369 { Mid, Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E377>("E377: enum E377 { Mid, Zed(Option<bool>), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E385>("E385: enum E385 { Mid(bool), Zed, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E393>("E393: enum E393 { Mid(bool), Zed(bool), Alpha(bool) }")));
    v.push((true, Ty::of::<E401>("E401: enum E401 { Mid(bool), Zed(bool), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E409>("E409: enum E409 { Mid(bool), Zed(Never), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E417>("E417: enum E417 { Mid(bool), Zed { m: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E425>("E425: enum E425 { Mid(bool), Zed(Tri, bool), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E433>("E433: enum E433 { Mid(bool), Zed { m: bool, z: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E441>("E441: enum E441 { Mid(bool), Zed { m: bool, z: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E449>("E449: enum E449 { Mid(bool), Zed(()), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E457>("E457: enum E457 { Mid(bool), Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E465>("E465: enum E465 { Mid(bool), Zed { m: Never, z: bool }, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E473>("E473: enum E473 { Mid(bool), Zed(Option<bool>), Alpha(bool) }")));
    v.push((true, Ty::of::<E481>("E481: enum E481 { Mid(bool), Zed(Option<bool>), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E489>("E489: enum E489 { Mid(Never), Zed, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E497>("E497: enum E497 { Mid(Never), Zed(bool), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E505>("E505: enum E505 { Mid(Never), Zed(Never), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E513>("E513: enum E513 { Mid(Never), Zed { m: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E521>("E521: enum E521 { Mid(Never), Zed { m: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E529>("E529: enum E529 { Mid(Never), Zed(Tri, bool), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E537>("E537: enum E537 { Mid(Never), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E545>("E545: enum E545 { Mid(Never), Zed(()), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E553>("E553: enum E553 { Mid(Never), Zed(Tri, Two, Tri), Alpha(bool) }")));
    v.push((true, Ty::of::<E561>("E561: enum E561 { Mid(Never), Zed(Tri, Two, Tri), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E569>("E569: enum E569 { Mid(Never), Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E577>("E577: enum E577 { Mid(Never), Zed(Option<bool>), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E585>("E585: enum E585 { Mid { m: Tri }, Zed, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E593>("E593: enum E593 { Mid { m: Tri }, Zed(bool), Alpha(bool) }")));
    v.push((true, Ty::of::<E601>("E601: enum E601 { Mid { m: Tri }, Zed(bool), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E609>("E609: enum E609 { Mid { m: Tri }, Zed(Never), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E617>("E617: enum E617 { Mid { m: Tri }, Zed { m: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E625>("E625: enum E625 { Mid { m: Tri }, Zed(Tri, bool), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E633>("E633: enum E633 { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E641>("E641: enum E641 { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E649>("E649: enum E649 { Mid { m: Tri }, Zed(()), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E657>("E657: enum E657 { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E665>("E665: enum E665 { Mid { m: Tri }, Zed { m: Never, z: bool }, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E673>("E673: enum E673 { Mid { m: Tri }, Zed(Option<bool>), Alpha(bool) }")));
    v.push((true, Ty::of::<E681>("E681: enum E681 { Mid { m: Tri }, Zed(Option<bool>), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E689>("E689: enum E689 { Mid(Tri, bool), Zed, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E697>("E697: enum E697 { Mid(Tri, bool), Zed(bool), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E705>("E705: enum E705 { Mid(Tri, bool), Zed(Never), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E713>("E713: enum E713 { Mid(Tri, bool), Zed { m: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E721>("E721: enum E721 { Mid(Tri, bool), Zed { m: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E729>("E729: enum E729 { Mid(Tri, bool), Zed(Tri, bool), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E737>("E737: enum E737 { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E745>("E745: enum E745 { Mid(Tri, bool), Zed(()), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E753>("E753: enum E753 { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha(bool) }")));
    v.push((true, Ty::of::<E761>("E761: enum E761 { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E769>("E769: enum E769 { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E777>("E777: enum E777 { Mid(Tri, bool), Zed(Option<bool>), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E785>("E785: enum E785 { Mid { m: bool, z: Tri }, Zed, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E793>("E793: enum E793 { Mid { m: bool, z: Tri }, Zed(bool), Alpha(bool) }")));
    v.push((true, Ty::of::<E801>("E801: enum E801 { Mid { m: bool, z: Tri }, Zed(bool), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E809>("E809: enum E809 { Mid { m: bool, z: Tri }, Zed(Never), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E817>("E817: enum E817 { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E825>("E825: enum E825 { Mid { m: bool, z: Tri }, Zed(Tri, bool), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E833>("E833: enum E833 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E841>("E841: enum E841 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E849>("E849: enum E849 { Mid { m: bool, z: Tri }, Zed(()), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E857>("E857: enum E857 { Mid { m: bool, z: Tri }, Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E865>("E865: enum E865 { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E873>("E873: enum E873 { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha(bool) }")));
    v.push((true, Ty::of::<E881>("E881: enum E881 { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E889>("E889: enum E889 { Mid(()), Zed, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E897>("E897: enum E897 { Mid(()), Zed(bool), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E905>("E905: enum E905 { Mid(()), Zed(Never), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E913>("E913: enum E913 { Mid(()), Zed { m: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E921>("E921: enum E921 { Mid(()), Zed { m: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E929>("E929: enum E929 { Mid(()), Zed(Tri, bool), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E937>("E937: enum E937 { Mid(()), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E945>("E945: enum E945 { Mid(()), Zed(()), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E953>("E953: enum E953 { Mid(()), Zed(Tri, Two, Tri), Alpha(bool) }")));
    v.push((true, Ty::of::<E961>("E961: enum E961 { Mid(()), Zed(Tri, Two, Tri), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E969>("E969: enum E969 { Mid(()), Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E977>("E977: enum E977 { Mid(()), Zed(Option<bool>), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E985>("E985: enum E985 { Mid(Tri, Two, Tri), Zed, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E993>("E993: enum E993 { Mid(Tri, Two, Tri), Zed(bool), Alpha(bool) }")));
    v.push((true, Ty::of::<E1001>("E1001: enum E1001 { Mid(Tri, Two, Tri), Zed(bool), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E1009>("E1009: enum E1009 { Mid(Tri, Two, Tri), Zed(Never), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E1017>("E1017: enum E1017 { Mid(Tri, Two, Tri), Zed { m: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1025>("E1025: enum E1025 { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E1033>("E1033: enum E1033 { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E1041>("E1041: enum E1041 { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E1049>("E1049: enum E1049 { Mid(Tri, Two, Tri), Zed(()), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E1057>("E1057: enum E1057 { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1065>("E1065: enum E1065 { Mid(Tri, Two, Tri), Zed { m: Never, z: bool }, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E1073>("E1073: enum E1073 { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha(bool) }")));
    v.push((true, Ty::of::<E1081>("E1081: enum E1081 { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E1089>("E1089: enum E1089 { Mid { m: Never, z: bool }, Zed, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E1097>("E1097: enum E1097 { Mid { m: Never, z: bool }, Zed(bool), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1105>("E1105: enum E1105 { Mid { m: Never, z: bool }, Zed(Never), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E1113>("E1113: enum E1113 { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E1121>("E1121: enum E1121 { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E1129>("E1129: enum E1129 { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E1137>("E1137: enum E1137 { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1145>("E1145: enum E1145 { Mid { m: Never, z: bool }, Zed(()), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E1153>("E1153: enum E1153 { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha(bool) }")));
    v.push((true, Ty::of::<E1161>("E1161: enum E1161 { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E1169>("E1169: enum E1169 { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E1177>("E1177: enum E1177 { Mid { m: Never, z: bool }, Zed(Option<bool>), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1185>("E1185: enum E1185 { Mid(Option<bool>), Zed, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E1193>("E1193: enum E1193 { Mid(Option<bool>), Zed(bool), Alpha(bool) }")));
    v.push((true, Ty::of::<E1201>("E1201: enum E1201 { Mid(Option<bool>), Zed(bool), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E1209>("E1209: enum E1209 { Mid(Option<bool>), Zed(Never), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E1217>("E1217: enum E1217 { Mid(Option<bool>), Zed { m: Tri }, Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1225>("E1225: enum E1225 { Mid(Option<bool>), Zed(Tri, bool), Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E1233>("E1233: enum E1233 { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha(bool) }")));
    v.push((true, Ty::of::<E1241>("E1241: enum E1241 { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E1249>("E1249: enum E1249 { Mid(Option<bool>), Zed(()), Alpha(Tri, Two, Tri) }")));
    v.push((true, Ty::of::<E1257>("E1257: enum E1257 { Mid(Option<bool>), Zed(Tri, Two, Tri), Alpha { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1265>("E1265: enum E1265 { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha { m: Tri } }")));
    v.push((true, Ty::of::<E1273>("E1273: enum E1273 { Mid(Option<bool>), Zed(Option<bool>), Alpha(bool) }")));
    v.push((true, Ty::of::<E1281>("E1281: enum E1281 { Mid(Option<bool>), Zed(Option<bool>), Alpha(Option<bool>) }")));
    v.push((true, Ty::of::<E1289>("E1289: enum E1289 { Mid, Zed, Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1297>("E1297: enum E1297 { Mid, Zed, Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1305>("E1305: enum E1305 { Mid, Zed, Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1313>("E1313: enum E1313 { Mid, Zed(Tri), Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1321>("E1321: enum E1321 { Mid, Zed(Tri), Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1329>("E1329: enum E1329 { Mid, Zed(Tri), Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1337>("E1337: enum E1337 { Mid, Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1345>("E1345: enum E1345 { Mid, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1353>("E1353: enum E1353 { Mid, Zed { m: bool, z: Tri }, Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1361>("E1361: enum E1361 { Mid, Zed(Never), Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1369>("E1369: enum E1369 { Mid, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1377>("E1377: enum E1377 { Mid, Zed(Never), Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1385>("E1385: enum E1385 { Mid, Zed(Two), Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1393>("E1393: enum E1393 { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1401>("E1401: enum E1401 { Mid, Zed(Two), Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1409>("E1409: enum E1409 { Mid(Tri), Zed, Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1417>("E1417: enum E1417 { Mid(Tri), Zed, Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1425>("E1425: enum E1425 { Mid(Tri), Zed, Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1433>("E1433: enum E1433 { Mid(Tri), Zed(Tri), Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1441>("E1441: enum E1441 { Mid(Tri), Zed(Tri), Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1449>("E1449: enum E1449 { Mid(Tri), Zed(Tri), Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1457>("E1457: enum E1457 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1465>("E1465: enum E1465 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1473>("E1473: enum E1473 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1481>("E1481: enum E1481 { Mid(Tri), Zed(Never), Alpha, Quux }")));
    v.push((true, Ty::of::<E1489>("E1489: enum E1489 { Mid(Tri), Zed(Never), Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1497>("E1497: enum E1497 { Mid(Tri), Zed(Never), Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1505>("E1505: enum E1505 { Mid(Tri), Zed(Never), Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1513>("E1513: enum E1513 { Mid(Tri), Zed(Two), Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1521>("E1521: enum E1521 { Mid(Tri), Zed(Two), Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1529>("E1529: enum E1529 { Mid(Tri), Zed(Two), Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1537>("E1537: enum E1537 { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1545>("E1545: enum E1545 { Mid { m: bool, z: Tri }, Zed, Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1553>("E1553: enum E1553 { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1561>("E1561: enum E1561 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1569>("E1569: enum E1569 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1577>("E1577: enum E1577 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1585>("E1585: enum E1585 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1593>("E1593: enum E1593 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1601>("E1601: enum E1601 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1609>("E1609: enum E1609 { Mid { m: bool, z: Tri }, Zed(Never), Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1617>("E1617: enum E1617 { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1625>("E1625: enum E1625 { Mid { m: bool, z: Tri }, Zed(Never), Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1633>("E1633: enum E1633 { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1641>("E1641: enum E1641 { Mid { m: bool, z: Tri }, Zed(Two), Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1649>("E1649: enum E1649 { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1657>("E1657: enum E1657 { Mid(Never), Zed, Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1665>("E1665: enum E1665 { Mid(Never), Zed, Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1673>("E1673: enum E1673 { Mid(Never), Zed, Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1681>("E1681: enum E1681 { Mid(Never), Zed(Tri), Alpha, Quux }")));
    v.push((true, Ty::of::<E1689>("E1689: enum E1689 { Mid(Never), Zed(Tri), Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1697>("E1697: enum E1697 { Mid(Never), Zed(Tri), Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1705>("E1705: enum E1705 { Mid(Never), Zed(Tri), Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1713>("E1713: enum E1713 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1721>("E1721: enum E1721 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1729>("E1729: enum E1729 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1737>("E1737: enum E1737 { Mid(Never), Zed(Never), Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1745>("E1745: enum E1745 { Mid(Never), Zed(Never), Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1753>("E1753: enum E1753 { Mid(Never), Zed(Never), Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1761>("E1761: enum E1761 { Mid(Never), Zed(Two), Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1769>("E1769: enum E1769 { Mid(Never), Zed(Two), Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1777>("E1777: enum E1777 { Mid(Never), Zed(Two), Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1785>("E1785: enum E1785 { Mid(Two), Zed, Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1793>("E1793: enum E1793 { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1801>("E1801: enum E1801 { Mid(Two), Zed, Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1809>("E1809: enum E1809 { Mid(Two), Zed(Tri), Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1817>("E1817: enum E1817 { Mid(Two), Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1825>("E1825: enum E1825 { Mid(Two), Zed(Tri), Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1833>("E1833: enum E1833 { Mid(Two), Zed { m: bool, z: Tri }, Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1841>("E1841: enum E1841 { Mid(Two), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1849>("E1849: enum E1849 { Mid(Two), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1857>("E1857: enum E1857 { Mid(Two), Zed(Never), Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1865>("E1865: enum E1865 { Mid(Two), Zed(Never), Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1873>("E1873: enum E1873 { Mid(Two), Zed(Never), Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1881>("E1881: enum E1881 { Mid(Two), Zed(Two), Alpha, Quux }")));
    v.push((true, Ty::of::<E1889>("E1889: enum E1889 { Mid(Two), Zed(Two), Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1897>("E1897: enum E1897 { Mid(Two), Zed(Two), Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1905>("E1905: enum E1905 { Mid(Two), Zed(Two), Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1913>("E1913: enum E1913 { Mid, Zed(bool, Tri), Alpha, Quux, Beta }")));
    v.push((true, Ty::of::<E1921>("E1921: enum E1921 { Mid(bool, Tri), Zed, Alpha, Quux, Beta }")));
    v.push((true, Ty::of::<E1929>("E1929: enum E1929 { Mid(bool, Tri), Zed(bool, Tri), Alpha, Quux, Beta }")));
    v.push((true, Ty::of::<E1937>("E1937: enum E1937 { Mid, Zed, Alpha, Quux, Beta, Yard { m: Two } }")));
    v.push((true, Ty::of::<E1945>("E1945: enum E1945 { Mid, Zed { m: Two }, Alpha, Quux, Beta, Yard }")));
    v.push((true, Ty::of::<E1953>("E1953: enum E1953 { Mid { m: Two }, Zed, Alpha, Quux, Beta, Yard }")));
    v.push((true, Ty::of::<E1961>("E1961: enum E1961 { Mid { m: Two }, Zed { m: Two }, Alpha, Quux, Beta, Yard { m: Two } }")));
    v.push((true, Ty::of::<E1969>("E1969: enum E1969 { Mid { m: Two }, Zed { m: Two }, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard { m: Two } }")));
    v.push((true, Ty::of::<E1977>("E1977: enum E1977 { Mid(), Zed { }, Alpha, Quux }")));
    v.push((true, Ty::of::<E1985>("E1985: enum E1985 { Mid, Zed { } }")));
    v.push((true, Ty::of::<E1993>("E1993: enum E1993 { Mid, Zed { m: Option<bool>, z: Tri }, Alpha(Tri, Option<bool>), Quux }")));
    v.push((true, Ty::of::<E2001>("E2001: enum E2001 { Mid, Zed { m: Result<Tri,bool>, z: Tri }, Alpha(Tri, Result<Tri,bool>), Quux }")));
    v.push((true, Ty::of::<E2009>("E2009: enum E2009 { Mid, Zed { m: (Never,bool), z: Tri }, Alpha(Tri, (Never,bool)), Quux }")));
    v.push((true, Ty::of::<E2017>("E2017: enum E2017 { Mid([bool;2], Option<bool>), Zed { m: Option<bool> } }")));
    v.push((true, Ty::of::<E2025>("E2025: enum E2025 { Mid((bool,Tri), [bool;2]), Zed { m: [bool;2] } }")));
    v.push((true, Ty::of::<E2033>("E2033: enum E2033 { Mid(Option<Never>, (bool,Tri)), Zed { m: (bool,Tri) } }")));
    v.push((true, Ty::of::<E2041>("E2041: enum E2041 { Mid(Result<Tri,bool>, Option<Never>), Zed { m: Option<Never> } }")));
    v.push((true, Ty::of::<E2049>("E2049: enum E2049 { Mid([Tri;0], Result<Tri,bool>), Zed { m: Result<Tri,bool> } }")));
    v.push((true, Ty::of::<E2057>("E2057: enum E2057 { Mid(D17, [Tri;0]), Zed { m: [Tri;0] } }")));
    v.push((false, Ty::of::<S2065>("S2065: struct S2065 { m: bool }")));
    v.push((false, Ty::of::<S2073>("S2073: struct S2073 { m: (), z: () }")));
    v.push((false, Ty::of::<S2081>("S2081: struct S2081 { m: (), z: Five }")));
    v.push((false, Ty::of::<S2089>("S2089: struct S2089 { m: bool, z: Tri }")));
    v.push((false, Ty::of::<S2097>("S2097: struct S2097 { m: Never, z: Never }")));
    v.push((false, Ty::of::<S2105>("S2105: struct S2105 { m: Tri, z: bool }")));
    v.push((false, Ty::of::<S2113>("S2113: struct S2113 { m: Five, z: () }")));
    v.push((false, Ty::of::<S2121>("S2121: struct S2121 { m: Five, z: Five }")));
    v.push((false, Ty::of::<S2129>("S2129: struct S2129 { m: (), z: (), a: Tri }")));
    v.push((false, Ty::of::<S2137>("S2137: struct S2137 { m: (), z: bool, a: Never }")));
    v.push((false, Ty::of::<S2145>("S2145: struct S2145 { m: (), z: Never, a: bool }")));
    v.push((false, Ty::of::<S2153>("S2153: struct S2153 { m: (), z: Tri, a: () }")));
    v.push((false, Ty::of::<S2161>("S2161: struct S2161 { m: (), z: Tri, a: Five }")));
    v.push((false, Ty::of::<S2169>("S2169: struct S2169 { m: (), z: Five, a: Tri }")));
    v.push((false, Ty::of::<S2177>("S2177: struct S2177 { m: bool, z: (), a: Never }")));
    v.push((false, Ty::of::<S2185>("S2185: struct S2185 { m: bool, z: bool, a: bool }")));
    v.push((false, Ty::of::<S2193>("S2193: struct S2193 { m: bool, z: Never, a: () }")));
    v.push((false, Ty::of::<S2201>("S2201: struct S2201 { m: bool, z: Never, a: Five }")));
    v.push((false, Ty::of::<S2209>("S2209: struct S2209 { m: bool, z: Tri, a: Tri }")));
    v.push((false, Ty::of::<S2217>("S2217: struct S2217 { m: bool, z: Five, a: Never }")));
    v.push((false, Ty::of::<S2225>("S2225: struct S2225 { m: Never, z: (), a: bool }")));
    v.push((false, Ty::of::<S2233>("S2233: struct S2233 { m: Never, z: bool, a: () }")));
    v.push((false, Ty::of::<S2241>("S2241: struct S2241 { m: Never, z: bool, a: Five }")));
    v.push((false, Ty::of::<S2249>("S2249: struct S2249 { m: Never, z: Never, a: Tri }")));
    v.push((false, Ty::of::<S2257>("S2257: struct S2257 { m: Never, z: Tri, a: Never }")));
    v.push((false, Ty::of::<S2265>("S2265: struct S2265 { m: Never, z: Five, a: bool }")));
    v.push((false, Ty::of::<S2273>("S2273: struct S2273 { m: Tri, z: (), a: () }")));
    v.push((false, Ty::of::<S2281>("S2281: struct S2281 { m: Tri, z: (), a: Five }")));
    v.push((false, Ty::of::<S2289>("S2289: struct S2289 { m: Tri, z: bool, a: Tri }")));
    v.push((false, Ty::of::<S2297>("S2297: struct S2297 { m: Tri, z: Never, a: Never }")));
    v.push((false, Ty::of::<S2305>("S2305: struct S2305 { m: Tri, z: Tri, a: bool }")));
    v.push((false, Ty::of::<S2313>("S2313: struct S2313 { m: Tri, z: Five, a: () }")));
    v.push((false, Ty::of::<S2321>("S2321: struct S2321 { m: Tri, z: Five, a: Five }")));
    v.push((false, Ty::of::<S2329>("S2329: struct S2329 { m: Five, z: (), a: Tri }")));
    v.push((false, Ty::of::<S2337>("S2337: struct S2337 { m: Five, z: bool, a: Never }")));
    v.push((false, Ty::of::<S2345>("S2345: struct S2345 { m: Five, z: Never, a: bool }")));
    v.push((false, Ty::of::<S2353>("S2353: struct S2353 { m: Five, z: Tri, a: () }")));
    v.push((false, Ty::of::<S2361>("S2361: struct S2361 { m: Five, z: Tri, a: Five }")));
    v.push((false, Ty::of::<S2369>("S2369: struct S2369 { m: Five, z: Five, a: Tri }")));
    v.push((false, Ty::of::<S2377>("S2377: struct S2377 { m: bool, z: bool, a: bool, q: () }")));
    v.push((false, Ty::of::<S2385>("S2385: struct S2385 { m: bool, z: bool, a: (), q: bool }")));
    v.push((false, Ty::of::<S2393>("S2393: struct S2393 { m: bool, z: Tri, a: bool, q: Tri }")));
    v.push((false, Ty::of::<S2401>("S2401: struct S2401 { m: bool, z: Tri, a: Tri, q: () }")));
    v.push((false, Ty::of::<S2409>("S2409: struct S2409 { m: bool, z: (), a: bool, q: bool }")));
    v.push((false, Ty::of::<S2417>("S2417: struct S2417 { m: bool, z: (), a: Tri, q: Tri }")));
    v.push((false, Ty::of::<S2425>("S2425: struct S2425 { m: bool, z: (), a: (), q: () }")));
    v.push((false, Ty::of::<S2433>("S2433: struct S2433 { m: Tri, z: bool, a: Tri, q: bool }")));
    v.push((false, Ty::of::<S2441>("S2441: struct S2441 { m: Tri, z: bool, a: (), q: Tri }")));
    v.push((false, Ty::of::<S2449>("S2449: struct S2449 { m: Tri, z: Tri, a: bool, q: () }")));
    v.push((false, Ty::of::<S2457>("S2457: struct S2457 { m: Tri, z: Tri, a: (), q: bool }")));
    v.push((false, Ty::of::<S2465>("S2465: struct S2465 { m: Tri, z: (), a: bool, q: Tri }")));
    v.push((false, Ty::of::<S2473>("S2473: struct S2473 { m: Tri, z: (), a: Tri, q: () }")));
    v.push((false, Ty::of::<S2481>("S2481: struct S2481 ((), bool, bool, Tri) ;")));
    v.push((false, Ty::of::<S2489>("S2489: struct S2489 ((), Tri, bool, bool) ;")));
    v.push((false, Ty::of::<S2497>("S2497: struct S2497 ((), Tri, (), ()) ;")));
    v.push((false, Ty::of::<S2505>("S2505: struct S2505 ((), (), (), Tri) ;")));
    v.push((false, Ty::of::<S2513>("S2513: struct S2513 (bool, bool, bool, bool, bool, bool, bool, bool) ;")));
    v.push((false, Ty::of::<S2521>("S2521: struct S2521 (Tri, (), Two, Tri, (), Two, Tri, (), Two, Tri, (), Two, Tri, (), Two, Tri) ;")));
    v.push((false, Ty::of::<S2529>("S2529: struct S2529 { m: [bool;2], z: Tri }")));
    v.push((false, Ty::of::<S2537>("S2537: struct S2537 (Result<Tri,bool>) ;")));
    v.push((false, Ty::of::<S2545>("S2545: struct S2545 (Tri, D17, bool) ;")));
    v.push((false, Ty::of::<S2553>("S2553: struct S2553 { m: N16, z: N16, a: N32 }")));
    v.push((false, Ty::of::<S2561>("S2561: /// Documented. #[allow(dead_code)] struct S2561 { x: bool, value: Tri, x0: Five }")));
    v.push((true, Ty::of::<E2569>("E2569: enum E2569 { Mid, Zed { discr: bool, y: Tri, x: Five }, Alpha(Tri, bool), Quux { discr: Tri, y: Five } }")));
    v.push((true, Ty::of::<E2577<()>>("E2577<()>: enum E2577<A> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2577<bool>>("E2577<bool>: enum E2577<A> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2577<Never>>("E2577<Never>: enum E2577<A> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2577<Tri>>("E2577<Tri>: enum E2577<A> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2577<Option<bool>>>("E2577<Option<bool>>: enum E2577<A> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2577<(bool,Tri)>>("E2577<(bool,Tri)>: enum E2577<A> { Mid(A), Zed }")));
    v.push((true, Ty::of::<E2585<()>>("E2585<()>: enum E2585<A> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((true, Ty::of::<E2585<bool>>("E2585<bool>: enum E2585<A> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((true, Ty::of::<E2585<Never>>("E2585<Never>: enum E2585<A> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((true, Ty::of::<E2585<Tri>>("E2585<Tri>: enum E2585<A> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((true, Ty::of::<E2585<Option<bool>>>("E2585<Option<bool>>: enum E2585<A> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((true, Ty::of::<E2585<(bool,Tri)>>("E2585<(bool,Tri)>: enum E2585<A> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }")));
    v.push((false, Ty::of::<S2593<()>>("S2593<()>: struct S2593<A> (bool, A, A) ;")));
    v.push((false, Ty::of::<S2593<bool>>("S2593<bool>: struct S2593<A> (bool, A, A) ;")));
    v.push((false, Ty::of::<S2593<Never>>("S2593<Never>: struct S2593<A> (bool, A, A) ;")));
    v.push((false, Ty::of::<S2593<Tri>>("S2593<Tri>: struct S2593<A> (bool, A, A) ;")));
    v.push((false, Ty::of::<S2593<Option<bool>>>("S2593<Option<bool>>: struct S2593<A> (bool, A, A) ;")));
    v.push((false, Ty::of::<S2593<(bool,Tri)>>("S2593<(bool,Tri)>: struct S2593<A> (bool, A, A) ;")));
    v.push((false, Ty::of::<S2601<bool, Tri>>("S2601<bool, Tri>: struct S2601<A, B> (A, B) ;")));
    v.push((false, Ty::of::<S2601<Tri, bool>>("S2601<Tri, bool>: struct S2601<A, B> (A, B) ;")));
    v.push((false, Ty::of::<S2601<Never, Five>>("S2601<Never, Five>: struct S2601<A, B> (A, B) ;")));
    v.push((false, Ty::of::<S2601<Five, Never>>("S2601<Five, Never>: struct S2601<A, B> (A, B) ;")));
    v.push((false, Ty::of::<S2601<Option<bool>, [bool;2]>>("S2601<Option<bool>, [bool;2]>: struct S2601<A, B> (A, B) ;")));
    v.push((false, Ty::of::<S2601<(), ()>>("S2601<(), ()>: struct S2601<A, B> (A, B) ;")));
}
