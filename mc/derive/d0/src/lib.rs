// generated by tools/gen_derive.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use enum_like_derive::EnumLike;
use likesut::*;
fn pick<T: Spec>(r: &mut u128) -> T {
    let c = T::count();
    let v = T::make(*r % c);
    *r /= c;
    v
}
#[derive(Clone, Copy, EnumLike)]
pub enum E0  {  }
impl Spec for E0 {
    fn count() -> u128 { 0u128 }
    fn make(mut i: u128) -> Self {
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E8  { V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E8 {
    fn count() -> u128 { 16u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E8::V16; } i -= 1;
        if i == 0 { return E8::V15; } i -= 1;
        if i == 0 { return E8::V14; } i -= 1;
        if i == 0 { return E8::V13; } i -= 1;
        if i == 0 { return E8::V12; } i -= 1;
        if i == 0 { return E8::V11; } i -= 1;
        if i == 0 { return E8::V10; } i -= 1;
        if i == 0 { return E8::V9; } i -= 1;
        if i == 0 { return E8::V8; } i -= 1;
        if i == 0 { return E8::V7; } i -= 1;
        if i == 0 { return E8::V6; } i -= 1;
        if i == 0 { return E8::V5; } i -= 1;
        if i == 0 { return E8::V4; } i -= 1;
        if i == 0 { return E8::V3; } i -= 1;
        if i == 0 { return E8::V2; } i -= 1;
        if i == 0 { return E8::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E8::V16 => 0u128,
            E8::V15 => 1u128,
            E8::V14 => 2u128,
            E8::V13 => 3u128,
            E8::V12 => 4u128,
            E8::V11 => 5u128,
            E8::V10 => 6u128,
            E8::V9 => 7u128,
            E8::V8 => 8u128,
            E8::V7 => 9u128,
            E8::V6 => 10u128,
            E8::V5 => 11u128,
            E8::V4 => 12u128,
            E8::V3 => 13u128,
            E8::V2 => 14u128,
            E8::V1 => 15u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E16  { Mid = 100 }
impl Spec for E16 {
    fn count() -> u128 { 1u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E16::Mid; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E16::Mid => 0u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E24  { Mid, Zed = 127, Alpha, Quux = 3 }
impl Spec for E24 {
    fn count() -> u128 { 4u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E24::Mid; } i -= 1;
        if i == 0 { return E24::Zed; } i -= 1;
        if i == 0 { return E24::Alpha; } i -= 1;
        if i == 0 { return E24::Quux; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E24::Mid => 0u128,
            E24::Zed => 1u128,
            E24::Alpha => 2u128,
            E24::Quux => 3u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E32  { Mid(bool) }
impl Spec for E32 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E32::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E32::Mid(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E40  { Mid((), bool) }
impl Spec for E40 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); return E40::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E40::Mid(f0, f1) => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E48  { Mid(Never, bool) }
impl Spec for E48 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E48::Mid(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E48::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E56  { Mid { m: (), z: bool } }
impl Spec for E56 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); return E56::Mid { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E56::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E64  { Mid { m: Never, z: bool } }
impl Spec for E64 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E64::Mid { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E64::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E72  { Mid((), (), bool) }
impl Spec for E72 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); return E72::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E72::Mid(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E80  { Mid((), Never, bool) }
impl Spec for E80 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return E80::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E80::Mid(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E88  { Mid(bool, (), bool) }
impl Spec for E88 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); return E88::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E88::Mid(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E96  { Mid(bool, Never, bool) }
impl Spec for E96 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return E96::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E96::Mid(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E104  { Mid(Never, (), bool) }
impl Spec for E104 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); return E104::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E104::Mid(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E112  { Mid(Never, Never, bool) }
impl Spec for E112 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return E112::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E112::Mid(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E120  { Mid(Tri, (), bool) }
impl Spec for E120 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); return E120::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E120::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E128  { Mid(Tri, Never, bool) }
impl Spec for E128 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return E128::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E128::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E136  { Mid { m: bool, z: Tri, a: () } }
impl Spec for E136 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return E136::Mid { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E136::Mid { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E144  { Mid, Zed { m: bool } }
impl Spec for E144 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E144::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E144::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E144::Mid => 0u128,
            E144::Zed { m: f0 } => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E152  { Mid(()), Zed(()) }
impl Spec for E152 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E152::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E152::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E152::Mid(f0) => 0u128 + f0.index(),
            E152::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E160  { Mid(()), Zed(Never, bool) }
impl Spec for E160 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E160::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E160::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E160::Mid(f0) => 0u128 + f0.index(),
            E160::Zed(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E168  { Mid(bool), Zed { m: bool } }
impl Spec for E168 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E168::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E168::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E168::Mid(f0) => 0u128 + f0.index(),
            E168::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E176  { Mid(Never), Zed(()) }
impl Spec for E176 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E176::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E176::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E176::Mid(f0) => 0u128 + f0.index(),
            E176::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E184  { Mid(Never), Zed(Never, bool) }
impl Spec for E184 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E184::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E184::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E184::Mid(f0) => 0u128 + f0.index(),
            E184::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E192  { Mid(Tri), Zed { m: bool } }
impl Spec for E192 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E192::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E192::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E192::Mid(f0) => 0u128 + f0.index(),
            E192::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E200  { Mid { m: bool }, Zed(()) }
impl Spec for E200 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E200::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E200::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E200::Mid { m: f0 } => 0u128 + f0.index(),
            E200::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E208  { Mid { m: bool }, Zed(Never, bool) }
impl Spec for E208 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E208::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E208::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E208::Mid { m: f0 } => 0u128 + f0.index(),
            E208::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E216  { Mid { m: Tri }, Zed { m: bool } }
impl Spec for E216 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E216::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E216::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E216::Mid { m: f0 } => 0u128 + f0.index(),
            E216::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E224  { Mid(bool, Tri), Zed(()) }
impl Spec for E224 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E224::Mid(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E224::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E224::Mid(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E224::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E232  { Mid(bool, Tri), Zed(Never, bool) }
impl Spec for E232 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E232::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E232::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E232::Mid(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E232::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E240  { Mid { m: Tri, z: bool }, Zed { m: bool } }
impl Spec for E240 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E240::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E240::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E240::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E240::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E248  { Mid(Never, bool), Zed(()) }
impl Spec for E248 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E248::Mid(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E248::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E248::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E248::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E256  { Mid(Never, bool), Zed(Never, bool) }
impl Spec for E256 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E256::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E256::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E256::Mid(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E256::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E264  { Mid(Tri, Two, Tri), Zed { m: bool } }
impl Spec for E264 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E264::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E264::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E264::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E264::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E272  { Mid { m: (), z: Tri }, Zed(()) }
impl Spec for E272 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E272::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E272::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E272::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
            E272::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E280  { Mid { m: (), z: Tri }, Zed(Never, bool) }
impl Spec for E280 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); return E280::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E280::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E280::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
            E280::Zed(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E288  { Mid, Zed, Alpha(()) }
impl Spec for E288 {
    fn count() -> u128 { 2u128 + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E288::Mid; } i -= 1;
        if i == 0 { return E288::Zed; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E288::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E288::Mid => 0u128,
            E288::Zed => 1u128,
            E288::Alpha(f0) => 2u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E296  { Mid, Zed(bool), Alpha(Tri, bool) }
impl Spec for E296 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E296::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E296::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E296::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E296::Mid => 0u128,
            E296::Zed(f0) => 1u128 + f0.index(),
            E296::Alpha(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E304  { Mid, Zed(Never), Alpha(Never) }
impl Spec for E304 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E304::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E304::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E304::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E304::Mid => 0u128,
            E304::Zed(f0) => 1u128 + f0.index(),
            E304::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E312  { Mid, Zed { m: Tri }, Alpha }
impl Spec for E312 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E312::Mid; } i -= 1;
        if i == 0 { return E312::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E312::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E312::Mid => 0u128,
            E312::Alpha => 1u128,
            E312::Zed { m: f0 } => 2u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E320  { Mid, Zed { m: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E320 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E320::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E320::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E320::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E320::Mid => 0u128,
            E320::Zed { m: f0 } => 1u128 + f0.index(),
            E320::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E328  { Mid, Zed(Tri, bool), Alpha(()) }
impl Spec for E328 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E328::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E328::Zed(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E328::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E328::Mid => 0u128,
            E328::Zed(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E328::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E336  { Mid, Zed { m: bool, z: Tri }, Alpha(Tri, bool) }
impl Spec for E336 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E336::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E336::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E336::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E336::Mid => 0u128,
            E336::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E336::Alpha(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E344  { Mid, Zed(()), Alpha(Never) }
impl Spec for E344 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E344::Mid; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E344::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E344::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E344::Mid => 0u128,
            E344::Zed(f0) => 1u128 + f0.index(),
            E344::Alpha(f0) => 1u128 + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E352  { Mid, Zed(Tri, Two, Tri), Alpha }
impl Spec for E352 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E352::Mid; } i -= 1;
        if i == 0 { return E352::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E352::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E352::Mid => 0u128,
            E352::Alpha => 1u128,
            E352::Zed(f0, f1, f2) => 2u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E360  { Mid, Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }
impl Spec for E360 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E360::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E360::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E360::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E360::Mid => 0u128,
            E360::Zed(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E360::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E368  { Mid, Zed { m: Never, z: bool }, Alpha(()) }
impl Spec for E368 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E368::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E368::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E368::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E368::Mid => 0u128,
            E368::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E368::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E376  { Mid, Zed(Option<bool>), Alpha(Tri, bool) }
impl Spec for E376 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E376::Mid; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E376::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E376::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E376::Mid => 0u128,
            E376::Zed(f0) => 1u128 + f0.index(),
            E376::Alpha(f0, f1) => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E384  { Mid(bool), Zed, Alpha(Never) }
impl Spec for E384 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E384::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E384::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E384::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E384::Zed => 0u128,
            E384::Mid(f0) => 1u128 + f0.index(),
            E384::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E392  { Mid(bool), Zed(bool), Alpha }
impl Spec for E392 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E392::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E392::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E392::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E392::Alpha => 0u128,
            E392::Mid(f0) => 1u128 + f0.index(),
            E392::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E400  { Mid(bool), Zed(bool), Alpha { m: Never, z: bool } }
impl Spec for E400 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E400::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E400::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E400::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E400::Mid(f0) => 0u128 + f0.index(),
            E400::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E400::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E408  { Mid(bool), Zed(Never), Alpha(()) }
impl Spec for E408 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E408::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E408::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E408::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E408::Mid(f0) => 0u128 + f0.index(),
            E408::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E408::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E416  { Mid(bool), Zed { m: Tri }, Alpha(Tri, bool) }
impl Spec for E416 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E416::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E416::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E416::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E416::Mid(f0) => 0u128 + f0.index(),
            E416::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E416::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E424  { Mid(bool), Zed(Tri, bool), Alpha(Never) }
impl Spec for E424 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E424::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E424::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E424::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E424::Mid(f0) => 0u128 + f0.index(),
            E424::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E424::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E432  { Mid(bool), Zed { m: bool, z: Tri }, Alpha }
impl Spec for E432 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E432::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E432::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E432::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E432::Alpha => 0u128,
            E432::Mid(f0) => 1u128 + f0.index(),
            E432::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E440  { Mid(bool), Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E440 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E440::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E440::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E440::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E440::Mid(f0) => 0u128 + f0.index(),
            E440::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E440::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E448  { Mid(bool), Zed(()), Alpha(()) }
impl Spec for E448 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E448::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E448::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E448::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E448::Mid(f0) => 0u128 + f0.index(),
            E448::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E448::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E456  { Mid(bool), Zed(Tri, Two, Tri), Alpha(Tri, bool) }
impl Spec for E456 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E456::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E456::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E456::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E456::Mid(f0) => 0u128 + f0.index(),
            E456::Zed(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E456::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E464  { Mid(bool), Zed { m: Never, z: bool }, Alpha(Never) }
impl Spec for E464 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E464::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E464::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E464::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E464::Mid(f0) => 0u128 + f0.index(),
            E464::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E464::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E472  { Mid(bool), Zed(Option<bool>), Alpha }
impl Spec for E472 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E472::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E472::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E472::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E472::Alpha => 0u128,
            E472::Mid(f0) => 1u128 + f0.index(),
            E472::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E480  { Mid(bool), Zed(Option<bool>), Alpha { m: Never, z: bool } }
impl Spec for E480 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E480::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E480::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E480::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E480::Mid(f0) => 0u128 + f0.index(),
            E480::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() + f0.index(),
            E480::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E488  { Mid(Never), Zed, Alpha(()) }
impl Spec for E488 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E488::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E488::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E488::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E488::Zed => 0u128,
            E488::Mid(f0) => 1u128 + f0.index(),
            E488::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E496  { Mid(Never), Zed(bool), Alpha(Tri, bool) }
impl Spec for E496 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E496::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E496::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E496::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E496::Mid(f0) => 0u128 + f0.index(),
            E496::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E496::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E504  { Mid(Never), Zed(Never), Alpha(Never) }
impl Spec for E504 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E504::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E504::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E504::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E504::Mid(f0) => 0u128 + f0.index(),
            E504::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E504::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E512  { Mid(Never), Zed { m: Tri }, Alpha }
impl Spec for E512 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E512::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E512::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E512::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E512::Alpha => 0u128,
            E512::Mid(f0) => 1u128 + f0.index(),
            E512::Zed { m: f0 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E520  { Mid(Never), Zed { m: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E520 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E520::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E520::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E520::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E520::Mid(f0) => 0u128 + f0.index(),
            E520::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E520::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E528  { Mid(Never), Zed(Tri, bool), Alpha(()) }
impl Spec for E528 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E528::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E528::Zed(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E528::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E528::Mid(f0) => 0u128 + f0.index(),
            E528::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E528::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E536  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri, bool) }
impl Spec for E536 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E536::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E536::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E536::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E536::Mid(f0) => 0u128 + f0.index(),
            E536::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E536::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E544  { Mid(Never), Zed(()), Alpha(Never) }
impl Spec for E544 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E544::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E544::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E544::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E544::Mid(f0) => 0u128 + f0.index(),
            E544::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E544::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E552  { Mid(Never), Zed(Tri, Two, Tri), Alpha }
impl Spec for E552 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E552::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E552::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E552::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E552::Alpha => 0u128,
            E552::Mid(f0) => 1u128 + f0.index(),
            E552::Zed(f0, f1, f2) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E560  { Mid(Never), Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }
impl Spec for E560 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E560::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E560::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E560::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E560::Mid(f0) => 0u128 + f0.index(),
            E560::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E560::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E568  { Mid(Never), Zed { m: Never, z: bool }, Alpha(()) }
impl Spec for E568 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E568::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E568::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E568::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E568::Mid(f0) => 0u128 + f0.index(),
            E568::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E568::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E576  { Mid(Never), Zed(Option<bool>), Alpha(Tri, bool) }
impl Spec for E576 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E576::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E576::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E576::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E576::Mid(f0) => 0u128 + f0.index(),
            E576::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E576::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E584  { Mid { m: Tri }, Zed, Alpha(Never) }
impl Spec for E584 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E584::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E584::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E584::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E584::Zed => 0u128,
            E584::Mid { m: f0 } => 1u128 + f0.index(),
            E584::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E592  { Mid { m: Tri }, Zed(bool), Alpha }
impl Spec for E592 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E592::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E592::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E592::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E592::Alpha => 0u128,
            E592::Mid { m: f0 } => 1u128 + f0.index(),
            E592::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E600  { Mid { m: Tri }, Zed(bool), Alpha { m: Never, z: bool } }
impl Spec for E600 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E600::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E600::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E600::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E600::Mid { m: f0 } => 0u128 + f0.index(),
            E600::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E600::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E608  { Mid { m: Tri }, Zed(Never), Alpha(()) }
impl Spec for E608 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E608::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E608::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E608::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E608::Mid { m: f0 } => 0u128 + f0.index(),
            E608::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E608::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E616  { Mid { m: Tri }, Zed { m: Tri }, Alpha(Tri, bool) }
impl Spec for E616 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E616::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E616::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E616::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E616::Mid { m: f0 } => 0u128 + f0.index(),
            E616::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E616::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E624  { Mid { m: Tri }, Zed(Tri, bool), Alpha(Never) }
impl Spec for E624 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E624::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E624::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E624::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E624::Mid { m: f0 } => 0u128 + f0.index(),
            E624::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E624::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E632  { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha }
impl Spec for E632 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E632::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E632::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E632::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E632::Alpha => 0u128,
            E632::Mid { m: f0 } => 1u128 + f0.index(),
            E632::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E640  { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E640 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E640::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E640::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E640::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E640::Mid { m: f0 } => 0u128 + f0.index(),
            E640::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E640::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E648  { Mid { m: Tri }, Zed(()), Alpha(()) }
impl Spec for E648 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E648::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E648::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E648::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E648::Mid { m: f0 } => 0u128 + f0.index(),
            E648::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E648::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E656  { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha(Tri, bool) }
impl Spec for E656 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E656::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E656::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E656::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E656::Mid { m: f0 } => 0u128 + f0.index(),
            E656::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E656::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E664  { Mid { m: Tri }, Zed { m: Never, z: bool }, Alpha(Never) }
impl Spec for E664 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E664::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E664::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E664::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E664::Mid { m: f0 } => 0u128 + f0.index(),
            E664::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E664::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E672  { Mid { m: Tri }, Zed(Option<bool>), Alpha }
impl Spec for E672 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E672::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E672::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E672::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E672::Alpha => 0u128,
            E672::Mid { m: f0 } => 1u128 + f0.index(),
            E672::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E680  { Mid { m: Tri }, Zed(Option<bool>), Alpha { m: Never, z: bool } }
impl Spec for E680 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E680::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E680::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E680::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E680::Mid { m: f0 } => 0u128 + f0.index(),
            E680::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E680::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E688  { Mid(Tri, bool), Zed, Alpha(()) }
impl Spec for E688 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E688::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E688::Mid(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E688::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E688::Zed => 0u128,
            E688::Mid(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E688::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E696  { Mid(Tri, bool), Zed(bool), Alpha(Tri, bool) }
impl Spec for E696 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E696::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E696::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E696::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E696::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E696::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E696::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E704  { Mid(Tri, bool), Zed(Never), Alpha(Never) }
impl Spec for E704 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E704::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E704::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E704::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E704::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E704::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E704::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E712  { Mid(Tri, bool), Zed { m: Tri }, Alpha }
impl Spec for E712 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E712::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E712::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E712::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E712::Alpha => 0u128,
            E712::Mid(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E712::Zed { m: f0 } => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E720  { Mid(Tri, bool), Zed { m: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E720 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E720::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E720::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E720::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E720::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E720::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E720::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E728  { Mid(Tri, bool), Zed(Tri, bool), Alpha(()) }
impl Spec for E728 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E728::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E728::Zed(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E728::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E728::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E728::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E728::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E736  { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha(Tri, bool) }
impl Spec for E736 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E736::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E736::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E736::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E736::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E736::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E736::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E744  { Mid(Tri, bool), Zed(()), Alpha(Never) }
impl Spec for E744 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E744::Mid(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E744::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E744::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E744::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E744::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E744::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E752  { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha }
impl Spec for E752 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E752::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E752::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E752::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E752::Alpha => 0u128,
            E752::Mid(f0, f1) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E752::Zed(f0, f1, f2) => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E760  { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }
impl Spec for E760 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E760::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E760::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E760::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E760::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E760::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E760::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E768  { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha(()) }
impl Spec for E768 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E768::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E768::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E768::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E768::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E768::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E768::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E776  { Mid(Tri, bool), Zed(Option<bool>), Alpha(Tri, bool) }
impl Spec for E776 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E776::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E776::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E776::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E776::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E776::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E776::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E784  { Mid { m: bool, z: Tri }, Zed, Alpha(Never) }
impl Spec for E784 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E784::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E784::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E784::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E784::Zed => 0u128,
            E784::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E784::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E792  { Mid { m: bool, z: Tri }, Zed(bool), Alpha }
impl Spec for E792 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E792::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E792::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E792::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E792::Alpha => 0u128,
            E792::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E792::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E800  { Mid { m: bool, z: Tri }, Zed(bool), Alpha { m: Never, z: bool } }
impl Spec for E800 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E800::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E800::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E800::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E800::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E800::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E800::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E808  { Mid { m: bool, z: Tri }, Zed(Never), Alpha(()) }
impl Spec for E808 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E808::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E808::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E808::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E808::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E808::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E808::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E816  { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha(Tri, bool) }
impl Spec for E816 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E816::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E816::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E816::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E816::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E816::Zed { m: f0 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E816::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E824  { Mid { m: bool, z: Tri }, Zed(Tri, bool), Alpha(Never) }
impl Spec for E824 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E824::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E824::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E824::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E824::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E824::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E824::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E832  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha }
impl Spec for E832 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E832::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E832::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E832::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E832::Alpha => 0u128,
            E832::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E832::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E840  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E840 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E840::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E840::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E840::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E840::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E840::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E840::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E848  { Mid { m: bool, z: Tri }, Zed(()), Alpha(()) }
impl Spec for E848 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E848::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E848::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E848::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E848::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E848::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E848::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E856  { Mid { m: bool, z: Tri }, Zed(Tri, Two, Tri), Alpha(Tri, bool) }
impl Spec for E856 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E856::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E856::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E856::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E856::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E856::Zed(f0, f1, f2) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E856::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E864  { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha(Never) }
impl Spec for E864 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E864::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E864::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E864::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E864::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E864::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E864::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E872  { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha }
impl Spec for E872 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E872::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E872::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E872::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E872::Alpha => 0u128,
            E872::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E872::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E880  { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha { m: Never, z: bool } }
impl Spec for E880 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E880::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E880::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E880::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E880::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E880::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E880::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E888  { Mid(()), Zed, Alpha(()) }
impl Spec for E888 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E888::Zed; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E888::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E888::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E888::Zed => 0u128,
            E888::Mid(f0) => 1u128 + f0.index(),
            E888::Alpha(f0) => 1u128 + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E896  { Mid(()), Zed(bool), Alpha(Tri, bool) }
impl Spec for E896 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E896::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E896::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E896::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E896::Mid(f0) => 0u128 + f0.index(),
            E896::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E896::Alpha(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E904  { Mid(()), Zed(Never), Alpha(Never) }
impl Spec for E904 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E904::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E904::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E904::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E904::Mid(f0) => 0u128 + f0.index(),
            E904::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E904::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E912  { Mid(()), Zed { m: Tri }, Alpha }
impl Spec for E912 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E912::Alpha; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E912::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E912::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E912::Alpha => 0u128,
            E912::Mid(f0) => 1u128 + f0.index(),
            E912::Zed { m: f0 } => 1u128 + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E920  { Mid(()), Zed { m: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E920 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E920::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E920::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E920::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E920::Mid(f0) => 0u128 + f0.index(),
            E920::Zed { m: f0 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E920::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E928  { Mid(()), Zed(Tri, bool), Alpha(()) }
impl Spec for E928 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E928::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E928::Zed(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E928::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E928::Mid(f0) => 0u128 + f0.index(),
            E928::Zed(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E928::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E936  { Mid(()), Zed { m: bool, z: Tri }, Alpha(Tri, bool) }
impl Spec for E936 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E936::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E936::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E936::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E936::Mid(f0) => 0u128 + f0.index(),
            E936::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E936::Alpha(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E944  { Mid(()), Zed(()), Alpha(Never) }
impl Spec for E944 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E944::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E944::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E944::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E944::Mid(f0) => 0u128 + f0.index(),
            E944::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E944::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E952  { Mid(()), Zed(Tri, Two, Tri), Alpha }
impl Spec for E952 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E952::Alpha; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E952::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E952::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E952::Alpha => 0u128,
            E952::Mid(f0) => 1u128 + f0.index(),
            E952::Zed(f0, f1, f2) => 1u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E960  { Mid(()), Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }
impl Spec for E960 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E960::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E960::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E960::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E960::Mid(f0) => 0u128 + f0.index(),
            E960::Zed(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E960::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E968  { Mid(()), Zed { m: Never, z: bool }, Alpha(()) }
impl Spec for E968 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E968::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E968::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E968::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E968::Mid(f0) => 0u128 + f0.index(),
            E968::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <() as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E968::Alpha(f0) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E976  { Mid(()), Zed(Option<bool>), Alpha(Tri, bool) }
impl Spec for E976 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E976::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E976::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E976::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E976::Mid(f0) => 0u128 + f0.index(),
            E976::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E976::Alpha(f0, f1) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E984  { Mid(Tri, Two, Tri), Zed, Alpha(Never) }
impl Spec for E984 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E984::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E984::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E984::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E984::Zed => 0u128,
            E984::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E984::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E992  { Mid(Tri, Two, Tri), Zed(bool), Alpha }
impl Spec for E992 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E992::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E992::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E992::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E992::Alpha => 0u128,
            E992::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E992::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1000  { Mid(Tri, Two, Tri), Zed(bool), Alpha { m: Never, z: bool } }
impl Spec for E1000 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1000::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1000::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1000::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1000::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1000::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1000::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1008  { Mid(Tri, Two, Tri), Zed(Never), Alpha(()) }
impl Spec for E1008 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1008::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1008::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1008::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1008::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1008::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1008::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1016  { Mid(Tri, Two, Tri), Zed { m: Tri }, Alpha(Tri, bool) }
impl Spec for E1016 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1016::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1016::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1016::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1016::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1016::Zed { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1016::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1024  { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha(Never) }
impl Spec for E1024 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1024::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1024::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1024::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1024::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1024::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1024::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1032  { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha }
impl Spec for E1032 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1032::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1032::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1032::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1032::Alpha => 0u128,
            E1032::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1032::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1040  { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E1040 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1040::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1040::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1040::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1040::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1040::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1040::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1048  { Mid(Tri, Two, Tri), Zed(()), Alpha(()) }
impl Spec for E1048 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1048::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1048::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1048::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1048::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1048::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1048::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1056  { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha(Tri, bool) }
impl Spec for E1056 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1056::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1056::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1056::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1056::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1056::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1056::Alpha(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1064  { Mid(Tri, Two, Tri), Zed { m: Never, z: bool }, Alpha(Never) }
impl Spec for E1064 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1064::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1064::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1064::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1064::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1064::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1064::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1072  { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha }
impl Spec for E1072 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1072::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1072::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1072::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1072::Alpha => 0u128,
            E1072::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1072::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1080  { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha { m: Never, z: bool } }
impl Spec for E1080 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1080::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1080::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1080::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1080::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1080::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1080::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1088  { Mid { m: Never, z: bool }, Zed, Alpha(()) }
impl Spec for E1088 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1088::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1088::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1088::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1088::Zed => 0u128,
            E1088::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1088::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1096  { Mid { m: Never, z: bool }, Zed(bool), Alpha(Tri, bool) }
impl Spec for E1096 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1096::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1096::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1096::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1096::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1096::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1096::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1104  { Mid { m: Never, z: bool }, Zed(Never), Alpha(Never) }
impl Spec for E1104 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1104::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1104::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1104::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1104::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1104::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1104::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1112  { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha }
impl Spec for E1112 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1112::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1112::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1112::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1112::Alpha => 0u128,
            E1112::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1112::Zed { m: f0 } => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1120  { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E1120 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1120::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1120::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1120::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1120::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1120::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1120::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1128  { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha(()) }
impl Spec for E1128 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1128::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1128::Zed(f0, f1); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1128::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1128::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1128::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1128::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1136  { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha(Tri, bool) }
impl Spec for E1136 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1136::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1136::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1136::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1136::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1136::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1136::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1144  { Mid { m: Never, z: bool }, Zed(()), Alpha(Never) }
impl Spec for E1144 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1144::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1144::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1144::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1144::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1144::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1144::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1152  { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha }
impl Spec for E1152 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1152::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1152::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1152::Zed(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1152::Alpha => 0u128,
            E1152::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1152::Zed(f0, f1, f2) => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1160  { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }
impl Spec for E1160 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1160::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1160::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1160::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1160::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1160::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1160::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1168  { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha(()) }
impl Spec for E1168 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1168::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1168::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1168::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1168::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1168::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1168::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1176  { Mid { m: Never, z: bool }, Zed(Option<bool>), Alpha(Tri, bool) }
impl Spec for E1176 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1176::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1176::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1176::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1176::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E1176::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E1176::Alpha(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1184  { Mid(Option<bool>), Zed, Alpha(Never) }
impl Spec for E1184 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1184::Zed; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1184::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1184::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1184::Zed => 0u128,
            E1184::Mid(f0) => 1u128 + f0.index(),
            E1184::Alpha(f0) => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1192  { Mid(Option<bool>), Zed(bool), Alpha }
impl Spec for E1192 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1192::Alpha; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1192::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1192::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1192::Alpha => 0u128,
            E1192::Mid(f0) => 1u128 + f0.index(),
            E1192::Zed(f0) => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1200  { Mid(Option<bool>), Zed(bool), Alpha { m: Never, z: bool } }
impl Spec for E1200 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1200::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E1200::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1200::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1200::Mid(f0) => 0u128 + f0.index(),
            E1200::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1200::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1208  { Mid(Option<bool>), Zed(Never), Alpha(()) }
impl Spec for E1208 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1208::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1208::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1208::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1208::Mid(f0) => 0u128 + f0.index(),
            E1208::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1208::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1216  { Mid(Option<bool>), Zed { m: Tri }, Alpha(Tri, bool) }
impl Spec for E1216 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1216::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1216::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1216::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1216::Mid(f0) => 0u128 + f0.index(),
            E1216::Zed { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1216::Alpha(f0, f1) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1224  { Mid(Option<bool>), Zed(Tri, bool), Alpha(Never) }
impl Spec for E1224 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1224::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1224::Zed(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1224::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1224::Mid(f0) => 0u128 + f0.index(),
            E1224::Zed(f0, f1) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E1224::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1232  { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha }
impl Spec for E1232 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1232::Alpha; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1232::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1232::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1232::Alpha => 0u128,
            E1232::Mid(f0) => 1u128 + f0.index(),
            E1232::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1240  { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }
impl Spec for E1240 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1240::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1240::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1240::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1240::Mid(f0) => 0u128 + f0.index(),
            E1240::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1240::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1248  { Mid(Option<bool>), Zed(()), Alpha(()) }
impl Spec for E1248 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1248::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1248::Zed(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E1248::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1248::Mid(f0) => 0u128 + f0.index(),
            E1248::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1248::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1256  { Mid(Option<bool>), Zed(Tri, Two, Tri), Alpha(Tri, bool) }
impl Spec for E1256 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1256::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E1256::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E1256::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1256::Mid(f0) => 0u128 + f0.index(),
            E1256::Zed(f0, f1, f2) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E1256::Alpha(f0, f1) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1264  { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha(Never) }
impl Spec for E1264 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1264::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1264::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1264::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1264::Mid(f0) => 0u128 + f0.index(),
            E1264::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E1264::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1272  { Mid(Option<bool>), Zed(Option<bool>), Alpha }
impl Spec for E1272 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1272::Alpha; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1272::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1272::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1272::Alpha => 0u128,
            E1272::Mid(f0) => 1u128 + f0.index(),
            E1272::Zed(f0) => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1280  { Mid(Option<bool>), Zed(Option<bool>), Alpha { m: Never, z: bool } }
impl Spec for E1280 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1280::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1280::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E1280::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1280::Mid(f0) => 0u128 + f0.index(),
            E1280::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E1280::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1288  { Mid, Zed, Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1288 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1288::Mid; } i -= 1;
        if i == 0 { return E1288::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1288::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1288::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1288::Mid => 0u128,
            E1288::Zed => 1u128,
            E1288::Alpha(f0) => 2u128 + f0.index(),
            E1288::Quux { m: f0, z: f1 } => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1296  { Mid, Zed, Alpha(Never), Quux }
impl Spec for E1296 {
    fn count() -> u128 { 3u128 + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1296::Mid; } i -= 1;
        if i == 0 { return E1296::Zed; } i -= 1;
        if i == 0 { return E1296::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1296::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1296::Mid => 0u128,
            E1296::Zed => 1u128,
            E1296::Quux => 2u128,
            E1296::Alpha(f0) => 3u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1304  { Mid, Zed, Alpha(Two), Quux(Never) }
impl Spec for E1304 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1304::Mid; } i -= 1;
        if i == 0 { return E1304::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1304::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1304::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1304::Mid => 0u128,
            E1304::Zed => 1u128,
            E1304::Alpha(f0) => 2u128 + f0.index(),
            E1304::Quux(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1312  { Mid, Zed(Tri), Alpha(Tri), Quux(Tri) }
impl Spec for E1312 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1312::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1312::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1312::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1312::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1312::Mid => 0u128,
            E1312::Zed(f0) => 1u128 + f0.index(),
            E1312::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1312::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1320  { Mid, Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1320 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1320::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1320::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1320::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1320::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1320::Mid => 0u128,
            E1320::Zed(f0) => 1u128 + f0.index(),
            E1320::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1320::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1328  { Mid, Zed(Tri), Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1328 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1328::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1328::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1328::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1328::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1328::Mid => 0u128,
            E1328::Zed(f0) => 1u128 + f0.index(),
            E1328::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1328::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1336  { Mid, Zed { m: bool, z: Tri }, Alpha(Tri), Quux }
impl Spec for E1336 {
    fn count() -> u128 { 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1336::Mid; } i -= 1;
        if i == 0 { return E1336::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1336::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1336::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1336::Mid => 0u128,
            E1336::Quux => 1u128,
            E1336::Zed { m: f0, z: f1 } => 2u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1336::Alpha(f0) => 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1344  { Mid, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1344 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1344::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1344::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1344::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1344::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1344::Mid => 0u128,
            E1344::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1344::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1344::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1352  { Mid, Zed { m: bool, z: Tri }, Alpha(Two), Quux(Tri) }
impl Spec for E1352 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1352::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1352::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1352::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1352::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1352::Mid => 0u128,
            E1352::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1352::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1352::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1360  { Mid, Zed(Never), Alpha, Quux(Two) }
impl Spec for E1360 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1360::Mid; } i -= 1;
        if i == 0 { return E1360::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1360::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1360::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1360::Mid => 0u128,
            E1360::Alpha => 1u128,
            E1360::Zed(f0) => 2u128 + f0.index(),
            E1360::Quux(f0) => 2u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1368  { Mid, Zed(Never), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1368 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1368::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1368::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1368::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1368::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1368::Mid => 0u128,
            E1368::Zed(f0) => 1u128 + f0.index(),
            E1368::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1368::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1376  { Mid, Zed(Never), Alpha(Two), Quux }
impl Spec for E1376 {
    fn count() -> u128 { 2u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1376::Mid; } i -= 1;
        if i == 0 { return E1376::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1376::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1376::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1376::Mid => 0u128,
            E1376::Quux => 1u128,
            E1376::Zed(f0) => 2u128 + f0.index(),
            E1376::Alpha(f0) => 2u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1384  { Mid, Zed(Two), Alpha, Quux(Never) }
impl Spec for E1384 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1384::Mid; } i -= 1;
        if i == 0 { return E1384::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1384::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1384::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1384::Mid => 0u128,
            E1384::Alpha => 1u128,
            E1384::Zed(f0) => 2u128 + f0.index(),
            E1384::Quux(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1392  { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1392 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1392::Mid; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1392::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1392::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1392::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1392::Mid => 0u128,
            E1392::Zed(f0) => 1u128 + f0.index(),
            E1392::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1392::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1400  { Mid, Zed(Two), Alpha(Never), Quux(Two) }
impl Spec for E1400 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1400::Mid; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1400::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1400::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1400::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1400::Mid => 0u128,
            E1400::Zed(f0) => 1u128 + f0.index(),
            E1400::Alpha(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1400::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1408  { Mid(Tri), Zed, Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1408 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1408::Zed; } i -= 1;
        if i == 0 { return E1408::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1408::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1408::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1408::Zed => 0u128,
            E1408::Alpha => 1u128,
            E1408::Mid(f0) => 2u128 + f0.index(),
            E1408::Quux { m: f0, z: f1 } => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1416  { Mid(Tri), Zed, Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1416 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1416::Zed; } i -= 1;
        if i == 0 { return E1416::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1416::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1416::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1416::Zed => 0u128,
            E1416::Quux => 1u128,
            E1416::Mid(f0) => 2u128 + f0.index(),
            E1416::Alpha { m: f0, z: f1 } => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1424  { Mid(Tri), Zed, Alpha(Never), Quux(Never) }
impl Spec for E1424 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1424::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1424::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1424::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1424::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1424::Zed => 0u128,
            E1424::Mid(f0) => 1u128 + f0.index(),
            E1424::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1424::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1432  { Mid(Tri), Zed(Tri), Alpha, Quux(Tri) }
impl Spec for E1432 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1432::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1432::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1432::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1432::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1432::Alpha => 0u128,
            E1432::Mid(f0) => 1u128 + f0.index(),
            E1432::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1432::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1440  { Mid(Tri), Zed(Tri), Alpha(Tri), Quux(Two) }
impl Spec for E1440 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1440::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1440::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1440::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1440::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1440::Mid(f0) => 0u128 + f0.index(),
            E1440::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1440::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1440::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1448  { Mid(Tri), Zed(Tri), Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1448 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1448::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1448::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1448::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1448::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1448::Mid(f0) => 0u128 + f0.index(),
            E1448::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1448::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1448::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1456  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux }
impl Spec for E1456 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1456::Alpha; } i -= 1;
        if i == 0 { return E1456::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1456::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1456::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1456::Alpha => 0u128,
            E1456::Quux => 1u128,
            E1456::Mid(f0) => 2u128 + f0.index(),
            E1456::Zed { m: f0, z: f1 } => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1464  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Never) }
impl Spec for E1464 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1464::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1464::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1464::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1464::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1464::Mid(f0) => 0u128 + f0.index(),
            E1464::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1464::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1464::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1472  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Tri) }
impl Spec for E1472 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1472::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1472::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1472::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1472::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1472::Mid(f0) => 0u128 + f0.index(),
            E1472::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1472::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1472::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1480  { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Two), Quux(Two) }
impl Spec for E1480 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1480::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1480::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1480::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1480::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1480::Mid(f0) => 0u128 + f0.index(),
            E1480::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1480::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1480::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1488  { Mid(Tri), Zed(Never), Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1488 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1488::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1488::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1488::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1488::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1488::Mid(f0) => 0u128 + f0.index(),
            E1488::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1488::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1488::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1496  { Mid(Tri), Zed(Never), Alpha(Never), Quux }
impl Spec for E1496 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1496::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1496::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1496::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1496::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1496::Quux => 0u128,
            E1496::Mid(f0) => 1u128 + f0.index(),
            E1496::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1496::Alpha(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1504  { Mid(Tri), Zed(Never), Alpha(Two), Quux(Never) }
impl Spec for E1504 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1504::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1504::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1504::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1504::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1504::Mid(f0) => 0u128 + f0.index(),
            E1504::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1504::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1504::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1512  { Mid(Tri), Zed(Two), Alpha(Tri), Quux(Tri) }
impl Spec for E1512 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1512::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1512::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1512::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1512::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1512::Mid(f0) => 0u128 + f0.index(),
            E1512::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1512::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1512::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1520  { Mid(Tri), Zed(Two), Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1520 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1520::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1520::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1520::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1520::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1520::Mid(f0) => 0u128 + f0.index(),
            E1520::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1520::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1520::Quux(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1528  { Mid(Tri), Zed(Two), Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1528 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1528::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1528::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1528::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1528::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1528::Mid(f0) => 0u128 + f0.index(),
            E1528::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1528::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1528::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1536  { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux }
impl Spec for E1536 {
    fn count() -> u128 { 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1536::Zed; } i -= 1;
        if i == 0 { return E1536::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1536::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1536::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1536::Zed => 0u128,
            E1536::Quux => 1u128,
            E1536::Mid { m: f0, z: f1 } => 2u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1536::Alpha(f0) => 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1544  { Mid { m: bool, z: Tri }, Zed, Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1544 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1544::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1544::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1544::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1544::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1544::Zed => 0u128,
            E1544::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1544::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1544::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1552  { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux(Tri) }
impl Spec for E1552 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1552::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1552::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1552::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1552::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1552::Zed => 0u128,
            E1552::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1552::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1552::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1560  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha, Quux(Two) }
impl Spec for E1560 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1560::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1560::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1560::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1560::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1560::Alpha => 0u128,
            E1560::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1560::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1560::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1568  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1568 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1568::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1568::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1568::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1568::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1568::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1568::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1568::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1568::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1576  { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Two), Quux }
impl Spec for E1576 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1576::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1576::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1576::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1576::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1576::Quux => 0u128,
            E1576::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1576::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1576::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1584  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha, Quux(Never) }
impl Spec for E1584 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1584::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1584::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1584::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1584::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1584::Alpha => 0u128,
            E1584::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1584::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1584::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1592  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1592 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1592::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1592::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1592::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1592::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1592::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1592::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1592::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1592::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1600  { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Never), Quux(Two) }
impl Spec for E1600 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1600::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1600::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1600::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1600::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1600::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1600::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1600::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1600::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1608  { Mid { m: bool, z: Tri }, Zed(Never), Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1608 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1608::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1608::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1608::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1608::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1608::Alpha => 0u128,
            E1608::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1608::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1608::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1616  { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1616 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1616::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1616::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1616::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1616::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1616::Quux => 0u128,
            E1616::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1616::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1616::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1624  { Mid { m: bool, z: Tri }, Zed(Never), Alpha(Never), Quux(Never) }
impl Spec for E1624 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1624::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1624::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1624::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1624::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1624::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1624::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1624::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1624::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1632  { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux(Tri) }
impl Spec for E1632 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1632::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1632::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1632::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1632::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1632::Alpha => 0u128,
            E1632::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1632::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1632::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1640  { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Tri), Quux(Two) }
impl Spec for E1640 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1640::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1640::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1640::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1640::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1640::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1640::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1640::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1640::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1648  { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1648 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1648::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1648::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1648::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1648::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1648::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1648::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1648::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1648::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1656  { Mid(Never), Zed, Alpha, Quux }
impl Spec for E1656 {
    fn count() -> u128 { 3u128 + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1656::Zed; } i -= 1;
        if i == 0 { return E1656::Alpha; } i -= 1;
        if i == 0 { return E1656::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1656::Mid(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1656::Zed => 0u128,
            E1656::Alpha => 1u128,
            E1656::Quux => 2u128,
            E1656::Mid(f0) => 3u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1664  { Mid(Never), Zed, Alpha(Tri), Quux(Never) }
impl Spec for E1664 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1664::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1664::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1664::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1664::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1664::Zed => 0u128,
            E1664::Mid(f0) => 1u128 + f0.index(),
            E1664::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1664::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1672  { Mid(Never), Zed, Alpha(Never), Quux(Tri) }
impl Spec for E1672 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1672::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1672::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1672::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1672::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1672::Zed => 0u128,
            E1672::Mid(f0) => 1u128 + f0.index(),
            E1672::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1672::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1680  { Mid(Never), Zed, Alpha(Two), Quux(Two) }
impl Spec for E1680 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1680::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1680::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1680::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1680::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1680::Zed => 0u128,
            E1680::Mid(f0) => 1u128 + f0.index(),
            E1680::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1680::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1688  { Mid(Never), Zed(Tri), Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1688 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1688::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1688::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1688::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1688::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1688::Mid(f0) => 0u128 + f0.index(),
            E1688::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1688::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1688::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1696  { Mid(Never), Zed(Tri), Alpha(Never), Quux }
impl Spec for E1696 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1696::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1696::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1696::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1696::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1696::Quux => 0u128,
            E1696::Mid(f0) => 1u128 + f0.index(),
            E1696::Zed(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1696::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1704  { Mid(Never), Zed(Tri), Alpha(Two), Quux(Never) }
impl Spec for E1704 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1704::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1704::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1704::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1704::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1704::Mid(f0) => 0u128 + f0.index(),
            E1704::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1704::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1704::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1712  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Tri) }
impl Spec for E1712 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1712::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1712::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1712::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1712::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1712::Mid(f0) => 0u128 + f0.index(),
            E1712::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1712::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1712::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1720  { Mid(Never), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E1720 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1720::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1720::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1720::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1720::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1720::Mid(f0) => 0u128 + f0.index(),
            E1720::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1720::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1720::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1728  { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Two), Quux { m: bool, z: Tri } }
impl Spec for E1728 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1728::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1728::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1728::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1728::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1728::Mid(f0) => 0u128 + f0.index(),
            E1728::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1728::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1728::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1736  { Mid(Never), Zed(Never), Alpha(Tri), Quux }
impl Spec for E1736 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1736::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1736::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1736::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1736::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1736::Quux => 0u128,
            E1736::Mid(f0) => 1u128 + f0.index(),
            E1736::Zed(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1736::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1744  { Mid(Never), Zed(Never), Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E1744 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1744::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1744::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1744::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1744::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1744::Mid(f0) => 0u128 + f0.index(),
            E1744::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1744::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1744::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1752  { Mid(Never), Zed(Never), Alpha(Two), Quux(Tri) }
impl Spec for E1752 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1752::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1752::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1752::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1752::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1752::Mid(f0) => 0u128 + f0.index(),
            E1752::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1752::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1752::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1760  { Mid(Never), Zed(Two), Alpha, Quux(Two) }
impl Spec for E1760 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1760::Alpha; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1760::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1760::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1760::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1760::Alpha => 0u128,
            E1760::Mid(f0) => 1u128 + f0.index(),
            E1760::Zed(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1760::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1768  { Mid(Never), Zed(Two), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }
impl Spec for E1768 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1768::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1768::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1768::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1768::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1768::Mid(f0) => 0u128 + f0.index(),
            E1768::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1768::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1768::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1776  { Mid(Never), Zed(Two), Alpha(Two), Quux }
impl Spec for E1776 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1776::Quux; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1776::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1776::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1776::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1776::Quux => 0u128,
            E1776::Mid(f0) => 1u128 + f0.index(),
            E1776::Zed(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E1776::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1784  { Mid(Two), Zed, Alpha, Quux(Never) }
impl Spec for E1784 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1784::Zed; } i -= 1;
        if i == 0 { return E1784::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1784::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1784::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1784::Zed => 0u128,
            E1784::Alpha => 1u128,
            E1784::Mid(f0) => 2u128 + f0.index(),
            E1784::Quux(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1792  { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E1792 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1792::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1792::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1792::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1792::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1792::Zed => 0u128,
            E1792::Mid(f0) => 1u128 + f0.index(),
            E1792::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1792::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1800  { Mid(Two), Zed, Alpha(Never), Quux(Two) }
impl Spec for E1800 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1800::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1800::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1800::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1800::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1800::Zed => 0u128,
            E1800::Mid(f0) => 1u128 + f0.index(),
            E1800::Alpha(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1800::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1808  { Mid(Two), Zed(Tri), Alpha, Quux { m: bool, z: Tri } }
impl Spec for E1808 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1808::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1808::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1808::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1808::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1808::Alpha => 0u128,
            E1808::Mid(f0) => 1u128 + f0.index(),
            E1808::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1808::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1816  { Mid(Two), Zed(Tri), Alpha { m: bool, z: Tri }, Quux }
impl Spec for E1816 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1816::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1816::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1816::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1816::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1816::Quux => 0u128,
            E1816::Mid(f0) => 1u128 + f0.index(),
            E1816::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1816::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1824  { Mid(Two), Zed(Tri), Alpha(Never), Quux(Never) }
impl Spec for E1824 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1824::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1824::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1824::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1824::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1824::Mid(f0) => 0u128 + f0.index(),
            E1824::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1824::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
            E1824::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1832  { Mid(Two), Zed { m: bool, z: Tri }, Alpha, Quux(Tri) }
impl Spec for E1832 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1832::Alpha; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1832::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1832::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1832::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1832::Alpha => 0u128,
            E1832::Mid(f0) => 1u128 + f0.index(),
            E1832::Zed { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1832::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1840  { Mid(Two), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Two) }
impl Spec for E1840 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1840::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1840::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1840::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1840::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1840::Mid(f0) => 0u128 + f0.index(),
            E1840::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1840::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1840::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1848  { Mid(Two), Zed { m: bool, z: Tri }, Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E1848 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1848::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1848::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1848::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1848::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1848::Mid(f0) => 0u128 + f0.index(),
            E1848::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1848::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E1848::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1856  { Mid(Two), Zed(Never), Alpha, Quux }
impl Spec for E1856 {
    fn count() -> u128 { 2u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1856::Alpha; } i -= 1;
        if i == 0 { return E1856::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1856::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1856::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1856::Alpha => 0u128,
            E1856::Quux => 1u128,
            E1856::Mid(f0) => 2u128 + f0.index(),
            E1856::Zed(f0) => 2u128 + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1864  { Mid(Two), Zed(Never), Alpha(Tri), Quux(Never) }
impl Spec for E1864 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1864::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1864::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1864::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1864::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1864::Mid(f0) => 0u128 + f0.index(),
            E1864::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1864::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1864::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1872  { Mid(Two), Zed(Never), Alpha(Never), Quux(Tri) }
impl Spec for E1872 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1872::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1872::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1872::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1872::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1872::Mid(f0) => 0u128 + f0.index(),
            E1872::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1872::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1872::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1880  { Mid(Two), Zed(Never), Alpha(Two), Quux(Two) }
impl Spec for E1880 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1880::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1880::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1880::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1880::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1880::Mid(f0) => 0u128 + f0.index(),
            E1880::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1880::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E1880::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1888  { Mid(Two), Zed(Two), Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E1888 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1888::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1888::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E1888::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1888::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1888::Mid(f0) => 0u128 + f0.index(),
            E1888::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1888::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1888::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1896  { Mid(Two), Zed(Two), Alpha(Never), Quux }
impl Spec for E1896 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1896::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1896::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1896::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1896::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1896::Quux => 0u128,
            E1896::Mid(f0) => 1u128 + f0.index(),
            E1896::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1896::Alpha(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1904  { Mid(Two), Zed(Two), Alpha(Two), Quux(Never) }
impl Spec for E1904 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1904::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1904::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1904::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E1904::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1904::Mid(f0) => 0u128 + f0.index(),
            E1904::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1904::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1904::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1912  { Mid, Zed, Alpha(bool, Tri), Quux(bool, Tri), Beta(bool, Tri) }
impl Spec for E1912 {
    fn count() -> u128 { 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1912::Mid; } i -= 1;
        if i == 0 { return E1912::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1912::Alpha(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1912::Quux(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1912::Beta(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1912::Mid => 0u128,
            E1912::Zed => 1u128,
            E1912::Alpha(f0, f1) => 2u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1912::Quux(f0, f1) => 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1912::Beta(f0, f1) => 2u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1920  { Mid, Zed(bool, Tri), Alpha(bool, Tri), Quux(bool, Tri), Beta(bool, Tri) }
impl Spec for E1920 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1920::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1920::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1920::Alpha(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1920::Quux(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1920::Beta(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1920::Mid => 0u128,
            E1920::Zed(f0, f1) => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1920::Alpha(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1920::Quux(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1920::Beta(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1928  { Mid(bool, Tri), Zed, Alpha(bool, Tri), Quux(bool, Tri), Beta(bool, Tri) }
impl Spec for E1928 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1928::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1928::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1928::Alpha(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1928::Quux(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1928::Beta(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1928::Zed => 0u128,
            E1928::Mid(f0, f1) => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1928::Alpha(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1928::Quux(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1928::Beta(f0, f1) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1936  { Mid(bool, Tri), Zed(bool, Tri), Alpha(bool, Tri), Quux(bool, Tri), Beta(bool, Tri) }
impl Spec for E1936 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1936::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1936::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1936::Alpha(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1936::Quux(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E1936::Beta(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1936::Mid(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E1936::Zed(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1936::Alpha(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1936::Quux(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E1936::Beta(f0, f1) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1944  { Mid, Zed, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard }
impl Spec for E1944 {
    fn count() -> u128 { 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1944::Mid; } i -= 1;
        if i == 0 { return E1944::Zed; } i -= 1;
        if i == 0 { return E1944::Yard; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1944::Alpha { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1944::Quux { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1944::Beta { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1944::Mid => 0u128,
            E1944::Zed => 1u128,
            E1944::Yard => 2u128,
            E1944::Alpha { m: f0 } => 3u128 + f0.index(),
            E1944::Quux { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1944::Beta { m: f0 } => 3u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1952  { Mid, Zed { m: Two }, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard { m: Two } }
impl Spec for E1952 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1952::Mid; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1952::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1952::Alpha { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1952::Quux { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1952::Beta { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1952::Yard { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1952::Mid => 0u128,
            E1952::Zed { m: f0 } => 1u128 + f0.index(),
            E1952::Alpha { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1952::Quux { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1952::Beta { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1952::Yard { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1960  { Mid { m: Two }, Zed, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard { m: Two } }
impl Spec for E1960 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1960::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1960::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1960::Alpha { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1960::Quux { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1960::Beta { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1960::Yard { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1960::Zed => 0u128,
            E1960::Mid { m: f0 } => 1u128 + f0.index(),
            E1960::Alpha { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1960::Quux { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1960::Beta { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1960::Yard { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1968  { Mid { m: Two }, Zed { m: Two }, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard }
impl Spec for E1968 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1968::Yard; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1968::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1968::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1968::Alpha { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1968::Quux { m: f0 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E1968::Beta { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1968::Yard => 0u128,
            E1968::Mid { m: f0 } => 1u128 + f0.index(),
            E1968::Zed { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E1968::Alpha { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1968::Quux { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E1968::Beta { m: f0 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1976  { Mid(), Zed() }
impl Spec for E1976 {
    fn count() -> u128 { 2u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1976::Mid(); } i -= 1;
        if i == 0 { return E1976::Zed(); } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1976::Mid() => 0u128,
            E1976::Zed() => 1u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1984  { Mid {  }, Zed }
impl Spec for E1984 {
    fn count() -> u128 { 2u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1984::Mid {  }; } i -= 1;
        if i == 0 { return E1984::Zed; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1984::Mid {  } => 0u128,
            E1984::Zed => 1u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E1992  { Mid(Option<bool>), Zed, Alpha { m: bool, z: Option<bool> } }
impl Spec for E1992 {
    fn count() -> u128 { 1u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E1992::Zed; } i -= 1;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E1992::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Option<bool>>(&mut r); return E1992::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E1992::Zed => 0u128,
            E1992::Mid(f0) => 1u128 + f0.index(),
            E1992::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2000  { Mid(Result<Tri,bool>), Zed, Alpha { m: bool, z: Result<Tri,bool> } }
impl Spec for E2000 {
    fn count() -> u128 { 1u128 + 1u128 * <Result<Tri,bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Result<Tri,bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2000::Zed; } i -= 1;
        let c = 1u128 * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); return E2000::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Result<Tri,bool>>(&mut r); return E2000::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2000::Zed => 0u128,
            E2000::Mid(f0) => 1u128 + f0.index(),
            E2000::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Result<Tri,bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2008  { Mid((Never,bool)), Zed, Alpha { m: bool, z: (Never,bool) } }
impl Spec for E2008 {
    fn count() -> u128 { 1u128 + 1u128 * <(Never,bool) as Spec>::count() + 1u128 * <bool as Spec>::count() * <(Never,bool) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2008::Zed; } i -= 1;
        let c = 1u128 * <(Never,bool) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(Never,bool)>(&mut r); return E2008::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <(Never,bool) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<(Never,bool)>(&mut r); return E2008::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2008::Zed => 0u128,
            E2008::Mid(f0) => 1u128 + f0.index(),
            E2008::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <(Never,bool) as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2016  { Mid(Option<bool>, D17), Zed { m: D17 } }
impl Spec for E2016 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() * <D17 as Spec>::count() + 1u128 * <D17 as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count() * <D17 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); let f1 = pick::<D17>(&mut r); return E2016::Mid(f0, f1); } i -= c;
        let c = 1u128 * <D17 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<D17>(&mut r); return E2016::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2016::Mid(f0, f1) => 0u128 + f0.index() + <Option<bool> as Spec>::count() * f1.index(),
            E2016::Zed { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() * <D17 as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2024  { Mid((bool,Tri), Option<bool>), Zed { m: Option<bool> } }
impl Spec for E2024 {
    fn count() -> u128 { 0u128 + 1u128 * <(bool,Tri) as Spec>::count() * <Option<bool> as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <(bool,Tri) as Spec>::count() * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(bool,Tri)>(&mut r); let f1 = pick::<Option<bool>>(&mut r); return E2024::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E2024::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2024::Mid(f0, f1) => 0u128 + f0.index() + <(bool,Tri) as Spec>::count() * f1.index(),
            E2024::Zed { m: f0 } => 0u128 + 1u128 * <(bool,Tri) as Spec>::count() * <Option<bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2032  { Mid(Option<Never>, [bool;2]), Zed { m: [bool;2] } }
impl Spec for E2032 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<Never> as Spec>::count() * <[bool;2] as Spec>::count() + 1u128 * <[bool;2] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<Never> as Spec>::count() * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<Never>>(&mut r); let f1 = pick::<[bool;2]>(&mut r); return E2032::Mid(f0, f1); } i -= c;
        let c = 1u128 * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); return E2032::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2032::Mid(f0, f1) => 0u128 + f0.index() + <Option<Never> as Spec>::count() * f1.index(),
            E2032::Zed { m: f0 } => 0u128 + 1u128 * <Option<Never> as Spec>::count() * <[bool;2] as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2040  { Mid(Result<Tri,bool>, (bool,Tri)), Zed { m: (bool,Tri) } }
impl Spec for E2040 {
    fn count() -> u128 { 0u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <(bool,Tri) as Spec>::count() + 1u128 * <(bool,Tri) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Result<Tri,bool> as Spec>::count() * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); let f1 = pick::<(bool,Tri)>(&mut r); return E2040::Mid(f0, f1); } i -= c;
        let c = 1u128 * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(bool,Tri)>(&mut r); return E2040::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2040::Mid(f0, f1) => 0u128 + f0.index() + <Result<Tri,bool> as Spec>::count() * f1.index(),
            E2040::Zed { m: f0 } => 0u128 + 1u128 * <Result<Tri,bool> as Spec>::count() * <(bool,Tri) as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2048  { Mid([Tri;0], Option<Never>), Zed { m: Option<Never> } }
impl Spec for E2048 {
    fn count() -> u128 { 0u128 + 1u128 * <[Tri;0] as Spec>::count() * <Option<Never> as Spec>::count() + 1u128 * <Option<Never> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[Tri;0] as Spec>::count() * <Option<Never> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Tri;0]>(&mut r); let f1 = pick::<Option<Never>>(&mut r); return E2048::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Option<Never> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<Never>>(&mut r); return E2048::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2048::Mid(f0, f1) => 0u128 + f0.index() + <[Tri;0] as Spec>::count() * f1.index(),
            E2048::Zed { m: f0 } => 0u128 + 1u128 * <[Tri;0] as Spec>::count() * <Option<Never> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2056  { Mid(D17, Result<Tri,bool>), Zed { m: Result<Tri,bool> } }
impl Spec for E2056 {
    fn count() -> u128 { 0u128 + 1u128 * <D17 as Spec>::count() * <Result<Tri,bool> as Spec>::count() + 1u128 * <Result<Tri,bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <D17 as Spec>::count() * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<D17>(&mut r); let f1 = pick::<Result<Tri,bool>>(&mut r); return E2056::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); return E2056::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2056::Mid(f0, f1) => 0u128 + f0.index() + <D17 as Spec>::count() * f1.index(),
            E2056::Zed { m: f0 } => 0u128 + 1u128 * <D17 as Spec>::count() * <Result<Tri,bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2064 (bool) ;
impl Spec for S2064 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return S2064(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2064(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2072 ((), ()) ;
impl Spec for S2072 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); return S2072(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2072(f0, f1) => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2080 ((), Five) ;
impl Spec for S2080 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Five>(&mut r); return S2080(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2080(f0, f1) => 0u128 + f0.index() + <() as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2088 (bool, Tri) ;
impl Spec for S2088 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return S2088(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2088(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2096 (Never, Never) ;
impl Spec for S2096 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); return S2096(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2096(f0, f1) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2104 (Tri, bool) ;
impl Spec for S2104 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return S2104(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2104(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2112 (Five, ()) ;
impl Spec for S2112 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<()>(&mut r); return S2112(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2112(f0, f1) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2120 (Five, Five) ;
impl Spec for S2120 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Five>(&mut r); return S2120(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2120(f0, f1) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2128 ((), (), Tri) ;
impl Spec for S2128 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return S2128(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2128(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2136 ((), bool, Never) ;
impl Spec for S2136 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Never>(&mut r); return S2136(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2136(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2144 ((), Never, bool) ;
impl Spec for S2144 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return S2144(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2144(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2152 ((), Tri, ()) ;
impl Spec for S2152 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return S2152(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2152(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2160 ((), Tri, Five) ;
impl Spec for S2160 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return S2160(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2160(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2168 ((), Five, Tri) ;
impl Spec for S2168 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Tri>(&mut r); return S2168(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2168(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2176 (bool, (), Never) ;
impl Spec for S2176 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Never>(&mut r); return S2176(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2176(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2184 (bool, bool, bool) ;
impl Spec for S2184 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); return S2184(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2184(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2192 (bool, Never, ()) ;
impl Spec for S2192 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<()>(&mut r); return S2192(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2192(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2200 (bool, Never, Five) ;
impl Spec for S2200 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Never as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Five>(&mut r); return S2200(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2200(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2208 (bool, Tri, Tri) ;
impl Spec for S2208 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Tri>(&mut r); return S2208(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2208(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2216 (bool, Five, Never) ;
impl Spec for S2216 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Five as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Five as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Never>(&mut r); return S2216(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2216(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2224 (Never, (), bool) ;
impl Spec for S2224 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); return S2224(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2224(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2232 (Never, bool, ()) ;
impl Spec for S2232 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); return S2232(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2232(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2240 (Never, bool, Five) ;
impl Spec for S2240 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Five>(&mut r); return S2240(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2240(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2248 (Never, Never, Tri) ;
impl Spec for S2248 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Never as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Tri>(&mut r); return S2248(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2248(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2256 (Never, Tri, Never) ;
impl Spec for S2256 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Never>(&mut r); return S2256(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2256(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2264 (Never, Five, bool) ;
impl Spec for S2264 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Five as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Five as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<bool>(&mut r); return S2264(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2264(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2272 (Tri, (), ()) ;
impl Spec for S2272 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); return S2272(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2272(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2280 (Tri, (), Five) ;
impl Spec for S2280 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Five>(&mut r); return S2280(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2280(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2288 (Tri, bool, Tri) ;
impl Spec for S2288 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); return S2288(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2288(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2296 (Tri, Never, Never) ;
impl Spec for S2296 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return S2296(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2296(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2304 (Tri, Tri, bool) ;
impl Spec for S2304 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); return S2304(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2304(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2312 (Tri, Five, ()) ;
impl Spec for S2312 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<()>(&mut r); return S2312(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2312(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2320 (Tri, Five, Five) ;
impl Spec for S2320 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Five as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Five>(&mut r); return S2320(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2320(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2328 (Five, (), Tri) ;
impl Spec for S2328 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return S2328(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2328(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2336 (Five, bool, Never) ;
impl Spec for S2336 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <bool as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Never>(&mut r); return S2336(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2336(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2344 (Five, Never, bool) ;
impl Spec for S2344 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<bool>(&mut r); return S2344(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2344(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2352 (Five, Tri, ()) ;
impl Spec for S2352 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return S2352(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2352(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2360 (Five, Tri, Five) ;
impl Spec for S2360 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return S2360(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2360(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2368 (Five, Five, Tri) ;
impl Spec for S2368 {
    fn count() -> u128 { 0u128 + 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Five as Spec>::count() * <Five as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Five>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<Tri>(&mut r); return S2368(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2368(f0, f1, f2) => 0u128 + f0.index() + <Five as Spec>::count() * f1.index() + <Five as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2376 (bool, bool, bool, ()) ;
impl Spec for S2376 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<()>(&mut r); return S2376(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2376(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2384 (bool, bool, (), bool) ;
impl Spec for S2384 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<bool>(&mut r); return S2384(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2384(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2392 (bool, Tri, bool, Tri) ;
impl Spec for S2392 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); return S2392(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2392(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2400 (bool, Tri, Tri, ()) ;
impl Spec for S2400 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<()>(&mut r); return S2400(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2400(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2408 (bool, (), bool, bool) ;
impl Spec for S2408 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<bool>(&mut r); return S2408(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2408(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2416 (bool, (), Tri, Tri) ;
impl Spec for S2416 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<Tri>(&mut r); return S2416(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2416(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2424 (bool, (), (), ()) ;
impl Spec for S2424 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<()>(&mut r); return S2424(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2424(f0, f1, f2, f3) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2432 (Tri, bool, Tri, bool) ;
impl Spec for S2432 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<bool>(&mut r); return S2432(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2432(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index() + <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2440 (Tri, bool, (), Tri) ;
impl Spec for S2440 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<Tri>(&mut r); return S2440(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2440(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index() + <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2448 (Tri, Tri, bool, ()) ;
impl Spec for S2448 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<()>(&mut r); return S2448(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2448(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2456 (Tri, Tri, (), bool) ;
impl Spec for S2456 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<bool>(&mut r); return S2456(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2456(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2464 (Tri, (), bool, Tri) ;
impl Spec for S2464 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); return S2464(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2464(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2472 (Tri, (), Tri, ()) ;
impl Spec for S2472 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<()>(&mut r); return S2472(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2472(f0, f1, f2, f3) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2480 ((), bool, bool, bool) ;
impl Spec for S2480 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<bool>(&mut r); return S2480(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2480(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <bool as Spec>::count() * f2.index() + <() as Spec>::count() * <bool as Spec>::count() * <bool as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2488 ((), bool, (), ()) ;
impl Spec for S2488 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<()>(&mut r); return S2488(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2488(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <bool as Spec>::count() * f2.index() + <() as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2496 ((), Tri, (), Tri) ;
impl Spec for S2496 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<Tri>(&mut r); return S2496(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2496(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index() + <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2504 ((), (), (), bool) ;
impl Spec for S2504 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<bool>(&mut r); return S2504(f0, f1, f2, f3); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2504(f0, f1, f2, f3) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index() + <() as Spec>::count() * <() as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2512 (Tri, (), Two, Tri, (), Two) ;
impl Spec for S2512 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Two>(&mut r); let f3 = pick::<Tri>(&mut r); let f4 = pick::<()>(&mut r); let f5 = pick::<Two>(&mut r); return S2512(f0, f1, f2, f3, f4, f5); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2512(f0, f1, f2, f3, f4, f5) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * f3.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * f4.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f5.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2520   { m: bool, z: Tri, a: bool, q: Tri, b: bool, y: Tri, _c: bool, x: Tri, d: bool, w: Tri, e2: bool, e10: Tri, v: bool, f: Tri, u: bool, n9: Tri }
impl Spec for S2520 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<bool>(&mut r); let f3 = pick::<Tri>(&mut r); let f4 = pick::<bool>(&mut r); let f5 = pick::<Tri>(&mut r); let f6 = pick::<bool>(&mut r); let f7 = pick::<Tri>(&mut r); let f8 = pick::<bool>(&mut r); let f9 = pick::<Tri>(&mut r); let f10 = pick::<bool>(&mut r); let f11 = pick::<Tri>(&mut r); let f12 = pick::<bool>(&mut r); let f13 = pick::<Tri>(&mut r); let f14 = pick::<bool>(&mut r); let f15 = pick::<Tri>(&mut r); return S2520 { m: f0, z: f1, a: f2, q: f3, b: f4, y: f5, _c: f6, x: f7, d: f8, w: f9, e2: f10, e10: f11, v: f12, f: f13, u: f14, n9: f15 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2520 { m: f0, z: f1, a: f2, q: f3, b: f4, y: f5, _c: f6, x: f7, d: f8, w: f9, e2: f10, e10: f11, v: f12, f: f13, u: f14, n9: f15 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f3.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f4.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f5.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f6.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f7.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f8.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f9.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f10.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f11.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f12.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f13.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f14.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <bool as Spec>::count() * f15.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2528 ([bool;2]) ;
impl Spec for S2528 {
    fn count() -> u128 { 0u128 + 1u128 * <[bool;2] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[bool;2] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); return S2528(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2528(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2536 (Tri, Option<Never>, bool) ;
impl Spec for S2536 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Option<Never> as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Option<Never> as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Option<Never>>(&mut r); let f2 = pick::<bool>(&mut r); return S2536(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2536(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Option<Never> as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2544   { m: D17, z: Tri }
impl Spec for S2544 {
    fn count() -> u128 { 0u128 + 1u128 * <D17 as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <D17 as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<D17>(&mut r); let f1 = pick::<Tri>(&mut r); return S2544 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2544 { m: f0, z: f1 } => 0u128 + f0.index() + <D17 as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2552 (N16, N16, N32) ;
impl Spec for S2552 {
    fn count() -> u128 { 0u128 + 1u128 * <N16 as Spec>::count() * <N16 as Spec>::count() * <N32 as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <N16 as Spec>::count() * <N16 as Spec>::count() * <N32 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<N16>(&mut r); let f1 = pick::<N16>(&mut r); let f2 = pick::<N32>(&mut r); return S2552(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2552(f0, f1, f2) => 0u128 + f0.index() + <N16 as Spec>::count() * f1.index() + <N16 as Spec>::count() * <N16 as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
/// Documented.
#[allow(dead_code)]
pub enum E2560  { Mid { x: Tri, value: bool }, Zed, Alpha { x: bool } }
impl Spec for E2560 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2560::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E2560::Mid { x: f0, value: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E2560::Alpha { x: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2560::Zed => 0u128,
            E2560::Mid { x: f0, value: f1 } => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E2560::Alpha { x: f0 } => 1u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2568  { /// doc
    Mid { discr: bool, y: Tri, x: Five } }
impl Spec for E2568 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return E2568::Mid { discr: f0, y: f1, x: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2568::Mid { discr: f0, y: f1, x: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2576<A: Clone + 'static>  { Mid, Zed(A) }
impl<A: Spec> Spec for E2576<A> {
    fn count() -> u128 { 1u128 + 1u128 * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E2576::Mid; } i -= 1;
        let c = 1u128 * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); return E2576::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2576::Mid => 0u128,
            E2576::Zed(f0) => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2584<A: Clone + 'static>  { Mid(A, A), Zed { m: A, z: Tri, a: A } }
impl<A: Spec> Spec for E2584<A> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() * <A as Spec>::count() + 1u128 * <A as Spec>::count() * <Tri as Spec>::count() * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<A>(&mut r); return E2584::Mid(f0, f1); } i -= c;
        let c = 1u128 * <A as Spec>::count() * <Tri as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<A>(&mut r); return E2584::Zed { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2584::Mid(f0, f1) => 0u128 + f0.index() + <A as Spec>::count() * f1.index(),
            E2584::Zed { m: f0, z: f1, a: f2 } => 0u128 + 1u128 * <A as Spec>::count() * <A as Spec>::count() + f0.index() + <A as Spec>::count() * f1.index() + <A as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S2592<A> where A: Clone  { m: A, z: bool }
impl<A: Spec> Spec for S2592<A> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<bool>(&mut r); return S2592 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S2592 { m: f0, z: f1 } => 0u128 + f0.index() + <A as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E2600<A, B>  { Mid { m: B }, Zed(Result<A,B>, Tri) }
impl<A: Spec, B: Spec> Spec for E2600<A, B> {
    fn count() -> u128 { 0u128 + 1u128 * <B as Spec>::count() + 1u128 * <Result<A,B> as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <B as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<B>(&mut r); return E2600::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Result<A,B> as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<A,B>>(&mut r); let f1 = pick::<Tri>(&mut r); return E2600::Zed(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E2600::Mid { m: f0 } => 0u128 + f0.index(),
            E2600::Zed(f0, f1) => 0u128 + 1u128 * <B as Spec>::count() + f0.index() + <Result<A,B> as Spec>::count() * f1.index(),
        }
    }
}

#[derive(Clone, Copy, EnumLike)] pub enum Suit { Hearts, Spades, Clubs, Diamonds }
#[derive(Clone, Copy, EnumLike)] pub struct Card { pub suit: Suit, pub rank: Rank }
#[derive(Clone, Copy, EnumLike)] pub struct Rank(pub Five, pub bool);
#[derive(Clone, Copy, EnumLike)] pub enum Play { Pass, Lead(Card), Follow { first: Card, second: Option<Suit> }, Fold }
#[derive(Clone, Copy, EnumLike)] pub enum Wrap<T> { None, Just(T), Both(T, Suit) }
impl Spec for Suit { fn count() -> u128 { 4 } fn make(i: u128) -> Self { [Suit::Hearts, Suit::Spades, Suit::Clubs, Suit::Diamonds][i as usize] } fn index(self) -> u128 { match self { Suit::Hearts => 0, Suit::Spades => 1, Suit::Clubs => 2, Suit::Diamonds => 3 } } }
impl Spec for Rank { fn count() -> u128 { 10 } fn make(i: u128) -> Self { Rank(Five::make(i % 5), bool::make(i / 5)) } fn index(self) -> u128 { Spec::index(self.0) + 5 * Spec::index(self.1) } }
impl Spec for Card { fn count() -> u128 { 40 } fn make(i: u128) -> Self { Card { suit: Suit::make(i % 4), rank: Rank::make(i / 4) } } fn index(self) -> u128 { Spec::index(self.suit) + 4 * Spec::index(self.rank) } }
impl Spec for Play {
    fn count() -> u128 { 2 + 40 + 200 }
    fn make(i: u128) -> Self { match i { 0 => Play::Pass, 1 => Play::Fold, 2..=41 => Play::Lead(Card::make(i - 2)), _ => Play::Follow { first: Card::make((i - 42) % 40), second: Option::<Suit>::make((i - 42) / 40) } } }
    fn index(self) -> u128 { match self { Play::Pass => 0, Play::Fold => 1, Play::Lead(c) => 2 + Spec::index(c), Play::Follow { first, second } => 42 + Spec::index(first) + 40 * Spec::index(second) } }
}
impl<T: Spec> Spec for Wrap<T> {
    fn count() -> u128 { 1 + T::count() * 5 }
    fn make(i: u128) -> Self { if i == 0 { return Wrap::None } let i = i - 1; if i < T::count() { return Wrap::Just(T::make(i)) } let i = i - T::count(); Wrap::Both(T::make(i % T::count()), Suit::make(i / T::count())) }
    fn index(self) -> u128 { match self { Wrap::None => 0, Wrap::Just(t) => 1 + t.index(), Wrap::Both(t, s) => 1 + T::count() + t.index() + T::count() * Spec::index(s) } }
}


use std::marker::PhantomData;
#[derive(Clone, Copy)] pub struct Lt<'a>(PhantomData<&'a str>);
unsafe impl<'a> enum_like::EnumLike for Lt<'a> { const NUM_VARIANTS: usize = 1; fn to_discr(self) -> usize { 0 } fn from_discr(x: usize) -> Self { assert!(x == 0); Lt(PhantomData) } }
#[derive(Clone, Copy, EnumLike)] pub enum Life<'a> { Zed(Lt<'a>, Tri), Alpha, Mid { q: Tri, b: Lt<'a> } }
#[derive(Clone, Copy, EnumLike)] pub struct Deft<T = bool>(Tri, T) where T: Copy;
#[derive(Clone, Copy, EnumLike)] pub struct LifeS<'a, T: 'a + Copy> { z: T, a: Lt<'a>, m: Option<T> }
impl Spec for Life<'static> { fn count() -> u128 { 7 } fn make(i: u128) -> Self { match i { 0 => Life::Alpha, 1..=3 => Life::Zed(Lt(PhantomData), Tri::make(i - 1)), _ => Life::Mid { q: Tri::make(i - 4), b: Lt(PhantomData) } } } fn index(self) -> u128 { match self { Life::Alpha => 0, Life::Zed(_, t) => 1 + Spec::index(t), Life::Mid { q, .. } => 4 + Spec::index(q) } } }
impl<T: Spec> Spec for Deft<T> { fn count() -> u128 { 3 * T::count() } fn make(i: u128) -> Self { Deft(Tri::make(i % 3), T::make(i / 3)) } fn index(self) -> u128 { Spec::index(self.0) + 3 * self.1.index() } }
impl<T: Spec> Spec for LifeS<'static, T> { fn count() -> u128 { T::count() * (T::count() + 1) } fn make(i: u128) -> Self { LifeS { z: T::make(i % T::count()), a: Lt(PhantomData), m: Option::<T>::make(i / T::count()) } } fn index(self) -> u128 { self.z.index() + T::count() * self.m.index() } }
/// No trait in scope, and names that could be mistaken for it.
pub mod hygiene {
    use likesut::{Spec, Tri};
    #[derive(Clone, Copy)] pub struct Odd(pub bool);
    impl Odd { pub const NUM_VARIANTS: usize = 77; pub fn to_discr(self) -> usize { 99 } pub fn from_discr(_: usize) -> Odd { Odd(true) } }
    unsafe impl ::enum_like::EnumLike for Odd { const NUM_VARIANTS: usize = 2; fn to_discr(self) -> usize { self.0 as usize } fn from_discr(x: usize) -> Odd { assert!(x < 2); Odd(x == 1) } }
    impl Spec for Odd { fn count() -> u128 { 2 } fn make(i: u128) -> Self { Odd(i == 1) } fn index(self) -> u128 { self.0 as u128 } }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub struct So { pub o: Odd, pub t: Tri, pub p: Odd }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub enum Eo { Two(Tri, Odd), None, Some(Odd), Ok { o: Odd, t: Tri }, Err }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub(crate) enum Co { Option, Result, Self_, Usize }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub enum usize_ { usize(bool), bool }
    impl Spec for So { fn count() -> u128 { 12 } fn make(i: u128) -> Self { So { o: Odd::make(i % 2), t: Tri::make(i / 2 % 3), p: Odd::make(i / 6) } } fn index(self) -> u128 { self.o.index() + 2 * self.t.index() + 6 * self.p.index() } }
    impl Spec for Eo {
        fn count() -> u128 { 16 }
        fn make(i: u128) -> Self { match i { 0 => Eo::None, 1 => Eo::Err, 2..=7 => Eo::Two(Tri::make((i - 2) % 3), Odd::make((i - 2) / 3)), 8 | 9 => Eo::Some(Odd::make(i - 8)), _ => Eo::Ok { o: Odd::make((i - 10) % 2), t: Tri::make((i - 10) / 2) } } }
        fn index(self) -> u128 { match self { Eo::None => 0, Eo::Err => 1, Eo::Two(t, o) => 2 + t.index() + 3 * o.index(), Eo::Some(o) => 8 + o.index(), Eo::Ok { o, t } => 10 + o.index() + 2 * t.index() } }
    }
    impl Spec for Co { fn count() -> u128 { 4 } fn make(i: u128) -> Self { [Co::Option, Co::Result, Co::Self_, Co::Usize][i as usize] } fn index(self) -> u128 { match self { Co::Option => 0, Co::Result => 1, Co::Self_ => 2, Co::Usize => 3 } } }
    impl Spec for usize_ { fn count() -> u128 { 3 } fn make(i: u128) -> Self { match i { 0 => usize_::bool, 1 => usize_::usize(false), _ => usize_::usize(true) } } fn index(self) -> u128 { match self { usize_::bool => 0, usize_::usize(false) => 1, usize_::usize(true) => 2 } } }
}

macro_rules! made { ($n:ident, $m:ident, $($v:ident($t:ty, $f:ident)),*) => {
    #[derive(Clone, Copy, EnumLike)] pub enum $n { $($v($t, Tri)),*, Last { $($f: $t),* }, Unit }
    #[derive(Clone, Copy, EnumLike)] pub struct $m { $(pub $f: $t),* }
} }
made!(MadeE, MadeS, Va(Option<bool>, fa), Vb((bool, Tri), fb));
impl Spec for MadeS { fn count() -> u128 { 18 } fn make(i: u128) -> Self { MadeS { fa: Spec::make(i % 3), fb: Spec::make(i / 3) } } fn index(self) -> u128 { Spec::index(self.fa) + 3 * Spec::index(self.fb) } }
impl Spec for MadeE { fn count() -> u128 { 1 + 9 + 18 + 18 } fn make(i: u128) -> Self { match i { 0 => MadeE::Unit, 1..=9 => MadeE::Va(Spec::make((i - 1) % 3), Spec::make((i - 1) / 3)), 10..=27 => MadeE::Vb(Spec::make((i - 10) % 6), Spec::make((i - 10) / 6)), _ => MadeE::Last { fa: Spec::make((i - 28) % 3), fb: Spec::make((i - 28) / 3) } } }
    fn index(self) -> u128 { match self { MadeE::Unit => 0, MadeE::Va(a, t) => 1 + Spec::index(a) + 3 * Spec::index(t), MadeE::Vb(a, t) => 10 + Spec::index(a) + 6 * Spec::index(t), MadeE::Last { fa, fb } => 28 + Spec::index(fa) + 3 * Spec::index(fb) } } }

pub fn all(v: &mut Vec<(bool, Ty)>) {
    v.push((true, Ty::of::<E0>("E0: enum E0 { }")));
    v.push((true, Ty::of::<E8>("E8: enum E8 { V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }")));
    v.push((true, Ty::of::<E16>("E16: enum E16 { Mid = 100 }")));
    v.push((true, Ty::of::<E24>("E24: enum E24 { Mid, Zed = 127, Alpha, Quux = 3 }")));
    v.push((true, Ty::of::<E32>("E32: enum E32 { Mid(bool) }")));
    v.push((true, Ty::of::<E40>("E40: enum E40 { Mid((), bool) }")));
    v.push((true, Ty::of::<E48>("E48: enum E48 { Mid(Never, bool) }")));
    v.push((true, Ty::of::<E56>("E56: enum E56 { Mid { m: (), z: bool } }")));
    v.push((true, Ty::of::<E64>("E64: enum E64 { Mid { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E72>("E72: enum E72 { Mid((), (), bool) }")));
    v.push((true, Ty::of::<E80>("E80: enum E80 { Mid((), Never, bool) }")));
    v.push((true, Ty::of::<E88>("E88: enum E88 { Mid(bool, (), bool) }")));
    v.push((true, Ty::of::<E96>("E96: enum E96 { Mid(bool, Never, bool) }")));
    v.push((true, Ty::of::<E104>("E104: enum E104 { Mid(Never, (), bool) }")));
    v.push((true, Ty::of::<E112>("E112: enum E112 { Mid(Never, Never, bool) }")));
    v.push((true, Ty::of::<E120>("E120: enum E120 { Mid(Tri, (), bool) }")));
    v.push((true, Ty::of::<E128>("E128: enum E128 { Mid(Tri, Never, bool) }")));
    v.push((true, Ty::of::<E136>("E136: enum E136 { Mid { m: bool, z: Tri, a: () } }")));
    v.push((true, Ty::of::<E144>("E144: enum E144 { Mid, Zed { m: bool } }")));
    v.push((true, Ty::of::<E152>("E152: enum E152 { Mid(()), Zed(()) }")));
    v.push((true, Ty::of::<E160>("E160: enum E160 { Mid(()), Zed(Never, bool) }")));
    v.push((true, Ty::of::<E168>("E168: enum E168 { Mid(bool), Zed { m: bool } }")));
    v.push((true, Ty::of::<E176>("E176: enum E176 { Mid(Never), Zed(()) }")));
    v.push((true, Ty::of::<E184>("E184: enum E184 { Mid(Never), Zed(Never, bool) }")));
    v.push((true, Ty::of::<E192>("E192: enum E192 { Mid(Tri), Zed { m: bool } }")));
    v.push((true, Ty::of::<E200>("E200: enum E200 { Mid { m: bool }, Zed(()) }")));
    v.push((true, Ty::of::<E208>("E208: enum E208 { Mid { m: bool }, Zed(Never, bool) }")));
    v.push((true, Ty::of::<E216>("E216: enum E216 { Mid { m: Tri }, Zed { m: bool } }")));
    v.push((true, Ty::of::<E224>("E224: enum E224 { Mid(bool, Tri), Zed(()) }")));
    v.push((true, Ty::of::<E232>("E232: enum E232 { Mid(bool, Tri), Zed(Never, bool) }")));
    v.push((true, Ty::of::<E240>("E240: enum E240 { Mid { m: Tri, z: bool }, Zed { m: bool } }")));
    v.push((true, Ty::of::<E248>("E248: enum E248 { Mid(Never, bool), Zed(()) }")));
    v.push((true, Ty::of::<E256>("E256: enum E256 { Mid(Never, bool), Zed(Never, bool) }")));
    v.push((true, Ty::of::<E264>("E264: enum E264 { Mid(Tri, Two, Tri), Zed { m: bool } }")));
    v.push((true, Ty::of::<E272>("E272: enum E272 { Mid { m: (), z: Tri }, Zed(()) }")));
    v.push((true, Ty::of::<E280>("E280: enum E280 { Mid { m: (), z: Tri }, Zed(Never, bool) }")));
    v.push((true, Ty::of::<E288>("E288: enum E288 { Mid, Zed, Alpha(()) }")));
    v.push((true, Ty::of::<E296>("E296: enum E296 { Mid, Zed(bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E304>("E304: enum E304 { Mid, Zed(Never), Alpha(Never) }")));
    v.push((true, Ty::of::<E312>("E312: enum E312 { Mid, Zed { m: Tri }, Alpha }")));
    v.push((true, Ty::of::<E320>("E320: enum E320 { Mid, Zed { m: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E328>("E328: enum E328 { Mid, Zed(Tri, bool), Alpha(()) }")));
    v.push((true, Ty::of::<E336>("E336: enum E336 { Mid, Zed { m: bool, z: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E344>("E344: enum E344 { Mid, Zed(()), Alpha(Never) }")));
    v.push((true, Ty::of::<E352>("E352: enum E352 { Mid, Zed(Tri, Two, Tri), Alpha }")));
    v.push((true, Ty::of::<E360>("E360: enum E360 { Mid, Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E368>("E368: enum E368 { Mid, Zed { m: Never, z: bool }, Alpha(()) }")));
    v.push((true, Ty::of::<E376>("E376: enum E376 { Mid, Zed(Option<bool>), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E384>("E384: enum E384 { Mid(bool), Zed, Alpha(Never) }")));
    v.push((true, Ty::of::<E392>("E392: enum E392 { Mid(bool), Zed(bool), Alpha }")));
    v.push((true, Ty::of::<E400>("E400: enum E400 { Mid(bool), Zed(bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E408>("E408: enum E408 { Mid(bool), Zed(Never), Alpha(()) }")));
    v.push((true, Ty::of::<E416>("E416: enum E416 { Mid(bool), Zed { m: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E424>("E424: enum E424 { Mid(bool), Zed(Tri, bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E432>("E432: enum E432 { Mid(bool), Zed { m: bool, z: Tri }, Alpha }")));
    v.push((true, Ty::of::<E440>("E440: enum E440 { Mid(bool), Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E448>("E448: enum E448 { Mid(bool), Zed(()), Alpha(()) }")));
    v.push((true, Ty::of::<E456>("E456: enum E456 { Mid(bool), Zed(Tri, Two, Tri), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E464>("E464: enum E464 { Mid(bool), Zed { m: Never, z: bool }, Alpha(Never) }")));
    v.push((true, Ty::of::<E472>("E472: enum E472 { Mid(bool), Zed(Option<bool>), Alpha }")));
    v.push((true, Ty::of::<E480>("E480: enum E480 { Mid(bool), Zed(Option<bool>), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E488>("E488: enum E488 { Mid(Never), Zed, Alpha(()) }")));
    v.push((true, Ty::of::<E496>("E496: enum E496 { Mid(Never), Zed(bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E504>("E504: enum E504 { Mid(Never), Zed(Never), Alpha(Never) }")));
    v.push((true, Ty::of::<E512>("E512: enum E512 { Mid(Never), Zed { m: Tri }, Alpha }")));
    v.push((true, Ty::of::<E520>("E520: enum E520 { Mid(Never), Zed { m: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E528>("E528: enum E528 { Mid(Never), Zed(Tri, bool), Alpha(()) }")));
    v.push((true, Ty::of::<E536>("E536: enum E536 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E544>("E544: enum E544 { Mid(Never), Zed(()), Alpha(Never) }")));
    v.push((true, Ty::of::<E552>("E552: enum E552 { Mid(Never), Zed(Tri, Two, Tri), Alpha }")));
    v.push((true, Ty::of::<E560>("E560: enum E560 { Mid(Never), Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E568>("E568: enum E568 { Mid(Never), Zed { m: Never, z: bool }, Alpha(()) }")));
    v.push((true, Ty::of::<E576>("E576: enum E576 { Mid(Never), Zed(Option<bool>), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E584>("E584: enum E584 { Mid { m: Tri }, Zed, Alpha(Never) }")));
    v.push((true, Ty::of::<E592>("E592: enum E592 { Mid { m: Tri }, Zed(bool), Alpha }")));
    v.push((true, Ty::of::<E600>("E600: enum E600 { Mid { m: Tri }, Zed(bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E608>("E608: enum E608 { Mid { m: Tri }, Zed(Never), Alpha(()) }")));
    v.push((true, Ty::of::<E616>("E616: enum E616 { Mid { m: Tri }, Zed { m: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E624>("E624: enum E624 { Mid { m: Tri }, Zed(Tri, bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E632>("E632: enum E632 { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha }")));
    v.push((true, Ty::of::<E640>("E640: enum E640 { Mid { m: Tri }, Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E648>("E648: enum E648 { Mid { m: Tri }, Zed(()), Alpha(()) }")));
    v.push((true, Ty::of::<E656>("E656: enum E656 { Mid { m: Tri }, Zed(Tri, Two, Tri), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E664>("E664: enum E664 { Mid { m: Tri }, Zed { m: Never, z: bool }, Alpha(Never) }")));
    v.push((true, Ty::of::<E672>("E672: enum E672 { Mid { m: Tri }, Zed(Option<bool>), Alpha }")));
    v.push((true, Ty::of::<E680>("E680: enum E680 { Mid { m: Tri }, Zed(Option<bool>), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E688>("E688: enum E688 { Mid(Tri, bool), Zed, Alpha(()) }")));
    v.push((true, Ty::of::<E696>("E696: enum E696 { Mid(Tri, bool), Zed(bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E704>("E704: enum E704 { Mid(Tri, bool), Zed(Never), Alpha(Never) }")));
    v.push((true, Ty::of::<E712>("E712: enum E712 { Mid(Tri, bool), Zed { m: Tri }, Alpha }")));
    v.push((true, Ty::of::<E720>("E720: enum E720 { Mid(Tri, bool), Zed { m: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E728>("E728: enum E728 { Mid(Tri, bool), Zed(Tri, bool), Alpha(()) }")));
    v.push((true, Ty::of::<E736>("E736: enum E736 { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E744>("E744: enum E744 { Mid(Tri, bool), Zed(()), Alpha(Never) }")));
    v.push((true, Ty::of::<E752>("E752: enum E752 { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha }")));
    v.push((true, Ty::of::<E760>("E760: enum E760 { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E768>("E768: enum E768 { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha(()) }")));
    v.push((true, Ty::of::<E776>("E776: enum E776 { Mid(Tri, bool), Zed(Option<bool>), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E784>("E784: enum E784 { Mid { m: bool, z: Tri }, Zed, Alpha(Never) }")));
    v.push((true, Ty::of::<E792>("E792: enum E792 { Mid { m: bool, z: Tri }, Zed(bool), Alpha }")));
    v.push((true, Ty::of::<E800>("E800: enum E800 { Mid { m: bool, z: Tri }, Zed(bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E808>("E808: enum E808 { Mid { m: bool, z: Tri }, Zed(Never), Alpha(()) }")));
    v.push((true, Ty::of::<E816>("E816: enum E816 { Mid { m: bool, z: Tri }, Zed { m: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E824>("E824: enum E824 { Mid { m: bool, z: Tri }, Zed(Tri, bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E832>("E832: enum E832 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha }")));
    v.push((true, Ty::of::<E840>("E840: enum E840 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E848>("E848: enum E848 { Mid { m: bool, z: Tri }, Zed(()), Alpha(()) }")));
    v.push((true, Ty::of::<E856>("E856: enum E856 { Mid { m: bool, z: Tri }, Zed(Tri, Two, Tri), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E864>("E864: enum E864 { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha(Never) }")));
    v.push((true, Ty::of::<E872>("E872: enum E872 { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha }")));
    v.push((true, Ty::of::<E880>("E880: enum E880 { Mid { m: bool, z: Tri }, Zed(Option<bool>), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E888>("E888: enum E888 { Mid(()), Zed, Alpha(()) }")));
    v.push((true, Ty::of::<E896>("E896: enum E896 { Mid(()), Zed(bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E904>("E904: enum E904 { Mid(()), Zed(Never), Alpha(Never) }")));
    v.push((true, Ty::of::<E912>("E912: enum E912 { Mid(()), Zed { m: Tri }, Alpha }")));
    v.push((true, Ty::of::<E920>("E920: enum E920 { Mid(()), Zed { m: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E928>("E928: enum E928 { Mid(()), Zed(Tri, bool), Alpha(()) }")));
    v.push((true, Ty::of::<E936>("E936: enum E936 { Mid(()), Zed { m: bool, z: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E944>("E944: enum E944 { Mid(()), Zed(()), Alpha(Never) }")));
    v.push((true, Ty::of::<E952>("E952: enum E952 { Mid(()), Zed(Tri, Two, Tri), Alpha }")));
    v.push((true, Ty::of::<E960>("E960: enum E960 { Mid(()), Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E968>("E968: enum E968 { Mid(()), Zed { m: Never, z: bool }, Alpha(()) }")));
    v.push((true, Ty::of::<E976>("E976: enum E976 { Mid(()), Zed(Option<bool>), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E984>("E984: enum E984 { Mid(Tri, Two, Tri), Zed, Alpha(Never) }")));
    v.push((true, Ty::of::<E992>("E992: enum E992 { Mid(Tri, Two, Tri), Zed(bool), Alpha }")));
    v.push((true, Ty::of::<E1000>("E1000: enum E1000 { Mid(Tri, Two, Tri), Zed(bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1008>("E1008: enum E1008 { Mid(Tri, Two, Tri), Zed(Never), Alpha(()) }")));
    v.push((true, Ty::of::<E1016>("E1016: enum E1016 { Mid(Tri, Two, Tri), Zed { m: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1024>("E1024: enum E1024 { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E1032>("E1032: enum E1032 { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha }")));
    v.push((true, Ty::of::<E1040>("E1040: enum E1040 { Mid(Tri, Two, Tri), Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1048>("E1048: enum E1048 { Mid(Tri, Two, Tri), Zed(()), Alpha(()) }")));
    v.push((true, Ty::of::<E1056>("E1056: enum E1056 { Mid(Tri, Two, Tri), Zed(Tri, Two, Tri), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1064>("E1064: enum E1064 { Mid(Tri, Two, Tri), Zed { m: Never, z: bool }, Alpha(Never) }")));
    v.push((true, Ty::of::<E1072>("E1072: enum E1072 { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha }")));
    v.push((true, Ty::of::<E1080>("E1080: enum E1080 { Mid(Tri, Two, Tri), Zed(Option<bool>), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1088>("E1088: enum E1088 { Mid { m: Never, z: bool }, Zed, Alpha(()) }")));
    v.push((true, Ty::of::<E1096>("E1096: enum E1096 { Mid { m: Never, z: bool }, Zed(bool), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1104>("E1104: enum E1104 { Mid { m: Never, z: bool }, Zed(Never), Alpha(Never) }")));
    v.push((true, Ty::of::<E1112>("E1112: enum E1112 { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha }")));
    v.push((true, Ty::of::<E1120>("E1120: enum E1120 { Mid { m: Never, z: bool }, Zed { m: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1128>("E1128: enum E1128 { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha(()) }")));
    v.push((true, Ty::of::<E1136>("E1136: enum E1136 { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1144>("E1144: enum E1144 { Mid { m: Never, z: bool }, Zed(()), Alpha(Never) }")));
    v.push((true, Ty::of::<E1152>("E1152: enum E1152 { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha }")));
    v.push((true, Ty::of::<E1160>("E1160: enum E1160 { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1168>("E1168: enum E1168 { Mid { m: Never, z: bool }, Zed { m: Never, z: bool }, Alpha(()) }")));
    v.push((true, Ty::of::<E1176>("E1176: enum E1176 { Mid { m: Never, z: bool }, Zed(Option<bool>), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1184>("E1184: enum E1184 { Mid(Option<bool>), Zed, Alpha(Never) }")));
    v.push((true, Ty::of::<E1192>("E1192: enum E1192 { Mid(Option<bool>), Zed(bool), Alpha }")));
    v.push((true, Ty::of::<E1200>("E1200: enum E1200 { Mid(Option<bool>), Zed(bool), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1208>("E1208: enum E1208 { Mid(Option<bool>), Zed(Never), Alpha(()) }")));
    v.push((true, Ty::of::<E1216>("E1216: enum E1216 { Mid(Option<bool>), Zed { m: Tri }, Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1224>("E1224: enum E1224 { Mid(Option<bool>), Zed(Tri, bool), Alpha(Never) }")));
    v.push((true, Ty::of::<E1232>("E1232: enum E1232 { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha }")));
    v.push((true, Ty::of::<E1240>("E1240: enum E1240 { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1248>("E1248: enum E1248 { Mid(Option<bool>), Zed(()), Alpha(()) }")));
    v.push((true, Ty::of::<E1256>("E1256: enum E1256 { Mid(Option<bool>), Zed(Tri, Two, Tri), Alpha(Tri, bool) }")));
    v.push((true, Ty::of::<E1264>("E1264: enum E1264 { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha(Never) }")));
    v.push((true, Ty::of::<E1272>("E1272: enum E1272 { Mid(Option<bool>), Zed(Option<bool>), Alpha }")));
    v.push((true, Ty::of::<E1280>("E1280: enum E1280 { Mid(Option<bool>), Zed(Option<bool>), Alpha { m: Never, z: bool } }")));
    v.push((true, Ty::of::<E1288>("E1288: enum E1288 { Mid, Zed, Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1296>("E1296: enum E1296 { Mid, Zed, Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1304>("E1304: enum E1304 { Mid, Zed, Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1312>("E1312: enum E1312 { Mid, Zed(Tri), Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1320>("E1320: enum E1320 { Mid, Zed(Tri), Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1328>("E1328: enum E1328 { Mid, Zed(Tri), Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1336>("E1336: enum E1336 { Mid, Zed { m: bool, z: Tri }, Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1344>("E1344: enum E1344 { Mid, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1352>("E1352: enum E1352 { Mid, Zed { m: bool, z: Tri }, Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1360>("E1360: enum E1360 { Mid, Zed(Never), Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1368>("E1368: enum E1368 { Mid, Zed(Never), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1376>("E1376: enum E1376 { Mid, Zed(Never), Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1384>("E1384: enum E1384 { Mid, Zed(Two), Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1392>("E1392: enum E1392 { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1400>("E1400: enum E1400 { Mid, Zed(Two), Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1408>("E1408: enum E1408 { Mid(Tri), Zed, Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1416>("E1416: enum E1416 { Mid(Tri), Zed, Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1424>("E1424: enum E1424 { Mid(Tri), Zed, Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1432>("E1432: enum E1432 { Mid(Tri), Zed(Tri), Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1440>("E1440: enum E1440 { Mid(Tri), Zed(Tri), Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1448>("E1448: enum E1448 { Mid(Tri), Zed(Tri), Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1456>("E1456: enum E1456 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha, Quux }")));
    v.push((true, Ty::of::<E1464>("E1464: enum E1464 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1472>("E1472: enum E1472 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1480>("E1480: enum E1480 { Mid(Tri), Zed { m: bool, z: Tri }, Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1488>("E1488: enum E1488 { Mid(Tri), Zed(Never), Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1496>("E1496: enum E1496 { Mid(Tri), Zed(Never), Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1504>("E1504: enum E1504 { Mid(Tri), Zed(Never), Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1512>("E1512: enum E1512 { Mid(Tri), Zed(Two), Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1520>("E1520: enum E1520 { Mid(Tri), Zed(Two), Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1528>("E1528: enum E1528 { Mid(Tri), Zed(Two), Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1536>("E1536: enum E1536 { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1544>("E1544: enum E1544 { Mid { m: bool, z: Tri }, Zed, Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1552>("E1552: enum E1552 { Mid { m: bool, z: Tri }, Zed, Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1560>("E1560: enum E1560 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1568>("E1568: enum E1568 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1576>("E1576: enum E1576 { Mid { m: bool, z: Tri }, Zed(Tri), Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1584>("E1584: enum E1584 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1592>("E1592: enum E1592 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1600>("E1600: enum E1600 { Mid { m: bool, z: Tri }, Zed { m: bool, z: Tri }, Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1608>("E1608: enum E1608 { Mid { m: bool, z: Tri }, Zed(Never), Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1616>("E1616: enum E1616 { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1624>("E1624: enum E1624 { Mid { m: bool, z: Tri }, Zed(Never), Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1632>("E1632: enum E1632 { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1640>("E1640: enum E1640 { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1648>("E1648: enum E1648 { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1656>("E1656: enum E1656 { Mid(Never), Zed, Alpha, Quux }")));
    v.push((true, Ty::of::<E1664>("E1664: enum E1664 { Mid(Never), Zed, Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1672>("E1672: enum E1672 { Mid(Never), Zed, Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1680>("E1680: enum E1680 { Mid(Never), Zed, Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1688>("E1688: enum E1688 { Mid(Never), Zed(Tri), Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1696>("E1696: enum E1696 { Mid(Never), Zed(Tri), Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1704>("E1704: enum E1704 { Mid(Never), Zed(Tri), Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1712>("E1712: enum E1712 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Tri) }")));
    v.push((true, Ty::of::<E1720>("E1720: enum E1720 { Mid(Never), Zed { m: bool, z: Tri }, Alpha { m: bool, z: Tri }, Quux(Two) }")));
    v.push((true, Ty::of::<E1728>("E1728: enum E1728 { Mid(Never), Zed { m: bool, z: Tri }, Alpha(Two), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1736>("E1736: enum E1736 { Mid(Never), Zed(Never), Alpha(Tri), Quux }")));
    v.push((true, Ty::of::<E1744>("E1744: enum E1744 { Mid(Never), Zed(Never), Alpha { m: bool, z: Tri }, Quux(Never) }")));
    v.push((true, Ty::of::<E1752>("E1752: enum E1752 { Mid(Never), Zed(Never), Alpha(Two), Quux(Tri) }")));
    v.push((true, Ty::of::<E1760>("E1760: enum E1760 { Mid(Never), Zed(Two), Alpha, Quux(Two) }")));
    v.push((true, Ty::of::<E1768>("E1768: enum E1768 { Mid(Never), Zed(Two), Alpha { m: bool, z: Tri }, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1776>("E1776: enum E1776 { Mid(Never), Zed(Two), Alpha(Two), Quux }")));
    v.push((true, Ty::of::<E1784>("E1784: enum E1784 { Mid(Two), Zed, Alpha, Quux(Never) }")));
    v.push((true, Ty::of::<E1792>("E1792: enum E1792 { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux(Tri) }")));
    v.push((true, Ty::of::<E1800>("E1800: enum E1800 { Mid(Two), Zed, Alpha(Never), Quux(Two) }")));
    v.push((true, Ty::of::<E1808>("E1808: enum E1808 { Mid(Two), Zed(Tri), Alpha, Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1816>("E1816: enum E1816 { Mid(Two), Zed(Tri), Alpha { m: bool, z: Tri }, Quux }")));
    v.push((true, Ty::of::<E1824>("E1824: enum E1824 { Mid(Two), Zed(Tri), Alpha(Never), Quux(Never) }")));
    v.push((true, Ty::of::<E1832>("E1832: enum E1832 { Mid(Two), Zed { m: bool, z: Tri }, Alpha, Quux(Tri) }")));
    v.push((true, Ty::of::<E1840>("E1840: enum E1840 { Mid(Two), Zed { m: bool, z: Tri }, Alpha(Tri), Quux(Two) }")));
    v.push((true, Ty::of::<E1848>("E1848: enum E1848 { Mid(Two), Zed { m: bool, z: Tri }, Alpha(Never), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1856>("E1856: enum E1856 { Mid(Two), Zed(Never), Alpha, Quux }")));
    v.push((true, Ty::of::<E1864>("E1864: enum E1864 { Mid(Two), Zed(Never), Alpha(Tri), Quux(Never) }")));
    v.push((true, Ty::of::<E1872>("E1872: enum E1872 { Mid(Two), Zed(Never), Alpha(Never), Quux(Tri) }")));
    v.push((true, Ty::of::<E1880>("E1880: enum E1880 { Mid(Two), Zed(Never), Alpha(Two), Quux(Two) }")));
    v.push((true, Ty::of::<E1888>("E1888: enum E1888 { Mid(Two), Zed(Two), Alpha(Tri), Quux { m: bool, z: Tri } }")));
    v.push((true, Ty::of::<E1896>("E1896: enum E1896 { Mid(Two), Zed(Two), Alpha(Never), Quux }")));
    v.push((true, Ty::of::<E1904>("E1904: enum E1904 { Mid(Two), Zed(Two), Alpha(Two), Quux(Never) }")));
    v.push((true, Ty::of::<E1912>("E1912: enum E1912 { Mid, Zed, Alpha(bool, Tri), Quux(bool, Tri), Beta(bool, Tri) }")));
    v.push((true, Ty::of::<E1920>("E1920: enum E1920 { Mid, Zed(bool, Tri), Alpha(bool, Tri), Quux(bool, Tri), Beta(bool, Tri) }")));
    v.push((true, Ty::of::<E1928>("E1928: enum E1928 { Mid(bool, Tri), Zed, Alpha(bool, Tri), Quux(bool, Tri), Beta(bool, Tri) }")));
    v.push((true, Ty::of::<E1936>("E1936: enum E1936 { Mid(bool, Tri), Zed(bool, Tri), Alpha(bool, Tri), Quux(bool, Tri), Beta(bool, Tri) }")));
    v.push((true, Ty::of::<E1944>("E1944: enum E1944 { Mid, Zed, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard }")));
    v.push((true, Ty::of::<E1952>("E1952: enum E1952 { Mid, Zed { m: Two }, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard { m: Two } }")));
    v.push((true, Ty::of::<E1960>("E1960: enum E1960 { Mid { m: Two }, Zed, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard { m: Two } }")));
    v.push((true, Ty::of::<E1968>("E1968: enum E1968 { Mid { m: Two }, Zed { m: Two }, Alpha { m: Two }, Quux { m: Two }, Beta { m: Two }, Yard }")));
    v.push((true, Ty::of::<E1976>("E1976: enum E1976 { Mid(), Zed() }")));
    v.push((true, Ty::of::<E1984>("E1984: enum E1984 { Mid { }, Zed }")));
    v.push((true, Ty::of::<E1992>("E1992: enum E1992 { Mid(Option<bool>), Zed, Alpha { m: bool, z: Option<bool> } }")));
    v.push((true, Ty::of::<E2000>("E2000: enum E2000 { Mid(Result<Tri,bool>), Zed, Alpha { m: bool, z: Result<Tri,bool> } }")));
    v.push((true, Ty::of::<E2008>("E2008: enum E2008 { Mid((Never,bool)), Zed, Alpha { m: bool, z: (Never,bool) } }")));
    v.push((true, Ty::of::<E2016>("E2016: enum E2016 { Mid(Option<bool>, D17), Zed { m: D17 } }")));
    v.push((true, Ty::of::<E2024>("E2024: enum E2024 { Mid((bool,Tri), Option<bool>), Zed { m: Option<bool> } }")));
    v.push((true, Ty::of::<E2032>("E2032: enum E2032 { Mid(Option<Never>, [bool;2]), Zed { m: [bool;2] } }")));
    v.push((true, Ty::of::<E2040>("E2040: enum E2040 { Mid(Result<Tri,bool>, (bool,Tri)), Zed { m: (bool,Tri) } }")));
    v.push((true, Ty::of::<E2048>("E2048: enum E2048 { Mid([Tri;0], Option<Never>), Zed { m: Option<Never> } }")));
    v.push((true, Ty::of::<E2056>("E2056: enum E2056 { Mid(D17, Result<Tri,bool>), Zed { m: Result<Tri,bool> } }")));
    v.push((false, Ty::of::<S2064>("S2064: struct S2064 (bool) ;")));
    v.push((false, Ty::of::<S2072>("S2072: struct S2072 ((), ()) ;")));
    v.push((false, Ty::of::<S2080>("S2080: struct S2080 ((), Five) ;")));
    v.push((false, Ty::of::<S2088>("S2088: struct S2088 (bool, Tri) ;")));
    v.push((false, Ty::of::<S2096>("S2096: struct S2096 (Never, Never) ;")));
    v.push((false, Ty::of::<S2104>("S2104: struct S2104 (Tri, bool) ;")));
    v.push((false, Ty::of::<S2112>("S2112: struct S2112 (Five, ()) ;")));
    v.push((false, Ty::of::<S2120>("S2120: struct S2120 (Five, Five) ;")));
    v.push((false, Ty::of::<S2128>("S2128: struct S2128 ((), (), Tri) ;")));
    v.push((false, Ty::of::<S2136>("S2136: struct S2136 ((), bool, Never) ;")));
    v.push((false, Ty::of::<S2144>("S2144: struct S2144 ((), Never, bool) ;")));
    v.push((false, Ty::of::<S2152>("S2152: struct S2152 ((), Tri, ()) ;")));
    v.push((false, Ty::of::<S2160>("S2160: struct S2160 ((), Tri, Five) ;")));
    v.push((false, Ty::of::<S2168>("S2168: struct S2168 ((), Five, Tri) ;")));
    v.push((false, Ty::of::<S2176>("S2176: struct S2176 (bool, (), Never) ;")));
    v.push((false, Ty::of::<S2184>("S2184: struct S2184 (bool, bool, bool) ;")));
    v.push((false, Ty::of::<S2192>("S2192: struct S2192 (bool, Never, ()) ;")));
    v.push((false, Ty::of::<S2200>("S2200: struct S2200 (bool, Never, Five) ;")));
    v.push((false, Ty::of::<S2208>("S2208: struct S2208 (bool, Tri, Tri) ;")));
    v.push((false, Ty::of::<S2216>("S2216: struct S2216 (bool, Five, Never) ;")));
    v.push((false, Ty::of::<S2224>("S2224: struct S2224 (Never, (), bool) ;")));
    v.push((false, Ty::of::<S2232>("S2232: struct S2232 (Never, bool, ()) ;")));
    v.push((false, Ty::of::<S2240>("S2240: struct S2240 (Never, bool, Five) ;")));
    v.push((false, Ty::of::<S2248>("S2248: struct S2248 (Never, Never, Tri) ;")));
    v.push((false, Ty::of::<S2256>("S2256: struct S2256 (Never, Tri, Never) ;")));
    v.push((false, Ty::of::<S2264>("S2264: struct S2264 (Never, Five, bool) ;")));
    v.push((false, Ty::of::<S2272>("S2272: struct S2272 (Tri, (), ()) ;")));
    v.push((false, Ty::of::<S2280>("S2280: struct S2280 (Tri, (), Five) ;")));
    v.push((false, Ty::of::<S2288>("S2288: struct S2288 (Tri, bool, Tri) ;")));
    v.push((false, Ty::of::<S2296>("S2296: struct S2296 (Tri, Never, Never) ;")));
    v.push((false, Ty::of::<S2304>("S2304: struct S2304 (Tri, Tri, bool) ;")));
    v.push((false, Ty::of::<S2312>("S2312: struct S2312 (Tri, Five, ()) ;")));
    v.push((false, Ty::of::<S2320>("S2320: struct S2320 (Tri, Five, Five) ;")));
    v.push((false, Ty::of::<S2328>("S2328: struct S2328 (Five, (), Tri) ;")));
    v.push((false, Ty::of::<S2336>("S2336: struct S2336 (Five, bool, Never) ;")));
    v.push((false, Ty::of::<S2344>("S2344: struct S2344 (Five, Never, bool) ;")));
    v.push((false, Ty::of::<S2352>("S2352: struct S2352 (Five, Tri, ()) ;")));
    v.push((false, Ty::of::<S2360>("S2360: struct S2360 (Five, Tri, Five) ;")));
    v.push((false, Ty::of::<S2368>("S2368: struct S2368 (Five, Five, Tri) ;")));
    v.push((false, Ty::of::<S2376>("S2376: struct S2376 (bool, bool, bool, ()) ;")));
    v.push((false, Ty::of::<S2384>("S2384: struct S2384 (bool, bool, (), bool) ;")));
    v.push((false, Ty::of::<S2392>("S2392: struct S2392 (bool, Tri, bool, Tri) ;")));
    v.push((false, Ty::of::<S2400>("S2400: struct S2400 (bool, Tri, Tri, ()) ;")));
    v.push((false, Ty::of::<S2408>("S2408: struct S2408 (bool, (), bool, bool) ;")));
    v.push((false, Ty::of::<S2416>("S2416: struct S2416 (bool, (), Tri, Tri) ;")));
    v.push((false, Ty::of::<S2424>("S2424: struct S2424 (bool, (), (), ()) ;")));
    v.push((false, Ty::of::<S2432>("S2432: struct S2432 (Tri, bool, Tri, bool) ;")));
    v.push((false, Ty::of::<S2440>("S2440: struct S2440 (Tri, bool, (), Tri) ;")));
    v.push((false, Ty::of::<S2448>("S2448: struct S2448 (Tri, Tri, bool, ()) ;")));
    v.push((false, Ty::of::<S2456>("S2456: struct S2456 (Tri, Tri, (), bool) ;")));
    v.push((false, Ty::of::<S2464>("S2464: struct S2464 (Tri, (), bool, Tri) ;")));
    v.push((false, Ty::of::<S2472>("S2472: struct S2472 (Tri, (), Tri, ()) ;")));
    v.push((false, Ty::of::<S2480>("S2480: struct S2480 ((), bool, bool, bool) ;")));
    v.push((false, Ty::of::<S2488>("S2488: struct S2488 ((), bool, (), ()) ;")));
    v.push((false, Ty::of::<S2496>("S2496: struct S2496 ((), Tri, (), Tri) ;")));
    v.push((false, Ty::of::<S2504>("S2504: struct S2504 ((), (), (), bool) ;")));
    v.push((false, Ty::of::<S2512>("S2512: struct S2512 (Tri, (), Two, Tri, (), Two) ;")));
    v.push((false, Ty::of::<S2520>("S2520: struct S2520 { m: bool, z: Tri, a: bool, q: Tri, b: bool, y: Tri, _c: bool, x: Tri, d: bool, w: Tri, e2: bool, e10: Tri, v: bool, f: Tri, u: bool, n9: Tri }")));
    v.push((false, Ty::of::<S2528>("S2528: struct S2528 ([bool;2]) ;")));
    v.push((false, Ty::of::<S2536>("S2536: struct S2536 (Tri, Option<Never>, bool) ;")));
    v.push((false, Ty::of::<S2544>("S2544: struct S2544 { m: D17, z: Tri }")));
    v.push((false, Ty::of::<S2552>("S2552: struct S2552 (N16, N16, N32) ;")));
    v.push((true, Ty::of::<E2560>("E2560: /// Documented. #[allow(dead_code)] enum E2560 { Mid { x: Tri, value: bool }, Zed, Alpha { x: bool } }")));
    v.push((true, Ty::of::<E2568>("E2568: enum E2568 { Mid { discr: bool, y: Tri, x: Five } }")));
    v.push((true, Ty::of::<E2576<()>>("E2576<()>: enum E2576<A: Clone + 'static> { Mid, Zed(A) }")));
    v.push((true, Ty::of::<E2576<bool>>("E2576<bool>: enum E2576<A: Clone + 'static> { Mid, Zed(A) }")));
    v.push((true, Ty::of::<E2576<Never>>("E2576<Never>: enum E2576<A: Clone + 'static> { Mid, Zed(A) }")));
    v.push((true, Ty::of::<E2584<()>>("E2584<()>: enum E2584<A: Clone + 'static> { Mid(A, A), Zed { m: A, z: Tri, a: A } }")));
    v.push((true, Ty::of::<E2584<bool>>("E2584<bool>: enum E2584<A: Clone + 'static> { Mid(A, A), Zed { m: A, z: Tri, a: A } }")));
    v.push((true, Ty::of::<E2584<Never>>("E2584<Never>: enum E2584<A: Clone + 'static> { Mid(A, A), Zed { m: A, z: Tri, a: A } }")));
    v.push((false, Ty::of::<S2592<bool>>("S2592<bool>: struct S2592<A> where A: Clone { m: A, z: bool }")));
    v.push((false, Ty::of::<S2592<Never>>("S2592<Never>: struct S2592<A> where A: Clone { m: A, z: bool }")));
    v.push((false, Ty::of::<S2592<Tri>>("S2592<Tri>: struct S2592<A> where A: Clone { m: A, z: bool }")));
    v.push((true, Ty::of::<E2600<bool, Tri>>("E2600<bool, Tri>: enum E2600<A, B> { Mid { m: B }, Zed(Result<A,B>, Tri) }")));
    v.push((true, Ty::of::<E2600<Tri, bool>>("E2600<Tri, bool>: enum E2600<A, B> { Mid { m: B }, Zed(Result<A,B>, Tri) }")));
    v.push((true, Ty::of::<E2600<Never, Five>>("E2600<Never, Five>: enum E2600<A, B> { Mid { m: B }, Zed(Result<A,B>, Tri) }")));
    v.push((true, Ty::of::<E2600<Five, Never>>("E2600<Five, Never>: enum E2600<A, B> { Mid { m: B }, Zed(Result<A,B>, Tri) }")));
    v.push((true, Ty::of::<E2600<Option<bool>, [bool;2]>>("E2600<Option<bool>, [bool;2]>: enum E2600<A, B> { Mid { m: B }, Zed(Result<A,B>, Tri) }")));
    v.push((true, Ty::of::<E2600<(), ()>>("E2600<(), ()>: enum E2600<A, B> { Mid { m: B }, Zed(Result<A,B>, Tri) }")));
    v.push((true, Ty::of::<MadeE>("MadeE")));
    v.push((false, Ty::of::<MadeS>("MadeS")));
    v.push((false, Ty::of::<Option<MadeE>>("Option<MadeE>")));
    v.push((true, Ty::of::<Life<'static>>("Life<'static>")));
    v.push((false, Ty::of::<Deft>("Deft")));
    v.push((false, Ty::of::<Deft<Tri>>("Deft<Tri>")));
    v.push((false, Ty::of::<Deft<Never>>("Deft<Never>")));
    v.push((false, Ty::of::<LifeS<'static, bool>>("LifeS<'static, bool>")));
    v.push((false, Ty::of::<LifeS<'static, Never>>("LifeS<'static, Never>")));
    v.push((false, Ty::of::<LifeS<'static, Option<Tri>>>("LifeS<'static, Option<Tri>>")));
    v.push((false, Ty::of::<hygiene::So>("hygiene::So")));
    v.push((true, Ty::of::<hygiene::Eo>("hygiene::Eo")));
    v.push((true, Ty::of::<hygiene::Co>("hygiene::Co")));
    v.push((true, Ty::of::<hygiene::usize_>("hygiene::usize_")));
    v.push((true, Ty::of::<Wrap<hygiene::Eo>>("Wrap<hygiene::Eo>")));
    v.push((false, Ty::of::<Option<hygiene::So>>("Option<hygiene::So>")));
    v.push((true, Ty::of::<Suit>("Suit")));
    v.push((false, Ty::of::<Card>("Card")));
    v.push((false, Ty::of::<Rank>("Rank")));
    v.push((true, Ty::of::<Play>("Play")));
    v.push((true, Ty::of::<Wrap<Suit>>("Wrap<Suit>")));
    v.push((true, Ty::of::<Wrap<Play>>("Wrap<Play>")));
    v.push((true, Ty::of::<Wrap<Wrap<Card>>>("Wrap<Wrap<Card>>")));
    v.push((true, Ty::of::<Wrap<Wrap<Wrap<Never>>>>("Wrap<Wrap<Wrap<Never>>>")));
    v.push((true, Ty::of::<Wrap<Option<Wrap<Rank>>>>("Wrap<Option<Wrap<Rank>>>")));
    v.push((false, Ty::of::<Option<Play>>("Option<Play>")));
    v.push((false, Ty::of::<(Card, Card)>("(Card, Card)")));
    v.push((false, Ty::of::<[Wrap<bool>; 3]>("[Wrap<bool>; 3]")));
    v.push((false, Ty::of::<Result<Card, Wrap<Suit>>>("Result<Card, Wrap<Suit>>")));
}
