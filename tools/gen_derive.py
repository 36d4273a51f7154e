#!/usr/bin/env python3
"""Writes type definitions for the derive under mc/derive/d*/ (committed), each
with an independently generated statement of what its mapping should be."""
import os, itertools
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIM = 1 << 64
COUNT = {"()": 1, "bool": 2, "Never": 0, "One": 1, "Two": 2, "Tri": 3, "Four": 4, "Five": 5, "Option<bool>": 3, "[bool;2]": 4, "(bool,Tri)": 6,
         "Option<Never>": 1, "Result<Tri,bool>": 5, "[Tri;0]": 1, "D17": 17, "N32": 1 << 32, "N16": 65535, "[Never;1]": 0, "(Never,bool)": 0}


class Def:
    def __init__(s, kind, variants, attrs="", generics="", bounds="", inst=None, style=0, where=""):
        s.kind, s.variants, s.attrs, s.generics, s.bounds, s.inst, s.style, s.where = kind, variants, attrs, generics, bounds, inst, style, where


defs = []
seen = set()


def add(d):
    key = (d.kind, repr(d.variants), d.attrs, d.generics, d.style, d.where, repr(d.inst))
    if key not in seen:
        seen.add(key)
        defs.append(d)


def U(disc=None):
    return ("U", [], disc)


def T(*f):
    return ("T", list(f), None)


def N(*f):
    return ("N", list(f), None)


# --- field-less enums
for n in range(0, 8):
    add(Def("enum", [U() for _ in range(n)]))
for n in (16, 17, 64, 100, 255, 256, 257, 600):
    add(Def("enum", [U() for _ in range(n)]))
for discs in ([100], [100, None], [None, 100, None], [5, 4, 3], [2, 1, 0], [1, 0], [0, 2, 1], [-1, None, 7], [None, 0x7f, None, 3], [255, 0, 128], [1, 2, 4, 8], [3, None, None, 0]):
    add(Def("enum", [U(d) for d in discs]))
add(Def("enum", [U(200), U(None), U(3)], attrs="#[repr(u8)]"))
add(Def("enum", [U(-3), U(None), U(-100)], attrs="#[repr(i16)]"))
add(Def("enum", [U(1 << 40), U(None), U(3)], attrs="#[repr(u64)]"))
# --- enums with data: every sequence of shapes
F = ["()", "bool", "Never", "Tri"]
one = [U()] + [T(f) for f in F] + [N(f) for f in F] + [T(f, g) for f in F for g in F] + [N(f, g) for f in F for g in F] + [T(f, g, h) for f in F for g in F for h in F] + [N("Tri", "bool", "Five"), N("bool", "Tri", "()"), N("Two", "One", "Tri", "bool"), T("Two", "One", "Tri", "bool"), T("bool", "Tri", "Four", "Five", "bool")]
for a in one:
    add(Def("enum", [a]))
two = [U(), T("()"), T("bool"), T("Never"), T("Tri"), N("bool"), N("Tri"), T("bool", "Tri"), N("Tri", "bool"), T("Never", "bool"), T("Tri", "Two", "Tri"), N("()", "Tri")]
for a, b in itertools.product(two, repeat=2):
    add(Def("enum", [a, b]))
three = [U(), T("bool"), T("Never"), N("Tri"), T("Tri", "bool"), N("bool", "Tri"), T("()"), T("Tri", "Two", "Tri"), N("Never", "bool"), T("Option<bool>")]
for xs in itertools.product(three, repeat=3):
    add(Def("enum", list(xs)))
four = [U(), T("Tri"), N("bool", "Tri"), T("Never"), T("Two")]
for xs in itertools.product(four, repeat=4):
    add(Def("enum", list(xs)))
for xs in itertools.product([U(), T("bool", "Tri")], repeat=5):
    add(Def("enum", list(xs)))
for xs in itertools.product([U(), N("Two")], repeat=6):
    if sum(x[0] == "N" for x in xs) in (1, 3, 5, 6):
        add(Def("enum", list(xs)))
add(Def("enum", [T("bool")] * 20 + [U()] * 3 + [N("Tri")] * 10))
add(Def("enum", [U(), T("N32"), U(), N("N16", "Tri")]))
add(Def("enum", [N("N16", "N16"), T("N32", "Tri"), U()]))
for a in (T(), N()):
    for vs in ([a], [a, U()], [U(), a], [a, a], [T(), N(), U(), U()], [a, T("Tri")], [T("Tri"), a], [N("Tri"), U(), a], [T("bool", "Tri"), a, N("Tri"), U(), T("Five")], [T("Never"), a]):
        add(Def("enum", vs))
big = ["Option<bool>", "[bool;2]", "(bool,Tri)", "Option<Never>", "Result<Tri,bool>", "[Tri;0]", "D17", "[Never;1]", "(Never,bool)"]
for f in big:
    add(Def("enum", [T(f), U(), N("bool", f)]))
    add(Def("enum", [U(), N(f, "Tri"), T("Tri", f), U()]))
for f, g in itertools.product(big[:7], repeat=2):
    add(Def("enum", [T(f, g), N(g)]))
# --- structs
add(Def("struct", [U()]))
add(Def("struct", [T()]))
add(Def("struct", [N()]))
G = ["()", "bool", "Never", "Tri", "Five"]
for k in (1, 2, 3):
    for fs in itertools.product(G, repeat=k):
        add(Def("struct", [T(*fs)]))
        add(Def("struct", [N(*fs)]))
for fs in itertools.product(["bool", "Tri", "()"], repeat=4):
    add(Def("struct", [T(*fs)]))
    if fs[0] != "()":
        add(Def("struct", [N(*fs)]))
for n in (5, 6, 8, 12, 16, 20):
    add(Def("struct", [T(*["bool", "Tri"][:1] * n)]))
    add(Def("struct", [N(*(["bool", "Tri"] * n)[:n])]))
    add(Def("struct", [T(*(["Tri", "()", "Two"] * n)[:n])]))
for f in big:
    add(Def("struct", [T(f)])); add(Def("struct", [N(f, "Tri")])); add(Def("struct", [T("Tri", f, "bool")]))
for fs in (("N16", "N16", "N32"), ("N32", "N16", "Tri"), ("Tri", "N32", "Five")):
    add(Def("struct", [T(*fs)])); add(Def("struct", [N(*fs)]))
# --- awkward field names, attributes, visibility
for style in (1, 2, 3):
    for vs in ([N("bool", "Tri", "Five")], [U(), N("bool", "Tri", "Five"), T("Tri", "bool"), N("Tri", "Five")], [N("Tri", "bool"), U(), N("bool")]):
        add(Def("enum", vs, style=style))
    add(Def("struct", [N("bool", "Tri", "Five")], style=style))
    add(Def("struct", [N("Tri")], style=style))
# --- generic definitions, with the instances to look at
INST1 = [("()",), ("bool",), ("Never",), ("Tri",), ("Option<bool>",), ("(bool,Tri)",)]
INST2 = [("bool", "Tri"), ("Tri", "bool"), ("Never", "Five"), ("Five", "Never"), ("Option<bool>", "[bool;2]"), ("()", "()")]
for vs in ([T("A")], [U(), T("A")], [T("A"), U()], [N("A"), T("bool", "A")], [N("bool", "A"), U(), T("A", "bool"), U()], [T("A", "A"), N("A", "Tri", "A")], [T("Option<A>"), N("(A,bool)"), U()], [T("[A;2]"), N("Result<A,bool>", "Tri")]):
    add(Def("enum", vs, generics="A", inst=INST1))
    add(Def("enum", vs, generics="A", bounds="A: Clone + 'static", inst=INST1[:3]))
for vs in ([T("A")], [N("A", "bool")], [T("bool", "A", "A")], [N("Option<A>", "A")]):
    add(Def("struct", vs, generics="A", inst=INST1))
    add(Def("struct", vs, generics="A", inst=INST1[1:4], where="where A: Clone"))
for vs in ([T("A"), T("B")], [N("A", "B"), U(), T("B", "A")], [U(), T("A", "bool", "B"), N("B"), U()], [N("B"), T("Result<A,B>", "Tri")]):
    add(Def("enum", vs, generics="A, B", inst=INST2))
for vs in ([T("A", "B")], [N("B", "A", "bool")], [T("Result<A,B>", "A")]):
    add(Def("struct", vs, generics="A, B", inst=INST2))

NAMES = {0: ["m", "z", "a", "q", "b", "y", "_c", "x", "d", "w", "e2", "e10", "v", "f", "u", "n9", "n10", "g", "t", "h"],
         1: ["x", "value", "x0"], 2: ["x1", "x0", "offset"], 3: ["discr", "y", "x"]}


VN = ["Mid", "Zed", "Alpha", "Quux", "Beta", "Yard", "Core", "Omega"]


def vname(d, i):
    n = len(d.variants)
    return VN[i] if n <= 8 else "V%d" % (n - i)


def sub(t, env):
    # replace type parameters A and B by the instance's types
    out, i = "", 0
    while i < len(t):
        c = t[i]
        if c.isalnum() or c == "_":
            j = i
            while j < len(t) and (t[j].isalnum() or t[j] == "_"):
                j += 1
            w = t[i:j]
            out += env.get(w, w)
            i = j
        else:
            out += c
            i += 1
    return out


def count(t, env):
    t = sub(t, env)
    if t in COUNT:
        return COUNT[t]
    if t.startswith("Option<"):
        return 1 + count(t[7:-1], {})
    if t.startswith("Result<"):
        a, b = split(t[7:-1])
        return count(a, {}) + count(b, {})
    if t.startswith("("):
        p = 1
        for x in split(t[1:-1]):
            p *= count(x, {})
        return p
    if t.startswith("["):
        a, n = t[1:-1].rsplit(";", 1)
        return count(a, {}) ** int(n)
    raise Exception(t)


def split(s):
    r, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        if c in ">)]":
            d -= 1
        if c == "," and d == 0:
            r.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        r.append(cur)
    return r


def emit(d, name):
    names = NAMES[d.style]
    o = []
    gp = ""
    if d.generics:
        ps = d.generics.split(", ")
        gp = "<" + ", ".join(d.bounds if (d.bounds and p == "A") else p for p in ps) + ">"
    o.append("#[derive(Clone, Copy, EnumLike)]")
    if d.attrs:
        o.append(d.attrs)
    if d.style == 1:
        o.append("/// Documented.\n#[allow(dead_code)]")
    body = []
    for i, (k, fs, disc) in enumerate(d.variants):
        vn = vname(d, i) if d.kind == "enum" else ""
        pub = "" if d.kind == "enum" or d.style != 2 else "pub(crate) "
        at = "/// doc\n    " if d.style == 3 and d.kind == "enum" else ""
        if k == "U":
            t = at + vn + (" = %d" % disc if disc is not None else "")
        elif k == "T":
            t = at + vn + "(" + ", ".join(pub + f for f in fs) + ")"
        else:
            t = at + vn + " { " + ", ".join("%s%s: %s" % (pub, names[j], f) for j, f in enumerate(fs)) + " }"
        body.append(t)
    if d.kind == "enum":
        o.append("pub enum %s%s %s { %s }" % (name, gp, d.where, ", ".join(body)))
    else:
        k = d.variants[0][0]
        if k == "N":
            o.append("pub struct %s%s %s %s" % (name, gp, d.where, body[0]))
        else:
            o.append("pub struct %s%s %s %s;" % (name, gp, body[0], d.where))
    # the model
    gs = d.generics
    mg = "<" + ", ".join(p + ": Spec" for p in gs.split(", ")) + ">" if gs else ""
    ty = name + ("<%s>" % gs if gs else "")
    order = [i for i, v in enumerate(d.variants) if not v[1]] + [i for i, v in enumerate(d.variants) if v[1]]
    prod = lambda fs: " * ".join(["1u128"] + ["<%s as Spec>::count()" % f for f in fs])
    o.append("impl%s Spec for %s {" % (mg, ty))
    o.append("    fn count() -> u128 { %s }" % " + ".join(["%du128" % sum(not v[1] for v in d.variants)] + [prod(d.variants[i][1]) for i in order if d.variants[i][1]]))
    o.append("    fn make(mut i: u128) -> Self {")
    ctor = {}
    for i in order:
        k, fs, _ = d.variants[i]
        path = name + ("::" + vname(d, i) if d.kind == "enum" else "")
        if k == "U":
            ctor[i] = (path, path)
        elif k == "T":
            ctor[i] = (path + "(" + ", ".join("f%d" % j for j in range(len(fs))) + ")",) * 2
        else:
            ctor[i] = (path + " { " + ", ".join("%s: f%d" % (names[j], j) for j in range(len(fs))) + " }",) * 2
        c = prod(fs)
        if not fs:
            o.append("        if i == 0 { return %s; } i -= 1;" % ctor[i][0])
        else:
            lets = "".join("let f%d = pick::<%s>(&mut r); " % (j, f) for j, f in enumerate(fs))
            o.append("        let c = %s; if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; %sreturn %s; } i -= c;" % (c, lets, ctor[i][0]))
    o.append("        panic!(\"no value {}\", i)")
    o.append("    }")
    o.append("    fn index(self) -> u128 {")
    o.append("        match self {")
    base = []
    units = 0
    for i in order:
        k, fs, _ = d.variants[i]
        b = " + ".join(["%du128" % units] + base)
        w, terms = [], [b]
        for j, f in enumerate(fs):
            terms.append(" * ".join(w + ["f%d.index()" % j]))
            w.append("<%s as Spec>::count()" % f)
        o.append("            %s => %s," % (ctor[i][1], " + ".join(terms)))
        if not fs:
            units += 1
        else:
            base.append(prod(fs))
    o.append("        }")
    o.append("    }")
    o.append("}")
    return "\n".join(o)


def total(d, env):
    s = 0
    for k, fs, _ in d.variants:
        p = 1
        for f in fs:
            p *= count(f, env)
        s += p
    return s


K = 8
out = [[] for _ in range(K)]
push = [[] for _ in range(K)]
nt = 0
for n, d in enumerate(defs):
    k = n % K
    name = ("E%d" if d.kind == "enum" else "S%d") % n
    insts = d.inst or [()]
    ok = [x for x in insts if total(d, dict(zip(["A", "B"], x))) < LIM]
    assert ok, (name, d.variants)
    out[k].append(emit(d, name))
    for x in ok:
        t = name + ("<%s>" % ", ".join(x) if x else "")
        e = d.kind == "enum"
        text = " ".join(emit(d, name).split("\nimpl")[0].replace("#[derive(Clone, Copy, EnumLike)]", "").replace("pub ", "").replace("/// doc", "").split())
        text = text if len(text) < 160 else text[:160] + "..."
        push[k].append("    v.push((%s, Ty::of::<%s>(\"%s: %s\")));" % ("true" if e else "false", t, t, text))
        nt += 1
# types made of derived types
comp = ['''
#[derive(Clone, Copy, EnumLike)] pub enum Suit { Hearts, Spades, Clubs, Diamonds }
#[derive(Clone, Copy, EnumLike)] pub struct Card { pub suit: Suit, pub rank: Rank }
#[derive(Clone, Copy, EnumLike)] pub struct Rank(pub Five, pub bool);
#[derive(Clone, Copy, EnumLike)] pub enum Play { Pass, Lead(Card), Follow { first: Card, second: Option<Suit> }, Fold }
#[derive(Clone, Copy, EnumLike)] pub enum Wrap<T> { None, Just(T), Both(T, Suit) }
impl Spec for Suit { fn count() -> u128 { 4 } fn make(i: u128) -> Self { [Suit::Hearts, Suit::Spades, Suit::Clubs, Suit::Diamonds][i as usize] } fn index(self) -> u128 { match self { Suit::Hearts => 0, Suit::Spades => 1, Suit::Clubs => 2, Suit::Diamonds => 3 } } }
impl Spec for Rank { fn count() -> u128 { 10 } fn make(i: u128) -> Self { Rank(Five::make(i % 5), bool::make(i / 5)) } fn index(self) -> u128 { Spec::index(self.0) + 5 * Spec::index(self.1) } }
impl Spec for Card { fn count() -> u128 { 40 } fn make(i: u128) -> Self { Card { suit: Suit::make(i % 4), rank: Rank::make(i / 4) } } fn index(self) -> u128 { Spec::index(self.suit) + 4 * Spec::index(self.rank) } }
impl Spec for Play {
    fn count() -> u128 { 2 + 40 + 200 }
    fn make(i: u128) -> Self { match i { 0 => Play::Pass, 1 => Play::Fold, 2..=41 => Play::Lead(Card::make(i - 2)), _ => Play::Follow { first: Card::make((i - 42) % 40), second: Option::<Suit>::make((i - 42) / 40) } } }
    fn index(self) -> u128 { match self { Play::Pass => 0, Play::Fold => 1, Play::Lead(c) => 2 + Spec::index(c), Play::Follow { first, second } => 42 + Spec::index(first) + 40 * Spec::index(second) } }
}
impl<T: Spec> Spec for Wrap<T> {
    fn count() -> u128 { 1 + T::count() * 5 }
    fn make(i: u128) -> Self { if i == 0 { return Wrap::None } let i = i - 1; if i < T::count() { return Wrap::Just(T::make(i)) } let i = i - T::count(); Wrap::Both(T::make(i % T::count()), Suit::make(i / T::count())) }
    fn index(self) -> u128 { match self { Wrap::None => 0, Wrap::Just(t) => 1 + t.index(), Wrap::Both(t, s) => 1 + T::count() + t.index() + T::count() * Spec::index(s) } }
}
''']
comp.append('''
use std::marker::PhantomData;
#[derive(Clone, Copy)] pub struct Lt<'a>(PhantomData<&'a str>);
unsafe impl<'a> enum_like::EnumLike for Lt<'a> { const NUM_VARIANTS: usize = 1; fn to_discr(self) -> usize { 0 } fn from_discr(x: usize) -> Self { assert!(x == 0); Lt(PhantomData) } }
#[derive(Clone, Copy, EnumLike)] pub enum Life<'a> { Zed(Lt<'a>, Tri), Alpha, Mid { q: Tri, b: Lt<'a> } }
#[derive(Clone, Copy, EnumLike)] pub struct Deft<T = bool>(Tri, T) where T: Copy;
#[derive(Clone, Copy, EnumLike)] pub struct LifeS<'a, T: 'a + Copy> { z: T, a: Lt<'a>, m: Option<T> }
impl Spec for Life<'static> { fn count() -> u128 { 7 } fn make(i: u128) -> Self { match i { 0 => Life::Alpha, 1..=3 => Life::Zed(Lt(PhantomData), Tri::make(i - 1)), _ => Life::Mid { q: Tri::make(i - 4), b: Lt(PhantomData) } } } fn index(self) -> u128 { match self { Life::Alpha => 0, Life::Zed(_, t) => 1 + Spec::index(t), Life::Mid { q, .. } => 4 + Spec::index(q) } } }
impl<T: Spec> Spec for Deft<T> { fn count() -> u128 { 3 * T::count() } fn make(i: u128) -> Self { Deft(Tri::make(i % 3), T::make(i / 3)) } fn index(self) -> u128 { Spec::index(self.0) + 3 * self.1.index() } }
impl<T: Spec> Spec for LifeS<'static, T> { fn count() -> u128 { T::count() * (T::count() + 1) } fn make(i: u128) -> Self { LifeS { z: T::make(i % T::count()), a: Lt(PhantomData), m: Option::<T>::make(i / T::count()) } } fn index(self) -> u128 { self.z.index() + T::count() * self.m.index() } }
/// No trait in scope, and names that could be mistaken for it.
pub mod hygiene {
    use likesut::{Spec, Tri};
    #[derive(Clone, Copy)] pub struct Odd(pub bool);
    impl Odd { pub const NUM_VARIANTS: usize = 77; pub fn to_discr(self) -> usize { 99 } pub fn from_discr(_: usize) -> Odd { Odd(true) } }
    unsafe impl ::enum_like::EnumLike for Odd { const NUM_VARIANTS: usize = 2; fn to_discr(self) -> usize { self.0 as usize } fn from_discr(x: usize) -> Odd { assert!(x < 2); Odd(x == 1) } }
    impl Spec for Odd { fn count() -> u128 { 2 } fn make(i: u128) -> Self { Odd(i == 1) } fn index(self) -> u128 { self.0 as u128 } }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub struct So { pub o: Odd, pub t: Tri, pub p: Odd }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub enum Eo { Two(Tri, Odd), None, Some(Odd), Ok { o: Odd, t: Tri }, Err }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub(crate) enum Co { Option, Result, Self_, Usize }
    #[derive(Clone, Copy, ::enum_like_derive::EnumLike)] pub enum usize_ { usize(bool), bool }
    impl Spec for So { fn count() -> u128 { 12 } fn make(i: u128) -> Self { So { o: Odd::make(i % 2), t: Tri::make(i / 2 % 3), p: Odd::make(i / 6) } } fn index(self) -> u128 { self.o.index() + 2 * self.t.index() + 6 * self.p.index() } }
    impl Spec for Eo {
        fn count() -> u128 { 16 }
        fn make(i: u128) -> Self { match i { 0 => Eo::None, 1 => Eo::Err, 2..=7 => Eo::Two(Tri::make((i - 2) % 3), Odd::make((i - 2) / 3)), 8 | 9 => Eo::Some(Odd::make(i - 8)), _ => Eo::Ok { o: Odd::make((i - 10) % 2), t: Tri::make((i - 10) / 2) } } }
        fn index(self) -> u128 { match self { Eo::None => 0, Eo::Err => 1, Eo::Two(t, o) => 2 + t.index() + 3 * o.index(), Eo::Some(o) => 8 + o.index(), Eo::Ok { o, t } => 10 + o.index() + 2 * t.index() } }
    }
    impl Spec for Co { fn count() -> u128 { 4 } fn make(i: u128) -> Self { [Co::Option, Co::Result, Co::Self_, Co::Usize][i as usize] } fn index(self) -> u128 { match self { Co::Option => 0, Co::Result => 1, Co::Self_ => 2, Co::Usize => 3 } } }
    impl Spec for usize_ { fn count() -> u128 { 3 } fn make(i: u128) -> Self { match i { 0 => usize_::bool, 1 => usize_::usize(false), _ => usize_::usize(true) } } fn index(self) -> u128 { match self { usize_::bool => 0, usize_::usize(false) => 1, usize_::usize(true) => 2 } } }
}

macro_rules! made { ($n:ident, $m:ident, $($v:ident($t:ty, $f:ident)),*) => {
    #[derive(Clone, Copy, EnumLike)] pub enum $n { $($v($t, Tri)),*, Last { $($f: $t),* }, Unit }
    #[derive(Clone, Copy, EnumLike)] pub struct $m { $(pub $f: $t),* }
} }
made!(MadeE, MadeS, Va(Option<bool>, fa), Vb((bool, Tri), fb));
impl Spec for MadeS { fn count() -> u128 { 18 } fn make(i: u128) -> Self { MadeS { fa: Spec::make(i % 3), fb: Spec::make(i / 3) } } fn index(self) -> u128 { Spec::index(self.fa) + 3 * Spec::index(self.fb) } }
impl Spec for MadeE { fn count() -> u128 { 1 + 9 + 18 + 18 } fn make(i: u128) -> Self { match i { 0 => MadeE::Unit, 1..=9 => MadeE::Va(Spec::make((i - 1) % 3), Spec::make((i - 1) / 3)), 10..=27 => MadeE::Vb(Spec::make((i - 10) % 6), Spec::make((i - 10) / 6)), _ => MadeE::Last { fa: Spec::make((i - 28) % 3), fb: Spec::make((i - 28) / 3) } } }
    fn index(self) -> u128 { match self { MadeE::Unit => 0, MadeE::Va(a, t) => 1 + Spec::index(a) + 3 * Spec::index(t), MadeE::Vb(a, t) => 10 + Spec::index(a) + 6 * Spec::index(t), MadeE::Last { fa, fb } => 28 + Spec::index(fa) + 3 * Spec::index(fb) } } }
''')
out[0] += comp
for t, e in (("MadeE", 1), ("MadeS", 0), ("Option<MadeE>", 0), ("Life<'static>", 1), ("Deft", 0), ("Deft<Tri>", 0), ("Deft<Never>", 0), ("LifeS<'static, bool>", 0), ("LifeS<'static, Never>", 0), ("LifeS<'static, Option<Tri>>", 0), ("hygiene::So", 0), ("hygiene::Eo", 1), ("hygiene::Co", 1), ("hygiene::usize_", 1), ("Wrap<hygiene::Eo>", 1), ("Option<hygiene::So>", 0)):
    push[0].append("    v.push((%s, Ty::of::<%s>(\"%s\")));" % ("true" if e else "false", t, t))
for t, e in (("Suit", 1), ("Card", 0), ("Rank", 0), ("Play", 1), ("Wrap<Suit>", 1), ("Wrap<Play>", 1), ("Wrap<Wrap<Card>>", 1), ("Wrap<Wrap<Wrap<Never>>>", 1), ("Wrap<Option<Wrap<Rank>>>", 1), ("Option<Play>", 0), ("(Card, Card)", 0), ("[Wrap<bool>; 3]", 0), ("Result<Card, Wrap<Suit>>", 0)):
    push[0].append("    v.push((%s, Ty::of::<%s>(\"%s\")));" % ("true" if e else "false", t, t))
for k in range(K):
    dd = os.path.join(V, "mc/derive/d%d" % k)
    os.makedirs(dd + "/src", exist_ok=True)
    open(dd + "/Cargo.toml", "w").write('[package]\nname = "derived%d"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nlikesut = { path = "../../like/sut" }\nenum_like = { path = "/repo/enum_like" }\nenum_like_derive = { path = "/repo/enum_like_derive" }\n' % k)
    with open(dd + "/src/lib.rs", "w") as f:
        f.write("// generated by tools/gen_derive.py\n#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]\nuse enum_like_derive::EnumLike;\nuse likesut::*;\nfn pick<T: Spec>(r: &mut u128) -> T {\n    let c = T::count();\n    let v = T::make(*r % c);\n    *r /= c;\n    v\n}\n")
        f.write("\n".join(out[k]))
        f.write("\npub fn all(v: &mut Vec<(bool, Ty)>) {\n" + "\n".join(push[k]) + "\n}\n")
print(len(defs), "definitions", nt, "types")
