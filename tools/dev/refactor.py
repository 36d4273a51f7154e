#!/usr/bin/env python3
"""Edits that keep the behaviour: the checks have to stay quiet on them.

usage (in a lab, see lab.sh): refactor.py NAME... | --list
Applies each named edit to /repo, checks that the stable tests still pass, runs
every check, prints what was not quiet, and undoes the edit."""
import subprocess, sys, os, re, json, time

MODS = [f"enum_vec/src/{m}/mod.rs" for m in ("vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128", "smallvec_u32")]
V = ["C%02d" % i for i in range(1, 14)] + ["C25", "C12", "C24", "C20"]


def fn(src, head):
    """span of the item starting at `head` up to its closing brace"""
    i = src.index(head)
    j = src.index("{", i + len(head) - 1)
    d = 0
    for k in range(j, len(src)):
        if src[k] == "{":
            d += 1
        elif src[k] == "}":
            d -= 1
            if d == 0:
                return i, k + 1
    raise ValueError(head)


def replace_fn(head, new):
    def go(src):
        out, pos = "", 0
        i, j = fn(src, head)
        return src[:i] + new.strip() + src[j:]

    return go


def sub(a, b):
    def go(src):
        assert a in src, a
        return src.replace(a, b)

    return go


EDITS = {}
# plain loops instead of clever ones
EDITS["plain-loops"] = (MODS, [
    replace_fn("pub fn retain<F>(&mut self, mut f: F)\n    where\n        F: FnMut(&T) -> bool\n    {", """pub fn retain<F>(&mut self, mut f: F)
    where
        F: FnMut(&T) -> bool
    {
        let mut kept = 0;
        for i in 0..self.len() {
            let x = self.get(i).unwrap();
            let keep = f(&x);
            if keep {
                if kept != i {
                    self.set(kept, x);
                }
                kept += 1;
            }
        }
        self.truncate(kept);
    }"""),
    replace_fn("pub fn for_each<F>(&mut self, mut f: F)\n    where\n        F: FnMut(&mut T),\n    {", """pub fn for_each<F>(&mut self, mut f: F)
    where
        F: FnMut(&mut T),
    {
        let mut i = 0;
        while i < self.num_elements {
            let old = self.get(i).unwrap();
            let mut new = old;
            f(&mut new);
            self.set(i, new);
            i += 1;
        }
    }"""),
    replace_fn("fn eq(&self, other: &EnumVec<T>) -> bool {", """fn eq(&self, other: &EnumVec<T>) -> bool {
        self.len() == other.len()
            && self.iter().map(|x| x.to_discr()).eq(other.iter().map(|x| x.to_discr()))
    }"""),
    replace_fn("pub fn to_vec(&self) -> Vec<T> {", """pub fn to_vec(&self) -> Vec<T> {
        self.iter().collect()
    }"""),
    replace_fn("pub fn from_slice(x: &[T]) -> Self\n    {", """pub fn from_slice(x: &[T]) -> Self
    {
        let mut v = EnumVec::with_capacity(x.len());
        for e in x {
            v.push(*e);
        }
        v
    }"""),
    replace_fn("pub fn insert(&mut self, index: usize, element: T) {", """pub fn insert(&mut self, index: usize, element: T) {
        assert!(index <= self.len(), "`index` out of bounds");
        self.push(element);
        let mut i = self.len() - 1;
        while i > index {
            let before = self.get_raw(i - 1).unwrap();
            self.set_raw(i, before);
            i -= 1;
        }
        self.set(index, element);
    }"""),
    replace_fn("pub fn remove(&mut self, index: usize) -> T {", """pub fn remove(&mut self, index: usize) -> T {
        let x = self.get(index).unwrap();
        for i in index + 1..self.len() {
            let next = self.get_raw(i).unwrap();
            self.set_raw(i - 1, next);
        }
        self.num_elements -= 1;
        x
    }"""),
    replace_fn("pub fn any(&self, x: T) -> bool {", """pub fn any(&self, x: T) -> bool {
        let d = x.to_discr();
        (0..self.len()).any(|i| self.get_raw(i) == Some(d))
    }"""),
    replace_fn("pub fn all(&self, x: T) -> bool {", """pub fn all(&self, x: T) -> bool {
        let d = x.to_discr();
        (0..self.len()).all(|i| self.get_raw(i) == Some(d))
    }"""),
])
# fill by pushing, append and split element by element
EDITS["elementwise"] = (MODS, [
    replace_fn("fn extend_with_value(&mut self, value: T, count: usize) {", """fn extend_with_value(&mut self, value: T, count: usize) {
        self.reserve(count);
        for _ in 0..count {
            self.push(value);
        }
    }"""),
    replace_fn("pub fn append(&mut self, other: &mut Self) {", """pub fn append(&mut self, other: &mut Self) {
        self.reserve(other.len());
        for i in 0..other.len() {
            let x = other.get(i).unwrap();
            self.push(x);
        }
        other.clear();
    }"""),
    replace_fn("pub fn split_off(&mut self, at: usize) -> Self {", """pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len(), "`at` out of bounds");
        let mut other = Self::with_capacity(self.len() - at);
        for i in at..self.len() {
            other.push(self.get(i).unwrap());
        }
        self.truncate(at);
        other
    }"""),
    replace_fn("fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {", """fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let mut iter = iter.into_iter();
        let (least, _) = iter.size_hint();
        self.reserve(least);
        while let Some(x) = iter.next() {
            self.push(x);
        }
    }"""),
    replace_fn("pub fn swap(&mut self, ia: usize, ib: usize) {", """pub fn swap(&mut self, ia: usize, ib: usize) {
        let a = self.get_raw(ia).unwrap();
        let b = self.get_raw(ib).unwrap();
        if a != b {
            unsafe {
                self.set_raw_unchecked(ib, a);
                self.set_raw_unchecked(ia, b);
            }
        }
    }"""),
    replace_fn("pub fn swap_remove(&mut self, index: usize) -> T {", """pub fn swap_remove(&mut self, index: usize) -> T {
        let x = self.get(index).unwrap();
        let last = self.pop().unwrap();
        if index < self.len() {
            self.set(index, last);
        }
        x
    }"""),
])
# helpers extracted, statements in another order
EDITS["helpers"] = (MODS, [
    replace_fn("fn get_raw(&self, i: usize) -> Option<usize> {", """fn get_raw(&self, i: usize) -> Option<usize> {
        if self.in_bounds(i) {
            Some(unsafe { self.get_raw_unchecked(i) })
        } else {
            None
        }
    }

    #[inline]
    fn in_bounds(&self, i: usize) -> bool {
        i < self.num_elements
    }

    #[inline]
    fn one_mask() -> StorageBlock {
        (!0 / Self::ELEMENT_MASK) >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM)
    }"""),
    sub("let one_mask = (!0 / num_variants_p2) >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM);", "let one_mask = Self::one_mask();"),
    sub("        let num_variants_p2 = Self::ELEMENT_MASK;\n", ""),
    sub("if i >= self.len() {\n            panic!(", "if !self.in_bounds(i) {\n            panic!("),
    replace_fn("pub fn push(&mut self, x: T) {", """pub fn push(&mut self, x: T) {
        let discr = x.to_discr();
        self.grow_if_needed();
        let idx = self.num_elements;
        unsafe {
            self.set_raw_unchecked(idx, discr);
        }
        self.num_elements = idx.checked_add(1).expect("capacity overflow");
    }"""),
    replace_fn("pub fn pop(&mut self) -> Option<T> {", """pub fn pop(&mut self) -> Option<T> {
        let last = self.num_elements.checked_sub(1)?;
        let x = self.get(last);
        self.num_elements = last;
        x
    }"""),
    replace_fn("fn fix_storage(&mut self) {", """fn fix_storage(&mut self) {
        let needed = Self::blocks_for_elements(self.num_elements);
        if self.storage.len() > needed {
            self.storage.truncate(needed);
        }
    }"""),
    replace_fn("fn blocks_for_elements(n: usize) -> usize {", """fn blocks_for_elements(n: usize) -> usize {
        let whole = n / Self::ELEMS_PER_BLOCK;
        if n % Self::ELEMS_PER_BLOCK == 0 {
            whole
        } else {
            whole + 1
        }
    }"""),
    replace_fn("fn hash<H: Hasher>(&self, state: &mut H) {", """fn hash<H: Hasher>(&self, state: &mut H) {
        self.iter().for_each(|x| x.to_discr().hash(state));
    }"""),
    replace_fn("pub unsafe fn set_raw_unchecked(&mut self, i: usize, discr: usize) {", """pub unsafe fn set_raw_unchecked(&mut self, i: usize, discr: usize) {
        let (idx_w, idx_b) = Self::block_index(i);
        let block = self.storage.get_unchecked_mut(idx_w);
        let discr_old = (*block >> idx_b) & Self::ELEMENT_MASK;
        *block ^= (discr_old ^ discr as StorageBlock) << idx_b;
    }"""),
])
# another growth policy, storage let go of or kept in other places: all free
EDITS["storage"] = (MODS, [
    replace_fn("fn grow_if_needed(&mut self) {", """fn grow_if_needed(&mut self) {
        let needed = Self::blocks_for_elements(self.num_elements.checked_add(1).expect("capacity overflow"));
        if needed > self.storage.len() {
            self.storage.resize(needed, 0);
        }
    }"""),
    replace_fn("pub fn truncate(&mut self, len: usize) {", """pub fn truncate(&mut self, len: usize) {
        if len < self.num_elements {
            self.num_elements = len;
        }
    }"""),
    replace_fn("pub fn shrink_to_fit(&mut self) {", """pub fn shrink_to_fit(&mut self) {
        let blocks = Self::blocks_for_elements(self.num_elements);
        self.storage.truncate(blocks);
        self.storage.shrink_to_fit();
    }"""),
    replace_fn("pub fn from_elem(x: T, n: usize) -> Self\n    {", """pub fn from_elem(x: T, n: usize) -> Self
    {
        let mut v = EnumVec::with_capacity(n);
        v.resize(n, x);
        v
    }"""),
])
EDITS["set"] = (["enum_set/src/lib.rs"], [
    replace_fn("pub fn is_subset(&self, other: &Self) -> bool {", """pub fn is_subset(&self, other: &Self) -> bool {
        self.inner.iter().all(|i| other.inner.contains(i))
    }"""),
    replace_fn("pub fn is_superset(&self, other: &Self) -> bool {", """pub fn is_superset(&self, other: &Self) -> bool {
        other.is_subset(self)
    }"""),
    replace_fn("pub fn is_disjoint(&self, other: &Self) -> bool {", """pub fn is_disjoint(&self, other: &Self) -> bool {
        self.intersection(other).next().is_none()
    }"""),
    replace_fn("pub fn union_with(&mut self, other: &Self) {", """pub fn union_with(&mut self, other: &Self) {
        for x in other {
            self.insert(x);
        }
    }"""),
    replace_fn("pub fn difference_with(&mut self, other: &Self) {", """pub fn difference_with(&mut self, other: &Self) {
        for i in other.inner.iter() {
            self.inner.remove(i);
        }
    }"""),
    replace_fn("fn from_iter<I: IntoIterator<Item = E>>(iter: I) -> Self {", """fn from_iter<I: IntoIterator<Item = E>>(iter: I) -> Self {
        let mut inner = BitSet::with_capacity(0);
        for x in iter {
            inner.insert(x.to_discr());
        }
        Self::from_bit_set(inner)
    }"""),
    replace_fn("pub fn insert(&mut self, value: E) -> bool {", """pub fn insert(&mut self, value: E) -> bool {
        let fresh = !self.contains(value);
        if fresh {
            self.inner.insert(value.to_discr());
        }
        fresh
    }"""),
    replace_fn("fn size_hint(&self) -> (usize, Option<usize>) {", """fn size_hint(&self) -> (usize, Option<usize>) {
        let (least, _) = self.inner.size_hint();
        (least, None)
    }"""),
])
EDITS["derive"] = (["enum_like_derive/src/lib.rs"], [
    sub("let c_like = variants.iter().all(|v| v.fields == Fields::Unit);", "let c_like = variants.is_empty();"),
    replace_fn("fn total_num_variants_product(type_names: &[Tokens]) -> Tokens {", """fn total_num_variants_product(type_names: &[Tokens]) -> Tokens {
    quote!( 1usize #( * <#type_names as ::enum_like::EnumLike>::NUM_VARIANTS )* )
}"""),
    sub("_ => unreachable!()", '_ => panic!("no such variant")'),
    replace_fn("fn add_trait_bounds(mut generics: Generics) -> Generics {", """fn add_trait_bounds(mut generics: Generics) -> Generics {
    generics.params.iter_mut().for_each(|param| match *param {
        GenericParam::Type(ref mut type_param) => {
            type_param.bounds.push(parse_quote!(::enum_like::EnumLike));
        }
        _ => {}
    });
    generics
}"""),
    sub("                #parent::#name {} => #offset,\n", "                #parent::#name { .. } => #offset,\n"),
    sub("            fn from_discr(value: usize) -> Self {\n                match value {\n                    #(\n                        #match_arm_from", "            #[inline]\n            fn from_discr(x: usize) -> Self {\n                match x {\n                    #(\n                        #match_arm_from"),
])
EDITS["like"] = (["enum_like/src/lib.rs"], [
    sub("            None => T::NUM_VARIANTS,\n            Some(x) => x.to_discr(),", "            Some(x) => x.to_discr(),\n            None => T::NUM_VARIANTS,"),
    sub("            x if x == T::NUM_VARIANTS => None,\n            x => Some(T::from_discr(x)),", "            x if x < T::NUM_VARIANTS => Some(T::from_discr(x)),\n            _ => None,"),
    sub("            x if x < T::NUM_VARIANTS => Ok(T::from_discr(x)),\n            x => Err(S::from_discr(x - T::NUM_VARIANTS)),", "            x if x >= T::NUM_VARIANTS => Err(S::from_discr(x - T::NUM_VARIANTS)),\n            x => Ok(T::from_discr(x)),"),
    sub("        x != 0\n", "        match x {\n            0 => false,\n            _ => true,\n        }\n"),
    sub("        self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS\n", "        T::NUM_VARIANTS * self.1.to_discr() + self.0.to_discr()\n"),
    replace_fn("pub struct Values<T: EnumLike> {", """pub struct Values<T: EnumLike> {
    left: usize,
    _p: PhantomData<T>,
}"""),
    replace_fn("fn of() -> Self {", """fn of() -> Self {
        Self {
            left: T::NUM_VARIANTS,
            _p: PhantomData,
        }
    }"""),
    replace_fn("impl<T: EnumLike> Iterator for Values<T> {", """impl<T: EnumLike> Iterator for Values<T> {
    type Item = T;

    fn next(&mut self) -> Option<Self::Item> {
        self.nth(0)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }

    fn count(self) -> usize {
        self.left
    }

    fn last(self) -> Option<Self::Item> {
        self.left.checked_sub(1).map(|_| T::from_discr(T::NUM_VARIANTS - 1))
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.left {
            self.left = 0;
            return None;
        }
        let x = T::from_discr(T::NUM_VARIANTS - self.left + n);
        self.left -= n + 1;
        Some(x)
    }
}"""),
])
# queries served from a memory of the last answer, kept in step by every change
EDITS["extra-field"] = (MODS, [
    sub("    num_elements: usize,\n    phantom", "    num_elements: usize,\n    changes: u32,\n    phantom"),
    sub("num_elements: 0,\n            phantom", "num_elements: 0,\n            changes: 0,\n            phantom"),
    sub("    fn set_raw(&mut self, i: usize, discr: usize) {\n", "    fn set_raw(&mut self, i: usize, discr: usize) {\n        self.changes = self.changes.wrapping_add(1) & 3;\n"),
])


def run(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    if sys.argv[1] == "--list":
        print(*EDITS)
        return
    for name in sys.argv[1:]:
        files, how = EDITS[name]
        for f in files:
            p = "/repo/" + f
            s = open(p).read()
            for h in how:
                try:
                    s = h(s)
                except (ValueError, AssertionError) as e:
                    print(name, f, "does not apply:", str(e)[:80], flush=True)
            open(p, "w").write(s)
        r = run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/rf.json", cwd="/repo")
        t = json.load(open("/tmp/rf.json")) if r.returncode == 0 or os.path.exists("/tmp/rf.json") else {}
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base["stable"]
        lost = [x for x in want if x not in t.get("passed", [])]
        print(name, "tests:", "ok" if r.returncode == 0 and not lost else f"rc {r.returncode} lost {lost[:5]}" + r.stderr[-600:], flush=True)
        ids = ["C%02d" % i for i in range(1, 26)]
        for c in ids:
            t0 = time.time()
            r = run(f"timeout 900 ./check {c}", cwd="/verif")
            if r.returncode:
                print("  NOT QUIET", name, c, r.returncode, (r.stdout + r.stderr)[-500:], flush=True)
            else:
                print("  quiet", c, round(time.time() - t0), flush=True)
        run("git checkout -q -- .", cwd="/repo")


main()
