// Contract runtime. Compiled into the crate under test (cfg `verif` only).
//
// Every contract is a function `vh_cNN_*`: it introduces arbitrary inputs
// (`real`, `flag`, `choice`), states preconditions (`requires`), calls the real
// function and states postconditions (`ensures`, `eq`, ...).
// * For the verifier these functions are primitives: inputs are universally
//   quantified, requires are assumed, ensures are proof obligations.
// * For the replay runner the same text is executed natively on concrete inputs.
use nalgebra::Vector3;

extern "Rust" {
    fn vf_f64(p: *const u8, n: usize, lo: f64, hi: f64) -> f64;
    fn vf_bool(p: *const u8, n: usize) -> bool;
    fn vf_choice(p: *const u8, n: usize, max: usize) -> usize;
    fn vf_requires(c: bool);
    fn vf_ensures(p: *const u8, n: usize, c: bool);
    fn vf_eq(p: *const u8, n: usize, a: f64, b: f64, scale: f64);
    fn vf_same(p: *const u8, n: usize, a: f64, b: f64);
    fn vf_le(p: *const u8, n: usize, a: f64, b: f64, scale: f64);
    fn vf_panics_iff(p: *const u8, n: usize, c: bool);
    fn vf_panics_done();
    fn vf_uf(p: *const u8, n: usize, args: *const f64, k: usize) -> f64;
    fn vf_stub(p: *const u8, n: usize, f: *const u8);
    fn vf_slice(p: *const u8, n: usize, len: usize, sorted: bool) -> *const f64;
    fn vf_array(p: *const u8, n: usize, len: usize, esz: usize) -> *mut u8;
    fn vf_nested(p: *const u8, n: usize, dims: usize, l0: usize, l1: usize, l2: usize, ragged: bool) -> *mut u8;
    fn vf_copy(p: *const u8, n: usize) -> *mut u8;
    fn vf_loops(every: bool);
    fn vf_len(p: *const u8, n: usize) -> usize;
    fn vf_symbolic() -> bool;
    fn vf_str(p: *const u8, n: usize, dict: *const &'static str, k: usize, len: *mut usize) -> *const u8;
}

/// An arbitrary real number; `lo..hi` only guides the native runner.
#[inline(always)]
pub fn real(name: &'static str, lo: f64, hi: f64) -> f64 {
    unsafe { vf_f64(name.as_ptr(), name.len(), lo, hi) }
}
#[inline(always)]
pub fn vec3(name: &'static str, lo: f64, hi: f64) -> Vector3<f64> {
    Vector3::new(real(name, lo, hi), real(name, lo, hi), real(name, lo, hi))
}
#[inline(always)]
pub fn flag(name: &'static str) -> bool {
    unsafe { vf_bool(name.as_ptr(), name.len()) }
}
/// Case split over `0..=max`.
#[inline(always)]
pub fn choice(name: &'static str, max: usize) -> usize {
    unsafe { vf_choice(name.as_ptr(), name.len(), max) }
}
#[inline(always)]
pub fn requires(c: bool) {
    unsafe { vf_requires(c) }
}
#[inline(always)]
pub fn ensures(name: &'static str, c: bool) {
    unsafe { vf_ensures(name.as_ptr(), name.len(), c) }
}
/// Equality of two real values (natively: up to rounding, relative to
/// |a|+|b|+scale).
#[inline(always)]
pub fn eq(name: &'static str, a: f64, b: f64, scale: f64) {
    unsafe { vf_eq(name.as_ptr(), name.len(), a, b, scale) }
}
#[inline(always)]
pub fn eq3(name: &'static str, a: Vector3<f64>, b: Vector3<f64>, scale: f64) {
    let scale = if symbolic() { scale } else { scale + a.norm() };
    eq(name, a[0], b[0], scale);
    eq(name, a[1], b[1], scale);
    eq(name, a[2], b[2], scale);
}
/// Identity of two values (natively: bit for bit, NaN equals NaN).
#[inline(always)]
pub fn same(name: &'static str, a: f64, b: f64) {
    unsafe { vf_same(name.as_ptr(), name.len(), a, b) }
}
#[inline(always)]
pub fn same3(name: &'static str, a: Vector3<f64>, b: Vector3<f64>) {
    same(name, a[0], b[0]);
    same(name, a[1], b[1]);
    same(name, a[2], b[2]);
}
#[inline(always)]
pub fn le(name: &'static str, a: f64, b: f64, scale: f64) {
    unsafe { vf_le(name.as_ptr(), name.len(), a, b, scale) }
}
/// The code up to `panics_done` panics exactly when `c`.
#[inline(always)]
pub fn panics_iff(name: &'static str, c: bool) {
    unsafe { vf_panics_iff(name.as_ptr(), name.len(), c) }
}
#[inline(always)]
pub fn panics_done() {
    unsafe { vf_panics_done() }
}
/// An uninterpreted function of its arguments (natively: a fixed smooth one).
#[inline(always)]
pub fn uf(name: &'static str, args: &[f64]) -> f64 {
    unsafe { vf_uf(name.as_ptr(), name.len(), args.as_ptr(), args.len()) }
}
/// For the verifier: calls of the named function use the contract `f`.
/// Natively the real function stays.
#[inline(always)]
pub fn with_contract(name: &'static str, f: *const u8) {
    unsafe { vf_stub(name.as_ptr(), name.len(), f) }
}
#[inline(always)]
pub fn slice(name: &'static str, len: usize, sorted: bool) -> &'static [f64] {
    unsafe { std::slice::from_raw_parts(vf_slice(name.as_ptr(), name.len(), len, sorted), len) }
}
#[inline(always)]
pub fn length(name: &'static str) -> usize {
    unsafe { vf_len(name.as_ptr(), name.len()) }
}
/// Loops of this contract are proved for any number of iterations (by inferred
/// and proved invariants) instead of being unrolled. `every`: also loops whose
/// end does not depend on a length.
#[inline(always)]
pub fn unbounded(every: bool) {
    unsafe { vf_loops(every) }
}
/// For the verifier: `n` rows of `m` arbitrary numbers each, for any `n` and `m`.
#[inline(always)]
pub fn grid(name: &'static str, n: usize, m: usize) -> Box<[Box<[f64]>]> {
    if symbolic() {
        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(vf_nested(name.as_ptr(), name.len(), 2, n, m, 0, false) as *mut Box<[f64]>, n)) }
    } else {
        (0..n).map(|_| (0..m).map(|_| real(name, -10., 10.)).collect()).collect()
    }
}
/// As `grid`, with `n` planes.
#[inline(always)]
pub fn cube(name: &'static str, n: usize, m: usize, l: usize) -> Box<[Box<[Box<[f64]>]>]> {
    if symbolic() {
        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(vf_nested(name.as_ptr(), name.len(), 3, n, m, l, false) as *mut Box<[Box<[f64]>]>, n)) }
    } else {
        (0..n).map(|_| grid(name, m, l)).collect()
    }
}
/// As `grid`, with rows of any lengths; natively one row has another length
/// than `m` if `odd`.
#[inline(always)]
pub fn ragged_grid(name: &'static str, n: usize, m: usize, odd: bool) -> Box<[Box<[f64]>]> {
    if symbolic() {
        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(vf_nested(name.as_ptr(), name.len(), 2, n, 0, 0, true) as *mut Box<[f64]>, n)) }
    } else {
        let at = if odd && n > 0 { choice("odd row", n - 1) } else { n };
        (0..n).map(|i| (0..if i == at { length("odd length") } else { m }).map(|_| real(name, -10., 10.)).collect()).collect()
    }
}
#[inline(always)]
pub fn ragged_cube(name: &'static str, n: usize, m: usize, l: usize, odd: (bool, bool)) -> Box<[Box<[Box<[f64]>]>]> {
    if symbolic() {
        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(vf_nested(name.as_ptr(), name.len(), 3, n, 0, 0, true) as *mut Box<[Box<[f64]>]>, n)) }
    } else {
        let at = if n > 0 { choice("odd plane", n - 1) } else { n };
        (0..n).map(|i| ragged_grid(name, if odd.0 && i == at { length("odd rows") } else { m }, l, odd.1 && i == at)).collect()
    }
}
/// What the standard library promises of copying boxed arrays: as many, with
/// the same contents, of its own memory.
pub fn copy_of<T>(s: &[T]) -> Box<[T]> {
    unsafe { Box::from_raw(std::slice::from_raw_parts_mut(vf_copy(s.as_ptr() as *const u8, s.len()) as *mut T, s.len())) }
}
/// An index of any element.
#[inline(always)]
pub fn any_index(n: usize) -> usize {
    let i = length("index");
    requires(i < n);
    i
}
/// `check` holds for every index below `n`.
#[inline(always)]
pub fn each_index(n: usize, check: impl Fn(usize)) {
    if symbolic() {
        check(any_index(n));
    } else {
        (0..n).for_each(check);
    }
}
/// Some index below `n` for which `is` holds.
#[inline(always)]
pub fn requires_some(n: usize, is: impl Fn(usize) -> bool) {
    if symbolic() {
        let i = length("index");
        requires(i < n);
        requires(is(i));
    } else {
        requires((0..n).any(is));
    }
}
/// Any numbers; natively increasing but for one place if `odd`.
#[inline(always)]
pub fn breakpoints(name: &'static str, n: usize, odd: bool) -> &'static [f64] {
    if symbolic() {
        return slice(name, n, false);
    }
    let mut v = slice(name, n, true).to_vec();
    if odd && n > 1 {
        let i = choice("odd breakpoint", n - 2);
        if flag("twice") {
            v[i + 1] = v[i];
        } else {
            v.swap(i, i + 1);
        }
    }
    v.leak()
}
/// For the verifier: an arbitrary vector of any length of a type of numbers.
/// Natively: `item` called `len` times.
#[inline(always)]
pub fn array<T>(name: &'static str, len: usize, item: fn() -> T) -> Vec<T> {
    if symbolic() {
        unsafe { Vec::from_raw_parts(vf_array(name.as_ptr(), name.len(), len, std::mem::size_of::<T>()) as *mut T, len, len) }
    } else {
        let mut v = Vec::new();
        for _ in 0..len {
            v.push(item());
        }
        v
    }
}
/// As `copy_of`.
pub fn copy_of_vec<T>(s: &Vec<T>) -> Vec<T> {
    copy_of(s).into_vec()
}
#[inline(always)]
pub fn symbolic() -> bool {
    unsafe { vf_symbolic() }
}
/// An arbitrary string; `dict` only guides the native runner.
#[inline(always)]
pub fn string(name: &'static str, dict: &[&'static str]) -> &'static str {
    unsafe {
        let mut len = 0;
        let p = vf_str(name.as_ptr(), name.len(), dict.as_ptr(), dict.len(), &mut len);
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, len))
    }
}
/// Errors of deserialisers without a message.
#[derive(Debug)]
pub struct Rejected;
impl std::fmt::Display for Rejected {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Rejected {}
impl serde::de::Error for Rejected {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Rejected
    }
}

// ---- configuration documents -----------------------------------------------
// A document is described by the values below; they answer whatever the
// deserialisation code of the crate asks for.
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};

/// A value in a document.
#[derive(Clone, Copy)]
pub enum Doc {
    Null,
    Flag(bool),
    Number(f64),
    Text(&'static str),
    List(&'static [Doc]),
    Object(&'static [(&'static str, Doc)]),
}
#[inline(always)]
pub fn list(v: Vec<Doc>) -> Doc {
    Doc::List(Box::leak(v.into_boxed_slice()))
}
#[inline(always)]
pub fn object(v: Vec<(&'static str, Doc)>) -> Doc {
    Doc::Object(Box::leak(v.into_boxed_slice()))
}
#[inline(always)]
pub fn numbers(name: &'static str, n: usize) -> (Vec<f64>, Doc) {
    let mut v = Vec::new();
    let mut d = Vec::new();
    let mut i = 0;
    while i < n {
        let x = real(name, -10., 10.);
        v.push(x);
        d.push(Doc::Number(x));
        i += 1;
    }
    (v, list(d))
}

pub struct Items {
    items: &'static [Doc],
    at: usize,
}
impl SeqAccess<'static> for Items {
    type Error = Rejected;
    fn next_element_seed<T: DeserializeSeed<'static>>(&mut self, seed: T) -> Result<Option<T::Value>, Rejected> {
        if self.at < self.items.len() {
            self.at += 1;
            match seed.deserialize(self.items[self.at - 1]) {
                Ok(v) => Ok(Some(v)),
                Err(e) => Err(e),
            }
        } else {
            Ok(None)
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.items.len() - self.at)
    }
}
pub struct Entries {
    entries: &'static [(&'static str, Doc)],
    at: usize,
}
impl MapAccess<'static> for Entries {
    type Error = Rejected;
    fn next_key_seed<T: DeserializeSeed<'static>>(&mut self, seed: T) -> Result<Option<T::Value>, Rejected> {
        if self.at < self.entries.len() {
            match seed.deserialize(Doc::Text(self.entries[self.at].0)) {
                Ok(v) => Ok(Some(v)),
                Err(e) => Err(e),
            }
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<T: DeserializeSeed<'static>>(&mut self, seed: T) -> Result<T::Value, Rejected> {
        self.at += 1;
        seed.deserialize(self.entries[self.at - 1].1)
    }
}
pub struct Variant(Option<Doc>);
impl VariantAccess<'static> for Variant {
    type Error = Rejected;
    fn unit_variant(self) -> Result<(), Rejected> {
        match self.0 {
            None => Ok(()),
            Some(_) => Err(Rejected),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'static>>(self, seed: T) -> Result<T::Value, Rejected> {
        match self.0 {
            Some(d) => seed.deserialize(d),
            None => Err(Rejected),
        }
    }
    fn tuple_variant<V: Visitor<'static>>(self, _: usize, v: V) -> Result<V::Value, Rejected> {
        match self.0 {
            Some(d) => d.deserialize_any(v),
            None => Err(Rejected),
        }
    }
    fn struct_variant<V: Visitor<'static>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Rejected> {
        match self.0 {
            Some(d) => d.deserialize_any(v),
            None => Err(Rejected),
        }
    }
}
pub struct Choice(&'static str, Option<Doc>);
impl EnumAccess<'static> for Choice {
    type Error = Rejected;
    type Variant = Variant;
    fn variant_seed<T: DeserializeSeed<'static>>(self, seed: T) -> Result<(T::Value, Variant), Rejected> {
        match seed.deserialize(Doc::Text(self.0)) {
            Ok(v) => Ok((v, Variant(self.1))),
            Err(e) => Err(e),
        }
    }
}
/// The behaviour of the JSON deserialiser for a parsed document.
impl Deserializer<'static> for Doc {
    type Error = Rejected;
    fn deserialize_any<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Rejected> {
        match self {
            Doc::Null => v.visit_unit(),
            Doc::Flag(b) => v.visit_bool(b),
            Doc::Number(x) => v.visit_f64(x),
            Doc::Text(s) => v.visit_borrowed_str(s),
            Doc::List(items) => v.visit_seq(Items { items, at: 0 }),
            Doc::Object(entries) => v.visit_map(Entries { entries, at: 0 }),
        }
    }
    fn deserialize_option<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Rejected> {
        match self {
            Doc::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_enum<V: Visitor<'static>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Rejected> {
        match self {
            Doc::Text(s) => v.visit_enum(Choice(s, None)),
            Doc::Object(e) if e.len() == 1 => v.visit_enum(Choice(e[0].0, Some(e[0].1))),
            _ => Err(Rejected),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> Result<V::Value, Rejected> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        <W: Visitor<'static>>
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
