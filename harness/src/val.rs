//! Values of the specification (see spec/Wire.tla) and their binding to the library's types.
use num_traits::FromPrimitive;
use serde_json::Value as J;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    /// octets: a primitive, an enumeration, data or text
    O(Vec<u8>),
    /// a tuple of values: a record, a list, an optional block
    T(Vec<Val>),
    /// a variant of a gridded-data record
    V(String, Vec<Val>),
}

impl Val {
    pub fn tup(&self) -> &[Val] {
        match self {
            Val::T(v) => v,
            Val::O(o) if o.is_empty() => &[],
            x => panic!("harness: not a tuple: {x:?}"),
        }
    }
    pub fn octs(&self) -> &[u8] {
        match self {
            Val::O(o) => o,
            Val::T(v) if v.is_empty() => &[],
            x => panic!("harness: not octets: {x:?}"),
        }
    }
    pub fn json(&self) -> J {
        match self {
            Val::O(o) => J::Array(o.iter().map(|b| J::from(*b)).collect()),
            Val::T(v) => J::Array(v.iter().map(Val::json).collect()),
            Val::V(n, v) => J::Array(vec![J::from(n.as_str()), J::Array(v.iter().map(Val::json).collect())]),
        }
    }
    /// Equality that does not tell an empty tuple from no octets (JSON and TLA+ do not either).
    pub fn same(&self, other: &Val) -> bool {
        match (self, other) {
            (Val::O(a), Val::O(b)) => a == b,
            (Val::T(a), Val::T(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (Val::V(n, a), Val::V(m, b)) => n == m && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (Val::O(a), Val::T(b)) | (Val::T(b), Val::O(a)) => a.is_empty() && b.is_empty(),
            _ => false,
        }
    }
    pub fn nat(&self) -> u64 {
        self.octs().iter().fold(0u64, |a, b| (a << 8) | u64::from(*b))
    }
    pub fn size(&self) -> usize {
        match self {
            Val::O(o) => o.len().max(1),
            Val::T(v) | Val::V(_, v) => 1 + v.iter().map(Val::size).sum::<usize>(),
        }
    }
}

pub fn octets(n: u64, w: usize) -> Vec<u8> {
    n.to_be_bytes()[8 - w..].to_vec()
}

/// A library type that stands for one value of the specification.
pub trait Bind: Sized {
    fn fv(v: &Val) -> Self;
    fn tv(&self) -> Val;
}

macro_rules! prim {
    ($($t:ty)*) => {$(
        impl Bind for $t {
            fn fv(v: &Val) -> Self { <$t>::from_be_bytes(v.octs().try_into().expect("harness: width")) }
            fn tv(&self) -> Val { Val::O(self.to_be_bytes().to_vec()) }
        }
    )*};
}
prim!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64);

impl<T: Bind> Bind for Vec<T> {
    fn fv(v: &Val) -> Self { v.tup().iter().map(T::fv).collect() }
    fn tv(&self) -> Val { Val::T(self.iter().map(T::tv).collect()) }
}
impl<T: Bind> Bind for Option<T> {
    fn fv(v: &Val) -> Self { v.tup().first().map(T::fv) }
    fn tv(&self) -> Val { Val::T(self.iter().map(T::tv).collect()) }
}

/// A library type that stands for a string of octets.
pub trait Octs: Sized {
    fn from_octs(o: &[u8]) -> Self;
    fn to_octs(&self) -> Vec<u8>;
}
impl Octs for Vec<u8> {
    fn from_octs(o: &[u8]) -> Self { o.to_vec() }
    fn to_octs(&self) -> Vec<u8> { self.clone() }
}
impl Octs for String {
    fn from_octs(o: &[u8]) -> Self { String::from_utf8(o.to_vec()).expect("harness: text") }
    fn to_octs(&self) -> Vec<u8> { self.as_bytes().to_vec() }
}
impl<const N: usize> Octs for [u8; N] {
    fn from_octs(o: &[u8]) -> Self { o.try_into().expect("harness: width") }
    fn to_octs(&self) -> Vec<u8> { self.to_vec() }
}
impl<const N: usize> Octs for [i8; N] {
    fn from_octs(o: &[u8]) -> Self { std::array::from_fn(|i| o[i] as i8) }
    fn to_octs(&self) -> Vec<u8> { self.iter().map(|b| *b as u8).collect() }
}

/// Enumerations: the numeric code of an enumerator and back.
pub trait Code: Sized {
    const W: usize;
    fn code(&self) -> u64;
    fn from_code(c: u64) -> Option<Self>;
}
pub fn wide_tv<T: Code>(x: &T, w: usize) -> Val { Val::O(octets(x.code(), w)) }

#[macro_export]
macro_rules! enumeration {
    ($n:ident, $w:expr) => {
        impl Code for en::$n {
            const W: usize = $w;
            fn code(&self) -> u64 { *self as u64 }
            fn from_code(c: u64) -> Option<Self> { FromPrimitive::from_u64(c) }
        }
        impl Bind for en::$n {
            fn fv(v: &Val) -> Self { <Self as Code>::from_code(v.nat()).expect("harness: code") }
            fn tv(&self) -> Val { Val::O(octets(self.code(), $w)) }
        }
    };
}
#[macro_export]
macro_rules! flags {
    ($n:ident, $w:expr) => {
        impl Bind for en::$n {
            fn fv(v: &Val) -> Self { en::$n::from_bits(v.nat() as _).expect("harness: flags") }
            fn tv(&self) -> Val { Val::O(octets(u64::from(self.bits()), $w)) }
        }
    };
}
pub use {enumeration, flags};
pub fn code_of<T: FromPrimitive>(c: u64) -> Option<T> { T::from_u64(c) }
