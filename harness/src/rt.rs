//! Uniform access to the library's enumerations, records and PDUs.
use crate::val::*;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::pdu_header::PduStatusRecord;
use open_dis_rust::common::{DISError, GenericHeader, LiveEntityPduHeader, Pdu, PduHeader};
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
use std::marker::PhantomData;

// Which codec traits a type has is found out by method resolution: the by-reference
// implementation below is only used where the first does not apply.
pub struct P<T>(PhantomData<T>);
impl<T> P<T> {
    pub fn new() -> Self { Self(PhantomData) }
}
pub trait SerYes<T> { fn fser(&self, x: &T) -> Option<Vec<u8>>; }
impl<T: FieldSerialize> SerYes<T> for P<T> {
    fn fser(&self, x: &T) -> Option<Vec<u8>> { let mut b = BytesMut::new(); x.serialize_field(&mut b); Some(b.to_vec()) }
}
pub trait SerNo<T> { fn fser(&self, _: &T) -> Option<Vec<u8>> { None } }
impl<T> SerNo<T> for &P<T> {}
pub trait DesYes<T> { fn fdes(&self, b: &mut dyn Buf) -> Option<T>; }
impl<T: FieldDeserialize> DesYes<T> for P<T> {
    fn fdes(&self, mut b: &mut dyn Buf) -> Option<T> { Some(T::deserialize_field(&mut b)) }
}
pub trait DesNo<T> { fn fdes(&self, _: &mut dyn Buf) -> Option<T> { None } }
impl<T> DesNo<T> for &P<T> {}
pub trait LenYes<T> { fn flen(&self, x: &T) -> Option<usize>; }
impl<T: FieldLen> LenYes<T> for P<T> {
    fn flen(&self, x: &T) -> Option<usize> { Some(x.field_len()) }
}
pub trait LenNo<T> { fn flen(&self, _: &T) -> Option<usize> { None } }
impl<T> LenNo<T> for &P<T> {}
pub trait ConstYes { fn clen(&self) -> Option<usize>; }
impl<T: open_dis_rust::common::SerializedLength> ConstYes for P<T> {
    fn clen(&self) -> Option<usize> { Some(T::LENGTH) }
}
pub trait ConstNo { fn clen(&self) -> Option<usize> { None } }
impl<T> ConstNo for &P<T> {}

/// Whether a type may be handed to another thread, and shared with one: the trait's constants are
/// used only where the inherent ones do not apply.
pub struct Threads<T: ?Sized>(PhantomData<T>);
pub trait NoThreads { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> NoThreads for Threads<T> {}
impl<T: ?Sized + Send> Threads<T> { pub const SEND: bool = true; }
impl<T: ?Sized + Sync> Threads<T> { pub const SYNC: bool = true; }

pub struct EnumObs {
    pub code: u64,
    pub name: String,
    pub used: usize,
    /// through the field codec, if there is one: code, octets read, octets written, length
    pub field: Option<(u64, usize, Vec<u8>, usize)>,
}
pub struct EnumEntry {
    pub name: &'static str,
    pub w: usize,
    pub probe: fn(&[u8]) -> Option<EnumObs>,
}

#[macro_export]
macro_rules! enum_entry {
    ($n:ident, $w:expr) => {
        EnumEntry { name: stringify!($n), w: $w, probe: |bs| {
            let total = bs.len();
            let mut b: &[u8] = bs;
            let x = en::$n::deserialize(&mut b);
            let used = total - b.len();
            let mut c: &[u8] = bs;
            let p = P::<en::$n>::new();
            let field = (&p).fdes(&mut c).map(|y| {
                let (e, l) = ((&p).fser(&y), (&p).flen(&y));
                (y.code(), total - c.len(), e.unwrap_or_default(), l.unwrap_or_default())
            });
            Some(EnumObs { code: x.code(), name: format!("{x:?}"), used, field })
        } }
    };
}
#[macro_export]
macro_rules! flags_entry {
    ($n:ident, $w:expr, $from:ident, $as:ident) => {
        EnumEntry { name: stringify!($n), w: $w, probe: |bs| {
            let code = bs[..$w].iter().fold(0u64, |a, b| (a << 8) | u64::from(*b));
            let x = en::$n::$from(code as _).unwrap_or_default();
            let total = bs.len();
            let mut c: &[u8] = bs;
            let p = P::<en::$n>::new();
            let field = (&p).fdes(&mut c).map(|y| {
                let (e, l) = ((&p).fser(&y), (&p).flen(&y));
                (u64::from(y.bits()), total - c.len(), e.unwrap_or_default(), l.unwrap_or_default())
            });
            Some(EnumObs { code: u64::from(x.$as()), name: format!("{x:?}"), used: $w, field })
        } }
    };
}

pub fn bindable<T: Bind>(v: &Val) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| <T as Bind>::fv(v))).ok().filter(|x| x.tv().same(v))
}
/// What a record codec did with a value.
pub struct RecObs {
    pub enc: Vec<u8>,
    pub fenc: Option<Vec<u8>>,
    pub flen: Option<usize>,
    pub clen: Option<usize>,
    /// the inherent decoder on the octets plus the tail: value, octets read
    pub dec: (Val, usize),
    pub fdec: Option<(Val, usize)>,
}
pub struct RecEntry {
    pub name: &'static str,
    /// None: the value cannot be made (an enumeration lacks a code)
    pub run: fn(&Val, &[u8]) -> Option<RecObs>,
    /// decode octets with the inherent decoder: value, octets read
    pub dec: fn(&mut dyn Buf) -> Val,
    /// the octets the inherent encoder writes
    pub enc: fn(&Val) -> Vec<u8>,
    /// octets written by either way, and the lengths reported
    pub only_enc: fn(&Val) -> Option<(Vec<u8>, Option<Vec<u8>>, Option<usize>, Option<usize>)>,
}

#[macro_export]
macro_rules! rec_entry {
    ($s:expr, $t:ty) => {
        RecEntry { name: $s,
            run: |v, tail| {
                let x = bindable::<$t>(v)?;
                let mut b = BytesMut::new();
                x.serialize(&mut b);
                let enc = b.to_vec();
                let p = P::<$t>::new();
                let mut all = enc.clone();
                all.extend_from_slice(tail);
                let total = all.len();
                let mut s: &[u8] = &all;
                let d = <$t>::deserialize(&mut s);
                let dec = (d.tv(), total - s.len());
                let mut s2: &[u8] = &all;
                let fdec = (&p).fdes(&mut s2).map(|y| (y.tv(), total - s2.len()));
                Some(RecObs { enc, fenc: (&p).fser(&x), flen: (&p).flen(&x), clen: (&p).clen(), dec, fdec })
            },
            dec: |mut b| <$t>::deserialize(&mut b).tv(),
            enc: |v| { let mut b = BytesMut::new(); <$t as Bind>::fv(v).serialize(&mut b); b.to_vec() },
            only_enc: |v| {
                let x = bindable::<$t>(v)?;
                let mut b = BytesMut::new();
                x.serialize(&mut b);
                let p = P::<$t>::new();
                Some((b.to_vec(), (&p).fser(&x), (&p).flen(&x), (&p).clen()))
            },
        }
    };
}
#[macro_export]
macro_rules! hdr_entry {
    ($s:expr, $t:ty) => {
        RecEntry { name: $s,
            run: |v, tail| {
                let x = bindable::<$t>(v)?;
                let mut b = BytesMut::new();
                GenericHeader::serialize(&x, &mut b);
                let enc = b.to_vec();
                let p = P::<$t>::new();
                let mut all = enc.clone();
                all.extend_from_slice(tail);
                let total = all.len();
                let mut s: &[u8] = &all;
                let d = <$t as GenericHeader>::deserialize(&mut s);
                let dec = (d.tv(), total - s.len());
                let mut s2: &[u8] = &all;
                let fdec = (&p).fdes(&mut s2).map(|y| (y.tv(), total - s2.len()));
                Some(RecObs { enc, fenc: (&p).fser(&x), flen: (&p).flen(&x), clen: (&p).clen(), dec, fdec })
            },
            dec: |mut b| <$t as GenericHeader>::deserialize(&mut b).tv(),
            enc: |v| { let mut b = BytesMut::new(); GenericHeader::serialize(&<$t as Bind>::fv(v), &mut b); b.to_vec() },
            only_enc: |v| {
                let x = bindable::<$t>(v)?;
                let mut b = BytesMut::new();
                GenericHeader::serialize(&x, &mut b);
                let p = P::<$t>::new();
                Some((b.to_vec(), (&p).fser(&x), (&p).flen(&x), (&p).clen()))
            },
        }
    };
}

pub struct MadeEntry {
    pub name: &'static str,
    /// the constructor, from its arguments
    pub make: Option<fn(&[Val]) -> Val>,
    pub default: Option<fn() -> Val>,
}

pub trait Body {
    fn set_body(&mut self, v: &Val);
    fn body(&self) -> Val;
    fn set_field(&mut self, i: usize, v: &Val);
}
/// A header a PDU may carry.
pub trait Head: GenericHeader + Bind {
    /// one field assigned, directly or with its setter
    fn put(&mut self, i: usize, v: &Val, via: usize);
}
impl Head for PduHeader {
    fn put(&mut self, i: usize, v: &Val, via: usize) {
        match (i, via) {
            (0, _) => self.protocol_version = Bind::fv(v),
            (1, _) => self.exercise_id = Bind::fv(v),
            (2, 0) => self.pdu_type = Bind::fv(v),
            (2, _) => self.set_pdu_type(Bind::fv(v)),
            (3, 0) => self.protocol_family = Bind::fv(v),
            (3, _) => self.set_protocol_family(Bind::fv(v)),
            (4, _) => self.timestamp = Bind::fv(v),
            (5, 0) => self.length = Bind::fv(v),
            (5, _) => self.set_length(Bind::fv(v)),
            _ => self.status_record = PduStatusRecord::from_u8(Bind::fv(v)),
        }
    }
}
impl Head for LiveEntityPduHeader {
    fn put(&mut self, i: usize, v: &Val, via: usize) {
        match (i, via) {
            (0, _) => self.protocol_version = Bind::fv(v),
            (1, _) => self.exercise_id = Bind::fv(v),
            (2, 0) => self.pdu_type = Bind::fv(v),
            (2, _) => self.set_pdu_type(Bind::fv(v)),
            (3, 0) => self.protocol_family = Bind::fv(v),
            (3, _) => self.set_protocol_family(Bind::fv(v)),
            (4, _) => self.timestamp = Bind::fv(v),
            (5, 0) => self.length = Bind::fv(v),
            (5, _) => self.set_length(Bind::fv(v)),
            _ => self.subprotocol_number = Bind::fv(v),
        }
    }
}
/// What a header answers when asked for its type, family and length.
pub fn answers(h: &impl GenericHeader) -> Val { Val::T(vec![h.pdu_type().tv(), h.protocol_family().tv(), h.length().tv()]) }
/// A header by itself.
pub trait Lone {
    fn put(&mut self, i: usize, v: &Val, via: usize);
    fn hdr(&self) -> Val;
    fn acc(&self) -> Val;
    fn write(&self, b: &mut BytesMut);
}
impl<T: Head> Lone for T {
    fn put(&mut self, i: usize, v: &Val, via: usize) { Head::put(self, i, v, via) }
    fn hdr(&self) -> Val { self.tv() }
    fn acc(&self) -> Val { answers(self) }
    fn write(&self, b: &mut BytesMut) { GenericHeader::serialize(self, b) }
}
pub trait Obj {
    fn set_body(&mut self, v: &Val);
    fn body(&self) -> Val;
    fn set_field(&mut self, i: usize, v: &Val);
    fn hdr(&self) -> Val;
    /// the type, family and length the header answers with
    fn acc(&self) -> Val;
    fn set_hdr(&mut self, h: &Val);
    fn put_hdr(&mut self, i: usize, v: &Val, via: usize);
    fn calc(&self) -> Result<u16, DISError>;
    fn fin(&mut self);
    fn ser(&mut self, b: &mut BytesMut) -> Result<(), DISError>;
    /// as_any gives this very object, as its own type
    fn any(&self) -> bool;
}
impl<T: 'static + Body + Pdu> Obj for T where T::Header: Head {
    fn set_body(&mut self, v: &Val) { Body::set_body(self, v) }
    fn body(&self) -> Val { Body::body(self) }
    fn set_field(&mut self, i: usize, v: &Val) { Body::set_field(self, i, v) }
    fn hdr(&self) -> Val { Pdu::header(self).tv() }
    fn acc(&self) -> Val { answers(Pdu::header(self)) }
    fn set_hdr(&mut self, h: &Val) { let h = Bind::fv(h); *Pdu::header_mut(self) = h }
    fn put_hdr(&mut self, i: usize, v: &Val, via: usize) { Head::put(Pdu::header_mut(self), i, v, via) }
    fn calc(&self) -> Result<u16, DISError> { self.calculate_length() }
    fn fin(&mut self) { self.finalize() }
    fn ser(&mut self, b: &mut BytesMut) -> Result<(), DISError> { self.serialize(b) }
    fn any(&self) -> bool { Pdu::as_any(self).downcast_ref::<T>().is_some_and(|x| std::ptr::eq(x, self)) }
}
pub type DecFn = fn(&mut dyn Buf) -> Result<Box<dyn Obj>, DISError>;
pub struct PduEntry {
    pub name: &'static str,
    pub new: fn() -> Box<dyn Obj>,
    pub default: fn() -> Box<dyn Obj>,
    pub dec: DecFn,
    /// with a header from elsewhere
    pub decwo: fn(&mut dyn Buf, &Val) -> Result<Box<dyn Obj>, DISError>,
    /// the header read first, and then the rest with it
    pub split: DecFn,
    /// can the header be made?
    pub hdrok: fn(&Val) -> bool,
    /// may be handed to other threads, and shared with them
    pub send: bool,
    pub sync: bool,
}
#[macro_export]
macro_rules! pdu_entry {
    ($s:expr, $t:ty) => {
        PduEntry { name: $s,
            send: Threads::<$t>::SEND, sync: Threads::<$t>::SYNC,
            new: || Box::new(<$t>::new()),
            default: || Box::new(<$t>::default()),
            dec: |mut b| <$t as Pdu>::deserialize(&mut b).map(|x| Box::new(x) as Box<dyn Obj>),
            decwo: |mut b, h| <$t as Pdu>::deserialize_without_header(&mut b, Bind::fv(h)).map(|x| Box::new(x) as Box<dyn Obj>),
            split: |mut b| {
                let h = <<$t as Pdu>::Header as GenericHeader>::deserialize(&mut b);
                <$t as Pdu>::deserialize_without_header(&mut b, h).map(|x| Box::new(x) as Box<dyn Obj>)
            },
            hdrok: |h| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _: <$t as Pdu>::Header = Bind::fv(h); })).is_ok(),
        }
    };
}

/// An optional block can only be obtained by decoding it.
pub fn opt_from<T: open_dis_rust::pdu_macro::FieldDeserializeWithLen>(v: &Val) -> Option<T> {
    v.tup().first().map(|o| { let mut b: &[u8] = o.octs(); T::deserialize_with_len(&mut b, o.octs().len()) })
}
pub fn opt_to<T: FieldSerialize>(x: &Option<T>) -> Val {
    match x {
        None => Val::T(vec![]),
        Some(y) => { let mut b = BytesMut::new(); y.serialize_field(&mut b); Val::T(vec![Val::O(b.to_vec())]) }
    }
}
pub use {enum_entry, flags_entry, hdr_entry, pdu_entry, rec_entry};
