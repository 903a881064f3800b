//! Field decoders that read as they like (C27): a script says how, a log what they got.
use crate::run::*;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::enums::{PduType, ProtocolFamily};
use open_dis_rust::common::{DISError, GenericHeader, Pdu, PduHeader, SerializedLength};
use open_dis_rust::define_pdu;
use open_dis_rust::pdu_macro::{CheckedBuf, FieldDeserialize, FieldLen, FieldSerialize, read_list};
use serde_json::{json, Value as J};
use std::cell::RefCell;

#[derive(Clone, Copy)]
pub struct Op { pub how: usize, pub n: usize, pub w: usize }

thread_local! {
    static SCRIPT: RefCell<Vec<Op>> = const { RefCell::new(vec![]) };
    static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) };
}

/// The ways of reading: the specification's name for it, whether it takes a number of octets, or
/// reads how many.
#[derive(Clone, Copy, PartialEq)]
enum N { Fixed(usize), Any, Upto8, List }
macro_rules! ways {
    ($($name:literal $n:expr => |$b:ident, $k:ident| $body:expr;)*) => {
        const WAYS: &[(&str, N)] = &[$(($name, $n)),*];
        fn perform<B: Buf>(buf: &mut B, how: usize, n: usize, w: usize) -> Vec<u8> {
            let mut i = 0;
            $( if how == i { let $b = buf; let $k = (n, w); return $body } i += 1; )*
            let _ = i;
            unreachable!()
        }
    };
}
// a number's octets, most significant first, as read in this machine's order
ways! {
    "be" N::Fixed(1) => |b, _k| vec![b.get_u8()];
    "be" N::Fixed(1) => |b, _k| vec![b.get_i8() as u8];
    "be" N::Fixed(2) => |b, _k| b.get_u16().to_be_bytes().to_vec();
    "be" N::Fixed(2) => |b, _k| b.get_i16().to_be_bytes().to_vec();
    "be" N::Fixed(4) => |b, _k| b.get_u32().to_be_bytes().to_vec();
    "be" N::Fixed(4) => |b, _k| b.get_i32().to_be_bytes().to_vec();
    "be" N::Fixed(4) => |b, _k| b.get_f32().to_be_bytes().to_vec();
    "be" N::Fixed(8) => |b, _k| b.get_u64().to_be_bytes().to_vec();
    "be" N::Fixed(8) => |b, _k| b.get_i64().to_be_bytes().to_vec();
    "be" N::Fixed(8) => |b, _k| b.get_f64().to_be_bytes().to_vec();
    "be" N::Fixed(16) => |b, _k| b.get_u128().to_be_bytes().to_vec();
    "be" N::Fixed(16) => |b, _k| b.get_i128().to_be_bytes().to_vec();
    "le" N::Fixed(2) => |b, _k| b.get_u16_le().to_be_bytes().to_vec();
    "le" N::Fixed(2) => |b, _k| b.get_i16_le().to_be_bytes().to_vec();
    "le" N::Fixed(4) => |b, _k| b.get_u32_le().to_be_bytes().to_vec();
    "le" N::Fixed(4) => |b, _k| b.get_i32_le().to_be_bytes().to_vec();
    "le" N::Fixed(4) => |b, _k| b.get_f32_le().to_be_bytes().to_vec();
    "le" N::Fixed(8) => |b, _k| b.get_u64_le().to_be_bytes().to_vec();
    "le" N::Fixed(8) => |b, _k| b.get_i64_le().to_be_bytes().to_vec();
    "le" N::Fixed(8) => |b, _k| b.get_f64_le().to_be_bytes().to_vec();
    "le" N::Fixed(16) => |b, _k| b.get_u128_le().to_be_bytes().to_vec();
    "le" N::Fixed(16) => |b, _k| b.get_i128_le().to_be_bytes().to_vec();
    "slice" N::Fixed(2) => |b, _k| b.get_u16_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(2) => |b, _k| b.get_i16_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(4) => |b, _k| b.get_u32_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(4) => |b, _k| b.get_i32_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(4) => |b, _k| b.get_f32_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(8) => |b, _k| b.get_u64_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(8) => |b, _k| b.get_i64_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(8) => |b, _k| b.get_f64_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(16) => |b, _k| b.get_u128_ne().to_ne_bytes().to_vec();
    "slice" N::Fixed(16) => |b, _k| b.get_i128_ne().to_ne_bytes().to_vec();
    "wide" N::Upto8 => |b, k| b.get_uint(k.0).to_be_bytes().to_vec();
    "widele" N::Upto8 => |b, k| b.get_uint_le(k.0).to_be_bytes().to_vec();
    "signed" N::Upto8 => |b, k| b.get_int(k.0).to_be_bytes().to_vec();
    "signedle" N::Upto8 => |b, k| b.get_int_le(k.0).to_be_bytes().to_vec();
    "slice" N::Any => |b, k| { let mut x = vec![0xA5; k.0]; b.copy_to_slice(&mut x); x };
    "bytes" N::Any => |b, k| b.copy_to_bytes(k.0).to_vec();
    "skip" N::Any => |b, k| { b.advance(k.0); vec![] };
    "left" N::Fixed(0) => |b, _k| (b.remaining() as u64).to_be_bytes().to_vec();
    "any" N::Fixed(0) => |b, _k| vec![u8::from(b.has_remaining())];
    "chunk" N::Fixed(0) => |b, _k| b.chunk().to_vec();
    "try" N::Fixed(1) => |b, _k| b.try_get_u8().map_or(vec![], |x| vec![x]);
    "try" N::Fixed(2) => |b, _k| b.try_get_u16().map_or(vec![], |x| x.to_be_bytes().to_vec());
    "try" N::Fixed(4) => |b, _k| b.try_get_i32().map_or(vec![], |x| x.to_be_bytes().to_vec());
    "try" N::Fixed(8) => |b, _k| b.try_get_f64().map_or(vec![], |x| x.to_be_bytes().to_vec());
    "tryle" N::Fixed(2) => |b, _k| b.try_get_u16_le().map_or(vec![], |x| x.to_be_bytes().to_vec());
    "tryle" N::Fixed(8) => |b, _k| b.try_get_u64_le().map_or(vec![], |x| x.to_be_bytes().to_vec());
    "try" N::Any => |b, k| { let mut x = vec![0; k.0]; if b.try_copy_to_slice(&mut x).is_ok() { x } else { vec![] } };
    "list" N::List => |b, k| match k.1 {
        1 => read_list::<u8, _>(b, k.0),
        2 => read_list::<u16, _>(b, k.0).iter().flat_map(|x| x.to_be_bytes()).collect(),
        4 => read_list::<f32, _>(b, k.0).iter().flat_map(|x| x.to_be_bytes()).collect(),
        _ => read_list::<i64, _>(b, k.0).iter().flat_map(|x| x.to_be_bytes()).collect(),
    };
}
const LISTS: usize = WAYS.len() - 1;

fn play_script<B: Buf>(buf: &mut B, after: impl Fn(&B)) {
    let script = SCRIPT.with(|s| s.borrow().clone());
    for o in script {
        let out = perform(buf, o.how, o.n, o.w);
        LOG.with(|l| l.borrow_mut().push(out));
        after(buf);
    }
}

#[derive(Debug, Default)]
pub struct Scripted;
impl FieldSerialize for Scripted {
    fn serialize_field(&self, _: &mut BytesMut) {}
}
impl FieldDeserialize for Scripted {
    fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
        play_script(buf, |_| {});
        Self
    }
}
impl FieldLen for Scripted {
    fn field_len(&self) -> usize { 0 }
}
define_pdu! {
    #[derive(Debug)]
    pub struct ScriptedPdu {
        header: PduHeader,
        pdu_type: PduType::LiveEntityFire,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub before: u16,
            pub first: Scripted,
            pub after: u8,
        }
    }
}

/// The mirror: what is left and the error.
struct Mirror<'a> { left: &'a [u8], err: Option<(usize, usize)> }
impl Mirror<'_> {
    fn some(&mut self, n: usize) -> Vec<u8> {
        if self.err.is_none() && n > self.left.len() { self.err = Some((n, self.left.len())) }
        if self.err.is_some() { return vec![0; n] }
        let (a, b) = self.left.split_at(n);
        self.left = b;
        a.to_vec()
    }
    fn visible(&self) -> usize { if self.err.is_some() { 0 } else { self.left.len() } }
    fn agrees(&mut self, name: &str, o: &Op, out: &[u8]) -> bool {
        let rev = |mut v: Vec<u8>| { v.reverse(); v };
        let wide = |v: Vec<u8>, sign: bool| { let f = if sign && v.first().is_some_and(|x| *x >= 128) { 255 } else { 0 }; let mut r = vec![f; 8 - v.len()]; r.extend(v); r };
        match name {
            "be" | "slice" | "bytes" => out == self.some(o.n),
            "le" => out == rev(self.some(o.n)),
            "wide" => out == wide(self.some(o.n), false),
            "widele" => out == wide(rev(self.some(o.n)), false),
            "signed" => out == wide(self.some(o.n), true),
            "signedle" => out == wide(rev(self.some(o.n)), true),
            "skip" => { self.some(o.n); true }
            "left" => out == (self.visible() as u64).to_be_bytes(),
            "any" => out == [u8::from(self.visible() > 0)],
            "try" => if self.visible() < o.n { out.is_empty() } else { out == self.some(o.n) },
            "tryle" => if self.visible() < o.n { out.is_empty() } else { out == rev(self.some(o.n)) },
            "chunk" => out.len() <= self.visible() && (self.visible() == 0 || !out.is_empty()) && out == &self.left[..out.len()],
            _ => {
                let vis = self.visible();
                let mut got = vec![];
                for _ in 0..o.n { if self.err.is_some() { break } got.extend(self.some(o.w)) }
                if self.err.is_none() { return out == got }
                out.len() <= o.n * o.w && out.len() <= (vis + 2) * o.w && out.iter().enumerate().all(|(i, x)| *x == if i + o.w < got.len() { got[i] } else { 0 })
            }
        }
    }
}

pub fn scripts(s: &mut Session, idx: u64) {
    // octets, and reading them so that the end comes somewhere in the middle
    let direct = idx % 3 == 0;
    let len = if s.g.r.chance(1, 40) { 200 + s.g.r.below(3000) } else { s.g.r.below(60) };
    let quiet = s.g.r.chance(1, 6);
    let bs: Vec<u8> = (0..len).map(|i| if quiet { (i + 1) as u8 } else { s.g.r.octet() }).collect();
    let many = s.g.r.chance(1, 10);
    let k = 1 + s.g.r.below(if many { 40 } else { 12 });
    let mut rest = len as i64 - 2;
    let script: Vec<Op> = (0..k).map(|_| {
        let how = match s.g.r.below(6) { 0 => LISTS, 1 => LISTS - 1 - s.g.r.below(LISTS.min(18)), _ => s.g.r.below(WAYS.len()) };
        let r = &mut s.g.r;
        let (n, w) = match WAYS[how].1 {
            N::Fixed(n) => (n, 0),
            N::Upto8 => (1 + r.below(8), 0),
            N::Any => (match r.below(6) { 0 => 0, 1 => rest.max(0) as usize, 2 => (rest + 1).max(0) as usize, 3 => r.below(rest.max(0) as usize + 3), _ => r.below(9) }, 0),
            N::List => {
                let w = *r.pick(&[1usize, 2, 4, 8]);
                let fit = rest.max(0) as usize / w;
                (match r.below(6) { 0 => 0, 1 => fit, 2 => fit + 1, 3 => 100_000, _ => r.below(fit + 2) }, w)
            }
        };
        if !["left", "any", "chunk"].contains(&WAYS[how].0) { rest -= (n * w.max(1)) as i64 }
        Op { how, n, w }
    }).collect();
    let src = match s.g.r.below(8) {
        0 => Source::Slice, 1 => Source::Bytes, 2 => Source::Mut, 3 => Source::Cursor, 4 => Source::Take, 5 => Source::Chain(s.g.r.below(len + 13)),
        6 => Source::Pieces((1..len + 12).collect()),
        _ => { let mut c: Vec<usize> = (0..1 + s.g.r.below(6)).map(|_| s.g.r.below(len + 13)).collect(); c.sort_unstable(); Source::Pieces(c) }
    };
    let header = !direct && s.g.r.chance(1, 2);
    SCRIPT.with(|x| *x.borrow_mut() = script.clone());
    LOG.with(|x| x.borrow_mut().clear());
    let mut result: (&'static str, u64, u64) = ("panic", 0, 0);
    let mut ends = (0u16, 0u8);
    let mut checks: Vec<Option<(usize, usize)>> = vec![];
    let mut msg = vec![];
    if header {
        msg = vec![7, 1, PduType::LiveEntityFire as u8, 10, 0, 0, 0, 0, 0, 0, 0, 0];
    }
    msg.extend(&bs);
    let why = |r: Result<(), DISError>| match r { Ok(()) => ("ok", 0, 0), Err(DISError::BufferUnderflow { attempted, available }) => ("short", attempted as u64, available as u64), Err(e) => (kind(&e), 0, 0) };
    let (done, _) = guarded(|| src.with(&msg, |mut b| {
        if direct {
            let mut c = CheckedBuf::new(&mut b);
            let seen = RefCell::new(&mut checks);
            play_script(&mut c, |c| seen.borrow_mut().push(match c.check() { Err(DISError::BufferUnderflow { attempted, available }) => Some((attempted, available)), Ok(()) => None, Err(_) => Some((0, 0)) }));
            result = why(c.check());
        } else {
            let r = if header { ScriptedPdu::deserialize(&mut b) } else {
                let mut h = PduHeader::default();
                h.pdu_type = PduType::LiveEntityFire;
                h.length = 12 + bs.len() as u16;
                ScriptedPdu::deserialize_without_header(&mut b, h)
            };
            if let Ok(p) = &r { ends = (p.before, p.after) }
            result = why(r.map(|_| ()));
        }
    }));
    let left = done.map_or(0, |d| d.1);
    let log = LOG.with(|l| l.borrow().clone());
    // what the specification's names say was done, whatever ScriptedPdu reads itself included
    let mut ops: Vec<J> = vec![];
    let mut m = Mirror { left: &bs, err: None };
    let mut good = true;
    // the fields around the script, where one gets to see them
    let e = [(ends.0 >> 8) as u8, ends.0 as u8, ends.1];
    let end = |at: usize, n: usize| if result.0 == "ok" { json!({"op": "be", "n": n, "w": 0, "out": e[at..at + n]}) } else { json!({"op": "skip", "n": n, "w": 0, "out": []}) };
    if !direct {
        m.some(2);
        ops.push(end(0, 2));
    }
    for (i, out) in log.iter().enumerate() {
        let (o, name) = (script[i], WAYS[script[i].how].0);
        good &= m.agrees(name, &o, out);
        let out = if name == "left" { json!([u64::from_be_bytes(out[..].try_into().unwrap())]) } else { json!(out) };
        ops.push(json!({"op": name, "n": o.n, "w": o.w, "out": out}));
        if direct {
            let c = checks.get(i).copied().flatten();
            good &= c == m.err;
            ops.push(json!({"op": "check", "n": 0, "w": 0, "out": c.map_or(json!([]), |c| json!([c.0, c.1]))}));
        }
    }
    if !direct {
        m.some(1);
        ops.push(end(2, 1));
    }
    good &= log.len() == script.len();
    match m.err {
        Some((a, b)) => good &= result == ("short", a as u64, b as u64),
        None => {
            good &= result.0 == "ok" && left == m.left.len();
            if !direct { good &= ends == (u16::from_be_bytes([bs[0], bs[1]]), bs[bs.len() - 1 - left.min(bs.len() - 1)]) }
        }
    }
    if !good { s.tag(format!("script {}", result.0)) }
    s.ev(|_| json!({"op": "script", "direct": direct, "header": header, "src": src.name(), "bs": bs, "ops": ops, "all": log.len() == script.len(),
                    "r": [result.0, result.1, result.2], "left": left}));
}
