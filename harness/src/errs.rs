//! What refusals say (C25).
use crate::gen_::*;
use crate::run::*;
use crate::sess::*;
use crate::spec::*;
use crate::val::*;
use bytes::BytesMut;
use open_dis_rust::common::DISError;
use serde_json::{json, Value as J};
use std::error::Error;

/// Kind, the numbers, and whether the text shows them.
type Why = (&'static str, u64, u64, bool);
fn why(e: &DISError) -> Why {
    let text = e.to_string();
    let has = |n: &usize| text.split(|c: char| !c.is_ascii_digit()).any(|x| x == n.to_string());
    match e {
        DISError::BufferUnderflow { attempted, available } => ("short", *attempted as u64, *available as u64, has(attempted) && has(available)),
        DISError::PduSizeExceeded { size, max_size } => ("size", *size as u64, *max_size as u64, has(size) && has(max_size)),
        e => (kind(e), 0, 0, !text.is_empty()),
    }
}
fn why_of<T>(r: &Option<Result<T, DISError>>) -> Why {
    match r { None => ("panic", 0, 0, false), Some(Ok(_)) => ("ok", 0, 0, true), Some(Err(e)) => why(e) }
}
fn row(w: &Why) -> J { json!([w.0, w.1.min(1 << 30), w.2.min(1 << 30), w.3]) }

pub fn refusals(s: &mut Session, idx: u64) {
    match idx % 4 {
        0 => too_large(s, idx / 4),
        1 => too_short(s, idx / 4),
        2 => other_type(s, idx / 4),
        _ => made(s),
    }
}

fn too_large(s: &mut Session, idx: u64) {
    let (p, i, vs, elem, n, data, et) = oversize(s, idx);
    let spec = &s.w.spec;
    let mut eo = vec![];
    if data { eo.push(0) } else { spec.enc_type(&et, &elem, &mut eo) }
    let size = p.head.size + spec.enc_body(p, &Val::T(vs.clone())).len() + n * eo.len();
    let mut full = vs.clone();
    full[i] = grown(p, i, &elem, n);
    let e = s.w.entry(&p.name);
    let pre: Vec<u8> = (0..s.g.r.below(20)).map(|_| s.g.r.octet()).collect();
    let (w, _) = guarded(|| {
        let mut o = (e.new)();
        o.set_body(&Val::T(full.clone()));
        let a = guarded(|| o.calc()).0;
        let mut b = BytesMut::from(&pre[..]);
        let c = guarded(|| o.ser(&mut b)).0;
        o.fin();
        let d = guarded(|| o.ser(&mut b)).0;
        [why_of(&a), why_of(&c), why_of(&d)]
    });
    let Some(w) = w else { s.tag("bound"); s.ev(|_| json!({"op": "bound", "t": "", "want": [], "got": []})); return };
    let good = if size <= 8192 { w.iter().all(|w| w.0 == "ok") } else { w.iter().all(|w| *w == ("size", size as u64, 8192, true)) };
    if !good { s.tag(format!("toolarge {}", size > 8192)) }
    s.ev(|_| json!({"op": "toolarge", "t": p.name, "i": i + 1, "v": Val::T(vs).json(), "data": data, "et": et, "elem": elem.json(), "n": n, "ws": w.iter().map(row).collect::<Vec<_>>()}));
}

fn decode_why(s: &Session, p: &PduSpec, bs: &[u8], src: &Source, h: Option<&Val>) -> Why {
    let e = s.w.entry(&p.name);
    let mut w = ("panic", 0, 0, false);
    guarded(|| src.with(bs, |mut b| {
        let r = match h { None => (e.dec)(&mut b), Some(h) => (e.decwo)(&mut b, h) };
        w = match &r { Ok(_) => ("ok", 0, 0, true), Err(e) => why(e) };
    }));
    w
}

/// A message of this type, its octets and its header.
fn message(s: &mut Session, p: &PduSpec) -> (Val, Vec<u8>) {
    let h = header_for(s, p);
    s.g.randomize();
    s.g.budget = if s.g.r.chance(1, 20) { 2500 } else { 200 };
    let v = Val::T(s.g.fields(&p.fields));
    let bs = s.w.spec.enc_pdu(p, &h, &v);
    (h, bs)
}

fn too_short(s: &mut Session, idx: u64) {
    let l = &s.w.spec.pdus;
    let p = &l[(idx % l.len() as u64) as usize];
    let (h, bs) = message(s, p);
    let src = if s.g.r.chance(3, 4) { Source::Slice } else { s.g.r.pick(&[Source::Take, Source::Cursor, Source::Chain(12), Source::Pieces(vec![12, 13, 40])]).clone() };
    let without = s.g.r.chance(1, 3);
    let from = if without { 12 } else { 0 };
    let step = if bs.len() > 400 { 37 } else { 1 };
    let mut rs = vec![];
    for k in (from..bs.len()).step_by(step) {
        let w = decode_why(s, p, &bs[from..k], &src, if without { Some(&h) } else { None });
        if w.0 != "short" || w.1 <= w.2 || w.2 > (k - from) as u64 || !w.3 { s.tag(format!("tooshort {}", w.0)) }
        rs.push(json!([k - from, row(&w)]));
    }
    s.ev(|_| json!({"op": "tooshort", "t": p.name, "bs": bs, "src": src.name(), "without": without, "rs": rs}));
}

fn other_type(s: &mut Session, idx: u64) {
    let l = &s.w.spec.pdus;
    let p = &l[(idx % l.len() as u64) as usize];
    let (h, mut bs) = message(s, p);
    // whatever comes behind the header
    match s.g.r.below(5) { 0 => bs.truncate(12), 1 => { let k = 12 + s.g.r.below(bs.len() - 11); bs.truncate(k) } 2 => for b in bs.iter_mut().skip(12) { *b = 0xff }, _ => {} }
    for i in [8, 9] { if s.g.r.chance(1, 2) { bs[i] = s.g.r.octet() } }
    let mut rs = vec![];
    for c in 0..=255u8 {
        if c == p.ty { continue }
        bs[2] = c;
        let w = decode_why(s, p, &bs, &Source::Slice, None);
        if w.0 != "type" || !w.3 { s.tag(format!("othertype {}", w.0)) }
        rs.push(row(&w));
    }
    let codes = s.w.spec.enums["PduType"].codes.clone();
    for c in codes {
        if c == u64::from(p.ty) { continue }
        let mut hv = h.tup().to_vec();
        hv[p.head.ty] = Val::O(vec![c as u8]);
        let w = decode_why(s, p, &bs[12..], &Source::Slice, Some(&Val::T(hv)));
        if w.0 != "type" || !w.3 { s.tag(format!("othertype {}", w.0)) }
        rs.push(row(&w));
    }
    s.ev(|_| json!({"op": "othertype", "t": p.name, "rs": rs}));
}

/// Errors made by a program.
fn made(s: &mut Session) {
    let text = |s: &mut Session| { s.g.randomize(); if s.g.style == Style::Zero { s.g.style = Style::Random } String::from_utf8(s.g.text(20)).unwrap() };
    let which = s.g.r.below(6);
    let inner = if s.g.r.chance(1, 2) { Some(text(s)) } else { None };
    let source = || inner.clone().map(|x| Box::new(std::io::Error::other(x)) as Box<dyn Error + Send + Sync>);
    let num = |s: &mut Session| match s.g.r.below(3) { 0 => s.g.r.below(20000), 1 => s.g.literal() as usize % (1 << 30), _ => (s.g.r.next() >> 35) as usize };
    // arguments, what the error holds, and what it shows
    let (a, b, c, x, y) = (text(s), text(s), text(s), num(s), num(s));
    let e = match which {
        0 => DISError::invalid_header(a.clone(), source()),
        1 => DISError::deserialization_error(a.clone(), source()),
        2 => DISError::serialization_error(a.clone(), source()),
        3 => DISError::invalid_field(a.clone(), b.clone(), c.clone()),
        4 => DISError::buffer_underflow(x, y),
        _ => DISError::pdu_size_exceeded(x, y),
    };
    let o = |x: &str| json!(x.as_bytes());
    let of = |x: usize| json!(octets(x as u64, 8));
    let (name, args) = match which {
        0 => ("InvalidHeader", json!([o(&a)])), 1 => ("DeserializationError", json!([o(&a)])), 2 => ("SerializationError", json!([o(&a)])),
        3 => ("InvalidFieldValue", json!([o(&a), o(&b), o(&c)])), 4 => ("BufferUnderflow", json!([of(x), of(y)])), _ => ("PduSizeExceeded", json!([of(x), of(y)])),
    };
    let (got, holds) = match &e {
        DISError::InvalidHeader { reason, .. } => ("InvalidHeader", json!([o(reason)])),
        DISError::DeserializationError { msg, .. } => ("DeserializationError", json!([o(msg)])),
        DISError::SerializationError { msg, .. } => ("SerializationError", json!([o(msg)])),
        DISError::InvalidFieldValue { field, value, reason } => ("InvalidFieldValue", json!([o(field), o(value), o(reason)])),
        DISError::BufferUnderflow { attempted, available } => ("BufferUnderflow", json!([of(*attempted), of(*available)])),
        DISError::PduSizeExceeded { size, max_size } => ("PduSizeExceeded", json!([of(*size), of(*max_size)])),
        _ => ("other", json!([])),
    };
    let shown = e.to_string();
    let parts: Vec<String> = match which { 0..=2 => vec![a], 3 => vec![a, b, c], _ => vec![x.to_string(), y.to_string()] };
    let shows = parts.iter().all(|p| shown.contains(p.as_str()));
    let src = Error::source(&e).map(|x| x.to_string());
    let want_src = if which <= 2 { inner.clone() } else { None };
    if got != name || holds != args || !shows || src != want_src { s.tag("err") }
    let opt = |x: Option<String>| x.map_or(json!([]), |x| json!([x.as_bytes()]));
    s.ev(|_| json!({"op": "err", "name": name, "args": args, "given": opt(want_src), "got": got, "holds": holds, "shows": shows, "source": opt(src)}));
}
