//! The sessions each property is examined with.
use crate::gen_::*;
use crate::run::*;
use crate::spec::*;
use crate::val::*;
use bytes::{Buf, BytesMut};
use crate::rt::Lone;
use open_dis_rust::common::{GenericHeader, LiveEntityPduHeader, PduHeader};
use serde_json::{json, Value as J};

pub fn play(prop: &str, s: &mut Session, idx: u64) {
    match prop {
        "C01" => lengths(s, idx),
        "C02" => ceiling(s, idx),
        "C03" => layout(s, idx),
        "C04" => identity(s, idx),
        "C05" => round_trip(s, idx, false),
        "C06" => round_trip(s, idx, true),
        "C07" => record(s, idx, None),
        "C08" => gate(s, idx),
        "C09" => peek(s, idx),
        "C10" => cuts(s, idx),
        "C11" => hostile(s, idx),
        "C12" => enums(s, idx),
        "C13" => crate::extra::status(s, idx),
        "C14" => stream(s, idx),
        "C15" => relay(s, idx),
        "C16" => crate::extra::clock(s, idx),
        "C17" => transmitter(s, idx),
        "C18" => crate::extra::vectors(s, idx),
        "C19" => sized(s, idx),
        "C20" => chunks(s, idx),
        "C21" => marking(s, idx),
        "C22" => both_ways(s, idx),
        "C23" => reading(s, idx),
        "C24" => crate::make::make(s, idx),
        "C25" => crate::errs::refusals(s, idx),
        "C26" => user_defined(s, idx),
        "C28" => { s.own = true; user_defined(s, idx) }
        #[cfg(feature = "user")]
        "C27" => crate::scripted::scripts(s, idx),
        _ => panic!("no such property: {prop}"),
    }
}

/// Types with fields the library does not decode (known findings).
pub fn has_ulist(p: &PduSpec) -> bool { p.fields.iter().any(|f| matches!(f.k, K::Ulist(_))) }

/// The PDU types a session is about.
fn pdus<'a>(s: &Session<'a>) -> &'a [PduSpec] { if s.own { &s.w.spec.own } else if s.users { &s.w.spec.users } else { &s.w.spec.pdus } }
fn pdu_at<'a>(s: &Session<'a>, idx: u64) -> &'a PduSpec { let l = pdus(s); &l[(idx % l.len() as u64) as usize] }
fn any_pdu<'a>(s: &mut Session<'a>) -> &'a PduSpec { let l = pdus(s); let i = s.g.r.below(l.len()); &l[i] }

/// PDUs defined with define_pdu! outside the library: everything the library's own have to do.
fn user_defined(s: &mut Session, idx: u64) {
    s.users = true;
    let (what, idx) = (idx % 13, idx / 13);
    match what {
        0 => lengths(s, idx),
        1 => identity(s, idx),
        2 | 3 => layout(s, idx),
        4 | 5 => round_trip(s, idx, false),
        6 => round_trip(s, idx, true),
        7 => cuts(s, idx),
        8 | 9 => reading(s, idx),
        10 => both_ways(s, idx),
        11 => if idx % 4 == 0 { gate(s, idx / 4) } else { chunks(s, idx) },
        _ => if idx % 3 == 0 { ceiling(s, idx / 3) } else { layout(s, idx) },
    }
}

/// A body value; `wild` lets count fields disagree with the lists.
pub fn body(s: &mut Session, p: &PduSpec, wild: bool) -> Val {
    s.g.randomize();
    s.g.consistent = !wild;
    s.g.no_ulist = !wild;
    let v = Val::T(s.g.fields(&p.fields));
    s.g.consistent = true;
    s.g.no_ulist = true;
    v
}
pub fn small_body(s: &mut Session, p: &PduSpec) -> Val {
    s.g.randomize();
    if s.g.lists == Lists::Large { s.g.lists = Lists::Small }
    s.g.budget = 300;
    Val::T(s.g.fields(&p.fields))
}
fn header(s: &mut Session, p: &PduSpec) -> Val { s.g.randomize(); s.g.header(p) }
/// A header that carries the type of p.
pub fn header_for(s: &mut Session, p: &PduSpec) -> Val {
    let h = header(s, p);
    let mut h = h.tup().to_vec();
    h[p.head.ty] = Val::O(vec![p.ty]);
    Val::T(h)
}

pub fn edit_field(s: &mut Session) {
    let p = s.p.unwrap();
    let fs: Vec<Field> = p.fields.iter().filter(|f| f.has_value()).cloned().collect();
    if fs.is_empty() { return }
    s.g.randomize();
    // lists and optional parts more often than others
    let var: Vec<usize> = (0..fs.len()).filter(|i| matches!(fs[*i].k, K::List(_) | K::Data(_) | K::Opt(_) | K::Sized(_) | K::Ulist(_))).collect();
    let i = if !var.is_empty() && s.g.r.chance(2, 3) { *s.g.r.pick(&var) } else { s.g.r.below(fs.len()) };
    s.g.no_ulist = false;
    s.g.consistent = false;
    // a fresh value of the field: take it from a fresh body
    let v = s.g.fields(&p.fields)[i].clone();
    s.g.no_ulist = true;
    s.g.consistent = true;
    s.set_field(i, v);
}
pub fn edit_header(s: &mut Session) {
    s.g.randomize();
    if s.g.style == Style::OneHot { s.g.style = Style::Random }
    let p = s.p.unwrap();
    let h = s.g.header(p);
    if s.g.r.chance(1, 6) { s.set_header(h) } else {
        let i = s.g.r.below(h.tup().len());
        let via = s.g.r.below(2);
        s.set_header_field(i, h.tup()[i].clone(), via);
    }
}
/// Replace the object by what its last encoding decodes to.
pub fn take_decoded(s: &mut Session) {
    let p = s.p.unwrap();
    let bs = s.last.clone();
    let d = s.decode(p, &bs, &Source::Slice);
    if let Some(o) = d.obj {
        s.h = o.hdr();
        s.v = o.body();
        let any = o.any();
        s.obj = Some(o);
        if s.fresh && !any { s.tag("any") }
        s.ev(|s| json!({"op": "obj", "t": p.name, "how": "decoded", "r": "ok", "h": s.h.json(), "v": s.v.json(), "any": any}));
    }
}

/// A way through the machine of Lifecycle.tla.
pub fn tour(s: &mut Session, idx: u64, tours: &[Vec<(String, usize)>], prop: &str) {
    let p = pdu_at(s, idx);
    let n = s.w.spec.pdus.len() as u64;
    let t = &tours[(idx / n % tours.len() as u64) as usize];
    s.start(p);
    if s.obj.is_none() { return }
    let mut buf = BytesMut::new();
    s.last = vec![];
    // the bodies of this session: nothing, a little, more, counts that lie, too much
    let mut bodies = vec![];
    for i in 1..=5 {
        s.g.randomize();
        s.g.no_ulist = true;
        s.g.consistent = i != 4;
        s.g.budget = 300;
        match i {
            1 => { s.g.style = Style::Zero; s.g.lists = Lists::None }
            3 => s.g.lists = Lists::Small,
            _ => { if s.g.lists != Lists::Large { s.g.lists = Lists::Small } }
        }
        bodies.push(Val::T(s.g.fields(&p.fields)));
    }
    s.g.consistent = true;
    let choices = [(0usize, vec![6u8]), (0, vec![0]), (1, vec![9]), (2, vec![0]), (2, vec![p.ty % 70 + 1]), (3, vec![0]), (3, vec![5]), (4, vec![1, 2, 3, 4]),
        (5, vec![0, 0]), (5, vec![0, 12]), (5, vec![255, 255]), (6, vec![170])];
    for (act, k) in t {
        match act.as_str() {
            "body" if *k == 5 => s.set_big(bodies[4].clone()),
            "body" => s.set_body(bodies[*k - 1].clone()),
            "hset" => { let (i, v) = &choices[*k - 1]; let via = s.g.r.below(2); s.set_header_field(*i, Val::O(v.clone()), via) }
            "calc" => s.calc(),
            "fin" => s.fin(),
            "ser" => { s.ser(&mut buf, prop == "C15", false); if buf.len() > 20000 { buf.clear() } }
            "clear" => buf.clear(),
            "take" => if !s.last.is_empty() { take_decoded(s) },
            x => panic!("no such step: {x}"),
        }
    }
    s.calc();
    s.ser(&mut buf, prop == "C15", false);
}

fn lengths(s: &mut Session, idx: u64) {
    let p = pdu_at(s, idx);
    s.start(p);
    if s.obj.is_none() { return }
    let mut buf = BytesMut::new();
    let rounds = 1 + s.g.r.below(3);
    for _ in 0..rounds {
        if s.g.r.chance(2, 3) { let wild = s.g.r.chance(1, 2); let v = body(s, p, wild); s.set_body(v); }
        for _ in 0..s.g.r.below(4) {
            match s.g.r.below(4) {
                0 => edit_field(s),
                1 => edit_header(s),
                2 => s.fin(),
                _ => s.calc(),
            }
        }
        s.calc();
        if s.g.r.chance(1, 2) { buf.clear() }
        s.ser(&mut buf, false, false);
        if s.g.r.chance(1, 3) && !has_ulist(p) { take_decoded(s) }
    }
}

/// A PDU with something repeated until its size is around the ceiling: the type, the field, the
/// values with that field empty, the element, how many, whether octets, and the element's type.
#[allow(clippy::type_complexity)]
/// The list, block or optional part: n times the same element.
pub fn grown(p: &PduSpec, i: usize, elem: &Val, n: usize) -> Val {
    match p.fields.iter().filter(|f| f.has_value()).nth(i).unwrap().k {
        K::Opt(_) if n == 0 => Val::T(vec![]),
        K::Opt(_) => Val::T(vec![Val::O(vec![elem.octs()[0]; n])]),
        K::Data(_) | K::Sized(_) => Val::O(vec![elem.octs()[0]; n]),
        _ => Val::T(vec![elem.clone(); n]),
    }
}
pub fn oversize<'a>(s: &mut Session<'a>, idx: u64) -> (&'a PduSpec, usize, Vec<Val>, Val, usize, bool, String) {
    let spec = &s.w.spec;
    let vars: Vec<(&PduSpec, usize)> = pdus(s).iter().flat_map(|p| {
        let fs: Vec<&Field> = p.fields.iter().filter(|f| f.has_value()).collect();
        fs.iter().enumerate().filter(|(_, f)| match &f.k {
            K::List(_) | K::Data(_) => true,
            K::Ulist(e) => e == "one",
            K::Opt(l) | K::Sized(l) => spec.width(&fs[*l].t).unwrap() > 1,
            _ => false,
        }).map(|(i, _)| (p, i)).collect::<Vec<_>>()
    }).collect();
    let (p, i) = vars[(idx % vars.len() as u64) as usize];
    let f: Field = p.fields.iter().filter(|f| f.has_value()).nth(i).unwrap().clone();
    s.name = format!("{} {}", s.name, f.n);
    // the rest of the PDU: small
    s.g.randomize();
    if s.g.lists == Lists::Large { s.g.lists = Lists::Small }
    s.g.budget = 400;
    let mut vs = s.g.fields(&p.fields);
    s.g.lists = Lists::Small;
    s.g.budget = *s.g.r.pick(&[200usize, 200, 200, 2500]);
    let data = matches!(f.k, K::Data(_) | K::Opt(_) | K::Sized(_));
    let elem = if data { Val::O(vec![s.g.r.octet()]) } else { s.g.value(&f.t) };
    vs[i] = grown(p, i, &elem, 0);
    let base = p.head.size + spec.enc_body(p, &Val::T(vs.clone())).len();
    let mut eo = vec![];
    if data { eo.push(0) } else { spec.enc_type(&f.t, &elem, &mut eo) }
    let unit = eo.len();
    // sizes of interest, rounded to what can be had
    let around = *s.g.r.pick(&[8192usize, 8192, 8192, 8180, 16384, 32768, 65535, 65536, 65548, 65536 + 8192, 131072]);
    let want = (around as i64 + *s.g.r.pick(&[-2i64, -1, 0, 1, 2, -(unit as i64), unit as i64, 12, -12])).max(base as i64) as usize;
    let mut n = (want - base) / unit + s.g.r.below(2);
    // (more than that the length fields of the optional parts cannot tell)
    if matches!(f.k, K::Opt(_)) { n = n.min(65535) }
    (p, i, vs, elem, n, data, f.t)
}

fn ceiling(s: &mut Session, idx: u64) {
    let (p, i, vs, elem, n, data, et) = oversize(s, idx);
    let spec = &s.w.spec;
    let mut eo = vec![];
    if data { eo.push(0) } else { spec.enc_type(&et, &elem, &mut eo) }
    let size = p.head.size + spec.enc_body(p, &Val::T(vs.clone())).len() + n * eo.len();
    let pre: Vec<u8> = (0..s.g.r.below(40)).map(|_| s.g.r.octet()).collect();
    let e = s.w.entry(&p.name);
    let mut full = vs.clone();
    full[i] = grown(p, i, &elem, n);
    let mut o = (e.new)();
    o.set_body(&Val::T(full));
    let (c, _) = guarded(|| o.calc());
    let (cr, cn) = match &c { None => ("panic", 0), Some(Ok(n)) => ("ok", *n), Some(Err(e)) => (kind(e), 0) };
    let mut buf = BytesMut::from(&pre[..]);
    let (r, _) = guarded(|| o.ser(&mut buf));
    let sr = match &r { None => "panic", Some(Ok(())) => "ok", Some(Err(e)) => kind(e) };
    let kept = buf.len() >= pre.len() && buf[..pre.len()] == pre[..];
    let grew = buf.len() as i64 - pre.len() as i64;
    // the same again, and after finalize
    let (r2, _) = guarded(|| { o.fin(); let mut b2 = BytesMut::new(); let r = o.ser(&mut b2); (r, b2.len()) });
    let (sr2, grew2) = match &r2 { None => ("panic", 0), Some((Ok(()), n)) => ("ok", *n), Some((Err(e), n)) => (kind(e), *n) };
    let valid = open_dis_rust::common::constants::validate_pdu_size(size);
    let total = open_dis_rust::common::constants::total_pdu_size(size - 12);
    let good = if size <= 8192 { cr == "ok" && sr == "ok" && grew as usize == size && valid && sr2 == "ok" } else { cr == "size" && sr == "size" && grew == 0 && kept && !valid && sr2 == "size" && grew2 == 0 };
    if !good || total != size { s.tag(format!("big {} {cr} {sr}", size > 8192)) }
    s.ev(|_| json!({"op": "big", "t": p.name, "i": i + 1, "v": Val::T(vs).json(), "data": data, "et": et, "elem": elem.json(), "n": n, "total": total,
                    "cr": cr, "cn": cn, "sr": sr, "kept": kept, "grew": grew, "sr2": sr2, "grew2": grew2, "valid": valid}));
}

fn layout(s: &mut Session, idx: u64) {
    let p = pdu_at(s, idx);
    s.start(p);
    if s.obj.is_none() { return }
    let h = header(s, p);
    if s.g.r.chance(9, 10) { let wild = s.g.r.chance(1, 2); let v = body(s, p, wild); let v = entwined(s, p, &h, v); s.set_body(v); }
    if s.g.r.chance(4, 5) { s.set_header(h); }
    let mut buf = BytesMut::new();
    s.ser(&mut buf, false, false);
    if s.g.r.chance(1, 5) { edit_field(s); s.ser(&mut buf, false, false); }
}

/// A header by itself, of either kind: assigned field by field, directly or
/// with its setters, asked, and written.
fn lone_header(s: &mut Session, idx: u64) {
    let live = idx / 2 % 2 == 0;
    let t = if live { "LiveEntityPduHeader" } else { "PduHeader" };
    s.name = format!("{} {t}", s.name);
    s.g.randomize();
    let some = |s: &mut Session| if live { s.g.value(t) } else { s.g.usual_header() };
    let v = some(s);
    let made = guarded(|| -> Box<dyn Lone> { if live { Box::new(LiveEntityPduHeader::fv(&v)) } else { Box::new(PduHeader::fv(&v)) } }).0;
    let Some(mut o) = made else {
        s.tag("bound");
        s.ev(|_| json!({"op": "bound", "t": t, "want": [], "got": []}));
        return;
    };
    let asked = |h: &Val| Val::T([2, 3, 5].iter().map(|i| h.tup()[*i].clone()).collect());
    let (mut h, acc) = (o.hdr(), o.acc());
    if !h.same(&v) || !acc.same(&asked(&h)) { s.tag("hnew") }
    s.ev(|_| json!({"op": "hnew", "t": t, "r": "ok", "h": h.json(), "acc": acc.json()}));
    let mut buf = BytesMut::new();
    for _ in 0..4 + s.g.r.below(12) {
        let i = if s.g.r.chance(1, 2) { *s.g.r.pick(&[2, 3, 5]) } else { s.g.r.below(7) };
        let (v, via) = (some(s).tup()[i].clone(), s.g.r.below(2));
        let from = buf.len();
        let r = guarded(|| { o.put(i, &v, via); o.write(&mut buf) }).0;
        let mut hs = h.tup().to_vec();
        hs[i] = v.clone();
        h = Val::T(hs);
        let (seen, acc, out) = (o.hdr(), o.acc(), buf.get(from..).unwrap_or(&[]).to_vec());
        let mut want = vec![];
        if live { s.w.spec.enc_type(t, &h, &mut want) } else { want = s.w.spec.enc_usual_header(&h) }
        if r.is_none() || !seen.same(&h) || !acc.same(&asked(&h)) || out != want { s.tag(format!("hstep {i}")) }
        s.ev(|_| json!({"op": "hstep", "i": i + 1, "v": v.json(), "r": if r.is_some() { "ok" } else { "panic" }, "h": seen.json(), "acc": acc.json(), "out": out}));
    }
}

fn identity(s: &mut Session, idx: u64) {
    if idx % 41 == 40 { return lone_header(s, idx) }
    let p = pdu_at(s, idx);
    s.start(p);
    if s.obj.is_none() { return }
    if s.g.r.chance(1, 2) { let v = small_body(s, p); s.set_body(v); }
    let mut buf = BytesMut::new();
    let n = 2 + s.g.r.below(8);
    for _ in 0..n {
        match s.g.r.below(12) {
            0..=4 => edit_header(s),
            5 => s.calc(),
            6 => s.fin(),
            7 | 8 => { s.ser(&mut buf, false, false); }
            9 => { s.ser(&mut buf, false, false); s.ser(&mut buf, false, false); }
            10 => edit_field(s),
            _ => { s.ser(&mut buf, false, false); if !has_ulist(p) { take_decoded(s) } }
        }
    }
    if s.g.r.chance(1, 2) { edit_header(s) }
    s.ser(&mut buf, false, false);
    s.ser(&mut buf, false, false);
}

fn check_dec(s: &mut Session, p: &PduSpec, h: &Val, v: &Val, rem: usize, d: &Dec) {
    if d.r != "ok" { s.tag(format!("dec.r {}", d.r)); return }
    let o = d.obj.as_ref().unwrap();
    if !o.hdr().same(h) { s.tag("dec.h") }
    if !o.body().same(v) { s.tag(format!("dec.v {}", diff_field(p, &o.body(), v))) }
    if d.rem != rem { s.tag("dec.rem") }
}
fn diff_field(p: &PduSpec, a: &Val, b: &Val) -> String {
    p.fields.iter().filter(|f| f.has_value()).zip(a.tup().iter().zip(b.tup())).find(|(_, (x, y))| !x.same(y)).map_or(String::new(), |(f, _)| f.n.clone())
}
/// Decode the last encoding.
pub fn dec_last(s: &mut Session, src: &Source, tail: &[u8]) -> Dec {
    let p = s.p.unwrap();
    let mut bs = s.last.clone();
    bs.extend_from_slice(tail);
    let d = s.decode_any(p, &bs, src);
    let want_h = Val::T(s.w.spec.canon_fields(&p.head.fields, s.h.tup()));
    let want_v = s.w.spec.canon_body(p, &s.v);
    check_dec(s, p, &want_h, &want_v, tail.len(), &d);
    s.ev(|_| { let mut j = Session::dec_json(p, &[], src, &d); j["tail"] = json!(tail); j["op"] = json!("declast"); j });
    d
}

fn round_trip(s: &mut Session, idx: u64, lists: bool) {
    let spec = &s.w.spec;
    let p = if lists {
        let with: Vec<&PduSpec> = pdus(s).iter().filter(|p| p.fields.iter().any(|f| matches!(f.k, K::List(_) | K::Data(_) | K::Ulist(_)) || deep_list(spec, &f.t))).collect();
        with[(idx % with.len() as u64) as usize]
    } else { pdu_at(s, idx) };
    s.start(p);
    if s.obj.is_none() { return }
    // the known findings: lists that are written and not read
    let probe = lists && has_ulist(p) && s.g.r.chance(1, 4);
    if lists { s.g.randomize(); if s.g.lists == Lists::None { s.g.lists = Lists::Small } if s.g.style == Style::Zero { s.g.style = Style::Counter } s.g.budget = if s.g.r.chance(1, 20) { 7800 } else { 1500 } } else { s.g.randomize() }
    if !lists && s.g.r.chance(1, 2) { s.g.lists = Lists::None }
    s.g.no_ulist = !probe;
    let v = Val::T(s.g.fields(&p.fields));
    s.g.no_ulist = true;
    let h = header(s, p);
    let v = entwined(s, p, &h, v);
    s.set_body(v);
    s.set_header(h);
    let mut buf = BytesMut::new();
    if s.ser(&mut buf, false, false) != "ok" { return }
    let n = s.g.r.below(8);
    let tail: Vec<u8> = if s.g.r.chance(1, 2) { vec![] } else { s.g.data(n) };
    let before = s.tags.len();
    dec_last(s, &Source::Slice, &tail);
    if probe {
        s.name = format!("kf {}", s.name);
        s.tags.truncate(before);
    }
}
fn deep_list(spec: &Spec, t: &str) -> bool {
    spec.records.get(t).is_some_and(|fs| fs.iter().any(|f| matches!(f.k, K::List(_) | K::Data(_)) || deep_list(spec, &f.t)))
}

pub fn record(s: &mut Session, idx: u64, only: Option<&[&str]>) {
    let all: Vec<usize> = (0..s.w.recs.len()).filter(|i| only.is_none_or(|o| o.contains(&s.w.recs[*i].name))).collect();
    let e = &s.w.recs[all[(idx % all.len() as u64) as usize]];
    s.g.randomize();
    s.g.budget = if s.g.r.chance(1, 30) { 70000 } else { 1500 };
    if s.g.budget > 60000 { s.g.lists = Lists::Large }
    let t = e.name;
    if t != "PduHeader" && s.g.r.chance(1, 6) {
        // counts that say something else than the lists hold
        s.g.consistent = false;
        let v = s.g.value(t);
        s.g.consistent = true;
        s.name = format!("{} {t} loose", s.name);
        let (o, _) = guarded(|| (e.only_enc)(&v));
        let Some(o) = o else {
            s.tag("loose.panic");
            s.ev(|_| json!({"op": "loose", "t": t, "v": v.json(), "r": "panic"}));
            return;
        };
        let Some((enc, fenc, flen, clen)) = o else { return };
        if fenc.as_ref().is_some_and(|x| *x != enc) || flen.is_some_and(|n| n != enc.len()) || clen.is_some_and(|n| n != enc.len()) { s.tag("loose") }
        s.ev(|_| json!({"op": "loose", "t": t, "v": v.json(), "r": "ok", "enc": enc, "fenc": fenc.map_or(json!([]), |x| json!([x])),
                        "flen": flen.map_or(json!([]), |x| json!([x])), "clen": clen.map_or(json!([]), |x| json!([x]))}));
        return;
    }
    let v = if t == "PduHeader" { s.g.usual_header() } else { s.g.value(t) };
    let n = s.g.r.below(12);
    let tail: Vec<u8> = if s.g.r.chance(1, 4) { vec![] } else { s.g.data(n) };
    s.name = format!("{} {t}", s.name);
    let (o, _) = guarded(|| (e.run)(&v, &tail));
    let Some(o) = o else {
        s.tag("rec.panic");
        s.ev(|_| json!({"op": "rec", "t": t, "v": v.json(), "tail": tail, "r": "panic"}));
        return;
    };
    let Some(o) = o else {
        s.ev(|_| json!({"op": "bound", "t": "", "want": [], "got": []}));
        return;
    };
    let mut want = vec![];
    if t == "PduHeader" { want = s.w.spec.enc_usual_header(&v) } else { s.w.spec.enc_type(t, &v, &mut want) }
    let canon = s.w.spec.canon(t, &v);
    let rest = matches!(&v, Val::V(n, _) if ["GridAxisDescriptor#1", "GridDataRecord#0", "GridDataRecord#1"].contains(&n.as_str()));
    if o.enc != want { s.tag("rec.enc") }
    if !(rest && !tail.is_empty()) && (!o.dec.0.same(&canon) || o.dec.1 != o.enc.len()) { s.tag("rec.dec") }
    if o.flen.is_some_and(|n| n != o.enc.len()) { s.tag("rec.flen") }
    if o.clen.is_some_and(|n| n != o.enc.len()) { s.tag("rec.const") }
    if o.fenc.as_ref().is_some_and(|x| *x != o.enc) { s.tag("rec.fenc") }
    if !(rest && !tail.is_empty()) && o.fdec.as_ref().is_some_and(|(x, n)| !x.same(&canon) || *n != o.enc.len()) { s.tag("rec.fdec") }
    let opt = |x: Option<J>| match x { None => json!([]), Some(j) => json!([j]) };
    s.ev(|_| json!({"op": "rec", "t": t, "v": v.json(), "tail": tail, "r": "ok", "enc": o.enc, "dv": o.dec.0.json(), "dn": o.dec.1,
                    "fenc": opt(o.fenc.map(|x| json!(x))), "flen": opt(o.flen.map(|x| json!(x))), "clen": opt(o.clen.map(|x| json!(x))),
                    "fdv": opt(o.fdec.as_ref().map(|x| x.0.json())), "fdn": opt(o.fdec.as_ref().map(|x| json!(x.1)))}));
}

fn gate(s: &mut Session, idx: u64) {
    let p = pdu_at(s, idx);
    let spec = &s.w.spec;
    let h = header_for(s, p);
    let v = small_body(s, p);
    let bs = spec.enc_pdu(p, &h, &v);
    // random other header contents, the length field included
    let (size, at) = (p.head.size, p.head.at);
    let mut full = bs.clone();
    if s.g.r.chance(1, 2) { for i in (0..size).filter(|i| *i != at) { if s.g.r.chance(1, 2) { full[i] = s.g.r.octet() } } }
    // sometimes a message with nothing, or anything, behind the header
    if s.g.r.chance(1, 8) { full.truncate(size) }
    let whole = full.len() == bs.len();
    let mut rs = vec![];
    for c in 0..=255u8 {
        full[at] = c;
        let d = s.decode(p, &full, &Source::Slice);
        let ok = if c == p.ty { !whole || d.r == "ok" } else { d.r != "ok" && d.r != "panic" };
        if !ok { s.tag(format!("gate {}", c == p.ty)) }
        rs.push(d.r);
    }
    s.ev(|_| json!({"op": "gate", "t": p.name, "bs": full, "whole": whole, "rs": rs}));
    // with a separate header
    let codes = &spec.enums["PduType"].codes;
    let mut ws = vec![];
    for c in codes {
        let mut hv = header(s, p).tup().to_vec();
        hv[p.head.ty] = Val::O(vec![*c as u8]);
        let d = s.decode_wo(p, &Val::T(hv.clone()), &full[size..]);
        let ok = if *c == u64::from(p.ty) { !whole || d.r == "ok" } else { d.r != "ok" && d.r != "panic" };
        if !ok { s.tag(format!("gatewo {}", *c == u64::from(p.ty))) }
        if let Some(o) = &d.obj { if !o.hdr().same(&Val::T(hv)) { s.tag("gatewo.h") } }
        ws.push(d.r);
    }
    s.ev(|_| json!({"op": "gatewo", "t": p.name, "whole": whole, "codes": codes, "rs": ws}));
}

fn peek(s: &mut Session, idx: u64) {
    // every length around the header, every code at each of them
    let len = match idx % 20 { n @ 0..=15 => n as usize, 16 => 64, 17 => 100 + s.g.r.below(300), 18 => 12,
        _ => match s.g.r.below(6) { 0 => 60_000 + s.g.r.below(12_000), 1 => s.g.literal().min(1 << 21) as usize, 2 => 12 + (1 << s.g.r.below(20)), _ => s.g.r.below(2000) } };
    s.g.randomize();
    // of a long one the first part and the length are written down
    let mut bs = s.g.data(len.min(2000));
    bs.resize(len, 0);
    let whole = s.g.r.chance(1, 3) && len >= 12;
    if whole { let p = any_pdu(s); let h = header_for(s, p); let v = small_body(s, p); bs = s.w.spec.enc_pdu(p, &h, &v); }
    let mut rs = vec![];
    for c in 0..=255u8 {
        if bs.len() > 2 { bs[2] = c }
        let (r, _) = guarded(|| PduHeader::get_pdu_type(&bs));
        let r = match r { None => vec![999], Some(None) => vec![], Some(Some(t)) => vec![t as u32] };
        let full = if bs.len() >= 12 { let mut b = &bs[..]; guarded(|| PduHeader::deserialize(&mut b).pdu_type as u32).0.map_or(vec![999], |x| vec![x]) } else { vec![] };
        let want = if bs.len() < 12 { vec![] } else { vec![u32::from(s.w.spec.norm("PduType", &bs[2..3])[0])] };
        if r != want || r != full { s.tag("peek") }
        rs.push(json!([r, full]));
        if bs.len() <= 2 { break }
    }
    s.ev(|_| json!({"op": "peek", "bs": bs[..bs.len().min(300)], "n": bs.len(), "rs": rs}));
}

fn cuts(s: &mut Session, idx: u64) {
    let p = pdu_at(s, idx);
    s.start(p);
    if s.obj.is_none() { return }
    s.g.randomize();
    s.g.budget = if s.g.r.chance(1, 4) { 600 } else { 150 };
    let v = Val::T(s.g.fields(&p.fields));
    s.set_body(v);
    let mut buf = BytesMut::new();
    if s.ser(&mut buf, false, false) != "ok" { return }
    let bs = s.last.clone();
    let n = p.head.size;
    let all = s.decode(p, &bs, &Source::Slice);
    let want = s.w.spec.enc_pdu(p, &s.h, &s.v);
    // (cutting says nothing about octets that are not a PDU of the library's to begin with)
    let sound = bs == want || (all.r == "ok" && all.rem == 0);
    let src = if s.g.r.chance(3, 4) { Source::Slice } else { s.g.r.pick(&[Source::Take, Source::Cursor, Source::Chain(n), Source::Pieces(vec![n, n + 1, 40])]).clone() };
    let mut rs = vec![];
    for k in 0..bs.len() {
        let d = s.decode(p, &bs[..k], &src);
        if sound && d.r != "short" { s.tag(format!("cut {}", d.r)) }
        rs.push(d.r);
    }
    // and the body alone
    let h = s.h.clone();
    let mut ws = vec![];
    for k in n..bs.len() {
        let d = s.decode_wo(p, &h, &bs[n..k]);
        if sound && d.r != "short" { s.tag(format!("cutwo {}", d.r)) }
        ws.push(d.r);
    }
    s.ev(|_| json!({"op": "cuts", "t": p.name, "bs": bs, "src": src.name(), "all": all.r, "rem": all.rem, "rs": rs, "ws": ws}));
}

/// Octet positions of the integer fields that say how much follows, and their widths.
fn count_fields(spec: &Spec, p: &PduSpec) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut off = p.head.size;
    let names: Vec<&Field> = p.fields.iter().filter(|f| f.has_value()).collect();
    let counts: Vec<usize> = p.fields.iter().flat_map(|f| match &f.k {
        K::List(Cnt::F(i) | Cnt::Bits(i) | Cnt::Div8(i)) | K::Data(Cnt::F(i) | Cnt::Bits(i) | Cnt::Div8(i)) | K::Opt(i) | K::Sized(i) => vec![*i],
        K::Data(Cnt::Mul(i, j)) => vec![*i, *j],
        K::List(Cnt::Sub(i, _)) => vec![*i],
        _ => vec![],
    }).collect();
    let mut i = 0;
    for f in &p.fields {
        if matches!(f.k, K::List(_) | K::Data(_) | K::Opt(_) | K::Sized(_) | K::Ulist(_)) { break }
        let mut o = vec![];
        let w = match &f.k {
            K::Pad(n) | K::Fixed(n) | K::Text(n) | K::Wide(n) => *n,
            K::One => {
                if let Some(w) = spec.width(&f.t) { w } else { let mut g = Gen::new(spec, Rng::new(0, 0)); g.lists = Lists::None; g.style = Style::Zero; let v = g.value(&f.t); spec.enc_type(&f.t, &v, &mut o); o.len() }
            }
            _ => 0,
        };
        if f.has_value() {
            if counts.contains(&i) { out.push((off, w)) }
            i += 1;
        }
        off += w;
    }
    let _ = names;
    out
}

/// A message with a list of very many elements, all there or almost: what it costs to read, and what comes of it.
pub fn vast(s: &mut Session, turn: u64, thrift: bool) {
    let spec = &s.w.spec;
    let vars: Vec<(&PduSpec, usize)> = pdus(s).iter().flat_map(|p| {
        p.fields.iter().filter(|f| f.has_value()).enumerate().filter(|(_, f)| matches!(f.k, K::List(_) | K::Data(_))).map(move |(i, _)| (p, i))
    }).collect();
    let (p, i) = vars[(turn % vars.len() as u64) as usize];
    let vf: Vec<&Field> = p.fields.iter().filter(|f| f.has_value()).collect();
    let f = vf[i];
    s.name = format!("{} vast {}", s.name, f.n);
    s.g.randomize();
    if s.g.lists == Lists::Large { s.g.lists = Lists::Small }
    s.g.budget = 300;
    let mut vs = s.g.fields(&p.fields);
    let data = matches!(f.k, K::Data(_));
    s.g.budget = *s.g.r.pick(&[30, 200, 600]);
    let elem = if data { Val::O(vec![s.g.r.octet()]) } else { s.g.value(&f.t) };
    let mut eo = vec![];
    if data { eo.push(elem.octs()[0]) } else { spec.enc_type(&f.t, &elem, &mut eo) }
    let (K::List(c) | K::Data(c)) = &f.k else { unreachable!() };
    let upto = *s.g.r.pick(&[20_000usize, 66_000, 150_000, 700_000]);
    let k = (upto / eo.len().max(1)).min(s.g.count_max(c, &vf).min(1_000_000) as usize);
    let k = k - s.g.r.below(3).min(k);
    vs[i] = if data { Val::O(vec![]) } else { Val::T(vec![]) };
    let set = |v: &Val, n: u64| Val::O(octets(n, v.octs().len()));
    match c {
        Cnt::F(j) => vs[*j] = set(&vs[*j], k as u64),
        Cnt::Bits(j) | Cnt::Div8(j) => vs[*j] = set(&vs[*j], 8 * k as u64),
        Cnt::Sub(j, m) => { let mut sub = vs[*j].tup().to_vec(); sub[*m] = set(&sub[*m], k as u64); vs[*j] = Val::T(sub) }
        Cnt::Mul(a, b) => {
            let (wa, wb) = (vs[*a].octs().len(), vs[*b].octs().len());
            let most = |w: usize| if w >= 4 { 1u64 << 31 } else { (1 << (8 * w)) - 1 };
            let b_ = if k as u64 > most(wa) { 2 } else { 1 };
            if (k as u64 / b_) > most(wa) || b_ > most(wb) || k as u64 % b_ != 0 { return }
            vs[*a] = set(&vs[*a], k as u64 / b_);
            vs[*b] = set(&vs[*b], b_);
        }
    }
    let vs = spec.derive(p, &Val::T(vs)).tup().to_vec();
    let h = header_for(s, p);
    // the octets, with the many elements in the place of the empty list
    let cut = *s.g.r.pick(&[0usize, 0, 0, 0, 1, 7, 5000]);
    let mut bs = spec.enc_header(p, &h);
    {
        let (mut before, mut after) = (vec![], vec![]);
        let head = spec.enc_body(p, &Val::T(vs.clone()));
        // how much of the body stands in front of the list: the body with one element more tells
        let mut one = vs.clone();
        let marks: Vec<usize> = {
            one[i] = if data { Val::O(eo.clone()) } else { Val::T(vec![elem.clone()]) };
            let more = spec.enc_body(p, &Val::T(one));
            (0..=head.len()).filter(|m| more[..*m] == head[..*m] && more[*m..*m + eo.len()] == eo[..] && more[*m + eo.len()..] == head[*m..]).collect()
        };
        // (several places may do: what is put there is the same)
        let Some(m) = marks.first() else { return };
        before.extend_from_slice(&head[..*m]);
        after.extend_from_slice(&head[*m..]);
        bs.extend(before);
        for _ in 0..k { bs.extend_from_slice(&eo) }
        bs.extend(after);
    }
    let n = bs.len();
    let cut = cut.min(k * eo.len()).min(n - p.head.size);
    bs.truncate(n - cut);
    let tail = if cut == 0 { s.g.r.below(40) } else { 0 };
    bs.extend(vec![0xA5; tail]);
    let e = s.w.entry(&p.name);
    let vsj = Val::T(vs.clone()).json();
    let line = |r: &str, rem: usize, len: usize, els: Vec<J>, rest: J, c: &Cost| json!({"op": "vast", "t": p.name, "i": i + 1, "v": vsj, "data": data, "et": f.t, "elem": elem.json(),
        "k": k, "n": n, "cut": cut, "tail": tail, "r": r, "rem": rem, "len": len, "els": els, "rest": rest, "peak": c.peak, "total": c.total, "ms": c.us / 1000});
    s.before(|| line("lost", 0, 0, vec![], json!([]), &Cost::default()));
    let mut rest = &bs[..];
    let (d, cost) = guarded(|| (e.dec)(&mut rest as &mut dyn Buf));
    let rem = rest.len();
    let (r, got) = match &d { None => ("panic", None), Some(Ok(o)) => ("ok", Some(o.body())), Some(Err(e)) => (kind(e), None) };
    let (mut len, mut els, mut others) = (0, vec![], Val::T(vec![]));
    if let Some(g) = got {
        let mut g = g.tup().to_vec();
        match &g[i] {
            Val::O(o) => { len = o.len(); let mut seen: Vec<u8> = o.clone(); seen.sort_unstable(); seen.dedup(); els = seen.into_iter().take(3).map(|x| Val::O(vec![x])).collect() }
            Val::T(l) => { len = l.len(); for x in l { if els.len() < 3 && !els.iter().any(|y: &Val| y.same(x)) { els.push(x.clone()) } } }
            _ => {}
        }
        g[i] = vs[i].clone();
        others = Val::T(g);
    }
    let good = if cut > 0 { r == "short" && rem <= n - cut } else {
        r == "ok" && rem == tail && len == k && els.len() <= 1 && others.same(&s.w.spec.canon_body(p, &Val::T(vs.clone())))
    };
    let m = bs.len() as u64;
    if r == "panic" || !good && !thrift { s.tag(format!("vast {r}")) }
    if thrift && (cost.peak > 32768 + 128 * m || cost.total > 65536 + 512 * m) { s.tag("vast.alloc") }
    if thrift && cost.us / 1000 > 300 + m / 1000 { s.tag("vast.time") }
    let els: Vec<J> = els.iter().map(Val::json).collect();
    s.ev(|_| line(r, rem, len, els, others.json(), &cost));
}

fn hostile(s: &mut Session, idx: u64) {
    if idx % 200 == 77 { return vast(s, idx / 200, true) }
    let p = pdu_at(s, idx);
    let spec = &s.w.spec;
    let mode = s.g.r.below(8);
    let mut bs = if mode == 0 {
        let n = *s.g.r.pick(&[0usize, 1, 11, 12, 13, 40, 100, 300]);
        s.g.randomize();
        s.g.data(n)
    } else {
        let h = header_for(s, p);
        s.g.randomize();
        s.g.budget = 400;
        let v = Val::T(s.g.fields(&p.fields));
        spec.enc_pdu(p, &h, &v)
    };
    let top = p.head.size;
    if bs.len() >= top && s.g.r.chance(19, 20) { bs[p.head.at] = p.ty }
    let big = [0xFFu8; 8];
    match mode {
        1 | 2 => {
            // claim much more than there is
            let cf = count_fields(spec, p);
            for (off, w) in &cf {
                if *off + *w <= bs.len() && s.g.r.chance(3, 4) {
                    let kind = s.g.r.below(5);
                    for k in 0..*w { bs[*off + k] = match kind { 0 | 1 => 0xff, 2 => if k == 0 { 0x80 } else { 0 }, 3 => if k == *w - 1 { 0xff } else { 0 }, _ => s.g.r.octet() } }
                }
            }
        }
        3 => for _ in 0..1 + s.g.r.below(6) { if bs.len() > top { let i = top + s.g.r.below(bs.len() - top); bs[i] = s.g.r.octet() } },
        4 => {
            // an extreme integer anywhere
            let w = *s.g.r.pick(&[1usize, 2, 4, 8]);
            if bs.len() > top + w { let i = top + s.g.r.below(bs.len() - top - w); bs[i..i + w].copy_from_slice(&big[..w]) }
        }
        5 => { let k = s.g.r.below(bs.len() + 1); bs.truncate(k); let n = s.g.r.below(8); let t = s.g.data(n); bs.extend(t) }
        6 => { for b in bs.iter_mut().skip(top) { *b = 0xff } let n = s.g.r.below(600); bs.extend(vec![0xff; n]) }
        7 => {
            let n = if s.g.r.chance(1, 10) { 60000 } else { s.g.r.below(1500) };
            let t = s.g.data(n);
            bs.extend(t);
            for b in bs.iter_mut().skip(top) { if s.g.r.chance(1, 3) { *b = s.g.r.octet() } }
        }
        _ => {}
    }
    let src = s.g.r.pick(&[Source::Slice, Source::Slice, Source::Slice, Source::Bytes, Source::Take, Source::Pieces(vec![1, 2, 13, 14, 30])]).clone();
    let d = s.decode_any(p, &bs, &src);
    let n = bs.len() as u64;
    if d.r == "panic" { s.tag("hostile.panic") }
    if d.rem > bs.len() { s.tag("hostile.rem") }
    if d.cost.peak > 32768 + 128 * n || d.cost.total > 65536 + 512 * n { s.tag("hostile.alloc") }
    if d.cost.us / 1000 > 300 { s.tag("hostile.time") }
    s.ev(|_| { let mut j = Session::dec_json(p, &bs, &src, &d); j["op"] = json!("hostile"); j["h"] = json!([]); j["v"] = json!([]); j });
}

fn enums(s: &mut Session, idx: u64) {
    let e = &s.w.enums[(idx % s.w.enums.len() as u64) as usize];
    let sp = &s.w.spec.enums[e.name];
    s.name = format!("{} {}", s.name, e.name);
    let w = e.w;
    let mut codes: Vec<u64> = vec![];
    match w {
        1 => codes.extend(0..256),
        2 => codes.extend(0..65536),
        _ => {
            let interesting: Vec<u64> = if sp.bits.is_empty() { sp.codes.clone() } else { sp.bits.iter().map(|b| 1u64 << b).chain([0, sp.bits.iter().fold(0, |a, b| a | 1 << b)]).collect() };
            for c in &interesting { for d in [-1i64, 0, 1] { codes.push((*c as i64 + d) as u64 & 0xffff_ffff) } }
            for c in &interesting { for b in 0..32 { codes.push((c ^ (1 << b)) & 0xffff_ffff) } }
            // a defined code in another guise: octets in another order, sign-extended, complemented, two bits off
            for c in interesting.iter().map(|c| *c as u32) {
                let guises = [c.swap_bytes(), c.rotate_left(8), c.rotate_left(16), c.rotate_left(24), !c, c | 0xffff_0000, c | 0xffff_ff00, c << 1, c << 4, c << 8, c >> 1, c >> 8, c.reverse_bits(), c.wrapping_neg(), c.wrapping_mul(10)];
                codes.extend(guises.map(u64::from));
                for b in 0..32 { for d in 0..b { codes.push(u64::from(c ^ 1 << b ^ 1 << d)) } }
            }
            for _ in 0..2000 { let l = s.g.literal() as u32; codes.extend([l, l.swap_bytes(), !l].map(u64::from)) }
            codes.extend(0..65536u64);
            codes.extend((0..65536u64).map(|x| x << 16));
            let n = if s.thorough { 400_000 } else { 20_000 };
            codes.extend((0..n).map(|_| s.g.r.next() & 0xffff_ffff));
            codes.sort_unstable();
            codes.dedup();
        }
    }
    // the graph of the decoder: which codes come back as themselves, under what name; which as
    // the default; which as anything else
    let mut own: Vec<J> = vec![];
    let mut odd: Vec<J> = vec![];
    let mut used = std::collections::BTreeSet::new();
    let mut fields = std::collections::BTreeSet::new();
    let mut bad = false;
    let tail = [0xA5u8, 0x5A];
    let full = if sp.bits.is_empty() { 0 } else { sp.bits.iter().fold(0u64, |a, b| a | 1 << b) };
    for c in &codes {
        let mut bs = octets(*c, w);
        bs.extend(tail);
        let (o, _) = guarded(|| (e.probe)(&bs).unwrap());
        let Some(o) = o else { odd.push(json!([octets(*c, w), "panic"])); bad = true; continue };
        let known = if sp.bits.is_empty() { sp.codes.binary_search(c) } else if *c & !full == 0 { Ok(usize::MAX) } else { Err(0) };
        match known {
            Ok(i) => {
                if o.code != *c { bad = true; odd.push(json!([octets(*c, w), octets(o.code, w)])) }
                else if i == usize::MAX {
                    let names: Vec<&str> = sp.bits.iter().zip(&sp.bnames).filter(|(b, _)| *c >> **b & 1 == 1).map(|(_, n)| n.as_str()).collect();
                    let want = format!("{}({})", e.name, if names.is_empty() { "0x0".into() } else { names.join(" | ") });
                    if o.name != want { bad = true; odd.push(json!([octets(*c, w), o.name])) }
                    if c.count_ones() <= 1 { own.push(json!([octets(*c, w), o.name])) }
                } else {
                    if o.name != sp.names[i] { bad = true }
                    own.push(json!([octets(*c, w), o.name]));
                }
            }
            Err(_) => if o.code == *c { bad = true; own.push(json!([octets(*c, w), o.name])) } else if o.code != sp.d { bad = true; odd.push(json!([octets(*c, w), octets(o.code, w)])) },
        }
        used.insert(o.used);
        if o.used != w { bad = true }
        match &o.field {
            None => { fields.insert(vec![]); }
            Some((fc, fu, fe, fl)) => {
                if *fc != o.code || *fu != w || *fe != octets(o.code, w) || *fl != w {
                    bad = true;
                    odd.push(json!([octets(*c, w), "field", octets(*fc, w), fu, fe, fl]));
                }
                fields.insert(vec![*fu, *fl, fe.len()]);
            }
        }
        if odd.len() > 20 { break }
    }
    s.ops += codes.len() as u64;
    if bad { s.tag("enum") }
    s.ev(|_| json!({"op": "enum", "e": e.name, "w": w, "n": codes.len(), "own": own, "odd": odd, "used": used, "fields": fields}));
}

fn stream(s: &mut Session, idx: u64) {
    let junk: Vec<u8> = (0..s.g.r.below(30)).map(|_| s.g.r.octet()).collect();
    // sometimes there is much in the buffer already, with or without room for more
    s.deep = if s.g.r.chance(1, 5) { *s.g.r.pick(&[200, 1400, 1500, 4096, 8180, 8192, 9000, 65_530, 65_536, 100_000]) + s.g.r.below(20) } else { 0 };
    let mut all: Vec<u8> = (0..s.deep).map(|i| (i * 31 + i / 256 + 1) as u8).collect();
    all.extend(&junk);
    let mut buf = BytesMut::from(&all[..]);
    if s.g.r.chance(1, 4) { buf.reserve(*s.g.r.pick(&[1, 12, 60, 1000, 10_000])) }
    drop(all);
    s.ev(|_| json!({"op": "open", "pre": junk}));
    let mut skipped = false;
    let mut queue: std::collections::VecDeque<(&PduSpec, Val, Val, usize)> = Default::default();
    let n = 2 + s.g.r.below(6);
    let mut written = 0;
    let mut first = true;
    while written < n || !queue.is_empty() {
        if written < n && (queue.is_empty() || s.g.r.chance(3, 5)) {
            written += 1;
            // the same once more
            if !first && s.obj.is_some() && s.g.r.chance(1, 6) {
                let p = s.p.unwrap();
                let r = s.ser(&mut buf, false, true);
                if r == "ok" { queue.push_back((p, s.h.clone(), s.w.spec.canon_body(p, &s.v), s.last.len())) } else { return }
                continue;
            }
            let p = if first { pdu_at(s, idx) } else { any_pdu(s) };
            first = false;
            s.start(p);
            if s.obj.is_none() { return }
            s.g.randomize();
            s.g.budget = 250;
            let probe = has_ulist(p) && false;
            s.g.no_ulist = !probe;
            let v = Val::T(s.g.fields(&p.fields));
            let h = header(s, p);
            let v = entwined(s, p, &h, v);
            s.set_body(v);
            s.set_header(h);
            let r = s.ser(&mut buf, false, true);
            if s.deep > 0 && s.tags.iter().any(|t| t == "ser.kept") { return }
            if r == "ok" { queue.push_back((p, s.h.clone(), s.w.spec.canon_body(p, &s.v), s.last.len())) } else { return }
        } else if let Some((p, h, v, n)) = queue.pop_front() {
            if !skipped { skipped = true; if buf.len() < s.deep + junk.len() { return } buf.advance(s.deep + junk.len()); s.deep = 0 }
            let before = buf.to_vec();
            let e = s.w.entry(&p.name);
            s.before(|| json!({"op": "next", "t": p.name, "r": "lost", "h": [], "v": [], "rem": []}));
            let split = s.g.r.chance(1, 4) && buf.len() >= p.head.size;
            let (d, _) = guarded(|| if split { (e.split)(&mut buf) } else { (e.dec)(&mut buf) });
            let r = match &d { None => "panic", Some(Ok(_)) => "ok", Some(Err(e)) => kind(e) };
            let (oh, ov) = match &d { Some(Ok(o)) => (o.hdr(), o.body()), _ => (Val::T(vec![]), Val::T(vec![])) };
            let rest = buf.to_vec();
            if r != "ok" { s.tag(format!("next {r}")) } else {
                if !oh.same(&h) { s.tag("next.h") }
                if !ov.same(&v) { s.tag("next.v") }
                if before.len() < n || rest != before[n..] { s.tag("next.rest") }
            }
            s.ev(|_| json!({"op": "next", "t": p.name, "r": r, "h": oh.json(), "v": ov.json(), "rem": rest}));
            if r != "ok" || s.tags.iter().any(|t| t == "next.rest") { return }
        }
    }
}

fn relay(s: &mut Session, idx: u64) {
    let p = pdu_at(s, idx);
    let spec = &s.w.spec;
    s.g.randomize();
    s.g.budget = 400;
    let v = Val::T(s.g.fields(&p.fields));
    let h = header_for(s, p);
    let v = entwined(s, p, &h, v);
    let v = s.w.spec.canon_body(p, &v);
    let from_lib = s.g.r.chance(1, 3);
    let mut bs = spec.enc_pdu(p, &h, &v);
    if from_lib {
        s.start(p);
        if s.obj.is_none() { return }
        s.set_body(v.clone());
        s.set_header(h.clone());
        let mut b = BytesMut::new();
        s.ser(&mut b, true, false);
        bs = b.to_vec();
    } else {
        s.ev(|_| json!({"op": "wire", "t": p.name, "h": h.json(), "v": v.json(), "bs": bs}));
    }
    s.p = Some(p);
    for _ in 0..1 + s.g.r.below(3) {
        let d = s.decode_any(p, &bs, &Source::Slice);
        if d.r != "ok" { s.tag(format!("hop {}", d.r)) }
        let Some(o) = d.obj else { s.ev(|_| json!({"op": "hop", "t": p.name, "r": d.r, "h": [], "v": [], "v2": [], "out": []})); return };
        s.h = o.hdr();
        s.v = o.body();
        s.obj = Some(o);
        let o = s.obj.as_mut().unwrap();
        let mut b = BytesMut::new();
        let (h0, v0) = (o.hdr(), o.body());
        let (r, _) = guarded(|| o.ser(&mut b));
        let r = match &r { None => "panic", Some(Ok(())) => "ok", Some(Err(e)) => kind(e) };
        let v2 = o.body();
        if r != "ok" { s.tag("hop.ser") } else {
            if b[..] != bs[..] { s.tag("hop.out") }
            if !v2.same(&v0) { s.tag("hop.v2") }
        }
        s.ev(|_| json!({"op": "hop", "t": p.name, "r": r, "h": h0.json(), "v": v0.json(), "v2": v2.json(), "out": b.to_vec()}));
        if r != "ok" || b[..] != bs[..] { return }
        bs = b.to_vec();
    }
}

/// An optional part by itself: made empty, or read with a length from octets
/// that go on behind it.
fn part(s: &mut Session, idx: u64) {
    use open_dis_rust::common::data_types::{antenna_pattern::AntennaPattern, modulation_parameters::ModulationParameters};
    use open_dis_rust::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};
    type Got = (Option<(Vec<u8>, Vec<u8>, usize)>, usize);
    fn out<P: FieldSerialize + FieldLen>(p: Option<P>, enc: impl Fn(&P, &mut BytesMut), rem: usize) -> Got {
        (p.map(|p| { let (mut a, mut b) = (BytesMut::new(), BytesMut::new()); enc(&p, &mut a); p.serialize_field(&mut b); (a.to_vec(), b.to_vec(), p.field_len()) }), rem)
    }
    let antenna = idx % 2 == 0;
    let t = if antenna { "AntennaPattern" } else { "ModulationParameters" };
    s.name = format!("{} {t}", s.name);
    s.g.style = Style::Random;
    for _ in 0..1 + s.g.r.below(5) {
        let n = match s.g.r.below(6) { 0 => 0, 1 | 2 => 1 + s.g.r.below(255), 3 => *s.g.r.pick(&[1, 2, 39, 127, 128, 254, 255]), _ if antenna => *s.g.r.pick(&[256, 257, 300, 512, 1000, 2000]), _ => s.g.r.below(60) };
        let k = s.g.r.below(20);
        let bs = s.g.data(n + k);
        let how = *s.g.r.pick(&["new", "default", "plain", "length", "field", "maybe"]);
        let r = guarded(|| {
            let mut b: &[u8] = &bs;
            macro_rules! go { ($p:ty, $n:ty) => {{
                let p = match how {
                    "new" => Some(<$p>::new()),
                    "default" => Some(<$p>::default()),
                    "plain" => <$p>::deserialize_field(&mut b).into(),
                    "length" => <$p>::deserialize(&mut b, n as $n),
                    "field" => Some(<$p>::deserialize_with_len(&mut b, n)),
                    _ => <Option<$p>>::deserialize_with_len(&mut b, n),
                };
                out(p, |p, b| p.serialize(b), b.len())
            }} }
            if antenna { go!(AntennaPattern, u16) } else { go!(ModulationParameters, u8) }
        }).0;
        let takes = !matches!(how, "new" | "default" | "plain");
        let want = if takes { bs[..n].to_vec() } else { vec![] };
        let none = n == 0 && matches!(how, "length" | "maybe");
        let fine = r.as_ref().is_some_and(|(p, rem)| *rem == bs.len() - want.len() && if none { p.is_none() } else { p.as_ref().is_some_and(|(a, b, l)| *a == want && *b == want && *l == want.len()) });
        if !fine { s.tag(format!("part {how}")) }
        s.ev(|_| match r {
            None => json!({"op": "part", "how": how, "n": n, "bs": bs, "r": "panic"}),
            Some((p, rem)) => json!({"op": "part", "how": how, "n": n, "bs": bs, "r": "ok", "rem": rem,
                "got": p.map_or(json!([]), |(a, b, l)| json!([a, b, l]))}),
        });
    }
}
fn transmitter(s: &mut Session, idx: u64) {
    if idx % 37 == 36 { return part(s, idx) }
    let p = s.w.spec.pdu("TransmitterPdu");
    s.start(p);
    if s.obj.is_none() { return }
    let fs: Vec<Field> = p.fields.iter().filter(|f| f.has_value()).cloned().collect();
    let at = |n: &str| fs.iter().position(|f| f.n == n).unwrap();
    let opts = [at("modulation_parameters"), at("antenna_pattern")];
    let lens = [at("modulation_parameter_length"), at("antenna_pattern_length")];
    let other = at("frequency");
    if s.g.r.chance(1, 2) { let v = body(s, p, false); s.set_body(v); }
    let mut buf = BytesMut::new();
    for _ in 0..1 + s.g.r.below(4) {
        for _ in 0..s.g.r.below(5) {
            match s.g.r.below(6) {
                0 | 1 | 2 => {
                    let k = s.g.r.below(2);
                    let v = if s.g.r.chance(1, 3) { Val::T(vec![]) } else {
                        let n = if s.g.r.chance(1, 10) { 0 } else if k == 0 { 1 + s.g.r.below(255) } else { *s.g.r.pick(&[1usize, 2, 39, 40, 254, 255, 256, 257, 300, 512, 1000, 3000]) };
                        s.g.style = Style::Random;
                        Val::T(vec![Val::O(s.g.data(n))])
                    };
                    s.set_field(opts[k], v);
                }
                3 => { let k = s.g.r.below(2); let w = s.v.tup()[lens[k]].octs().len(); s.g.style = Style::Random; let o = s.g.data(w); s.set_field(lens[k], Val::O(o)); }
                4 => { s.g.style = Style::Random; let o = s.g.data(8); s.set_field(other, Val::O(o)); }
                _ => s.calc(),
            }
        }
        if s.g.r.chance(1, 2) { buf.clear() }
        if s.ser(&mut buf, true, false) != "ok" { return }
        let d = dec_last(s, &Source::Slice, &[]);
        if s.g.r.chance(1, 3) {
            if let Some(o) = d.obj {
                s.h = o.hdr();
                s.v = o.body();
                s.obj = Some(o);
                s.ev(|s| json!({"op": "obj", "t": p.name, "how": "decoded", "r": "ok", "h": s.h.json(), "v": s.v.json()}));
            }
        }
    }
}

const SIZED: [&str; 10] = ["VariableDatumRecord", "RecordSpecificationElement", "RecordSpecification", "StandardVariableRecords",
    "StandardVariableSpecification", "AttributeRecord", "AttributeRecordSet", "VariableTransmitterParameters",
    "ElectromagneticEmissionSystemData", "AcousticEmitterSystemData"];
fn sized(s: &mut Session, idx: u64) {
    match idx % 3 {
        0 => {
            // every datum length in turn
            let bits = (idx / 3) % 700;
            let bits = if s.g.r.chance(1, 10) { *s.g.r.pick(&[2040u64, 2047, 2048, 2049, 8191, 65528, 65535, 65536, 65537]) } else { bits };
            s.g.style = Style::Random;
            let v = Val::T(vec![Val::O(s.g.data(4)), Val::O(octets(bits, 4)), Val::O(s.g.data(bits.div_ceil(8) as usize))]);
            let n = s.g.r.below(20);
            let tail = s.g.data(n);
            one_record(s, "VariableDatumRecord", v, &tail);
        }
        1 => record(s, idx / 3, Some(&SIZED)),
        _ => {
            // in PDUs, several in a row
            let spec = &s.w.spec;
            let with: Vec<&PduSpec> = spec.pdus.iter().filter(|p| p.fields.iter().any(|f| matches!(f.k, K::List(_) | K::One) && SIZED.contains(&f.t.as_str()))).collect();
            let p = with[(idx / 3 % with.len() as u64) as usize];
            if s.g.r.chance(1, 4) {
                // sizes that are not there
                let h = header_for(s, p);
                s.g.randomize();
                s.g.lists = Lists::Small;
                s.g.budget = 300;
                let mut v = Val::T(s.g.fields(&p.fields));
                if let Val::T(x) = &mut v { lie(spec, &mut s.g.r, &p.fields, x) }
                let mut bs = spec.enc_pdu(p, &h, &v);
                if s.g.r.chance(1, 2) { let k = s.g.r.below(300); let t = s.g.data(k); bs.extend(t) }
                read_it(s, p, &bs);
                return;
            }
            s.start(p);
            if s.obj.is_none() { return }
            s.g.randomize();
            s.g.style = *s.g.r.pick(&[Style::Random, Style::Counter]);
            s.g.lists = Lists::Small;
            s.g.budget = 700;
            let v = Val::T(s.g.fields(&p.fields));
            s.set_body(v);
            let mut buf = BytesMut::new();
            if s.ser(&mut buf, false, false) != "ok" { return }
            dec_last(s, &Source::Slice, &[]);
        }
    }
}
fn one_record(s: &mut Session, t: &str, v: Val, tail: &[u8]) {
    let e = s.w.recs.iter().find(|e| e.name == t).unwrap();
    let (o, _) = guarded(|| (e.run)(&v, tail));
    let Some(o) = o else {
        s.tag("rec.panic");
        s.ev(|_| json!({"op": "rec", "t": t, "v": v.json(), "tail": tail, "r": "panic"}));
        return;
    };
    let Some(o) = o else {
        s.ev(|_| json!({"op": "bound", "t": "", "want": [], "got": []}));
        return;
    };
    let mut want = vec![];
    s.w.spec.enc_type(t, &v, &mut want);
    let canon = s.w.spec.canon(t, &v);
    if o.enc != want { s.tag("rec.enc") }
    if !o.dec.0.same(&canon) || o.dec.1 != o.enc.len() { s.tag("rec.dec") }
    if o.flen.is_some_and(|n| n != o.enc.len()) { s.tag("rec.flen") }
    if o.fdec.as_ref().is_some_and(|(x, n)| !x.same(&canon) || *n != o.enc.len()) { s.tag("rec.fdec") }
    let opt = |x: Option<J>| match x { None => json!([]), Some(j) => json!([j]) };
    s.ev(|_| json!({"op": "rec", "t": t, "v": v.json(), "tail": tail, "r": "ok", "enc": o.enc, "dv": o.dec.0.json(), "dn": o.dec.1,
                    "fenc": opt(o.fenc.map(|x| json!(x))), "flen": opt(o.flen.map(|x| json!(x))), "clen": opt(o.clen.map(|x| json!(x))),
                    "fdv": opt(o.fdec.as_ref().map(|x| x.0.json())), "fdn": opt(o.fdec.as_ref().map(|x| json!(x.1)))}));
}

/// A record by itself, read from all sorts of buffers.
fn rec_chunks(s: &mut Session, turn: u64) {
    let e = &s.w.recs[(turn % s.w.recs.len() as u64) as usize];
    let t = e.name;
    s.name = format!("{} {t}", s.name);
    s.g.randomize();
    s.g.budget = 300;
    let v = if t == "PduHeader" { s.g.usual_header() } else { s.g.value(t) };
    let mut bs = vec![];
    s.w.spec.enc_type(t, &v, &mut bs);
    let k = s.g.r.below(12);
    let tail = s.g.data(k);
    bs.extend(tail);
    let n = bs.len();
    let mut read = |src: &Source| {
        let (x, c) = guarded(|| src.with(&bs, |b| (e.dec)(b)));
        match x { Some((v, rem)) => ("ok", Some(v), rem, c), None => ("panic", None, 0, c) }
    };
    let line = |op: &str, src: &Source, d: &(&str, Option<Val>, usize, Cost)| json!({"op": op, "t": t, "src": src.name(), "bs": if op == "dec" { json!(bs) } else { json!([]) }, "r": d.0, "h": [],
        "v": d.1.as_ref().map_or(json!([]), Val::json), "rem": d.2, "peak": d.3.peak, "total": d.3.total, "ms": d.3.us / 1000});
    let d0 = read(&Source::Slice);
    s.ev(|_| line("dec", &Source::Slice, &d0));
    let mut srcs = vec![Source::Bytes, Source::Mut, Source::Cursor, Source::Take, Source::Chain(s.g.r.below(n + 1)), Source::Pieces((1..n).collect())];
    for _ in 0..3 { let mut c: Vec<usize> = (0..1 + s.g.r.below(6)).map(|_| s.g.r.below(n + 1)).collect(); c.sort_unstable(); srcs.push(Source::Pieces(c)) }
    for src in srcs {
        let d = read(&src);
        let same = d.0 == d0.0 && d.2 == d0.2 && match (&d.1, &d0.1) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false };
        if !same { s.tag("chunk") }
        let keep = !same || s.g.r.chance(1, 3);
        if keep { s.ev(|_| line("again", &src, &d)) }
    }
}

fn chunks(s: &mut Session, idx: u64) {
    if idx % 5 == 4 && !s.users { return rec_chunks(s, idx / 5) }
    let idx = if s.users { idx } else { idx - idx / 5 };
    let p = pdu_at(s, idx);
    let h = header_for(s, p);
    s.g.randomize();
    s.g.budget = 500;
    let v = Val::T(s.g.fields(&p.fields));
    let mut bs = s.w.spec.enc_pdu(p, &h, &v);
    scribble(s, p, &mut bs);
    match s.g.r.below(6) {
        0 => { let k = s.g.r.below(bs.len()); bs.truncate(k) }
        1 => { let n = s.g.r.below(20); let t = s.g.data(n); bs.extend(t) }
        2 => for _ in 0..4 { let i = s.g.r.below(bs.len()); bs[i] = s.g.r.octet() },
        _ => {}
    }
    // (what the two ways have to do with each other is C22)
    let split = s.g.r.chance(1, 4);
    let d0 = if split { s.decode_split(p, &bs, &Source::Slice) } else { s.decode(p, &bs, &Source::Slice) };
    s.ev(|_| Session::dec_json(p, &bs, &Source::Slice, &d0));
    let n = bs.len();
    let mut srcs = vec![Source::Bytes, Source::Mut, Source::Cursor, Source::Take, Source::Chain(s.g.r.below(n + 1)), Source::Chain(p.head.size.min(n)),
                        Source::Pieces((1..n).collect())];
    for _ in 0..4 { let mut c: Vec<usize> = (0..1 + s.g.r.below(6)).map(|_| s.g.r.below(n + 1)).collect(); c.sort_unstable(); srcs.push(Source::Pieces(c)) }
    for src in srcs {
        let d = if split { s.decode_split(p, &bs, &src) } else { s.decode(p, &bs, &src) };
        let same = d.r == d0.r && (d.r == "panic" || d.rem == d0.rem) && match (&d.obj, &d0.obj) {
            (None, None) => true,
            (Some(a), Some(b)) => a.hdr().same(&b.hdr()) && a.body().same(&b.body()),
            _ => false,
        };
        if !same { s.tag("chunk") }
        let keep = !same || s.g.r.chance(1, 3);
        if keep { s.ev(|_| { let mut j = Session::dec_json(p, &[], &src, &d); j["op"] = json!("again"); j }) }
    }
}

/// The marking of an aggregate is octets, not text: all of them are kept.
fn aggregate_marking(s: &mut Session) {
    let p = s.w.spec.pdu("AggregateStatePdu");
    let fi = p.fields.iter().filter(|f| f.has_value()).position(|f| f.t == "AggregateMarking").unwrap();
    s.g.randomize();
    let mut cs = s.g.data(31);
    for _ in 0..s.g.r.below(6) { let i = s.g.r.below(31); cs[i] = *s.g.r.pick(&[0u8, 0, 0x20, 0x7f, 0x80, 0xff]) }
    let mark = Val::T(vec![Val::O(vec![s.g.r.octet()]), Val::O(cs)]);
    if s.g.r.chance(1, 2) {
        let n = s.g.r.below(14);
        let tail = s.g.data(n);
        return one_record(s, "AggregateMarking", mark, &tail);
    }
    s.start(p);
    if s.obj.is_none() { return }
    let v = small_body(s, p);
    let mut vs = v.tup().to_vec();
    vs[fi] = mark;
    s.set_body(Val::T(vs));
    let mut buf = BytesMut::new();
    if s.ser(&mut buf, false, false) != "ok" { return }
    let tail: Vec<u8> = (0..s.g.r.below(5)).map(|_| s.g.r.octet()).collect();
    dec_last(s, &Source::Slice, &tail);
}

fn marking(s: &mut Session, idx: u64) {
    if idx % 7 == 6 { return aggregate_marking(s) }
    let idx = idx / 7 * 6 + idx % 7;
    let spec = &s.w.spec;
    let with: Vec<&PduSpec> = spec.pdus.iter().filter(|p| p.fields.iter().any(|f| f.t == "EntityMarking")).collect();
    let p = with[(idx % with.len() as u64) as usize];
    let fi = p.fields.iter().filter(|f| f.has_value()).position(|f| f.t == "EntityMarking").unwrap();
    s.g.randomize();
    if s.g.style == Style::Zero { s.g.style = Style::Random }
    // the text: every length, the script changing at every place
    let text = if s.g.r.chance(1, 2) { s.g.text(11) } else {
        let pool: Vec<char> = "Aé漢🛩z\t\n\r\u{feff}\u{301}\u{fffd}İſ\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10ffff}\0 ".chars().collect();
        let n = s.g.r.below(24);
        (0..n).map(|_| *s.g.r.pick(&pool)).collect::<String>().into_bytes()
    };
    let cs = s.g.enumeration("EntityMarkingCharacterSet", 1);
    let mark = Val::T(vec![Val::O(cs), Val::O(text)]);
    match s.g.r.below(3) {
        0 => {
            let n = s.g.r.below(14);
            let tail = s.g.data(n);
            one_record(s, "EntityMarking", mark, &tail);
        }
        1 => {
            s.start(p);
            if s.obj.is_none() { return }
            let v = small_body(s, p);
            let mut vs = v.tup().to_vec();
            vs[fi] = mark;
            s.set_body(Val::T(vs));
            let mut buf = BytesMut::new();
            if s.ser(&mut buf, false, false) != "ok" { return }
            let tail: Vec<u8> = (0..s.g.r.below(5)).map(|_| s.g.r.octet()).collect();
            dec_last(s, &Source::Slice, &tail);
        }
        _ => {
            // anything received in the field
            let h = header_for(s, p);
            let v = small_body(s, p);
            let mut vs = v.tup().to_vec();
            vs[fi] = Val::T(vec![Val::O(vec![1]), Val::O(vec![])]);
            let mut off = vec![];
            let k = p.fields.iter().position(|f| f.t == "EntityMarking").unwrap();
            s.w.spec.enc_fields(&p.fields[..k], &vs[..fi], &mut off);
            let mut bs = s.w.spec.enc_pdu(p, &h, &Val::T(vs.clone()));
            let at = p.head.size + off.len() + 1;
            let pool = [0u8, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xff];
            for i in 0..11 { bs[at + i] = if s.g.r.chance(1, 2) { *s.g.r.pick(&pool) } else { s.g.r.octet() } }
            let field = bs[at..at + 11].to_vec();
            let d = s.decode(p, &bs, &Source::Slice);
            let mut ok = d.r == "ok" && d.rem == 0;
            if let Some(o) = &d.obj {
                let got = o.body();
                for (i, (a, b)) in got.tup().iter().zip(vs.iter()).enumerate() { if i != fi && !a.same(b) { ok = false } }
                let mut trimmed = field.clone();
                while trimmed.last() == Some(&0) { trimmed.pop(); }
                let text = got.tup()[fi].tup()[1].octs().to_vec();
                if std::str::from_utf8(&field).is_ok() && text != trimmed { ok = false }
            }
            if !ok { s.tag("marking.recv") }
            s.ev(|_| { let mut j = Session::dec_json(p, &bs, &Source::Slice, &d); j["op"] = json!("received"); j["i"] = json!(fi + 1); j["field"] = json!(field); j });
        }
    }
}

/// Octets of a message as it might arrive: whole, damaged, or anything behind a header.
/// Counts and lengths, at any depth, that claim other than there is: extremes of their width most of all.
fn lie(spec: &Spec, r: &mut Rng, fs: &[Field], vs: &mut [Val]) {
    let mut claims: Vec<(usize, Option<usize>)> = vec![];
    for (j, f) in fs.iter().filter(|f| f.has_value()).enumerate() {
        match &f.k {
            K::List(c) | K::Data(c) => match c {
                Cnt::F(i) | Cnt::Bits(i) | Cnt::Div8(i) => claims.push((*i, None)),
                Cnt::Sub(i, k) => claims.push((*i, Some(*k))),
                Cnt::Mul(i, k) => { claims.push((*i, None)); claims.push((*k, None)) }
            },
            K::Opt(i) | K::Sized(i) => claims.push((*i, None)),
            _ => {}
        }
        if let Some(inner) = spec.records.get(&f.t) {
            match (&f.k, &mut vs[j]) {
                (K::One, Val::T(x)) => lie(spec, r, inner, x),
                (K::List(_), Val::T(l)) => for x in l { if let Val::T(x) = x { lie(spec, r, inner, x) } },
                _ => {}
            }
        }
    }
    for (i, sub) in claims {
        if !r.chance(1, 2) { continue }
        let o = match (sub, &mut vs[i]) { (None, o) => o, (Some(k), Val::T(x)) => &mut x[k], _ => continue };
        let Val::O(o) = o else { continue };
        let w = o.len();
        match r.below(6) {
            0 => o.fill(0xff),
            // up to 70 below the most, or below half of it
            1 | 2 => { o.fill(0xff); o[w - 1] -= r.below(70) as u8; if r.chance(1, 2) { o[0] = 0x7f } }
            3 => { o.fill(0); o[0] = 0x80; o[w - 1] |= r.below(9) as u8 }
            4 => { let k = r.below(w); o[k] = r.octet() }
            _ => o[w - 1] = o[w - 1].wrapping_add(*r.pick(&[1u8, 255, 8, 248])),
        }
    }
}

pub fn arriving(s: &mut Session, p: &PduSpec) -> Vec<u8> {
    let spec = &s.w.spec;
    let h = header_for(s, p);
    s.g.randomize();
    s.g.budget = if s.g.r.chance(1, 12) { 2500 } else { 300 };
    let wild = s.g.r.chance(1, 8);
    s.g.consistent = !wild;
    let mut v = Val::T(s.g.fields(&p.fields));
    s.g.consistent = true;
    if s.g.r.chance(1, 6) {
        if let Val::T(x) = &mut v { lie(spec, &mut s.g.r, &p.fields, x) }
        let mut bs = spec.enc_pdu(p, &h, &v);
        if s.g.r.chance(1, 3) { let k = s.g.r.below(300); let t = s.g.data(k); bs.extend(t) }
        scribble(s, p, &mut bs);
        return bs;
    }
    let mut bs = spec.enc_pdu(p, &h, &v);
    scribble(s, p, &mut bs);
    let n = bs.len();
    let (top, at) = (p.head.size, p.head.at);
    match s.g.r.below(10) {
        0 => {}
        1 => { let k = s.g.r.below(30); let t = s.g.data(k); bs.extend(t) }
        2 => { let k = s.g.r.below(n + 1); bs.truncate(k); if k > at { bs[at] = p.ty } }
        // counts that say something else, and octets enough for it
        3 | 4 => {
            let cf = count_fields(spec, p);
            for (off, w) in cf { if off + w <= n && s.g.r.chance(2, 3) { let x = s.g.r.below(9) as u8; for k in 0..w { bs[off + k] = if k == w - 1 { x } else { 0 } } } }
            let k = s.g.r.below(400);
            let t: Vec<u8> = if s.g.r.chance(1, 2) { (0..k).map(|_| *s.g.r.pick(&[0u8, 0, 0, 1, 2, 3])).collect() } else { s.g.data(k) };
            bs.extend(t);
        }
        // small octets: counts that are met
        5 => {
            let k = s.g.r.below(500);
            bs.truncate(top);
            for _ in 0..k { let o = *s.g.r.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3, 4, 8, 16, 64]); bs.push(o) }
        }
        6 => { let k = s.g.r.below(500); bs.truncate(top); for _ in 0..k { let o = s.g.r.octet(); bs.push(o) } }
        // some octets, or one value, overwritten
        7 | 8 => { for _ in 0..1 + s.g.r.below(6) { if n > top { let i = top + s.g.r.below(n - top); bs[i] = s.g.r.octet() } } }
        _ => {
            let w = *s.g.r.pick(&[1usize, 2, 4, 8]);
            if n > top + w {
                let i = top + s.g.r.below(n - top - w + 1);
                let x = s.g.literal();
                bs[i..i + w].copy_from_slice(&octets(if w == 8 { x } else { x & ((1 << (8 * w)) - 1) }, w));
            }
        }
    }
    // a part of it a second time, somewhere else: the header in front of the body most of all
    if n > top && s.g.r.chance(1, 8) { again(&mut s.g.r, &mut bs, top) }
    if bs.len() > at && s.g.r.chance(1, 40) { bs[at] = s.g.r.octet() }
    bs
}
/// A header that says something else (but its type): the length it claims most of all.
fn scribble(s: &mut Session, p: &PduSpec, bs: &mut [u8]) {
    if !s.g.r.chance(1, 5) { return }
    let (size, at) = (p.head.size.min(bs.len()), p.head.at);
    for _ in 0..1 + s.g.r.below(3) {
        let w = *s.g.r.pick(&[1usize, 2, 2, 4]);
        if size < w { return }
        let i = s.g.r.below(size / w) * w;
        if (i..i + w).contains(&at) { continue }
        let x = match s.g.r.below(4) { 0 => s.g.literal(), 1 => 1 << s.g.r.below(8 * w), 2 => (s.g.r.below(256) as u64) << (8 * s.g.r.below(w)), _ => s.g.r.next() };
        bs[i..i + w].copy_from_slice(&octets(x & (u64::MAX >> (64 - 8 * w)), w));
    }
}
/// Copy a part of a message over another, the one behind octet `top`.
fn again(r: &mut Rng, bs: &mut [u8], top: usize) {
    let n = bs.len();
    if n <= top { return }
    let (from, len) = if r.chance(1, 2) { (0, top) } else { (r.below(n), *r.pick(&[1, 2, 4, 6, 8, 12, 16, 24])) };
    let to = if r.chance(1, 2) { top } else { top + r.below(n - top) };
    let len = len.min(n - from).min(n - to);
    bs.copy_within(from..from + len, to);
}
fn has_text(spec: &Spec, fs: &[Field]) -> bool { fs.iter().any(|f| matches!(f.k, K::Text(_)) || spec.records.get(&f.t).is_some_and(|i| has_text(spec, i))) }
/// Sometimes, a body some part of which is a copy of another part of the message, or of its header.
fn entwined(s: &mut Session, p: &PduSpec, h: &Val, v: Val) -> Val {
    let spec = &s.w.spec;
    if !s.g.r.chance(1, 10) || has_ulist(p) || has_text(spec, &p.fields) { return v }
    let mut bs = spec.enc_pdu(p, h, &v);
    again(&mut s.g.r, &mut bs, p.head.size);
    match spec.dec_fields(&p.fields, &bs, p.head.size) { DecRes::Ok(v, _) => v, DecRes::Short => v }
}

/// Whole, or header first; with the header that was there, or another.
fn both_ways(s: &mut Session, idx: u64) {
    let p = pdu_at(s, idx);
    let mut bs = arriving(s, p);
    while bs.len() < p.head.size { bs.push(0) }
    // a header from elsewhere, which the body may begin with
    let other = header_for(s, p);
    if s.g.r.chance(1, 8) {
        let o = s.w.spec.enc_header(p, &other);
        for (k, o) in o.iter().enumerate() { if p.head.size + k < bs.len() { bs[p.head.size + k] = *o } else { bs.push(*o) } }
    }
    let d = s.decode(p, &bs, &Source::Slice);
    s.ev(|_| Session::dec_json(p, &bs, &Source::Slice, &d));
    let like = |d: &Dec, e: &Dec, h: Option<&Val>| (d.r == "ok") == (e.r == "ok") && e.r != "panic" && match (&d.obj, &e.obj) {
        (Some(a), Some(b)) => a.body().same(&b.body()) && d.rem == e.rem && b.hdr().same(h.unwrap_or(&a.hdr())),
        _ => true,
    };
    let e = s.decode_split(p, &bs, &Source::Slice);
    if !like(&d, &e, None) { s.tag("split") }
    s.ev(|_| { let mut j = Session::dec_json(p, &[], &Source::Slice, &e); j["op"] = json!("split"); j });
    for k in 0..1 + s.g.r.below(2) {
        let g = if k == 0 { other.clone() } else { header_for(s, p) };
        if bs[p.head.at] != p.ty { break }
        let e = s.decode_wo(p, &g, &bs[p.head.size..]);
        if !like(&d, &e, Some(&g)) { s.tag("given") }
        s.ev(|_| { let mut j = Session::dec_json(p, &[], &Source::Slice, &e); j["op"] = json!("given"); j["g"] = g.json(); j });
    }
}

/// Equal but for text that is no UTF-8.
fn reads_same(s: &Spec, fs: &[Field], a: &Val, want: &Val) -> bool {
    let ff: Vec<&Field> = fs.iter().filter(|f| f.has_value()).collect();
    a.tup().len() == ff.len() && ff.iter().zip(a.tup().iter().zip(want.tup())).all(|(f, (x, y))| match &f.k {
        K::Text(_) => std::str::from_utf8(y.octs()).is_err() || x.same(y),
        K::One => match s.records.get(&f.t) { Some(fs) => reads_same(s, fs, x, y), None => x.same(y) },
        _ => x.same(y),
    })
}
fn reading(s: &mut Session, idx: u64) {
    if idx % 500 == 77 { return vast(s, idx / 500, false) }
    let p = pdu_at(s, idx);
    let bs = arriving(s, p);
    read_it(s, p, &bs);
}
pub fn read_it(s: &mut Session, p: &PduSpec, bs: &[u8]) {
    let d = s.decode_any(p, bs, &Source::Slice);
    let spec = &s.w.spec;
    let good = if bs.len() < p.head.size || bs[p.head.at] != p.ty { d.r != "ok" && d.r != "panic" } else {
        let h = match spec.dec_fields(&p.head.fields, bs, 0) { DecRes::Ok(v, _) => v, DecRes::Short => unreachable!() };
        match spec.dec_fields(&p.fields, bs, p.head.size) {
            DecRes::Short => d.r != "ok" && d.r != "panic",
            DecRes::Ok(v, at) => d.r == "ok" && d.rem == bs.len() - at && d.obj.as_ref().is_some_and(|o| reads_same(spec, &p.head.fields, &o.hdr(), &h) && reads_same(spec, &p.fields, &o.body(), &v)),
        }
    };
    if !good { s.tag(format!("read {}", d.r)) }
    s.ev(|_| { let mut j = Session::dec_json(p, bs, &Source::Slice, &d); j["op"] = json!("read"); j });
}
