//! Making objects: constructors and defaults (C24).
use crate::rt::MadeEntry;
use crate::run::*;
use crate::spec::*;
use crate::val::*;
use bytes::BytesMut;
use open_dis_rust::common::data_types::{grid_axis_descriptor::*, grid_data_record::*};
use open_dis_rust::common::{LiveEntityPduHeader, PduHeader};
use serde_json::json;

/// Headers and the gridded-data records, whose glue is not generated.
pub fn by_hand() -> Vec<MadeEntry> {
    vec![
        MadeEntry { name: "PduHeader", make: Some(|a| PduHeader::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3])).tv()), default: Some(|| PduHeader::default().tv()) },
        MadeEntry { name: "LiveEntityPduHeader", make: Some(|a| LiveEntityPduHeader::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3])).tv()), default: Some(|| LiveEntityPduHeader::default().tv()) },
        MadeEntry { name: "GridAxisDescriptor", make: Some(|a| { let x: GridAxisDescriptor = Bind::fv(&a[0]);
            GridAxisDescriptor::new(x.domain_initial, x.domain_final, x.domain_points, x.interleaf_factor, x.axis_type, x.data).tv() }), default: None },
        MadeEntry { name: "GridDataRecord", make: Some(|a| { let x: GridDataRecord = Bind::fv(&a[0]);
            GridDataRecord::new(x.sample_type, x.data_representation, x.data).tv() }), default: None },
    ]
}

fn fs<'a>(s: &'a Spec, r: &str) -> Vec<&'a Field> { s.records[r].iter().filter(|f| f.has_value()).collect() }
fn field_at<'a>(s: &'a Spec, r: &str, path: &[String]) -> &'a Field {
    let f = *fs(s, r).iter().find(|f| f.n == path[0]).unwrap();
    if path.len() == 1 { f } else { field_at(s, &f.t, &path[1..]) }
}
fn put_at(s: &Spec, r: &str, v: &mut Val, path: &[String], x: &Val) {
    let i = fs(s, r).iter().position(|f| f.n == path[0]).unwrap();
    let Val::T(vs) = v else { unreachable!() };
    if path.len() == 1 { vs[i] = x.clone() } else { let t = fs(s, r)[i].t.clone(); put_at(s, &t, &mut vs[i], &path[1..], x) }
}
pub fn default_fields(s: &Spec, f: &[Field]) -> Val {
    Val::T(f.iter().filter(|f| f.has_value()).map(|f| match &f.k {
        K::One => default_of(s, &f.t),
        K::Wide(w) => Val::O(octets(s.enums[&f.t].d, *w)),
        K::Fixed(n) => Val::O(vec![0; *n]),
        _ => Val::T(vec![]),
    }).collect())
}
pub fn default_of(s: &Spec, t: &str) -> Val {
    if let Some(v) = s.odd.get(t) { return v.clone() }
    if let Some(f) = s.records.get(t) { return default_fields(s, f) }
    if let Some(e) = s.enums.get(t) { return Val::O(octets(e.d, e.w)) }
    Val::O(vec![0; s.prims[t]])
}
fn start_of(s: &Spec, t: &str, tm: &Val) -> Val {
    let o = |x: &[u8]| Val::O(x.to_vec());
    if t.ends_with("PduHeader") { Val::T(vec![o(&[7]), o(&[1]), o(&[0]), o(&[0]), tm.clone(), o(&[0, 0]), o(&[0])]) } else { default_of(s, t) }
}

fn argument(s: &mut Session, f: &Field) -> Val {
    match &f.k {
        K::One => s.g.value(&f.t),
        K::Fixed(n) => { let n = *n; Val::O(s.g.data(n)) }
        K::Text(w) => { let w = *w; Val::O(s.g.text(w)) }
        K::Data(_) => { let n = *s.g.r.pick(&[0usize, 1, 2, 3, 8, 40, 300]); Val::O(s.g.data(n)) }
        K::List(_) => { let n = s.g.r.below(4); Val::T((0..n).map(|_| s.g.value(&f.t)).collect()) }
        k => panic!("harness: an argument of kind {k:?}"),
    }
}

pub fn make(s: &mut Session, idx: u64) {
    for _ in 0..s.g.r.below(3) { bustle(s) }
    if idx % 2 == 0 { record(s, idx / 2) } else { fresh(s, idx / 2) }
}

fn record(s: &mut Session, idx: u64) {
    let e = &s.w.made[(idx % s.w.made.len() as u64) as usize];
    let t = e.name;
    s.name = format!("{} {t}", s.name);
    let spec = &s.w.spec;
    s.g.randomize();
    s.g.budget = 600;
    let grid = t == "GridAxisDescriptor" || t == "GridDataRecord";
    let paths: Vec<Vec<String>> = spec.ctors.get(t).cloned().unwrap_or_default();
    let made = e.make.filter(|_| e.default.is_none() || !s.g.r.chance(1, 10));
    let (how, args) = match made {
        Some(_) if grid => ("whole", vec![s.g.value(t)]),
        Some(_) => ("new", paths.iter().map(|p| if p.is_empty() { Val::T(vec![]) } else { let f = field_at(spec, t, p).clone(); argument(s, &f) }).collect::<Vec<_>>()),
        None => ("default", vec![]),
    };
    let got = guarded(|| match made { Some(m) => m(&args), None => (e.default.unwrap())() }).0;
    let want = match (how, &got) {
        (_, None) => None,
        ("whole", _) => Some(args[0].clone()),
        (_, Some(g)) => {
            let mut v = start_of(spec, t, if t.ends_with("PduHeader") { &g.tup()[4] } else { g });
            if how == "new" { for (p, x) in paths.iter().zip(&args) { if !p.is_empty() { put_at(spec, t, &mut v, p, x) } } }
            Some(v)
        }
    };
    if !got.as_ref().is_some_and(|g| g.same(want.as_ref().unwrap())) { s.tag("made") }
    let r = if got.is_some() { "ok" } else { "panic" };
    s.ev(|_| json!({"op": "made", "t": t, "how": how, "r": r, "args": args.iter().map(Val::json).collect::<Vec<_>>(), "v": got.as_ref().map_or(json!([]), Val::json)}));
}

/// The object is still what it was.
fn still(s: &mut Session) {
    let o = s.obj.as_ref().unwrap();
    let (h, v) = (o.hdr(), o.body());
    if !h.same(&s.h) || !v.same(&s.v) { s.tag("still") }
    s.ev(|_| json!({"op": "still", "h": h.json(), "v": v.json()}));
}

/// Others are made, filled, sent and received meanwhile.
fn bustle(s: &mut Session) {
    let l = &s.w.spec.pdus;
    let q = &l[s.g.r.below(l.len())];
    s.g.randomize();
    s.g.budget = 300;
    let v = Val::T(s.g.fields(&q.fields));
    let h = s.g.header(q);
    let mut bs = s.w.spec.enc_pdu(q, &h, &v);
    bs[2] = q.ty;
    if s.g.r.chance(1, 4) { let k = s.g.r.below(bs.len()); bs.truncate(k) }
    let e = s.w.entry(&q.name);
    let received = s.g.r.below(3);
    guarded(|| {
        if received < 2 { let _ = (e.dec)(&mut &bs[..]); }
        if received == 1 { return }
        let mut o = (e.new)();
        o.set_body(&v);
        o.set_hdr(&h);
        o.fin();
        let mut b = BytesMut::new();
        let _ = o.ser(&mut b);
        let _ = (e.dec)(&mut &b[..]);
    });
}

fn fresh(s: &mut Session, idx: u64) {
    let l = &s.w.spec.pdus;
    let p = &l[(idx % l.len() as u64) as usize];
    s.start(p);
    if s.obj.is_none() { return }
    let mut buf = BytesMut::new();
    for _ in 0..s.g.r.below(3) {
        match s.g.r.below(4) {
            0 => { bustle(s); still(s) }
            1 => s.calc(),
            2 => s.fin(),
            _ => still(s),
        }
    }
    if s.ser(&mut buf, false, false) != "ok" { return }
    crate::sess::dec_last(s, &Source::Slice, &[]);
    if s.g.r.chance(1, 3) { crate::sess::take_decoded(s); still(s) }
}
