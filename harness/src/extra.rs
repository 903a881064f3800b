//! Sessions about the PDU status octet, the clock and the vectors.
use crate::gen_::Rng;
use crate::run::*;
use crate::val::*;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::data_types::vector3_float::Vector3Float as V3;
use open_dis_rust::common::enums as en;
use open_dis_rust::common::pdu_header::PduStatusRecord as Status;
use open_dis_rust::common::{GenericHeader, LiveEntityPduHeader, PduHeader};
use num_traits::FromPrimitive;
use serde_json::{json, Value as J};
use std::cell::RefCell;

// ---- the status octet
type Set = fn(&mut Status, u8);
const SETTERS: [(&str, u8, Set); 10] = [
    ("tei", 2, |s, a| s.set_tei(en::TransferredEntityIndicator::from_u8(a).unwrap())),
    ("lvc", 4, |s, a| s.set_lvc(en::LVCIndicator::from_u8(a).unwrap())),
    ("cei", 2, |s, a| s.set_cei(en::CoupledExtensionIndicator::from_u8(a).unwrap())),
    ("dti", 3, |s, a| s.set_dti(en::DetonationTypeIndicator::from_u8(a).unwrap())),
    ("rai", 3, |s, a| s.set_rai(en::RadioAttachedIndicator::from_u8(a).unwrap())),
    ("iai", 3, |s, a| s.set_iai(en::IntercomAttachedIndicator::from_u8(a).unwrap())),
    ("fti", 2, |s, a| s.set_fti(en::FireTypeIndicator::from_u8(a).unwrap())),
    ("ism", 2, |s, a| s.set_ism(en::PduStatusIFFSimulationMode::from_u8(a).unwrap())),
    ("aii", 2, |s, a| s.set_aii(en::ActiveInterrogationIndicator::from_u8(a).unwrap())),
    ("bit4_5", 4, |s, a| s.set_bit4_5(a)),
];
fn gets(s: &Status) -> Vec<u8> {
    vec![s.tei() as u8, s.lvc() as u8, s.cei() as u8, s.get_dti() as u8, s.get_rai() as u8, s.get_iai() as u8,
         s.get_fti() as u8, s.get_ism() as u8, s.get_aii() as u8, s.bit4_5()]
}
fn plain(i: usize, b: u8) -> u8 {
    let (at, w) = [(0, 1), (1, 2), (3, 1), (4, 2), (4, 2), (4, 2), (4, 1), (4, 1), (5, 1), (4, 2)][i];
    let v = b >> at & ((1 << w) - 1);
    if (3..6).contains(&i) && v == 3 { 0 } else { v }
}

pub fn status(s: &mut Session, idx: u64) {
    if idx < 256 {
        // one octet: what every reader gives, what every setter makes of it, its way through a header
        let b = idx as u8;
        s.name = format!("{} octet", s.name);
        let (o, _) = guarded(|| {
            let st = Status::from_u8(b);
            let sets: Vec<Vec<u8>> = SETTERS.iter().map(|(_, n, f)| (0..*n).map(|a| { let mut x = st; f(&mut x, a); x.to_u8() }).collect()).collect();
            let mut h = PduHeader::default();
            h.status_record = st;
            let mut o = BytesMut::new();
            h.serialize(&mut o);
            let wire = o.to_vec();
            let mut c = &wire[..];
            let back = PduHeader::deserialize(&mut c).status_record.to_u8();
            (st.to_u8(), gets(&st), sets, wire, back, Status::new_zero().to_u8(), Status::default().to_u8())
        });
        let Some((u, g, sets, wire, back, zero, def)) = o else {
            s.tag("status.panic");
            s.ev(|_| json!({"op": "status", "b": b, "r": "panic"}));
            return;
        };
        if u != b || wire[10] != b || back != b || zero != 0 || def != 0 { s.tag("status.octet") }
        for (i, x) in g.iter().enumerate() { if *x != plain(i, b) { s.tag(format!("status.get {}", SETTERS[i].0)) } }
        for (i, rs) in sets.iter().enumerate() {
            for (a, r) in rs.iter().enumerate() { if plain(i, *r) != a as u8 { s.tag(format!("status.set {}", SETTERS[i].0)) } }
        }
        let names: Vec<&str> = SETTERS.iter().map(|x| x.0).collect();
        s.ev(|_| json!({"op": "status", "b": b, "r": "ok", "u": u, "names": names, "gets": g, "sets": sets, "wire": wire, "back": back, "zero": zero, "def": def}));
        return;
    }
    // a sequence of settings, by either way, now and then through the wire
    let mut st = if s.g.r.chance(1, 2) { Status::new_zero() } else { Status::from_u8(s.g.r.octet()) };
    if !bits_ev(s, "start", "", 0, &st) { return }
    for _ in 0..4 + s.g.r.below(12) {
        if s.g.r.chance(1, 8) {
            let mut h = PduHeader::default();
            h.status_record = st;
            let mut o = BytesMut::new();
            h.serialize(&mut o);
            let mut c = &o[..];
            st = PduHeader::deserialize(&mut c).status_record;
            if !bits_ev(s, "wire", "", 0, &st) { return }
            continue;
        }
        let i = s.g.r.below(SETTERS.len());
        let (n, max, f) = SETTERS[i];
        let a = s.g.r.below(max as usize) as u8;
        let with = i < 3 && s.g.r.chance(1, 2);
        let before = st.to_u8();
        let (o, _) = guarded(|| {
            let mut st = st;
            if with {
                st = match i {
                    0 => st.with_tei(en::TransferredEntityIndicator::from_u8(a).unwrap()),
                    1 => st.with_lvc(en::LVCIndicator::from_u8(a).unwrap()),
                    _ => st.with_cei(en::CoupledExtensionIndicator::from_u8(a).unwrap()),
                };
            } else { f(&mut st, a) }
            st
        });
        let Some(new) = o else {
            s.tag("bits.panic");
            s.ev(|_| json!({"op": "bits", "how": "set", "f": n, "a": a, "r": "panic", "b": 0, "gets": []}));
            return;
        };
        st = new;
        let (at, w) = [(0, 1), (1, 2), (3, 1), (4, 2), (4, 2), (4, 2), (4, 1), (4, 1), (5, 1), (4, 2)][i];
        let m = ((1u8 << w) - 1) << at;
        if st.to_u8() != before & !m | a << at { s.tag(format!("bits {n}")) }
        if !bits_ev(s, "set", n, a, &st) { return }
    }
}
fn bits_ev(s: &mut Session, how: &str, f: &str, a: u8, st: &Status) -> bool {
    let (o, _) = guarded(|| (st.to_u8(), gets(st)));
    match o {
        Some((b, g)) => { s.ev(|_| json!({"op": "bits", "how": how, "f": f, "a": a, "r": "ok", "b": b, "gets": g})); true }
        None => { s.tag("bits.panic"); s.ev(|_| json!({"op": "bits", "how": how, "f": f, "a": a, "r": "panic", "b": 0, "gets": []})); false }
    }
}

// ---- the clock
thread_local! {
    /// readings still to hand out (the last one is repeated), and those handed out
    static SCRIPT: RefCell<Option<(Vec<(i64, i64)>, usize)>> = const { RefCell::new(None) };
}
/// Takes the place of the C library's function: what the clock says is up to the session.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        let hit = SCRIPT.try_with(|s| {
            let mut s = s.try_borrow_mut().ok()?;
            let (v, n) = s.as_mut()?;
            let r = v[(*n).min(v.len() - 1)];
            *n += 1;
            Some(r)
        }).ok().flatten();
        if let Some((sec, ns)) = hit {
            unsafe { (*ts).tv_sec = sec; (*ts).tv_nsec = ns; }
            return 0;
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int }
}
fn with_clock<R>(script: Vec<(i64, i64)>, f: impl FnOnce() -> R) -> (R, usize) {
    SCRIPT.with(|s| *s.borrow_mut() = Some((script, 0)));
    let r = f();
    let n = SCRIPT.with(|s| s.borrow_mut().take().unwrap().1);
    (r, n)
}

pub fn clock(s: &mut Session, idx: u64) {
    // an instant: anywhere, or at a boundary
    let r = &mut s.g.r;
    // (from 1970 on, mostly in these years, at times after seconds have outgrown 31 and 32 bits)
    let hour = match r.below(8) { 0 => r.below(3_000_000) as i64, 1 => *r.pick(&[0, 1, 596_522, 596_523, 596_524, 1_193_045, 1_193_046, 1_193_047]), _ => 400_000 + r.below(100_000) as i64 };
    let within: i64 = match idx % 6 {
        0 => *r.pick(&[0i64, 1, 59, 60, 61, 119, 3539, 3540, 3598, 3599]),
        1 => r.below(60) as i64 * 60 + 59,
        2 => 3599,
        3 => r.below(60) as i64 * 60,
        _ => r.below(3600) as i64,
    };
    let ns = match r.below(6) { 0 => 999_999_999, 1 => 999_999_000, 2 => 0, 3 => 1_000, _ => r.below(1_000_000_000) as i64 };
    // the readings of the clock: it moves between them by anything from nothing to a minute
    let mut t = (hour * 3600 + within) as i128 * 1_000_000_000 + ns as i128;
    let step: i128 = *r.pick(&[0i128, 1, 1_000, 1_680, 400_000, 1_000_000, 300_000_000, 1_000_000_000, 59_000_000_000]);
    let mut script = vec![];
    for _ in 0..6 {
        script.push(((t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64));
        t += if step == 0 { 0 } else { step + r.below(1000) as i128 };
    }
    let api = *r.pick(&["pdu", "live", "pdu default", "live default", "pdu new", "live new", "pdu in message"]);
    let (out, _) = guarded(|| with_clock(script.clone(), || match api {
        "pdu" => PduHeader::calculate_dis_timestamp(),
        "live" => LiveEntityPduHeader::calculate_dis_timestamp(),
        "pdu default" => PduHeader::default().timestamp,
        "live default" => LiveEntityPduHeader::default().timestamp,
        "pdu new" => PduHeader::new(en::PduType::Fire, en::ProtocolFamily::Warfare, 1, 12).timestamp,
        "live new" => LiveEntityPduHeader::new(en::PduType::Fire, en::ProtocolFamily::Warfare, 1, 12).timestamp,
        _ => {
            let mut b = BytesMut::new();
            PduHeader::default().serialize(&mut b);
            b.advance(4);
            b.get_u32()
        }
    }));
    let Some((t, n)) = out else {
        SCRIPT.with(|s| *s.borrow_mut() = None);
        s.tag("clock.panic");
        s.ev(|_| json!({"op": "clock", "api": api, "r": "panic"}));
        return;
    };
    let served: Vec<(i64, i64)> = script[..n.clamp(1, script.len())].to_vec();
    let e = |x: &(i64, i64)| (x.0 % 3600 * 1_000_000 + x.1 / 1000) * 25 / 42;
    let (lo, hi) = (e(&served[0]), e(served.last().unwrap()));
    let tol = |x: i64| 1 + x / 5_000_000;
    let (h0, h1) = (served[0].0 / 3600, served.last().unwrap().0 / 3600);
    let tt = i64::from(t);
    let ok = if h0 == h1 { tt >= lo - tol(lo) && tt <= hi + tol(hi) } else { tt >= lo - tol(lo) || tt <= hi + tol(hi) };
    if !ok { s.tag("clock") }
    s.ev(|_| json!({"op": "clock", "api": api, "r": "ok", "n": n, "same_hour": h0 == h1,
                    "served": served.iter().map(|x| json!([x.0 % 3600, x.1 / 1000])).collect::<Vec<_>>(), "t": octets(u64::from(t), 4)}));
}

// ---- vectors
fn ints(v: &[f32]) -> J {
    if v.iter().all(|x| x.is_finite() && x.fract() == 0.0 && x.abs() < 1e9) { json!({"e": true, "v": v.iter().map(|x| *x as i64).collect::<Vec<_>>()}) }
    else { json!({"e": false, "v": []}) }
}
fn v3(a: [i64; 3], k: i32) -> V3 { let m = 2f32.powi(k); V3::new(a[0] as f32 * m, a[1] as f32 * m, a[2] as f32 * m) }
fn arr(v: V3, k: i32) -> [f32; 3] { let m = 2f32.powi(-k); [v.x * m, v.y * m, v.z * m] }
fn pick3(r: &mut Rng, max: i64) -> [i64; 3] {
    std::array::from_fn(|_| match r.below(4) { 0 => r.below(5) as i64 - 2, 1 => *r.pick(&[0, max, -max]), _ => r.below(2 * max as usize + 1) as i64 - max })
}
pub fn vectors(s: &mut Session, idx: u64) {
    let small = |n: u64| [(n % 3) as i64 - 1, (n / 3 % 3) as i64 - 1, (n / 9 % 3) as i64 - 1];
    let exhaustive = idx < 729;
    let (a, b) = if exhaustive { (small(idx % 27), small(idx / 27)) } else { (pick3(&mut s.g.r, 1000), pick3(&mut s.g.r, 1000)) };
    let (ka, kb) = if exhaustive || s.g.r.chance(1, 2) { (0, 0) } else { (s.g.r.below(101) as i32 - 50, s.g.r.below(101) as i32 - 50) };
    let c = if exhaustive { *s.g.r.pick(&[-2i64, -1, 0, 1, 2, 3]) } else { s.g.r.below(2001) as i64 - 1000 };
    // the number a vector is multiplied with, or divided by, may be a fraction
    let kc = if exhaustive || s.g.r.chance(1, 2) { 0 } else { s.g.r.below(61) as i32 - 30 };
    let (x, y) = (v3(a, ka), v3(b, kb));
    // components of sizes of their own, for what is done to each by itself
    let e: [i32; 3] = if exhaustive || s.g.r.chance(1, 2) { [ka; 3] } else { std::array::from_fn(|_| s.g.r.below(101) as i32 - 50) };
    let own = |v: [i64; 3]| { let c = |i: usize| v[i] as f32 * 2f32.powi(e[i]); V3::new(c(0), c(1), c(2)) };
    let back = |v: V3, k: i32| { let m = |i: usize| 2f32.powi(-e[i] - k); [v.x * m(0), v.y * m(1), v.z * m(2)] };
    let (o, _) = guarded(|| {
        let (x1, y1) = (own(a), own(b));
        let by = c as f32 * 2f32.powi(kc);
        let mul = back(x1 * by, kc);
        let div = if c != 0 { Some(back((x1 * c as f32) / by, -kc)) } else { None };
        (back(x1 + y1, 0), back(x1 - y1, 0), mul, div, x.dot(&y) * 2f32.powi(-ka - kb), arr(x.cross(&y), ka + kb))
    });
    let Some((add, sub, mul, div, dot, cross)) = o else {
        s.tag("vec.panic");
        s.ev(|_| json!({"op": "vec", "r": "panic"}));
        return;
    };
    let f = |v: [i64; 3]| v.map(|x| x as f32);
    if add != f([a[0] + b[0], a[1] + b[1], a[2] + b[2]]) { s.tag("vec.add") }
    if sub != f([a[0] - b[0], a[1] - b[1], a[2] - b[2]]) { s.tag("vec.sub") }
    if mul != f([a[0] * c, a[1] * c, a[2] * c]) { s.tag("vec.mul") }
    if div.is_some_and(|d| d != f(a)) { s.tag("vec.div") }
    if dot != (a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) as f32 { s.tag("vec.dot") }
    if cross != f([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]) { s.tag("vec.cross") }
    s.ev(|_| json!({"op": "vec", "r": "ok", "a": a, "b": b, "c": c, "ka": ka, "kb": kb, "kc": kc, "own": e, "add": ints(&add), "sub": ints(&sub), "mul": ints(&mul),
                    "div": div.map_or(json!([]), |d| json!([ints(&d)])), "dot": ints(&[dot]), "cross": ints(&cross)}));
    // magnitude and direction
    let m = if exhaustive { a } else { match s.g.r.below(3) {
        // a quadruple whose magnitude is a whole number
        0 => {
            let p: [i64; 4] = std::array::from_fn(|_| s.g.r.below(13) as i64);
            let [m, n, p, q] = p;
            [m * m + n * n - p * p - q * q, 2 * (m * q + n * p), 2 * (n * q - m * p)]
        }
        1 => { let i = s.g.r.below(3); let mut v = [0; 3]; v[i] = s.g.r.below(601) as i64 - 300; v }
        _ => pick3(&mut s.g.r, 300),
    } };
    let neg_zero = s.g.r.chance(1, 4);
    // short and long vectors too, as far as squares can be told apart
    let km = match s.g.r.below(4) {
        0 | 1 => 0,
        2 if m.iter().all(|x| x.abs() <= 1) => s.g.r.below(127) as i32 - 63,
        _ => s.g.r.below(105) as i32 - 50,
    };
    let mut w = v3(m, km);
    if neg_zero { if m[0] == 0 { w.x = -0.0 } if m[2] == 0 { w.z = -0.0 } }
    let (o, _) = guarded(|| (w.magnitude() * 2f32.powi(-km), w.normalize()));
    let Some((mag, norm)) = o else {
        s.tag("vec.panic");
        s.ev(|_| json!({"op": "mag", "r": "panic"}));
        return;
    };
    let sq = (m[0] * m[0] + m[1] * m[1] + m[2] * m[2]) as f64;
    if (f64::from(mag) - sq.sqrt()).abs() > 1e-3 || norm.is_none() != (sq == 0.0) { s.tag("mag") }
    if let Some(n) = &norm {
        for (g, w) in [n.x, n.y, n.z].iter().zip(m) { if (f64::from(*g) - w as f64 / sq.sqrt()).abs() > 1e-5 { s.tag("norm") } }
    }
    let whole = mag.is_finite() && mag.fract() == 0.0 && mag.abs() < 1e6;
    let m64 = if mag.is_finite() && mag.abs() < 1e6 { (f64::from(mag) * 64.0).floor() as i64 } else { -1 };
    let q: Vec<i64> = norm.map_or(vec![], |n| [n.x, n.y, n.z].iter().map(|x| if x.is_finite() && x.abs() < 100.0 { (f64::from(*x) * 1_048_576.0).round() as i64 } else { 2_000_000 }).collect());
    s.ev(|_| json!({"op": "mag", "r": "ok", "a": m, "k": km, "whole": whole, "m": if whole { mag as i64 } else { 0 }, "m64": m64, "unit": q}));
    // one component that is no number, or none of the others: it stays where it is
    let i = s.g.r.below(3);
    let odd = *s.g.r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, 1e-45]);
    let (x, y) = { let (mut x, mut y) = (v3(a, 0), v3(b, 0)); let put = |v: &mut V3| *[&mut v.x, &mut v.y, &mut v.z][i] = odd; match s.g.r.below(3) { 0 => put(&mut x), 1 => put(&mut y), _ => { put(&mut x); put(&mut y) } } (x, y) };
    let (o, _) = guarded(|| {
        let rest = |v: V3| { let v = arr(v, 0); [v[(i + 1) % 3], v[(i + 2) % 3]] };
        (rest(x + y), rest(x - y), rest(x * c as f32), if c != 0 { Some(rest((x * c as f32) / c as f32)) } else { None }, arr(x.cross(&y), 0)[i])
    });
    let Some((add, sub, mul, div, cross)) = o else {
        s.tag("vec.panic");
        s.ev(|_| json!({"op": "vecodd", "r": "panic"}));
        return;
    };
    let [j, k] = [(i + 1) % 3, (i + 2) % 3];
    let g = |u: i64, v: i64| [u as f32, v as f32];
    if add != g(a[j] + b[j], a[k] + b[k]) || sub != g(a[j] - b[j], a[k] - b[k]) || mul != g(a[j] * c, a[k] * c) || div.is_some_and(|d| d != g(a[j], a[k])) || cross != (a[j] * b[k] - a[k] * b[j]) as f32 { s.tag("vecodd") }
    s.ev(|_| json!({"op": "vecodd", "r": "ok", "a": a, "b": b, "c": c, "i": i + 1, "odd": format!("{odd:?}"), "add": ints(&add), "sub": ints(&sub), "mul": ints(&mul),
                    "div": div.map_or(json!([]), |d| json!([ints(&d)])), "cross": ints(&[cross])}));
    if idx % 50 == 0 {
        let l = [V3::zero(), V3::one(), V3::unit_x(), V3::unit_y(), V3::unit_z(), V3::default()].map(|v| ints(&arr(v, 0)));
        s.ev(|_| json!({"op": "vconst", "v": l}));
    }
}
