//! Running operations of the library and recording what they did.
use crate::gen_::*;
use crate::rt::*;
use crate::spec::*;
use crate::val::*;
use bytes::{Buf, Bytes, BytesMut};
use open_dis_rust::common::DISError;
use serde_json::{json, Value as J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

// ---- allocation accounting
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
}
pub struct Counting;
const LIMIT: i64 = 3 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
fn grow(n: i64) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        if n > 0 { let _ = TOTAL.try_with(|t| t.set(t.get() + n)); }
        if v > LIMIT { unsafe { libc::abort() } }
    });
}

// ---- what each thread is doing, for the watchdog and the abort handler
pub const SLOTS: usize = 64;
/// from here on, four for each of the others: threads of their own
pub const LANE_SLOTS: usize = 16;
/// session number + 1 (0: idle), and the second the session's current operation started in
pub static CUR: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
pub static SINCE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
pub static mut STUCK_FD: i32 = -1;
pub fn set_slot(i: usize) { SLOT.with(|s| s.set(i)) }
pub fn slot() -> usize { SLOT.with(|s| s.get()) }
pub fn now_s() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64
}
fn cpu_us() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
}
pub fn note_stuck(n: u64) {
    let mut buf = [b' '; 24];
    let mut i = 23;
    buf[23] = b'\n';
    let mut n = n;
    loop { i -= 1; buf[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break } }
    unsafe { libc::write(STUCK_FD, buf[i..].as_ptr().cast(), 24 - i); }
}
pub extern "C" fn on_abort(_: i32) {
    let s = SLOT.try_with(|s| s.get()).unwrap_or(0);
    note_stuck(CUR[s].load(Ordering::Relaxed));
    unsafe { libc::_exit(99) }
}

#[derive(Clone, Copy, Default)]
pub struct Cost { pub peak: u64, pub total: u64, pub us: u64 }

/// Run f; None if it panicked.
pub fn guarded<R>(f: impl FnOnce() -> R) -> (Option<R>, Cost) {
    let slot = SLOT.with(|s| s.get());
    SINCE[slot].store(now_s(), Ordering::Relaxed);
    let live = LIVE.with(|c| c.get());
    PEAK.with(|p| p.set(live));
    let total = TOTAL.with(|t| t.get());
    let t0 = cpu_us();
    let r = catch_unwind(AssertUnwindSafe(f));
    let us = cpu_us() - t0;
    let peak = (PEAK.with(|p| p.get()) - live).max(0) as u64;
    let total = (TOTAL.with(|t| t.get()) - total).max(0) as u64;
    SINCE[slot].store(u64::MAX, Ordering::Relaxed);
    (r.ok(), Cost { peak, total, us })
}

pub fn kind(e: &DISError) -> &'static str {
    match e {
        DISError::BufferUnderflow { .. } => "short",
        DISError::InvalidHeader { .. } => "type",
        DISError::PduSizeExceeded { .. } => "size",
        _ => "err",
    }
}

// ---- buffers
/// A buffer in several pieces that never hands out more than one piece at a time, and panics when
/// asked for more than it has (as the Buf contract allows).
pub struct Pieces { pub parts: Vec<Vec<u8>>, pub part: usize, pub pos: usize }
impl Pieces {
    pub fn new(bs: &[u8], cuts: &[usize]) -> Pieces {
        let mut parts = vec![];
        let mut from = 0;
        for c in cuts { if *c > from && *c < bs.len() { parts.push(bs[from..*c].to_vec()); from = *c; } }
        if from < bs.len() { parts.push(bs[from..].to_vec()); }
        Pieces { parts, part: 0, pos: 0 }
    }
}
impl Buf for Pieces {
    fn remaining(&self) -> usize { self.parts[self.part.min(self.parts.len())..].iter().map(Vec::len).sum::<usize>() - self.pos }
    fn chunk(&self) -> &[u8] { if self.part < self.parts.len() { &self.parts[self.part][self.pos..] } else { &[] } }
    fn advance(&mut self, mut n: usize) {
        assert!(n <= self.remaining(), "advanced past the end");
        while n > 0 {
            let k = n.min(self.parts[self.part].len() - self.pos);
            self.pos += k;
            n -= k;
            if self.pos == self.parts[self.part].len() { self.part += 1; self.pos = 0; }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Source { Slice, Bytes, Mut, Cursor, Chain(usize), Pieces(Vec<usize>), Take }
impl Source {
    pub fn name(&self) -> String {
        match self {
            Source::Slice => "slice".into(), Source::Bytes => "bytes".into(), Source::Mut => "bytesmut".into(),
            Source::Cursor => "cursor".into(), Source::Chain(n) => format!("chain {n}"), Source::Take => "take".into(),
            Source::Pieces(c) => format!("pieces {c:?}"),
        }
    }
    /// Run f on the octets and tell how many it left unread.
    pub fn with<R>(&self, bs: &[u8], f: impl FnOnce(&mut dyn Buf) -> R) -> (R, usize) {
        match self {
            Source::Slice => { let mut b: &[u8] = bs; let r = f(&mut b); (r, b.len()) }
            Source::Bytes => { let mut b = Bytes::copy_from_slice(bs); let r = f(&mut b); (r, b.len()) }
            Source::Mut => { let mut b = BytesMut::from(bs); let r = f(&mut b); (r, b.len()) }
            Source::Cursor => { let mut b = std::io::Cursor::new(bs.to_vec()); let r = f(&mut b); (r, Buf::remaining(&b)) }
            Source::Chain(n) => { let n = (*n).min(bs.len()); let mut b = bs[..n].chain(&bs[n..]); let r = f(&mut b); (r, b.remaining()) }
            Source::Take => {
                // more octets behind the limit
                let mut long = bs.to_vec(); long.extend([0xEE; 32]);
                let mut b = long.as_slice().take(bs.len()); let r = f(&mut b); (r, b.remaining())
            }
            Source::Pieces(c) => { let mut b = Pieces::new(bs, c); let r = f(&mut b); (r, b.remaining()) }
        }
    }
}

// ---- a session
/// Thrown to end a session early.
pub struct Abandon;
pub struct World { pub spec: Spec, pub pdus: Vec<PduEntry>, pub recs: Vec<RecEntry>, pub enums: Vec<EnumEntry>, pub made: Vec<MadeEntry> }
impl World {
    pub fn entry(&self, n: &str) -> &PduEntry { self.pdus.iter().find(|p| p.name == n).unwrap() }
}

pub struct Dec { pub r: &'static str, pub obj: Option<Box<dyn Obj>>, pub rem: usize, pub cost: Cost }

pub struct Session<'a> {
    pub w: &'a World,
    pub g: Gen<'a>,
    pub rec: bool,
    pub thorough: bool,
    /// about PDUs defined outside the library
    pub users: bool,
    /// about PDUs that carry headers of their own
    pub own: bool,
    /// what new objects are matters
    pub fresh: bool,
    pub evs: Vec<J>,
    pub tags: Vec<String>,
    pub name: String,
    pub ops: u64,
    pub inflight: Option<String>,
    // what the specification says the state is
    pub p: Option<&'a PduSpec>,
    pub h: Val,
    pub v: Val,
    pub obj: Option<Box<dyn Obj>>,
    pub last: Vec<u8>,
    /// octets at the front of the buffer that are not written down
    pub deep: usize,
}

impl<'a> Session<'a> {
    pub fn new(w: &'a World, g: Gen<'a>, name: String) -> Self {
        Session { w, g, rec: false, thorough: false, users: false, own: false, fresh: false, evs: vec![], tags: vec![], name, ops: 0,
            inflight: None, p: None, h: Val::T(vec![]), v: Val::T(vec![]), obj: None, last: vec![], deep: 0 }
    }
    pub fn ev(&mut self, f: impl FnOnce(&Self) -> J) {
        self.ops += 1;
        if self.rec { let j = f(self); self.evs.push(j); self.before(|| json!({"op": "lost", "r": "lost"})) }
    }
    pub fn tag(&mut self, t: impl Into<String>) { let t = t.into(); if !self.tags.contains(&t) { self.tags.push(t) } }
    /// Before an operation that might not come back, leave its record where the driver finds it.
    pub fn before(&mut self, f: impl FnOnce() -> J) {
        if let (true, Some(path)) = (self.rec, &self.inflight) {
            let mut evs = self.evs.clone();
            evs.push(f());
            static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
            let _one = ONE.lock();
            let _ = std::fs::write(path, json!({"id": self.name, "evs": evs}).to_string());
        }
    }

    pub fn start(&mut self, p: &'a PduSpec) {
        self.p = Some(p);
        let e = self.w.entry(&p.name);
        let how = if self.g.r.chance(1, 2) { "new" } else { "default" };
        let (o, _) = guarded(|| if how == "new" { (e.new)() } else { (e.default)() });
        let Some(o) = o else { self.tag("new.panic"); self.ev(|_| json!({"op": "obj", "t": p.name, "r": "panic", "h": [], "v": []})); return };
        self.h = o.hdr();
        self.v = o.body();
        let any = o.any();
        self.obj = Some(o);
        if self.fresh {
            let spec = &self.w.spec;
            let v = crate::make::default_fields(spec, &p.fields);
            let h = self.h.tup();
            let id = |x: u8| Val::O(vec![x]);
            let n = p.head.size + spec.enc_body(p, &v).len();
            let start = if p.head.usual() { Val::T(vec![id(7), id(1), id(0), id(0), h[4].clone(), Val::O(vec![0, 0]), id(0)]) } else { crate::make::default_fields(spec, &p.head.fields) };
            let start = if how == "new" { spec.stamp(p, &start, n) } else { start };
            let good = self.v.same(&v) && any && self.h.same(&start);
            if !good { self.tag("fresh") }
        }
        self.ev(|s| json!({"op": "obj", "t": p.name, "how": how, "r": "ok", "h": s.h.json(), "v": s.v.json(), "any": any}));
    }
    /// The object did not take the value (its enumerators or optional blocks are made by the
    /// library): say so and end the session.
    fn check_bound(&mut self, r: Option<()>, want: &Val) {
        let p = self.p.unwrap();
        let got = guarded(|| self.obj.as_ref().unwrap().body()).0;
        if r.is_some() && got.as_ref().is_some_and(|g| g.same(want)) { return }
        self.tag("bound");
        let got = got.filter(|_| r.is_some());
        self.ev(|_| json!({"op": "bound", "t": p.name, "want": want.json(), "got": got.map_or(json!([]), |g| g.json())}));
        std::panic::panic_any(Abandon)
    }
    pub fn set_body(&mut self, v: Val) {
        let o = self.obj.as_mut().unwrap();
        let (r, _) = guarded(|| o.set_body(&v));
        self.check_bound(r, &v);
        self.v = v;
        self.ev(|s| json!({"op": "body", "v": s.v.json()}));
    }
    /// A body too large to send (where the type has something that can repeat): v with one list
    /// or data field made of many copies of the same.
    pub fn set_big(&mut self, v: Val) {
        let p = self.p.unwrap();
        let spec = &self.w.spec;
        let fs: Vec<&Field> = p.fields.iter().filter(|f| f.has_value()).collect();
        let can: Vec<usize> = (0..fs.len()).filter(|i| matches!(fs[*i].k, K::List(_) | K::Data(_))).collect();
        if can.is_empty() { return self.set_body(v) }
        let i = *self.g.r.pick(&can);
        let data = matches!(fs[i].k, K::Data(_));
        let mut vs = v.tup().to_vec();
        self.g.budget = 60;
        let elem = if data { Val::O(vec![self.g.r.octet()]) } else { self.g.value(&fs[i].t) };
        let mut eo = vec![];
        if data { eo.push(0) } else { spec.enc_type(&fs[i].t, &elem, &mut eo) }
        vs[i] = Val::T(vec![]);
        let base = p.head.size + spec.enc_body(p, &Val::T(vs.clone())).len();
        let n = (8192usize.saturating_sub(base)) / eo.len() + 1 + self.g.r.below(3);
        let many = if data { Val::O(vec![elem.octs()[0]; n]) } else { Val::T(vec![elem.clone(); n]) };
        let short = Val::T(vs.clone());
        vs[i] = many;
        let want = Val::T(vs);
        let o = self.obj.as_mut().unwrap();
        let (r, _) = guarded(|| o.set_body(&want));
        self.check_bound(r, &want);
        self.v = want;
        let et = fs[i].t.clone();
        self.ev(|_| json!({"op": "bigbody", "v": short.json(), "i": i + 1, "data": data, "et": et, "elem": elem.json(), "n": n}));
    }
    pub fn set_field(&mut self, i: usize, v: Val) {
        let o = self.obj.as_mut().unwrap();
        let (r, _) = guarded(|| o.set_field(i, &v));
        let mut vs = self.v.tup().to_vec();
        vs[i] = v;
        let want = Val::T(vs);
        self.check_bound(r, &want);
        self.v = want;
        self.ev(|s| json!({"op": "field", "i": i + 1, "v": s.v.tup()[i].json()}));
    }
    /// What the object's header answers when asked for type, family and length
    /// (a header of somebody else's need not have them).
    pub fn answers(&self) -> Val {
        if self.p.unwrap().head.usual() { self.obj.as_ref().unwrap().acc() } else { Val::T(vec![]) }
    }
    pub fn answered(&self, acc: &Val, h: &Val) -> bool {
        acc.tup().is_empty() || acc.same(&Val::T([2, 3, 5].iter().map(|i| h.tup()[*i].clone()).collect()))
    }
    pub fn set_header_field(&mut self, i: usize, v: Val, via: usize) {
        let o = self.obj.as_mut().unwrap();
        let r = guarded(|| o.put_hdr(i, &v, via)).0;
        if r.is_none() { self.tag("bound"); self.ev(|_| json!({"op": "bound", "t": "PduHeader", "want": [], "got": []})); std::panic::panic_any(Abandon) }
        let mut hs = self.h.tup().to_vec();
        hs[i] = v;
        self.h = Val::T(hs);
        let seen = self.obj.as_ref().unwrap().hdr();
        let acc = self.answers();
        if !seen.same(&self.h) || !self.answered(&acc, &seen) { self.tag("hset") }
        self.ev(|s| json!({"op": "hset", "i": i + 1, "v": s.h.tup()[i].json(), "h": seen.json(), "acc": acc.json()}));
    }
    pub fn set_header(&mut self, h: Val) {
        let o = self.obj.as_mut().unwrap();
        if guarded(|| o.set_hdr(&h)).0.is_none() {
            self.tag("bound");
            self.ev(|_| json!({"op": "bound", "t": "PduHeader", "want": [], "got": []}));
            std::panic::panic_any(Abandon)
        }
        self.h = h;
        let seen = self.obj.as_ref().unwrap().hdr();
        let acc = self.answers();
        if !self.answered(&acc, &seen) { self.tag("hdr") }
        self.ev(|s| json!({"op": "hdr", "h": s.h.json(), "seen": seen.json(), "acc": acc.json()}));
    }
    fn spec_size(&self) -> usize {
        let p = self.p.unwrap();
        p.head.size + self.w.spec.enc_body(p, &self.v).len()
    }
    pub fn calc(&mut self) {
        let size = self.spec_size();
        let o = self.obj.as_ref().unwrap();
        let (r, _) = guarded(|| o.calc());
        let (r, n) = match &r { None => ("panic", 0), Some(Ok(n)) => ("ok", *n), Some(Err(e)) => (kind(e), 0) };
        let good = if size <= 8192 { r == "ok" && usize::from(n) == size } else { r == "size" };
        if !good { self.tag("calc") }
        self.ev(|_| json!({"op": "calc", "r": r, "n": octets(u64::from(n), 2)}));
    }
    pub fn fin(&mut self) {
        let size = self.spec_size();
        let o = self.obj.as_mut().unwrap();
        let (r, _) = guarded(|| o.fin());
        let seen = o.hdr();
        let mut hs = self.h.tup().to_vec();
        hs[self.p.unwrap().head.len] = Val::O(octets(if size <= 8192 { size as u64 } else { 0 }, 2));
        self.h = Val::T(hs);
        let acc = self.answers();
        if r.is_none() || !seen.same(&self.h) || !self.answered(&acc, &seen) { self.tag("fin") }
        let r = if r.is_some() { "ok" } else { "panic" };
        self.ev(|_| json!({"op": "fin", "r": r, "h": seen.json(), "acc": acc.json()}));
        self.h = seen;
    }
    /// Serialize behind what `buf` already holds.
    pub fn ser(&mut self, buf: &mut BytesMut, with_body: bool, with_pre: bool) -> &'static str {
        let p = self.p.unwrap();
        let s = &self.w.spec;
        let all = buf.to_vec();
        let want_v = s.derive(p, &self.v);
        let want = s.enc_pdu(p, &self.h, &self.v);
        let big = want.len() > 8192;
        let o = self.obj.as_mut().unwrap();
        let (r, _) = guarded(|| o.ser(buf));
        let r = match &r { None => "panic", Some(Ok(())) => "ok", Some(Err(e)) => kind(e) };
        let post = buf.to_vec();
        let kept = post.len() >= all.len() && post[..all.len()] == all[..];
        let out = if kept { post[all.len()..].to_vec() } else { post.clone() };
        // what lies deep in the buffer is compared here and not written down
        let deep = self.deep.min(all.len());
        let (pre, post) = (all[deep..].to_vec(), if kept { post[deep..].to_vec() } else if deep > 0 { post[post.len().saturating_sub(60)..].to_vec() } else { post });
        let out = if !kept && deep > 0 { vec![] } else { out };
        let o = self.obj.as_ref().unwrap();
        let (h2, v2) = (o.hdr(), o.body());
        let acc = self.answers();
        if !self.answered(&acc, &h2) { self.tag("ser.acc") }
        if !kept { self.tag("ser.kept") }
        if big {
            if r != "size" || !out.is_empty() { self.tag("ser.big") }
        } else if r != "ok" { self.tag("ser.r") } else {
            if out.len() != want.len() { self.tag("ser.len") }
            let n = p.head.size;
            if out.len() >= n && p.head.usual() {
                if out[..8] != want[..8] || out[10..12] != want[10..12] { self.tag("ser.hdr") }
                if out[8..10] != want[8..10] { self.tag("ser.declared") }
            } else if out.len() >= n && out[..n] != want[..n] { self.tag("ser.hdr") }
            if out.len() >= n && out[n..] != want[n..] { self.tag("ser.body") }
            if !h2.same(&s.stamp(p, &self.h, want.len())) { self.tag("ser.h2") }
            if !v2.same(&want_v) { self.tag("ser.v2") }
        }
        self.ev(|_| {
            let mut j = json!({"op": "ser", "r": r, "kept": kept, "out": out, "h": h2.json(), "acc": acc.json()});
            if with_body { j["v"] = v2.json() }
            if with_pre { j["pre"] = json!(pre); j["post"] = json!(post) }
            j
        });
        if r == "ok" { self.h = s.stamp(p, &self.h, want.len()) } else { self.h = h2 }
        self.v = want_v;
        if r == "ok" { self.last = out }
        r
    }
    pub fn decode(&mut self, p: &PduSpec, bs: &[u8], src: &Source) -> Dec {
        let e = self.w.entry(&p.name);
        self.before(|| json!({"op": "dec", "t": p.name, "src": src.name(), "bs": bs, "r": "lost", "h": [], "v": [], "rem": 0, "peak": 0, "total": 0, "ms": 0}));
        let mut res: Option<Result<Box<dyn Obj>, DISError>> = None;
        let (x, cost) = guarded(|| src.with(bs, |mut b| { res = Some((e.dec)(&mut b)); }).1);
        let rem = x.unwrap_or(0);
        let (r, obj) = match (x, res) {
            (None, _) | (_, None) => ("panic", None),
            (_, Some(Ok(o))) => ("ok", Some(o)),
            (_, Some(Err(e))) => (kind(&e), None),
        };
        Dec { r, obj, rem, cost }
    }
    pub fn decode_wo(&mut self, p: &PduSpec, h: &Val, bs: &[u8]) -> Dec {
        let e = self.w.entry(&p.name);
        if !(e.hdrok)(h) { std::panic::panic_any(Abandon) }
        let mut res: Option<Result<Box<dyn Obj>, DISError>> = None;
        let (x, cost) = guarded(|| Source::Slice.with(bs, |mut b| { res = Some((e.decwo)(&mut b, h)); }).1);
        let rem = x.unwrap_or(0);
        let (r, obj) = match (x, res) {
            (None, _) | (_, None) => ("panic", None),
            (_, Some(Ok(o))) => ("ok", Some(o)),
            (_, Some(Err(e))) => (kind(&e), None),
        };
        Dec { r, obj, rem, cost }
    }
    /// Read the header first, then the body with it.
    pub fn decode_split(&mut self, p: &PduSpec, bs: &[u8], src: &Source) -> Dec {
        if bs.len() < p.head.size { return self.decode(p, bs, src) }
        let e = self.w.entry(&p.name);
        self.before(|| json!({"op": "dec", "t": p.name, "src": src.name(), "bs": bs, "r": "lost", "h": [], "v": [], "rem": 0, "peak": 0, "total": 0, "ms": 0}));
        let mut res: Option<Result<Box<dyn Obj>, DISError>> = None;
        let (x, cost) = guarded(|| src.with(bs, |mut b| { res = Some((e.split)(&mut b)); }).1);
        let rem = x.unwrap_or(0);
        let (r, obj) = match (x, res) {
            (None, _) | (_, None) => ("panic", None),
            (_, Some(Ok(o))) => ("ok", Some(o)),
            (_, Some(Err(e))) => (kind(&e), None),
        };
        Dec { r, obj, rem, cost }
    }
    /// By either way.
    pub fn decode_any(&mut self, p: &PduSpec, bs: &[u8], src: &Source) -> Dec {
        if self.g.r.chance(1, 4) { self.decode_split(p, bs, src) } else { self.decode(p, bs, src) }
    }
    pub fn dec_json(p: &PduSpec, bs: &[u8], src: &Source, d: &Dec) -> J {
        let (h, v) = match &d.obj { Some(o) => (o.hdr().json(), o.body().json()), None => (json!([]), json!([])) };
        json!({"op": "dec", "t": p.name, "src": src.name(), "bs": bs, "r": d.r, "h": h, "v": v, "rem": d.rem,
               "peak": d.cost.peak, "total": d.cost.total, "ms": d.cost.us / 1000})
    }
}
