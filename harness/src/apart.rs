//! Several objects at once, in one thread or in several: each has to fare as if it were alone (C29).
use crate::gen_::*;
use crate::run::*;
use crate::sess::*;
use crate::spec::*;
use crate::val::*;
use bytes::BytesMut;
use serde_json::{json, Value as J};
use std::sync::atomic::Ordering;
use std::sync::Barrier;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Object, Reading, Records, Small }
/// What one of those taking part does.
#[derive(Clone, Copy)]
struct Plan {
    seed: u64,
    /// with one seed, those of one family begin alike ...
    family: u64,
    /// ... until this makes the difference
    twist: u64,
    kind: Kind,
    ty: usize,
    steps: usize,
    threads: bool,
}
struct Lane<'a> { s: Session<'a>, plan: Plan, p: &'a PduSpec, buf: BytesMut, left: usize, honest: bool, done: bool }
pub struct Told { pub lane: usize, pub name: String, pub tags: Vec<String>, pub ops: u64, pub evs: Vec<J> }

fn open<'a>(w: &'a World, plan: Plan, name: &str, k: usize, rec: bool, thorough: bool, inflight: Option<String>) -> Lane<'a> {
    let g = Gen::new(&w.spec, Rng::new(plan.seed, plan.family));
    let p = &w.spec.pdus[plan.ty];
    let mut s = Session::new(w, g, format!("{name} lane {k} {} of {:?} {}", if plan.threads { "thread" } else { "turn" }, plan.kind, p.name));
    s.rec = rec;
    s.thorough = thorough;
    s.fresh = true;
    s.inflight = inflight;
    Lane { s, plan, p, buf: BytesMut::new(), left: plan.steps, honest: false, done: false }
}

impl Lane<'_> {
    fn step(&mut self) {
        self.left -= 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.turn()));
        if let Err(e) = r {
            // what was seen of a session in which the library went astray is judged
            if !e.is::<Abandon>() && self.s.tags.is_empty() { std::panic::resume_unwind(e) }
            self.done = true;
        }
        if self.left == 0 || !self.s.tags.is_empty() { self.done = true }
    }
    fn turn(&mut self) {
        let s = &mut self.s;
        let p = self.p;
        match self.plan.kind {
            Kind::Object => {
                // a twin's life is the same up to now
                if self.plan.twist != 0 && self.left as u64 == self.plan.twist % 7 { self.s.g.r = Rng::new(self.plan.twist, 1) }
                self.life()
            }
            Kind::Reading => {
                let mut bs = arriving(s, p);
                // a twin's message is all but the same
                if self.plan.twist != 0 {
                    let mut r = Rng::new(self.plan.twist, self.left as u64);
                    for _ in 0..1 + r.below(2) {
                        let i = if bs.len() > p.head.size && r.chance(7, 8) { p.head.size + r.below(bs.len() - p.head.size) } else { r.below(bs.len().max(1)) };
                        if let Some(x) = bs.get_mut(i) { *x = if r.chance(1, 2) { x.wrapping_add(1) } else { r.octet() } }
                    }
                }
                read_it(s, p, &bs);
                if self.plan.threads && s.tags.is_empty() { self.reads(&bs, 40) }
            }
            Kind::Records => { let i = s.g.r.next() >> 8; record(s, i, None) }
            Kind::Small => {
                let i = 256 + (s.g.r.next() >> 16);
                if s.g.r.chance(1, 2) { crate::extra::status(s, i) } else { crate::extra::vectors(s, i) }
            }
        }
    }
    fn life(&mut self) {
        let p = self.p;
        if self.s.obj.is_none() || self.s.g.r.chance(1, 14) {
            let e = self.s.w.entry(&p.name);
            let (send, sync) = (e.send, e.sync);
            if self.s.obj.is_none() {
                if !send || !sync { self.s.tag("auto") }
                self.s.ev(|_| json!({"op": "auto", "t": p.name, "send": send, "sync": sync}));
            }
            self.s.last.clear();
            self.s.start(p);
            self.honest = true;
            if self.s.obj.is_none() { self.done = true }
            return;
        }
        let s = &mut self.s;
        match s.g.r.below(16) {
            0..=2 => { self.honest = s.g.r.chance(4, 5); let v = body(s, p, !self.honest); s.set_body(v) }
            3 => { let v = small_body(s, p); self.honest = true; s.set_body(v) }
            4 => { edit_field(s); self.honest = false }
            5 => edit_header(s),
            6 => { let h = header_for(s, p); s.set_header(h) }
            7 => if s.g.r.chance(1, 3) { let v = small_body(s, p); s.set_big(v); self.honest = false; s.calc() } else { s.calc() },
            8 => s.fin(),
            9 => if !s.last.is_empty() && !has_ulist(p) { take_decoded(s); self.honest = false },
            _ => {
                if s.g.r.chance(1, 2) { self.buf.clear() }
                let ok = s.ser(&mut self.buf, false, false) == "ok";
                if self.buf.len() > 20000 { self.buf.clear() }
                if ok && s.tags.is_empty() {
                    if self.plan.threads { self.writes(60) }
                    let s = &mut self.s;
                    if self.honest && !has_ulist(p) && s.tags.is_empty() && s.g.r.chance(1, 2) { dec_last(s, &Source::Slice, &[]); }
                    if self.plan.threads && self.s.tags.is_empty() { let bs = self.s.last.clone(); self.reads(&bs, 30) }
                }
            }
        }
    }
    /// The same again, many times over: only what comes out otherwise is told.
    fn writes(&mut self, n: usize) {
        let s = &mut self.s;
        let want = s.last.clone();
        let o = s.obj.as_mut().unwrap();
        let mut buf = BytesMut::with_capacity(want.len());
        let size = want.len();
        let (r, _) = guarded(|| {
            for _ in 0..n {
                buf.clear();
                let r = o.ser(&mut buf);
                if r.is_err() || buf[..] != want[..] { return Some(r) }
                match o.calc() { Ok(k) if usize::from(k) == size => {} r => return Some(r.map(|_| ())) }
            }
            None
        });
        s.ops += n as u64;
        let (r, odd) = match r { None => ("panic", true), Some(None) => ("ok", false), Some(Some(Ok(()))) => ("ok", true), Some(Some(Err(e))) => (kind(&e), true) };
        let h = o.hdr();
        if odd || !h.same(&s.h) {
            let n = o.calc();
            s.tag("burst.ser");
            s.ev(|_| json!({"op": "ser", "r": r, "kept": true, "out": buf.to_vec(), "h": h.json(), "acc": []}));
            if buf[..] == want[..] { let (r, n) = match n { Ok(n) => ("ok", n), Err(e) => (kind(&e), 0) }; s.ev(|_| json!({"op": "calc", "r": r, "n": octets(u64::from(n), 2)})) }
        }
    }
    fn reads(&mut self, bs: &[u8], n: usize) {
        let p = self.p;
        let s = &mut self.s;
        let e = s.w.entry(&p.name);
        let d0 = s.decode(p, bs, &Source::Slice);
        s.ops += n as u64;
        for _ in 0..n {
            let mut res = None;
            let (x, _) = guarded(|| { let mut b = bs; res = Some((e.dec)(&mut b)); b.len() });
            let (r, obj) = match (x, res) { (None, _) | (_, None) => ("panic", None), (_, Some(Ok(o))) => ("ok", Some(o)), (_, Some(Err(e))) => (kind(&e), None) };
            let same = r == d0.r && x.unwrap_or(0) == d0.rem && match (&obj, &d0.obj) { (None, None) => true, (Some(a), Some(b)) => a.hdr().same(&b.hdr()) && a.body().same(&b.body()), _ => false };
            if !same {
                s.tag("burst.dec");
                // (one of the two is not what the octets say)
                for d in [d0, Dec { r, obj, rem: x.unwrap_or(0), cost: Cost::default() }] {
                    s.ev(|_| { let mut j = Session::dec_json(p, bs, &Source::Slice, &d); j["op"] = json!("read"); j });
                }
                return;
            }
        }
    }
    fn told(self, lane: usize) -> Told { Told { lane, name: self.s.name, tags: self.s.tags, ops: self.s.ops, evs: self.s.evs } }
}

/// All of a session's lanes, or one of them alone.
pub fn apart(w: &World, mut r: Rng, name: &str, only: Option<usize>, rec: bool, thorough: bool, inflight: Option<String>) -> Vec<Told> {
    let n = 2 + r.below(3);
    let threads = r.chance(2, 5);
    let types = w.spec.pdus.len();
    let same = r.chance(1, 2);
    let first = r.below(types);
    let mut plans: Vec<Plan> = (0..n).map(|k| {
        let kind = match r.below(10) { 0..=5 => Kind::Object, 6 | 7 => Kind::Reading, 8 => Kind::Records, _ => Kind::Small };
        let ty = if same && r.chance(5, 6) { first } else { r.below(types) };
        Plan { seed: r.next(), kind, ty, steps: 3 + r.below(if kind == Kind::Object { 18 } else { 5 }), threads, family: k as u64, twist: 0 }
    }).collect();
    // sometimes twins: the same messages but for an octet or two, the same lives up to a point
    if r.chance(1, 3) {
        let mut one = plans[0];
        if r.chance(1, 2) { one.kind = Kind::Reading; one.steps = 1 + r.below(4) }
        for p in &mut plans { *p = Plan { twist: if r.chance(1, 4) { 0 } else { r.next() | 1 }, ..one } }
    }
    if let Some(k) = only {
        let mut l = open(w, plans[k], name, k, rec, thorough, inflight);
        while !l.done { l.step() }
        return vec![l.told(k)];
    }
    if !threads {
        let mut lanes: Vec<Lane> = plans.iter().enumerate().map(|(k, p)| open(w, *p, name, k, rec, thorough, inflight.clone())).collect();
        loop {
            let live: Vec<usize> = (0..n).filter(|k| !lanes[*k].done).collect();
            if live.is_empty() { break }
            let k = *r.pick(&live);
            for _ in 0..1 + r.below(3) { if !lanes[k].done { lanes[k].step() } }
        }
        return lanes.into_iter().enumerate().map(|(k, l)| l.told(k)).collect();
    }
    let slot = slot();
    let barrier = Barrier::new(n);
    std::thread::scope(|sc| {
        let hands: Vec<_> = plans.iter().enumerate().map(|(k, plan)| {
            let (barrier, inflight) = (&barrier, inflight.clone());
            sc.spawn(move || {
                let mine = LANE_SLOTS + slot * 4 + k;
                set_slot(mine);
                CUR[mine].store(CUR[slot].load(Ordering::Relaxed), Ordering::Relaxed);
                let mut l = open(w, *plan, name, k, rec, thorough, inflight);
                barrier.wait();
                while !l.done { l.step() }
                CUR[mine].store(0, Ordering::Relaxed);
                l.told(k)
            })
        }).collect();
        hands.into_iter().map(|h| match h.join() { Ok(t) => t, Err(e) => std::panic::resume_unwind(e) }).collect()
    })
}
