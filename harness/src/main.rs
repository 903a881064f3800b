//! Plays sessions of the library against the specification.
//!   conform run PROP --seed S --n N --out FILE [--sample K] [--thorough] [--spec DIR] [--stuck FILE]
//!   conform one PROP IDX --seed S --inflight FILE --out FILE
#![allow(clippy::all)]
mod apart;
mod errs;
mod extra;
mod gen_;
mod glue;
mod hdr;
mod make;
mod rt;
mod run;
mod sess;
mod spec;
#[cfg(feature = "user")]
mod user;
#[cfg(feature = "user")]
mod glue_user;
#[cfg(feature = "user")]
mod scripted;
mod val;
use run::*;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[global_allocator]
static ALLOC: Counting = Counting;

struct Args { prop: String, idx: u64, seed: u64, n: u64, sample: usize, thorough: bool, spec: String, out: String, stuck: String, inflight: Option<String>, tours: Vec<Vec<(String, usize)>>, literals: String, lane: Option<usize> }
fn args() -> (String, Args) {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut a = Args { prop: v[1].clone(), idx: 0, seed: 1, n: 1000, sample: 500, thorough: false, spec: "spec".into(), out: String::new(), stuck: String::new(), inflight: None, tours: vec![], literals: String::new(), lane: None };
    let mut i = 2;
    while i < v.len() {
        let key = v[i].clone();
        let mut val = || { i += 1; v[i].clone() };
        match key.as_str() {
            "--seed" => a.seed = val().parse().unwrap(),
            "--n" => a.n = val().parse().unwrap(),
            "--sample" => a.sample = val().parse().unwrap(),
            "--thorough" => a.thorough = true,
            "--spec" => a.spec = val(),
            "--out" => a.out = val(),
            "--literals" => a.literals = val(),
            "--lane" => a.lane = Some(val().parse().unwrap()),
            "--stuck" => a.stuck = val(),
            "--tours" => {
                let j: J = serde_json::from_str(&std::fs::read_to_string(val()).unwrap()).unwrap();
                a.tours = j.as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_u64().unwrap_or(0) as usize)).collect()).collect();
            }
            "--inflight" => a.inflight = Some(val()),
            x => a.idx = x.parse().unwrap(),
        }
        i += 1;
    }
    (v[0].clone(), a)
}

struct Played { tags: Vec<String>, ops: u64, name: String, evs: Vec<J>, lanes: Vec<apart::Told> }
impl Played {
    /// The trace of it; of several objects, one each, and of a suspicious session only the suspicious ones.
    fn lines(&self, idx: u64, live: bool) -> Vec<String> {
        let line = |id: &str, evs: &[J]| { let mut j = json!({"id": id, "idx": idx, "evs": evs}); if live { j["live"] = json!(true) } j };
        if self.lanes.is_empty() { return vec![line(&self.name, &self.evs).to_string()] }
        self.lanes.iter().filter(|l| self.tags.is_empty() || !l.tags.is_empty()).map(|l| { let mut j = line(&l.name, &l.evs); j["lane"] = json!(l.lane); j.to_string() }).collect()
    }
}
fn session(w: &World, a: &Args, idx: u64, rec: bool) -> Played {
    let slot_prop = a.prop.bytes().fold(0u64, |x, b| x * 31 + u64::from(b));
    let g = gen_::Gen::new(&w.spec, gen_::Rng::new(a.seed.wrapping_add(slot_prop << 20), idx));
    let name = format!("{}/{}/{}", a.prop, a.seed, idx);
    if a.prop == "C29" {
        let lanes = apart::apart(w, g.r, &name, a.lane, rec, a.thorough, a.inflight.clone());
        let mut tags: Vec<String> = vec![];
        for l in &lanes { for t in &l.tags { if !tags.contains(t) { tags.push(t.clone()) } } }
        let odd = lanes.iter().find(|l| !l.tags.is_empty()).unwrap_or(&lanes[0]);
        return Played { ops: lanes.iter().map(|l| l.ops).sum(), name: odd.name.clone(), evs: vec![], tags, lanes };
    }
    let mut s = Session::new(w, g, name);
    s.rec = rec;
    s.thorough = a.thorough;
    s.fresh = ["C24", "C26", "C28"].contains(&a.prop.as_str());
    s.inflight = a.inflight.clone();
    s.before(|| json!({"op": "lost", "r": "lost"}));
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if a.tours.is_empty() { sess::play(&a.prop, &mut s, idx) } else { sess::tour(&mut s, idx, &a.tours, &a.prop) })) {
        // a session in which the library went astray may end anyhow: what was seen of it is judged
        if !e.is::<Abandon>() && s.tags.is_empty() { std::panic::resume_unwind(e) }
    }
    let ty = s.p.map_or(String::new(), |p| p.name.clone());
    Played { tags: s.tags, ops: s.ops, name: format!("{} {}", s.name, ty), evs: s.evs, lanes: vec![] }
}

fn main() {
    let (cmd, a) = args();
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = World { spec: spec::Spec::load(&a.spec), pdus: glue::pdu_table(), recs: glue::rec_table(), enums: glue::enum_table(), made: glue::made_table() };
    w.made.extend(make::by_hand());
    #[cfg(feature = "user")]
    w.pdus.extend(glue_user::pdu_table());
    { let spec::Spec { lit, enums, .. } = &mut w.spec; lit.load(&a.literals, enums); }
    if !a.stuck.is_empty() {
        use std::os::fd::IntoRawFd;
        unsafe { STUCK_FD = std::fs::File::create(&a.stuck).unwrap().into_raw_fd(); }
        unsafe { libc::signal(libc::SIGABRT, on_abort as usize); libc::signal(libc::SIGSEGV, on_abort as usize); }
    }
    let limit = 10;
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_s();
        for i in 0..SLOTS {
            let t = SINCE[i].load(Ordering::Relaxed);
            if t != u64::MAX && t != 0 && now > t + limit {
                note_stuck(CUR[i].load(Ordering::Relaxed));
                unsafe { libc::_exit(97) }
            }
        }
    });
    match cmd.as_str() {
        "run" => run(&w, &a),
        "one" => {
            let p = session(&w, &a, a.idx, true);
            std::fs::write(&a.out, p.lines(a.idx, false).join("\n") + "\n").unwrap();
        }
        _ => panic!("usage"),
    }
}

fn parallel(n: u64, number: impl Fn(u64) -> u64 + Sync, f: impl Fn(u64) + Sync) {
    let next = AtomicU64::new(0);
    let bad = Mutex::new(None);
    std::thread::scope(|sc| {
        for t in 0..8usize {
            let (next, f, bad, number) = (&next, &f, &bad, &number);
            sc.spawn(move || {
                set_slot(t + 1);
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n { break }
                    CUR[t + 1].store(number(i) + 1, Ordering::Relaxed);
                    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i))) {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        *bad.lock().unwrap() = Some((i, m));
                        break;
                    }
                }
                CUR[t + 1].store(0, Ordering::Relaxed);
            });
        }
    });
    if let Some((i, m)) = bad.into_inner().unwrap() { eprintln!("harness failed in session {i}: {m}"); std::process::exit(3) }
}

fn run(w: &World, a: &Args) {
    let found: Mutex<Vec<(u64, Vec<String>, String)>> = Mutex::new(vec![]);
    let ops = AtomicU64::new(0);
    parallel(a.n, |i| i, |i| {
        let p = session(w, a, i, false);
        ops.fetch_add(p.ops, Ordering::Relaxed);
        if !p.tags.is_empty() { found.lock().unwrap().push((i, p.tags, p.name)) }
    });
    let mut found = found.into_inner().unwrap();
    found.sort();
    // a few of every kind of suspicion
    let mut seen: BTreeMap<(String, String), usize> = BTreeMap::new();
    let mut tags: BTreeMap<String, usize> = BTreeMap::new();
    let mut pick: Vec<u64> = vec![];
    for (i, ts, name) in &found {
        let ty = name.split(' ').next_back().unwrap_or("").to_string();
        let mut take = false;
        for t in ts {
            *tags.entry(t.clone()).or_default() += 1;
            let c = seen.entry((t.clone(), ty.clone())).or_default();
            if *c < 2 { *c += 1; take = true }
        }
        if take && pick.len() < 300 { pick.push(*i) }
    }
    let suspicious = pick.len();
    let suspected: std::collections::BTreeSet<u64> = pick.iter().copied().collect();
    // and a sample of all
    let k = (a.sample as u64).min(a.n);
    let stride = if k == 0 { 1 } else { a.n / k };
    // an odd stride visits every residue class of the types
    for j in 0..k { let i = if stride <= 1 { j } else { (j * (stride | 1) + j / 97) % a.n }; pick.push(i) }
    pick.sort_unstable();
    pick.dedup();
    let lines: Vec<Mutex<String>> = pick.iter().map(|_| Mutex::new(String::new())).collect();
    let events = AtomicU64::new(0);
    // suspicious sessions that are not suspicious when played again: what the library does depends
    // on more than the session
    let suspects: std::collections::BTreeSet<u64> = found.iter().map(|f| f.0).collect();
    let fickle = AtomicU64::new(0);
    parallel(pick.len() as u64, |j| pick[j as usize], |j| {
        let i = pick[j as usize];
        let p = session(w, a, i, true);
        if p.tags.is_empty() && suspects.contains(&i) { fickle.fetch_add(1, Ordering::Relaxed); }
        events.fetch_add(p.evs.len() as u64 + p.lanes.iter().map(|l| l.evs.len() as u64).sum::<u64>(), Ordering::Relaxed);
        *lines[j as usize].lock().unwrap() = p.lines(i, false).join("\n");
    });
    // then all sessions are recorded as they are played, and the suspicious ones kept
    let live: Mutex<Vec<String>> = Mutex::new(vec![]);
    if fickle.load(Ordering::Relaxed) > 0 {
        let t0 = now_s();
        parallel(a.n, |i| i, |i| {
            if live.lock().unwrap().len() >= 40 || now_s() > t0 + 150 { return }
            let p = session(w, a, i, true);
            if !p.tags.is_empty() { live.lock().unwrap().push(p.lines(i, true).join("\n")) }
        });
    }
    let mut live = live.into_inner().unwrap();
    // what TLC can read in good time: of the suspicious ones the shortest first, then of the others
    let lines: Vec<String> = lines.into_iter().map(|l| l.into_inner().unwrap()).collect();
    live.sort_by_key(String::len);
    let mut order: Vec<usize> = (0..lines.len()).collect();
    order.sort_by_key(|&j| if suspected.contains(&pick[j]) { (0, lines[j].len()) } else { (1, j) });
    let (mut room, mut room_suspected) = (120_000_000usize, 30_000_000usize);
    let mut fits = |l: &String, sus: bool| {
        let r = if sus { &mut room_suspected } else { &mut room };
        if l.len() > *r && !(sus && *r == 30_000_000) { return false }
        *r = r.saturating_sub(l.len());
        true
    };
    live.retain(|l| fits(l, true));
    let mut keep: Vec<bool> = vec![false; lines.len()];
    for j in order { keep[j] = fits(&lines[j], suspected.contains(&pick[j])) }
    let mut keep = keep.into_iter();
    let mut lines = lines;
    lines.retain(|_| keep.next().unwrap());
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for l in &live { writeln!(f, "{l}").unwrap() }
    for l in &lines { writeln!(f, "{l}").unwrap() }
    f.flush().unwrap();
    println!("{}", json!({"sessions": a.n, "ops": ops.load(Ordering::Relaxed), "suspicious": found.len(), "picked": suspicious,
                          "fickle": fickle.load(Ordering::Relaxed), "live": live.len(), "written": lines.len() + live.len(), "events": events.load(Ordering::Relaxed), "tags": tags}));
}
