//! An interpreter of the layout tables, mirroring spec/Wire.tla.  It only chooses which recorded
//! behaviours are handed to TLC first (those it finds suspicious); the verdict is TLC's.
use crate::val::*;
use serde_json::Value as J;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Cnt {
    F(usize),
    Sub(usize, usize),
    Bits(usize),
    Div8(usize),
    Mul(usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    One,
    Wide(usize),
    Fixed(usize),
    Data(Cnt),
    List(Cnt),
    Opt(usize),
    Sized(usize),
    Ulist(String),
    Text(usize),
    Rest,
    Pad(usize),
    Align(usize),
}
#[derive(Clone, Debug)]
pub struct Field {
    pub n: String,
    pub t: String,
    pub k: K,
}
impl Field {
    pub fn has_value(&self) -> bool { !matches!(self.k, K::Pad(_) | K::Align(_)) }
}
/// A kind of header: its octets, the octet the type stands in, and which of its fields are type,
/// family and length.
#[derive(Clone, Debug)]
pub struct HeadSpec {
    pub name: String,
    pub size: usize,
    pub at: usize,
    pub ty: usize,
    pub fam: Option<usize>,
    pub len: usize,
    pub fields: Vec<Field>,
}
impl HeadSpec {
    /// The library's own header.
    pub fn usual(&self) -> bool { self.name == "PduHeader" }
}
#[derive(Clone, Debug)]
pub struct PduSpec {
    pub name: String,
    pub ty: u8,
    pub family: u8,
    pub fields: Vec<Field>,
    pub head: Arc<HeadSpec>,
}
#[derive(Clone, Debug)]
pub struct EnumSpec {
    pub w: usize,
    pub d: u64,
    pub codes: Vec<u64>,
    pub names: Vec<String>,
    pub bits: Vec<u32>,
    pub bnames: Vec<String>,
    pub field: bool,
}
pub struct Spec {
    pub records: BTreeMap<String, Vec<Field>>,
    pub pdus: Vec<PduSpec>,
    /// PDUs defined outside the library
    pub users: Vec<PduSpec>,
    /// and those that carry headers of their own
    pub own: Vec<PduSpec>,
    pub enums: BTreeMap<String, EnumSpec>,
    pub prims: HashMap<String, usize>,
    pub header: Vec<Field>,
    pub lit: Literals,
    /// where the arguments of constructors go, and defaults that are not zero (spec/Made.tla)
    pub ctors: BTreeMap<String, Vec<Vec<String>>>,
    pub odd: BTreeMap<String, Val>,
}
/// Literals of the library's source (tools/literals.py): values worth trying.
#[derive(Default)]
pub struct Literals {
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    /// those that were not there when the specification was written
    pub new_ints: Vec<u64>,
    pub new_floats: Vec<f64>,
    /// codes of enumerators the source names
    pub codes: HashMap<String, Vec<u64>>,
    pub new_codes: HashMap<String, Vec<u64>>,
}
impl Literals {
    pub fn load(&mut self, path: &str, enums: &BTreeMap<String, EnumSpec>) {
        let Ok(s) = std::fs::read_to_string(path) else { return };
        let j: J = serde_json::from_str(&s).unwrap();
        let ints = |k: &str| j[k].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect::<Vec<_>>();
        let floats = |k: &str| j[k].as_array().unwrap().iter().filter_map(|x| x.as_f64()).collect::<Vec<_>>();
        let codes = |k: &str| {
            let mut m: HashMap<String, Vec<u64>> = HashMap::new();
            for v in j[k].as_array().unwrap() {
                let (e, n) = v.as_str().unwrap().split_once("::").unwrap();
                if let Some(x) = enums.get(e) { if let Some(i) = x.names.iter().position(|y| y == n) { m.entry(e.into()).or_default().push(x.codes[i]) } }
            }
            m
        };
        *self = Literals { ints: ints("ints"), floats: floats("floats"), new_ints: ints("new_ints"), new_floats: floats("new_floats"), codes: codes("vars"), new_codes: codes("new_vars") };
    }
    pub fn any_new(&self) -> bool { !self.new_ints.is_empty() || !self.new_floats.is_empty() || !self.new_codes.is_empty() }
}

fn fields(j: &J) -> Vec<Field> {
    let arr = j.as_array().unwrap();
    let names: Vec<String> = arr
        .iter()
        .filter(|f| f["k"] != "pad" && f["k"] != "align")
        .map(|f| f["n"].as_str().unwrap().to_string())
        .collect();
    let idx = |n: &J| names.iter().position(|x| x == n.as_str().unwrap()).unwrap();
    arr.iter()
        .map(|f| {
            let c = &f["c"];
            let cnt = |_: ()| match c[0].as_str().unwrap() {
                "f" => Cnt::F(idx(&c[1])),
                // the position inside the record is resolved below
                "sub" => Cnt::Sub(idx(&c[1]), usize::MAX),
                "bits" => Cnt::Bits(idx(&c[1])),
                "div8" => Cnt::Div8(idx(&c[1])),
                "mul" => Cnt::Mul(idx(&c[1]), idx(&c[2])),
                x => panic!("{x}"),
            };
            let num = || c.as_u64().unwrap() as usize;
            let k = match f["k"].as_str().unwrap() {
                "one" => K::One,
                "wide" => K::Wide(num()),
                "fixed" => K::Fixed(num()),
                "data" => K::Data(cnt(())),
                "list" => K::List(cnt(())),
                "opt" => K::Opt(idx(&f["l"])),
                "sized" => K::Sized(idx(&f["l"])),
                "ulist" => K::Ulist(f["e"].as_str().unwrap().into()),
                "text" => K::Text(num()),
                "rest" => K::Rest,
                "pad" => K::Pad(num()),
                "align" => K::Align(num()),
                x => panic!("{x}"),
            };
            Field { n: f["n"].as_str().unwrap_or("").into(), t: f["t"].as_str().unwrap_or("").into(), k }
        })
        .collect()
}

pub enum DecRes {
    Ok(Val, usize),
    Short,
}

fn heads(j: &J) -> BTreeMap<String, Arc<HeadSpec>> {
    j.as_object().unwrap().iter().map(|(n, h)| {
        let num = |k: &str| h[k].as_u64().unwrap() as usize;
        (n.clone(), Arc::new(HeadSpec { name: n.clone(), size: num("size"), at: num("at") - 1, ty: num("type") - 1, fam: num("family").checked_sub(1), len: num("length") - 1, fields: fields(&h["fields"]) }))
    }).collect()
}

fn pdus(j: &J, heads: &BTreeMap<String, Arc<HeadSpec>>) -> Vec<PduSpec> {
    j.as_object().unwrap().iter().map(|(n, p)| PduSpec {
        name: n.clone(), ty: p["type"].as_u64().unwrap() as u8, family: p["family"].as_u64().unwrap() as u8,
        fields: fields(&p["fields"]), head: heads[p["head"].as_str().unwrap_or("PduHeader")].clone(),
    }).collect()
}

fn value(j: &J) -> Val {
    let a = j.as_array().unwrap();
    if a.iter().all(J::is_u64) { Val::O(a.iter().map(|x| x.as_u64().unwrap() as u8).collect()) } else { Val::T(a.iter().map(value).collect()) }
}

impl Spec {
    pub fn load(dir: &str) -> Spec {
        let read = |n: &str| -> J { serde_json::from_str(&std::fs::read_to_string(format!("{dir}/{n}")).unwrap()).unwrap() };
        let l = read("layouts.json");
        let e = read("enums.json");
        let strs = |j: &J| j.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>();
        let nums = |j: &J| j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>();
        let records: BTreeMap<String, Vec<Field>> =
            l["records"].as_object().unwrap().iter().map(|(n, f)| (n.clone(), fields(f))).collect();
        let heads = heads(&l["heads"]);
        let mut s = Spec {
            records,
            pdus: pdus(&l["pdus"], &heads),
            users: pdus(&l["users"], &heads),
            own: pdus(&l["own"], &heads),
            enums: e.as_object().unwrap().iter().map(|(n, x)| (n.clone(), EnumSpec {
                w: x["w"].as_u64().unwrap() as usize, d: x["d"].as_u64().unwrap(), codes: nums(&x["codes"]),
                names: strs(&x["names"]), bits: nums(&x["bits"]).iter().map(|b| *b as u32).collect(),
                bnames: strs(&x["bnames"]), field: x["field"].as_bool().unwrap(),
            })).collect(),
            prims: l["prims"].as_object().unwrap().iter().map(|(n, w)| (n.clone(), w.as_u64().unwrap() as usize)).collect(),
            header: fields(&l["header"]),
            lit: Literals::default(),
            ctors: l["ctors"].as_object().unwrap().iter().map(|(n, c)| (n.clone(), c.as_array().unwrap().iter().map(|p| strs(p)).collect())).collect(),
            odd: l["odd"].as_object().unwrap().iter().map(|(n, v)| (n.clone(), value(v))).collect(),
        };
        // resolve "sub" counts
        let raw = &l;
        let recs = s.records.clone();
        for p in &mut s.pdus { resolve(&mut p.fields, &raw["pdus"][&p.name]["fields"], &recs); }
        for p in &mut s.users { resolve(&mut p.fields, &raw["users"][&p.name]["fields"], &recs); }
        for p in &mut s.own { resolve(&mut p.fields, &raw["own"][&p.name]["fields"], &recs); }
        let names: Vec<String> = s.records.keys().cloned().collect();
        for n in names {
            let mut f = s.records[&n].clone();
            resolve(&mut f, &raw["records"][&n], &recs);
            s.records.insert(n, f);
        }
        s
    }

    pub fn pdu(&self, n: &str) -> &PduSpec { self.pdus.iter().chain(&self.users).chain(&self.own).find(|p| p.name == n).unwrap() }

    pub fn width(&self, t: &str) -> Option<usize> {
        self.prims.get(t).copied().or_else(|| self.enums.get(t).map(|e| e.w))
    }

    // ---- encoding
    pub fn enc_fields(&self, fs: &[Field], vs: &[Val], out: &mut Vec<u8>) {
        let start = out.len();
        let mut j = 0;
        for f in fs {
            let v = if f.has_value() { j += 1; Some(&vs[j - 1]) } else { None };
            match &f.k {
                K::One => self.enc_type(&f.t, v.unwrap(), out),
                K::Wide(_) | K::Fixed(_) | K::Data(_) | K::Rest | K::Sized(_) => out.extend_from_slice(v.unwrap().octs()),
                K::List(_) => for x in v.unwrap().tup() { self.enc_type(&f.t, x, out) },
                K::Opt(_) => if let Some(x) = v.unwrap().tup().first() { out.extend_from_slice(x.octs()) },
                K::Ulist(e) => for x in v.unwrap().tup() {
                    match e.as_str() {
                        "one" => self.enc_type(&f.t, x, out),
                        "opt" => if let Some(y) = x.tup().first() { self.enc_type(&f.t, y, out) },
                        _ => if let Some(y) = x.tup().first() { for z in y.tup() { self.enc_type(&f.t, z, out) } },
                    }
                },
                K::Text(w) => out.extend(text_octets(v.unwrap().octs(), *w)),
                K::Pad(n) => out.extend(std::iter::repeat_n(0, *n)),
                K::Align(n) => while (out.len() - start) % n != 0 { out.push(0) },
            }
        }
    }
    pub fn enc_type(&self, t: &str, v: &Val, out: &mut Vec<u8>) {
        if let Val::V(n, x) = v {
            self.enc_fields(&self.records[n], x, out);
        } else if let Some(fs) = self.records.get(t) {
            self.enc_fields(fs, v.tup(), out);
        } else {
            out.extend_from_slice(v.octs());
        }
    }
    pub fn enc_body(&self, p: &PduSpec, v: &Val) -> Vec<u8> {
        let mut o = vec![];
        self.enc_fields(&p.fields, v.tup(), &mut o);
        o
    }
    pub fn derive(&self, p: &PduSpec, v: &Val) -> Val {
        let mut vs = v.tup().to_vec();
        let mut j = 0;
        for f in &p.fields {
            if !f.has_value() { continue }
            if let K::Sized(l) = f.k {
                let w = vs[l].octs().len();
                vs[l] = Val::O(octets(vs[j].octs().len() as u64, w));
            }
            if let K::Opt(l) = f.k {
                let n = vs[j].tup().first().map_or(0, |o| o.octs().len());
                let w = vs[l].octs().len();
                vs[l] = Val::O(octets(n as u64, w));
            }
            j += 1;
        }
        Val::T(vs)
    }
    pub fn stamp(&self, p: &PduSpec, h: &Val, size: usize) -> Val {
        let mut h = h.tup().to_vec();
        let d = &p.head;
        h[d.ty] = Val::O(vec![p.ty]);
        if let Some(f) = d.fam { h[f] = Val::O(vec![p.family]) }
        h[d.len] = Val::O(octets(size as u64 % 65536, 2));
        Val::T(h)
    }
    pub fn enc_header(&self, p: &PduSpec, h: &Val) -> Vec<u8> {
        let mut o = vec![];
        self.enc_fields(&p.head.fields, h.tup(), &mut o);
        o
    }
    pub fn enc_usual_header(&self, h: &Val) -> Vec<u8> {
        let mut o = vec![];
        self.enc_fields(&self.header, h.tup(), &mut o);
        o
    }
    pub fn enc_pdu(&self, p: &PduSpec, h: &Val, v: &Val) -> Vec<u8> {
        let b = self.enc_body(p, &self.derive(p, v));
        let mut o = self.enc_header(p, &self.stamp(p, h, p.head.size + b.len()));
        o.extend(b);
        o
    }

    // ---- decoding
    fn count(&self, c: &Cnt, vs: &[Val]) -> u64 {
        match c {
            Cnt::F(i) => vs[*i].nat(),
            Cnt::Sub(i, j) => vs[*i].tup()[*j].nat(),
            Cnt::Bits(i) => vs[*i].nat().div_ceil(8),
            Cnt::Div8(i) => vs[*i].nat() / 8,
            Cnt::Mul(i, j) => vs[*i].nat() * vs[*j].nat(),
        }
    }
    pub fn norm(&self, e: &str, o: &[u8]) -> Vec<u8> {
        let s = &self.enums[e];
        let c = o.iter().fold(0u64, |a, b| (a << 8) | u64::from(*b));
        let known = if s.bits.is_empty() { s.codes.binary_search(&c).is_ok() } else { c & !s.bits.iter().fold(0u64, |a, b| a | 1 << b) == 0 };
        if known { o.to_vec() } else { octets(s.d, o.len()) }
    }
    pub fn dec_type(&self, t: &str, bs: &[u8], p: usize) -> DecRes {
        if let Some(fs) = self.records.get(t) { return self.dec_fields(fs, bs, p) }
        let w = self.width(t).unwrap_or_else(|| panic!("no decoder for {t}"));
        if bs.len() - p < w { return DecRes::Short }
        let o = &bs[p..p + w];
        let v = if self.enums.contains_key(t) { self.norm(t, o) } else { o.to_vec() };
        DecRes::Ok(Val::O(v), p + w)
    }
    pub fn dec_fields(&self, fs: &[Field], bs: &[u8], start: usize) -> DecRes {
        let mut p = start;
        let mut vs: Vec<Val> = vec![];
        macro_rules! take { ($n:expr) => {{ let n: u64 = $n; if n > (bs.len() - p) as u64 { return DecRes::Short } let o = bs[p..p + n as usize].to_vec(); p += n as usize; o }}; }
        for f in fs {
            match &f.k {
                K::One => match self.dec_type(&f.t, bs, p) { DecRes::Ok(v, q) => { vs.push(v); p = q } DecRes::Short => return DecRes::Short },
                K::Wide(w) => { let o = take!(*w as u64); vs.push(Val::O(self.norm(&f.t, &o))) }
                K::Fixed(n) => vs.push(Val::O(take!(*n as u64))),
                K::Data(c) => { let n = self.count(c, &vs); vs.push(Val::O(take!(n))) }
                K::Rest => { let n = (bs.len() - p) as u64; vs.push(Val::O(take!(n))) }
                K::List(c) => {
                    let n = self.count(c, &vs);
                    let mut l = vec![];
                    for _ in 0..n {
                        match self.dec_type(&f.t, bs, p) { DecRes::Ok(v, q) => { l.push(v); p = q } DecRes::Short => return DecRes::Short }
                    }
                    vs.push(Val::T(l));
                }
                K::Opt(l) => { let n = vs[*l].nat(); let o = take!(n); vs.push(Val::T(if n == 0 { vec![] } else { vec![Val::O(o)] })) }
                K::Sized(l) => { let n = vs[*l].nat(); vs.push(Val::O(take!(n))) }
                K::Ulist(_) => vs.push(Val::T(vec![])),
                K::Text(w) => { let mut o = take!(*w as u64); while o.last() == Some(&0) { o.pop(); } vs.push(Val::O(o)) }
                K::Pad(n) => { take!(*n as u64); }
                K::Align(n) => { let k = (n - (p - start) % n) % n; take!(k as u64); }
            }
        }
        DecRes::Ok(Val::T(vs), p)
    }

    // ---- what survives an encoding
    pub fn canon_fields(&self, fs: &[Field], vs: &[Val]) -> Vec<Val> {
        fs.iter().filter(|f| f.has_value()).zip(vs).map(|(f, v)| match &f.k {
            K::One => self.canon(&f.t, v),
            K::List(_) => Val::T(v.tup().iter().map(|x| self.canon(&f.t, x)).collect()),
            K::Text(w) => { let mut o = text_octets(v.octs(), *w); while o.last() == Some(&0) { o.pop(); } Val::O(o) }
            K::Opt(_) => if v.tup().first().is_some_and(|o| o.octs().is_empty()) { Val::T(vec![]) } else { v.clone() },
            _ => v.clone(),
        }).collect()
    }
    pub fn canon(&self, t: &str, v: &Val) -> Val {
        match self.records.get(t) {
            Some(fs) => Val::T(self.canon_fields(fs, v.tup())),
            None => v.clone(),
        }
    }
    pub fn canon_body(&self, p: &PduSpec, v: &Val) -> Val {
        Val::T(self.canon_fields(&p.fields, self.derive(p, v).tup()))
    }
}

fn resolve(fs: &mut [Field], raw: &J, recs: &BTreeMap<String, Vec<Field>>) {
    let vals: Vec<Field> = fs.iter().filter(|f| f.has_value()).cloned().collect();
    for (f, r) in fs.iter_mut().zip(raw.as_array().unwrap()) {
        if let K::List(Cnt::Sub(i, j)) | K::Data(Cnt::Sub(i, j)) = &mut f.k {
            let rec = &recs[&vals[*i].t];
            *j = rec.iter().filter(|x| x.has_value()).position(|x| x.n == r["c"][2].as_str().unwrap()).unwrap();
        }
    }
}

pub fn text_octets(o: &[u8], w: usize) -> Vec<u8> {
    let mut n = o.len();
    if n > w {
        n = w;
        while n > 0 && (128..192).contains(&o[n]) { n -= 1 }
    }
    let mut r = o[..n].to_vec();
    r.resize(w, 0);
    r
}
