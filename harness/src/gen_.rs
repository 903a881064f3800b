//! Random values of the specification's types.
use crate::spec::*;
use crate::val::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x5851_F42D_4C95_7F2D);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n.max(1) as u64)) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn octet(&mut self) -> u8 { self.next() as u8 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    /// every octet random
    Random,
    /// corner values
    Boundary,
    /// each octet different from its neighbours
    Counter,
    /// zeros and defaults, but for one leaf
    OneHot,
    Zero,
    /// literals of the library's source, and their neighbours
    Literal,
    /// one octet everywhere
    Fill,
    /// values, elements and lengths that were there before come again
    Echo,
    /// each leaf in a manner of its own, many of them zero
    Mixed,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lists {
    None,
    Small,
    /// lengths around powers of two and literals of the source
    Mid,
    /// one list gets many elements
    Large,
}

pub struct Gen<'a> {
    pub s: &'a Spec,
    pub r: Rng,
    pub style: Style,
    pub lists: Lists,
    /// do the count fields describe the lists?
    pub consistent: bool,
    /// leave the lists the library does not decode empty
    pub no_ulist: bool,
    /// octets still to spend on lists
    pub budget: usize,
    pub leaf: usize,
    pub hot: usize,
    ctr: u8,
    fill: u8,
    seen: Vec<Vec<u8>>,
    last_len: usize,
}

const LENGTHS: [usize; 40] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513];

impl<'a> Gen<'a> {
    pub fn new(s: &'a Spec, r: Rng) -> Gen<'a> {
        Gen { s, r, style: Style::Random, lists: Lists::Small, consistent: true, no_ulist: true, budget: 2000, leaf: 0, hot: 0, ctr: 0, fill: 0, seen: vec![], last_len: 0 }
    }
    pub fn randomize(&mut self) {
        use Style::*;
        self.style = if self.s.lit.any_new() {
            *self.r.pick(&[Random, Boundary, Counter, OneHot, OneHot, Zero, Literal, Literal, Literal, Fill, Echo, Mixed])
        } else {
            *self.r.pick(&[Random, Random, Random, Boundary, Boundary, Counter, Counter, OneHot, OneHot, Zero, Literal, Fill, Echo, Mixed, Mixed])
        };
        self.hot = self.r.below(60);
        self.leaf = 0;
        self.ctr = self.r.octet();
        self.fill = self.r.octet();
        self.seen.clear();
        self.last_len = 0;
        self.lists = *self.r.pick(&[Lists::None, Lists::Small, Lists::Small, Lists::Small, Lists::Mid, Lists::Large]);
        self.budget = if self.r.chance(1, 60) { 8400 } else { 2000 };
    }

    /// A literal of the source, or one of its neighbours.
    pub fn literal(&mut self) -> u64 {
        let l = &self.s.lit;
        let from = if !l.new_ints.is_empty() && self.r.chance(3, 4) { &l.new_ints } else { &l.ints };
        if from.is_empty() { return self.r.next() % 300 }
        let x = *self.r.pick(from);
        match self.r.below(8) { 0 => x.wrapping_add(1), 1 => x.wrapping_sub(1), 2 => x.wrapping_neg(), 3 => x.wrapping_mul(8), _ => x }
    }
    fn literal_octets(&mut self, w: usize) -> Vec<u8> {
        let l = &self.s.lit;
        if (w == 4 || w == 8) && self.r.chance(1, 2) {
            let x = if !l.new_floats.is_empty() && self.r.chance(1, 2) { *self.r.pick(&l.new_floats) }
                else if !l.floats.is_empty() && self.r.chance(1, 4) { *self.r.pick(&l.floats) }
                else { self.literal() as i64 as f64 };
            let x = if self.r.chance(1, 4) { -x } else { x };
            return if w == 4 { (x as f32).to_be_bytes().to_vec() } else { x.to_be_bytes().to_vec() };
        }
        octets(if w == 8 { self.literal() } else { self.literal() & ((1 << (8 * w)) - 1) }, w)
    }

    fn hot_now(&mut self) -> Style {
        if self.style == Style::OneHot {
            self.leaf += 1;
            return if self.leaf - 1 == self.hot { *self.r.pick(&[Style::Random, Style::Boundary, Style::Literal]) } else { Style::Zero };
        }
        self.mixed()
    }
    fn mixed(&mut self) -> Style {
        if self.style == Style::Mixed { return *self.r.pick(&[Style::Zero, Style::Zero, Style::Random, Style::Boundary, Style::Literal]) }
        self.style
    }

    /// Something that was there before (or one off), or else something new that may come again.
    fn echo(&mut self, w: usize, new: Vec<u8>) -> Vec<u8> {
        if self.r.chance(1, 2) {
            let l: Vec<&Vec<u8>> = self.seen.iter().filter(|x| x.len() == w).collect();
            if !l.is_empty() {
                let mut x = (*self.r.pick(&l[l.len().saturating_sub(12)..])).clone();
                if self.r.chance(1, 8) { let n = x.len() - 1; x[n] = x[n].wrapping_add(*self.r.pick(&[1, 255])) }
                return x;
            }
        }
        if self.seen.len() < 400 { self.seen.push(new.clone()) }
        new
    }
    pub fn prim(&mut self, w: usize) -> Vec<u8> {
        match self.hot_now() {
            Style::Echo => { let n = if self.r.chance(1, 2) { octets(self.r.next() % 20, w) } else { (0..w).map(|_| self.r.octet()).collect() }; self.echo(w, n) }
            Style::Zero => vec![0; w],
            Style::Fill => vec![self.fill; w],
            Style::Literal => if w <= 8 && self.r.chance(3, 4) { self.literal_octets(w) } else { (0..w).map(|_| self.r.octet()).collect() },
            Style::Counter => (0..w).map(|_| { self.ctr = self.ctr.wrapping_add(1); self.ctr }).collect(),
            Style::Boundary => {
                let all = [vec![0u8; w], vec![0xff; w],
                    (0..w).map(|i| if i == 0 { 0x80 } else { 0 }).collect(),
                    (0..w).map(|i| if i == 0 { 0x7f } else { 0xff }).collect(),
                    (0..w).map(|i| u8::from(i == w - 1)).collect(),
                    // signalling and quiet NaNs, infinities, denormals
                    (0..w).map(|i| match (i, w) { (0, 4 | 8) => 0x7f, (1, 4) => 0x80, (1, 8) => 0xf0, (i, w) if i == w - 1 => 1, _ => 0 }).collect(),
                    (0..w).map(|i| match (i, w) { (0, 4 | 8) => 0xff, (1, 4) => 0xc0, (1, 8) => 0xf8, _ => self.r.octet() }).collect(),
                    (0..w).map(|i| if i == w / 2 { 0xff } else { 0 }).collect(),
                ];
                self.r.pick(&all).clone()
            }
            _ => (0..w).map(|_| self.r.octet()).collect(),
        }
    }
    pub fn enumeration(&mut self, e: &str, w: usize) -> Vec<u8> {
        let s = self.s;
        let x = &s.enums[e];
        let st = self.hot_now();
        if x.bits.is_empty() {
            let c = match st {
                Style::Zero => x.d,
                Style::Boundary => *self.r.pick(&[x.codes[0], *x.codes.last().unwrap(), x.d]),
                Style::Literal => {
                    let l = &s.lit;
                    match (l.new_codes.get(e), l.codes.get(e)) {
                        (Some(c), _) if self.r.chance(1, 2) => *self.r.pick(c),
                        (_, Some(c)) if self.r.chance(1, 2) => *self.r.pick(c),
                        _ => { let c = self.literal(); if x.codes.binary_search(&c).is_ok() { c } else { *self.r.pick(&x.codes) } }
                    }
                }
                Style::Echo => { let n = octets(*self.r.pick(&x.codes), w); let o = self.echo(w, n); let c = o.iter().fold(0u64, |a, b| a << 8 | u64::from(*b)); if x.codes.binary_search(&c).is_ok() { c } else { *self.r.pick(&x.codes) } }
                Style::Fill => { let c = u64::from(self.fill); if x.codes.binary_search(&c).is_ok() { c } else { *self.r.pick(&x.codes) } }
                _ => *self.r.pick(&x.codes),
            };
            octets(c, w)
        } else {
            let mut c = 0u64;
            if st != Style::Zero {
                for b in &x.bits { if self.r.chance(1, 2) { c |= 1 << b } }
            }
            octets(c, w)
        }
    }
    pub fn data(&mut self, n: usize) -> Vec<u8> {
        match self.mixed() {
            Style::Zero => vec![0; n],
            Style::Boundary if self.r.chance(1, 3) => vec![0xff; n],
            Style::Fill => vec![self.fill; n],
            Style::Literal => (0..n).map(|_| if self.r.chance(1, 2) { self.literal() as u8 } else { self.r.octet() }).collect(),
            Style::Counter => (0..n).map(|_| { self.ctr = self.ctr.wrapping_add(1); self.ctr }).collect(),
            _ => (0..n).map(|_| self.r.octet()).collect(),
        }
    }
    pub fn text(&mut self, w: usize) -> Vec<u8> {
        if self.mixed() == Style::Zero { return vec![] }
        let scripts: [&[char]; 7] = [&['A', 'b', '7', ' ', '~'], &['é', 'ß', 'A'], &['漢', '字', 'x'], &['🛩', 'y', 'é'], &[' ', '\t', '\n', '\r', 'a'],
            &['\u{feff}', '\u{fffd}', '\u{301}', 'e'], &['a', 'Z', '0', '-', '_', '\u{1}', '\u{7f}', '\u{a0}', '"', '\\', '%']];
        let cs = *self.r.pick(&scripts);
        let n = if self.r.chance(1, 3) { self.r.below(w + 1) } else { self.r.below(2 * w) };
        let mut s = String::new();
        for _ in 0..n { s.push(*self.r.pick(cs)); }
        if self.r.chance(1, 12) { s.insert(0, '\0'); }
        s.into_bytes()
    }

    fn list_len(&mut self, unit: usize, width_max: u64) -> usize {
        let cap = (self.budget / unit.max(1)).min(width_max as usize);
        let n = match self.lists {
            Lists::None => 0,
            Lists::Small => *self.r.pick(&[0, 0, 1, 1, 2, 3, 5]),
            Lists::Mid => {
                let n = match self.r.below(4) { 0 => 0, 1 => 1, 2 => *self.r.pick(&LENGTHS), _ => (self.literal() % 1200) as usize };
                if n > cap { cap.min(*self.r.pick(&[0, 1, 2])) } else { n }
            }
            Lists::Large => if self.r.chance(1, 3) { cap - self.r.below(3).min(cap) } else { self.r.below(4) },
        };
        let n = if self.style == Style::Echo && self.last_len > 0 && self.r.chance(1, 2) { self.last_len } else { n };
        let n = n.min(cap);
        if n > 0 { self.last_len = n }
        self.budget -= n * unit;
        n
    }

    /// Least number of octets a value of this type takes.
    pub fn unit(&self, t: &str) -> usize {
        if let Some(w) = self.s.width(t) { return w }
        match self.s.records.get(t) {
            Some(fs) => fs.iter().map(|f| match &f.k {
                K::One => self.unit(&f.t),
                K::Wide(n) | K::Fixed(n) | K::Text(n) | K::Pad(n) => *n,
                K::Align(_) => 4,
                _ => 0,
            }).sum(),
            None => 40,
        }
    }

    pub fn fields(&mut self, fs: &[Field]) -> Vec<Val> {
        let mut vs: Vec<Val> = vec![];
        let s = self.s;
        let vf: Vec<&Field> = fs.iter().filter(|f| f.has_value()).collect();
        let aligned = fs.iter().any(|f| matches!(f.k, K::Align(_)));
        // fields other than lists first, so that the budget is spent in field order
        for f in &vf {
            let v = match &f.k {
                K::One => self.value(&f.t),
                K::Wide(w) => Val::O(self.enumeration(&f.t, *w)),
                K::Fixed(n) => Val::O(self.data(*n)),
                K::Text(w) => Val::O(self.text(*w)),
                K::Rest => { let n = self.r.below(4); Val::O(self.data(n)) }
                K::Data(Cnt::Mul(..)) => Val::T(vec![]),
                K::Data(c) => {
                    let max = self.count_max(c, &vf);
                    let n = self.list_len(1, max);
                    let extra = if n > 0 && self.budget > 20 { self.r.below(20).min((max as usize).saturating_sub(n)) } else { 0 };
                    Val::O(self.data(n + extra))
                }
                K::List(c) => {
                    let max = self.count_max(c, &vf);
                    let n = self.list_len(self.unit(&f.t), max);
                    let mut l: Vec<Val> = vec![];
                    for _ in 0..n {
                        let again = self.style == Style::Echo && !l.is_empty() && self.r.chance(1, 3);
                        let e = if again { if self.r.chance(1, 2) { l[l.len() - 1].clone() } else { self.r.pick(&l).clone() } } else { self.value(&f.t) };
                        l.push(e);
                    }
                    Val::T(l)
                }
                K::Opt(l) => {
                    if self.r.chance(1, 3) { Val::T(vec![]) } else {
                        let mut n = *self.r.pick(&[1usize, 2, 3, 8, 16, 24, 39, 40, 41, 128, 255]);
                        if self.r.chance(1, 4) { n = 1 + (self.literal() % 255) as usize }
                        if vs[*l].octs().len() > 1 && self.r.chance(1, 4) { n = *self.r.pick(&[256usize, 257, 300, 511, 512, 1000]) }
                        // there, and empty
                        if self.r.chance(1, 16) { n = 0 }
                        Val::T(vec![Val::O(self.data(n))])
                    }
                }
                K::Sized(_) if self.r.chance(1, 3) => { let n = *self.r.pick(&[1usize, 4, 30, 200]); Val::O(self.text(n)) }
                K::Sized(_) => { let n = *self.r.pick(&[0usize, 1, 2, 3, 8, 40, 255, 256, 300]); Val::O(self.data(n)) }
                K::Ulist(e) => {
                    let n = if self.no_ulist { 0 } else { self.list_len(self.unit(&f.t), 20).min(20) };
                    Val::T((0..n).map(|_| match e.as_str() {
                        "one" => self.value(&f.t),
                        "opt" => if self.r.chance(1, 2) { Val::T(vec![]) } else { Val::T(vec![self.value(&f.t)]) },
                        _ => if self.r.chance(1, 2) { Val::T(vec![]) } else {
                            let m = self.r.below(4);
                            Val::T(vec![Val::T((0..m).map(|_| self.value(&f.t)).collect())])
                        },
                    }).collect())
                }
                K::Pad(_) | K::Align(_) => unreachable!(),
            };
            vs.push(v);
        }
        for (i, f) in vf.iter().enumerate() {
            let set = |vs: &mut Vec<Val>, j: usize, n: u64| { let w = vs[j].octs().len(); vs[j] = Val::O(octets(n, w)) };
            match &f.k {
                K::Data(Cnt::Mul(a, b)) => {
                    let x = *self.r.pick(&[0usize, 1, 2, 3, 7, 16]);
                    let y = *self.r.pick(&[0usize, 1, 1, 2, 5]);
                    let n = if self.lists == Lists::None { 0 } else { (x * y).min(self.budget) };
                    vs[i] = Val::O(self.data(n));
                    if self.consistent {
                        if n == x * y { set(&mut vs, *a, x as u64); set(&mut vs, *b, y as u64) } else { set(&mut vs, *a, n as u64); set(&mut vs, *b, 1) }
                    }
                }
                K::Data(c) | K::List(c) => {
                    let n = match &vs[i] { Val::O(o) => o.len(), Val::T(l) => l.len(), _ => 0 } as u64;
                    if self.consistent || (aligned && matches!(c, Cnt::Bits(_))) {
                        match c {
                            Cnt::F(j) => set(&mut vs, *j, n),
                            Cnt::Bits(j) => { let r = if n > 0 && self.style != Style::Zero { self.r.below(8) as u64 } else { 0 }; set(&mut vs, *j, 8 * n - r) }
                            Cnt::Div8(j) => { let r = if self.style != Style::Zero { self.r.below(8) as u64 } else { 0 }; set(&mut vs, *j, 8 * n + r) }
                            Cnt::Sub(j, k) => {
                                let mut sub = vs[*j].tup().to_vec();
                                set(&mut sub, *k, n);
                                vs[*j] = Val::T(sub);
                            }
                            Cnt::Mul(..) => unreachable!(),
                        }
                    }
                }
                _ => {}
            }
        }
        let _ = s;
        vs
    }
    /// The most elements the count field can express.
    pub fn count_max(&self, c: &Cnt, vf: &[&Field]) -> u64 {
        let w = |f: &Field| self.s.width(&f.t).unwrap();
        let max = |w: usize| if w >= 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
        match c {
            Cnt::F(i) => max(w(vf[*i])),
            Cnt::Sub(i, j) => {
                let rec: Vec<&Field> = self.s.records[&vf[*i].t].iter().filter(|f| f.has_value()).collect();
                max(w(rec[*j]))
            }
            Cnt::Bits(i) => max(w(vf[*i])) / 8,
            Cnt::Div8(i) => max(w(vf[*i])) / 8 - 1,
            Cnt::Mul(..) => u64::MAX,
        }
    }
    pub fn value(&mut self, t: &str) -> Val {
        let s = self.s;
        if t == "GridAxisDescriptor" || t == "GridDataRecord" { return self.variant(t) }
        if let Some(fs) = s.records.get(t) { return Val::T(self.fields(fs)) }
        if let Some(w) = s.prims.get(t) { return Val::O(self.prim(*w)) }
        let w = s.enums[t].w;
        Val::O(self.enumeration(t, w))
    }
    pub fn variant(&mut self, t: &str) -> Val {
        let s = self.s;
        let n = if t == "GridAxisDescriptor" { 2 } else { 3 };
        let k = self.r.below(n);
        let name = format!("{t}#{k}");
        let keep = self.consistent;
        self.consistent = true;
        let mut v = self.fields(&s.records[&name]);
        self.consistent = keep;
        if t == "GridAxisDescriptor" { v[4] = Val::O(vec![k as u8]) } else { v[1] = Val::O(vec![0, k as u8]) }
        Val::V(name, v)
    }
    /// A header as PDUs of this type carry.
    pub fn header(&mut self, p: &PduSpec) -> Val { Val::T(self.fields(&p.head.fields)) }
    pub fn usual_header(&mut self) -> Val {
        let s = self.s;
        Val::T(self.fields(&s.header))
    }
}
