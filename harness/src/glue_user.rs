// Generated by tools/gen.py from spec/layouts.json.  Do not edit.
#![allow(clippy::all, unused_imports, unused_variables, unused_mut)]
use crate::val::*; use crate::rt::*;
use open_dis_rust::common::{GenericHeader, Pdu};
impl Bind for crate::user::UserPart {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <crate::user::UserPart>::default();
    x.tag = Bind::fv(&v[0]);
    x.number_of_marks = Bind::fv(&v[1]);
    x.marks = Bind::fv(&v[2]);
    x.place = Bind::fv(&v[3]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.tag), Bind::tv(&self.number_of_marks), Bind::tv(&self.marks), Bind::tv(&self.place)]) }
}
impl Bind for crate::user::UserOdd {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <crate::user::UserOdd>::default();
    x.three = Octs::from_octs(v[0].octs());
    x.swapped = Octs::from_octs(v[1].octs());
    x.swapped_four = Octs::from_octs(v[2].octs());
    x.swapped_eight = Octs::from_octs(v[3].octs());
    x.sixteen = Octs::from_octs(v[4].octs());
    x.copied = Octs::from_octs(v[5].octs());
    x.number = Bind::fv(&v[6]);
    x.signed = Octs::from_octs(v[7].octs());
    x }
  fn tv(&self) -> Val { Val::T(vec![Val::O(Octs::to_octs(&self.three)), Val::O(Octs::to_octs(&self.swapped)), Val::O(Octs::to_octs(&self.swapped_four)), Val::O(Octs::to_octs(&self.swapped_eight)), Val::O(Octs::to_octs(&self.sixteen)), Val::O(Octs::to_octs(&self.copied)), Bind::tv(&self.number), Val::O(Octs::to_octs(&self.signed))]) }
}
impl Bind for crate::user::UserCounts {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <crate::user::UserCounts>::default();
    x.rows = Bind::fv(&v[0]);
    x.columns = Bind::fv(&v[1]);
    x.extra = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.rows), Bind::tv(&self.columns), Bind::tv(&self.extra)]) }
}
impl Bind for crate::user::UserWideHead {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <crate::user::UserWideHead>::default();
    x.magic = Bind::fv(&v[0]);
    x.protocol_family = Bind::fv(&v[1]);
    x.pdu_type = Bind::fv(&v[2]);
    x.exercise = Bind::fv(&v[3]);
    x.length = Bind::fv(&v[4]);
    x.sent = Bind::fv(&v[5]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.magic), Bind::tv(&self.protocol_family), Bind::tv(&self.pdu_type), Bind::tv(&self.exercise), Bind::tv(&self.length), Bind::tv(&self.sent)]) }
}
impl Head for crate::user::UserWideHead {
  fn put(&mut self, i: usize, f: &Val, via: usize) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match (i, via) {
    (0, _) => x.magic = Bind::fv(&v[0]),
    (1, 1) => x.set_protocol_family(Bind::fv(f)),
    (1, _) => x.protocol_family = Bind::fv(&v[1]),
    (2, 1) => x.set_pdu_type(Bind::fv(f)),
    (2, _) => x.pdu_type = Bind::fv(&v[2]),
    (3, _) => x.exercise = Bind::fv(&v[3]),
    (4, 1) => x.set_length(Bind::fv(f)),
    (4, _) => x.length = Bind::fv(&v[4]),
    (5, _) => x.sent = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Bind for crate::user::UserSlimHead {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <crate::user::UserSlimHead>::default();
    x.length = Bind::fv(&v[0]);
    x.pdu_type = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.length), Bind::tv(&self.pdu_type)]) }
}
impl Head for crate::user::UserSlimHead {
  fn put(&mut self, i: usize, f: &Val, via: usize) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match (i, via) {
    (0, 1) => x.set_length(Bind::fv(f)),
    (0, _) => x.length = Bind::fv(&v[0]),
    (1, 1) => x.set_pdu_type(Bind::fv(f)),
    (1, _) => x.pdu_type = Bind::fv(&v[1]),
    _ => panic!("no such field") } }
}
impl Bind for crate::user::UserFarHead {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <crate::user::UserFarHead>::default();
    x.from = Bind::fv(&v[0]);
    x.key = Octs::from_octs(v[1].octs());
    x.pdu_type = Bind::fv(&v[2]);
    x.length = Bind::fv(&v[3]);
    x.protocol_family = Bind::fv(&v[4]);
    x.note = Bind::fv(&v[5]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.from), Val::O(Octs::to_octs(&self.key)), Bind::tv(&self.pdu_type), Bind::tv(&self.length), Bind::tv(&self.protocol_family), Bind::tv(&self.note)]) }
}
impl Head for crate::user::UserFarHead {
  fn put(&mut self, i: usize, f: &Val, via: usize) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match (i, via) {
    (0, _) => x.from = Bind::fv(&v[0]),
    (1, _) => x.key = Octs::from_octs(v[1].octs()),
    (2, 1) => x.set_pdu_type(Bind::fv(f)),
    (2, _) => x.pdu_type = Bind::fv(&v[2]),
    (3, 1) => x.set_length(Bind::fv(f)),
    (3, _) => x.length = Bind::fv(&v[3]),
    (4, 1) => x.set_protocol_family(Bind::fv(f)),
    (4, _) => x.protocol_family = Bind::fv(&v[4]),
    (5, _) => x.note = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for crate::user::UserScalarsPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.a = Bind::fv(&v[0]);
    x.b = Bind::fv(&v[1]);
    x.c = Bind::fv(&v[2]);
    x.d = Bind::fv(&v[3]);
    x.e = Bind::fv(&v[4]);
    x.f = Bind::fv(&v[5]);
    x.g = Bind::fv(&v[6]);
    x.h = Bind::fv(&v[7]);
    x.x = Bind::fv(&v[8]);
    x.y = Bind::fv(&v[9]);
    x.force = Bind::fv(&v[10]);
    x.reason = Bind::fv(&v[11]);
    x.flag = Bind::fv(&v[12]);
    x.sort = Bind::fv(&v[13]);
    x.who = Bind::fv(&v[14]);
    x.kind = Bind::fv(&v[15]);
    x.counts = Bind::fv(&v[16]);
    x.at = Bind::fv(&v[17]);
    x.mark = Bind::fv(&v[18]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.a), Bind::tv(&self.b), Bind::tv(&self.c), Bind::tv(&self.d), Bind::tv(&self.e), Bind::tv(&self.f), Bind::tv(&self.g), Bind::tv(&self.h), Bind::tv(&self.x), Bind::tv(&self.y), Bind::tv(&self.force), Bind::tv(&self.reason), Bind::tv(&self.flag), Bind::tv(&self.sort), Bind::tv(&self.who), Bind::tv(&self.kind), Bind::tv(&self.counts), Bind::tv(&self.at), Bind::tv(&self.mark)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.a = Bind::fv(&v[0]),
    1 => x.b = Bind::fv(&v[1]),
    2 => x.c = Bind::fv(&v[2]),
    3 => x.d = Bind::fv(&v[3]),
    4 => x.e = Bind::fv(&v[4]),
    5 => x.f = Bind::fv(&v[5]),
    6 => x.g = Bind::fv(&v[6]),
    7 => x.h = Bind::fv(&v[7]),
    8 => x.x = Bind::fv(&v[8]),
    9 => x.y = Bind::fv(&v[9]),
    10 => x.force = Bind::fv(&v[10]),
    11 => x.reason = Bind::fv(&v[11]),
    12 => x.flag = Bind::fv(&v[12]),
    13 => x.sort = Bind::fv(&v[13]),
    14 => x.who = Bind::fv(&v[14]),
    15 => x.kind = Bind::fv(&v[15]),
    16 => x.counts = Bind::fv(&v[16]),
    17 => x.at = Bind::fv(&v[17]),
    18 => x.mark = Bind::fv(&v[18]),
    _ => panic!("no such field") } }
}
impl Body for crate::user::UserListsPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.n8 = Bind::fv(&v[0]);
    x.halves = Bind::fv(&v[1]);
    x.n16 = Bind::fv(&v[2]);
    x.n32 = Bind::fv(&v[3]);
    x.floats = Bind::fv(&v[4]);
    x.parts = Bind::fv(&v[5]);
    x.counts = Bind::fv(&v[6]);
    x.ids = Bind::fv(&v[7]);
    x.forces = Bind::fv(&v[8]);
    x.n64 = Bind::fv(&v[9]);
    x.flags = Bind::fv(&v[10]);
    x.bits = Bind::fv(&v[11]);
    x.samples = Octs::from_octs(v[12].octs());
    x.eighths = Bind::fv(&v[13]);
    x.shorts = Bind::fv(&v[14]);
    x.across = Bind::fv(&v[15]);
    x.down = Bind::fv(&v[16]);
    x.grid = Octs::from_octs(v[17].octs());
    x.last = Bind::fv(&v[18]);
    x.datums = Bind::fv(&v[19]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.n8), Bind::tv(&self.halves), Bind::tv(&self.n16), Bind::tv(&self.n32), Bind::tv(&self.floats), Bind::tv(&self.parts), Bind::tv(&self.counts), Bind::tv(&self.ids), Bind::tv(&self.forces), Bind::tv(&self.n64), Bind::tv(&self.flags), Bind::tv(&self.bits), Val::O(Octs::to_octs(&self.samples)), Bind::tv(&self.eighths), Bind::tv(&self.shorts), Bind::tv(&self.across), Bind::tv(&self.down), Val::O(Octs::to_octs(&self.grid)), Bind::tv(&self.last), Bind::tv(&self.datums)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.n8 = Bind::fv(&v[0]),
    1 => x.halves = Bind::fv(&v[1]),
    2 => x.n16 = Bind::fv(&v[2]),
    3 => x.n32 = Bind::fv(&v[3]),
    4 => x.floats = Bind::fv(&v[4]),
    5 => x.parts = Bind::fv(&v[5]),
    6 => x.counts = Bind::fv(&v[6]),
    7 => x.ids = Bind::fv(&v[7]),
    8 => x.forces = Bind::fv(&v[8]),
    9 => x.n64 = Bind::fv(&v[9]),
    10 => x.flags = Bind::fv(&v[10]),
    11 => x.bits = Bind::fv(&v[11]),
    12 => x.samples = Octs::from_octs(v[12].octs()),
    13 => x.eighths = Bind::fv(&v[13]),
    14 => x.shorts = Bind::fv(&v[14]),
    15 => x.across = Bind::fv(&v[15]),
    16 => x.down = Bind::fv(&v[16]),
    17 => x.grid = Octs::from_octs(v[17].octs()),
    18 => x.last = Bind::fv(&v[18]),
    19 => x.datums = Bind::fv(&v[19]),
    _ => panic!("no such field") } }
}
impl Body for crate::user::UserBlocksPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.small_length = Bind::fv(&v[0]);
    x.wide_length = Bind::fv(&v[1]);
    x.between = Bind::fv(&v[2]);
    x.small = opt_from::<crate::user::UserBlob>(&v[3]);
    x.after = Bind::fv(&v[4]);
    x.long_length = Bind::fv(&v[5]);
    x.number = Bind::fv(&v[6]);
    x.marks = Bind::fv(&v[7]);
    x.wide = opt_from::<crate::user::UserBlob>(&v[8]);
    x.long = opt_from::<crate::user::UserBlob>(&v[9]);
    x.plain_length = Bind::fv(&v[10]);
    x.plain = Octs::from_octs(v[11].octs());
    x.end = Bind::fv(&v[12]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.small_length), Bind::tv(&self.wide_length), Bind::tv(&self.between), opt_to(&self.small), Bind::tv(&self.after), Bind::tv(&self.long_length), Bind::tv(&self.number), Bind::tv(&self.marks), opt_to(&self.wide), opt_to(&self.long), Bind::tv(&self.plain_length), Val::O(Octs::to_octs(&self.plain)), Bind::tv(&self.end)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.small_length = Bind::fv(&v[0]),
    1 => x.wide_length = Bind::fv(&v[1]),
    2 => x.between = Bind::fv(&v[2]),
    3 => x.small = opt_from::<crate::user::UserBlob>(&v[3]),
    4 => x.after = Bind::fv(&v[4]),
    5 => x.long_length = Bind::fv(&v[5]),
    6 => x.number = Bind::fv(&v[6]),
    7 => x.marks = Bind::fv(&v[7]),
    8 => x.wide = opt_from::<crate::user::UserBlob>(&v[8]),
    9 => x.long = opt_from::<crate::user::UserBlob>(&v[9]),
    10 => x.plain_length = Bind::fv(&v[10]),
    11 => x.plain = Octs::from_octs(v[11].octs()),
    12 => x.end = Bind::fv(&v[12]),
    _ => panic!("no such field") } }
}
impl Body for crate::user::UserEmptyPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
  }
  fn body(&self) -> Val { Val::T(vec![]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    _ => panic!("no such field") } }
}
impl Body for crate::user::UserOnePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.buf = Bind::fv(&v[0]);
    x.len = Bind::fv(&v[1]);
    x.parts = Bind::fv(&v[2]);
    x.odd = Bind::fv(&v[3]);
    x.body = Bind::fv(&v[4]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.buf), Bind::tv(&self.len), Bind::tv(&self.parts), Bind::tv(&self.odd), Bind::tv(&self.body)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.buf = Bind::fv(&v[0]),
    1 => x.len = Bind::fv(&v[1]),
    2 => x.parts = Bind::fv(&v[2]),
    3 => x.odd = Bind::fv(&v[3]),
    4 => x.body = Bind::fv(&v[4]),
    _ => panic!("no such field") } }
}
impl Body for crate::user::OwnWidePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.a = Bind::fv(&v[0]);
    x.shorts = Bind::fv(&v[1]);
    x.small_length = Bind::fv(&v[2]);
    x.at = Bind::fv(&v[3]);
    x.small = opt_from::<crate::user::UserBlob>(&v[4]);
    x.n = Bind::fv(&v[5]);
    x.parts = Bind::fv(&v[6]);
    x.force = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.a), Bind::tv(&self.shorts), Bind::tv(&self.small_length), Bind::tv(&self.at), opt_to(&self.small), Bind::tv(&self.n), Bind::tv(&self.parts), Bind::tv(&self.force)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.a = Bind::fv(&v[0]),
    1 => x.shorts = Bind::fv(&v[1]),
    2 => x.small_length = Bind::fv(&v[2]),
    3 => x.at = Bind::fv(&v[3]),
    4 => x.small = opt_from::<crate::user::UserBlob>(&v[4]),
    5 => x.n = Bind::fv(&v[5]),
    6 => x.parts = Bind::fv(&v[6]),
    7 => x.force = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for crate::user::OwnSlimPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.n = Bind::fv(&v[0]);
    x.octets = Octs::from_octs(v[1].octs());
    x.who = Bind::fv(&v[2]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.n), Val::O(Octs::to_octs(&self.octets)), Bind::tv(&self.who)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.n = Bind::fv(&v[0]),
    1 => x.octets = Octs::from_octs(v[1].octs()),
    2 => x.who = Bind::fv(&v[2]),
    _ => panic!("no such field") } }
}
impl Body for crate::user::OwnFarPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.x = Bind::fv(&v[0]);
    x.counts = Bind::fv(&v[1]);
    x.ids = Bind::fv(&v[2]);
    x.more = Bind::fv(&v[3]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.x), Bind::tv(&self.counts), Bind::tv(&self.ids), Bind::tv(&self.more)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.x = Bind::fv(&v[0]),
    1 => x.counts = Bind::fv(&v[1]),
    2 => x.ids = Bind::fv(&v[2]),
    3 => x.more = Bind::fv(&v[3]),
    _ => panic!("no such field") } }
}
impl Body for crate::user::OwnEmptyPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
  }
  fn body(&self) -> Val { Val::T(vec![]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    _ => panic!("no such field") } }
}
impl Body for crate::user::OwnByHandPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.n = Bind::fv(&v[0]);
    x.ids = Bind::fv(&v[1]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.n), Bind::tv(&self.ids)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.n = Bind::fv(&v[0]),
    1 => x.ids = Bind::fv(&v[1]),
    _ => panic!("no such field") } }
}
pub fn pdu_table() -> Vec<PduEntry> { vec![
  pdu_entry!("UserScalarsPdu", crate::user::UserScalarsPdu),
  pdu_entry!("UserListsPdu", crate::user::UserListsPdu),
  pdu_entry!("UserBlocksPdu", crate::user::UserBlocksPdu),
  pdu_entry!("UserEmptyPdu", crate::user::UserEmptyPdu),
  pdu_entry!("UserOnePdu", crate::user::UserOnePdu),
  pdu_entry!("OwnWidePdu", crate::user::OwnWidePdu),
  pdu_entry!("OwnSlimPdu", crate::user::OwnSlimPdu),
  pdu_entry!("OwnFarPdu", crate::user::OwnFarPdu),
  pdu_entry!("OwnEmptyPdu", crate::user::OwnEmptyPdu),
  pdu_entry!("OwnByHandPdu", crate::user::OwnByHandPdu),
]}
