#!/usr/bin/env python3
"""Generates the Rust glue of the conformance harness from the layout tables of
the specification (spec/layouts.json, which TLC writes from spec/Layouts.tla,
and spec/enums.json).  The generated file is committed; this is only run when
the specification changes."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(root + "/spec/layouts.json"))
E = json.load(open(root + "/spec/enums.json"))
out = []
w = out.append
MODS = {"FixedDatumRecord": "datum_records", "VariableDatumRecord": "datum_records",
        "AngularVelocity": "angular_velocity_vector", "SimulationIdentifier": "simulation_id"}
NODEFAULT = {"FixedDatumRecord", "VariableDatumRecord", "RecordSpecificationElement"}
SPECIAL = {"PduHeader", "LiveEntityPduHeader"}
KW = {"type": "r#type"}

def snake(n):
    s = re.sub(r"(?<=[a-z0-9])(?=[A-Z])|(?<=[A-Z])(?=[A-Z][a-z])", "_", n).lower()
    return s

def module(n):
    base = "/repo/src/common/data_types/"
    for c in (MODS.get(n), snake(n)):
        if c and os.path.exists(base + c + ".rs"):
            return c
    # find by definition
    for f in os.listdir(base):
        if re.search(r"pub struct %s\b" % n, open(base + f).read()):
            return f[:-3]
    raise SystemExit("no module for " + n)

recs = [r for r in L["records"] if "#" not in r and r not in SPECIAL and not r.startswith("User")]
w("// Generated by tools/gen.py from spec/layouts.json and spec/enums.json.  Do not edit.")
w("#![allow(clippy::all, unused_imports, unused_variables, unused_mut)]")
w("use crate::val::*; use crate::rt::*;")
w("use bytes::{Buf, BytesMut};")
w("use open_dis_rust::common::enums as en;")
w("use open_dis_rust::common::data_types as dt;")
w("use open_dis_rust::common::{Pdu, GenericHeader, SerializedLength, PduHeader, LiveEntityPduHeader};")
w("use num_traits::FromPrimitive;")
w("")
# enumerations
for n, e in E.items():
    if e["bits"]:
        w(f"flags!({n}, {e['w']});")
    else:
        w(f"enumeration!({n}, {e['w']});")
w("")
w("pub fn enum_table() -> Vec<EnumEntry> { vec![")
for n, e in E.items():
    if not e["bits"]:
        w(f"  enum_entry!({n}, {e['w']}),")
    else:
        w(f"  flags_entry!({n}, {e['w']}, from_u{8 * e['w']}, as_u{8 * e['w']}),")
w("]}")
w("")

def fields(fs):
    return [f for f in fs if f["k"] not in ("pad", "align")]

def setter(f, i):
    k = f["k"]
    if k in ("one", "list", "ulist", "wide"):
        return f"Bind::fv(&v[{i}])"
    if k in ("fixed", "data", "text", "rest", "sized"):
        return f"Octs::from_octs(v[{i}].octs())"
    if k == "opt":
        return f"opt_from::<{path(f['t'])}>(&v[{i}])"
    raise SystemExit(k)

def getter(f, x):
    k = f["k"]
    n = KW.get(f["n"], f["n"])
    if k in ("one", "list", "ulist"):
        return f"Bind::tv(&{x}.{n})"
    if k == "wide":
        return f"wide_tv(&{x}.{n}, {f['c']})"
    if k in ("fixed", "data", "text", "rest", "sized"):
        return f"Val::O(Octs::to_octs(&{x}.{n}))"
    if k == "opt":
        return f"opt_to(&{x}.{n})"
    raise SystemExit(k)

def path(t):
    return "crate::user::" + t if t.startswith("User") else f"dt::{module(t)}::{t}"

def bind(r):
    fs = fields(L["records"][r])
    ty = path(r)
    w(f"impl Bind for {ty} {{")
    w("  fn fv(v: &Val) -> Self { let v = v.tup();")
    if r in NODEFAULT:
        w(f"    {ty} {{ " + ", ".join(f"{f['n']}: {setter(f, i)}" for i, f in enumerate(fs)) + " } }")
    else:
        w(f"    let mut x = <{ty}>::default();")
        for i, f in enumerate(fs):
            w(f"    x.{KW.get(f['n'], f['n'])} = {setter(f, i)};")
        w("    x }")
    w("  fn tv(&self) -> Val { Val::T(vec![" + ", ".join(getter(f, "self") for f in fs) + "]) }")
    w("}")

for r in recs:
    bind(r)
w("")
w("pub fn rec_table() -> Vec<RecEntry> { vec![")
for r in recs + ["GridAxisDescriptor", "GridDataRecord"]:
    w(f"  rec_entry!(\"{r}\", dt::{module(r)}::{r}),")
w("  hdr_entry!(\"PduHeader\", PduHeader),")
w("  hdr_entry!(\"LiveEntityPduHeader\", LiveEntityPduHeader),")
w("]}")
w("")
def table(pdus):
  for p, d in pdus.items():
      fs = fields(d["fields"])
      ty = ppath(p, d)
      w(f"impl Body for {ty} {{")
      w("  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;")
      for i, f in enumerate(fs):
          w(f"    x.{KW.get(f['n'], f['n'])} = {setter(f, i)};")
      w("  }")
      w("  fn body(&self) -> Val { Val::T(vec![" + ", ".join(getter(f, "self") for f in fs) + "]) }")
      # one field replaced at a time
      w("  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {")
      for i, f in enumerate(fs):
          w(f"    {i} => x.{KW.get(f['n'], f['n'])} = {setter(f, i)},")
      w("    _ => panic!(\"no such field\") } }")
      w("}")
  w("pub fn pdu_table() -> Vec<PduEntry> { vec![")
  for p, d in pdus.items():
    w(f"  pdu_entry!(\"{p}\", {ppath(p, d)}),")
  w("]}")

def ppath(p, d):
    return ("crate::user::" if d["mod"] == "user" else f"open_dis_rust::{d['mod']}::") + p

# what is made with constructors: the arguments as values, in order
def leaf(r, path):
    f = next(f for f in fields(L["records"][r]) if f["n"] == path[0])
    return f if len(path) == 1 else leaf(f["t"], path[1:])
w("pub fn made_table() -> Vec<MadeEntry> { vec![")
for r, paths in L["ctors"].items():
    if r in SPECIAL:
        continue
    args = ", ".join("0" if not p else setter(leaf(r, p), i).replace("v[", "a[") for i, p in enumerate(paths))
    ty = path(r)
    d = "None" if r in NODEFAULT else f"Some(|| <{ty}>::default().tv())"
    w(f"  MadeEntry {{ name: \"{r}\", make: Some(|a| <{ty}>::new({args}).tv()), default: {d} }},")
for r in recs:
    if r not in L["ctors"] and r not in NODEFAULT and not r.startswith("User"):
        w(f"  MadeEntry {{ name: \"{r}\", make: None, default: Some(|| <{path(r)}>::default().tv()) }},")
w("]}")
w("")
table(L["pdus"])
open(root + "/harness/src/glue.rs", "w").write("\n".join(out) + "\n")

# PDUs defined outside the library
out.clear()
w("// Generated by tools/gen.py from spec/layouts.json.  Do not edit.")
w("#![allow(clippy::all, unused_imports, unused_variables, unused_mut)]")
w("use crate::val::*; use crate::rt::*;")
w("use open_dis_rust::common::{GenericHeader, Pdu};")
for r in L["records"]:
    if r.startswith("User"):
        bind(r)
for h, d in L["heads"].items():
    if h.startswith("User"):
        fs = fields(d["fields"])
        w(f"impl Bind for {path(h)} {{")
        w("  fn fv(v: &Val) -> Self { let v = v.tup();")
        w(f"    let mut x = <{path(h)}>::default();")
        for i, f in enumerate(fs):
            w(f"    x.{f['n']} = {setter(f, i)};")
        w("    x }")
        w("  fn tv(&self) -> Val { Val::T(vec![" + ", ".join(getter(f, "self") for f in fs) + "]) }")
        w("}")
        # a field assigned directly, or with the setter the library uses
        w(f"impl Head for {path(h)} {{")
        w("  fn put(&mut self, i: usize, f: &Val, via: usize) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match (i, via) {")
        for i, f in enumerate(fs):
            role = {d["type"] - 1: "pdu_type", d["family"] - 1: "protocol_family", d["length"] - 1: "length"}.get(i)
            if role:
                w(f"    ({i}, 1) => x.set_{role}(Bind::fv(f)),")
            w(f"    ({i}, _) => x.{f['n']} = {setter(f, i)},")
        w("    _ => panic!(\"no such field\") } }")
        w("}")
table({**L["users"], **L["own"]})
open(root + "/harness/src/glue_user.rs", "w").write("\n".join(out) + "\n")
