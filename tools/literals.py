"""Literals of the library's source: values worth trying as inputs.

They steer what the harness generates and decide nothing: a tree in which a comparison with 37 has appeared is worth
trying with 36, 37 and 38 elements.  Literals that spec/literals_base.json (the tree the specification was written from)
does not have are tried more often."""
import json, os, re, struct, sys

NUM = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(?:_?(?:[iuf](?:8|16|32|64|128|size)))?(?![\w])")
CHR = re.compile(r"b?'(\\.|\\x[0-9a-fA-F]{2}|[^\\'])'")
VAR = re.compile(r"\b([A-Z]\w+)::([A-Z]\w*)\b")

def scan(src):
    nums, vars_ = {}, {}
    for root, _, files in os.walk(src):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(root, f), errors="replace").read()
            s = re.sub(r"//[^\n]*", "", s)
            s = s.split("#[cfg(test)]")[0]
            if f == "enums.rs":
                # the tables themselves are not literals of interest, code between them would be
                s = re.sub(r"\benum\s+\w+[^{]*\{.*?\n\}", "", s, flags=re.S)
                s = re.sub(r"\b[A-Z]\w*\s*=\s*[\w]+,?", "", s)
            for m in NUM.findall(s):
                t = m.replace("_", "")
                try:
                    x = int(t, 0) if re.match(r"0[xbo]", t) or t.isdigit() else float(t)
                except ValueError:
                    continue
                nums[x] = nums.get(x, 0) + 1
            for m in CHR.findall(s):
                try:
                    x = ord(m.encode().decode("unicode_escape")) if m.startswith("\\") else ord(m)
                except Exception:
                    continue
                nums[x] = nums.get(x, 0) + 1
            for a, b in VAR.findall(s):
                vars_[a + "::" + b] = vars_.get(a + "::" + b, 0) + 1
    return nums, vars_

def flat(nums):
    ints, floats = [], []
    for x in nums:
        if isinstance(x, int):
            if x < 1 << 64: ints.append(x)
        else:
            floats.append(x)
    return sorted(ints), sorted(floats)

def write(src, base, out):
    nums, vars_ = scan(src)
    b = json.load(open(base)) if os.path.exists(base) else {"ints": {}, "vars": {}}
    more = lambda d, x: d.get(str(x), 0)
    new = {x for x, n in nums.items() if n > more(b["ints"], x)}
    newv = sorted(v for v, n in vars_.items() if n > more(b["vars"], v))
    i, f = flat(nums)
    ni, nf = flat(new)
    json.dump({"ints": i, "floats": f, "new_ints": ni, "new_floats": nf, "vars": sorted(vars_), "new_vars": newv}, open(out, "w"))

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    nums, vars_ = scan("/repo/src")
    json.dump({"ints": {str(k): v for k, v in sorted(nums.items())}, "vars": dict(sorted(vars_.items()))}, open(os.path.join(here, "spec/literals_base.json"), "w"))
