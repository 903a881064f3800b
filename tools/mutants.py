#!/usr/bin/env python3
"""tools/mutants.py N [--seed S] [--only REGEX] [--log FILE]
tools/mutants.py --patch FILE...     play every property against the patched copy (nothing should be noticed of a
                                     change that keeps the behaviour)

Makes N small random changes to a scratch copy of /repo, drops those the existing
tests notice, and plays a short round of every property's sessions against the
others (screening only: no TLC).  What no property notices is written to the log,
to be looked at: either nothing observable changed, or a check has a hole."""
import json, os, random, re, shutil, subprocess, sys, time

W = os.environ.get("MUTWORK", "/tmp/mutwork")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAN = {  # sessions per property in a short round
    "C01": 40000, "C02": 6000, "C03": 60000, "C04": 30000, "C05": 60000, "C06": 30000, "C07": 60000, "C08": 1500, "C09": 3000, "C10": 2500,
    "C11": 60000, "C12": 405, "C13": 8000, "C14": 8000, "C15": 50000, "C16": 20000, "C17": 10000, "C18": 30000, "C19": 12000, "C20": 12000,
    "C21": 20000, "C22": 50000, "C23": 100000, "C24": 40000, "C25": 8000, "C29": 12000}
USER = {"C26": 40000, "C27": 60000, "C28": 40000}

def sh(cmd, cwd, timeout=300, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")

def setup():
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(W + "/repo", ignore_errors=True)
    shutil.rmtree(W + "/harness", ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
    subprocess.run(["cp", "-a", VERIF + "/harness", W + "/harness"], check=True)
    p = W + "/harness/Cargo.toml"
    s = open(p).read()
    open(p, "w").write(s.replace('"/repo"', '"%s/repo"' % W).replace('"../../repo"', '"%s/repo"' % W))
    assert W in open(p).read(), open(p).read()

def sources():
    out = []
    for d, _, fs in os.walk(W + "/repo/src"):
        out += [os.path.join(d, f) for f in fs if f.endswith(".rs")]
    return sorted(out)

OPS = [
    (r"(?<![\w.#\"])(\d+)(?=(?:_?usize|u8|u16|u32|u64)?\b)(?![\w.]*\")", lambda m, r: str(max(0, int(m.group(1)) + r.choice([1, -1, 2, 8])))),
    (r" < ", lambda m, r: " <= "), (r" > ", lambda m, r: " >= "), (r" <= ", lambda m, r: " < "), (r" >= ", lambda m, r: " > "),
    (r" == ", lambda m, r: " != "), (r" \+ ", lambda m, r: " - "), (r" - ", lambda m, r: " + "), (r" \* ", lambda m, r: " + "),
    (r" & ", lambda m, r: " | "), (r" \| ", lambda m, r: " & "), (r" << ", lambda m, r: " >> "), (r" >> ", lambda m, r: " << "),
    (r"&& ", lambda m, r: "|| "), (r" as u16\b", lambda m, r: " as u8 as u16"), (r" as u32\b", lambda m, r: r.choice([" as u16 as u32", " as u8 as u32"])),
    (r" as usize\b", lambda m, r: r.choice([" as u8 as usize", " as u16 as usize", " as i8 as usize"])),
    (r"usize::from\(([^()]*)\)", lambda m, r: "usize::from((%s) & 0x7f)" % m.group(1)),
    (r"\.len\(\)", lambda m, r: r.choice([".len().min(255)", ".len().saturating_sub(1)", ".len().min(4)"])),
    (r"put_u16\(", lambda m, r: "put_u16_le("), (r"put_u32\(", lambda m, r: "put_u32_le("), (r"put_f32\(", lambda m, r: "put_f32_le("),
    (r"get_u16\(", lambda m, r: "get_u16_le("), (r"get_u32\(", lambda m, r: "get_u32_le("), (r"get_u64\(", lambda m, r: "get_u64_le("),
    (r"saturating_sub", lambda m, r: "wrapping_sub"), (r"unwrap_or_default\(\)", lambda m, r: "unwrap()"), (r"div_ceil\(", lambda m, r: "div_euclid("),
    (r"\bif ([^{}]+) \{", lambda m, r: r.choice(["if !(%s) {" % m.group(1), "if true || %s {" % m.group(1), "if false && (%s) {" % m.group(1)])),
    (r"\bself\.(\w+)", lambda m, r: None), (r"\bOk\(\(\)\)", lambda m, r: None),
    (r"\bmin\(", lambda m, r: "max("), (r"\bmax\(", lambda m, r: "min("),
    (r"\bu16\b", lambda m, r: "u8"), (r"\bu32\b", lambda m, r: "i32"), (r"\bf32\b", lambda m, r: "u32"), (r"\bu64\b", lambda m, r: "i64"),
]

def candidates(path, text, r):
    """(start, end, new) of the changes possible in one file."""
    cut = text.find("#[cfg(test)]")
    body = text if cut < 0 else text[:cut]
    out = []
    lines = body.split("\n")
    pos = 0
    spans = []
    for l in lines:
        spans.append((pos, pos + len(l)))
        pos += len(l) + 1
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith("//") or t.startswith("#[") or t.startswith("use ") or t.startswith("*") or "pub mod" in t:
            continue
        a, b = spans[i]
        for rx, f in OPS:
            for m in re.finditer(rx, l):
                n = f(m, r)
                if n is not None and n != m.group(0):
                    out.append((a + m.start(), a + m.end(), n))
        if t.endswith(";") and not t.startswith("let ") and not t.startswith("return") and not t.startswith("pub "):
            out.append((a, b, ""))
        # the order of declarations makes no difference, that of the fields of a PDU does, unless they are padding
        decl = re.match(r"(pub )?\w+: [^()]*,$|pub use |use |//|mod ", t) and not re.match(r"[^:]*: .*\(", t)
        inmacro = "src/common" not in path and "padding" not in t and "header:" not in t
        if decl and not inmacro:
            continue
        if i + 1 < len(lines) and t and lines[i + 1].strip() and t[-1] in ";," and lines[i + 1].strip()[-1] in ";," and t != lines[i + 1].strip():
            out.append((a, spans[i + 1][1], lines[i + 1] + "\n" + l))
            out.append((a, spans[i + 1][1], lines[i + 1] + "\n" + l))
    return out

def screen(env, stop):
    """Which properties notice something about the copy (at most `stop` of them)."""
    by = []
    def play(props, exe):
        for p in props:
            q = sh([exe, "run", p, "--seed", "1", "--n", str(props[p]), "--sample", "0", "--out", W + "/o.nd", "--stuck", W + "/stuck", "--spec", VERIF + "/spec",
                    "--literals", W + "/lit.json"], VERIF, 300, env=env)
            if q.returncode != 0 or json.loads(q.stdout.strip().splitlines()[-1])["suspicious"]:
                by.append(p)
                if len(by) >= stop:
                    return
    q = sh([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import literals; literals.write(%r, %r, %r)" %
            (VERIF + "/tools", W + "/repo/src", VERIF + "/spec/literals_base.json", W + "/lit.json")], VERIF)
    assert q.returncode == 0, q.stderr
    for props, extra in ((PLAN, []), (USER, ["--features", "user"])):
        target = W + ("/target-user" if extra else "/target")
        q = sh(["cargo", "build", "--release", "--offline", "--target-dir", target] + extra, W + "/harness", 400, env=env)
        if q.returncode != 0:
            return by + ["harness does not build"]
        play(props, target + "/release/conform")
        if len(by) >= stop:
            break
    return by

def main():
    env = dict(os.environ, CARGO_TERM_COLOR="never", TZ="XYZ-5:43")
    if "--patch" in sys.argv:
        for p in sys.argv[sys.argv.index("--patch") + 1:]:
            setup()
            subprocess.run(["git", "apply", os.path.abspath(p)], cwd=W + "/repo", check=True)
            print(p, screen(env, 99), flush=True)
        return
    n = int(sys.argv[1])
    opt = lambda k, d: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
    r = random.Random(int(opt("--seed", "1")))
    only = re.compile(opt("--only", "."))
    log = open(opt("--log", W + "/log.txt"), "a")
    setup()
    files = [f for f in sources() if only.search(f)]
    # enums.rs is most of the text and least of the logic
    weights = [min(30, len(open(f).read()) ** 0.5) for f in files]
    tally = {"no build": 0, "tests": 0, "caught": 0, "MISSED": 0}
    done = 0
    while done < n:
        f = r.choices(files, weights)[0]
        text = open(f).read()
        c = candidates(f, text, r)
        if not c:
            continue
        a, b, new = r.choice(c)
        line = text[:a].count("\n") + 1
        ls, le = text.rfind("\n", 0, a) + 1, text.find("\n", b)
        what = "%s:%d\n  - %s\n  + %s" % (os.path.relpath(f, W + "/repo"), line, text[ls:le].strip(), (text[ls:a] + new + text[b:le]).strip())
        open(f, "w").write(text[:a] + new + text[b:])
        try:
            q = sh(["cargo", "test", "--offline", "-q"], W + "/repo", 200, env=env)
            if q.returncode != 0:
                k = "no build" if "could not compile" in q.stderr else "tests"
                tally[k] += 1
                continue
            done += 1
            t0 = time.time()
            by = []
            if not by:
                by = screen(env, 3)
            k = "caught" if by else "MISSED"
            tally[k] += 1
            print("%s %s %s (%.0f s)" % (k, ",".join(by), what, time.time() - t0), file=log, flush=True)
        finally:
            open(f, "w").write(text)
    print(tally, file=log, flush=True)

main()
