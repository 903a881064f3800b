#!/usr/bin/env python3
"""Planted bugs (seeded/<id>/): make, confirm and try them.  No check uses this file.

  seedkit.py confirm ID...    in a scratch copy of /repo: the patch applies, builds, passes the stable tests; the
                              demonstration passes without it and fails with it
  seedkit.py table            write the table of them into DESIGN.md
  seedkit.py try ID...        apply to /repo, run the check of its property (or --checks C01,C02), undo
"""
import json, os, re, subprocess, sys, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
SCRATCH = "/tmp/seedwork"

DEMO = '''#!/bin/bash
# run in the root of the repository; exits 0 if the library behaves
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
open-dis-rust = { path = "$repo" }
bytes = "1"
[workspace]
EOF
cd "$work" && cargo run -q --offline --target-dir "$work/target" 2>"$work/err"
rc=$?
[ $rc -ne 0 ] && tail -5 "$work/err"
exit $rc
'''

def sh(cmd, cwd=None, timeout=900, env=None):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    return r.returncode, r.stdout + r.stderr

def scratch():
    if not os.path.exists(SCRATCH):
        sh("cp -a /repo %s" % SCRATCH)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD && git -C %s checkout -q -- ." % (SCRATCH, SCRATCH, SCRATCH))
    return SCRATCH

def make(id, prop, needs, breaks, edits, main):
    """Write seeded/<id> from textual edits (file, old, new[, count])."""
    w = scratch()
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(w, f)
        s = open(p).read()
        n = s.count(old)
        want = e[3] if len(e) > 3 else 1
        if want == "all":
            want = n
        assert n == want and n > 0, "%s: %d matches in %s" % (id, n, f)
        open(p, "w").write(s.replace(old, new))
    rc, d = sh("git diff", cwd=w)
    sh("git checkout -q -- .", cwd=w)
    dst = os.path.join(SEEDED, id)
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, "patch.diff"), "w").write(d)
    open(os.path.join(dst, "main.rs"), "w").write(main)
    p = os.path.join(dst, "demo.sh")
    open(p, "w").write(DEMO)
    os.chmod(p, 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dst, "meta.json"), "w"), indent=1)

def confirm(id):
    w = scratch()
    d = os.path.join(SEEDED, id)
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, o = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), cwd=w)
    if rc: return "does not apply: " + o
    # lines removed must be the original repository's
    rc, diff = sh("git diff -U0", cwd=w)
    try:
        cur = None; mine = 0; orig = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for k in range(a, a + n):
                    rc, b = sh(["git", "blame", "-s", "-L", "%d,%d" % (k, k), "HEAD", "--", cur], cwd=w)
                    if b.startswith("^"): orig += 1
                    else: mine += 1
        rc, o = sh("cargo test --offline 2>&1", cwd=w)
        passed = re.findall(r"^test (\S.*?) \.\.\. ok$", o, re.M)
        if len(passed) < 212 or "FAILED" in o or rc: return "tests: %d passed rc %d\n%s" % (len(passed), rc, o[-2500:])
        rc1, o1 = sh(os.path.join(d, "demo.sh"), cwd=w)
    finally:
        sh("git checkout -q -- .", cwd=w)
    rc0, o0 = sh(os.path.join(d, "demo.sh"), cwd=w)
    if rc0 != 0: return "demo fails on the unchanged tree: " + o0
    if rc1 == 0: return "demo passes with the patch"
    if "error" in o1 and "panicked" not in o1: return "demo did not run: " + o1
    return "ok (removes %d original lines, %d of our own)" % (orig, mine)

def attempt(id, checks=None):
    d = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = []
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc: return "does not apply " + o
    try:
        for c in (checks or [prop]):
            t = time.time()
            rc, o = sh([os.path.join(HERE, "check"), c], cwd=HERE, timeout=1000)
            res.append("%s:%s(%ds)" % (c, {0: "quiet", 1: "CAUGHT", 2: "noanswer"}.get(rc, rc), time.time() - t))
            if rc == 2: res.append(o[-500:])
    finally:
        sh("git -C /repo checkout -q -- .")
    return " ".join(res)

def table():
    """The table of planted bugs in DESIGN.md (between its markers)."""
    rows = ["| change | property | what it breaks | shows only with |", "|---|---|---|---|"]
    for id in sorted(os.listdir(SEEDED)):
        m = json.load(open(os.path.join(SEEDED, id, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (id, m["property"], m["what_it_breaks"].rstrip(".").replace("|", "/"), m["needs"].rstrip(".").replace("|", "/")))
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- planted -->\n", "<!-- /planted -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])

if __name__ == "__main__":
    if sys.argv[1] == "table":
        table(); sys.exit()
    a = sys.argv[2:]
    checks = None
    if "--checks" in a:
        i = a.index("--checks"); checks = a[i + 1].split(","); del a[i:i + 2]
    ids = a or sorted(os.listdir(SEEDED))
    for id in ids:
        print(id, confirm(id) if sys.argv[1] == "confirm" else attempt(id, checks), flush=True)
