#!/usr/bin/env python3
"""Joins the transitions of a machine of the specification, as TLC prints them (EDGE lines), to
tours that take every one of them: spec/lifecycle_tours.json from Lifecycle.tla, spec/stream_tours.json
from Stream.tla.  The harness plays the tours to the real code; the files are committed and only
made anew when the machine changes:   tools/tours.py Lifecycle
"""
import json, os, random, re, subprocess, sys
from collections import defaultdict, deque

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
LONGEST = 40

def edges(module):
    out = subprocess.run([os.path.join(HERE, "tools/tlcrun.sh"), module, module + "_edges.cfg"], cwd=SPEC, capture_output=True, text=True).stdout
    assert "No error has been found" in out, out[-2000:]
    seen = set()
    for m in re.findall(r'^<<"EDGE", (".*")>>$', out, re.M):
        a, act, b = json.loads(json.loads(m))
        seen.add((json.dumps(a), json.dumps(act), json.dumps(b)))
    return sorted(seen)

def tours(es, start, seed=1):
    rnd = random.Random(seed)
    out = defaultdict(list)
    for a, act, b in es:
        out[a].append((act, b))
    todo = {(a, act, b) for a, act, b in es}
    done = []
    while todo:
        at, tour = start, []
        while len(tour) < LONGEST:
            here = [(act, b) for act, b in out[at] if (at, act, b) in todo]
            if here:
                act, b = rnd.choice(here)
                todo.discard((at, act, b))
                tour.append(act)
                at = b
                continue
            # the nearest place something is left to do
            back = {at: None}
            q = deque([at])
            hit = None
            while q and hit is None:
                x = q.popleft()
                nb = out[x][:]
                rnd.shuffle(nb)
                for act, b in nb:
                    if b not in back:
                        back[b] = (x, act)
                        if any((b, c, d) in todo for c, d in out[b]):
                            hit = b
                            break
                        q.append(b)
            if hit is None:
                break
            path = []
            x = hit
            while back[x]:
                path.append(back[x][1])
                x = back[x][0]
            tour += reversed(path)
            at = hit
        if not tour:
            break
        done.append([json.loads(a) for a in tour])
    return done, len(todo)

if __name__ == "__main__":
    module = sys.argv[1]
    es = edges(module)
    start = {"Lifecycle": lambda a: a[0] == 1 and not a[4] and not a[6], "Stream": lambda a: True}[module]
    s = sorted({a for a, _, _ in es if start(json.loads(a)) and json.loads(a)[1:] == [True, True, False, False, False, False, True]} if module == "Lifecycle" else {es[0][0]})[0]
    ts, left = tours(es, s)
    p = os.path.join(SPEC, module.lower() + "_tours.json")
    with open(p, "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(t, separators=(",", ":")) for t in ts) + "\n]\n")
    print(module, "transitions", len(es), "not reached", left, "tours", len(ts), "steps", sum(map(len, ts)))
