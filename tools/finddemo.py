#!/usr/bin/env python3
"""Look for a generated input on which a tool built elsewhere misbehaves (for demonstrations of
planted bugs). usage: finddemo.py SIMYAGA SMT PROP SEED N [dir] [ref-smt]; prints deviating inputs, smallest first."""
import os, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor
sim, smt, prop, seed, n = sys.argv[1:6]
d = sys.argv[6] if len(sys.argv) > 6 else "/tmp/fd"
ref = sys.argv[7] if len(sys.argv) > 7 else None
os.makedirs(d, exist_ok=True)
for f in os.listdir(d): os.unlink(os.path.join(d, f))
W = 8
ps = []
for w in range(W):
    subprocess.run(["find", f"{d}.{w}", "-type", "f", "-delete"], stderr=subprocess.DEVNULL)
    os.makedirs(f"{d}.{w}", exist_ok=True)
    ps.append(subprocess.Popen([sim, "dump", prop, str(int(seed) * 100 + w), str(int(n) // W), f"{d}.{w}"]))
for p in ps: p.wait()
opts = [[], ["--prop-rational"], ["--deduce-bounds"], ["--phase", "negative"], ["--phase", "cache"]]
def run(exe, path, o):
    try:
        r = subprocess.run([exe] + o + [path], capture_output=True, text=True, timeout=3)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, ""
def one(base):
    exp = open(base + ".exp").read().split()
    out = []
    if os.path.exists(base + ".smt2"):
        for o in opts:
            rc, so = run(smt, base + ".smt2", o)
            got = re.findall(r"^(sat|unsat)$", so, re.M)
            if rc or any(e != "?" and e != g for e, g in zip(exp, got)) or len(got) != len(exp): out.append((o, rc, got, exp))
            elif ref and run(ref, base + ".smt2", o) != (rc, so): out.append((o, "differs"))
    else:
        rc, so = run(smt[:-3] + "sat", base + ".cnf", [])
        if so.split()[:1] != exp: out.append(([], rc, so.split()[:1], exp))
    return base, out
bases = [f"{d}.{w}/{i}" for w in range(W) for i in range(int(n) // W)]
bases = [b for b in bases if os.path.exists(b + ".exp")]
with ThreadPoolExecutor(8) as ex: res = [r for r in ex.map(one, bases) if r[1]]
def size(b): return os.path.getsize(b + (".smt2" if os.path.exists(b + ".smt2") else ".cnf"))
res.sort(key=lambda r: size(r[0]))
print(len(bases), "inputs,", len(res), "deviate")
for b, o in res[:6]: print(b, size(b), o[:3])
