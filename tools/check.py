#!/usr/bin/env python3
"""Decide one property: build the simulator from the current /repo tree, search, report.
usage: check.py PROPERTY   (environment: VERIF_SEED, VERIF_TIER)"""
import fcntl, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from checks import CHECKS

def build(out, flavour):
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(here, "tools/build.sh"), out, flavour], stdout=sys.stderr)
    if r.returncode:
        print("the build of the simulator failed", file=sys.stderr)
        sys.exit(3)
    return os.path.join(out, "simyaga")

def main():
    prop = sys.argv[1]
    c = CHECKS[prop]
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    os.chdir(here)
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replays", exist_ok=True)
    flavour = c.get("flavour", "fast")
    exe = build(os.path.join(here, "_build", flavour), flavour)
    runs, seconds = c["quick"] if tier == "quick" else c["thorough"]
    cmd = [exe, "check", prop, "--seed", seed, "--tier", tier, "--runs", str(runs), "--seconds", str(seconds),
           "--out", f"evidence/{prop}.json", "--known", "known_findings", "--corpus", "corpus/list",
           "--replays", "replays", "--real", c["real"], "--stub", c["stub"], "--rule", c["rule"]]
    sys.exit(subprocess.run(cmd).returncode)

main()
