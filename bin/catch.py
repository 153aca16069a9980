#!/usr/bin/env python3
"""Runs, for each planted bug named (all by default), the check of its property on copies of /repo and /verif with it: catch.py [-a] [ID...].
No check uses this.  -a: every other property's check too, to see which alarms it raises.  -pC01: only that property's check.  A path to a .diff does as an ID, with -a or -p."""
import json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAB = os.environ.get("LAB", "/tmp/w/catchlab")
os.makedirs(LAB, exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "/repo/", LAB + "/repo/"], check=True) if shutil.which("rsync") else None
if not os.path.exists(LAB + "/repo"):
    subprocess.run(["cp", "-a", "/repo", LAB + "/repo"], check=True)
subprocess.run(["git", "-C", LAB + "/repo", "checkout", "-q", "--", "."], check=True)
for d in ("bin", "spec", "corpus", "harness"):
    shutil.copytree(f"{VERIF}/{d}", f"{LAB}/verif/{d}", dirs_exist_ok=True, ignore=shutil.ignore_patterns("target", "__pycache__"))
shutil.copy(VERIF + "/known-findings.json", LAB + "/verif/")
p = LAB + "/verif/harness/Cargo.toml"
open(p, "w").write(open(f"{VERIF}/harness/Cargo.toml").read().replace('"/repo', f'"{LAB}/repo'))
only = [a[2:] for a in sys.argv[1:] if a.startswith("-p")]
ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.listdir(VERIF + "/seeded"))
for id in ids:
    dir = f"{VERIF}/seeded/{id}"
    diff = id if id.endswith(".diff") else dir + "/patch.diff"
    props = only or [json.load(open(dir + "/meta.json"))["property"]] if "-a" not in sys.argv else re.findall(r"^def (C\d\d)\(", open(VERIF + "/bin/checks.py").read(), re.M)
    subprocess.run(["git", "-C", LAB + "/repo", "apply", os.path.abspath(diff)], check=True)
    try:
        for p in props:
            t = time.time()
            r = subprocess.run(["timeout", "900", "python3", LAB + "/verif/bin/check.py", p], cwd=LAB + "/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(id, p, r.returncode, f"{time.time()-t:.0f}s", line[0][:200] if line else (r.stdout + r.stderr)[-200:].replace("\n", " ") if r.returncode else "quiet", flush=True)
    finally:
        subprocess.run(["git", "-C", LAB + "/repo", "checkout", "-q", "--", "."], check=True)
