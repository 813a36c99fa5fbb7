#!/usr/bin/env python3
"""runseeds.py [ID...]   applies each planted bug to /repo in turn, runs the check of
its property, undoes it, and prints which were caught. --all-checks PROPS: run these
checks instead."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
claimed = {c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout == b"", "dirty /repo"
missed = []
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    if prop not in claimed:
        print(i, prop, "not claimed"); continue
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        t = time.time()
        p = subprocess.run(["python3", "bin/check.py", prop], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    caught = p.returncode == 1 and ("VIOLATION property=%s " % prop) in p.stdout
    print("%-28s %s %s rc=%d %.0fs" % (i, prop, "caught" if caught else "MISSED", p.returncode, time.time() - t), flush=True)
    if not caught:
        missed.append(i)
        print(p.stdout[-1500:] if p.returncode != 0 else "")
    elif "-v" in sys.argv:
        print(p.stdout[:2000])
print("missed:", missed)
