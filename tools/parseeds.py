#!/usr/bin/env python3
"""parseeds.py [-jN] [-p PROPS] [-s SEED] [DIR_OR_ID...]   like runseeds.py, but on scratch copies of
/verif and /repo, some at a time: every planted bug (a directory with patch.diff and meta.json, or
the name of one in seeded/; "clean" for none) is applied to its own copy, and the check of its property
(or of every one of PROPS, separated by commas) is run there. For development only."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs, props, seed, args = 3, None, None, []
it = iter(sys.argv[1:])
for a in it:
    if a.startswith("-j"):
        jobs = int(a[2:] or next(it))
    elif a == "-p":
        props = next(it).split(",")
    elif a == "-s":
        seed = next(it)
    else:
        args.append(a)
base = tempfile.mkdtemp(prefix="parseeds-")


def copy(k):
    here = os.path.join(base, k)
    os.makedirs(here)
    repo, verif = here + "/repo", here + "/verif"
    shutil.copytree("/repo", repo, symlinks=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
    shutil.copytree(V, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "__pycache__"))
    for f in glob.glob(verif + "/bin/*.py") + [verif + "/harness/go.mod"]:
        s = open(f).read()
        open(f, "w").write(s.replace('"/repo"', '"%s"' % repo).replace('"/repo/', '"%s/' % repo).replace("=> /repo", "=> " + repo))
    return here, repo, verif


def run(a):
    d = a if os.path.isdir(a) else V + "/seeded/" + a
    name = os.path.basename(os.path.normpath(a))
    here, repo, verif = copy(name)
    out = []
    try:
        if a != "clean":
            subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, check=True)
        for prop in props or [json.load(open(d + "/meta.json"))["property"]]:
            t = time.time()
            env = dict(os.environ)
            if seed:
                env["VERIF_SEED"] = seed
            p = subprocess.run(["python3", "bin/check.py", prop], cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            caught = p.returncode == 1 and ("VIOLATION property=%s " % prop) in p.stdout
            out.append((name, prop, caught, p.returncode))
            print("%-28s %s %s rc=%d %.0fs" % (name, prop, "caught" if caught else "quiet" if p.returncode == 0 else "?", p.returncode, time.time() - t), flush=True)
            if p.returncode not in (0, 1) or (a == "clean" and p.returncode):
                print(p.stdout[-3000:])
    finally:
        shutil.rmtree(here)
    return out


with ThreadPoolExecutor(jobs) as ex:
    res = [r for rs in ex.map(run, args or sorted(os.listdir(V + "/seeded"))) for r in rs]
shutil.rmtree(base)
print("missed:", [r[:2] for r in res if not r[2] and r[0] != "clean"])
