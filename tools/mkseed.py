#!/usr/bin/env python3
"""mkseed.py FILE.py...   turns planted-bug definitions into seeded/<id>/.

A definition file defines `SEEDS`, a list of dicts: id, property, needs, breaks,
edits: [(file, old, new)], demo: Go source of a main package (or tests: {path: source}
with an in-package test run through an overlay). Every bug is confirmed in a scratch
copy: it builds, the baseline tests pass, the demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile, runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
DEMO = '''#!/bin/bash
# Exits 0 if the repository in the current directory behaves correctly.
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off HOME=${HOME:-/root}
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/work" "$t/tmp"; export TMPDIR=$t/tmp
'''
RUN_MAIN = DEMO + '''sed "s#^module .*#module demo#" go.mod > "$t/work/go.mod"
printf 'require github.com/dargueta/disko v0.0.0\\nreplace github.com/dargueta/disko => %s\\n' "$repo" >> "$t/work/go.mod"
cp go.sum "$t/work/go.sum"
cp "$d/main.go" "$t/work/main.go"
cd "$t/work" && timeout 120 go run .
'''
RUN_TEST = DEMO + '''printf '{"Replace": {"%%s": "%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$d/demo_test.go.txt" > "$t/overlay.json"
timeout 120 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def baseline(repo):
    p = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], repo)
    ok = set()
    for line in p.stdout.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add((e["Package"], e["Test"]))
    return ok


def main():
    scratch = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(scratch, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        good = baseline(repo)
        print("baseline:", len(good))
        for f in sys.argv[1:]:
            for s in runpy.run_path(f)["SEEDS"]:
                one(repo, good, s)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def one(repo, good, s):
    d = os.path.join(V, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seedout-")
    def fail(msg):
        print("FAIL %s: %s" % (s["id"], msg))
        sh(["git", "checkout", "--", "."], repo)
        shutil.rmtree(tmp, ignore_errors=True)
    if "demo" in s:
        open(tmp + "/main.go", "w").write(s["demo"])
        open(tmp + "/demo.sh", "w").write(RUN_MAIN)
    else:
        open(tmp + "/demo_test.go.txt", "w").write(s["test"])
        open(tmp + "/demo.sh", "w").write(RUN_TEST % {"pkg": s["pkg"]})
    os.chmod(tmp + "/demo.sh", 0o755)
    p = sh(["bash", tmp + "/demo.sh"], repo)
    if p.returncode != 0:
        return fail("demo fails on the unchanged tree:\n" + p.stdout[-2500:])
    for file, old, new in s["edits"]:
        path = os.path.join(repo, file)
        text = open(path).read()
        if text.count(old) != 1:
            return fail("%d occurrences of %r in %s" % (text.count(old), old, file))
        open(path, "w").write(text.replace(old, new))
    open(tmp + "/patch.diff", "w").write(sh(["git", "diff"], repo).stdout)
    p = sh(["go", "build", "./..."], repo)
    if p.returncode != 0:
        return fail("doesn't build:\n" + p.stdout)
    missing = good - baseline(repo)
    if missing:
        return fail("tests fail: %s" % sorted(missing)[:5])
    p = sh(["bash", tmp + "/demo.sh"], repo)
    if p.returncode == 0:
        return fail("demo passes with the change")
    # does it change lines of the original repository?
    base = subprocess.run("git log --format=%h --reverse | head -1", shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.strip()
    removed = [l[1:] for l in open(tmp + "/patch.diff") if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
    orig = ""
    for file in {e[0] for e in s["edits"]}:
        orig += sh(["git", "show", "2aa402f:" + file], repo).stdout
    if not any(l.rstrip("\n") in orig.splitlines() for l in removed):
        print("NOTE %s: no removed line is in the original repository" % s["id"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    sh(["git", "checkout", "--", "."], repo)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    shutil.rmtree(tmp)
    print("OK   %s" % s["id"])


if __name__ == "__main__":
    main()
