"""Shared machinery of the checks: building the harness, running TLC, generating
operation scripts from the specification's state graph, executing them on the
real code and validating the recorded traces against the specification."""

import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check itself failed; says nothing about the property."""


def go_env():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*",
               GONOSUMCHECK="1", GOSUMDB="off", CGO_ENABLED="0")
    env.setdefault("HOME", "/root")
    return env


class StartPanic(Exception):
    """The packages under test panic before anything can be asked of them."""


class Work:
    """A scratch directory plus the harness built from the current tree."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.harness = os.path.join(self.dir, "vh")
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def build(self):
        src = os.path.join(self.dir, "harness")
        shutil.copytree(HARNESS, src)
        # go.sum is /repo's, so that nothing has to be resolved
        shutil.copy("/repo/go.sum", os.path.join(src, "go.sum"))
        p = subprocess.run(["go", "build", "-o", self.harness, "."], cwd=src, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("building the harness against /repo failed:\n" + p.stdout[-4000:])

    def build_tool(self, pkg, name):
        out = os.path.join(self.dir, name)
        p = subprocess.run(["go", "build", "-o", out, pkg], cwd="/repo", env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("building %s failed:\n%s" % (pkg, p.stdout[-4000:]))
        return out

    def run_scripts(self, component, scripts, timeout=700, env=None):
        """Executes scripts, returns the path of the recorded traces."""
        sp, tp = self.path("scripts.ndjson"), self.path("traces.ndjson")
        with open(sp, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        e = dict(os.environ, TMPDIR=self.dir)
        e.update(env or {})
        p = subprocess.run([self.harness, "run", component, sp, tp, str(JOBS)], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        if p.returncode == 2 and p.stderr.startswith(("panic:", "fatal error:")) and "main.init" not in p.stderr:
            raise StartPanic(p.stderr[-3000:])
        if p.returncode != 0:
            raise CheckError("harness failed (%d): %s" % (p.returncode, p.stderr[-3000:]))
        info = json.loads(p.stdout.strip().splitlines()[-1])
        return tp, info

    # ------------------------------------------------------------------ TLC

    def tlc(self, module, cfg=None, workers=None, env=None, timeout=800, heap="6g",
            extra=(), constants=None, stack="256m"):
        """Runs TLC on a module of /verif/spec. Returns (exit code, output path)."""
        md = self.path("tlc")
        os.makedirs(md)
        cfgpath = os.path.join(SPEC, cfg or module + ".cfg")
        if constants:
            text = open(cfgpath).read()
            for k, v in constants.items():
                text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k),
                                  lambda m: m.group(1) + str(v), text)
                if n != 1:
                    raise CheckError("constant %s is not set in %s" % (k, cfgpath))
            cfgpath = os.path.join(md, "run.cfg")
            open(cfgpath, "w").write(text)
        out = os.path.join(md, "out.txt")
        e = dict(os.environ)
        e["TMPDIR"] = self.dir
        e.update(env or {})
        jopts = "-Xmx%s -Djava.io.tmpdir=%s -XX:+UseParallelGC" % (heap, self.dir)
        if stack:
            jopts += " -Xss%s" % stack
        e["JDK_JAVA_OPTIONS"] = jopts
        cmd = ["tlc", "-config", cfgpath, "-workers", str(workers or JOBS), "-metadir", md,
               "-noGenerateSpecTE", "-nowarning"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s" % module)
        return p.returncode, out

    def model_check(self, module, cfg=None, constants=None, graph=False, workers=None, timeout=800):
        """Checks a bounded instance exhaustively; it has to hold. With graph=True
        also returns the transitions printed by the specification."""
        rc, out = self.tlc(module, cfg, constants=constants, timeout=timeout,
                           workers=workers)
        text = open(out, errors="replace").read() if not graph else tail_and_head(out)
        if rc != 0:
            raise CheckError("model check of %s failed (exit %d):\n%s" % (module, rc, last_lines(out, 60)))
        st = stats(last_lines(out, 40))
        edges = read_graph(out) if graph else None
        return st, edges

    def validate(self, module, traces, cfg=None, timeout=800, heap="8g"):
        """Validates traces. Returns (stats, None) or (stats, violation info)."""
        if os.path.getsize(traces) == 0:
            raise CheckError("no traces were recorded")
        rc, out = self.tlc(module, cfg, env={"TRACE": traces}, timeout=timeout, heap=heap)
        st = stats(last_lines(out, 60))
        if rc == 0:
            return st, None
        # 75-77, 255: the event is so unlike what the specification describes that one of
        # its actions can't even be evaluated
        text = last_lines(out, 4000)
        unlike = rc in (75, 76, 77) or (rc == 255 and "when TLC was evaluating" in text
                                        and "OutOfMemory" not in text and "StackOverflow" not in text)
        if rc in (11, 12) or (unlike and "/\\ ep = " in text):
            return st, rejection(out, traces, rc)
        raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, rc, last_lines(out, 60)))


def tail_and_head(path):
    return ""


def last_lines(path, n):
    with open(path, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - 200000))
        data = f.read().decode(errors="replace")
    return "\n".join(data.splitlines()[-n:])


def stats(text):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    return {"generated": int(m.group(1)), "distinct": int(m.group(2))} if m else {"generated": 0, "distinct": 0}


def rejection(out, traces, rc):
    text = open(out, errors="replace").read()
    eps = re.findall(r"/\\ ep = (\d+)", text)
    ls = re.findall(r"/\\ l = (\d+)", text)
    if not eps or not ls:
        raise CheckError("TLC reports a violation but its state can't be found:\n" + text[-3000:])
    ep, l = int(eps[-1]), int(ls[-1])
    with open(traces) as f:
        for k, line in enumerate(f, 1):
            if k == ep:
                trace = json.loads(line)
                break
    i = text.rfind("\nState ")
    state = text[i:i + 6000].strip() if i >= 0 else ""
    inv = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated", text)
    return {
        "episode": trace["i"],
        "event_index": l,
        "event": trace["ev"][l - 1] if l <= len(trace["ev"]) else None,
        "before": trace["ev"][max(0, l - 6):l - 1],
        "reason": ("invariant " + (inv.group(1) or inv.group(2)) + " violated") if inv
        else "no action of the specification explains this event" + (
            "" if rc == 11 else " (exit %d)" % rc),
        "spec_state": state,
        "trace": trace["ev"],
    }


# ---------------------------------------------------------------- state graphs

def read_graph(out):
    """Transitions printed as  "T<json>"  by the action constraint of an MC module."""
    edges = []
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"T{'):
                edges.append(json.loads(json.loads(line)[1:]))
    return edges


def key(x):
    return hashlib.md5(json.dumps(x, sort_keys=True).encode()).digest()


def is_mod(lab):
    """Labels of steps that are part of the environment's behaviour during a call."""
    return lab["k"] not in ("ret", "opened") and lab.get("ok") is not True


def contract(edges, starts_op=("call", "open"), is_mod=is_mod):
    """Contracts a state graph to the states between calls. The result has one
    transition for every such state, call, and behaviour of the environment during
    the call: (start nodes, {node: [(labels, next node)]})."""
    ids, succ, roots = {}, {}, []

    def nid(x):
        k = key(x)
        if k not in ids:
            ids[k] = len(ids)
        return ids[k]

    # independent of the order in which TLC's workers found them
    edges = sorted(edges, key=lambda e: json.dumps(e, sort_keys=True))
    for e in edges:
        s, t = nid(e["s"]), nid(e["t"])
        succ.setdefault(s, []).append((e["l"], t))
        if e["d"] == 1 and s not in roots:
            roots.append(s)
    if not roots:
        raise CheckError("the printed state graph has no initial state")
    out = {}
    todo = list(roots)
    seen = set(roots)
    while todo:
        s = todo.pop()
        segs = {}
        for lab, t in succ.get(s, ()):
            if lab["k"] not in starts_op:
                continue
            stack, visited = [(t, (json.dumps(lab),))], set()
            while stack:
                u, mods = stack.pop()
                if (u, mods) in visited:
                    continue
                visited.add((u, mods))
                for l2, v in succ.get(u, ()):
                    if l2["k"] in starts_op:
                        segs.setdefault(mods, set()).add(u)
                        continue
                    stack.append((v, mods + (json.dumps(l2),) if is_mod(l2) else mods))
                if u not in succ:
                    segs.setdefault(mods, set()).add(u)
        res = []
        for mods, ts in sorted(segs.items()):
            t = min(ts)
            res.append(([json.loads(m) for m in mods], t))
            for t in sorted(ts):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        # states reached only by other outcomes of the same step are starts of
        # further alternatives
            for t in sorted(ts)[1:]:
                res.append(([json.loads(m) for m in mods], t))
        out[s] = res
    return roots, out


def covering_walks(edges, rng, max_len=40, limit=None, **kw):
    """Walks from initial states that together take every transition of the
    contracted state graph at least once. Returns (lists of labels, number of
    transitions, number of transitions taken)."""
    roots, succ = contract(edges, **kw)
    parent = {s: None for s in roots}
    queue = list(roots)
    for s in queue:
        for i, (_, t) in enumerate(succ.get(s, [])):
            if t not in parent:
                parent[t] = (s, i)
                queue.append(t)
    # one step of several alternatives is taken as one: what happens is up to the code
    todo = {}
    total = 0
    for s, v in succ.items():
        if s not in parent:
            continue
        uniq = {}
        for i, (labs, _) in enumerate(v):
            uniq.setdefault(json.dumps(labs), i)
        todo[s] = list(uniq.values())
        total += len(todo[s])
        rng.shuffle(todo[s])
    order = [s for s in reversed(queue) if s in todo]
    if limit:
        rng.shuffle(order)
    walks, taken = [], 0
    for s0 in order:
        while todo[s0]:
            path = []
            s = s0
            while parent[s] is not None:
                p, i = parent[s]
                path.append((p, i))
                s = p
            path.reverse()
            labels = []
            for p, i in path:
                labels += succ[p][i][0]
                if i in todo.get(p, ()):
                    todo[p].remove(i)
                    taken += 1
            s, n = s0, len(path)
            while n < max(max_len, len(path) + 1):
                if not todo.get(s):
                    break
                i = todo[s].pop()
                taken += 1
                labs, t = succ[s][i]
                labels += labs
                s = t
                n += 1
            walks.append(labels)
            if limit and len(walks) >= limit:
                return walks, total, taken
    return walks, total, taken
