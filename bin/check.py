#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]      decide one property on /repo's current tree
   check.py --replay FILE              run the script of a recorded violation again

Exit status: 0 the property held on everything explored, 1 violation (with a
VIOLATION line), 2 the check itself failed."""

import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402
from vlib import CheckError, VERIF  # noqa: E402

FAMILIES = {
    "blockcache": ["C01", "C02", "C03", "C04", "C05"],
    "stream": ["C06", "C07", "C08", "C09"],
    "driver": ["C10", "C11", "C12", "C13", "C14", "C15", "C32"],
    "fat8": ["C16", "C17", "C18", "C19"],
    "fat": ["C20", "C21", "C22", "C23", "C31", "C33"],
    "codec": ["C24", "C25", "C26"],
    "misc": ["C27", "C28", "C29", "C30"],
}


class Violation(Exception):
    def __init__(self, path, info):
        self.path, self.info = path, info


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.trace_states = 0
        self.samples = []
        self.jobs = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def mc(self, module, cfg=None, constants=None, graph=False, workers=None, timeout=800):
        t = time.time()
        st, edges = self.work.model_check(module, cfg, constants, graph, workers, timeout)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.jobs.append({"model": module, "cfg": cfg or module + ".cfg", "constants": constants or {},
                          "distinct_states": st["distinct"], "transitions": st["generated"],
                          "wall_s": round(time.time() - t, 1)})
        return edges

    def walks(self, edges, max_len=60, limit=None, **kw):
        """Walks through a printed state graph that cover its transitions."""
        walks, total, taken = vlib.covering_walks(edges, self.rng, max_len, limit, **kw)
        self.jobs[-1].update(steps_between_calls=total, steps_in_scripts=taken, scripts=len(walks))
        return walks

    def conform(self, component, module, scripts, name, cfg=None, env=None, nondet=False):
        """Runs scripts on the real code, validates the traces. scripts: list of dicts."""
        if not scripts:
            raise CheckError("no scripts for " + name)
        t = time.time()
        try:
            traces, info = self.work.run_scripts(component, scripts, env=env)
        except vlib.StartPanic as e:
            bad = {"episode": 0, "event_index": 0, "event": {"e": "panic", "msg": str(e)}, "before": [],
                   "reason": "the packages panic when they are initialized"}
            self.report(component, module, scripts, bad, name, env)
        counts = []
        with open(traces) as f:
            for line in f:
                ev = json.loads(line)["ev"]
                counts.append(len(ev))
                if len(self.samples) < 3 and len(ev) > 4:
                    self.samples.append({"scenario": name, "trace": trim(ev)})
        st, bad = self.work.validate(module, traces, cfg)
        n = info["traces"]
        self.jobs.append({"scenario": name, "spec": module, "traces": n, "events": sum(counts),
                          "trace_states": st["distinct"], "wall_s": round(time.time() - t, 1)})
        if bad:
            self.report(component, module, scripts, bad, name, env)
        if n != len(scripts):
            raise CheckError("only %d of %d scripts were executed" % (n, len(scripts)))
        # every event of every trace was consumed: one state per event
        if not nondet and st["distinct"] < sum(counts):
            raise CheckError("%s: %d states for %d events" % (name, st["distinct"], sum(counts)))
        self.traces += n
        self.events += sum(counts)
        self.trace_states += st["distinct"]

    def report(self, component, module, scripts, bad, name, env):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % self.prop)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "component": component, "spec": module, "scenario": name,
                       "script": scripts[bad["episode"]], "env": env or {}, "violation": bad}, f, indent=1)
        raise Violation(path, bad)

    def evidence(self, wall, violations):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events, "trace_spec_states": self.trace_states,
                "samples": self.samples or [{"note": "no trace was completed"}],
                "jobs": self.jobs,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2), "violations": violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def trim(ev):
    out = []
    for e in ev[:12]:
        e = dict(e)
        for k, v in e.items():
            if isinstance(v, list) and len(v) > 24:
                e[k] = v[:24] + ["... %d in all" % len(v)]
        out.append(e)
    if len(ev) > 12:
        out.append("... %d events in all" % len(ev))
    return out


def family(prop):
    for name, props in FAMILIES.items():
        if prop in props:
            return importlib.import_module("fam_" + name)
    raise CheckError("unknown property " + prop)


def describe(info):
    print("  rejected event %d: %s" % (info["event_index"], json.dumps(info["event"])[:1500]))
    print("  reason: " + info["reason"])
    for e in info["before"]:
        print("    before: " + json.dumps(e)[:500])


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    work = vlib.Work()
    ctx = Ctx(prop, tier, seed, work)
    try:
        mod = family(prop)
        work.build()
        mod.check(ctx)
    except Violation as v:
        ctx.evidence(time.time() - start, 1)
        describe(v.info)
        print("VIOLATION property=%s replay=%s" % (prop, v.path))
        return 1
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        work.close()
    ctx.evidence(time.time() - start, 0)
    print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
        prop, tier, seed, ctx.states, ctx.transitions, ctx.traces, ctx.events, time.time() - start))
    return 0


def replay(path):
    data = json.load(open(path))
    work = vlib.Work()
    try:
        work.build()
        mod = family(data["property"])
        env = dict(data.get("env") or {})
        if hasattr(mod, "replay_env"):
            env.update(mod.replay_env(work))
        traces, _ = work.run_scripts(data["component"], [data["script"]], env=env)
        _, bad = work.validate(data["spec"], traces)
        if bad:
            describe(bad)
            print("VIOLATION property=%s replay=%s" % (data["property"], path))
            return 1
        print("OK the recorded script is accepted now")
        return 0
    except vlib.StartPanic as e:
        print("  " + str(e))
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2
    finally:
        work.close()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
