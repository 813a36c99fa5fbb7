"""C01-C05: the block cache."""

import vlib

HUGE = [2**63, 2**63 - 1, 2**64 - 1, 2**64 - 2, 2**62, 2**32, 2**31, 2**61 + 1, 2**60]


def script_of(walk, const):
    """An operation script from a walk through MCBlockCache's state graph."""
    ops = []
    for lab in walk:
        k = lab["k"]
        if k == "call":
            op = dict(lab["c"])
            op.update(ffetch=[], fflush=[], fresize=False)
            ops.append(op)
        elif k == "fetch" and not lab["ok"]:
            ops[-1]["ffetch"].append(lab["b"])
        elif k == "flush" and not lab["ok"]:
            ops[-1]["fflush"].append(lab["b"])
        elif k == "resize" and not lab["ok"]:
            ops[-1]["fresize"] = True
    ops.append({"op": "Flush"})
    ops.append({"op": "Data"})
    bs, nb = const["BlockSize"], const["InitBlocks"]
    return {"c": {"kind": "cb", "rz": "cb", "bs": bs, "nb": nb,
                  "img": [101 + i for i in range(bs * nb)]}, "ops": ops}


def gen(rng, kind="cb", ops=20, weights=None, faults=0.15, rz=None, big=0.0, nbmax=None, scale=None):
    bs = rng.choice([1, 2, 3, 4])
    nb = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 16, 17]) if rng.random() < 0.5 else rng.randint(1, 6)
    if nbmax is not None:
        nb = min(nb, nbmax)
    if scale:
        bs, nb = scale if scale != True else rng.choice([(1, 31), (1, 33), (1, 63), (1, 64), (1, 65), (1, 128), (2, 129), (1, 255), (1, 256), (1, 257), (1, 300), (2, 200),
                             (100, 3), (128, 4), (256, 2), (512, 2), (512, 3), (1024, 1), (1000, 2)])
    size = bs * nb
    c = {"kind": kind, "bs": bs, "nb": nb, "seed": rng.randrange(1 << 30)}
    if kind == "cb":
        c["rz"] = rz or ("cb" if rng.random() < 0.85 else "nil")
    elif kind == "slice":
        c["rz"] = "forbid"
        size += rng.randrange(bs)
    else:
        c["rz"] = rz or rng.choice(["cb", "cb", "cb", "notsup", "forbid"])
        c["grow"] = rng.random() < 0.7
        c["chunky"] = rng.random() < 0.7
        r = rng.random()
        if kind == "stream" and r < 0.35:
            size = rng.randint(0, size)
        elif r < 0.7:
            size += rng.randint(0, 2 * bs)
        if kind == "stream" and not c["grow"] and rng.random() < 0.5:
            size = max(size, bs * nb)
    c["img"] = [rng.randint(1, 200) for _ in range(size)]
    if kind in ("inferred", "slice"):
        nb = size // bs
    top = c["max"] = max(40, nb + nb // 2)
    cur = nb
    out = []
    w = dict(ReadAt=4, WriteAt=5, GetSlice=2, Poke=2, Mark=2, Flush=3, Resize=2, Data=1, LoadAll=0.5,
             CheckBounds=1, MinBlocks=0.3, Info=0.5)
    w.update(weights or {})
    names, ws = list(w), list(w.values())

    def start():
        if rng.random() < big:
            return rng.choice(HUGE)
        return rng.randint(0, max(0, cur + (2 if rng.random() < 0.15 else -1)))

    def count(s):
        if rng.random() < big:
            return min(2**64 - 1, rng.choice(HUGE + [2**64 - s if s else 1, (2**64) // bs, (2**64) // bs + 1]))
        if s < cur and rng.random() < 0.85:
            return rng.randint(0 if rng.random() < 0.1 else 1, cur - s)
        return rng.randint(0, cur + 1)

    def faulty(op):
        if kind == "slice" or rng.random() >= faults:
            return op
        if kind == "cb":
            blocks = [b for b in range(cur + 1) if rng.random() < (0.3 if rng.random() < .7 else 1)]
            if op["op"] == "Flush":
                op["fflush"] = blocks
            elif op["op"] == "Resize":
                op["fresize"] = True
            else:
                op["ffetch"] = blocks
        elif op["op"] == "Flush":
            op["fwrite"] = rng.randint(0, bs * max(1, cur))
            if rng.random() < 0.1:
                op["fseek"] = True
        elif op["op"] == "Resize":
            op["fresize"] = True
        else:
            op[rng.choice(["fread", "fread", "fseek"])] = True
        return op

    for _ in range(ops):
        name = rng.choices(names, ws)[0]
        s = start()
        if name == "ReadAt":
            left = max(0, cur - s) * bs
            n = rng.randint(0, left + (3 if rng.random() < 0.15 else 0)) if left else rng.randint(0, bs)
            out.append(faulty({"op": name, "start": s, "len": n}))
        elif name == "WriteAt":
            left = max(0, cur - s) * bs
            n = rng.randint(0, left + (3 if rng.random() < 0.15 else 0)) if left else rng.randint(0, bs)
            out.append(faulty({"op": name, "start": s, "data": [rng.randint(0, 255) for _ in range(n)]}))
        elif name == "GetSlice":
            out.append(faulty({"op": name, "start": s, "count": count(s)}))
        elif name == "Poke":
            if cur == 0:
                continue
            s = rng.randrange(cur)
            k = rng.randint(1, cur - s)
            op = {"op": "Poke", "start": s, "count": k, "at": rng.randrange(k * bs),
                  "poke": [rng.randint(0, 255) for _ in range(rng.randint(1, bs + 1))]}
            if rng.random() < 0.2:
                op = {"op": "Data", "at": op["at"], "poke": op["poke"]}
                s, k = 0, cur
            out.append(faulty(op))
            out.append({"op": "Mark", "start": s, "count": k})
        elif name == "Mark":
            out.append(faulty({"op": name, "start": s, "count": count(s)}))
        elif name == "CheckBounds":
            n = count(s)
            out.append({"op": name, "start": s, "len": n * bs if n * bs < 2**64 else n})
        elif name == "MinBlocks":
            out.append({"op": name, "len": rng.randint(0, 50)})
        elif name == "Resize":
            n = rng.choice([0, 1, cur, cur + 1, cur + 1, max(0, cur - 1), cur + 7, rng.randint(0, 20), top + 1, max(0, cur - 8), cur // 2, rng.randint(0, top)])
            op = faulty({"op": name, "n": n})
            if c["rz"] == "cb" and not op.get("fresize") and n <= top:
                cur = n
            out.append(op)
            if rng.random() < 0.3:
                out.append({"op": "Info"})
        else:
            out.append(faulty({"op": name}) if name != "Info" else {"op": name})
    out.append({"op": "Flush"})
    out.append({"op": "Data"})
    out.append({"op": "Info"})
    return {"c": c, "ops": out}


def far(rng, kind):
    """Blocks that are more than 4 GiB away from the start."""
    s = gen(rng, kind, ops=10, scale=(rng.choice([4100, 4096]), 3), weights=dict(Resize=0, Data=0, LoadAll=0), faults=0.1)
    s["c"]["base"] = 2**20 + rng.choice([0, 1, 7, 1000])
    s["ops"] = [o for o in s["ops"] if o["op"] != "Data"] + [{"op": "GetSlice", "start": 0, "count": s["c"]["nb"]}]
    return s


def graph_scripts(ctx, const, limit=None):
    edges = ctx.mc("MCBlockCache", constants=dict(const, Emitting="TRUE", Bytes="{1}", Kind='"cb"'), graph=True)
    walks = ctx.walks(edges, max_len=60, limit=limit)
    return [script_of(w, const) for w in walks]


def check(ctx):
    p = ctx.prop
    rng = ctx.rng
    q = ctx.pick
    comp, spec = "blockcache", "TraceBlockCache"
    ctx.assumptions += [
        "integers above 2^30 are equivalent (clamped in traces)",
        "one goroutine at a time uses a cache (it isn't documented as safe for concurrent use)",
    ]
    many = lambda n, **kw: [gen(rng, **kw) for _ in range(n)]
    large = lambda **kw: ctx.conform(comp, spec, many(q(50, 800), ops=12, scale=True, **kw)
                                    + many(q(1, 10), ops=7, scale=(4096, 17), **kw) + many(q(1, 10), ops=6, scale=(65537, 2), **kw), "large caches")
    distant = lambda *kinds: ctx.conform(comp, spec, [far(rng, rng.choice(kinds)) for _ in range(q(3, 20))], "blocks beyond 4 GiB")
    if p == "C05":
        large(kind="stream")
        distant("stream", "inferred")
        ctx.mc("MCStreamCache", constants=q({}, {"MaxBlocks": 3}))
        ctx.conform(comp, spec, many(q(900, 12000), kind="stream"), "wrapped streams")
        ctx.conform(comp, spec, many(q(300, 4000), kind="inferred"), "streams of inferred size")
        ctx.conform(comp, spec, many(q(200, 2000), kind="slice"), "wrapped slices")
        ctx.conform(comp, spec, many(q(400, 4000), kind="stream", rz="cb", faults=0,
                                     weights={"Resize": 6, "Flush": 6}), "resized streams")
        return
    ctx.mc("MCBlockCache", constants=q({}, {"MaxBlocks": 3, "BlockSize": 2, "Bytes": "{1, 2}"}))
    small = {"BlockSize": 1, "InitBlocks": 2, "MaxBlocks": 2, "MaxData": 2}
    ctx.conform(comp, spec, graph_scripts(ctx, small), "every transition of the model (%s)" % p)
    n = q(1200, 12000)
    large(**{"C02": dict(faults=0.3, weights={"Flush": 8, "Mark": 4, "Poke": 4}), "C03": dict(big=0.25), "C04": dict(weights={"Resize": 8, "Flush": 4}, rz="cb")}.get(p, {}))
    if p in ("C01", "C02", "C03"):
        distant("cb")
    if p == "C01":
        ctx.conform(comp, spec, many(n), "random histories")
        ctx.conform(comp, spec, many(n // 2, faults=0.4, weights={"ReadAt": 8, "Poke": 4}), "faulty storage")
    elif p == "C02":
        ctx.conform(comp, spec, many(n, faults=0.3, weights={"Flush": 8, "Mark": 4, "Poke": 4}), "flush heavy histories")
    elif p == "C03":
        ctx.conform(comp, spec, many(n, big=0.25, faults=0.05, weights={"CheckBounds": 5, "GetSlice": 5, "Mark": 5, "Flush": 1}),
                    "out-of-range accesses")
        ctx.conform(comp, spec, many(n // 4, big=0.5, kind="stream", faults=0), "out-of-range accesses to streams")
    elif p == "C04":
        ctx.conform(comp, spec, many(n, weights={"Resize": 8, "Flush": 4}, rz="cb"), "resize heavy histories")
        ctx.conform(comp, spec, many(n // 4, weights={"Resize": 8}, rz="nil"), "caches that can't be resized")
