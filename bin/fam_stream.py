"""C06-C09: file-like streams over block caches."""

import vlib

O_RDONLY, O_WRONLY, O_RDWR = 0, 1, 2
O_APPEND, O_TRUNC, O_SYNC = 8, 0x400, 0x2000
HUGE = [2**63 - 1, 2**62, 2**40, 2**32, 2**31, 2**63 - 5]


def gen(rng, ops=18, weights=None, faults=0.0, flags=None, big=0.0, longer=0, reopen=0.08, scale=None):
    bs = rng.choice([1, 2, 3, 4, 5, 8]) if not longer else rng.choice([64, 100, 128, 256, 300])
    nb = rng.randint(0, 5)
    if scale:
        bs, nb = scale
    img = [rng.randint(1, 250) for _ in range(bs * nb)]
    cap = nb + rng.randint(0, 6) + longer
    if scale:
        cap = nb + rng.choice([0, 1, nb // 2 + 2])
    size = rng.randint(0, len(img)) if rng.random() < 0.7 else max(0, len(img) - rng.randint(0, bs))
    size = min(size, len(img))
    c = {"bs": bs, "cap": cap, "img": img, "seed": rng.randrange(1 << 30)}
    w = dict(Read=4, ReadAt=3, Write=5, WriteAt=3, WriteString=1, Truncate=2.5, Seek=4, Tell=.3, Size=.3, Sync=1.5,
             ReadFrom=1, WriteTo=1)
    w.update(weights or {})
    names, ws = list(w), list(w.values())

    def openflags():
        if flags:
            return rng.choice(flags)
        fl = rng.choice([O_RDWR, O_RDWR, O_RDWR, O_RDWR, O_RDONLY, O_WRONLY])
        if rng.random() < 0.2:
            fl |= O_APPEND
        if rng.random() < 0.3:
            fl |= O_SYNC
        if rng.random() < 0.06:
            fl |= O_TRUNC
        return fl

    room = cap * bs

    def where():
        if rng.random() < big:
            return rng.choice(HUGE)
        if rng.random() < 0.06:
            return -rng.choice([1, 2, bs, 2**31, 2**63])
        r = rng.random()
        if r < 0.5:
            return rng.randint(0, max(1, room))
        if r < 0.8:
            return rng.randint(0, cap) * bs + rng.choice([0, 0, 1, -1]) if room else 0
        return rng.randint(0, max(1, size + 2))

    def data(maxlen=None):
        n = rng.choice([0, 1, 2, 3, bs, bs + 1, 2 * bs, rng.randint(0, 3 * bs + 2), rng.randint(0, 3 * bs + 2)])
        if scale and rng.random() < 0.6:
            n = rng.randint(0, room)
        if maxlen is not None:
            n = min(n, maxlen)
        return [rng.randint(0, 255) for _ in range(n)]

    def faulty(op):
        if rng.random() < faults:
            blocks = lambda: [b for b in range(cap + 1) if rng.random() < rng.choice([0.2, 0.5, 1])]
            k = rng.randint(0, 4)
            if k == 0:
                op["ffetch"] = blocks()
            elif k in (1, 2):
                op["fflush"] = blocks()
            elif k == 3:
                op["fresize"] = True
            else:
                op["fsetsize"] = True
        return op

    def chunks():
        out = []
        for _ in range(rng.randint(0, 4)):
            n = rng.choice([0, 1, 2, bs, rng.randint(0, 2 * bs + 1)])
            out.append([rng.randint(0, 255) for _ in range(n)])
        return out

    cb = rng.random() < 0.3
    first = {"op": "open", "size": size, "flags": openflags(), "cb": cb}
    if rng.random() < 0.04:
        first["size"] = rng.choice([-1, len(img) + 1, 2**40])
    out = [first]
    for _ in range(ops):
        if rng.random() < reopen:
            if rng.random() < 0.8:
                out.append(faulty({"op": "Close"}))
            out.append(faulty({"op": "open", "flags": openflags(), "cb": cb}))
            continue
        name = rng.choices(names, ws)[0]
        op = {"op": name}
        if name == "Read":
            op["len"] = rng.choice([0, 1, 2, bs, bs + 1, rng.randint(0, room + 2)])
        elif name == "ReadAt":
            op["len"] = rng.choice([0, 1, 2, bs, bs + 1, rng.randint(0, room + 2)])
            op["off"] = where()
        elif name in ("Write", "WriteString"):
            op["data"] = data()
        elif name == "WriteAt":
            op["data"] = data()
            op["off"] = where()
        elif name == "Truncate":
            op["size"] = where()
        elif name == "Seek":
            op["whence"] = rng.choice([0, 0, 0, 1, 1, 2, 2, 3 if rng.random() < 0.2 else 0, -1 if rng.random() < .2 else 0])
            op["off"] = where() if op["whence"] == 0 else (rng.randint(-bs * 3 - 1, bs * 2 + 1) if rng.random() > big
                                                           else rng.choice(HUGE) * rng.choice([1, -1]))
        elif name == "ReadFrom":
            if rng.random() < 0.25:
                op = {"op": "ReadFromStream", "data": data() + data(), "bs": rng.choice([1, 2, 3, 7]) if not scale else rng.choice([64, 500, 512])}
            else:
                op["chunks"] = chunks()
                op["end"] = rng.choice(["eof", "eof", "eofWith", "eofWith", "error", "errorWith"])
                op["copy"] = rng.random() < 0.3
                if longer and rng.random() < 0.3:
                    op["chunks"].append([rng.randint(0, 255) for _ in range(rng.choice([511, 512, 513, 600, 1025]))])
        elif name == "WriteTo":
            if rng.random() < 0.4:
                op["limit"] = rng.randint(0, max(1, size))
                op["short"] = rng.random() < 0.4
            op["copy"] = rng.random() < 0.3
        out.append(faulty(op))
        if name in ("WriteTo", "ReadFrom", "Write") and rng.random() < 0.3:
            out.append({"op": "Seek", "whence": 0, "off": rng.randint(0, max(1, size))})
    # In the end everything is read back, and once more after storing it.
    out += [{"op": "ReadAt", "off": 0, "len": room + 1}, {"op": "Close"},
            {"op": "open", "flags": O_RDONLY, "cb": False}, {"op": "Read", "len": room + 1}]
    return {"c": c, "ops": out}


def far(rng, **kw):
    """Offsets of more than 4 GiB, in a stream that stays as large as it is."""
    kw = dict(dict(flags=[O_RDWR]), **kw)
    kw["weights"] = dict(kw.get("weights", {}), Truncate=0)
    s = gen(rng, ops=12, reopen=0, scale=(rng.choice([4100, 4096]), 2), **kw)
    s["c"].update(base=2**20 + rng.choice([0, 1, 7, 1000]), cap=2)
    size = s["ops"][0]["size"] = max(0, min(s["ops"][0]["size"], len(s["c"]["img"])))
    ops = []
    for o in s["ops"][:-2]:
        if o.get("whence") == 2 and not -size <= o["off"] < 2**20 or o.get("whence", 2) != 2 and o["off"] < 0:
            continue
        if "off" in o and "whence" not in o and o["off"] < 0:
            continue
        ops.append(o)
    s["ops"] = ops
    return s


def script_of(walk, const):
    ops = []
    for lab in walk:
        k = lab["k"]
        if k == "open":
            ops.append({"op": "open", "flags": flag_bits(lab["fl"]), "cb": False})
            if "size" in lab:
                ops[-1]["size"] = lab["size"]
        elif k == "call":
            op = dict(lab["c"])
            op.pop("cb", None)
            op.update(ffetch=[], fflush=[], fresize=False)
            if op["op"] == "ReadFrom":
                op.update(chunks=[], end="eof")
            ops.append(op)
        elif k == "rread":
            ops[-1]["chunks"].append(lab["data"])
            ops[-1]["end"] = {"open": "eof", "eof": "eofWith", "error": "errorWith"}[lab["end"]]
        elif k == "wwrite" and not lab["ok"]:
            ops[-1]["limit"] = lab["limit"]
        elif k in ("fetch", "flush") and not lab["ok"]:
            ops[-1]["f" + k].append(lab["b"])
        elif k == "resize" and not lab["ok"]:
            ops[-1]["fresize"] = True
    ops += [{"op": "ReadAt", "off": 0, "len": 9}, {"op": "Close"}, {"op": "open", "flags": 0, "cb": False},
            {"op": "Read", "len": 9}]
    return {"c": {"bs": const["BlockSize"], "cap": const["Cap"], "img": [101 + i for i in range(const["BlockSize"] * const["InitBlocks"])]},
            "ops": ops}


def flag_bits(fl):
    acc = {(True, False): O_RDONLY, (False, True): O_WRONLY, (True, True): O_RDWR}[(fl["r"], fl["w"])]
    return acc | (O_APPEND if fl["a"] else 0) | (O_SYNC if fl["s"] else 0)


def graph_scripts(ctx, mode, limit=None):
    const = {"BlockSize": 2, "InitBlocks": 1, "Cap": 2, "Mode": '"%s"' % mode, "Emitting": "TRUE"}
    edges = ctx.mc("MCByteStream", constants=const, graph=True)
    walks = ctx.walks(edges, max_len=60, limit=limit)
    return [script_of(w, const) for w in walks]


def check(ctx):
    p, rng, q = ctx.prop, ctx.rng, ctx.pick
    comp, spec = "stream", "TraceByteStream"
    ctx.assumptions += [
        "integers above 2^29 are equivalent (clamped in traces)",
        "one goroutine at a time uses a stream",
    ]
    many = lambda n, **kw: [gen(rng, **kw) for _ in range(n)]
    n = q(1000, 12000)
    sizes = [(1, 63), (1, 65), (1, 130), (1, 257), (1, 300), (2, 129), (64, 20), (100, 9), (256, 5), (512, 3), (512, 9), (4096, 1), (8192, 2)]
    large = {"C06": {"flags": [O_RDWR]}, "C07": {"reopen": .15}, "C08": {"flags": [2, 2 | O_SYNC], "faults": .15, "weights": {"Sync": 5}},
             "C09": {"weights": {"ReadFrom": 8, "WriteTo": 8}}}[p]
    ctx.conform(comp, spec, [gen(rng, ops=8, scale=rng.choice(sizes), **large) for _ in range(q(50, 800))]
                + [gen(rng, ops=6, scale=(512, 70) if p in ("C06", "C09") else (512, 20), **large) for _ in range(q(2, 20))]
                + [gen(rng, ops=5, scale=x, **large) for x in [(4096, 17), (65537, 2)] * q(1, 10)], "large streams")
    ctx.conform(comp, spec, [far(rng, **{k: [x & ~O_TRUNC for x in v] if k == "flags" else v for k, v in large.items() if k != "reopen"})
                             for _ in range(q(3, 20))], "offsets beyond 4 GiB")
    mode = {"C06": "plain", "C07": "modes", "C08": "sync", "C09": "copy"}[p]
    ctx.conform(comp, spec, graph_scripts(ctx, mode, q(2500, None)), "steps of the model (%s)" % mode)
    if p == "C06":
        ctx.conform(comp, spec, many(n, flags=[O_RDWR], reopen=0.03), "random histories")
        ctx.conform(comp, spec, many(n // 2, big=0.15, flags=[O_RDWR]), "extreme offsets")
        ctx.conform(comp, spec, many(n // 3, faults=0.25, flags=[O_RDWR]), "faulty storage")
    elif p == "C07":
        allflags = [a | b | c for a in (0, 1, 2) for b in (0, O_APPEND) for c in (0, O_SYNC, O_TRUNC, O_TRUNC | O_SYNC)]
        ctx.conform(comp, spec, many(n, flags=allflags, reopen=0.15), "all open modes")
        ctx.conform(comp, spec, many(n // 2, flags=[a | O_APPEND for a in (1, 2, 1 | O_SYNC, 2 | O_SYNC)],
                                     weights={"Seek": 8, "ReadFrom": 3}), "append mode")
        ctx.conform(comp, spec, many(n // 3, flags=allflags, faults=0.3, reopen=0.15), "all open modes, faulty storage")
    elif p == "C08":
        ctx.conform(comp, spec, many(n, flags=[1, 2, 2 | O_APPEND], faults=0.2, weights={"Sync": 6}, reopen=0.15),
                    "syncing with faulty storage")
        ctx.conform(comp, spec, many(n // 2, flags=[1 | O_SYNC, 2 | O_SYNC, 2 | O_APPEND | O_SYNC], faults=0.2), "synchronous streams")
        ctx.conform(comp, spec, many(n // 3, flags=[2, 2 | O_SYNC], faults=0.5, weights={"Truncate": 6}), "very faulty storage")
    elif p == "C09":
        bulk = {"ReadFrom": 8, "WriteTo": 8, "Read": 1, "ReadAt": 1}
        ctx.conform(comp, spec, many(n, weights=bulk, ops=12), "bulk copies")
        ctx.conform(comp, spec, many(n // 2, weights=bulk, faults=0.3, ops=12), "bulk copies with faulty storage")
        ctx.conform(comp, spec, many(q(60, 600), weights=bulk, longer=12, ops=6), "long bulk copies")
