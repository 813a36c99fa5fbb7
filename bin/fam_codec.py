"""C24-C26: run length encodings, compressed images, zipimage and unzipimage."""

TOOLS = {"ZIPIMAGE": "./cmd/zipimage", "UNZIPIMAGE": "./cmd/unzipimage"}
LENGTHS = [1, 1, 2, 2, 3, 4, 5, 127, 128, 129, 253, 254, 255, 256, 257, 258, 259, 260, 511, 512, 513, 514, 515, 516, 517, 771, 772, 1021, 1022]
SOME = [0, 1, 2, 254, 255, 65]


def replay_env(work):
    return {k: work.build_tool(pkg, k.lower()) for k, pkg in TOOLS.items()}


def norm(runs):
    out = []
    for n, b in runs:
        if n and out and out[-1][1] == b:
            out[-1][0] += n
        elif n:
            out.append([n, b])
    return out


def cut(runs, k):
    """The first k bytes."""
    out = []
    for n, b in runs:
        if k <= 0:
            break
        out.append([min(n, k), b])
        k -= n
    return norm(out)


def total(runs):
    return sum(n for n, _ in runs)


def encode8(runs):
    out = []
    for n, b in norm(runs):
        while n >= 2:
            k = min(n, 257)
            out += [[2, b], [1, k - 2]]
            n -= k
        if n:
            out.append([1, b])
    return norm(out)


def encoder(runs):
    out = []
    for n, b in norm(runs):
        out.append([1, b])
        if n > 1:
            out += [[1, b], [(n - 2) // 255, 255], [1, (n - 2) % 255]]
    return norm(out)


def content(rng, k=None, long=False):
    """Runs of all sorts."""
    k = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 60]) if k is None else k
    out = []
    few = [rng.randint(0, 255) for _ in range(rng.randint(1, 3))] if rng.random() < .5 else SOME
    for _ in range(k):
        n = rng.choice(LENGTHS) if rng.random() < .7 else 257 * rng.randint(1, 4) + rng.choice([-1, 0, 1]) if rng.random() < .3 else rng.randint(1, 4)
        if long and rng.random() < .2:
            n = rng.choice([255 * rng.randint(1, 500) + rng.randint(-2, 4), rng.randint(60000, 200000), 65536 + rng.randint(-3, 3)])
        out.append([max(1, n), rng.choice(few) if rng.random() < .8 else rng.randint(0, 255)])
    return norm(out)


def large(rng):
    """More than any buffer holds."""
    return norm([[rng.choice([1, 1, 1, 2]), rng.randint(0, 255)] for _ in range(rng.choice([4096, 4097, 5000, 8193, 9000]))])


def loose8(rng):
    """A well-formed encoding, not necessarily canonical."""
    out, last = [], -1
    for _ in range(rng.choice([0, 1, 2, 5, 20])):
        b = rng.choice([last, rng.choice(SOME), rng.randint(0, 255)])
        if rng.random() < .6 or b == last or b < 0:
            b = max(b, 0)
            if b == last:
                out.append([1, b])      # completes a pair
            else:
                out.append([2, b])
            out.append([1, rng.choice([0, b, 1, 254, 255, rng.randint(0, 255)])])
            last = -1
        else:
            out.append([1, b])
            last = b
    return norm(out)


def transport(rng, faults=False):
    op = {}
    if rng.random() < .6:
        op["piece"] = rng.choice([1, 1, 2, 3, 7, 511, 512, 4095, 4096, 4097])
    if rng.random() < .4:
        op["early"] = True
    if rng.random() < .25:
        op["empty"] = True
    if faults:
        r = rng.random()
        if r < .5:
            op["fail"] = True
        if r > .4:
            op["limit"] = rng.choice([0, 1, 2, 3, rng.randint(0, 40), rng.randint(0, 3000)])
    return op


def batches(ops, size=20):
    return [{"c": {}, "ops": ops[i:i + size]} for i in range(0, len(ops), size)]


def check(ctx):
    p, rng, q = ctx.prop, ctx.rng, ctx.pick
    comp, spec = "codec", "TraceRle"
    conform = lambda ops, name, size=20, env=None: ctx.conform(comp, spec, batches(ops, size), name, env=env)
    if p in ("C24", "C25"):
        kind = "8" if p == "C24" else "r"
        enc, dec = ("enc8", "dec8") if p == "C24" else ("encr", "decr")
        canonical = encode8 if p == "C24" else encoder
        for top, depth in q([(2, 8), (3, 6)], [(2, 10), (3, 8), (4, 7)]):
            ctx.mc("MCRle", constants={"Top": top, "Depth": depth})
        edges = ctx.mc("MCRle", constants={"Top": 255, "Mode": '"runs"', "Depth": q(3, 4), "Emitting": "TRUE"}, graph=True)
        inputs = [e["l"]["c"]["in"] for e in edges]
        ctx.jobs[-1]["scripts"] = len(inputs)
        rng.shuffle(inputs)
        inputs = inputs[:q(4000, 40000)]
        conform([{"op": enc, "in": x, **transport(rng)} for x in inputs], "compressing strings of runs (model)", 100)
        conform([{"op": dec, "in": canonical(x), **transport(rng)} for x in inputs], "decompressing what they compress to (model)", 100)
        conform([{"op": dec, "in": cut(x, rng.randint(0, 1500) if rng.random() < .5 else total(x)), **transport(rng)} for x in inputs], "decompressing strings of runs (model)", 100)
        if p == "C24":
            conform([{"op": "runs", "in": x, **transport(rng), **({"scanner": True} if rng.random() < .3 else {})} for x in inputs[:q(1500, 15000)]], "grouping (model)", 50)
            conform([{"op": "runs", "in": content(rng), **transport(rng, rng.random() < .4)} for _ in range(q(600, 5000))], "grouping, with failures")
        # every short string over bytes that are also counts
        alphabet = [0, 1, 2, 255] if p == "C24" else [0, 1, 254, 255]
        strings = [[]]
        every = [[]]
        for _ in range(q(5, 7)):
            strings = [s + [b] for s in strings for b in alphabet]
            every += strings
        both = [norm([[1, b] for b in s]) for s in every]
        conform([{"op": o, "in": x} for x in both for o in (enc, dec)], "every short string", 200)
        conform([{"op": enc, "in": [[n, b]]} for n in range(0, q(1100, 4000)) if n for b in ([0] if n % 3 else [255])], "every run length", 100)
        conform([{"op": dec, "in": norm([[2, b], [1, c]] + ([[1, d]] if d is not None else []))} for b in SOME for c in range(256) for d in (None, b)], "every count", 100)
        n = q(1500, 20000)
        conform([{"op": enc, "in": content(rng, long=kind == "r"), **transport(rng)} for _ in range(n)], "compressing")
        conform([{"op": dec, "in": canonical(content(rng, long=kind == "r")) if rng.random() < .5 else loose8(rng) if rng.random() < .6 else content(rng), **transport(rng)} for _ in range(n)], "decompressing")
        some = [large(rng) for _ in range(q(12, 100))] + [content(rng, long=True) for _ in range(q(40, 400))]
        conform([{"op": enc, "in": x, **transport(rng)} for x in some] + [{"op": dec, "in": canonical(x), **transport(rng)} for x in some]
                + ([{"op": "runs", "in": x, **transport(rng)} for x in some if len(x) < 4000] if p == "C24" else []), "large strings", 2)
        x = lambda: canonical(content(rng, rng.randint(1, 4)))
        some = [x() for _ in range(q(150, 2000))]
        conform([{"op": dec, "in": cut(s, k), **transport(rng)} for s in some for k in range(0, min(total(s), 30))], "truncated input", 50)
        conform([{"op": rng.choice([enc, dec]), "in": content(rng), **transport(rng, True)} for _ in range(n)], "failing input and output")
        if p == "C25":
            big = [[255 * k + j + 2, b] for k in (0, 1, 2, 256, 257, 258, 5000) for j in (-2, -1, 0, 1, 254) for b in (0, 255, 254) if 255 * k + j + 2 > 0]
            conform([{"op": enc, "in": [r]} for r in big] + [{"op": dec, "in": encoder([r])} for r in big], "long runs", 10)
        return
    ctx.assumptions += ["gzip streams are taken apart and damaged ones recognised with Go's compress/gzip",
                        "errors closing the output file of a tool can't be provoked"]
    ctx.mc("MCRle", constants={"Top": 2, "Depth": q(7, 9)})
    small = lambda: content(rng, rng.choice([0, 1, 2, 3]))
    wild = lambda: content(rng) if rng.random() < .7 else norm([[1, rng.randint(0, 255)] for _ in range(rng.randint(1, 700))])
    gz = lambda x=None: {"plain": encode8(wild()) if x is None else x, "level": rng.choice([0, 1, 6, 9]), **({"split": rng.randint(0, 5)} if rng.random() < .15 else {})}
    conform([{"op": "zip", "in": wild(), **transport(rng)} for _ in range(q(1000, 10000))], "compressing images")
    some = [large(rng) for _ in range(q(8, 60))] + [content(rng, long=True) for _ in range(q(20, 200))]
    conform([{"op": "zip", "in": x, **transport(rng)} for x in some] + [{"op": rng.choice(["unzip", "tobytes"]), **gz(encode8(x)), **transport(rng)} for x in some], "large images", 2)
    conform([{"op": rng.choice(["unzip", "unzip", "tobytes"]), **gz(), **transport(rng)} for _ in range(q(1000, 10000))], "decompressing images")
    conform([{"op": rng.choice(["unzip", "tobytes"]), **gz(loose8(rng) if rng.random() < .5 else cut(encode8(small()), rng.randint(0, 9))), **transport(rng)} for _ in range(q(600, 6000))],
            "decompressing unusual and truncated encodings")
    conform([{"op": "zip", "in": small(), "sweep": True} for _ in range(q(20, 200))], "an output that fails at each position", 1)
    conform([{"op": "zip", "in": wild(), **transport(rng, True)} for _ in range(q(500, 5000))], "compressing with failures")
    conform([{"op": rng.choice(["unzip", "tobytes"]), **gz(encode8(small())), "sweep": "cut", **t} for t in [transport(rng) for _ in range(q(20, 200))] + [dict(transport(rng), fail=True) for _ in range(q(15, 150))]],
            "compressed input cut off at each position, or failing there", 1)
    conform([{"op": rng.choice(["unzip", "tobytes"]), **gz(encode8(small())), "sweep": "flip", "xor": rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255, rng.randint(1, 255)]), **transport(rng)} for _ in range(q(40, 400))],
            "each byte damaged", 1)
    conform([{"op": "unzip", **gz(encode8(content(rng, rng.choice([0, 1, 2])))), "sweep": "limit"} for _ in range(q(6, 60))], "decompressing into an output that fails at each position", 1)
    conform([{"op": "unzip", **gz(), "extra": rng.choice([[0], [0] * 20, [31], [31, 139], [31, 139, 8, 0], [65, 66]])} for _ in range(q(100, 500))], "bytes after the end")
    env = replay_env(ctx.work)
    ops = [{"op": "toolzip", "in": wild(), "trouble": rng.choice(["", "", "old"])} for _ in range(q(40, 300))]
    ops += [{"op": "toolunzip", **gz(), "trouble": rng.choice(["", "", "old"])} for _ in range(q(40, 300))]
    for t in ("missing", "directory", "nowhere", "outdir", "full"):
        ops += [{"op": "toolzip", "in": x, "trouble": t} for x in ([], [[5, 1]], content(rng, 60))]
        ops += [{"op": "toolunzip", **gz(encode8(x)), "trouble": t} for x in ([], [[5, 1]], content(rng, 60))]
    x = norm([[1, rng.randint(0, 255)] for _ in range(300)])
    ops += [{"op": "toolzip", "in": x, "trouble": "limit", "size": k} for k in list(range(0, 40, 3)) + list(range(40, 400, q(30, 5)))]
    ops += [{"op": "toolunzip", **gz(encode8(x)), "trouble": "limit", "size": k} for k in [0, 1, 2, 5, 100, 255, 256, 298, 299, 300, 301]]
    ops += [{"op": "toolunzip", "plain": encode8(small()), "cut": rng.randint(0, 60)} for _ in range(q(40, 300))]
    ops += [{"op": "toolunzip", "plain": encode8(small()), "flip": rng.randint(0, 60), "xor": rng.randint(1, 255)} for _ in range(q(40, 300))]
    ops += [{"op": "toolunzip", "plain": cut(encode8(content(rng, 2)), 3 * k + 2)} for k in range(8)]
    ops += [{"op": "noargs", "args": k} for k in (0, 1, 3)]
    conform(ops, "the command line tools", 4, env)
