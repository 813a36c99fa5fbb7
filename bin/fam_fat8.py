"""C16-C19: FAT8 volumes and file names."""
import itertools

SIZES = [640, 1898, 2002]
BIG = [2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 2**57, 2**57 - 1, 2**32, 2**31, 2**58 + 640, 2**57 + 5]


class Geo:
    def __init__(self, n):
        self.n = n
        self.spt = 16 if n == 640 else 26
        self.tracks = 40 if n == 640 else 73
        self.dir = (17 if n == 640 else 34) * self.spt
        self.end = self.dir + self.spt
        self.clusters, self.spc = 2 * self.tracks, self.spt // 2
        self.spf = (self.clusters + 127) // 128
        self.fat = self.end - 3 * self.spf


def norm(runs):
    out = []
    for n, v in runs:
        if n and out and out[-1][1] == v:
            out[-1][0] += n
        elif n:
            out.append([n, v])
    return out


def sector(rng):
    r = rng.random()
    if r < .4:
        return [[128, rng.randint(1, 250)]]
    if r < .5:
        return [[128, rng.choice([0, 255, 254])]]
    k = rng.randint(1, 127)
    return norm([[k, rng.randint(0, 255)], [128 - k, rng.randint(0, 255)]])


def fat_bytes(rng, g):
    """A plausible allocation table."""
    t = [255] * (g.spf * 128)
    for _ in range(rng.choice([0, 1, 3, 20, g.clusters])):
        t[rng.randint(0, g.clusters - 1)] = rng.choice([254, 193, 200, rng.randint(1, 192), 255])
    r = rng.random()
    if r < 0.3:
        for i in range(g.clusters, len(t)):
            t[i] = rng.choice([0, 255, 255])
    return t


def sectors(b):
    return [norm([[1, v] for v in b[i:i + 128]]) for i in range(0, len(b), 128)]


def poke_tables(rng, g, kind=None):
    """Somebody else writes to the tables: consistently or not."""
    t = fat_bytes(rng, g)
    kind = kind or rng.choice(["same", "same", "one", "bytes", "bytes"])
    if kind == "same":
        return [{"op": "poke", "s": g.fat, "data": sectors(t * 3)}]
    if kind == "one":
        return [{"op": "poke", "s": g.fat + rng.randint(0, 2) * g.spf, "data": sectors(t)}]
    copies = [list(t) for _ in range(3)]
    for _ in range(rng.choice([1, 1, 1, 2])):
        c, i = rng.choice(copies), rng.randint(0, len(t) - 1)
        if rng.random() < .3:
            i = rng.choice([0, g.clusters - 1, g.clusters, len(t) - 1, 127, 128 % len(t)])
        c[i] ^= rng.choice([1, 128, 255, rng.randint(1, 255)])
    return [{"op": "poke", "s": g.fat, "data": sectors(copies[0] + copies[1] + copies[2])}]


def start(rng, n=None, junk=True, file="rw"):
    n = n if n is not None else rng.choice(SIZES)
    img = []
    if junk and n:
        for s in rng.sample(range(n), min(n, rng.randint(0, 6))):
            img.append({"s": s, "v": sector(rng)})
    return {"size": n * 128, "img": img, "file": file}


def fmt_size(rng):
    r = rng.random()
    if r < .5:
        return rng.choice(SIZES) * 128
    n = rng.choice(SIZES)
    return rng.choice([n * 128 + rng.choice([1, -1, 64, 127, -127, 128, -128]), 0, -1, -128, -n * 128, 128, rng.randint(0, 4000) * 128,
                       rng.randint(0, 300000), n, n * 256, n * 512, 77 * 16 * 128, 2**62, -2**63, 2**63 - 128, n * 128 + 2**32])


def io_op(rng, g):
    name = rng.choices(["ReadBlocks", "WriteBlocks", "ReadCluster", "WriteCluster", "ReadFile", "WriteFile", "IsValid", "GetFAT"],
                       [3, 2, 4, 4, 3, 3, 1, .5])[0]
    op = {"op": name}

    def cluster():
        r = rng.random()
        if r < .75:
            return rng.choice([1, 2, 3, g.clusters - 1, g.clusters, rng.randint(1, g.clusters), rng.randint(1, g.clusters)])
        return rng.choice([0, g.clusters + 1, g.clusters + 2, 255, 256, rng.choice(BIG), rng.randint(0, 300)])

    def data(count):
        d = [sector(rng) for _ in range(count)]
        extra = 0
        r = rng.random()
        if r < .1:
            d = d[:-1]
        elif r < .2:
            d.append(sector(rng))
        elif r < .3:
            extra = rng.choice([1, 127, 64])
        return {"data": d, "extra": extra}

    if name in ("ReadBlocks", "WriteBlocks"):
        s = rng.choice([0, 1, g.n - 1, g.n - 2, g.n, g.fat, g.dir, rng.randint(0, g.n), rng.randint(0, g.n)])
        k = rng.choice([1, 1, 2, 3, g.spc, g.spt])
        if rng.random() < .15:
            s = rng.choice(BIG)
        op["start"] = s
        if name == "ReadBlocks":
            if rng.random() < .1:
                k = rng.choice(BIG + [g.n, g.n + 1, 0])
            if rng.random() < .03:
                op["start"], k = 0, g.n
            if rng.random() < .1 and s < g.n:
                k = g.n - s + rng.choice([0, 0, 1])
            op["count"] = k
        else:
            if rng.random() < .2 and s < g.n:
                op["start"] = max(0, g.n - k + rng.choice([-1, 0, 1]))
            op["data"] = [sector(rng) for _ in range(k if k < 30 else 1)]
            op["extra"] = rng.choice([0] * 8 + [1, 127])
    elif name in ("ReadCluster", "IsValid"):
        op["c"] = cluster()
    elif name == "WriteCluster":
        op.update(data(g.spc), c=cluster())
    elif name in ("ReadFile", "WriteFile"):
        op["chain"] = [rng.randint(1, g.clusters) if rng.random() < .9 else rng.choice([0, g.clusters + 1, 255])
                       for _ in range(rng.randint(0, 5))]
        n = len(op["chain"])
        op["idx"] = rng.choice([rng.randint(0, max(0, n - 1))] * 5 + [n, n + 1, 2**63, 2**64 - 1])
        if name == "WriteFile":
            op.update(data(g.spc))
    return op


def volume_scenario(rng, ops=10):
    """`cur`, `known`, `mounted` and `healthy` are what is likely; the harness skips what isn't possible."""
    r = rng.random()
    n = rng.choice(SIZES + [0, 639, 641, 1, 1897, 2001, 2003, 1248]) if r < .5 else rng.choice(SIZES)
    c = start(rng, n, file="ro" if rng.random() < .1 else "rw")
    cur, known, mounted, rw, out = n, 0, False, c["file"] == "rw", []
    healthy = False
    for _ in range(ops):
        names = ["Format"] * 3 + ["Mount"] * 4 + ["poke"] * 3 + ["fresh"]
        if mounted:
            names += ["Unmount"] * 3 + ["Flush"] * 4
        if known:
            names += ["FSStat", "GetFAT", "io", "io"]
        name = rng.choice(names)
        if name == "Format":
            size = fmt_size(rng)
            out.append({"op": "Format", "size": size})
            if not mounted and size in [x * 128 for x in SIZES]:
                if rw:
                    cur = known = size // 128
                    healthy = True
                else:
                    known = 0
        elif name == "Mount":
            out.append({"op": "Mount"})
            if not mounted:
                if cur in SIZES and healthy:
                    known, mounted = cur, True
                else:
                    known = 0
        elif name == "Unmount":
            out.append({"op": "Unmount"})
            mounted, known = False, 0
        elif name == "Flush":
            out.append({"op": "Flush"})
            if rw:
                healthy = True
        elif name == "poke" and cur in SIZES:
            g = Geo(cur)
            p = poke_tables(rng, g)
            out += p
            d = p[0]["data"]
            if len(d) == 3 * g.spf:
                healthy = d[:g.spf] == d[g.spf:2 * g.spf] == d[2 * g.spf:]
            else:
                out.append({"op": "poke", "s": g.fat, "data": d * 3})
                healthy = True
        elif name == "fresh":
            how = "ro" if rng.random() < .15 else "rw"
            out.append({"op": "fresh", "file": how})
            rw, known, mounted = how == "rw", 0, False
        elif name in ("FSStat", "GetFAT"):
            out.append({"op": name})
        elif name == "io":
            out.append(io_op(rng, Geo(known)))
    return {"c": c, "ops": out}


def io_scenario(rng, ops=25, trouble=0.0):
    n = rng.choice(SIZES)
    c = start(rng, n, file="rw")
    g = Geo(n)
    out = []
    if rng.random() < .5:
        out.append({"op": "Format", "size": n * 128})
    else:
        c["img"] = [x for x in c["img"] if not g.fat <= x["s"] < g.end]
    if not out or rng.random() < .5:
        out.append({"op": "Mount"})
    at = rng.randint(1, ops) if rng.random() < trouble else -1
    for k in range(ops):
        out.append(io_op(rng, g))
        if k == at:
            if rng.random() < .5:
                out.append({"op": "close"})
            else:
                out.append({"op": "resize", "bytes": 128 * rng.randint(0, n)})
        if rng.random() < .2 and out[-1]["op"] in ("WriteCluster", "WriteFile"):
            w = out[-1]
            c_ = w["c"] if "c" in w else (w["chain"] + [1])[min(w["idx"], len(w["chain"]))]
            out.append({"op": "ReadCluster", "c": c_})
    return {"c": c, "ops": out}


def script_of(walk):
    first = walk[0]["start"]
    return {"c": {"size": first["size"], "file": first["file"], "img": list(first["img"])},
            "ops": [lab["c"] for lab in walk]}


def graph_scripts(ctx, mode, depth, limit=None):
    edges = ctx.mc("MCFat8", constants={"Mode": '"%s"' % mode, "Depth": depth, "Emitting": "TRUE"}, graph=True)
    return [script_of(w) for w in ctx.walks(edges, max_len=60, limit=limit)]


def every_difference(rng, n):
    """Each position at which one table can differ from the others, in turn."""
    g = Geo(n)
    size = g.spf * 128
    out = []
    t = fat_bytes(rng, g)
    for copy in range(3):
        ops = []
        for i in range(size):
            b = list(t)
            b[i] ^= 1 << rng.randint(0, 7)
            k = i // 128
            at = g.fat + copy * g.spf + k
            ops += [{"op": "fresh", "file": "rw"},
                    {"op": "poke", "s": at, "data": sectors(b)[k:k + 1]}, {"op": "Mount"}, {"op": "poke", "s": at, "data": sectors(t)[k:k + 1]}]
            if i % 16 == 15 or i == size - 1:
                ops += [{"op": "Mount"}, {"op": "FSStat"}]
                img = [{"s": g.fat + j, "v": s} for j, s in enumerate(sectors(t * 3))]
                out.append({"c": {"size": n * 128, "img": img, "file": "rw"}, "ops": ops})
                ops = []
    return out


def every_cluster(rng, n):
    """Every cluster is written, then everything is read back."""
    g = Geo(n)
    order = list(range(1, g.clusters + 1))
    rng.shuffle(order)
    out = [{"op": "Format", "size": n * 128}]
    for c in order:
        out.append({"op": "WriteCluster", "c": c, "data": [[[128, c]]] * (g.spc - 1) + [[[127, c], [1, 255 - c]]], "extra": 0})
    for c in range(1, g.clusters + 1):
        out.append({"op": "ReadCluster", "c": c})
    for s in range(0, n, g.spc):
        out.append({"op": "ReadBlocks", "start": s, "count": g.spc})
    return {"c": {"size": 0, "img": [], "file": "rw"}, "ops": out}


def name(rng):
    alphabet = b"AaBbZz09 $#-_!~" + bytes([rng.randint(1, 127)])
    stem = bytes(rng.choice(alphabet) for _ in range(rng.choice([0, 1, 1, 2, 5, 6, 6, 7, 9])))
    r = rng.random()
    if r < .25:
        return stem
    ext = bytes(rng.choice(alphabet) for _ in range(rng.choice([0, 0, 1, 2, 3, 3, 4])))
    if r < .9:
        return stem + b"." + ext
    out = stem + b"." + ext + rng.choice([b".", b". ", b".x", b"..", b"   "])
    return out


def names(rng, n):
    out = []
    for _ in range(n):
        s = name(rng)
        out.append(s)
        if rng.random() < .5:
            out.append(rng.choice([s.lower(), s.upper(), s + b" ", s + b".", s + b". ", s[:-1], s.replace(b".", b" "), s.replace(b".", b"")]))
        if rng.random() < .05:
            out.append("".join(rng.choice("aé\u0131ſßÿ.Ω\u0080\u007f\u00a0") for _ in range(rng.randint(1, 8))).encode())
        if rng.random() < .02:
            out.append(bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 9))))
    return out


def batches(all_names, size=40):
    ops = [{"name": list(n)} for n in all_names]
    return [{"c": {}, "ops": ops[i:i + size]} for i in range(0, len(ops), size)]


def check(ctx):
    p, rng, q = ctx.prop, ctx.rng, ctx.pick
    comp, spec = "fat8", "TraceFat8"
    many = lambda n, f, **kw: [f(rng, **kw) for _ in range(n)]
    if p == "C19":
        ctx.assumptions += ["names are ASCII; spaces at the end of either part of a name are padding"]
        length = q(5, 7)
        ctx.mc("MCFat8Names", constants={"MaxLen": q(6, 8)})
        small = [bytes(t) for k in range(length + 1) for t in itertools.product(b" .Aa", repeat=k)]
        ctx.conform("fat8names", "TraceFat8Names", batches(small, 60), "every name of up to %d characters" % length)
        ctx.conform("fat8names", "TraceFat8Names", batches(names(rng, q(6000, 60000))), "random names")
        lens = [b"ABCDEFGHIJKL"[:i] + (b"." if dot else b"") + b"XYZUVW"[:j] for i in range(10) for dot in (0, 1) for j in range(7) if dot or not j]
        lens += [x.lower() for x in lens] + [bytes([65, c, 66, 46, c]) for c in range(1, 128)] + [bytes([c]) for c in range(128)]
        ctx.conform("fat8names", "TraceFat8Names", batches(lens), "every combination of lengths, every character")
        return
    ctx.assumptions += ["the image file isn't changed by others while a driver method runs", "image sizes are whole sectors when mounting"]
    if p in ("C16", "C17"):
        ctx.conform(comp, spec, graph_scripts(ctx, "volume", q(3, 4), q(None, 40000)), "formatting, mounting and flushing (model)")
        ctx.conform(comp, spec, many(q(900, 9000), volume_scenario), "histories of volumes")
    if p == "C16":
        sizes = sorted({n * 128 + d for n in SIZES for d in range(-130, 131)} | {k * 128 for k in range(0, 2300, q(7, 1))})
        rng.shuffle(sizes)
        out = []
        for i in range(0, len(sizes), 25):
            c = start(rng, rng.choice(SIZES + [0, 5]))
            out.append({"c": c, "ops": [x for s in sizes[i:i + 25] for x in ({"op": "fresh", "file": "rw"}, {"op": "Format", "size": s})]})
        ctx.conform(comp, spec, out, "many sizes")
        geos = list(range(0, 2100)) + BIG
        ctx.conform(comp, spec, [{"c": {"size": 0, "img": [], "file": "rw"}, "ops": [{"op": "geo", "n": x} for x in geos[i:i + 50]]}
                                 for i in range(0, len(geos), 50)], "geometries")
    elif p == "C17":
        ctx.conform(comp, spec, [s for n in SIZES for s in every_difference(rng, n)], "every difference between tables")
    elif p == "C18":
        for mode in ("io", "big"):
            ctx.conform(comp, spec, graph_scripts(ctx, mode, q(3, 4) if mode == "io" else 3, q(None, 40000)), "clusters and sectors (model, %s)" % mode)
        ctx.conform(comp, spec, [every_cluster(rng, n) for n in SIZES], "every cluster")
        ctx.conform(comp, spec, many(q(700, 8000), io_scenario), "clusters and sectors")
        ctx.conform(comp, spec, many(q(200, 2000), io_scenario, trouble=1.0), "images that become unusable")
