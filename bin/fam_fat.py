"""C20-C23, C31: FAT boot sectors, directory entries, directories and files."""
from fam_fat8 import norm

EOCS = [0xFF8, 0xFFF8, 0x0FFFFFF8]


def runs(b):
    return norm([[1, v] for v in b])


def le(n, k):
    return [(n >> (8 * i)) & 255 for i in range(k)]


# Boot sectors ---------------------------------------------------------------

def boot(rng):
    """A boot sector that's valid, or nearly."""
    spc = rng.choice([1, 2, 4, 8, 16, 32, 64, 128])
    bps = rng.choice([512, 512, 512, 1024, 2048, 4096])
    fats, reserved = rng.choice([1, 2, 2, 2, 3, 255]), rng.choice([1, 32, rng.randint(1, 65535)])
    roots = rng.choice([0, 16, 112, 512, 512, 17, rng.randint(0, 65535)])
    fat16 = rng.choice([0, 9, 250, 65535, rng.randint(1, 300)])
    fat32 = rng.choice([0, 1, 513, rng.randint(1, 3000), rng.randint(0, 2**32 - 1)])
    clusters = rng.choice([0, 1, 4084, 4085, 65524, 65525, rng.randint(0, 80000), rng.randint(0, 2**24)])
    root_sectors = (roots * 32 + bps - 1) // bps
    total = reserved + fats * (fat16 or fat32) + root_sectors + clusters * spc + rng.choice([0, 0, spc - 1, rng.randint(0, spc - 1)])
    if rng.random() < .15:
        total += rng.choice([-1, 1, -clusters * spc - 1, rng.randint(-1000, 1000)])
    total = max(0, min(total, 2**32 - 1))
    if rng.random() < .05:
        total = 2**32 - 1
    small = total < 65536 and rng.random() < .8
    other = rng.choice([0, rng.randint(0, 2**32 - 1)])
    jmp = rng.choice([[0xEB, rng.randint(0, 255), 0x90], [0xE9, 0, 1]])
    b = jmp + [rng.randint(0, 255) for _ in range(8)] + le(bps, 2) + [spc] + le(reserved, 2) + [fats] + le(roots, 2)
    b += le(total if small else 0, 2) + [rng.choice([0xF8, 0xF0, 0xFF])] + le(fat16, 2) + le(rng.randint(0, 65535), 2)
    b += le(rng.randint(0, 65535), 2) + le(rng.randint(0, 2**32 - 1), 4) + le(other if small else total, 4) + le(fat32, 4)
    r = rng.random()
    if r < .25:
        b[rng.randint(0, 39)] = rng.choice([0, 1, 255, 128, rng.randint(0, 255)])
    elif r < .35:
        b[13] = rng.randint(0, 255)
    elif r < .45:
        b[11:13] = le(rng.choice([0, 1, 128, 256, 513, 8192, 32768, 65535, 1536, 3072]), 2)
    return b


def boot_op(rng):
    b = boot(rng) if rng.random() < .9 else [rng.randint(0, 255) for _ in range(40)]
    op = {"piece": rng.choice([512, 512, 1, 7, 36, 39])}
    r = rng.random()
    if r < .2:
        b = b + [rng.randint(0, 255) for _ in range(rng.choice([1, 472]))]
    elif r < .35:
        b = b[:rng.randint(0, 39)]
    if rng.random() < .3:
        op[rng.choice(["fail", "early"])] = True
    op["b"] = b
    return op


def batches(ops, size, c=None):
    return [{"c": c or {}, "ops": ops[i:i + size]} for i in range(0, len(ops), size)]


# Directory entries ----------------------------------------------------------

def entry(rng, name=b"FILE", ext=b"", attr=None, first=None, size=None):
    date = ((rng.randint(0, 127) << 9) | (rng.randint(1, 12) << 5) | rng.randint(1, 28))
    date2 = ((rng.randint(0, 127) << 9) | (rng.randint(1, 12) << 5) | rng.randint(1, 28))
    date3 = ((rng.randint(0, 127) << 9) | (rng.randint(1, 12) << 5) | rng.randint(1, 28))
    tm = lambda: (rng.randint(0, 23) << 11) | (rng.randint(0, 59) << 5) | rng.randint(0, 29)
    attr = rng.choice([0, 32, 33, 32]) if attr is None else attr
    first = rng.randint(0, 2**32 - 1) if first is None else first
    size = rng.choice([0, rng.randint(0, 100000), rng.randint(0, 2**32 - 1)]) if size is None else size
    b = list(name.ljust(8)[:8] + ext.ljust(3)[:3]) + [attr, rng.choice([0, rng.randint(0, 255)]), rng.randint(0, 199)]
    b += le(tm(), 2) + le(date, 2) + le(date2, 2) + le(first >> 16, 2) + le(tm(), 2) + le(date3, 2) + le(first & 0xFFFF, 2) + le(size, 4)
    return b


def decode_ops(ctx):
    rng, q = ctx.rng, ctx.pick
    out = []

    def add(b, bpc=None):
        out.append({"op": "decode", "b": b, "bpc": bpc or rng.choice([512, 1024, 2048, 4096, 8192, 16384, 32768, 512])})

    for attr in range(256):
        add(entry(rng, attr=attr))
        b = entry(rng)
        b[12] = attr
        add(b)
        b = entry(rng)
        b[13] = attr
        add(b)
        for at in range(11):
            b = entry(rng, b"ABCDEFGH", b"IJK")
            b[at] = attr
            add(b)
    for at in (14, 16, 18, 22, 24):  # every time and date
        for v in range(0, 65536, q(23, 1)):
            b = entry(rng)
            b[at:at + 2] = le(v, 2)
            add(b)
    for at in (20, 26, 28, 30):
        for v in [0, 1, 255, 256, 32767, 32768, 65535] + [rng.randint(0, 65535) for _ in range(q(100, 2000))]:
            b = entry(rng)
            b[at:at + 2] = le(v, 2)
            add(b)
    for bpc in [512 << i for i in range(7)]:
        for k in [0, 1, 2, 3, 1000, 65536, 2**32 // bpc - 1]:
            for d in (-1, 0, 1):
                add(entry(rng, size=max(0, k * bpc + d)), bpc)
        add(entry(rng, size=2**32 - 1), bpc)
    for i in range(9):
        for j in range(4):
            add(entry(rng, b"ABCDEFGH"[:i] or b" ", b"XYZ"[:j]))
            add(entry(rng, b"\xe5BCDEFGH"[:i] or b"\xe5", b"XYZ"[:j]))
            add(entry(rng, b"\x05BCDEFGH"[:i] or b"\x05", b"XYZ"[:j]))
            add(entry(rng, (b" " * i)[:8] + b"A", b" X"[:j]))
    for n in range(0, 40):
        add([65] * n)
    for _ in range(q(1000, 20000)):
        add([rng.randint(0, 255) for _ in range(32)])
    for _ in range(q(1500, 20000)):
        add(entry(rng, bytes(rng.choice(b"AZ09 .\x05\xe5~") for _ in range(8)), bytes(rng.choice(b"AZ ") for _ in range(3)), rng.randint(0, 255)))
    return out


# Volumes --------------------------------------------------------------------

class Volume:
    def __init__(self, rng, damage=0.0, far=0.15):
        self.rng = rng
        self.bps, self.spc = rng.choice([(32, 1), (32, 2), (64, 1), (64, 2), (32, 4), (128, 1), (512, 1), (512, 2)])
        self.bpc = self.bps * self.spc
        k = rng.randint(1, 14 if self.bpc < 500 else 8)
        self.eoc = rng.choice(EOCS)
        self.ends = [self.eoc, self.eoc + 7, self.eoc + rng.randint(0, 7)]
        if rng.random() < far:
            # a large volume of which little is in use
            self.n = rng.choice([self.eoc - 12, rng.randint(k, self.eoc - 12)])
            self.free = list({rng.randint(2, self.n + 1) for _ in range(k - 1)} | {self.n + 1})
            self.free += [c for c in (c ^ (1 << rng.randint(8, 27)) for c in self.free) if 2 <= c <= self.n + 1 and c not in self.free][:4]
            self.free = list(dict.fromkeys(self.free))
        else:
            self.n = k
            self.free = list(range(2, k + 2))
        self.fat = {0: self.eoc, 1: self.eoc + 7}
        self.data = {}
        self.used = list(self.free)
        if rng.random() < .6:
            rng.shuffle(self.free)
        self.paths, self.files, self.dirs = [], [], [[]]
        self.root = self.directory([], 0, 0, root=True)
        self.rootcap = self.root
        for c in self.used:
            if c not in self.data:
                self.data[c] = self.junk(self.bpc)
        if rng.random() < damage:
            self.damage()

    def junk(self, k):
        rng = self.rng
        r = rng.random()
        if r < .5:
            return [rng.randint(1, 255)] * k
        if r < .6:
            return [rng.randint(0, 255) for _ in range(k)]
        a, at = rng.randint(0, 255), rng.randint(0, k)
        return [a] * at + [rng.randint(0, 255)] * (k - at)

    def chain(self, k):
        """Takes k clusters, if there are."""
        if k > len(self.free):
            return None
        c = [self.free.pop() for _ in range(k)]
        for a, b in zip(c, c[1:] + [None]):
            self.fat[a] = b if b else self.rng.choice(self.ends)
        return c

    def name(self, used):
        rng = self.rng
        while True:
            stem = bytes(rng.choice(b"ABC1") for _ in range(rng.choice([1, 1, 2, 3, 8])))
            r = rng.random()
            if r < .1:
                stem = stem[:4] + b" " + stem[:3]
            elif r < .2:
                stem = b"\x05" + stem[1:]
            elif r < .25:
                stem = stem[:-1] + bytes([rng.choice([0x80, 0xC3, 0xFF, 0x24, 0x7E])])
            ext = bytes(rng.choice(b"XYZ") for _ in range(rng.choice([0, 0, 1, 3])))
            seen = stem.rstrip(b" ")
            if seen[:1] == b"\x05":
                seen = b"\xe5" + seen[1:]
            seen += b"." + ext if ext else b""
            if seen not in used and seen[:1] != b"\xe5" or (seen not in used and stem[:1] == b"\x05"):
                used.add(seen)
                return stem, ext, seen

    def directory(self, path, own, parent, root=False, depth=0):
        """Fills a directory, returns its bytes."""
        rng = self.rng
        per = self.bpc // 32
        b = []
        used = set()
        if not root:
            b += entry(rng, b".", attr=16, first=own, size=0) + entry(rng, b"..", attr=16, first=parent, size=0)
        want = rng.choice([0, 1, 2, 3, 5]) if not root else rng.randint(1, 6)
        if rng.random() < .5:
            while want and (len(b) // 32 + want) % per and rng.random() < .8:
                want += 1
        k = 0
        for _ in range(want):
            k += 1
            r = rng.random()
            if r < .1:
                b += entry(rng, b"\xe5" + bytes(rng.choice(b"ABC") for _ in range(rng.randint(0, 3))), first=rng.randint(0, self.n + 1), size=rng.randint(0, 99))
                continue
            if r < .16:
                b += entry(rng, rng.choice([b"A", b"B", b"VOLUME", b"AB"]), attr=rng.choice([8, 40, 15]), first=0, size=0)
                continue
            stem, ext, seen = self.name(used)
            here = path + [seen]
            if r < .42 and depth < 3:
                start = self.chain(1)
                if start is None:
                    continue
                content = self.directory(here, start[0], own, depth=depth + 1)
                while len(content) > self.bpc * len(start):
                    more = self.chain(1)
                    if more is None:
                        content = content[:self.bpc * len(start)]
                        break
                    self.fat[start[-1]] = more[0]
                    start += more
                if len(content) % self.bpc == 0 and rng.random() < .5:
                    more = self.chain(1)
                    if more:
                        self.fat[start[-1]] = more[0]
                        start += more
                # after the end marker there may be anything
                gap = self.bpc * len(start) - len(content)
                if gap:
                    content = content + [0] * 32 + (self.junk(gap - 32) if rng.random() < .5 else [0] * (gap - 32))
                for i, c in enumerate(start):
                    self.data[c] = content[i * self.bpc:(i + 1) * self.bpc]
                b += entry(rng, stem, ext, attr=rng.choice([16, 16, 17, 48, 18]), first=start[0], size=0)
                self.dirs.append(here)
                self.paths.append(here)
            else:
                clusters = rng.choice([0, 1, 1, 2, 3])
                size = max(0, clusters * self.bpc - rng.choice([0, 0, 1, self.bpc - 1, rng.randint(0, self.bpc - 1)]))
                extra = rng.choice([0, 0, 0, 1])
                c = self.chain(clusters + extra if clusters or rng.random() < .2 else 0)
                if c is None:
                    continue
                first = c[0] if c else rng.choice([0, 0, 0, self.eoc]) if size == 0 else 0
                b += entry(rng, stem, ext, attr=rng.choice([0, 32, 33, 34, 1, 64]), first=first, size=size)
                self.files.append(here)
                self.paths.append(here)
        if root:
            if rng.random() < .6:
                b += [0] * 32 * rng.choice([1, 2])
                if rng.random() < .4:
                    b += entry(rng, b"AFTER", attr=32, first=2, size=5)
        return b

    def damage(self):
        rng = self.rng
        some = lambda: rng.choice(self.used)
        for _ in range(rng.choice([1, 1, 2, 5, len(self.used)])):
            c = some()
            self.fat[c] = rng.choice([0, 1, c, some(), some(), self.n + 2, self.eoc - 1, self.eoc, self.eoc - 8, self.n + 1])

    def c(self):
        chunk = lambda b: [runs(b[i:i + 32]) for i in range(0, len(b), 32)]
        return {"bps": self.bps, "spc": self.spc, "n": self.n, "first": self.rng.choice([1, 3, 33]), "eoc": self.eoc,
                "fat": [list(x) for x in sorted(self.fat.items())], "root": chunk(self.root),
                "data": [[i, chunk(b)] for i, b in sorted(self.data.items())],
                "early": self.rng.random() < .5}


def path_of(rng, v, files=False):
    pool = v.files if files and v.files and rng.random() < .85 else v.paths
    p = list(rng.choice(pool)) if pool and rng.random() < .9 else []
    r = rng.random()
    if r < .08:
        p = p[:-1] + [rng.choice([b"NOPE", b"A", b"AFTER", b"VOLUME", b"B", b"BC"])]
    elif r < .14:
        p = p + [rng.choice([b"A", b"B", b"NOPE", b"A.X"])]
    elif r < .18 and p:
        p = p[:-1] + [p[-1] + rng.choice([b".", b"X", b" "])]
    elif r < .22 and p:
        p = p[:-1] + [p[-1][:-1]]
    parts = [list(x) for x in p]
    r = rng.random()
    if r < .3:
        k = rng.randint(0, len(parts))
        parts[k:k] = rng.choice([[[46]], [[]], [[88], [46, 46]], [[], []], [[46, 46]], [[46], [], [46]]])
    if rng.random() < .08:
        parts += [[]]
    if rng.random() < .7:
        parts = [[]] + parts
    return parts or [[]]


FAULTS = {"ReadFile": ["io", "short", "get", "root"], "Readdir": ["io", "short", "get", "root"], "Stat": ["io", "get", "root"],
          "Lstat": ["root", "io"], "Remove": ["free", "free", "free", "delete", "get", "io", "root"], "Chmod": ["update", "io"], "Chtimes": ["update", "get"]}


def moment(rng):
    r = rng.random()
    if r < .1:
        return rng.choice([[1979, 12, 31, 23, 59, 59, 99], [1980, 1, 1, 0, 0, 0, 0], [1970, 1, 1, 0, 0, 0, 0], [1979, 12, 31, 0, 0, 0, 0], [1601, 1, 1, 0, 0, 0, 0]])
    return [rng.randint(1980, 2107), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, rng.randint(0, 99)])]


def scenario(rng, ops, count=10, damage=0.0, faults=0.0):
    v = Volume(rng, damage)
    out = []
    for _ in range(count):
        name = rng.choice(ops)
        op = {"op": name, "path": path_of(rng, v, files=name in ("ReadFile", "Remove"))}
        if name == "Chmod":
            op["mode"] = rng.choice([0, 0o777, 0o555, 0o444, 0o222, 0o200, 0o020, 0o002, 0o100, rng.randint(0, 0o777)])
        elif name == "Chtimes":
            op["atime"], op["mtime"] = moment(rng), moment(rng)
        if rng.random() < faults and name in FAULTS:
            op["fail"] = {"kind": rng.choice(FAULTS[name]), "n": rng.choice([1, 1, 2, 3])}
        out.append(op)
    return {"c": v.c(), "ops": out}


def long_scenario(rng, ops, faults=0.0):
    """A file and a directory of many clusters."""
    v = Volume.__new__(Volume)
    v.rng = rng
    v.bps, v.spc = rng.choice([(32, 1), (32, 1), (64, 1), (32, 2)])
    v.bpc = v.bps * v.spc
    k, d = rng.choice([17, 33, 65, 127, 129, 200, 256, 257, 258, 300]), rng.choice([3, 17, 33, 65, 129, 257])
    if k + d > 350:
        d = 3
    v.n = k + d + rng.randint(0, 5)
    v.eoc = rng.choice(EOCS)
    v.ends = [v.eoc, v.eoc + 7]
    v.free = list(range(2, v.n + 2))
    v.used = list(v.free)
    if rng.random() < .6:
        rng.shuffle(v.free)
    v.fat, v.data, v.paths, v.files, v.dirs = {0: v.eoc, 1: v.eoc + 7}, {}, [[b"F"], [b"D"]], [[b"F"]], [[], [b"D"]]
    file, room = v.chain(k), v.chain(d)
    content = entry(rng, b".", attr=16, first=room[0], size=0) + entry(rng, b"..", attr=16, first=0, size=0)
    per = v.bpc // 32
    count = d * per - 2 - rng.choice([0, 0, 1, rng.randint(0, per)])
    for i in range(max(0, count)):
        name = b"E%d" % i
        content += entry(rng, name, attr=32, first=0, size=0)
        if i in (0, 1, count - 1) or rng.random() < .02:
            v.paths.append([b"D", name])
            v.files.append([b"D", name])
    content += [0] * (d * v.bpc - len(content))
    for i, c in enumerate(room):
        v.data[c] = content[i * v.bpc:(i + 1) * v.bpc]
    for c in file:
        v.data[c] = [rng.randint(1, 255)] * v.bpc
    size = max(1, k * v.bpc - rng.choice([0, 1, v.bpc - 1, v.bpc, rng.randint(0, v.bpc * k - 1)]))
    v.root = entry(rng, b"F", attr=32, first=file[0], size=size) + entry(rng, b"D", attr=16, first=room[0], size=0) + [0] * 32
    out = []
    for name in rng.sample(ops, min(len(ops), 3)):
        op = {"op": name, "path": [[]] + [list(x) for x in (rng.choice(v.files if name in ("ReadFile", "Remove") else v.paths))]}
        if name == "ReadFile" and rng.random() < .6:
            op["path"] = [[], [70]]
        if name == "Remove":
            op["path"] = [[], [70]]
        if name == "Readdir":
            op["path"] = [[], [68]]
        if rng.random() < faults:
            op["fail"] = {"kind": rng.choice(FAULTS[name]), "n": rng.randint(1, k)}
        out.append(op)
    return {"c": v.c(), "ops": out}


def script_of(walk):
    first = walk[0]["start"]
    return {"c": {"bps": first["bpc"], "spc": 1, "n": first["n"], "first": 2, "eoc": first["eoc"], "fat": [list(x) for x in enumerate(first["fat"])],
                  "root": first["root"], "data": [[i + 2, x] for i, x in enumerate(first["data"])]},
            "ops": [lab["c"] for lab in walk]}


def graph_scripts(ctx, mode, ops, depth=1, deep=False, limit=None):
    edges = ctx.mc("MCFat", constants={"Mode": '"%s"' % mode, "Ops": "{%s}" % ", ".join('"%s"' % o for o in ops), "Depth": depth,
                                       "Deep": "TRUE" if deep else "FALSE", "Emitting": "TRUE"}, graph=True)
    return [script_of(w) for w in ctx.walks(edges, max_len=10, limit=limit)]


def dirent_scenario(rng):
    """A few entries in memory, some about the same file, whose times are set."""
    firsts = [0, 0] + [rng.randint(1, 70000) for _ in range(2)] + [rng.choice([1 << 16, 1 << 31, 65535, 256])]
    firsts += [f ^ (1 << rng.randint(0, 27)) for f in firsts[2:]]
    raw = []
    for _ in range(rng.randint(1, 5)):
        name = rng.choice([b"A", b"AB", b"ABCDEFGH", b"\xe5BC", b"\xe5", b"\x05X"])
        raw.append(entry(rng, name, rng.choice([b"", b"X"]), attr=rng.choice([32, 32, 33, 16, 1, 64, rng.randint(0, 255)]), first=rng.choice(firsts)))
    ops, n = [], len(raw)
    for _ in range(rng.randint(1, 12)):
        i, r = rng.randint(1, n), rng.random()
        if r < .1 and n < 7:
            ops.append({"op": "copy", "i": i})
            n += 1
        elif r < .35:
            ops.append({"op": "same", "i": i, "j": rng.randint(1, n), "value": rng.random() < .5})
        else:
            ops.append({"op": "set", "i": i, "field": rng.choice(["created", "modified", "accessed", "deletedAt"]), "t": moment(rng),
                        "zone": rng.choice([0, 0, 3600, -43200, 50400, 20700])})
    return {"c": {"bpc": rng.choice([512, 1024, 4096, 32768]), "raw": raw}, "ops": ops}


def check_dirents(ctx, env):
    ctx.assumptions += ["whether two files without clusters are the same is left open"]
    edges = ctx.mc("MCFatDirent", constants={"Depth": ctx.pick(2, 3), "Emitting": "TRUE"}, graph=True)
    scripts = [{"c": {"bpc": 512, "raw": w[0]["start"]}, "ops": [lab["c"] for lab in w]} for w in ctx.walks(edges, max_len=10)]
    for s in scripts:
        n = 3
        for op in list(s["ops"]):
            n += op["op"] == "copy"
        s["ops"] += [{"op": "same", "i": i, "j": j} for i in range(1, n + 1) for j in range(1, n + 1)]
    ctx.conform("fatdirent", "TraceFatDirent", scripts, "times set in every order (model)", env=env)
    ctx.conform("fatdirent", "TraceFatDirent", [dirent_scenario(ctx.rng) for _ in range(ctx.pick(3000, 40000))], "entries of all sorts", env=env)


def check(ctx):
    p, rng, q = ctx.prop, ctx.rng, ctx.pick
    env = {"TZ": rng.choice(["Asia/Tokyo", "America/Caracas"])}
    many = lambda n, *a, **kw: [scenario(rng, *a, **kw) for _ in range(n)]
    if p == "C33":
        check_dirents(ctx, env)
        return
    if p == "C20":
        ctx.assumptions += ["boot sectors without FATs, reserved sectors or clusters, FAT32 ones with a fixed root directory and FAT12/16 ones without may be rejected or not"]
        edges = ctx.mc("MCFatBoot", constants={"Deep": q("FALSE", "TRUE"), "Emitting": "TRUE"}, graph=True)
        ctx.jobs[-1]["scripts"] = len(edges)
        ctx.conform("fatboot", "TraceFatBoot", batches([{"b": e["l"]["b"]} for e in edges], 50), "boot sectors around every threshold (model)")
        ctx.conform("fatboot", "TraceFatBoot", batches([boot_op(rng) for _ in range(q(8000, 100000))], 50), "random boot sectors")
        base = boot(rng)
        ops = [{"b": base[:k], "piece": x, "fail": f, "early": e} for k in range(0, 45) for x in (1, 512) for f in (False, True) for e in (False, True)]
        ops += [{"b": base[:13] + [x] + base[14:]} for x in range(256)] + [{"b": base[:11] + le(x, 2) + base[13:]} for x in range(0, 65536, q(61, 7))]
        ops += [{"n": x + d} for x in (0, 4085, 65525, 2**16, 2**32, 2**28) for d in range(-3, 4) if x + d >= 0]
        ctx.conform("fatboot", "TraceFatBoot", batches(ops, 50), "every truncation, cluster size and sector size")
        return
    vol = {"bps": 512, "spc": 1, "n": 1, "first": 1, "eoc": 0xFFF8, "fat": [], "root": [[[32, 0]]], "data": []}
    big = {"C21": ["Readdir", "Stat"], "C22": ["ReadFile", "ReadFile"], "C23": ["Remove", "ReadFile", "Readdir"]}.get(p)
    if big:
        ctx.conform("fat", "TraceFat", [long_scenario(rng, big) for _ in range(q(10, 150))] + [long_scenario(rng, big, faults=.5) for _ in range(q(5, 80))],
                    "long chains", env=env)
    if p == "C21":
        ctx.assumptions += ["dates and times that don't exist, and the first character of a deleted name, may decode to anything"]
        ctx.conform("fat", "TraceFat", batches(decode_ops(ctx), 50, vol), "directory entries", env=env)
        ctx.conform("fat", "TraceFat", graph_scripts(ctx, "tree", ["Readdir", "Stat"], q(1, 2)), "directories (model)", env=env)
        ctx.conform("fat", "TraceFat", many(q(700, 8000), ["Readdir", "Readdir", "Stat", "Stat", "Lstat"]), "directories", env=env)
        ctx.conform("fat", "TraceFat", many(q(250, 3000), ["Readdir", "Readdir", "Stat"], damage=1.0), "damaged directories", env=env)
        ctx.conform("fat", "TraceFat", many(q(150, 2000), ["Readdir", "Stat", "Lstat"], faults=.5), "directories that can't be read", env=env)
    elif p == "C22":
        ctx.conform("fat", "TraceFat", graph_scripts(ctx, "file", ["ReadFile"], 1, ctx.thorough), "every allocation table (model)", env=env)
        ctx.conform("fat", "TraceFat", graph_scripts(ctx, "tree", ["ReadFile"], q(1, 2)), "files in directories (model)", env=env)
        ctx.conform("fat", "TraceFat", many(q(600, 8000), ["ReadFile"]), "files", env=env)
        ctx.conform("fat", "TraceFat", many(q(500, 8000), ["ReadFile"], damage=1.0), "damaged allocation tables", env=env)
        ctx.conform("fat", "TraceFat", many(q(250, 3000), ["ReadFile"], faults=.6), "files that can't be read", env=env)
    elif p == "C23":
        ctx.conform("fat", "TraceFat", graph_scripts(ctx, "file", ["Remove"], 1, ctx.thorough), "removal with every allocation table (model)", env=env)
        ctx.conform("fat", "TraceFat", graph_scripts(ctx, "tree", ["Remove"], q(1, 2)), "removal in directories (model)", env=env)
        ops = ["Remove", "Remove", "Remove", "Remove", "Readdir", "ReadFile", "Stat"]
        ctx.conform("fat", "TraceFat", many(q(500, 6000), ops), "histories with removals", env=env)
        ctx.conform("fat", "TraceFat", many(q(500, 6000), ops, faults=.6), "removals that fail", env=env)
        ctx.conform("fat", "TraceFat", many(q(200, 3000), ops, faults=.3, damage=1.0), "removals on damaged volumes", env=env)
    elif p == "C31":
        ops = ["Chmod", "Chmod", "Chtimes", "Chtimes", "Stat", "Readlink", "Chown", "Lchown", "Link", "Symlink"]
        ctx.conform("fat", "TraceFat", graph_scripts(ctx, "meta", ["Chmod", "Chtimes"], 1), "metadata (model)", env=env)
        ctx.conform("fat", "TraceFat", many(q(900, 9000), ops), "metadata", env=env)
        ctx.conform("fat", "TraceFat", many(q(300, 3000), ops, faults=.5), "metadata that can't be saved", env=env)
        ctx.conform("fat", "TraceFat", many(q(200, 3000), ops, faults=.2, damage=1.0), "metadata on damaged volumes", env=env)
