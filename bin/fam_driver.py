"""C10-C15: the generic driver over a file system implementation."""

O_RDONLY, O_WRONLY, O_RDWR = 0, 1, 2
O_APPEND, O_CREATE, O_TRUNC, O_EXCL, O_SYNC = 8, 0x200, 0x400, 0x800, 0x2000
ALL = {"w": True, "i": True, "d": True, "a": True}
MODE_DIR, MODE_SYMLINK, MODE_SETUID, MODE_STICKY, MODE_SETGID = 1 << 31, 1 << 27, 1 << 23, 1 << 20, 1 << 22
PERM_FAULTS = ["get", "list", "create", "unlink", "readb", "writeb", "resize", "chmod", "chown", "chtimes", "link", "close"]


class Tree:
    """The volume a scenario starts with, and the paths worth trying."""

    def __init__(self, rng, bs, links=3, depth=3, size=9, hard=False, names="abcde"):
        self.rng, self.bs, self.names = rng, bs, list(names)
        self.objs = [dict(t="d", mode=0o755, e=[], data=[])]
        self.dirs, self.files, self.links = [[]], [], []
        ids = {(): 1}
        for _ in range(rng.randint(size // 2, size)):
            parent = rng.choice(self.dirs)
            name = rng.choice(self.names)
            if any(e["n"] == name for e in self.objs[ids[tuple(parent)] - 1]["e"]):
                continue
            path = parent + [name]
            entries = self.objs[ids[tuple(parent)] - 1]["e"]
            if hard and self.files and rng.random() < 0.15:
                entries.append({"n": name, "id": ids[tuple(rng.choice(self.files))]})
                ids[tuple(path)] = entries[-1]["id"]
                self.files.append(path)
                continue
            mode = rng.choice([0o755, 0o644, 0o600, 0o777, 0]) | (rng.choice([MODE_SETUID, MODE_SETGID, MODE_STICKY]) if rng.random() < .1 else 0)
            r = rng.random()
            if r < 0.45 and len(path) < depth:
                o = dict(t="d", mode=mode, e=[], data=[])
                self.dirs.append(path)
            elif r < 0.7 or len(self.links) >= links:
                o = dict(t="f", mode=mode, e=[], data=content(rng, bs))
                if rng.random() < 0.08:
                    o.update(t=rng.choice("pcbsi"), data=[])
                self.files.append(path)
            else:
                o = dict(t="l", mode=0o777, **self.target(path))
                self.links.append(path)
            self.objs.append(o)
            entries.append({"n": name, "id": len(self.objs)})
            ids[tuple(path)] = len(self.objs)
        self.ids = ids

    def target(self, path):
        """A target for a link at the given path: up to three components."""
        rng = self.rng
        r = rng.random()
        known = self.dirs + self.files + self.links + [path]
        to = rng.choice(known)
        if r < 0.35:
            comps = to[-3:] if len(to) <= 3 else to[:3]
            return {"abs": True, "tg": list(comps)}
        if r < 0.7:
            # relative to the directory with the link
            here = path[:-1]
            k = 0
            while k < len(here) and k < len(to) and here[k] == to[k]:
                k += 1
            comps = [".."] * (len(here) - k) + to[k:]
            comps = comps[:3] or ["."]
        else:
            comps = [rng.choice(self.names + ["..", ".", "zz"]) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.1 and len(comps) < 3:
            comps = comps + rng.choice([[""], ["."], ["zz"]])
        return {"abs": False, "tg": comps}

    def all(self):
        return self.dirs + self.files + self.links

    def path(self, kind=None, plain=False):
        """A path argument."""
        rng = self.rng
        pool = {"d": self.dirs, "f": self.files, "l": self.links}.get(kind) or self.all()
        comps = list(rng.choice(pool))
        r = rng.random()
        if plain:
            return {"abs": True, "comps": comps}
        if r < 0.2:
            comps.append(rng.choice(self.names + ["zz"]))
        elif r < 0.3:
            comps += [rng.choice(self.names), rng.choice(self.names)]
        elif r < 0.4 and self.links:
            comps = list(rng.choice(self.links)) + [rng.choice(self.names + ["..", "."])]
        elif r < 0.47:
            comps = [rng.choice(self.names + ["..", ".", ""]) for _ in range(rng.randint(0, 5))]
        while rng.random() < 0.25:
            k = rng.randint(0, len(comps))
            comps[k:k] = rng.choice([["."], [""], [".."], [rng.choice(self.names), ".."], ["zz", ".."], ["..", ".."]])
        ab = rng.random() < 0.7
        if not ab:
            if rng.random() < 0.3:
                comps = [".."] * rng.randint(1, 3) + comps
            elif rng.random() < 0.4:
                comps = comps[-rng.randint(1, 2):]
            while comps and comps[0] == "":
                comps.pop(0)
        return {"abs": ab, "comps": comps}

    def add(self, path, kind):
        """Another path that may exist from now on."""
        comps = [c for c in path["comps"] if c not in ("", ".")]
        if ".." in comps or not comps:
            return
        pool = {"d": self.dirs, "f": self.files}[kind]
        if comps not in pool and len(comps) <= 5:
            pool.append(comps)


def content(rng, bs, most=None, span=3):
    n = rng.choice([0, 1, bs - 1, bs, bs + 1, (span - 1) * bs, rng.randint(0, span * bs), rng.randint(0, span * bs)])
    n = max(0, n if most is None else min(n, most))
    return [rng.randint(1, 127) for _ in range(n)]


def config(rng, perms=None, **kw):
    c = dict(bs=rng.choice([1, 2, 3, 4, 8]), hard=rng.random() < 0.8, attrs=rng.random() < 0.85, sym=rng.random() < 0.93,
             at=rng.random() < 0.7, mt=rng.random() < 0.7, ct=rng.random() < 0.3, crt=rng.random() < 0.3,
             dt=rng.random() < 0.3, dots=rng.random() < 0.5, preserve=rng.random() < 0.2)
    c.update(perms if perms is not None else ALL)
    c.update(kw)
    return c


def mode(rng):
    return {"mode": rng.randint(0, 511),
            "mbits": rng.choice([0, 0, 0, MODE_DIR, MODE_SYMLINK, MODE_SETUID, MODE_STICKY | MODE_SETUID, MODE_DIR | MODE_STICKY, MODE_SETGID])}


def path_op(rng, t, name):
    op = {"op": name}
    if name in ("Stat", "Lstat", "ReadDir", "Chdir", "Normalize", "Remove", "RemoveAll", "Truncate", "ReadFile"):
        kind = {"ReadDir": "d", "Chdir": "d", "ReadFile": "f", "Truncate": "f"}.get(name)
        op["p"] = t.path(kind if rng.random() < 0.6 else None)
    elif name == "Readlink":
        op["p"] = t.path("l" if rng.random() < 0.6 else None, plain=rng.random() < 0.4)
    elif name in ("Mkdir", "MkdirAll"):
        op.update(mode(rng), p=t.path("d"))
        if name == "MkdirAll" and rng.random() < 0.6:
            op["p"]["comps"] += [rng.choice(t.names) for _ in range(rng.randint(1, 3))]
        t.add(op["p"], "d")
    elif name == "Link":
        op.update(p=t.path("f" if rng.random() < 0.7 else None), q=t.path("d"))
        t.add(op["q"], "f")
    elif name == "WriteFile":
        op.update(mode(rng), p=t.path("f" if rng.random() < 0.6 else None), data=content(rng, t.bs))
        t.add(op["p"], "f")
    elif name == "Chmod":
        op.update(mode(rng), p=t.path())
    elif name in ("Chown", "Lchown"):
        op.update(p=t.path(), uid=rng.randint(0, 9), gid=rng.randint(0, 9))
    elif name == "Chtimes":
        op.update(p=t.path(), at=rng.randint(1, 99), mt=rng.randint(1, 99))
    elif name == "SameFile":
        op.update(p=t.path("f"), q=t.path("f"))
    elif name == "OpenFile":
        fl = rng.choice([O_RDONLY, O_WRONLY, O_RDWR, O_RDWR])
        for bit, odds in ((O_CREATE, .6), (O_TRUNC, .3), (O_APPEND, .15), (O_SYNC, .15)):
            if rng.random() < odds:
                fl |= bit
        if fl & O_CREATE and rng.random() < 0.4:
            fl |= O_EXCL
        op.update(mode(rng), p=t.path("f" if rng.random() < 0.5 else None), flags=fl, slot=1)
        t.add(op["p"], "f")
    elif name in ("Open", "Create"):
        op.update(p=t.path("f" if rng.random() < 0.5 else None), slot=1)
        if name == "Create":
            t.add(op["p"], "f")
    elif name == "OpenDir":
        op.update(p=t.path("d"), slot=1)
    return op


def fault(rng, op, odds):
    if rng.random() < odds:
        op["fail"] = {k: rng.choice([1, 1, 1, 2, 2, 3, 4]) for k in rng.sample(PERM_FAULTS, rng.choice([1, 1, 2, 4]))}
    return op


def final(t):
    """Everything there may be is looked at in the end."""
    out = [{"op": "dump"}]
    for p in t.dirs:
        out.append({"op": "ReadDir", "p": {"abs": True, "comps": p}})
    for p in t.files:
        out.append({"op": "ReadFile", "p": {"abs": True, "comps": p}})
    return out


def tree_scenario(rng, ops, weights, faults=0.0, perms=None, end=True, plant=0.0, **kw):
    """Operations on paths; files and directories are closed right after they were opened."""
    c = config(rng, perms)
    if rng.random() < 0.3:
        kw["names"] = ["a", rng.choice([".a", ".b", "~"]), rng.choice(["...", "..a", "a..", "...."]), rng.choice(["b.c", "A", "-"]),
                       rng.choice(["a b", "aa", "a\\b", "*"])]
    t = Tree(rng, c["bs"], hard=c["hard"], **kw)
    c["objs"] = t.objs
    names, ws = list(weights), list(weights.values())
    planted = len(t.links)
    out = []
    for _ in range(ops):
        name = rng.choices(names, ws)[0]
        if planted < 4 and rng.random() < plant:
            planted += 1
            p = rng.choice(t.dirs)
            if tuple(p) in t.ids:
                path = p + [rng.choice(t.names)]
                tg = t.target(path)
                out.append({"op": "plant", "dir": t.ids[tuple(p)], "name": path[-1],
                            "tg": {"abs": tg["abs"], "comps": tg["tg"]}})
                t.links.append(path)
            continue
        op = fault(rng, path_op(rng, t, name), faults)
        out.append(op)
        if "slot" in op:
            if op["op"] == "OpenDir":
                for _ in range(rng.randint(1, 3)):
                    out.append(fault(rng, {"op": "HReadDir", "slot": 1, "n": rng.choice([-1, 0, 1, 2]),
                                           "kind": rng.choice(["ReadDir", "Readdir", "Readdirnames"])}, faults))
                out.append({"op": "HStat", "slot": 1})
                if rng.random() < 0.3:
                    out.append({"op": "HChdir", "slot": 1})
            else:
                for _ in range(rng.randint(0, 2)):
                    out.append(fault(rng, handle_op(rng, c["bs"], 1), faults))
            if rng.random() < faults * 2:
                out.append(fault(rng, {"op": rng.choice(["HSync", "HClose"]), "slot": 1}, 0.7))
            out.append({"op": "HClose", "slot": 1})
    if end:
        out += final(t)
    return {"c": c, "ops": out}


def chain_scenario(rng, faults=0.0):
    """Long chains of links, across directories, with or without an end."""
    c = config(rng)
    objs = [dict(t="d", mode=0o755, e=[], data=[])]

    def new(parent, name, **o):
        objs.append(dict({"mode": 0o755, "e": [], "data": []}, **o) if o["t"] != "l" else dict(o, mode=0o777))
        objs[parent - 1]["e"].append({"n": name, "id": len(objs)})
        return len(objs)

    dirs = [(1, [])]
    for k in range(rng.randint(0, 7)):
        i, p = dirs[-1] if rng.random() < 0.7 else rng.choice(dirs)
        dirs.append((new(i, "d%d" % k, t="d"), p + ["d%d" % k]))
    i, p = rng.choice(dirs)
    kind = rng.choice("ffdlz")
    at = p + ["end"]
    if kind in "fd":
        new(i, "end", t=kind, data=content(rng, c["bs"]) if kind == "f" else [])
    length = rng.choice([1, 2, 3, 5, 7, 8, 9, 10, 12, 16, 20, 25, 32])
    chain = []
    for k in range(length):
        i, p = rng.choice(dirs)
        here = p
        via = list(at)
        r = rng.random()
        if r < 0.5:
            n = 0
            while n < len(here) and n < len(via) - 1 and here[n] == via[n]:
                n += 1
            tg = {"abs": False, "tg": [".."] * (len(here) - n) + via[n:]}
        else:
            tg = {"abs": True, "tg": via}
        at = p + ["l%d" % k]
        new(i, "l%d" % k, t="l", **tg)
        chain.append(at)
    if kind == "l":
        # a cycle of all of them, or of some
        i, p = [x for x in dirs if True][0]
        objs[0]["e"].append({"n": "x", "id": len(objs) + 1})
        objs.append(dict(t="l", mode=0o777, abs=True, tg=rng.choice(chain)))
    if kind == "l":
        for o in objs:
            if o["t"] == "l" and o["tg"][-1:] == ["end"]:
                o.update(abs=True, tg=["x"])
    c["objs"] = objs
    ops = []
    for p in [chain[-1], chain[0], rng.choice(chain), rng.choice(chain)]:
        comps = p + (rng.choice([[], ["zz"], ["l1"]]) if rng.random() < 0.4 else [])
        name = rng.choice(["Stat", "Stat", "Lstat", "ReadFile", "ReadDir", "Chdir", "Readlink", "WriteFile", "Mkdir", "Remove"])
        op = {"op": name, "p": {"abs": True, "comps": comps}}
        if name in ("WriteFile", "Mkdir"):
            op.update(mode(rng))
        if name == "WriteFile":
            op["data"] = content(rng, c["bs"])
        ops.append(fault(rng, op, faults))
    return {"c": c, "ops": ops + [{"op": "dump"}]}


def removal_scenario(rng, faults=0.0, perms=None):
    """Deep directories are removed, sometimes failing anywhere below."""
    c = config(rng, perms)
    t = Tree(rng, c["bs"], links=2, depth=6, size=14, names="abc", hard=c["hard"])
    c["objs"] = t.objs
    out = []
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        pool = [p for p in t.dirs if len(p) <= 2] or t.dirs
        p = rng.choice(pool if r < 0.7 else t.all())
        op = {"op": rng.choice(["RemoveAll", "RemoveAll", "RemoveAll", "Remove"]), "p": {"abs": True, "comps": list(p)}}
        if rng.random() < faults:
            op["fail"] = {k: rng.randint(1, 9) for k in rng.sample(["unlink", "list", "get", "close"], rng.choice([1, 1, 2]))}
        out.append(op)
        if rng.random() < 0.3:
            out.append({"op": "Mkdir", "p": t.path("d"), **mode(rng)})
    return {"c": c, "ops": out + final(t)}


def deep_scenario(rng, faults=0.0, length=10):
    """Names and paths that are long, directories that are nested deeply, links with
    long targets."""
    c = config(rng)
    long = rng.choice([1, 1, 14, 60, 255])
    depth = rng.choice([12, 20, 33, 40] if long > 1 else [20, 33, 40, 60])
    if long > 1:
        c["bs"] = rng.choice([64, 128, 500, 512])
    names = ["a", "b" * long, "c" + "d" * (long - 1)]
    objs = [dict(t="d", mode=0o755, e=[], data=[])]
    t = Tree.__new__(Tree)
    t.rng, t.bs, t.names, t.objs = rng, c["bs"], names, objs
    t.dirs, t.files, t.links, ids = [[]], [], [], {(): 1}

    def new(parent, name, **o):
        if tuple(parent + [name]) in ids:
            return
        objs.append(o)
        objs[ids[tuple(parent)] - 1]["e"].append({"n": name, "id": len(objs)})
        ids[tuple(parent + [name])] = len(objs)
        {"d": t.dirs, "f": t.files, "l": t.links}[o["t"]].append(parent + [name])

    here = []
    for _ in range(depth):
        name = rng.choice(names)
        new(here, name, t="d", mode=0o755, e=[], data=[])
        here = here + [name]
    for k in range(rng.randint(2, 6)):
        new(rng.choice([here, rng.choice(t.dirs)]), rng.choice(["f%d" % k, "f" * long]), t="f", mode=0o644, data=content(rng, c["bs"]))
    for k in range(rng.randint(1, 3)):
        at, to = rng.choice(t.dirs), rng.choice(t.all())
        if rng.random() < 0.5:
            tg = dict(abs=True, tg=list(to))
        else:
            up = rng.randint(0, len(at)) if rng.random() < 0.3 else len(at)
            tg = dict(abs=False, tg=([".."] * up + list(to)) or ["."])
        if tg["abs"] and not tg["tg"]:
            tg["tg"] = ["a"]
        new(at, "l%d" % k, t="l", mode=0o777, **tg)
    t.ids = ids
    c["objs"] = objs
    weights = {"Stat": 3, "Lstat": 1, "ReadFile": 2, "ReadDir": 1, "Readlink": 1, "Chdir": 2, "Getwd": 1, "MkdirAll": 2, "Mkdir": 1,
               "RemoveAll": .7, "Remove": 1, "WriteFile": 2, "Normalize": 1}
    out = []
    for _ in range(length):
        op = path_op(rng, t, rng.choices(list(weights), list(weights.values()))[0])
        if "p" in op and rng.random() < 0.3:
            # a detour
            k = rng.randint(0, len(op["p"]["comps"]))
            n = rng.randint(1, 40)      # whatever is stepped over needn't exist
            op["p"]["comps"][k:k] = [rng.choice(names) for _ in range(n)] + [".."] * n if op["p"]["abs"] or k else []
        if op["op"] == "RemoveAll" and rng.random() < 0.7:
            op["p"] = {"abs": True, "comps": here[:rng.randint(1, depth)]}
        if op["op"] == "MkdirAll" and rng.random() < 0.7:
            op["p"] = {"abs": True, "comps": rng.choice(t.dirs) + [rng.choice(names) for _ in range(rng.randint(5, 12))]}
        out.append(fault(rng, op, faults))
    return {"c": c, "ops": out + [{"op": "dump"}]}


def handle_op(rng, bs, slot, span=3):
    room = span * bs + 2

    def where():
        return rng.choice([0, 1, bs - 1, bs, bs + 1, (span - 1) * bs, rng.randint(0, room), rng.randint(0, room)])

    name = rng.choices(["HRead", "HReadAt", "HWrite", "HWriteAt", "HWriteString", "HTruncate", "HSeek", "HSync", "HStat",
                        "HName", "HChmod", "HChown", "HReadFrom", "HWriteTo"],
                       [3, 2, 4, 3, 1, 3, 4, 1, 1, .3, .4, .4, 1.2, 1])[0]
    op = {"op": name, "slot": slot}
    if name in ("HRead", "HReadAt"):
        op["len"] = rng.choice([0, 1, bs, bs + 1, rng.randint(0, room + 2), room])
    if name in ("HReadAt", "HWriteAt"):
        op["off"] = where()
    if name == "HReadFrom":
        op.update(chunk=rng.choice([0, 1, bs, 3] if span == 3 else [0, bs, 511, 512, 513]), late=rng.random() < 0.5)
    if name in ("HWrite", "HWriteAt", "HWriteString", "HReadFrom"):
        op["data"] = content(rng, bs, (span - 1) * bs + 1, span)
    if name == "HTruncate":
        op["size"] = where()
    if name == "HSeek":
        op["whence"] = rng.choice([0, 0, 1, 2])
        op["off"] = where() if op["whence"] == 0 else rng.randint(-bs - 1, bs) if span == 3 else rng.randint(-room, bs)
    if name in ("HReadAt", "HWriteAt", "HTruncate") and rng.random() < 0.05:
        op["size" if name == "HTruncate" else "off"] = -rng.choice([1, 2, bs, 1000])
    if name == "HChmod":
        op.update(mode(rng))
    if name == "HChown":
        op.update(uid=rng.randint(0, 9), gid=rng.randint(0, 9))
    return op


def content_scenario(rng, sessions=4, ops=8, faults=0.0, perms=None, slots=2, span=3, scale=None):
    """Several open files, no links, and nothing happens to an open file other than
    through its handle."""
    c = config(rng, perms, hard=False)
    if span > 3:
        c["bs"], span = rng.choice([(1, 200), (2, 140), (4, 70), (5, 300), (16, 40), (64, 17), (128, 9), (512, 3), (512, 6), (1000, 3)])
    if scale:
        c["bs"], span = scale
    t = Tree(rng, c["bs"], links=0, depth=1 if scale else 2, size=2 if scale else 5)
    for o in t.objs:
        if span > 3 and o["t"] == "f":
            o["data"] = content(rng, c["bs"], span=span)
    c["objs"] = t.objs
    for k in range(slots + 1):
        t.files.append(["new%d" % k])
    out, busy = [], {}
    room = 3 * c["bs"] + 2
    abs_ = lambda p: {"abs": True, "comps": list(p)}
    left = sessions

    def close(slot):
        if rng.random() < faults * 1.5:
            out.append(fault(rng, {"op": rng.choice(["HSync", "HSync", "HClose"]), "slot": slot}, 0.8))
        out.append({"op": "HClose", "slot": slot})
        p = busy.pop(slot)
        out.append({"op": "Stat", "p": abs_(p)})
        out.append({"op": "ReadFile", "p": abs_(p)})

    while left > 0 or busy:
        free = [s for s in range(1, slots + 1) if s not in busy]
        if left > 0 and free and (not busy or rng.random() < 0.3):
            left -= 1
            idle = [p for p in t.files if p not in busy.values()]
            p = rng.choice(idle)
            fl = rng.choice([O_RDONLY, O_WRONLY, O_RDWR, O_RDWR, O_RDWR])
            for bit, odds in ((O_CREATE, .8), (O_TRUNC, .25), (O_APPEND, .15), (O_SYNC, .2)):
                if rng.random() < odds:
                    fl |= bit
            out.append(fault(rng, {"op": "OpenFile", "p": abs_(p), "flags": fl, "slot": free[0], **mode(rng)}, faults / 2))
            busy[free[0]] = p
            continue
        if busy and rng.random() < 0.75:
            slot = rng.choice(list(busy))
            for _ in range(rng.randint(1, ops)):
                out.append(fault(rng, handle_op(rng, c["bs"], slot, span), faults))
            if rng.random() < 0.1:
                far = rng.choice([1 << 16, 1 << 20, 1 << 28])
                out += [{"op": "HSeek", "slot": slot, "off": far, "whence": rng.choice([0, 0, 1, 2])},
                        {"op": rng.choice(["HRead", "HWriteTo"]), "slot": slot, "len": rng.randint(0, 9)},
                        {"op": "HReadAt", "slot": slot, "off": far, "len": rng.randint(0, 9)},
                        {"op": "HSeek", "slot": slot, "off": rng.choice([0, 1]), "whence": 0}]
            if rng.random() < 0.5:
                close(slot)
            continue
        idle = [p for p in t.files if p not in busy.values()]
        if idle:
            p = rng.choice(idle)
            r = rng.random()
            if r < 0.4:
                out.append(fault(rng, {"op": "WriteFile", "p": abs_(p), "data": content(rng, c["bs"], span=span), **mode(rng)}, faults))
            elif r < 0.6:
                out.append(fault(rng, {"op": "Truncate", "p": abs_(p)}, faults))
            out.append(fault(rng, {"op": "ReadFile", "p": abs_(p)}, faults / 2))
            out.append({"op": "Stat", "p": abs_(p)})
        if not left and busy and rng.random() < 0.5:
            close(rng.choice(list(busy)))
    return {"c": c, "ops": out + [{"op": "dump"}]}


def directory_scenario(rng, most=9, faults=0.0):
    c = config(rng)
    t = Tree(rng, c["bs"], links=0, depth=2, size=3)
    n = rng.randint(0, most) if most < 10 else rng.choice([10, 16, 33, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, most])
    d = dict(t="d", mode=0o755, e=[], data=[])
    objs = t.objs
    objs.append(d)
    here = len(objs)
    objs[0]["e"].append({"n": "big", "id": here})
    for k in range(n):
        r = rng.random()
        o = dict(t=rng.choice("pcbsi"), mode=0o600, data=[]) if r < .05 else dict(t="d", mode=0o700 | rng.choice([0, MODE_STICKY]), e=[], data=[]) if r < .3 else dict(t="f", mode=0o640, data=content(rng, c["bs"])) if r < .8 \
            else dict(t="l", mode=0o777, abs=False, tg=[rng.choice(["e0", "e1", "zz", ".."])])
        objs.append(o)
        name = rng.choice(["e%d", ".e%d", "..e%d", "E%d"]) % k
        if most > 9 and rng.random() < 0.03:
            name += "x" * rng.choice([50, 200, 255 - len(name)])
        d["e"].append({"n": name, "id": len(objs)})
    c["objs"] = objs
    out = []
    big = {"abs": True, "comps": ["big"]}
    targets = [big, big, big, {"abs": True, "comps": []}] + [{"abs": True, "comps": ["big", e["n"]]} for e in d["e"][:2]]
    for _ in range(rng.randint(1, 3)):
        slots = [1, 2] if rng.random() < 0.3 else [1]
        for s in slots:
            out.append({"op": "OpenDir", "p": rng.choice(targets), "slot": s})
        style = rng.choice(["mixed", "ones", "all", "same"])
        k0 = rng.randint(1, 4) if n < 10 else rng.choice([7, 50, 64, 100, 128])
        kind0 = rng.choice(["ReadDir", "Readdir", "Readdirnames"])
        for _ in range(rng.randint(1, n + 4) if n < 10 else rng.randint(1, 8)):
            k = {"ones": 1, "all": rng.choice([0, -1, -5]), "same": k0}.get(style)
            if k is None or rng.random() < 0.1:
                k = rng.choice([-1, 0, 1, 2, 3, n, n + 1, 100])
            kind = kind0 if rng.random() < 0.7 else rng.choice(["ReadDir", "Readdir", "Readdirnames"])
            out.append(fault(rng, {"op": "HReadDir", "slot": rng.choice(slots), "n": k, "kind": kind}, faults))
            if rng.random() < 0.1:
                out.append({"op": rng.choice(["HStat", "HName", "HChdir"]), "slot": rng.choice(slots)})
        for s in slots:
            out.append({"op": "HReadDir", "slot": s, "n": rng.choice([1, -1]), "kind": kind0})
            out.append({"op": "HClose", "slot": s})
        out.append(fault(rng, {"op": "ReadDir", "p": big}, faults))
    return {"c": c, "ops": out}


def script_of(walk):
    """A script from a walk through the state graph of MCFsTree."""
    mount = walk[0]
    c = dict(mount["c"], crt=False, dt=False, dots=len(walk) % 2 == 0, preserve=False, objs=[])
    for o in mount["objs"]:
        c["objs"].append({k: o[k] for k in (("t", "abs", "tg") if o["t"] == "l" else ("t", "e", "data", "mode"))})
    ops = []
    for lab in walk[1:]:
        op = dict(lab["c"])
        if "mode" in op:
            op["mbits"] = 0
        if "fl" in op:
            fl = op.pop("fl")
            op["flags"] = {(True, False): O_RDONLY, (False, True): O_WRONLY, (True, True): O_RDWR}[fl["r"], fl["w"]] \
                | (O_CREATE if fl["c"] else 0) | (O_EXCL if fl["x"] else 0) | (O_TRUNC if fl["t"] else 0)
        ops.append(op)
    path = lambda *comps: {"abs": True, "comps": list(comps)}
    ops += [{"op": "dump"}, {"op": "ReadDir", "p": path()}, {"op": "ReadDir", "p": path("a")}, {"op": "ReadFile", "p": path("b")}]
    return {"c": c, "ops": ops}


def graph_scripts(ctx, mode, depth=1, part=0, parts=1, limit=None):
    const = {"Mode": '"%s"' % mode, "Depth": depth, "Part": part, "Parts": parts, "Emitting": "TRUE"}
    edges = ctx.mc("MCFsTree", constants=const, graph=True)
    return [script_of(w) for w in ctx.walks(edges, max_len=60, limit=limit)]


LOOK = dict(Stat=6, Lstat=4, Readlink=3, ReadFile=3, ReadDir=3, Chdir=3, Getwd=1, Normalize=2, Open=1, OpenDir=1)
CHANGE = dict(OpenFile=4, Create=2, WriteFile=3, Mkdir=4, MkdirAll=3, Link=2.5, Remove=5, RemoveAll=1.5, Truncate=1,
              Chmod=1, Chown=.7, Lchown=.7, Chtimes=.7, Chdir=1)
BOTH = dict(LOOK, **CHANGE)
BOTH.update(Stat=1, Lstat=1, ReadDir=1, ReadFile=1, Readlink=.5, SameFile=1, Features=.2, OpenDir=1, Open=.5)


def perms(rng):
    return {k: rng.random() < 0.5 for k in "wida"}


def mixed(rng, n, faults):
    out = []
    for k in range(n):
        r = rng.random()
        if r < 0.6:
            out.append(tree_scenario(rng, 14, BOTH, faults=faults))
        elif r < 0.85:
            out.append(content_scenario(rng, faults=faults))
        else:
            out.append(directory_scenario(rng, faults=faults))
    return out


def check(ctx):
    p, rng, q = ctx.prop, ctx.rng, ctx.pick
    comp, spec = "driver", "TraceFsTree"
    ctx.assumptions += [
        "paths are normalised lexically before they're looked up; '..' in the target of a link is taken lexically, too",
        "the implementation behind the driver honours its own documented contract (an in-memory one stands for it)",
        "while a file is open, it's only changed through that handle",
    ]
    many = lambda n, f, *a, **kw: [f(rng, *a, **kw) for _ in range(n)]
    n = q(400, 6000)
    if p == "C10":
        k = 4 if not ctx.thorough else 1
        ctx.conform(comp, spec, graph_scripts(ctx, "look", part=ctx.seed % k, parts=k), "every small layout of links")
        ctx.conform(comp, spec, many(n * 2, tree_scenario, 16, LOOK, end=False, links=4, plant=0.05), "lookups with links")
        ctx.conform(comp, spec, many(n, tree_scenario, 12, dict(BOTH, Stat=4, Chdir=2), links=4, plant=0.1), "lookups in changing trees")
        ctx.conform(comp, spec, many(n // 4, tree_scenario, 12, LOOK, end=False, links=4, faults=0.3), "lookups with failures")
        ctx.conform(comp, spec, many(n // 2, chain_scenario), "long chains of links")
        ctx.conform(comp, spec, many(n // 8, chain_scenario, faults=0.3), "long chains of links, with failures")
        ctx.conform(comp, spec, many(n // 5, deep_scenario) + many(n // 10, deep_scenario, faults=0.2), "long paths")
    elif p == "C11":
        ctx.mc("MCFsTree", constants={"Mode": '"tree"', "Depth": q(2, 3), "Part": 0, "Parts": 1})
        ctx.conform(comp, spec, graph_scripts(ctx, "tree", q(1, 2)), "every change of small volumes")
        ctx.conform(comp, spec, many(n, tree_scenario, 14, CHANGE, plant=0.05), "changes")
        ctx.conform(comp, spec, many(n // 2, tree_scenario, 14, BOTH), "changes and lookups")
        ctx.conform(comp, spec, many(n // 2, tree_scenario, 12, CHANGE, faults=0.35), "changes with failures")
        ctx.conform(comp, spec, many(n // 4, removal_scenario), "removal of deep directories")
        ctx.conform(comp, spec, many(n // 2, removal_scenario, faults=0.8), "removal of deep directories, with failures")
        ctx.conform(comp, spec, many(n // 5, deep_scenario) + many(n // 10, deep_scenario, faults=0.3), "long paths")
    elif p == "C12":
        ctx.conform(comp, spec, graph_scripts(ctx, "data", q(4, 6), limit=q(1500, 30000)), "everything with the content of one small file")
        ctx.conform(comp, spec, many(n, content_scenario), "contents")
        ctx.conform(comp, spec, many(n // 2, content_scenario, faults=0.25), "contents with failures")
        ctx.conform(comp, spec, many(n // 4, content_scenario, slots=3, sessions=7), "many open files")
        ctx.conform(comp, spec, many(n // 4, content_scenario, span=9), "large contents")
        ctx.conform(comp, spec, many(q(5, 40), content_scenario, sessions=1, ops=2, slots=1, scale=(16384, 5)), "contents of more than 64 KiB")
        ctx.conform(comp, spec, many(n // 8, content_scenario, span=9, faults=0.25), "large contents with failures")
    elif p == "C13":
        ctx.conform(comp, spec, graph_scripts(ctx, "perm", q(1, 2), limit=q(None, 12000)), "every change, with every combination of permissions")
        ctx.conform(comp, spec, [tree_scenario(rng, 16, CHANGE, perms=perms(rng)) for _ in range(n)], "any permissions")
        ctx.conform(comp, spec, [content_scenario(rng, perms=perms(rng)) for _ in range(n // 2)], "contents with any permissions")
        one_off = [{k: k != x for k in "wida"} for x in "wida"] + [{k: k == x for k in "wida"} for x in "wida"]
        ctx.conform(comp, spec, [tree_scenario(rng, 14, BOTH, perms=rng.choice(one_off), faults=rng.choice([0, 0, .2]))
                                 for _ in range(n // 2)], "one permission more or less than none or all")
        ctx.conform(comp, spec, [content_scenario(rng, perms=perms(rng), span=9) for _ in range(n // 10)], "large files with any permissions")
    elif p == "C14":
        scripts = graph_scripts(ctx, "tree", q(1, 2))
        ctx.conform(comp, spec, scripts, "every change of small volumes")
        for s in scripts:
            for op in s["ops"][:-4]:
                fault(rng, op, 0.5)
        ctx.conform(comp, spec, scripts, "changes of small volumes, with failures")
        ctx.conform(comp, spec, mixed(rng, n, 0.0), "everything")
        ctx.conform(comp, spec, mixed(rng, n, 0.3), "everything, with failures")
        ctx.conform(comp, spec, many(n // 4, removal_scenario, faults=0.5), "removal of deep directories, with failures")
        ctx.conform(comp, spec, many(n // 10, deep_scenario, faults=0.2) + many(n // 10, content_scenario, span=9, faults=0.2)
                    + many(n // 20, directory_scenario, 300, faults=0.1), "long paths, large files and directories")
    elif p == "C15":
        ctx.conform(comp, spec, graph_scripts(ctx, "dir"), "every way to read small directories")
        ctx.conform(comp, spec, many(n, directory_scenario), "directories in pieces")
        ctx.conform(comp, spec, many(n // 3, directory_scenario, faults=0.3), "directories in pieces, with failures")
        ctx.conform(comp, spec, many(n // 2, tree_scenario, 12, dict(CHANGE, OpenDir=12, ReadDir=5)), "changing directories")
        ctx.conform(comp, spec, many(n // 5, directory_scenario, 300) + many(n // 10, directory_scenario, 300, faults=0.3), "large directories")
    elif p == "C32":
        scripts = graph_scripts(ctx, "tree", q(1, 2), limit=q(2500, 40000))
        for s in scripts:
            for op in s["ops"][:-4]:
                fault(rng, op, 0.3)
        ctx.conform(comp, spec, scripts, "changes of small volumes, with failures")
        ctx.conform(comp, spec, many(n // 2, tree_scenario, 16, BOTH, links=4), "changes and lookups")
        ctx.conform(comp, spec, many(n // 2, tree_scenario, 12, BOTH, links=4, faults=0.3, end=False), "changes and lookups with failures")
        ctx.conform(comp, spec, many(n // 4, chain_scenario, faults=0.2), "long chains of links, with failures")
        ctx.conform(comp, spec, [tree_scenario(rng, 14, BOTH, perms=perms(rng), end=False) for _ in range(n // 2)], "any permissions")
        ctx.conform(comp, spec, many(n // 2, content_scenario, faults=0.3), "open files, with failures")
        ctx.conform(comp, spec, many(n // 4, directory_scenario, faults=0.2), "open directories, with failures")
        ctx.conform(comp, spec, many(n // 4, removal_scenario, faults=0.7), "removal of deep directories, with failures")
        ctx.conform(comp, spec, many(n // 10, deep_scenario, faults=0.2) + many(n // 10, content_scenario, span=9, faults=0.2),
                    "long paths and large files, with failures")
