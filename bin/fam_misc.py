"""C27-C30: errors, flags, Unix V6 inodes, disk geometries."""
import csv
import os
import subprocess

REPO = "/repo"

NAMES = ("inprogress range blockdev busy xdev notempty quota exist badstate corrupt toolarge invalid badfd invalidfs io isdir "
         "loop nametoolong nodev nospace notdir noent notimpl perm notsup access rofs resultrange toomanylinks toomanyfiles "
         "toomanyusers").split()


def batches(ops, size, c=None):
    return [{"c": c or {}, "ops": ops[i:i + size]} for i in range(0, len(ops), size)]


# ------------------------------------------------------------------ C27

def random_errors(rng, steps):
    """Errors made of errors made of errors."""
    ops, driver, size = [], [], []

    def add(op, d, n):
        ops.append(op)
        driver.append(d)
        size.append(n)

    for _ in range(rng.randint(1, 4)):
        add({"op": "pre", "name": rng.choice(NAMES)}, True, 1)
    while len(ops) < steps:
        i, t = len(ops), "t%d" % (len(ops) + 1)
        last = i if rng.random() < .5 else rng.randint(1, i)
        some = [k for k in range(i) if driver[k] and size[k] < 300]
        of = last if last - 1 in some else rng.choice(some) + 1
        by = rng.randint(1, i) if rng.random() < .6 else i
        if size[of - 1] + size[by - 1] > 300:
            by = 1
        r = rng.random()
        if r < .3:
            add({"op": "msg", "of": of, "text": t if rng.random() < .9 else "t1"}, True, size[of - 1] + 1)
        elif r < .6:
            add({"op": "wrap", "of": of, "by": by}, True, size[of - 1] + size[by - 1])
        elif r < .7:
            add({"op": "cast", "of": last}, True, size[last - 1])
        elif r < .78:
            add({"op": "foreign", "kind": rng.choice(["plain", "plain", "eof", "path", "slice"]), "text": t}, False, 2)
        elif r < .84:
            add({"op": "fmt", "of": last, "text": t}, False, size[last - 1] + 1)
        elif r < .88 and size[last - 1] + size[by - 1] < 300:
            add({"op": "join", "of": last, "by": by}, False, size[last - 1] + size[by - 1])
        elif r < .93:
            add({"op": "new", "text": t if rng.random() < .8 else "t2"}, True, 1)
        else:
            add({"op": "pre", "name": rng.choice(NAMES)}, True, 1)
    if rng.random() < .3:
        ops.insert(rng.randint(0, len(ops)), {"op": "nil"})
    return {"c": {}, "ops": ops}


def check_errors(ctx):
    rng, q = ctx.rng, ctx.pick
    ctx.assumptions += ["wrapping nil or a *multierror.Error and NewError(\"\") are left out",
                        "whether equal descriptions made twice (NewError with one text) match each other is left open"]
    ctx.mc("MCErrors", constants={"Steps": q(3, 4)}) if ctx.thorough else None
    edges = ctx.mc("MCErrors", constants={"Steps": 3, "Emitting": "TRUE"}, graph=True)
    scripts = [{"c": {}, "ops": e["l"]["c"]} for e in edges]
    ctx.jobs[-1]["scripts"] = len(scripts)
    ctx.conform("errors", "TraceErrors", scripts, "everything built in a few steps (model)")
    every = [{"op": "pre", "name": n} for n in NAMES]
    ctx.conform("errors", "TraceErrors", [{"c": {}, "ops": every}], "each predefined error")
    pairs = []
    for a in NAMES:
        for b in NAMES:
            for how in range(3):
                ops = [{"op": "pre", "name": a}, {"op": "pre", "name": b}]
                if how:
                    ops.append({"op": "msg", "of": how, "text": "t3"})
                    ops.append({"op": "wrap", "of": 3, "by": 2} if how == 1 else {"op": "wrap", "of": 1, "by": 3})
                else:
                    ops.append({"op": "wrap", "of": 1, "by": 2})
                pairs.append({"c": {}, "ops": ops})
    ctx.conform("errors", "TraceErrors", pairs if ctx.thorough else rng.sample(pairs, 1500), "each pair of predefined errors")
    ctx.conform("errors", "TraceErrors", [random_errors(rng, rng.choice([3, 8, 20, 40])) for _ in range(q(1500, 12000))], "errors of all sorts")
    deep = []
    for _ in range(q(30, 300)):
        ops = [{"op": "pre", "name": rng.choice(NAMES)}, {"op": "foreign", "kind": rng.choice(["plain", "path", "eof"]), "text": "t2"}]
        for i in range(rng.randint(20, 60)):
            n = len(ops)
            last = n if n > 2 else 1
            ops.append(rng.choice([{"op": "msg", "of": last, "text": "t%d" % (n + 1)}, {"op": "wrap", "of": last, "by": 2},
                                   {"op": "wrap", "of": 1, "by": last}, {"op": "cast", "of": last}]))
        deep.append({"c": {}, "ops": ops})
    ctx.conform("errors", "TraceErrors", deep, "long chains")


# ------------------------------------------------------------------ C28

def check_flags(ctx):
    rng = ctx.rng
    edges = ctx.mc("MCFlags", constants={"Emitting": "TRUE"}, graph=True)
    todo = {(k, m, ()) for k in ("os", "io") for m in ("rdonly", "wronly", "rdwr")} | {("mount", "", ())}
    for e in edges:
        c = e["l"]["c"]
        todo.add((c["kind"], c["mode"], tuple(sorted(c["bits"]))))
    ops = [{"op": k, "bits": list(b), **({"mode": m} if m else {})} for k, m, b in sorted(todo)]
    ctx.jobs[-1]["scripts"] = len(ops)
    rng.shuffle(ops)
    ops += [{"op": "preset", "name": n} for n in ("all", "readwrite")] + [{"op": "mask"}]
    ops += [{"op": "default", "name": n} for n in ("file", "dir")]
    ops += [{"op": "const", "name": n} for n in ("IXOTH IWOTH IROTH IRWXO IXGRP IWGRP IRGRP IRWXG IXUSR IWUSR IRUSR IRWXU IEXEC "
                                                "IWRITE IREAD ISVTX ISGID ISUID IFIFO IFCHR IFDIR IFREG IFBLK IFLNK IFSOCK IFMT").split()]
    ctx.conform("flags", "TraceFlags", batches(ops, 100), "every combination of flags (model)")


# ------------------------------------------------------------------ C29

def check_v6(ctx):
    rng, q = ctx.rng, ctx.pick
    ctx.assumptions += ["nothing in the repository reads inodes, so the order of the words of their times is left open",
                        "bits of portable modes that Unix V6 has no equivalent of may be dropped or refused"]
    ctx.mc("MCUnixV6")
    c = lambda ops, name, n: ctx.conform("unixv6", "TraceUnixV6", batches(ops, n), name)
    c([{"op": "names"}], "names of bits", 1)
    c([{"op": "words", "first": i, "count": 256} for i in range(0, 65536, 256)], "every mode word", 8)
    types, special, other = (["dir", "symlink", "pipe", "socket", "device", "chardevice", "irregular"], ["setuid", "setgid"],
                             ["append", "exclusive", "temporary", "sticky"])
    sub = lambda items: [[x for i, x in enumerate(items) if n >> i & 1] for n in range(1 << len(items))]
    modes = [{"types": t, "special": s, "other": [], "perm": p} for t in sub(types) for s in sub(special)
             for p in ([0, 0o777, 0o644, 1 << rng.randint(0, 8)] if not ctx.thorough else range(0, 512, 3))]
    modes += [{"types": t, "special": s, "other": o, "perm": rng.randint(0, 511)} for t in sub(types) for s in sub(special) for o in sub(other)]
    modes += [{"types": t, "special": s, "other": [], "perm": p} for t in ([], ["dir"], ["device"], ["chardevice"], ["device", "chardevice"])
              for s in sub(special) for p in range(512)]
    rng.shuffle(modes)
    c([{"op": o, "modes": modes[i:i + 200]} for i in range(0, len(modes), 200) for o in ("modes", "kinds")], "portable modes", 2)
    ops = []
    edge = [0, 1, 2, 127, 128, 254, 255]
    times = [0, 1, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
    for _ in range(q(6000, 60000)):
        byte = lambda: rng.choice(edge) if rng.random() < .5 else rng.randint(0, 255)
        stamp = lambda: rng.choice(times) if rng.random() < .4 else rng.randint(0, 2**32 - 1)
        size = [byte(), byte(), byte()]
        if rng.random() < .3:
            n = 512 * rng.randint(0, 32767) + rng.choice([0, 1, 511])
            size = [n >> 16, n & 255, n >> 8 & 255]
        ops.append({"op": "stat", "mode": rng.randint(0, 65535) if rng.random() < .9 else rng.choice([0, 65535, 0x8000, 0x7fff]),
                    "links": byte(), "uid": byte(), "gid": byte(), "size": size, "addr": [rng.randint(0, 255) for _ in range(16)],
                    "atime": stamp(), "mtime": stamp(), "ino": rng.choice([0, 1, 65535, rng.randint(0, 65535)])})
    c(ops, "inodes", 100)
    if ctx.thorough:
        c([{"op": "stat", "mode": 0x8000 | rng.randint(0, 0x7fff), "links": 1, "uid": 0, "gid": 0, "size": [n >> 16, n & 255, n >> 8 & 255], "addr": [0] * 16,
            "atime": 0, "mtime": 0, "ino": 1} for n in range(0, 1 << 24, 67)], "sizes all over", 400)


# ------------------------------------------------------------------ C30

COLUMNS = {"name": "name", "slug": "slug", "form": "form_factor", "notes": "notes", "year": "first_year_available",
           "removable": "is_removable", "bits": "bits_per_address_unit", "units": "address_units_per_sector",
           "sectors": "sectors_per_track", "tracks": "total_data_tracks", "hidden": "hidden_tracks", "heads": "heads"}


def read_table():
    with open(os.path.join(REPO, "disks", "disk-geometries.csv"), newline="", encoding="utf-8") as f:
        out = []
        for r in csv.DictReader(f, delimiter="|"):
            out.append({k: r[c] if k in ("name", "slug", "form", "notes") else int(r[c]) for k, c in COLUMNS.items()})
        return out


def check_geometry(ctx):
    rng, q = ctx.rng, ctx.pick
    ctx.assumptions += ["disks of 2^63 bits and more are left out"]
    ctx.mc("MCGeometry")
    table = read_table()
    ops = [{"op": "lookup", "slug": r["slug"]} for r in table]
    wrong = {"", " ", "slug", "nonesuch", "\u00e9"}
    for r in table:
        s = r["slug"]
        wrong |= {s.upper(), s.capitalize(), s + " ", " " + s, s[:-1], s[1:], s + "x", s + "\n", s + "\x00", r["name"], s.replace("_", "-"), r["form"], r["notes"]}
    ops += [{"op": "lookup", "slug": s} for s in sorted(wrong) if s not in {r["slug"] for r in table}]
    again = ops * 2
    rng.shuffle(again)
    ctx.conform("geometry", "TraceGeometry", [{"c": {"table": table}, "ops": ops}, {"c": {"table": table}, "ops": again}], "every slug, and what isn't one")

    def fits(f):
        n = 1
        for v in f:
            n *= v
        return n < 2**63

    keys = ["bits", "units", "sectors", "tracks", "heads"]
    geo = lambda f: {"op": "size", **dict(zip(keys, f)), "hidden": rng.choice([0, 1, 3]), "removable": rng.choice([0, 1]), "year": rng.choice([0, 1980])}
    ops = [geo([b, u, s, t, h]) for b in range(0, 19) for u in range(0, 10) for s in (0, 1, 3, 7) for t in (1, 5, 13) for h in (0, 1, 3)]
    common = [1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 16, 18, 20, 24, 26, 32, 36, 40, 48, 60, 64, 73, 77, 80, 128, 200, 203, 256, 319, 512, 1024]
    while len(ops) < q(9000, 90000):
        r = rng.random()
        if r < .4:
            f = [rng.choice(common) for _ in keys]
        elif r < .6:
            f = [rng.choice([rng.randint(0, 300), rng.randint(0, 70000)]) for _ in keys]
        elif r < .8:
            f = [1 << rng.randint(0, 20) for _ in keys]
        else:
            f = [1] * 5
            f[rng.randint(0, 4)] = rng.getrandbits(rng.randint(1, 62))
            f[rng.randint(0, 4)] = rng.getrandbits(rng.randint(1, 30))
        if fits(f):
            ops.append(geo(f))
    rng.shuffle(ops)
    ctx.conform("geometry", "TraceGeometry", batches(ops, 100, {"table": []}), "sizes of geometries")
    ops = []
    while len(ops) < q(2000, 20000):
        a, b = rng.getrandbits(rng.randint(0, 40)), rng.getrandbits(rng.randint(0, 62))
        if a * b < 2**63:
            ops.append({"op": "fsstat", "blocksize": a, "blocks": b})
    ctx.conform("geometry", "TraceGeometry", batches(ops, 100, {"table": []}), "sizes of volumes to be formatted")


def check(ctx):
    {"C27": check_errors, "C28": check_flags, "C29": check_v6, "C30": check_geometry}[ctx.prop](ctx)
