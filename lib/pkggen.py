"""Random generators of packages and package histories (plain JSON-able data)."""
import random

DIRS = ["etc", "etc/d1", "etc/d1/sub", "opt", "opt/a b", "srv", "srv/x", "srv/x/y", "usr/share", "usr/share/d2"]
FILES = ["etc/f1", "etc/f2.conf", "etc/d1-x", "etc/d1.conf", "etc/d1/f1", "etc/d1/f3.conf", "etc/d1/sub/z", "opt/tool",
         "opt/a b/f 1", "srv/x/f1", "srv/x/y/f1", "srv/x/y/f2", "srv/x.d", "usr/share/d2/data", "usr/share/d2/\u00e9t\u00e9",
         "usr/share/l10n"]
LONG = "srv/x/" + "L" * 200 + "/" + "n" * 250
# less usual paths: long, deep, of shell, regex and format characters, dots, blanks
ODD = [LONG, "srv/" + "/".join("%02d-%s" % (i, "deep" * 5) for i in range(30)) + "/z", "etc/.hidden", "etc/d1/.cfg/x", "etc/-dash", "etc/two  blanks", "etc/ lead", "etc/tab\tx", "usr/share/[br]*?.x", "usr/share/a$b",
       "usr/share/100%s%n", "usr/share/q'\"", "usr/share/back\\slash", "usr/share/@x", "etc/f1~", "etc/f1.new", "etc/f11", "etc/F1", "srv/x/...", "srv/..x/f", "srv/x/y..", "top-level", "usr/share/#hash", "srv/x/f1 -> f2",
       "usr/share/d2/\u65e5\u672c", "usr/share/(a|b)+", "etc/:x;y&z", "usr/share/d2/" + "m" * 120]
NODES = ["etc/node", "srv/x/node", "opt/node.conf"]     # device nodes
NAMES = ["aa", "bb", "libcc", "aa.devel", "d"]
# directories that only root may write are fine for root; no bits are excluded
FMODES = [0o644, 0o644, 0o755, 0o600, 0o444, 0o4755, 0o2755, 0o000]
DMODES = [0o755, 0o755, 0o700, 0o1777, 0o2775, 0o555]
PATTERNS = ["^etc/.*$", "^etc/d1/.*$", "\\.conf$", "^usr/share/d2/$", "^opt/", "f1$", "^srv/x/y/f[12]$", "^etc/f2.conf$",
            ".*", "^(etc|opt)/.*1", "/$", "^etc/f1[.~]", "n{200}", "^etc/[^f]", "\\$b$", "[.][.]"]


class R(random.Random):
    def chance(self, p):
        return self.random() < p

    def sub(self, pool, lo, hi):
        """lo..hi distinct elements, in pool order."""
        k = min(self.randint(lo, hi), len(pool))
        s = set(self.sample(range(len(pool)), k))
        return [x for i, x in enumerate(pool) if i in s]

    def pick(self, *weighted):
        """pick((w, fn), ...) -> fn()"""
        t = self.uniform(0, sum(w for w, _ in weighted))
        for w, f in weighted:
            t -= w
            if t <= 0:
                return f()
        return weighted[-1][1]()


def contents(g):
    k = g.randrange(10)
    if k < 6:
        return g.choice(["", "x", "y", "xy", "one\n", "one\ntwo\n", "two\n", "no newline"])
    if k < 8:
        return "".join(g.choice("ab\n") for _ in range(g.randint(1, 6)))
    return ["z", g.randint(1, 3) * 8192 + g.choice([-2, -1, 0, 1, 1000]), "e" + g.choice("ab")]


def entries(g, files=FILES, dirs=DIRS, kinds="fffffflh", owners=True, max_files=6, min_files=1, force=()):
    fs = sorted(set(g.sub(files, min_files, max_files)) | set(force))
    if files is FILES and g.chance(0.2):
        fs = sorted(set(fs) | set(g.sub(ODD, 1, 3)))
    nodes = set(g.sub(NODES, 1, 3)) if files is FILES and kinds == "fffffflh" and g.chance(getattr(g, "nodes", 0.05)) else set()
    fs = sorted(set(fs) | nodes)
    if files is FILES and g.chance(0.006):
        fs = sorted(set(fs) | {"srv/many/%s%03d" % (g.choice("ab"), i) for i in range(g.choice([130, 260, 520]))})
    ds = set(g.sub(dirs, 0, 2))
    if g.chance(0.75):
        for p in list(fs) + list(ds):
            parts = p.split("/")
            ds.update("/".join(parts[:i]) for i in range(1, len(parts)))
    ds -= set(fs)
    res = []
    for d in sorted(ds):
        e = {"p": d, "t": "d"}
        if g.chance(0.25):
            e["m"] = g.choice(DMODES)
        res.append(e)
    plain = []
    for f in fs:
        k = g.choice(kinds)
        if k == "h" and not plain:
            k = "f"
        if k == "h":
            res.append({"p": f, "t": "h", "to": g.choice(plain)})
        elif k == "l":
            res.append({"p": f, "t": "l", "to": g.choice(["f1", "../etc/f1", "/etc/f2.conf", "nowhere", "tool"])})
        else:
            e = {"p": f, "t": "f", "c": contents(g)}
            if kinds == "fffffflh" and g.chance(0.02):
                e = {"p": f, "t": "p"}
            if k in "cbp":
                e = {"p": f, "t": k}
            if f in nodes:
                e = {"p": f, "t": g.choice("cccbp"), "dev": g.choice([[1, 3], [1, 5]])}
            if g.chance(0.5 if f not in nodes else 0.2):
                e["m"] = g.choice(FMODES)
            if owners and g.chance(0.2):
                e["uid"], e["gid"] = g.choice([(5, 7), (0, 42), (99, 0)])
            if g.chance(0.25):
                e["mt"] = g.choice([1, 1234567890, 1700000001, 1, 0, 4102444800])
            if e["t"] == "f": plain.append(f)
            res.append(e)
    # a hard link must follow its target; otherwise path order, as `bsdtar -c *` gives
    res.sort(key=lambda e: (e["t"] == "h", e["p"]))
    return res


def package(g, name=None, names=NAMES, **kw):
    p = {"n": name or g.choice(names), "v": g.choice(["1.0", "1.1", "2", "2024.1-rc"]), "r": g.choice([1, 2, 3, 4, 5, 9, 10, 11, 12, 65536, 20240101]), "e": entries(g, **kw)}
    if g.chance(0.3):
        p["z"] = g.choice(["gz", "xz", "bz2", "zst"])
    if g.chance(0.3):
        p["F"] = g.choice(["pax", "ustar"])
        if any(len(e["p"]) > 90 for e in p["e"]): p["F"] = "pax"
    x = []
    if g.chance(0.25):
        x.append("R" + g.choice(["libcc", "bb", "glibc"]) + "1600000000")
    if g.chance(0.2):
        x.append("s" + g.choice(["set1", "set2"]))
    if g.chance(0.5 if p["n"].endswith(".devel") else 0.1):
        x.append("g" + g.choice(["devel", "doc"]))
    if x: p["x"] = x
    return p


def rules(g, events=("UPGRADE", "INSTALL"), lo=0, hi=4, patterns=PATTERNS, p_no=0.6):
    return [[g.choice(events), g.choice(patterns), "NO" if g.chance(p_no) else "YES"] for _ in range(g.randint(lo, hi))]


def user_op(g):
    return g.pick(
        (1, lambda: {"op": "write", "p": g.choice(FILES + ["etc/foreign", "srv/x/foreign", "opt/a b/mine"] + g.sub(ODD, 1, 3)),
                     "c": g.choice(["user\n", "x", "xy", ""]), "m": g.choice([0o644, 0o600])}),
        (0.35, lambda: {"op": "ln", "p": g.choice(FILES + ["etc/foreign"]), "to": g.choice(["nowhere", "/nowhere/x", "f1", "../etc", "tool"])}),
        (1, lambda: {"op": "edit", "p": g.choice(FILES + g.sub(ODD, 1, 3)) if g.chance(0.6) else g.randrange(30), "c": g.choice(["edited\n", "x", "xy", "one\n", ""])}),
        (0.5, lambda: {"op": "perm", "p": g.choice(FILES + DIRS) if g.chance(0.3) else g.randrange(30), "m": g.choice([0, 0, 0o640, 0o755]), "own": g.choice([[], [], [0, 42], [5, 0]])}),
        (0.3, lambda: {"op": "auto", "n": g.choice(NAMES)}),
        (1, lambda: {"op": "unlink", "p": g.choice(FILES + g.sub(ODD, 1, 3))}),
        (0.5, lambda: {"op": "rmtree", "p": g.choice(DIRS)}))


def add_op(g, modes=("auto",), force=0.0, pk=package, **kw):
    return {"op": "add", "pkg": pk(g, **kw), "mode": g.choice(modes), "f": g.chance(force)}


def rm_op(g, names=NAMES):
    return {"op": "rm", "n": g.randrange(4)} if g.chance(0.9) else {"op": "rm", "n": g.choice(names)}


def history(g, op, lo=2, hi=9):
    ops = [op() for _ in range(g.randint(lo, hi))]
    # the same package again, after what happened meanwhile
    if len(ops) > 2 and g.chance(0.25):
        i = g.randrange(len(ops) - 1)
        if ops[i].get("op") == "add": ops.insert(g.randint(i + 2, len(ops)), dict(ops[i]))
    return ops
