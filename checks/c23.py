import re
import depot as D, world as W
NEEDS = ["sbx", "cards"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of cards level, depends, dependent, deptree and create --dry over generated trees of ports, against a reference reader and graph model"
NOTE = ("Exploration: trees of ports with generated Pkgfiles (dependency lists in every layout, fields missing, missing dependencies, cycles, ports in several collections) are queried; levels, closures, trees and the "
        "ports to build are compared with an independent model.")
EXAMPLES = {"quick": 330, "thorough": 9000}
RULE = ("1-3 collections of 0-10 ports with 0-5 dependencies each (makedepends and run lists, on one or several lines, with comments, tabs, commas, continuation lines), names with dots and group packages, unknown "
        "dependencies, self dependencies, sometimes cycles; binaries of other versions or releases in the depot. Non-trivial: some port has a dependency.")
NAMES = ["a", "b", "c", "glibc", "gtk+", "lua5.3", "lua5", "python3", "R", "zlib", "perl-x", "x-1", "qt", "m4", "e2"]
COLLS = ["base", "cli", "gui"]


def gen(g, tier):
    cyc = g.chance(0.12)
    order = list(NAMES)
    g.shuffle(order)
    cs = []
    for c in g.sub(COLLS, 1, 3):
        ps = []
        for n in g.sub(NAMES, 0, 10 if not g.chance(0.1) else 15):
            q = {"n": n, "v": g.choice(["1.0", "2.1", "2.1", "r77", ""]), "r": g.choice([0, 0, 1, 2, 12, 65536, 70000])}
            low = order[:order.index(n)] if not cyc else order
            for k in ("mk", "run"):
                if g.chance(0.65 if k == "mk" else 0.4):
                    ds = g.sub(low, 0, 4 if k == "mk" else 2)
                    g.shuffle(ds)
                    if g.chance(0.15): ds.insert(g.randint(0, len(ds)), g.choice(["nosuch", "nosuch.devel", "x.y", n]))
                    if ds and g.chance(0.15): ds = [d + g.choice([".devel", ".lib"]) if g.chance(0.5) else d for d in ds]
                    q[k] = ds
            q["lay"] = g.randrange(1 << 30)
            ps.append(q)
        cs.append({"n": c, "p": ps})
    qs = [[g.choice(["level", "level", "depends", "dependent", "deptree", "dry"]), g.choice(NAMES)] for _ in range(g.randint(2, 4))]
    bins = [[g.choice(NAMES), g.choice(COLLS), g.choice(["1.0", "2.1", "r77"]), g.choice([1, 1, 2, 12]), g.choice(["ok", "ok", "ok", "nofile"]), g.choice(["", "", "", "devel", "fr"])] for _ in range(g.randint(0, 12))]
    return {"c": cs, "q": qs, "b": bins}


def pkgfile(q):
    import random
    r = random.Random(q.get("lay", 0))
    L = []
    if r.random() < 0.7: L.append("description=" + r.choice(["A tool", '"A (small) tool"', "x # y"]))
    if r.random() < 0.3: L.append("# makedepends=(wrong)")
    if q.get("v"): L.append(r.choice(["", "", " "]) + "version=" + q["v"] + r.choice(["", "", " # was 0.9"]))
    if q.get("r"): L.append("release=%d" % q["r"] + r.choice(["", " "]))
    for k, var in (("mk", "makedepends"), ("run", "run")):
        if k not in q: continue
        ds = q[k]
        m = r.randrange(5)
        if m == 0: L.append("%s=(%s)%s" % (var, " ".join(ds), r.choice(["", " ", " # for the tools", "\t#)"])))
        elif m == 1: L.append("%s=( %s )" % (var, r.choice(["  ", "\t", ", ", " "]).join(ds)))
        elif m == 2: L += [var + "=(" + r.choice(["", " ", " # first"])] + ["%s%s%s" % (r.choice(["", "  ", "\t"]), d, r.choice(["", " ", " # why", "\t"])) for d in ds] + [r.choice([")", " )", ") # end"])]
        elif m == 3: L += [var + "=(" + " ".join(ds[:1]) + " \\"] + ["  " + d + " \\" for d in ds[1:]] + [")"]
        else: L += ["%s=(%s" % (var, " ".join(ds[:2])), "", "# more", "\t" + "\t".join(ds[2:]) + ")"]
        if r.random() < 0.2: L.append("")
    L += ["source=(https://x.org/$name-$version.tar.xz)", "build() {", "  make", "}"]
    return "\n".join(L) + r.choice(["\n", "\n", ""])


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    D.base(w)
    w.mkdir("ports")
    w.write("tmp/setup", "")
    ports, dup = {}, []
    for c in case["c"]:
        if c["n"] in dup: continue
        dup.append(c["n"])
        w.mkdir("ports/" + c["n"])
        w.write("ports/" + c["n"] + "/README", "x")
        w.mkdir("ports/" + c["n"] + "/nothing-there")
        seen = set()
        for q in c["p"]:
            if q["n"] in seen: continue
            seen.add(q["n"])
            w.write("ports/%s/%s/Pkgfile" % (c["n"], q["n"]), pkgfile(q))
            if q["n"] not in ports: ports[q["n"]] = dict(q, c=c["n"], d=sorted({d for k in ("mk", "run") for d in q.get(k, [])}, key=lambda s: s.encode()))
    D.conf(w, dup)
    B = lambda s: s.encode()
    names = sorted(ports, key=B)
    edges, bad, raw = {}, [], True
    for n in names:
        e = set()
        for d in ports[n]["d"]:
            t = d if d in ports else d.rpartition(".")[0] if "." in d else d
            if t in ports: e.add(t)
            else: bad.append((d, n, ports[n]["c"]))
            if d not in ports: raw = False
        edges[n] = e - {n}
    if any(ports[n]["d"] for n in names): ctx.nontrivial = True
    level, todo = {}, set(names)
    l = 0
    while True:
        now = {n for n in todo if not edges[n] & todo}
        if not now: break
        for n in now: level[n] = l
        todo -= now
        l += 1
    if todo: ctx.tag("cycle")
    bins = {}
    for n, c, v, r, f, grp in case["b"]:
        q = {"n": n + ("." + grp if grp else ""), "c": c, "v": v, "r": r}
        if grp == "fr": q["nls"] = "fr"
        elif grp: q["g"] = grp
        if q["n"] not in bins and c in dup: bins[q["n"]] = (q, f)
    U = {"env": {"LC_ALL": "C"}, "cwd": "/ports"}
    for k, a in case["q"]:
        if k == "dry": continue
        args = [k] + ([a] if k != "level" else [])
        txt = "cards " + " ".join(args)
        if k != "level" and a not in ports: continue
        r = w.cards(*args, **U)
        if r.rc != 0: ctx.fail("%s ends with status %d (timeout %s): %s" % (txt, r.rc, r.timeout, r.text[-300:]))
        out = r.out.decode("utf-8", "replace") if isinstance(r.out, bytes) else r.out
        lines = [x for x in out.split("\n") if x]
        ctx.tag(k)
        if k == "level":
            got = [x for x in lines if not x.startswith("WARNING ")]
            want = ["%d: %s/%s" % (level[n], ports[n]["c"], n) for n in sorted(level, key=lambda n: (level[n], B(n)))]
            got = [x for x in got if x.partition("/")[2] not in todo]
            if got != want: ctx.fail("%s shows %s, expected %s" % (txt, got, want))
            miss = [x for x in todo if not any(re.match(r"\d+: %s/%s$" % (ports[x]["c"], re.escape(x)), y) for y in lines)]
            if miss: ctx.fail("%s does not show %s, which depend on each others" % (txt, miss))
            ws = sorted(x for x in lines if x.startswith("WARNING "))
            if len(ws) != len(bad): ctx.fail("%s warns about %s, missing are %s" % (txt, ws, bad))
            for d, n, c in bad:
                if not any("WARNING %s from %s (%s)  NOT FOUND ..." % (x, n, c) in ws for x in (d, d.rpartition(".")[0])): ctx.fail("%s does not tell that %s needs %s: %s" % (txt, n, d, ws))
        elif k == "dependent":
            want = sorted("(%s) %s %s-%d" % (ports[n]["c"], n, ports[n]["v"], ports[n]["r"] or 1) for n in names if a in ports[n]["d"])
            if sorted(lines) != want: ctx.fail("%s shows %s, expected %s" % (txt, lines, want))
        elif todo: continue
        elif k == "depends" and raw:
            clo, st = set(), [a]
            while st:
                n = st.pop()
                if n not in clo: clo.add(n); st += edges[n]
            want = ["%d: %s" % (level[n], n) for n in sorted(clo, key=lambda n: (level[n], B(n)))]
            if lines != want: ctx.fail("%s shows %s, expected %s" % (txt, lines, want))
        elif k == "deptree" and raw:
            want, shown = [], set()

            def walk(n, lv):
                known = n in shown
                want.append("  " * lv + "%d) %s" % (lv, n) + (" -->" if known and ports[n]["d"] else ""))
                if known: return
                shown.add(n)
                for d in ports[n]["d"]:
                    if d != n: walk(d, lv + 1)
            walk(a, 0)
            if lines[1:] != want: ctx.fail("%s shows %s, expected %s" % (txt, lines[1:], want))
    if any(k == "dry" for k, _ in case["q"]) and dup:
        for c in dup:
            ps = sorted([b for b in bins.values() if b[0]["c"] == c], key=lambda b: D.fname(b[0]))
            rep, fil, ar = D.texts([b[0] for b in ps], None)
            D.put_local(w, c, rep, fil, {D.fname(b[0]): ar[D.fname(b[0])] for b in ps if b[1] != "nofile"})
        for c in dup:
            before = W.strip_ino(w.snapshot())
            r = w.cards("create", "--dry", c, **U)
            ctx.tag("dry")
            out = re.sub(r"\x1b\[[0-9;]*m", "", r.out.decode("utf-8", "replace") if isinstance(r.out, bytes) else r.out)
            if r.rc != 0: ctx.fail("cards create --dry %s ends with status %d: %s" % (c, r.rc, r.text[-300:]))
            if W.diff_snap(before, W.strip_ino(w.snapshot())): ctx.fail("cards create --dry %s changes files: %s" % (c, W.diff_snap(before, W.strip_ino(w.snapshot()))))
            got = sorted(re.match(r"(\S+?):? ", x).group(1) for x in out.split("\n") if "SHOULD BE BUILD" in x)
            want = []
            for n in names:
                p = ports[n]
                if p["c"] != c: continue
                b = bins.get(n)
                if b is None or b[1] == "nofile" or b[0]["v"] != p["v"] or b[0]["r"] != (p["r"] or 1): want.append(n)
            if got != sorted(want): ctx.fail("cards create --dry %s wants to build %s, expected %s; ports %s; binaries %s" % (c, got, sorted(want), [(p["n"], p["v"], p["r"]) for p in ports.values() if p["c"] == c], [(b[0]["n"], b[0]["c"], b[0]["v"], b[0]["r"], b[1]) for b in bins.values()]))
            got = sorted(re.match(r"Package: (\S+) package should", x).group(1) for x in out.split("\n") if "should be removed" in x)
            want = sorted(b[0]["n"] for b in bins.values() if b[0]["c"] == c and not b[0].get("g") and not b[0].get("nls") and b[0]["n"] not in ports)
            if got != want: ctx.fail("cards create --dry %s wants to remove %s, expected %s" % (c, got, want))
