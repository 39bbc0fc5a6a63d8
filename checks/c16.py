import os
import depot as D, ed25519 as E, world as W
NEEDS = ["sbx", "cards"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of cards install over generated dependency graphs and installed systems, against a reference dependency closure"
NOTE = ("Exploration: repositories with generated runtime dependency graphs (cycles, diamonds, sets, collections, groups) and partly installed systems; what cards install adds, in which "
        "order, and which packages it marks automatic is compared with a reference resolver.")
EXAMPLES = {"quick": 500, "thorough": 8000}
RULE = ("2-8 packages in 1-3 collections with random runtime dependencies (chains, diamonds, shared, self and cyclic), sets, aliases and locale/group packages; 0-2 packages given as files, by a relative or an absolute name; a generated installed system "
        "(older, equal and newer builds, automatic or manual); 1-3 arguments (packages, sets, collections, unknown names), optionally --root. Non-trivial: at least two packages must be installed.")
NAMES = ["a", "bb", "lib", "app", "libxyz", "gtk+", "perl-x", "zz-long-name", "c", "dd"]
GROUPS = ["fr", "devel"]
COLLS = ["base", "cli", "gui"]


def gen(g, tier):
    n = g.randint(2, 8)
    names = g.sub(NAMES, n, n)
    g.shuffle(names)
    colls = COLLS[:g.randint(1, 3)]
    cyc = g.chance(0.25)
    dens = g.choice([0.15, 0.3, 0.5, 0.8])
    ps = []
    for i, nm in enumerate(names):
        pool = names if cyc else names[:i]
        r = [[d, g.choice([0, 0, 0, 5])] for d in pool if g.chance(dens if not cyc else dens / 2)]
        if g.chance(0.1): r.append([nm, 0])
        g.shuffle(r)
        q = {"n": nm, "c": g.choice(colls), "R": r, "v": g.choice(["1.0", "2.1"]), "r": g.choice([1, 2, 3, 65537])}
        if g.chance(0.3): q["s"] = g.sub(["set1", "set2"], 1, 2)
        if g.chance(0.2): q["A"] = ["alias-" + nm]
        ps.append(q)
    for q in list(ps):
        for gr in GROUPS:
            if g.chance(0.25): ps.append({"n": q["n"] + "." + gr, "c": q["c"], "g": gr, "R": [[q["n"], 0]] if g.chance(0.4) else [], "v": q["v"], "r": q["r"], "s": q.get("s", [])})
    for q in list(ps):      # the packages of a locale
        if not q.get("g") and g.chance(0.1): ps.append({"n": q["n"] + ".de", "c": q["c"], "nls": "de", "R": [[q["n"], 0]] if g.chance(0.4) else [], "v": q["v"], "r": q["r"]})
    g.shuffle(ps)
    inst = []
    for q in ps:
        if g.chance(g.choice([0, 0.2, 0.5, 0.8])):
            inst.append([q["n"], g.choice([-10, -10, -3, 0, 0, 7]), g.chance(0.4)])
    args = [g.pick((6, lambda: g.choice(ps)["n"]), (1, lambda: g.choice(["set1", "set2"])), (1, lambda: g.choice(colls)), (0.3, lambda: "nosuch")) for _ in range(g.choice([1, 1, 1, 2, 2, 3]))]
    return {"p": ps, "inst": inst, "args": args, "groups": g.sub(GROUPS, 0, 2), "root": g.choice(["", "", "", "r"]), "miss": g.choice(ps)["n"] if g.chance(0.06) else "", "conf": g.chance(0.3), "rr": g.chance(0.2),
            # packages given as files, which no repository offers
            "f": [{"n": x, "v": g.choice(["1.0", "3.2-rc"]), "r": g.choice([1, 2, 65537]), "at": g.randint(0, 3), "rel": g.chance(0.3), "had": g.choice([0, 0, 1, 2])} for x in (g.sub(["own", "mine.fr", "0th"], 1, 2) if g.chance(0.15) else [])]}


def closure(case, by, S, full):
    """-> (set of packages to install, explicit ones, unknown: argument or dependency that cannot be found)"""
    sets, cols = {}, {}
    for q in case["p"]:
        if q["n"] not in by: continue
        if not q.get("g"):
            for s in q.get("s", []): sets.setdefault(s, []).append(q["n"])
            if not q.get("nls"): cols.setdefault(q["c"], []).append(q["n"])
    expl, unknown = set(), False
    for a in case["args"]:
        if a in sets: expl |= {n for n in sets[a] if n not in S}
        elif a in cols: expl |= {n for n in cols[a] if n not in S}
        elif a in by: expl.add(a)
        else: unknown = True
    plan = set()

    def add(names):
        nonlocal unknown
        todo = list(names)
        while todo:
            n = todo.pop()
            if n in plan: continue
            if n not in by:
                unknown = True
                continue
            plan.add(n)
            q = by[n]
            if not full and n in S and S[n]["v"] == q.get("v", "1.0") and S[n]["r"] == q.get("r", 1) and S[n]["b"] >= D.bt(q): continue
            for d, t in q["R"]:
                if d != n and not (d in S and S[d]["b"] >= t): todo.append(d)
    add(expl)
    groups = {n + "." + gr for n in plan for gr in case["groups"] if n + "." + gr in by}
    add(groups)
    return plan, expl | groups, unknown


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    D.base(w)
    root = case["root"]
    case = dict(case, p=[dict(q, R=[[d, D.BT - o] for d, o in q.get("R", [])]) for q in case["p"]])
    ps = [q for q in case["p"] if q["n"] != case["miss"]]
    by = {q["n"]: q for q in ps}
    if root:
        w.mkdir(root + "/var/lib/pkg/DB")
        w.write(root + "/" + W.SHELL, open(w.p(W.SHELL), "rb").read(), 0o755)
    w.mkdir("log")
    if root: w.mkdir(root + "/log")
    for c in sorted({q["c"] for q in ps}):
        ms = [dict(q, sc={"PRE": "echo %s var/lib/pkg/DB/* >> log/order\n" % q["n"]}) for q in ps if q["c"] == c]
        rep, fil, ar = D.texts(ms, None)
        D.put_local(w, c, rep, fil, ar)
    args0, files = list(case["args"]), {}
    for x in case.get("f", []):
        q = {"n": str(x.get("n", "own")), "v": x.get("v", "1.0") or "1", "r": x.get("r", 1), "c": "base", "g": "fr" if x.get("n") == "mine.fr" else ""}
        if q["n"] in files or q["n"] in by: return
        files[q["n"]] = q
        f = "home/me/" + D.fname(q)
        w.write(f, D.archive(dict(q, sc={"PRE": "echo %s var/lib/pkg/DB/* >> log/order\n" % q["n"]})))
        args0.insert(min(x.get("at", 0), len(args0)), D.fname(q) if x.get("rel") else "/" + f)
    groups = list(case["groups"])
    D.conf(w, sorted({q["c"] for q in ps}), groups=groups)
    S = {}
    where = root + "/" if root else ""
    allp = {q["n"]: q for q in case["p"]}
    for n, dt, auto in case["inst"]:
        if n not in allp: continue
        q = dict(allp[n], b=D.BT + dt)
        if dt: q["v"] = "0.%d" % (dt + 20)
        S[n] = {"b": q["b"], "v": q.get("v", "1.0"), "r": q.get("r", 1), "auto": auto}
        m = sorted(D.meta(q) + (["d1"] if auto else []))
        w.write(where + "var/lib/pkg/DB/%s/META" % n, "".join(l + "\n" for l in m))
        w.write(where + "var/lib/pkg/DB/%s/files" % n, "opt/\nopt/%s\n" % n)
        w.write(where + "opt/" + n, "old %s\n" % n)
    for x in case.get("f", []):
        if not x.get("had"): continue
        q = dict(files[str(x.get("n", "own"))], v="0.5", b=D.BT - 9)
        S[q["n"]] = {"b": q["b"], "v": "0.5", "r": q["r"], "auto": x["had"] == 2}
        w.write(where + "var/lib/pkg/DB/%s/META" % q["n"], "".join(l + "\n" for l in sorted(D.meta(q) + (["d1"] if x["had"] == 2 else []))))
        w.write(where + "var/lib/pkg/DB/%s/files" % q["n"], "opt/\nopt/%s\n" % q["n"])
        w.write(where + "opt/" + q["n"], "old %s\n" % q["n"])
    if root:       # the host has everything: it must not matter
        for q in ps: D.install_record(w, dict(q, b=D.BT + 50), files=False)
    lo, expl, unk = closure(case, by, S, False)
    hi, expl2, unk2 = closure(case, by, S, True)
    before_host = w.read_db() if root else None
    before = w.snapshot(root, mtimes=False)
    if not args0: return
    args = ["install"] + (["--root=" + ("../../" if files else "") + root if case.get("rr") else "--root=/" + root] if root else []) + args0
    if files:
        ctx.tag("file")
        lo, hi, expl = lo | set(files), hi | set(files), expl | set(files)
        by = dict(by, **{n: dict(q, R=[]) for n, q in files.items()})
    r = w.cards(*args, cpu=5, wall=40, cwd="/home/me" if files else "/")
    txt = " ".join(args)
    if r.timeout or r.crashed():
        ctx.fail("cards %s ended abnormally (status %d, timeout %s): %s" % (txt, r.rc, r.timeout, r.text[-500:]))
    if unk != unk2: return          # depends on whether up to date packages are examined again
    if unk:
        ctx.tag("unknown")
        if r.rc == 0: ctx.fail("cards %s succeeds although a package cannot be found" % txt)
        if files and all(a in by or any(q["c"] == a or a in q.get("s", []) for q in ps) for a in case["args"]): return      # the files are installed before the dependencies are looked for
        d = W.diff_snap(W.strip_ino(before), W.strip_ino(w.snapshot(root)))
        if d: ctx.fail("cards %s changes the system although a package cannot be found: %s" % (txt, d))
        return
    if r.rc != 0: ctx.fail("cards %s fails (status %d): %s" % (txt, r.rc, r.text[-600:]))
    ctx.nontrivial = len(lo) > 1
    if len(lo) > 1: ctx.tag("several")
    if S: ctx.tag("installed-before")
    log = w.p(where + "log/order")
    lines = [l.split() for l in open(log).read().splitlines()] if os.path.exists(log) else []
    order = [l[0] for l in lines]
    if len(set(order)) != len(order): ctx.fail("cards %s installs a package twice: %s" % (txt, order))
    if not lo <= set(order) <= hi: ctx.fail("cards %s installs %s, needed: %s" % (txt, order, sorted(lo)))
    # reachability, to leave dependency cycles out
    reach = {}
    for n in by:
        seen, todo = set(), [d for d, _ in by[n]["R"]]
        while todo:
            x = todo.pop()
            if x in seen or x not in by: continue
            seen.add(x)
            todo += [d for d, _ in by[x]["R"]]
        reach[n] = seen
    for l in lines:
        n, there = l[0], {os.path.basename(x) for x in l[1:]}
        q = by[n]
        if n in S and S[n]["v"] == q.get("v", "1.0") and S[n]["r"] == q.get("r", 1) and S[n]["b"] >= D.bt(q): continue      # up to date: not examined
        for d, t in q["R"]:
            if d == n or n in reach.get(d, ()): 
                ctx.tag("cycle")
                continue
            if d not in lo or (d in S and S[d]["b"] >= t): continue
            if d not in order[:order.index(n)]:
                ctx.fail("cards %s installs %s before its dependency %s: %s" % (txt, n, d, order))
            if d not in there: ctx.fail("cards %s installs %s while its dependency %s has no record (order %s)" % (txt, n, d, order))
    db = w.read_db(root)
    if set(db) != set(S) | set(order): ctx.fail("cards %s: installed packages are %s, expected %s" % (txt, sorted(db), sorted(set(S) | set(order))))
    for n in sorted(db):
        m = db[n].get("meta") or []
        f = w.p(where + "opt/" + n)
        if n in order:
            want = D.entries(by[n])[-1]["c"]
            if {x for x in m if x != "d1"} != set(D.meta(by[n])): ctx.fail("cards %s: record of %s is %s" % (txt, n, m))
            if open(f).read() != want: ctx.fail("cards %s: %s has content %r, expected %r" % (txt, n, open(f).read(), want))
            auto = "d1" in m
            if n in S:
                if n in expl: continue
                if auto != S[n]["auto"]: ctx.fail("cards %s upgrades %s as a dependency and makes it %s (before: %s)" % (txt, n, "automatic" if auto else "manual", "automatic" if S[n]["auto"] else "manual"))
            elif auto != (n not in expl): ctx.fail("cards %s marks %s %s" % (txt, n, "automatic" if auto else "manual"))
        else:
            if ("d1" in m) != S[n]["auto"] or "B%d" % S[n]["b"] not in m or open(f).read() != "old %s\n" % n: ctx.fail("cards %s changes %s, which needs no change: %s" % (txt, n, m))
    if root and w.read_db() != before_host: ctx.fail("cards %s changes the package database outside the root" % txt)
