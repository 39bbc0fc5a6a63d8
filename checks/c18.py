import os, re
import depot as D, ed25519 as E, world as W
NEEDS = ["sbx", "cards"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of cards diff and cards upgrade over generated repositories and installed systems, against a reference model"
NOTE = ("Exploration: for generated repositories and installed systems, what cards diff reports, what cards upgrade -c, -s, --ready and --download-only answer, and what cards upgrade "
        "installs, removes and leaves alone, is compared with a reference model; a second upgrade must find nothing to do.")
EXAMPLES = {"quick": 350, "thorough": 6000}
RULE = ("1-9 installed packages (older, equal, newer, rebuilt, absent from the repository; manual or automatic), generated new runtime dependencies, group packages, files that move between packages, "
        "local depots or a mirror with stale local metadata, --root; the depot holding some packages already, cut or altered; options -p, -c, -s, --ready, --download-only, --no-sync. Non-trivial: at least one package to upgrade or to remove.")
ASSUMPTIONS = ["Whether packages installed by hand that no collection offers count as updates for -c and -s is left open."]
NAMES = ["a", "bb", "lib", "app", "libxyz", "gtk+", "perl-x", "zz-long-name", "c", "dd", "ee"]
GROUPS = ["fr", "devel"]
COLLS = ["base", "cli"]
SEED = b"k" * 32


def gen(g, tier):
    n = g.randint(1, 9)
    names = g.sub(NAMES, n, n)
    g.shuffle(names)
    ps = []
    mood = g.choice([0.1, 0.3, 0.7])
    for i, nm in enumerate(names):
        ch = g.pick((1, lambda: "new"), (4, lambda: "same" if not g.chance(mood) else g.choice(["older", "older", "rel", "rebuilt", "newer"])), (0.7, lambda: "gone"))
        q = {"n": nm, "c": g.choice(COLLS), "R": [d for d in names[:i] if g.chance(0.25)], "v": g.choice(["1.0", "2.1"]), "r": g.choice([1, 2, 3, 65537]), "ch": ch, "auto": int(g.chance(0.4)), "S": g.choice([1, 4096, 5000000, 5000000, 3000000000, 5000000000]),
             "loc": g.choice([1, 1, 1, 0, 2, 3]), "own": g.sub(["f1", "f2", "f3"], 0, 2) if g.chance(0.3) else [], "old": g.sub(["f1", "f2", "f3", "f4"], 0, 2) if g.chance(0.3) else []}
        ps.append(q)
    seen, seen2 = set(), set()
    for q in ps:                    # a path belongs to one package of each state
        q["own"] = [f for f in q["own"] if f not in seen]
        seen |= set(q["own"])
        q["old"] = [f for f in q["old"] if f not in seen2]
        seen2 |= set(q["old"])
    move = len(ps) > 1 and g.chance(0.2)
    if move:                        # a file of an old package is in a new one that it now needs
        j = g.randrange(len(ps) - 1)
        i = g.randint(j + 1, len(ps) - 1)
        ps[j]["ch"], ps[i]["ch"] = "new", g.choice(["older", "rebuilt"])
        ps[i]["R"] = ps[i]["R"] + [ps[j]["n"]] if ps[j]["n"] not in ps[i]["R"] else ps[i]["R"]
        for q in ps: q["own"], q["old"] = [f for f in q["own"] if f != "f1"], [f for f in q["old"] if f != "f1"]
        ps[j]["own"], ps[i]["old"] = ps[j]["own"] + ["f1"], ps[i]["old"] + ["f1"]
    for q in list(ps):
        for gr in GROUPS:
            if g.chance(0.25): ps.append({"n": q["n"] + "." + gr, "c": q["c"], "g": gr, "R": [], "v": q["v"], "r": q["r"], "ch": g.choice(["new", "new", "same", "older", "gone"]), "auto": 0})
    return {"p": ps, "groups": g.sub(GROUPS, 0, 2), "rr": g.chance(0.3), "root": g.choice(["", "", "", "r"]), "url": g.choice(["", "", "", "global", "dir"]), "opt": g.choice(["", "-p", "-p", "-p", "-p", "-p", "-c", "-s", "--ready", "--download-only", "--no-sync", "diff", "diff"]),
            "have": g.choice([0, 1, 1, 2]), "miss": g.choice(ps)["n"] if g.chance(0.04) else "", "mv": int(move)}


def ents(q, fs):
    return [{"p": "opt", "t": "d"}, {"p": "opt/" + q["n"], "t": "f", "c": "%s %s-%d %d\n" % (q["n"], q["v"], q["r"], q["b"])}] + ([{"p": "opt/x", "t": "d"}] if fs else []) + \
        [{"p": "opt/x/" + f, "t": "f", "c": "%s of %s %d\n" % (f, q["n"], q["b"])} for f in sorted(fs)]


def files(w, where):
    s = w.snapshot()
    return {k: v for k, v in s.items() if k.startswith(where + "opt")}


def section(txt, head):
    """names listed under a heading of cards diff, and the number behind it"""
    m = re.search(re.escape(head) + r"\s*(\d+)\n((?:[^ \n][^\n]*\n)*)", txt)
    return (int(m.group(1)), m.group(2).splitlines()) if m else (None, [])


def run_case(ctx, case):
    w = ctx.w
    ps, inst = [], {}
    for q in case["p"]:
        if q["n"] in [x["n"] for x in ps] or q["n"] in inst: continue
        q = dict({"c": "base", "R": [], "v": "1.0", "r": 1, "ch": "same", "auto": 0, "own": [], "old": [], "S": 1}, **q)
        q["b"] = D.BT
        o = dict(q)
        if q["ch"] == "older": o.update(v="0.9", b=D.BT - 50)
        if q["ch"] == "rel": o.update(r=q["r"] + 1 if q["r"] == 1 else q["r"] - 1, b=D.BT - 50)
        if q["ch"] == "rebuilt": o.update(b=D.BT - 7)
        if q["ch"] == "newer": o.update(v="3.0", b=D.BT + 9)
        fs = q["own"] if q["ch"] == "same" else q["old"]
        o["e"] = ents(o, fs)
        q["e"] = ents(q, q["own"])
        if q["ch"] != "gone": ps.append(q)
        if q["ch"] != "new": inst[q["n"]] = o
    allp = ps
    ps = [q for q in ps if q["n"] != case["miss"]]
    by = {q["n"]: q for q in ps}
    # installed files must not collide among each other
    owners = {}
    for o in inst.values():
        for e in o["e"]:
            if e["t"] == "f" and owners.setdefault(e["p"], o["n"]) != o["n"]: return
    owners = {}
    for q in ps:
        for e in q["e"]:
            if e["t"] == "f" and owners.setdefault(e["p"], q["n"]) != q["n"]: return
    for n, o in inst.items():
        if n in by and by[n]["ch"] == "newer":
            for e in o["e"]:
                if e["t"] == "f" and e["p"] in owners and owners[e["p"]] != n: return
    if not inst: return
    root, url = case["root"], case["url"]
    where = root + "/" if root else ""
    w.reset()
    D.base(w)
    w.mkdir(where + "var/lib/pkg/DB")
    times = {q["n"]: D.BT for q in allp}
    for n, o in inst.items():
        d = where + "var/lib/pkg/DB/" + n
        w.write(d + "/META", "".join(l + "\n" for l in sorted(D.meta(o, times) + (["d1"] if o["auto"] else []))))
        w.write(d + "/files", "".join(l + "\n" for l in sorted(D.listing(o))))
        for e in o["e"]:
            if e["t"] == "d": w.mkdir(where + e["p"])
            else: w.write(where + e["p"], e["c"])
        if root: D.install_record(w, dict(o, b=D.BT + 99, e=None), files=False)
    colls = sorted({q["c"] for q in ps})

    def have(ms, ar):
        """what is in the depot already: the package, nothing, a part of it, or something else of that name"""
        out = {}
        for q in ms:
            a, k = ar[D.fname(q)], q.get("loc", 1)
            if k: out[D.fname(q)] = a if k == 1 else a[:len(a) // 2] if k == 2 else a[:-1] + b"x"
        return out
    data = {}
    arch_of = {}
    for c in colls:
        ms = [q for q in ps if q["c"] == c]
        rep, fil, ar = D.texts(ms, SEED if url else None, times)
        for q in ms:
            data[q["n"]] = ar[D.fname(q)]
            arch_of[q["n"]] = D.DEPOT + "/" + c + "/" + D.fname(q)
        if url:
            D.put_mirror(w, c, rep, fil, ar, E.public(SEED))
            stale = case["opt"] != "--no-sync" and case["have"] == 0
            D.put_local(w, c, "" if stale else rep, "" if stale else fil, have(ms, ar) if case["have"] == 2 else {}, E.public(SEED))
        else: D.put_local(w, c, rep, fil, have(ms, ar) if case["opt"] == "--ready" else ar)
    u = "file:///" + D.MIRROR
    D.conf(w, [c + (" | " + u if url == "dir" else "") for c in colls], url=u if url == "global" else None, groups=case["groups"])
    # the model
    up = {n for n in inst if n in by and inst[n]["b"] < by[n]["b"]}
    ups = set(up)
    for gr in case["groups"]:
        for n, o in inst.items():
            gn = n + "." + gr
            if not o.get("g") and gn in by and not (gn in inst and inst[gn]["b"] >= by[gn]["b"]): ups.add(gn)
    plan, todo, broken = set(), list(ups), False
    while todo:
        n = todo.pop()
        if n in plan: continue
        if n not in by:
            broken = True
            continue
        plan.add(n)
        todo += [d for d in by[n]["R"] if d != n and d in times and not (d in inst and inst[d]["b"] >= times[d])]
        if any(d not in times and d not in inst for d in by[n]["R"]): return
    for gr in case["groups"]:
        for n in list(plan):
            gn = n + "." + gr
            if n not in inst and gn in by and gn not in inst:
                plan.add(gn)
                ups.add(gn)
    gone = {n for n, o in inst.items() if n not in by and o["auto"]}
    manual = {n for n, o in inst.items() if n not in by and not o["auto"]}
    same = set(inst) - up - gone - manual
    ratio = 100 - (100 * len(same)) // len(inst)
    ctx.nontrivial = bool(ups or gone)
    opt = case["opt"]
    rargs = ["--root=" + ("" if case.get("rr") else "/") + root] if root else []
    before = w.snapshot()
    bfiles = files(w, where)
    bdb = w.read_db(root)

    def there(n):
        try: return open(w.p(arch_of[n]), "rb").read() == data[n]
        except OSError: return False

    def unchanged(txt, skip=()):
        d = W.diff_snap(W.strip_ino({k: v for k, v in before.items() if not k.startswith(skip)}), W.strip_ino({k: v for k, v in w.snapshot().items() if not k.startswith(skip)}))
        if d: ctx.fail("%s changes the system: %s" % (txt, d))

    skip = (D.DEPOT,) if url else ("nothing",)
    if opt in ("-c", "-s", "diff"):
        args = (["upgrade", opt] if opt != "diff" else ["diff"]) + rargs
        txt = "cards " + " ".join(args)
        r = w.cards(*args, env={"LC_ALL": "C"})
        ctx.tag(opt)
        if r.rc != 0: ctx.fail("%s fails (status %d): %s" % (txt, r.rc, r.text[-400:]))
        unchanged(txt, skip)
        if opt == "-c":
            ans = r.text.split()[-1] if r.text.split() else ""
            ok = ans == "yes" if up or gone else ans in (("yes", "no") if manual else ("no",))
            if not ok: ctx.fail("%s answers %r; to upgrade: %s, to remove: %s" % (txt, ans, sorted(up), sorted(gone)))
        elif opt == "-s":
            ans = r.text.split()[-1] if r.text.split() else ""
            if ans not in (str(len(up | gone)), str(len(up | gone | manual))): ctx.fail("%s answers %r; to upgrade: %s, to remove: %s, not offered: %s" % (txt, ans, sorted(up), sorted(gone), sorted(manual)))
        else:
            t = r.text
            if not (up or gone or manual):
                if "Your system is up to date." not in t: ctx.fail("%s of a system up to date prints %r" % (txt, t[-500:]))
                return
            newb = {n for n in up if inst[n]["v"] == by[n]["v"] and inst[n]["r"] == by[n]["r"]}
            out = up - newb
            for head, want in (("Number of Packages:", len(inst)), ("Unchanged Packages:", len(same))):
                k = section(t, head)[0]
                if k != want: ctx.fail("%s prints %s %s, expected %d\n%s" % (txt, head, k, want, t))
            size = lambda qs: sum(int(q.get("S", 4096)) for q in qs)
            new, old = size(by[n] for n in up), size(inst[n] for n in up | gone)
            for head, want in (("Total download size:", sum(len(data[n]) for n in up)), ("Total size of reinstalled packages:", new), ("Total size of remove packages:", old),
                               ("Total amount of added bytes:", new - old), ("Total amount of removed bytes:", old - new)):
                got = [l[len(head):].strip() for l in t.splitlines() if l.startswith(head)]
                if got != ([D.human(want) + "bytes"] if want > 0 or "size" in head else []) and got != [D.human(want).strip() + "bytes"]:
                    ctx.fail("%s prints %s %s, expected %d bytes\n%s" % (txt, head, got, want, t))
            for head, want in (("Out of Date Packages (different version):", out), ("Rebuild Packages (newer build date):", newb), ("Obsoletes Packages (will be removed):", gone), ("Unmaintained Packages (should be removed):", manual)):
                k, ls = section(t, head)
                if (k or 0) != len(want): ctx.fail("%s prints %s %s, expected %s\n%s" % (txt, head, k, sorted(want), t))
                rows = [l.split() for l in ls]
                if head.startswith("Out"):
                    exp = [[n, "%s-%d" % (inst[n]["v"], inst[n]["r"]), "%s-%d" % (by[n]["v"], by[n]["r"])] for n in sorted(out)]
                    rows = [x for x in rows if x[0] != "Name:"]
                else: exp = [[n] for n in sorted(want)]
                if sorted(rows) != exp: ctx.fail("%s lists %s under %s, expected %s\n%s" % (txt, rows, head, exp, t))
        return
    if opt == "--no-sync" and url: pass
    args = ["upgrade"] + ([opt] if opt else []) + (["-p"] if opt in ("--download-only", "--no-sync") else []) + rargs
    txt = "cards " + " ".join(args)
    r = w.cards(*args, env={"LC_ALL": "C"}, cpu=5, wall=40)
    if r.crashed() or r.timeout: ctx.fail("%s ended abnormally (status %d, timeout %s): %s" % (txt, r.rc, r.timeout, r.text[-500:]))
    refuse = False
    if not opt and ratio > 20:
        ctx.tag("too-many")
        return unchanged(txt, skip)
    if not set(inst) & set(by):
        ctx.tag("no-depot")
        if r.rc == 0: ctx.fail("%s succeeds although no installed package is offered" % txt)
        return unchanged(txt, skip)
    want_now = {n for n in ups if n.rpartition(".")[0] in inst or n in inst}
    if opt == "--ready":
        ctx.tag(opt)
        ok = all(there(n) for n in want_now)
        if (r.rc == 0) != ok: ctx.fail("%s ends with status %d; needed %s, present %s" % (txt, r.rc, sorted(ups), sorted(n for n in ups if there(n))))
        return unchanged(txt, skip)
    if broken:
        ctx.tag("broken")
        if r.rc == 0: ctx.fail("%s succeeds although a new dependency cannot be found" % txt)
        return unchanged(txt, skip)
    if r.rc != 0: ctx.fail("%s fails (status %d): %s" % (txt, r.rc, r.text[-600:]))
    if opt == "--download-only":
        ctx.tag(opt)
        for n in plan:
            if not there(n): ctx.fail("%s did not download %s" % (txt, n))
        return unchanged(txt, skip)
    ctx.tag("upgrade")
    if gone: ctx.tag("obsolete")
    if plan - set(inst): ctx.tag("new-dependency")
    db = w.read_db(root)
    want = (set(inst) | plan) - gone
    if set(db) != want: ctx.fail("%s leaves %s, expected %s (upgraded %s, obsolete %s)" % (txt, sorted(db), sorted(want), sorted(plan), sorted(gone)))
    final = {}
    for n in sorted(want):
        m = db[n].get("meta") or []
        if n in plan:
            if {x for x in m if x != "d1"} != set(D.meta(by[n], times)): ctx.fail("%s: record of %s is %s" % (txt, n, m))
            a = inst[n]["auto"] if n in inst else int(n not in ups)
            if ("d1" in m) != bool(a): ctx.fail("%s marks %s %s" % (txt, n, "automatic" if "d1" in m else "manual"))
        elif m != bdb[n].get("meta"): ctx.fail("%s changes the record of %s, which is up to date: %s" % (txt, n, m))
        for e in (by[n] if n in plan else inst[n])["e"]:
            if e["t"] == "f" and (n in plan or e["p"] not in final): final[e["p"]] = e["c"].encode()
    got = {k[len(where):]: v["c"] for k, v in files(w, where).items() if v["t"] == "f"}
    if got != final: ctx.fail("%s: files below opt are %s, expected %s" % (txt, {k: v for k, v in got.items() if final.get(k) != v}, {k: v for k, v in final.items() if got.get(k) != v}))
    if url and (plan or gone):
        left = [k for k in w.snapshot() if k.startswith(D.DEPOT) and ".cards-" in k]
        if left: ctx.fail("%s leaves downloaded packages in the depot: %s" % (txt, left))
    s1 = W.strip_ino(w.snapshot())
    r = w.cards("upgrade", "-p", *rargs, env={"LC_ALL": "C"})
    if r.rc != 0: ctx.fail("a second %s fails (status %d): %s" % (txt, r.rc, r.text[-400:]))
    d = W.diff_snap({k: v for k, v in s1.items() if not k.startswith(skip)}, {k: v for k, v in W.strip_ino(w.snapshot()).items() if not k.startswith(skip)})
    if d: ctx.fail("a second cards upgrade changes the system again: %s" % d)
    if root and before.get("var/lib/pkg/DB") and W.diff_snap({k: v for k, v in W.strip_ino(before).items() if k.startswith("var/lib/pkg/DB")}, {k: v for k, v in W.strip_ino(w.snapshot()).items() if k.startswith("var/lib/pkg/DB")}):
        ctx.fail("%s changes the package database outside the root" % txt)
