import depot as D, world as W
NEEDS = ["sbx", "cards"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of cards remove over generated installed systems, against a reference model of refusals and orphans"
NOTE = ("Exploration: installed systems with generated dependency graphs, aliases, sets, collections, groups and automatic marks; whether cards remove refuses, and exactly which packages "
        "and files are gone afterwards, is compared with a reference model.")
EXAMPLES = {"quick": 700, "thorough": 12000}
RULE = ("2-9 installed packages in 1-3 collections with random runtime dependencies (shared, cyclic, self, missing), aliases, sets, group packages, manual or automatic; 1-3 arguments (names, "
        "aliases, sets, collections, groups, base, unknown names), with or without -f, --root, configured groups, or as a user. Non-trivial: something is removed, or a package in use or of base is refused.")
ASSUMPTIONS = ["Arguments that depend on each other may be refused or removed together."]
NAMES = ["a", "bb", "lib", "app", "libxyz", "gtk+", "perl-x", "zz-long-name", "c", "dd"]
GROUPS = ["fr", "devel", "lib"]
COLLS = ["base", "cli", "gui"]


def gen(g, tier):
    n = g.randint(2, 9)
    names = g.sub(NAMES, n, n)
    g.shuffle(names)
    colls = g.choice([COLLS, COLLS[1:], COLLS[1:], ["cli"]])
    cyc = g.chance(0.3)
    dens = g.choice([0.1, 0.2, 0.4, 0.7])
    autos = g.choice([0.2, 0.5, 0.8])
    ps = []
    for i, nm in enumerate(names):
        pool = names if cyc else names[:i]
        r = [d for d in pool if d != nm and g.chance(dens / 2 if cyc else dens)]
        if g.chance(0.06): r.append(nm)
        if g.chance(0.06): r.append("missing")
        q = {"n": nm, "c": g.choice(colls), "R": r, "auto": int(g.chance(autos))}
        if g.chance(0.3): q["s"] = g.sub(["set1", "set2", "set", "set12", nm, "a"], 1, 2)
        if g.chance(0.25): q["A"] = ["al-" + nm]
        # a package is found by its name, whatever aliases others have
        if g.chance(0.05): q["A"] = q.get("A", []) + [names[(i + 1) % len(names)]]
        ps.append(q)
    for q in list(ps):
        for gr in GROUPS:
            if g.chance(0.2): ps.append({"n": q["n"] + "." + gr, "c": q["c"], "g": gr, "R": [q["n"]] if g.chance(0.2) else [], "auto": int(g.chance(0.2)), "s": q.get("s", []) if g.chance(0.3) else []})
    libs = [q["n"] for q in ps if q.get("g") == "lib"]
    for q in ps:
        if libs and not q.get("g") and g.chance(0.3): q["R"].append(g.choice(libs))
    als = [a for q in ps for a in q.get("A", [])] or ["al-x"]
    args = [g.pick((5, lambda: g.choice(ps)["n"]), (1.5, lambda: g.choice(als)), (1, lambda: g.choice(["set1", "set2", "set", "set12"])), (0.7, lambda: g.choice(["cli", "gui"])),
                   (0.5, lambda: g.choice(GROUPS)), (0.2, lambda: "base"), (0.3, lambda: "nosuch")) for _ in range(g.choice([1, 1, 1, 2, 2, 3]))]
    return {"p": ps, "args": args, "groups": g.sub(GROUPS, 0, 3), "rr": g.chance(0.3), "root": g.choice(["", "", "", "r"]), "f": g.chance(0.3), "uid": g.choice([0] * 15 + [1000]), "user": g.chance(0.3)}


def model(case):
    """-> ("refuse", why), ("either", final) or ("remove", final)"""
    by = {q["n"]: q for q in case["p"]}
    alias = {a: q["n"] for q in case["p"] for a in q.get("A", [])}
    out, either = {}, False
    named = set()
    for a in case["args"]:
        if a in by: named.add(a)
        elif a in alias: named.add(alias[a])
    member = set()
    for a in case["args"]:
        if a == "base": return "refuse", "base"
        name = a if a in by else alias.get(a)
        users = [q["n"] for q in by.values() if q["n"] != name and name and name in q["R"]]
        m = {q["n"] for q in by.values() if q["n"] != name and (q["c"] == a or q.get("g") == a)}
        if not m: m = {q["n"] for q in by.values() if a in q.get("s", [])}
        member |= m
        if users: out.setdefault("use", []).append(users)
        if name: m.add(name)
        if not m: return "refuse", "unknown"
        for x in m: out[("rm", x)] = by[x]["c"]
    gone = {k[1]: c for k, c in out.items() if k != "use"}
    for n in list(gone):
        for gr in case["groups"]:
            if gr != "lib" and n + "." + gr in by: gone[n + "." + gr] = gone[n]
    for users in out.get("use", []):
        if set(users) <= set(gone): either = True
        else: return "refuse", "use"
    if "base" in gone.values() and not case["f"]: return "refuse", "base"
    left = set(by) - set(gone)
    keep, todo = set(), [n for n in left if not by[n]["auto"]]
    while todo:
        n = todo.pop()
        if n in keep or n not in left: continue
        keep.add(n)
        todo += by[n]["R"]
    orphans = left - keep
    for n in list(orphans):
        for gr in case["groups"]:
            if gr != "lib" and n + "." + gr in left: orphans.add(n + "." + gr)
    return ("either" if either else "remove"), (left - orphans, gone, orphans)


def run_case(ctx, case):
    w = ctx.w
    ps = []
    for q in case["p"]:
        if q["n"] in [x["n"] for x in ps]: continue
        q = dict({"c": "cli", "R": [], "auto": 0}, **q)
        q["e"] = [{"p": "opt", "t": "d"}, {"p": "opt/" + q["n"], "t": "f", "c": q["n"]}, {"p": "opt/shared", "t": "d"}, {"p": "opt/shared/" + q["n"], "t": "f", "c": q["n"]},
                  {"p": "own-" + q["n"], "t": "d"}, {"p": "own-" + q["n"] + "/x", "t": "f", "c": "x"}]
        ps.append(q)
    case = dict(case, p=ps)
    if not case["args"]: return
    root = case["root"]
    where = root + "/" if root else ""
    w.reset()
    D.base(w)
    D.conf(w, [], groups=case["groups"])
    w.mkdir(where + "var/lib/pkg/DB")
    by = {q["n"]: q for q in ps}
    for q in ps:
        d = where + "var/lib/pkg/DB/" + q["n"]
        w.write(d + "/META", "".join(l + "\n" for l in sorted(D.meta(q) + (["d1"] if q["auto"] else []))))
        w.write(d + "/files", "".join(l + "\n" for l in sorted(D.listing(q))))
        for e in q["e"]:
            if e["t"] == "d": w.mkdir(where + e["p"])
            else: w.write(where + e["p"], e["c"])
        if root: D.install_record(w, dict(q, R=[]))
    if case["user"]: w.write(where + "opt/mine", "mine")
    what, res = model(case)
    opts = (["-f"] if case["f"] else []) + (["--root=" + ("" if case.get("rr") else "/") + root] if root else [])
    before = w.snapshot(mtimes=False)
    host = w.read_db() if root else None
    r = w.cards("remove", *opts, *case["args"], uid=case["uid"])
    txt = "cards remove " + " ".join(opts + list(case["args"])) + (" (uid %d)" % case["uid"] if case["uid"] else "")
    if r.crashed() or r.timeout: ctx.fail("%s ended abnormally (status %d): %s" % (txt, r.rc, r.text[-500:]))
    after = w.snapshot(mtimes=False)

    def untouched():
        d = W.diff_snap(W.strip_ino(before), W.strip_ino(after))
        if d: ctx.fail("%s was refused (status %d) but changes: %s" % (txt, r.rc, d))
    if case["uid"] and what != "refuse": what, res = "refuse", "uid"
    if what == "refuse":
        ctx.tag("refuse-" + res)
        ctx.nontrivial = res in ("use", "base")
        if r.rc == 0: ctx.fail("%s succeeds, expected a refusal (%s)" % (txt, res))
        return untouched()
    if what == "either" and r.rc != 0:
        ctx.tag("refuse-mutual")
        return untouched()
    ctx.nontrivial = True
    left, gone, orphans = res
    ctx.tag("removed")
    if orphans: ctx.tag("orphans")
    if r.rc != 0: ctx.fail("%s fails (status %d), expected removal of %s: %s" % (txt, r.rc, sorted(gone), r.text[-500:]))
    db = w.read_db(root)
    if set(db) != left: ctx.fail("%s leaves %s, expected %s (named: %s, no longer needed: %s)" % (txt, sorted(db), sorted(left), sorted(gone), sorted(orphans)))
    drop = set()
    for n in set(by) - left:
        drop |= {"own-" + n, "own-" + n + "/x", "opt/" + n, "opt/shared/" + n}
        drop |= {"var/lib/pkg/DB/" + n, "var/lib/pkg/DB/%s/META" % n, "var/lib/pkg/DB/%s/files" % n}
    if not left:
        drop |= {"opt/shared"}
        if not case["user"]: drop.add("opt")
    exp = {k: v for k, v in before.items() if not (k.startswith(where) and k[len(where):] in drop)}
    d = W.diff_snap(W.strip_ino(exp), W.strip_ino(after))
    if d: ctx.fail("%s: files differ from what the remaining packages (%s) need: %s" % (txt, sorted(left), d))
