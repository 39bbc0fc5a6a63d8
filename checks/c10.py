import os, re, time
import pkggen as G, pkgmodel as M, world as W
import depot as D
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing of pkginfo's database queries over generated histories"
NOTE = "Exploration: every answer is compared with what the reference model says the database holds; the database and filesystem are compared before and after."
EXAMPLES = {"quick": 350, "thorough": 8000}
RULE = ("Histories of pkgadd, pkgrm, user edits and pkginfo -i, -n, -l, -o, -b, -d queries (names, aliases, names of absent packages, extended regular expressions), on the "
        "default or another root. Non-trivial: a query was made while at least one package was installed.")
ASSUMPTIONS = ["An alias of two packages is not generated."]
NAMES = ["aa", "bb", "libcc", "aa.devel", "d"]
PATS = ["f1", "^/etc/", "conf$", "^/srv/x/y/$", "/f[12]$", "(d1|d2)/", ".", "^$", "x\\.d", "a b", "[[:digit:]]$", "^/opt/tool$", "F1", "é", "/{1}etc", "l+10?n", "^etc"]


def pack(g, **kw):
    p = G.package(g, owners=False, max_files=5, **kw)
    x = []
    if g.chance(0.4): x.append("A" + p["n"] + "-alias")
    if g.chance(0.2): x.append("A" + p["n"] + "2")
    # each package has another one whose name may be its alias
    if g.chance(0.15): x.append("A" + NAMES[(NAMES.index(p["n"]) + 2) % len(NAMES)] if p["n"] in NAMES else "Azz")
    if g.chance(0.3): x += ["T" + c for c in g.sub(["net", "cli", "x11"], 1, 3)]
    if g.chance(0.3): x += ["s" + c for c in g.sub(["set1", "set2"], 1, 2)]
    if g.chance(0.5): x += ["R" + n + str(g.choice([1600000000, 1500000001])) for n in g.sub(["libcc", "bb", "glibc", "x"], 1, 4)]
    if g.chance(0.15): x.append("gdoc")
    if x: p["x"] = x
    p["S"] = g.choice([0, 1, 1023, 1024, 1536, 1048575, 1048576, 5000000, 1073741824, 2000000000, 2147483648, 4294967295, 5000000000])
    p["b"] = g.choice([1600000000, 1, 1234567890, 1700000000])
    p["c"] = g.choice(["base", "cli", "a-much-longer-collection", "gui"])
    if g.chance(0.3): p["D"] = g.choice(["Descr: with : colons", "d", "été"])
    return p


def gen(g, tier):
    def q():
        k = g.choice("iinlllooobbddd")
        r = {"op": "q", "q": k}
        if k in "lbd":
            r["n"] = g.randrange(6) if g.chance(0.85) else g.choice(NAMES + ["nosuch", "aa-alias", "bb2"])
            r["al"] = g.randrange(3) if g.chance(0.5) else 0
        if k == "o":
            r["p"] = g.choice(PATS)
        return r

    def op():
        return g.pick((4, lambda: G.add_op(g, force=0.85, pk=pack)), (1, lambda: G.rm_op(g, NAMES)), (0.5, lambda: G.user_op(g)),
                      (0.7, lambda: {"op": "auto", "n": g.choice(NAMES)}), (5, q))
    return {"ops": [G.add_op(g, force=0.85, pk=pack)] + G.history(g, op, 3, 12 if tier == "quick" else 22), "root": g.choice(["", "", "r"])}


def one(meta, k):
    return next((l[1:] for l in sorted(meta) if l[0] == k), "")


def many(meta, k):
    return sorted(l[1:] for l in meta if l[0] == k and l != "d1")


def date(t):
    return time.strftime("%a %b %e %H:%M:%S %Y", time.gmtime(t))


def check(ctx, r, op):
    w, db, k = r.w, r.m.db, op["q"]
    names = sorted(db)
    arg = None
    if k in "lbd":
        arg = op["n"]
        if isinstance(arg, int):
            if names:
                arg = names[arg % len(names)]
                al = many(db[arg]["meta"], "A")
                if op.get("al") and al:
                    arg = al[op["al"] % len(al)]
                    ctx.tag("by-alias")
            else:
                arg = "nosuch"
    if k == "o":
        arg = op["p"]
    a = ["-" + k] + ([arg] if arg is not None else [])
    # in a tree of ports, where the port has the name of the package
    os.makedirs(w.p("t/ports", arg if k in "lbd" and "/" not in arg else "x"), exist_ok=True)
    res = w.pkginfo(*(a + r.rargs), cwd="/t/ports")
    out = res.out.decode("utf-8", "surrogateescape").split("\n")
    if out and out[-1] == "": out.pop()
    al = r.m.aliases()
    bad = []
    rec = db[al[arg]] if k in "lbd" and arg in al else None
    exp_rc = 0
    if k == "n":
        exp = [str(len(db))]
    elif k == "i":
        exp = ["%s: (%s) %s %s-%s" % ("AUTO" if "d1" in m else " MAN", one(m, "c"), n, one(m, "V"), one(m, "r"))
               for n in names for m in (db[n]["meta"],)]
    elif k == "l":
        exp = sorted(rec["files"]) if rec else []
        out = sorted(out)
        exp_rc = 0 if rec else 1
    elif k == "b":
        exp = [one(rec["meta"], "B") if rec else "0"]
    elif k == "o":
        # extended regular expressions of the C locale work on bytes
        pat = re.compile(arg.replace("[[:digit:]]", "[0-9]").encode("utf-8", "surrogateescape"))
        exp = sorted((one(db[n]["meta"], "c"), n, f) for n in names for f in db[n]["files"]
                     if pat.search(("/" + f).encode("utf-8", "surrogateescape")))
        if exp:
            ctx.tag("owner-found")
            h = out[0] if out else ""
            p1, p2 = h.find("Package"), h.find("File")
            if not h.startswith("Collection") or p1 < 0 or p2 < 0:
                bad.append("no header: %r" % h)
            b = [l.encode("utf-8", "surrogateescape") for l in out[1:]]
            dec = lambda x: x.decode("utf-8", "surrogateescape")
            out = sorted((dec(l[:p1]).rstrip(), dec(l[p1:p2]).rstrip(), dec(l[p2:])) for l in b)
        elif len(out) == 1 and out[0].endswith("no owner(s) found"):
            out = []
    elif k == "d":
        exp = {}
        if rec:
            m = rec["meta"]
            exp = {"Name": al[arg], "Description": one(m, "D"), "Collection": one(m, "c"), "URL": one(m, "U"), "License": one(m, "L"),
                   "Contributor(s)": one(m, "C"), "Packager": one(m, "P"), "Version": one(m, "V"), "Release": one(m, "r"),
                   "Build date": date(int(one(m, "B"))), "Arch": one(m, "a"), "Installed Size": D.human(int(one(m, "S"))) + "bytes",
                   "Man. installed": "No" if "d1" in m else "Yes"}
            exp["Installed date"] = date(int(os.stat(w.p(r.real(M.DBDIR + "/" + al[arg]))).st_mtime))
            for f, c in (("Alias", "A"), ("Categories", "T"), ("Sets", "s")):
                if many(m, c): exp[f] = " ".join(many(m, c))
            if one(m, "g"): exp["Group"] = one(m, "g")
            if many(m, "R"): exp["Dependencies"] = " ".join(sorted(x[:-10] for x in many(m, "R")))
        got = {}
        for l in out:
            f, _, v = l.partition(":")
            if f.strip() in got: bad.append("field %r twice" % f)
            got[f.strip()] = v.strip()
        if "Dependencies" in got: got["Dependencies"] = " ".join(sorted(got["Dependencies"].split()))
        exp = {a: b.strip() for a, b in exp.items()}
        bad += ["%s is %r, expected %r" % (f, got.get(f), exp.get(f)) for f in sorted(set(got) | set(exp)) if got.get(f) != exp.get(f)]
        out = exp
    if out != exp:
        bad.append("printed %r, expected %r" % (out[:12], exp[:12]))
    if (res.rc == 0) != (exp_rc == 0) or res.crashed():
        bad.append("status %d" % res.rc)
    return a, bad, res


def run_case(ctx, case):
    r = M.Runner(ctx, case)
    for i, op in enumerate(case["ops"]):
        if op["op"] == "q":
            if r.m.db: ctx.nontrivial = True
            ctx.tag("q-" + op["q"])
            s0 = r.w.snapshot()
            a, bad, res = check(ctx, r, op)
            bad += W.diff_snap(s0, r.w.snapshot())
            if bad:
                ctx.fail("step %d pkginfo %s: %s\n  history: %s\n  tool said: %s" % (i, a, "; ".join(bad[:6]), [M.describe(o) for o in case["ops"][:i+1]] if hasattr(M, "describe") else "",
                                                                                  res.text.strip()[-300:]))
            continue
        st = r.step(i, op)
        if st is None: continue
        cls, ok, res = st
        if r.devs(ok, res):
            ctx.tag("other-property-deviation")
            return
