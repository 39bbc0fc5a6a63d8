import os, re
import depot as D, world as W
NEEDS = ["sbx", "cards"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of the catalogue queries of cards over generated repositories, against a reference reader of the metadata"
NOTE = ("Exploration: collections with generated metadata (missing fields, empty, missing or unterminated files, long lines, packages in several collections) are queried with cards list -b / -S, "
        "search, query -b, files -b, info -b / -S and their installed counterparts; each answer is compared with a reference reading of the same files.")
EXAMPLES = {"quick": 220, "thorough": 6000}
RULE = ("1-3 collections of 0-6 package records with generated names, versions, descriptions, urls, packagers, sets, categories, groups, locales and file lists, any field missing; metadata files sometimes "
        "absent, empty or without final newline; some packages installed; 3-5 queries each. Non-trivial: some query has a non-empty answer.")
ASSUMPTIONS = []
NAMES = ["a", "bb", "lib", "ImageMagick", "libxyz", "gtk+", "perl-x", "R", "zz-long-name", "xorg-server", "c3"]
WORDS = ["tool", "Library", "the", "GNU", "viewer", "browser", "é", "fast", "X11", "set"]
COLLS = ["base", "cli", "gui"]
SETS = ["desk", "Server", "set1"]
FILES = ["usr/bin/a", "usr/bin/app", "usr/lib/libz.so.1", "etc/x.conf", "usr/share/doc/a b.txt", "usr/share/man/man1/app.1", "opt/é.txt", "usr/bin/a.sh"]


def gen(g, tier):
    cs = []
    for c in COLLS[:g.randint(1, 3)]:
        ps = []
        for nm in g.sub(NAMES, 0, 6):
            q = {"n": nm, "v": g.choice(["1.0", "2.10", "20240101", "r12"]), "r": g.choice([1, 2, 3, 5, 9, 10, 12, 65536, 20240101])}
            ph = lambda: " ".join(g.choice(WORDS) for _ in range(g.randint(1, 4)))
            for k, p, f in (("c", 0.85, lambda: g.choice([c, c, c, "other", "Extra"])), ("D", 0.8, ph), ("U", 0.7, lambda: "https://%s.org/%s" % (g.choice(["gnu", "KDE", "x"]), nm)), ("P", 0.7, lambda: g.choice(["tnut at nutyx dot org", "Spiky", "the team"])),
                            ("M", 0.5, lambda: g.choice(["tnut", "Me <me@x.org>"])), ("C", 0.4, lambda: g.choice(["a,b", "Fanch"])), ("L", 0.5, lambda: g.choice(["GPL2", "MIT"])), ("s", 0.4, lambda: g.sub(SETS, 1, 2)), ("T", 0.4, lambda: g.sub(["net", "Games", "fonts"], 1, 2)), ("A", 0.2, lambda: ["al-" + nm])):
                if g.chance(p): q[k] = f()
            if g.chance(0.15): q.update(g="devel", n=nm + ".devel")
            elif g.chance(0.1): q.update(nls="fr", n=nm + ".fr")
            q["R"] = [[d, D.BT] for d in g.sub(NAMES, 0, 2)]
            q["fl"] = g.sub(FILES, 0, 4)
            if g.chance(0.1): q["fl"].append("opt/" + "x" * g.choice([200, 4090, 8187, 8191, 9000]) + "/end")
            q["inst"] = int(g.chance(0.25))
            q["auto"] = int(g.chance(0.3))
            if g.chance(0.5): q["S"], q["Z"] = g.choice([0, 1023, 1536, 5000000, 3000000000, 5000000000]), g.choice([1, 1024, 1048576, 2147483647, 3000000000, 5000000000])
            q["H"] = g.choice(["", "ab" * 64])
            ps.append(q)
        cs.append({"n": c, "p": ps, "rep": g.pick((7, lambda: "ok"), (1, lambda: "noblank"), (1, lambda: "nonl"), (0.7, lambda: "missing"), (0.7, lambda: "empty")), "fil": g.pick((8, lambda: "ok"), (1, lambda: "nonl"), (0.7, lambda: "missing"), (0.7, lambda: "empty")), "shuf": g.randrange(1 << 20)})
    names = sorted({q["n"] for c in cs for q in c["p"]}) + NAMES[:2]
    qs = []
    for _ in range(g.randint(3, 5)):
        k = g.choice(["list-b", "list-S", "search", "search", "search-n", "query-b", "query-b", "files-b", "files-b", "info-b", "info-b", "info-S", "list", "files", "query"])
        a = ""
        if k.startswith("search"): a = g.pick((2, lambda: g.choice(WORDS)), (2, lambda: g.choice(names)), (1, lambda: g.choice(names)[:2]), (1, lambda: g.choice(["gnu.org", "KDE", "1.0", "tnut", "team", "base", "gui", "other", "extra", "DESK", "serv", "games", "NET", "nothing-like-that"])))
        elif k.startswith("query"): a = g.choice(["bin/a", "^/usr/lib", "a$", "\\.so", ".", "man1", "/end$", "x{5}", "[ae]\\.", "^/$", "nothing-there", "b.txt", "(app|conf)$", "sh"])
        elif k in ("files-b", "info-b", "files"): a = g.choice(names)
        elif k == "info-S": a = g.choice(SETS + COLLS + ["other"])
        qs.append([k, a])
    return {"c": cs, "q": qs, "url": g.choice(["", "", "http://127.0.0.1/x"])}


def low(s): return "".join(c.lower() if c < "\x7f" else c for c in s)


def unansi(s): return re.sub(r"\x1b\[[0-9;]*m", "", s)


def run_case(ctx, case):
    import random
    w = ctx.w
    w.reset()
    D.base(w)
    colls = []
    for c in case["c"]:
        if c["n"] in [x["n"] for x in colls]: continue
        seen, ps = set(), []
        for q in sorted(c["p"], key=lambda q: q["n"]):
            if q["n"] not in seen: ps.append(q)
            seen.add(q["n"])
        colls.append(dict(c, p=ps))
    inst = {}
    for c in colls:
        d = D.DEPOT + "/" + c["n"]
        w.mkdir(d)
        rep, fil = "", ""
        rnd = random.Random(c["shuf"])
        for q in c["p"]:
            m = D.meta(q)
            head, rest = m[:1], m[1:]
            rest += (["H" + q["H"]] if q.get("H") else []) + ["i%d" % q.get("Z", 77)]
            rnd.shuffle(rest)
            rep += "\n".join(["@" + D.fname(q)] + head + rest) + "\n\n"
            fil += "\n".join(["@" + D.fname(q)] + q.get("fl", [])) + "\n\n"
            if q.get("inst") and q["n"] not in inst: inst[q["n"]] = q
        if c["rep"] == "noblank": rep = rep[:-1]
        if c["rep"] == "nonl": rep = rep[:-2]
        if c["rep"] == "empty": rep = ""
        if c["fil"] == "nonl": fil = fil[:-2]
        if c["fil"] == "empty": fil = ""
        if c["rep"] != "missing": w.write(d + "/.REPO", rep)
        if c["fil"] != "missing": w.write(d + "/.FILES", fil)
    D.conf(w, [c["n"] for c in colls], url=case["url"] or None)
    owner = {}
    for n, q in inst.items():
        fl = [f for f in q.get("fl", []) if owner.setdefault(f, n) == n and len(f) < 1000]
        D.install_record(w, dict(q, e=[{"p": f, "t": "f"} for f in fl] or [{"p": "opt/only-" + n, "t": "f"}]), q.get("auto"), files=False)
        inst[n] = dict(q, fl=fl or ["opt/only-" + n])
    catalogue = [(c["n"], q) for c in colls if c["rep"] not in ("missing", "empty") for q in c["p"]]
    best = {}
    for c, q in catalogue: best.setdefault(q["n"], (c, q))
    col = lambda c, q: q.get("c") or c
    before = w.snapshot()
    for k, a in case["q"]:
        cmd, _, opt = k.partition("-")
        args = [cmd] + (["-" + opt] if opt else []) + ([a] if a else [])
        if cmd in ("search", "query", "files", "info") and not a: continue
        txt = "cards " + " ".join(args)
        # in a tree of ports, where the port has the name of the package
        os.makedirs(w.p("t/ports", a if cmd in ("files", "info") and "/" not in a else "x"), exist_ok=True)
        r = w.cards(*args, env={"LC_ALL": "C"}, cwd="/t/ports")
        if r.rc == 255 or r.crashed() or r.timeout: ctx.fail("%s ends with status %d (timeout %s): %s" % (txt, r.rc, r.timeout, r.text[-400:]))
        out = r.out.decode("utf-8", "replace") if isinstance(r.out, bytes) else r.out
        lines = out.split("\n")
        if lines and lines[-1] == "": lines.pop()
        ctx.tag(k)

        def same(got, want):
            if got != want:
                extra = [x for x in got if x not in want]
                miss = [x for x in want if x not in got]
                ctx.fail("%s prints %s, expected %s; too much: %s, missing: %s" % (txt, [x[:120] for x in got][:12], [x[:120] for x in want][:12], [x[:120] for x in extra][:4], [x[:120] for x in miss][:4]))
            if want: ctx.nontrivial = True

        if r.rc != 0 and not (k == "files" and a not in inst): ctx.fail("%s fails (status %d): %s" % (txt, r.rc, r.text[-400:]))
        if k == "list-b": same(lines, ["(%s) %s %s-%d" % (col(c, q), q["n"], q["v"], q["r"]) for c, q in catalogue])
        elif k == "list-S": same(lines, sorted({s for _, q in catalogue for s in q.get("s", [])}))
        elif cmd == "search":
            want, green = [], []
            for c, q in catalogue:
                if opt: hit = low(a) in low(q["n"])
                else: hit = not q.get("nls") and any(low(a) in low(x) for x in [col(c, q), q["n"], q.get("D", ""), q.get("U", ""), q.get("P", ""), q["v"]] + q.get("s", []) + q.get("T", []))
                if hit:
                    want.append("(%s) %s %s %s" % (col(c, q), q["n"], q["v"], q.get("D", "")))
                    green.append(q["n"] in inst)
            same([unansi(x) for x in lines], want)
            got = ["\x1b[1;32m" in x for x in lines]
            if got != green: ctx.fail("%s marks as installed %s, expected %s" % (txt, [unansi(x) for x, y in zip(lines, got) if y], [x for x, y in zip(want, green) if y]))
        elif k == "query-b":
            want = [[c["n"], D.fname(q), "/" + f] for c in colls if c["fil"] not in ("missing", "empty") for q in c["p"] for f in q.get("fl", []) if re.search(a, "/" + f)]
            if not want: same([x for x in lines if "/" in x], [])
            else: same([x.split(None, 2) for x in lines[1:]], want)
        elif k == "files-b":
            want = next((q.get("fl", []) for c in colls if c["fil"] not in ("missing", "empty") for q in c["p"] if q["n"] == a), [])
            same(lines, want)
        elif k == "info-S":
            s = sorted(n for n, (c, q) in best.items() if a in q.get("s", []) and not q.get("g"))
            if not s: s = sorted(n for n, (c, q) in best.items() if a == col(c, q) and not q.get("g") and not q.get("nls"))
            same(lines, ["(%s) %s" % (a, n) for n in s])
        elif k == "info-b":
            if a not in best:
                same(lines, [])
                continue
            c, q = best[a]
            got = {}
            for x in lines:
                l, _, v = x.partition(":")
                got.setdefault(l.strip(), []).append(v.strip())
            want = {"Name": a, "Description": q.get("D", ""), "Archive name": D.fname(q), "Collection": col(c, q), "URL": q.get("U", ""), "License": q.get("L", ""), "Version": q["v"], "Release": str(q["r"]),
                    "Hashsum": q.get("H", ""), "Signature": "", "Archive Size": D.human(q.get("Z", 77)).strip() + "bytes", "Installed Size": D.human(q.get("S", 4096)).strip() + "bytes", "Maintainer(s)": q.get("M", ""), "Packager": q.get("P", ""), "Contributor(s)": q.get("C", ""), "Arch": q.get("a", D.ARCH), "Local folder": "/%s/%s" % (D.DEPOT, c)}
            if q.get("g"): want["Group"] = q["g"]
            for l, key in (("Alias", "A"), ("Sets", "s"), ("Categories", "T")):
                if q.get(key): want[l] = " ".join(sorted(q[key]))
                elif l in got: ctx.fail("%s prints %s %s although there are none" % (txt, l, got[l]))
            if q.get("R"): want["Dependencies"] = " ".join(sorted({d for d, t in q["R"]}))
            elif "Dependencies" in got: ctx.fail("%s prints dependencies %s although there are none" % (txt, got["Dependencies"]))
            for l, v in want.items():
                if got.get(l) != [v]: ctx.fail("%s prints %s %s, expected %r" % (txt, l, got.get(l), v))
            ctx.nontrivial = True
        elif k == "list": same(lines, ["(%s) %s %s-%d" % (q.get("c", ""), n, q["v"], q["r"]) for n, q in sorted(inst.items()) if not q.get("auto")])
        elif k == "files":
            if (r.rc == 0) != (a in inst): ctx.fail("%s ends with status %d, installed are %s" % (txt, r.rc, sorted(inst)))
            if a in inst: same(lines, sorted(inst[a]["fl"], key=lambda s: s.encode()))
        elif k == "query":
            want = [" ".join([q.get("c", ""), n, f]).strip() for n, q in sorted(inst.items()) for f in q["fl"] if re.search(a, "/" + f)]
            if want: same(sorted(" ".join(x.split()) for x in lines[1:]), sorted(want))
            else: same([x for x in lines if "/" in x], [])
    d = W.diff_snap(W.strip_ino(before), W.strip_ino(w.snapshot()))
    if d: ctx.fail("queries change the system: %s" % d)
