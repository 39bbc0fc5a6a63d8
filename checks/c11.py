import pkggen as G, pkgmodel as M, world as W
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated packages against an independent description of their entries and metadata"
NOTE = "Exploration: each answer of pkginfo about a generated package file is compared with what the package was generated from."
EXAMPLES = {"quick": 550, "thorough": 15000}
RULE = ("Packages with files, directories, symbolic and hard links, devices and pipes, every permission bit, numeric and named owners, empty files, names up to 150 bytes, "
        "in the GNU, pax and ustar formats, with each compression and up to 200 kB of metadata. Each is asked with -f, -l, -m, -a. Non-trivial: the package has an entry "
        "other than plain files with ordinary permissions, or more than one metadata line of a kind.")
USERS = {0: "root", 5: "games", 99: "nobody"}
GROUPS = {0: "root", 7: "lp", 42: "shadow"}


def gen(g, tier):
    p = G.package(g, max_files=8, kinds="fffffllhhcbp")
    for e in p["e"]:
        if e["t"] != "l" and g.chance(0.35):
            e["m"] = g.randrange(0o10000)
        if g.chance(0.3):
            e["uid"], e["gid"] = g.choice([0, 5, 99, 1000, 65534, 70000]), g.choice([0, 7, 42, 1000, 12345])
        if e["t"] in "cb":
            e["dev"] = [g.choice([0, 1, 8, 250]), g.choice([0, 3, 255, 256, 70000])]
            e.pop("c", None)
    if g.chance(0.2) and p.get("F") != "ustar":
        p["e"].append({"p": "zz/" + "n" * g.choice([50, 98, 120, 147]), "t": "f", "c": "long\n"})
    if g.chance(0.1):
        p["mtree"] = ["f%05d" % i for i in range(g.choice([700, 20000]))]
    x = ["R" + n + str(g.choice([1600000000, 1500000001])) for n in g.sub(["libcc", "bb", "glibc", "x"], 0, 4)]
    x += [k + g.choice(["v", "some words: here", "été", "1"]) for k in "gnAsTlo" if g.chance(0.3)]
    if x: p["x"] = x
    p["D"] = g.choice(["some package", "x", "many  spaces ", "tab\there"])
    s = {k: g.choice(["", "exit 0\n", "echo x"]) for k in ("PRE", "POST", "PRER", "POSTR") if g.chance(0.2)}
    if s: p["s"] = s
    return {"p": p, "pw": g.chance(0.5), "root": g.chance(0.2)}


def mtos(t, m):
    s = t
    for sh, special, a in ((6, 0o4000, "s"), (3, 0o2000, "s"), (0, 0o1000, "t")):
        b = m >> sh & 7
        s += ("r" if b & 4 else "-") + ("w" if b & 2 else "-")
        s += (a if b & 1 else a.upper()) if m & special else ("x" if b & 1 else "-")
    return s


def footprint(pkg, named):
    hidden = [{"p": ".META", "t": "f", "c": "x"}, {"p": ".MTREE", "t": "f", "c": "x"}]
    hidden += [{"p": "." + k, "t": "f", "c": pkg["s"][k]} for k in ("PRE", "POST", "PRER", "POSTR") if (pkg.get("s") or {}).get(k) is not None]
    byp = {e["p"]: e for e in pkg["e"]}
    out = []
    for e in hidden + pkg["e"]:
        t = e["t"]
        src = byp[e["to"]] if t == "h" else e
        m = src.get("m", 0o755 if t == "d" else 0o644)
        perm = "lrwxrwxrwx" if t == "l" else mtos({"d": "d", "c": "c", "b": "b", "p": "p"}.get(t, "-"), m)
        u, gr = e.get("uid", 0), e.get("gid", 0)
        own = "%s/%s" % (USERS.get(u, u) if named else u, GROUPS.get(gr, gr) if named else gr)
        l = "%s\t%s\t%s" % (perm, own, e["p"] + ("/" if t == "d" else ""))
        if t == "l": l += " -> " + e["to"]
        elif t in "cb": l += " (%d, %d)" % tuple(e.get("dev") or [0, 0])
        elif t == "h" or (t == "f" and not W.content(e.get("c", ""))): l += " (EMPTY)"
        out.append((l, t))
    return out


def run_case(ctx, case):
    w, p = ctx.w, case["p"]
    w.reset()
    if case["pw"]:
        w.write("etc/passwd", "".join("%s:x:%d:0::/:/bin/sh\n" % (n, u) for u, n in USERS.items()))
        w.write("etc/group", "".join("%s:x:%d:\n" % (n, u) for u, n in GROUPS.items()))
        w.write("etc/nsswitch.conf", "passwd: files\ngroup: files\n")
    w.mkdir(M.DBDIR)
    w.mkdir("pkgs")
    ctx.nontrivial = any(e["t"] != "f" or "m" in e or "uid" in e for e in p["e"]) or bool(p.get("x"))
    ctx.tag("fmt-" + p.get("F", "gnu"), "comp-" + p.get("z", "none"), *("t-" + e["t"] for e in p["e"]))
    w.write("pkgs/p.tar", M.build_pkg(p))
    f = "/pkgs/p.tar"
    meta = M.meta_lines(p)
    ra = ["-r", "/pkgs"] if case["root"] else []
    if ra: w.mkdir("pkgs/" + M.DBDIR)
    bad = []

    def ask(*a):
        r = w.pkginfo(*(list(a) + ra))
        if r.rc:
            bad.append("%s: status %d (%s)" % (a[0], r.rc, r.text[-200:]))
        return r.out.decode("utf-8", "surrogateescape").split("\n")[:-1]
    before = w.snapshot()
    got = ask("-f", f)
    exp = footprint(p, case["pw"])
    if len(got) != len(exp):
        bad.append("-f prints %d lines for %d entries" % (len(got), len(exp)))
    for g_, (e, t) in zip(got, exp):
        # a hard link carries no data of its own; both ways of writing it down are right
        if g_ != e and not (t == "h" and g_ + " (EMPTY)" == e):
            bad.append("-f prints %r, expected %r" % (g_, e))
    got = ask("-l", f)
    mt = p.get("mtree") or M.listed(p)
    if sorted(got) != sorted(mt):
        bad.append("-l prints %r, the package lists %r" % (got[:10], mt[:10]))
    got = ask("-m", f)
    if got != meta:
        bad.append("-m prints %r, metadata is %r" % ([x for x in got if x not in meta][:4], [x for x in meta if x not in got][:4]))
    got = {}
    for l in ask("-a", f):
        n, _, v = l.partition(" : ")
        if n != p["n"]: bad.append("-a line %r does not name %r" % (l, p["n"]))
        k, _, v = v.partition(":")
        got[k.strip()] = v[1:]
    one = lambda k: next((l[1:] for l in meta if l[0] == k), "")
    deps = sorted(set([l[1:] for l in meta if l[0] == "R"] + [p["n"] + one("B")]))
    exp = {"Description": one("D"), "Group": one("g"), "URL": one("U"), "License": one("L"), "Contributor(s)": one("C"), "Packager": one("P"),
           "Version": one("V"), "Release": one("r"), "Architecture": one("a"), "Build date": one("B"), "Dependencies": " ".join(deps)}
    if "Dependencies" in got: got["Dependencies"] = " ".join(sorted(got["Dependencies"].split()))
    bad += ["-a: %s is %r, expected %r" % (k, got.get(k), exp.get(k)) for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)]
    bad += W.diff_snap(before, w.snapshot())
    if bad:
        ctx.fail("%s package %s: %s" % (p.get("F", "gnu"), p["n"], "; ".join(bad[:6])))
