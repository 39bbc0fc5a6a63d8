import gzip, io, os
import pkggen as G, pkgmodel as M, world as W
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated states, generated refused commands, before/after comparison of the whole root"
NOTE = "Exploration: a state is built with a random history, then commands that must be refused are run and the whole root and database compared before and after."
EXAMPLES = {"quick": 650, "thorough": 10000}
RULE = ("Random history of installs (some packages with aliases and failing remove scripts), then one to three commands that must be refused "
        "(already installed, not installed, alias, unreadable or metadata-less package, wrong architecture, failing pre-install or pre-remove "
        "script, wrong options, ordinary user). Non-trivial: refused with at least one package installed.")
NAMES = ["aa", "bb", "libcc"]
ADDERS = ["installed", "notinstalled", "arch", "pre", "user", "opts", "missing", "garbage", "empty", "dir", "nometa", "nomtree", "noname",
          "alias", "twopkgs", "noroot", "gztrunc", "conflict", "conflict"]
RMERS = ["rm-notinstalled", "rm-alias", "rm-prer", "rm-opts", "rm-user", "rm-noroot", "rm-two"]


def gen(g, tier):
    ops = []
    for n in g.sub(NAMES, 0, 3) + ([g.choice(NAMES)] if g.chance(0.3) else []):
        p = G.package(g, name=n, owners=False, max_files=4)
        if g.chance(0.4):
            p.setdefault("x", []).append("Aali-" + n)
        if g.chance(0.5):
            p["s"] = {"PRER": "exit %d\n" % g.choice([1, 2, 127]), "POSTR": "exit 0\n"}
        ops.append({"op": "add", "pkg": p, "mode": "auto", "f": True})
        if g.chance(0.2):
            ops.append(G.user_op(g))
    tries = []
    for _ in range(g.randint(1, 3)):
        k = g.choice(ADDERS + ADDERS + RMERS)
        t = {"k": k, "f": g.chance(0.5), "u": g.chance(0.5), "i": g.chance(0.3), "v": g.randrange(6)}
        if not k.startswith("rm-"):
            t["pkg"] = G.package(g, names=NAMES, owners=False, max_files=4)
        t["n"] = g.choice(NAMES)
        tries.append(t)
    return {"ops": ops, "tries": tries, "root": g.choice(["", "", "r"])}


def attempt(ctx, r, i, t):
    """-> Res of a command that must be refused, or None if it does not apply in this state."""
    w, k = r.w, t["k"]
    inst = sorted(r.m.db)
    flags = (["-f"] if t["f"] else []) + (["-i"] if t["i"] else [])
    if k.startswith("rm-"):
        if k == "rm-notinstalled":
            n = t["n"] + "x" if t["n"] in r.m.db else t["n"]
            return w.pkgrm(*r.rargs, n)
        if not inst:
            return None
        n = t["n"] if t["n"] in inst else inst[0]
        if k == "rm-alias":
            al = [a for a, b in r.m.aliases().items() if a != b]
            return w.pkgrm(*r.rargs, al[0]) if al else None
        if k == "rm-prer":
            c = [x for x in inst if "PRER" in r.m.db[x]["scripts"]]
            # pkgrm runs it with the root's own shell
            if not c:
                return None
            return w.pkgrm(*r.rargs, c[0])
        if k == "rm-opts":
            return w.pkgrm(*r.rargs, *[["-x", n], ["--nosuch", n], [n, "-q"], [n, "--force"], ["-r"], [n, "-r"]][t["v"]])
        if k == "rm-two":
            return w.pkgrm(*r.rargs, n, "zz")
        if k == "rm-user":
            return w.pkgrm(*r.rargs, n, uid=5)
        if k == "rm-noroot":
            return w.pkgrm("-r", "/nosuchroot", n)
    pkg = M.plain_links(dict(t["pkg"]), True)
    name = pkg["n"]
    known = r.m.aliases()
    up = ["-u"] if name in known else []
    scripts = {"PRE": "exit %d\n" % (1 + t["v"])} if k == "pre" else None
    if k == "installed":
        if name not in known: return None
        up = []
    if k == "notinstalled":
        if name in known: return None
        up = ["-u"]
    if k == "arch":
        if r.rel: return None
        pkg["a"] = ["armv7l", "i686x", "x86_6", "x86_64x", "none", "Any"][t["v"]]
        if pkg["a"] == M.MACHINE: return None
    if k == "alias":
        al = [a for a, b in known.items() if a != b]
        if not al: return None
        pkg["n"] = al[0]
        up = []
    if k == "conflict":
        if "-f" in flags: flags.remove("-f")
        pkg["e"] = pkg["e"] + [{"p": "user-file", "t": "f", "c": "of the package"}]
    if k == "pre":
        if t["i"]: flags.remove("-i")
        pkg["s"] = scripts
    f = r.pkgfile(50 + i, pkg)
    raw = open(w.p(f.lstrip("/")), "rb").read()
    if k == "missing":
        os.unlink(w.p(f.lstrip("/")))
    elif k == "garbage":
        w.write(f, [b"x" * 5000, b"not a package\n", bytes(range(256)) * 8, b"\0" * 10240, b"\x1f\x8b" + b"\0" * 100, b"<html>404</html>"][t["v"]])
    elif k == "empty":
        w.write(f, b"")
    elif k == "dir":
        f = "/pkgs"
    elif k == "gztrunc":
        # an archive cut before the file list and the metadata are complete
        w.write(f, gzip.compress(W.make_pkg(M.meta_lines(pkg), pkg["e"]))[:20 + t["v"] * 7])
    elif k in ("nometa", "nomtree"):
        pkg["omit"] = [k[2:].upper()]
        f = r.pkgfile(50 + i, pkg)
    elif k == "noname":
        w.write(f, W.make_pkg([l for l in M.meta_lines(pkg) if l[0] != "N"], pkg["e"]))
    args = flags + up + [f]
    if k == "opts":
        args = [["-x", f], ["--nosuch", f], [f, "-q"], ["-r"], ["--forced", f], []][t["v"]]
    if k == "twopkgs":
        args = args + [f]
    if k == "user":
        return w.pkgadd(*r.rargs, *args, uid=5)
    if k == "noroot":
        return w.pkgadd("-r", "/nosuchroot", *args)
    return w.pkgadd(*r.rargs, *args)


def run_case(ctx, case):
    r = M.Runner(ctx, {"ops": [], "root": case["root"]})
    if r.rel:
        for d in ("usr/bin",):
            r.w.mkdir(r.real(d))
        os.link(r.w.p("usr/bin/sh"), r.w.p(r.real("usr/bin/sh")))
        r.m.fs["usr"] = {"t": "d", "m": 0o755}; r.m.fs["usr/bin"] = {"t": "d", "m": 0o755}; r.m.fs["usr/bin/sh"] = {"t": "f", "m": None}
    for i, op in enumerate(case["ops"]):
        st = r.step(i, op)
        if st and r.devs(st[1], st[2]):
            ctx.tag("other-property-deviation")
            return
    r.w.write(r.real("user-file"), "of the user")
    before, db = r.fs_now(), r.w.read_db(r.rel)
    for i, t in enumerate(case["tries"]):
        res = attempt(ctx, r, i, t)
        if res is None:
            continue
        ctx.tag(t["k"])
        if db:
            ctx.nontrivial = True
        bad = []
        if res.crashed() or res.timeout:
            bad.append("ended abnormally (status %d)" % res.rc)
        elif res.rc == 0:
            bad.append("exit status 0")
        bad += W.diff_snap(before, r.fs_now())
        if bad:
            ctx.fail("refused command (%s, args %s): %s\n  tool said: %s" % (t["k"], list(res.argv), "; ".join(bad), res.text.strip()[-400:]))
