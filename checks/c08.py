import os
import pkggen as G, pkgmodel as M, world as W
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing with -r in many spellings, decoy files and databases everywhere outside the root"
NOTE = "Exploration: everything outside the root is snapshotted before and after every command; the inside is compared with the reference model."
EXAMPLES = {"quick": 500, "thorough": 10000}
RULE = ("Histories of pkgadd, pkgrm and pkginfo with -r ROOT (absolute, relative, doubled and trailing slashes, through a symbolic link, from several "
        "current directories); the default root and the current directory hold decoy databases, rules, metadata and files with the same "
        "names. Non-trivial: a package was installed, upgraded or removed below ROOT.")
NAMES = ["aa", "bb", "libcc"]
# (real root, cwd, spelling)
PLACES = [("r", "/", "/r"), ("r", "/", "/r/"), ("r", "/", "//r//"), ("r", "/", "r"), ("r", "/", "./r"), ("r", "/", "r/"), ("r", "/w/sub", "../../r"),
          ("r", "/w/sub", "/r"), ("w/r", "/w", "r"), ("w/r", "/w", "./r/"), ("w/r", "/w/sub", "../r"), ("w/r", "/w/r", "/w/r"), ("w/r", "/w/r", "."), ("w/r", "/w/r/var/lib", "../.."),
          ("w/a b", "/w", "/w/a b"), ("w/r", "/", "/lnk"), ("w/r", "/", "lnk/"), ("w/r", "/w", "/w/./r"), ("w/r", "/w/sub", "/w/sub/../r")]


def gen(g, tier):
    def op():
        return g.pick((5, lambda: dict(G.add_op(g, ("auto",), 0.8, names=NAMES, owners=False, max_files=4), i=g.chance(0.2))), (2, lambda: G.rm_op(g, NAMES)),
                      (1, lambda: G.user_op(g)), (1, lambda: {"op": "info", "q": g.choice(["i", "n", "l"]), "n": g.choice(NAMES)}))
    return {"ops": G.history(g, op, 1, 6 if tier == "quick" else 10), "rules": G.rules(g, hi=2) if g.chance(0.4) else [], "place": g.randrange(len(PLACES)),
            "tail": g.chance(0.3), "meta": g.chance(0.5)}


def decoys(r, place, meta):
    w = r.w
    for d in ("", "w/", "w/sub/"):
        if (d.rstrip("/") or "/") == place[0]:
            continue
        for f in G.FILES[:9]:
            w.write(d + f, "outside\n", 0o644, mtime=1400000000)
        for n in NAMES:
            w.write(d + M.DBDIR + "/%s/META" % n, "N%s\nV9\nr9\nB1\nS1\ncbase\nax\n" % n)
            w.write(d + M.DBDIR + "/%s/files" % n, "etc/f1\netc/d1/f1\nopt/tool\n")
        w.write(d + M.CONF, "INSTALL .* NO\nUPGRADE .* NO\n")
        w.write(d + "var/lib/pkg/rejected/etc/f1", "old\n")
        if meta:
            for m in (".META", ".MTREE", ".PRE", ".POST", ".PRER", ".POSTR", ".INFO", ".README"):
                w.write(d + m, "outside\n")
    w.symlink("lnk", "/w/r")


def run_case(ctx, case):
    place = PLACES[case["place"] % len(PLACES)]
    real, cwd, spell = place
    r = M.Runner(ctx, {"ops": [], "root": real, "rules": case["rules"]})
    w = r.w
    for d in ("w/sub", "w/r"):
        w.mkdir(d)
    decoys(r, place, case["meta"])
    r.rargs = ["-r", spell]

    def outside():
        s = w.snapshot()
        return {k: v for k, v in s.items() if not (k == real or k.startswith(real + "/") or k.split("/")[0] == "pkgs")}
    before = outside()
    ctx.tag("spell:" + spell)
    for i, op in enumerate(case["ops"]):
        if op["op"] == "info":
            a = {"i": ["-i"], "n": ["-n"], "l": ["-l", op["n"]]}[op["q"]]
            res = w.pkginfo(*(a + r.rargs if case["tail"] else r.rargs + a), cwd=cwd)
            db = {n: x for n, x in r.m.db.items()}
            bad = []
            if op["q"] == "n" and res.out.strip() != b"%d" % len(db):
                bad.append("counts %r packages, there are %d" % (res.out[:40], len(db)))
            if op["q"] == "i" and sorted((l.split() + [""] * 3)[2] for l in res.out.decode().splitlines()) != sorted(db):
                bad.append("lists %r, installed are %s" % (res.out[:200], sorted(db)))
            if op["q"] == "l":
                if (res.rc == 0) != (op["n"] in db):
                    bad.append("status %d for %s" % (res.rc, op["n"]))
                elif res.rc == 0 and set(res.out.decode("utf-8", "surrogateescape").splitlines()) != db[op["n"]]["files"]:
                    bad.append("lists %r, recorded %s" % (res.out[:200], sorted(db[op["n"]]["files"])))
            bad += W.diff_snap(before, outside())
            bad += [t for _, _, t in r.compare()]
            if bad:
                ctx.fail("step %d pkginfo %s from %s: %s\n  tool said: %s" % (i, res.argv[1:], cwd, "; ".join(bad[:5]), res.text.strip()[-300:]))
            continue
        op = dict(op, cwd=cwd, tail=case["tail"])
        st = r.step(i, op)
        if st is None:
            if outside() != before:
                before = outside()
            continue
        cls, ok, res = st
        ctx.tag(*cls)
        if cls & {"install", "upgrade", "remove"}:
            ctx.nontrivial = True
        out = W.diff_snap(before, outside())
        dv = r.devs(ok, res)
        if out or dv:
            ctx.fail("-r %s from %s: outside: %s; inside: %s" % (spell, cwd, "; ".join(out) or "unchanged", r.explain(i, op, cls, res, dv)))
