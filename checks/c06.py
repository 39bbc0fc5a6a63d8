import pkggen as G, pkgmodel as M, world as W
import os
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing over generated rule lists; corrupted rule files must be refused without effect"
NOTE = "Exploration: rules are evaluated by the model with Python regular expressions restricted to the common ERE subset; trusts the model."
EXAMPLES = {"quick": 900, "thorough": 15000}
RULE = ("Half the cases: histories of installs and upgrades under up to eight INSTALL/UPGRADE rules (other events mixed in), compared with the "
        "model. Other half: a rule file with one corrupted line, for which pkgadd must refuse and change nothing. Non-trivial: a "
        "rule suppressed or kept at least one file, or a corrupted line was refused.")
NAMES = ["aa", "bb"]

# corruptions of one line; all of them are neither blank nor comment nor "event pattern YES|NO"
BAD = ["INSTALL", "INSTALL ^etc", "UPGRADE ^etc/.*$", "INSTALL ^etc NO extra", "install ^etc NO", "INSTALLS ^etc NO", "INSTAL ^etc NO",
       "UPGRADE ^etc no", "UPGRADE ^etc NOT", "UPGRADE ^etc YESS", "UPGRADE ^etc MAYBE", "^etc NO", "NO", "FOO ^etc YES", "LDCONF ^usr/lib/$",
       "LDCONF ^usr/lib/$ yes", "LDCONF ^usr/lib/$ 1", "INSTALL ^(etc NO", "INSTALL ^etc[ NO", "INSTALL ^etc" + "x" * 1100 + " NO",
       "INSTALL NO ^etc", "UPGRADE ^etc/.*$ NO # comment", "x"]
GOODEVENTS = ("UPGRADE", "INSTALL", "INSTALL", "UPGRADE", "LDCONF", "INFO", "MIME_DB")


def gen(g, tier):
    g.nodes = 0.8 if g.chance(0.1) else 0.03
    pk = lambda: G.package(g, names=NAMES, owners=False, max_files=6)
    root = g.choice(["", "r"])
    if g.chance(0.25):
        return {"pkg": pk(), "pre": G.rules(g, GOODEVENTS, hi=3), "bad": g.choice(BAD), "post": G.rules(g, ("LDCONF", "UPGRADE"), hi=2),
                "root": root, "up": g.chance(0.5), "eol": g.chance(0.5), "inst": pk()}
    op = lambda: g.pick((6, lambda: G.add_op(g, ("auto",), 0.8, names=NAMES, owners=False, max_files=6)), (0.7, lambda: G.rm_op(g)), (1.2, lambda: G.user_op(g)))
    return {"ops": G.history(g, op, 1, 6 if tier == "quick" else 10), "rules": G.rules(g, GOODEVENTS, 1, 8), "root": root}


def want(r, op, cls, ok, devs):
    return op["op"] == "add"


def run_case(ctx, case):
    if "bad" not in case:
        def also(r, i, op, cls, ok, res):
            if cls & {"install-rule", "kept"}:
                ctx.nontrivial = True
        M.run_history(ctx, case, want, also)
        return
    # a root with one or two packages, then a rule file with a bad line
    r = M.Runner(ctx, {"ops": [], "root": case["root"]})
    first = [dict(case["inst"], n="bb")]
    if case["up"]:
        first = [dict(case["inst"], n=case["pkg"]["n"])]
    for i, p in enumerate(first):
        cls, ok, res = r.step(i, {"op": "add", "pkg": p, "mode": "n", "f": True})
        if r.devs(ok, res):
            ctx.tag("other-property-deviation")
            return
    lines = ["%s %s %s" % tuple(x) for x in case["pre"]] + [case["bad"]] + ["%s %s %s" % tuple(x) for x in case["post"]]
    text = "\n".join(lines) + ("\n" if case["eol"] else "")
    r.w.write(os.path.join(r.rel, M.CONF), text)
    before = r.fs_now()
    f = r.pkgfile(9, M.plain_links(dict(case["pkg"]), True))
    res = r.w.pkgadd(*r.rargs, *(["-u"] if case["up"] else []), "-f", f)
    bad = []
    if res.crashed():
        bad.append("ended abnormally (status %d)" % res.rc)
    elif res.rc == 0:
        bad.append("accepted the line %r" % case["bad"][:60])
    bad += W.diff_snap(before, r.fs_now())
    ctx.tag("bad-line")
    ctx.nontrivial = True
    if bad:
        ctx.fail("pkgadd.conf %r: %s\n  tool said: %s" % (text[:300], "; ".join(bad), res.text[-300:]))
