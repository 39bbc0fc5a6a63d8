import os, re
import pkggen as G, pkgmodel as M, world as W
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing with logging package scripts and logging system commands"
NOTE = ("Exploration: scripts and post-install commands append what they see to a log that is compared with the expected sequence. What a "
        "conflict-refused install does with the pre-install script is left open.")
EXAMPLES = {"quick": 600, "thorough": 10000}
RULE = ("Histories of installs, upgrades and removals of packages with random subsets of the four scripts (succeeding or failing) under event rules "
        "with any of the system commands present; each script logs which files of the package exist when it runs, each command its arguments. "
        "Non-trivial: at least one script or command was expected to run and at least one expected not to.")
NAMES = ["aa", "bb"]
SFILES = ["etc/f1", "etc/d1/f1", "opt/tool", "usr/lib/liba.so", "usr/lib/b.txt", "usr/share/info/aa.info", "usr/share/info/x/bb.info",
          "usr/share/mime/m.xml", "usr/share/fonts/ttf/a.ttf", "usr/share/applications/a.desktop", "usr/lib/gio/modules/m.so"]
SDIRS = ["usr/lib", "usr/share/mime", "usr/share/fonts/ttf", "usr/share/icons/hicolor", "usr/share/applications", "etc/d1"]
TPAT = ["^usr/lib/$", "^usr/lib/.*so$", "^usr/share/info/.*info$", "^usr/share/mime/$", "^usr/share/fonts/[^/]*/$", "^usr/share/icons/[^/]*/$",
        "^usr/share/applications/$", "^usr/lib/gio/modules/.*.so", "f1$", "^etc/", "/$"]
# event -> (commands, how the file is passed)
EVENTS = {"LDCONF": [("ldconfig", None)], "INFO": [("install-info", "last")], "ICONS": [("gtk-update-icon-cache", "last")],
          "FONTS": [("mkfontscale", "last"), ("mkfontdir", "last"), ("fc-cache", "last")], "SCHEMAS": [("glib-compile-schemas", "last")],
          "DESKTOP_DB": [("update-desktop-database", "last")], "MIME_DB": [("update-mime-database", "last")],
          "QUERY_PIXBUF": [("gdk-pixbuf-query-loaders", None)], "GIO_QUERY": [("gio-querymodules", None)],
          "QUERY_IMOD3": [("gtk-query-immodules-3.0", None)], "QUERY_IMOD2": [("gtk-query-immodules-2.0", None)]}
CMDS = sorted(c for v in EVENTS.values() for c, _ in v)
LOG = "log"


def gen(g, tier):
    def pk(g, **kw):
        p = G.package(g, names=NAMES, owners=False, files=SFILES, dirs=SDIRS, kinds="fffffl", max_files=4)
        p["sc"] = {}
        for s in ("PRE", "POST", "PRER", "POSTR"):
            if g.chance(0.4):
                p["sc"][s] = g.choice([0, 0, 0, 1, 3]) if s in ("PRE", "PRER") else g.choice([0, 0, 1, 5])
        return p
    op = lambda: g.pick((5, lambda: dict(G.add_op(g, ("auto", "auto", "auto", "n"), 0.7, pk=pk), i=g.chance(0.15))), (2, lambda: G.rm_op(g, NAMES)),
                        (0.5, lambda: {"op": "write", "p": g.choice(SFILES), "c": "user"}))
    rl = []
    for _ in range(g.randint(0, 6)):
        rl.append([g.choice(sorted(EVENTS)), g.choice(TPAT), "NO" if g.chance(0.25) else "YES"])
    for _ in range(g.choice([0, 0, 1, 2])):
        rl.insert(g.randint(0, len(rl)), [g.choice(["INSTALL", "UPGRADE"]), g.choice(TPAT), "NO"])
    return {"ops": G.history(g, op, 1, 5 if tier == "quick" else 8), "rules": rl, "root": g.choice(["", "r"]), "cmds": g.sub(CMDS, len(CMDS) // 2, len(CMDS)),
            "ldso": g.chance(0.8)}


def script(root, kind, pkg):
    fs = [e["p"] for e in pkg["e"] if e["t"] != "d"]
    return ("{ printf 'S|%s|%s|%s|'; for f in %s; do if [ -e \"%s$f\" ] || [ -L \"%s$f\" ]; then printf '%%s,' \"$f\"; fi; done; echo; } >> /%s; exit %d\n"
            % (kind, pkg["n"], pkg["v"] + "-%d" % pkg["r"], " ".join("'%s'" % f for f in fs), root, root, LOG, pkg["sc"][kind]))


def trigger_expect(rules, installed, cmds, ldso):
    exp = {}
    for f in sorted(installed):
        hit = None
        for ev, pat, act in rules:
            if ev in EVENTS and re.search(pat, f):
                hit = (ev, act)
        if hit and hit[1] == "YES":
            for c, how in EVENTS[hit[0]]:
                if c in cmds and (c != "ldconfig" or ldso):
                    exp.setdefault(c, set()).add(f if how else "")
    return exp


def run_case(ctx, case):
    r = M.Runner(ctx, {"ops": [], "root": case["root"], "rules": case["rules"]})
    w = r.w
    root = "/" + (r.rel + "/" if r.rel else "")
    if r.rel:
        w.mkdir(r.real("usr/bin"))
        os.link(w.p("usr/bin/sh"), w.p(r.real("usr/bin/sh")))
        for d in ("usr", "usr/bin"): r.m.fs[d] = {"t": "d", "m": 0o755, "own": (0, 0)}
        r.m.fs["usr/bin/sh"] = {"t": "f", "m": None}
    w.write(LOG, "", 0o666)
    for c in case["cmds"]:
        r.user({"op": "write", "p": "usr/bin/" + c, "m": 0o755,
                "c": "#!/usr/bin/sh\n{ printf 'C|%s|%%s|' \"$PWD\"; for a; do printf '%%s|' \"$a\"; done; echo; } >> /%s\nexit %d\n" % (c, LOG, 1 if "f" in c else 0)})
    if case["ldso"]:
        r.user({"op": "write", "p": "etc/ld.so.conf", "c": ""})
    ran = idle = 0
    for i, op in enumerate(case["ops"]):
        w.write(LOG, "", 0o666)
        pre_fail = False
        old = None
        if op["op"] == "rm":
            inst = sorted(r.m.db)
            if isinstance(op["n"], int) and not inst:
                continue
            op = dict(op, n=inst[op["n"] % len(inst)] if isinstance(op["n"], int) else op["n"])
            old = dict(r.m.db.get(op["n"]) or {}, pkg=(r.m.db.get(op["n"]) or {}).get("pkg"))
        if op["op"] == "write":
            r.user(op)
            continue
        files_before = set(r.m.fs)
        if op["op"] == "add":
            pkg = M.plain_links(op["pkg"], False)
            pkg["s"] = {k: script(root, k, pkg) for k in pkg["sc"]}
            up = op["mode"] == "auto" and pkg["n"] in r.m.db
            f = r.pkgfile(i, pkg)
            pre_fail = pkg["sc"].get("PRE", 0) != 0 and not op.get("i")
            ran_order = None
            ok, cls = r.m.add(pkg, up, bool(op.get("f")), pre_fails=pre_fail)
            if ok:
                r.m.db[pkg["n"]]["pkg"] = pkg
            res = w.pkgadd(*r.rargs, *(["-u"] if up else []), *(["-f"] if op.get("f") else []), *(["-i"] if op.get("i") else []), f)
        else:
            name = op["n"]
            rec = r.m.db.get(name)
            pkg = rec["pkg"] if rec else None
            if rec and pkg["sc"].get("PRER", 0) != 0 and "PRER" in rec["scripts"]:
                ok, cls, pre_fail = False, {"refuse-prer"}, True
            else:
                ok, cls = r.m.rm(name)
            res = w.pkgrm(*r.rargs, name)
        ctx.tag(*cls)
        # what must have run
        exp = []
        mine = [e["p"] for e in pkg["e"] if e["t"] != "d"] if pkg else []
        ver = pkg["v"] + "-%d" % pkg["r"] if pkg else ""
        line = lambda k, present: "S|%s|%s|%s|%s" % (k, pkg["n"], ver, "".join(p + "," for p in mine if p in present))
        trig = {}
        if op["op"] == "add":
            if (ok or "refuse-pre" in cls) and "PRE" in pkg["sc"] and not op.get("i"):
                exp.append(line("PRE", files_before))
            if ok and "POST" in pkg["sc"] and not op.get("i"):
                exp.append(line("POST", set(r.m.fs)))
            if ok:
                trig = trigger_expect(case["rules"], r.m.db[pkg["n"]]["files"], case["cmds"], "etc/ld.so.conf" in r.m.fs)
        elif pkg:
            if "PRER" in pkg["sc"]:
                exp.append(line("PRER", files_before))
            if ok and "POSTR" in pkg["sc"]:
                exp.append(line("POSTR", set(r.m.fs)))
        log = open(w.p(LOG), encoding="utf-8", errors="surrogateescape").read().splitlines()
        got = [l for l in log if l.startswith("S|")]
        if "conflict" in cls and not ok:
            got = [l for l in got if not l.startswith("S|PRE|")]
        gotc = {}
        bad = []
        for l in log:
            if l.startswith("C|"):
                p = l.split("|")
                c, pwd, args = p[1], p[2], p[3:-1]
                how = dict(x for v in EVENTS.values() for x in v)[c]
                if c == "ldconfig" and (len(args) != 2 or args[0] != "-r" or os.path.normpath(args[1]) != os.path.normpath(root)):
                    bad.append("ldconfig was called with %s for root %s" % (args, root))
                if c == "ldconfig" and c in gotc: bad.append("ldconfig ran twice")
                f = args[-1] if how and args else ""
                if how:
                    full = os.path.normpath(os.path.join(pwd, f))
                    rel = os.path.relpath(full, root) + ("/" if f.endswith("/") else "")
                    f = rel
                    if f in gotc.get(c, ()):
                        bad.append("%s ran twice for %s" % (c, f))
                gotc.setdefault(c, set()).add(f)
        ran += len(exp) + len(trig)
        idle += 4 - len(exp)
        if got != exp:
            bad.append("scripts that ran %s, expected %s" % (got, exp))
        if gotc != trig:
            bad.append("commands that ran %s, expected %s" % ({k: sorted(v) for k, v in gotc.items()}, {k: sorted(v) for k, v in trig.items()}))
        dv = r.devs(ok, res)
        if any(a == "extra" and os.path.basename(p) in (".PRE", ".POST", ".PRER", ".POSTR") for a, p, _ in dv):
            bad.append("a script was left in the root")
        if (ok or pre_fail) and any(a in ("refused", "accepted", "crash") for a, _, _ in dv):
            bad += [t for _, _, t in dv]
        # the scripts are kept with the record of an installed package
        if any(a == "db" and "also holds" in t for a, _, t in dv):
            bad += [t for a, _, t in dv if a == "db"]
        if bad:
            ctx.fail("step %d %s [%s] root %s: %s\n  rules %s\n  tool said: %s" % (i, M.describe(op), ",".join(sorted(cls)), root, "; ".join(bad), case["rules"], res.text.strip()[-300:]))
        if dv:
            ctx.tag("other-property-deviation")
            break
    ctx.nontrivial = ran > 0 and idle > 0
