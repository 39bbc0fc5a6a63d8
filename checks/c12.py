import copy, os
import pkggen as G, pkgmodel as M, world as W
NEEDS = ["sbx", "trc", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "fault injection: a tracer kills the operation, or fails its system calls, at generated points of generated histories; the state is judged by a reference model"
NOTE = ("Exploration: the file-changing system calls of each operation are enumerated by a counting run, then the operation is repeated from the same state with a kill or "
        "an error at chosen (thorough: all) calls. Process death and failing calls are covered; loss of data not yet written to disk (power failure) is not.")
EXAMPLES = {"quick": 45, "thorough": 420}
RULE = ("A history of installs, removals and user edits, then one install, upgrade, forced install or removal. Its Nth file-changing system call is preceded by SIGKILL, or fails "
        "once with ENOSPC, EIO, EACCES, EROFS or EINTR, or that kind of call fails from there on, or SIGHUP, SIGINT, SIGQUIT or SIGTERM comes before it. Quick: 6 points per history, thorough: up to 40. Each evaluation is one disturbed run. "
        "Non-trivial: the disturbed call was reached, so the operation was really cut or disturbed.")
ASSUMPTIONS = ["Power failure (unsynchronised data lost) is not simulated.", "No upgrade rules are in force (a forced repetition after a kill is an install, to which they do not apply)."]
ERR = {"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EROFS": 30, "EINTR": 4}
SIGS = [("SIGHUP", 1), ("SIGINT", 2), ("SIGQUIT", 3), ("SIGTERM", 15)]
NAMES = ["aa", "bb", "libcc"]


def pack(g, **kw):
    p = G.package(g, owners=False, **kw)
    if g.chance(0.3): p["s"] = {k: "exit 0\n" for k in g.sub(["PRE", "POST", "PRER", "POSTR"], 1, 3)}
    if g.chance(0.25): p["x"] = p.get("x", []) + ["A" + p["n"] + "-alias"]
    return p


def gen(g, tier):
    g.nodes = 0        # no device nodes without the shim
    add = lambda: G.add_op(g, force=0.8, pk=pack, names=NAMES, max_files=4)
    base = [add() for _ in range(g.randint(1, 3))] + [g.pick((1, lambda: G.user_op(g)), (0.5, lambda: {"op": "auto", "n": g.choice(NAMES)})) for _ in range(g.randint(0, 2))]
    op = g.pick((5, add), (2, lambda: G.rm_op(g, NAMES)))
    n = 6 if tier == "quick" else 40
    pts = []
    for _ in range(n):
        k = g.choice("kkkkkeEss")
        pts.append([k, g.randrange(1000), g.choice([e for e in sorted(ERR) if k != "E" or e != "EINTR"]), g.randrange(1000) if g.chance(0.15) else -1])
    return {"base": base, "op": op, "pts": pts, "root": g.choice(["", "", "r"])}


def state(rec):
    if rec is None or rec.get("notdir") or rec.get("meta") is None or rec.get("files") is None: return None
    return rec


def same(rec, e):
    return (sorted(rec["meta"]) == sorted(e["meta"]) and len(rec["files"]) == len(set(rec["files"])) and set(rec["files"]) == e["files"]
            and {k: (v or b"").decode() for k, v in rec["other"].items() if k != "files.imcomplete_transaction"} == e["scripts"])


def run_case(ctx, case):
    ctx.weight = 0

    def setup():
        r = M.Runner(ctx, {"root": case["root"], "rules": []})
        for i, op in enumerate(case["base"]):
            st = r.step(i, op)
            if st and r.devs(st[1], st[2]): return None
        return r
    r = setup()
    if r is None:
        ctx.tag("other-property-deviation"); ctx.weight = 1
        return
    m0 = r.m
    names = sorted(m0.db)
    op = case["op"]
    # what the operation is, and what it leads to
    m1 = copy.deepcopy(m0)
    if op["op"] == "add":
        pkg = M.plain_links(op["pkg"], True)
        name = pkg["n"]
        up = name in m0.db
        ok, cls = m1.add(pkg, up, bool(op.get("f")))
        mk = lambda upg, f: ["/t/pkgadd"] + r.rargs + (["-u"] if upg else []) + (["-f"] if f else []) + ["/pkgs/x.tar"]
        argv = mk(up, op.get("f"))
    else:
        if not names: return
        name = names[op["n"] % len(names)] if isinstance(op["n"], int) else op["n"]
        ok, cls = m1.rm(name)
        argv = ["/t/pkgrm"] + r.rargs + [name]
    if not ok:
        ctx.tag("refused"); ctx.weight = 1
        return
    kind = "rm" if op["op"] == "rm" else "up" if up else "add"
    ctx.tag(kind, *cls)

    def prepare():
        r = setup()
        if op["op"] == "add": r.w.write("pkgs/x.tar", M.build_pkg(pkg))
        return r

    r = prepare()
    res, count, _ = r.w.trace(["-c"], *argv)
    if res.rc != 0 or count == 0:
        ctx.tag("other-property-deviation"); ctx.weight = 1
        return
    mine = (m0.db[name]["files"] if name in m0.db else set()) | (m1.db[name]["files"] if name in m1.db else set())
    mine = {M.norm(x) for x in mine}

    def judge(r, what, final):
        """The state after the disturbed operation (or, final, after its repetition)."""
        w = r.w
        bad = []
        db = w.read_db(case["root"])
        if db is None:
            return ["the database is gone"], None
        tgt = state(db.get(name))
        for n in sorted(set(db) | set(m0.db)):
            if n == name: continue
            e0, e1 = m0.db.get(n), m1.db.get(n)
            rec = state(db.get(n))
            if e0 is None:
                bad.append("there is a record %r nobody made" % n); continue
            if rec is None:
                bad.append("the record of %r is damaged: %s" % (n, db.get(n))); continue
            fs = set(rec["files"])
            if not same(dict(rec, files=sorted(fs)), dict(e0, files=fs)) or len(fs) != len(rec["files"]) or not (e1["files"] <= fs <= e0["files"]):
                bad.append("the record of %r is %s, was %s" % (n, rec, e0))
            if final and fs != e1["files"]:
                bad.append("the files of %r are %s, expected %s" % (n, sorted(fs), sorted(e1["files"])))
        if tgt is not None:
            cand = [e for e in (m0.db.get(name), m1.db.get(name)) if e is not None]
            if cand and "d1" in cand[-1]["meta"]: cand.append(dict(cand[-1], meta=set(cand[-1]["meta"]) - {"d1"}))
            if not any(same(tgt, e) for e in cand):
                bad.append("the record of %r is neither old nor new: %s" % (name, tgt))
        # files nobody had a reason to touch
        fs = r.fs_now()
        for p in sorted(m0.fs):
            if p in mine or m0.fs[p] != m1.fs.get(p) or m0.fs[p].get("m", 0) is None: continue
            a, e = fs.get(p), m0.fs[p]
            if a is None: bad.append("%s is gone" % p)
            elif any(e.get(k) is not None and a.get(k) != e[k] for k in ("t", "to", "c", "m")):
                bad.append("%s changed: %s -> %s" % (p, W._n(e), W._n(a)))
        # the database can be read, and shows what is on disk
        q = w.pkginfo(*r.rargs, "-i")
        shown = sorted(l.split(") ", 1)[1].split(" ")[0] for l in q.out.decode("utf-8", "replace").splitlines() if ") " in l)
        valid = sorted(n for n in db if state(db[n]))
        if q.rc != 0 or shown != valid:
            bad.append("pkginfo -i (status %d) shows %s, complete records are %s: %s" % (q.rc, shown, valid, q.text[-200:]))
        for n in valid:
            q = w.pkginfo(*r.rargs, "-l", n)
            if q.rc != 0 or sorted(q.out.decode("utf-8", "surrogateescape").split("\n")[:-1]) != sorted(db[n]["files"]):
                bad.append("pkginfo -l %s (status %d) says %r" % (n, q.rc, q.text[:200]))
        if final:
            if kind == "rm":
                if tgt is not None: bad.append("%r is still recorded" % name)
                if op and final == "redone":
                    for p in sorted(mine):
                        if p not in m1.fs and p in fs: bad.append("%s was not removed" % p)
            else:
                if tgt is None: bad.append("%r is not recorded" % name)
                for lp in sorted(m1.db[name]["files"]):
                    p = M.norm(lp)
                    a, e = fs.get(p), m1.fs.get(p)
                    if e is None: continue
                    if a is None: bad.append("%s is missing" % p)
                    elif any(k in e and e[k] is not None and a.get(k) != e[k] for k in (("t", "to", "c") if final == "silent" else ("t", "to", "c", "m"))):
                        bad.append("%s is %s, expected %s" % (p, W._n(a), W._n(e)))
            for p in fs if final != "silent" else ():
                if p in (".META", ".MTREE", ".PRE", ".POST", ".PRER", ".POSTR") or p.endswith(".imcomplete_transaction"):
                    bad.append("%s is left behind" % p)
        return bad, tgt

    for mode, at, errname, again in case["pts"]:
        ctx.weight += 1
        r = prepare()
        n = at % count
        sig = SIGS[at // 8 % 4]
        opt = ["-k", str(n)] if mode == "k" else ["-" + mode, "%d:%d" % (n, sig[1] if mode == "s" else ERR[errname])]
        desc = "%s of %r disturbed at call %d of %d (%s)" % (kind, name, n, count, "killed" if mode == "k" else sig[0] if mode == "s" else errname + (" from there on" if mode == "E" else ""))
        res, cnt, call = r.w.trace(opt, *argv)
        if call < 0:
            ctx.tag("not-reached"); continue
        ctx.nontrivial = True
        ctx.tag("call-%d" % call, "killed" if mode == "k" else sig[0] if mode == "s" else errname)
        bad, tgt = judge(r, desc, None)
        if mode == "s":
            # while the database is locked nothing but SIGKILL ends the operation, so it is complete; what comes afterwards may be cut off
            if res.rc not in (0, 128 + sig[1]): bad.append("it ended with status %d" % res.rc)
            bad += judge(r, desc, "silent")[0]
        elif mode != "k" and (res.crashed() or res.timeout):
            bad.append("it ended abnormally (status %d)" % res.rc)
        if mode in "eE" and res.rc == 0 and not res.err and not bad:
            # it says all went well
            f, _ = judge(r, desc, "silent")
            bad += ["success was reported without a message, but " + x for x in f]
            ctx.tag("silent")
        if bad: ctx.fail("%s: %s\n  base: %s\n  it said: %s" % (desc, "; ".join(bad[:5]), [M.describe(o) for o in case["base"]], res.text.strip()[-300:]))
        if at % 4 == 1:
            # another package comes first: nothing of the disturbed operation may become a part of it
            r.w.write("pkgs/z.tar", M.build_pkg({"n": "zother", "v": "1", "r": 1, "e": [{"p": "zother", "t": "f", "c": "z"}]}))
            res = r.w.pkgadd(*r.rargs, *(["-i"] if at % 8 == 1 else []), "/pkgs/z.tar")
            rec = (r.w.read_db(case["root"]) or {}).get("zother") or {}
            if res.rc != 0 or rec.get("files") != ["zother"] or rec.get("other"):
                ctx.fail("%s, then another package is installed: status %d, its record is %s\n  it said: %s" % (desc, res.rc, rec, res.text.strip()[-300:]))
            res = r.w.pkgrm(*r.rargs, "zother")
            bad = judge(r, desc, None)[0]
            if res.rc != 0: bad.insert(0, "status %d" % res.rc)
            if bad: ctx.fail("%s, then another package is installed and removed: %s\n  it said: %s" % (desc, "; ".join(bad[:5]), res.text.strip()[-300:]))
        # do it again
        for rnd in range(2 if again >= 0 else 1):
            if kind == "rm":
                if tgt is None: break
                redo = argv
            else:
                redo = mk(tgt is not None, True)
                if at % 3 == 0: redo[-1:] = ["-i", redo[-1]]
            if again >= 0 and rnd == 0:
                res, _, call = r.w.trace(["-k", str(again % count)], *redo)
                ctx.tag("killed-twice")
                bad, tgt = judge(r, desc, None)
                if bad: ctx.fail("%s, then killed again at call %d: %s\n  base: %s" % (desc, again % count, "; ".join(bad[:5]), [M.describe(o) for o in case["base"]]))
                if call >= 0: continue
            else:
                res = r.w.run(*redo)
            bad = judge(r, desc, "redone" if kind == "rm" else "new")[0]
            if res.rc != 0: bad.insert(0, "repeating it (%s) fails with status %d" % (" ".join(redo), res.rc))
            if bad: ctx.fail("%s, then repeated: %s\n  base: %s\n  it said: %s" % (desc, "; ".join(bad[:5]), [M.describe(o) for o in case["base"]], res.text.strip()[-300:]))
            break
