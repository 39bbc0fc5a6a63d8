import copy, fcntl, os
import pkggen as G, pkgmodel as M, world as W
NEEDS = ["sbx", "trc", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "schedule exploration: a tracer stops one operation at a generated system call while other operations run; outcomes are judged by a reference model and against serial execution"
NOTE = ("Exploration: the first operation is stopped at chosen file-changing or locking system calls, other operations run to completion meanwhile, then the first is released or killed. "
        "Preemption happens at those calls only.")
EXAMPLES = {"quick": 45, "thorough": 900}
RULE = ("A history, then an operation stopped at up to 4 (thorough: 12) of its file-changing or locking calls, at each of which up to three others run (install, upgrade, removal, queries, on the same root or another), "
        "then released or killed. Also queries stopped while holding the database. Non-trivial: another operation ran while the first was stopped.")
ASSUMPTIONS = ["Post-install scripts and commands run after the database is released, as they may call the tools themselves; nothing is required of them."]
NAMES = ["aa", "bb", "libcc"]


def gen(g, tier):
    g.nodes = 0        # no device nodes without the shim
    add = lambda: G.add_op(g, force=0.9, names=NAMES, max_files=3, owners=False)
    base = [add() for _ in range(g.randint(1, 3))]
    op = g.pick((5, add), (3, lambda: G.rm_op(g, NAMES)), (2, lambda: {"op": "info", "q": g.choice("ilno"), "n": g.randrange(4)}))
    other = lambda: g.pick((3, add), (2, lambda: G.rm_op(g, NAMES)), (3, lambda: {"op": "info", "q": g.choice("ilnod"), "n": g.randrange(4)}))
    pts = [[g.random(), [other() for _ in range(g.randint(1, 3))], g.choice(["c", "c", "c", "k"]), g.chance(0.1)] for _ in range(4 if tier == "quick" else 12)]
    return {"base": base, "op": op, "pts": pts, "root": g.choice(["", "", "r"]), "any": g.choice("ilnod")}


def run_case(ctx, case):
    ctx.weight = 0

    def setup():
        r = M.Runner(ctx, {"root": case["root"], "rules": []})
        for i, op in enumerate(case["base"]):
            st = r.step(i, op)
            if st and r.devs(st[1], st[2]): return None
        return r

    def argv(r, m, op, i):
        """command, model afterwards, expected to succeed"""
        m = copy.deepcopy(m)
        if op["op"] == "add":
            pkg = M.plain_links(op["pkg"], True)
            up = pkg["n"] in m.db
            r.w.write("pkgs/o%d.tar" % i, M.build_pkg(pkg))
            ok, cls = m.add(pkg, up, bool(op.get("f")))
            return ["/t/pkgadd"] + r.rargs + (["-u"] if up else []) + (["-f"] if op.get("f") else []) + ["/pkgs/o%d.tar" % i], m, ok
        names = sorted(m.db)
        n = (names[op["n"] % len(names)] if names else "aa") if isinstance(op["n"], int) else op["n"]
        if op["op"] == "rm":
            ok, cls = m.rm(n)
            return ["/t/pkgrm"] + r.rargs + [n], m, ok
        return ["/t/pkginfo"] + r.rargs + {"i": ["-i"], "n": ["-n"], "l": ["-l", n], "d": ["-d", n], "o": ["-o", "."]}[op["q"]], m, True

    def query(r, m, a):
        """What a query must print when it may run."""
        q = a[len(r.rargs) + 1]
        res = r.w.run(*a)
        bad = []
        if res.rc != 0: bad.append("status %d: %s" % (res.rc, res.text[-200:]))
        out = res.out.decode("utf-8", "surrogateescape").splitlines()
        if q == "-n" and out != [str(len(m.db))]: bad.append("counts %s, expected %d" % (out[:2], len(m.db)))
        if q == "-i" and sorted(l.split(") ", 1)[1].split(" ")[0] for l in out) != sorted(m.db): bad.append("lists %s, expected %s" % (out, sorted(m.db)))
        if q == "-l" and a[-1] in m.db and set(out) != m.db[a[-1]]["files"]: bad.append("lists %s" % out[:5])
        return bad

    def cmp(r, m):
        old, r.m = r.m, m
        try: return [t for _, _, t in r.compare()]
        finally: r.m = old

    r = setup()
    if r is None:
        ctx.tag("other-property-deviation"); ctx.weight = 1
        return
    a, m1, ok = argv(r, r.m, case["op"], 99)
    writer = case["op"]["op"] != "info"
    if not ok:
        ctx.tag("refused"); ctx.weight = 1
        return
    res, count, _ = r.w.trace(["-l", "-c"], *a)
    if res.rc != 0 or cmp(r, m1):
        ctx.tag("other-property-deviation"); ctx.weight = 1
        return
    what = " ".join(a)
    # somebody else holds the database
    for mode, mname in ((fcntl.LOCK_EX, "exclusively"), (fcntl.LOCK_SH, "for reading")):
        r = setup()
        cmds = [argv(r, r.m, o, i) + (o,) for i, o in enumerate([case["op"]] + case["pts"][0][1][:2] + [{"op": "info", "q": case["any"], "n": 0}])]
        fd = os.open(r.w.p(r.real(M.DBDIR)), os.O_RDONLY | os.O_DIRECTORY)
        bad = []
        try:
            fcntl.flock(fd, mode | fcntl.LOCK_NB)
            s0 = r.w.snapshot()
            for oa, om, ook, o in cmds:
                ctx.tag("held-" + mname)
                if o["op"] == "info" and mode == fcntl.LOCK_SH:
                    bad += ["%s: %s" % (" ".join(oa), x) for x in query(r, r.m, oa)]
                    continue
                res = r.w.run(*oa)
                if res.rc == 0 or res.crashed() or res.timeout: bad.append("%s ends with status %d: %r" % (" ".join(oa), res.rc, res.text[-200:]))
                if o["op"] == "info" and res.out: bad.append("%s printed %r" % (" ".join(oa), res.out[:200]))
                d = W.diff_snap(s0, r.w.snapshot())
                if d: bad.append("%s changed %s" % (" ".join(oa), d))
        finally:
            os.close(fd)
        for oa, om, ook, o in cmds[:1]:
            res = r.w.run(*oa)
            if o["op"] != "info" and (res.rc != 0 or cmp(r, om)): bad.append("once it is free %s ends with status %d: %s" % (" ".join(oa), res.rc, cmp(r, om)[:3]))
        if bad: ctx.fail("while another process holds the database %s: %s" % (mname, "; ".join(bad[:4])))
    for frac, others, end, elsewhere in case["pts"]:
        ctx.weight += 1
        r = setup()
        a, m1, ok = argv(r, r.m, case["op"], 99)
        n = int(frac * count)
        oth = [argv(r, r.m, o, i) for i, o in enumerate(others)]
        t = W.Traced(r.w, ["-l", "-p", str(n)], a)
        bad = []
        if not t.paused():
            t.finish()
            ctx.tag("not-reached")
            continue
        try:
            held = held_now(r)
            desc = "%s stopped at call %d of %d (%s)" % (what, n, count, "holding the database" if held else "not holding it")
            ctx.tag("writer" if writer else "reader", "held" if held else "free")
            if held or not writer:
                ctx.nontrivial = True
                s0 = r.w.snapshot()
                for o, (oa, om, ook) in zip(others, oth):
                    if o["op"] == "info" and not (held and writer):
                        bad += ["%s meanwhile: %s" % (" ".join(oa), x) for x in query(r, r.m, oa)]
                        continue
                    if not held: continue
                    res = r.w.run(*oa)
                    if res.crashed() or res.timeout: bad.append("%s meanwhile ended abnormally (%d) %s" % (" ".join(oa), res.rc, res.text[-200:]))
                    if res.rc == 0: bad.append("%s succeeded meanwhile: %r" % (" ".join(oa), res.text[:200]))
                    elif b"locked" not in res.err and ook: bad.append("%s meanwhile does not say that the database is locked: %r" % (" ".join(oa), res.text[:200]))
                    if o["op"] == "info" and res.out: bad.append("%s meanwhile printed %r" % (" ".join(oa), res.out[:200]))
                    d = W.diff_snap(s0, r.w.snapshot())
                    if d: bad.append("%s meanwhile changed %s" % (" ".join(oa), d))
            elif writer:
                # it has not asked for the database yet, or has given it back: another operation goes first
                db = r.w.read_db(case["root"])
                done = n > 0 and not cmp(r, m1)
                diff = cmp(r, r.m)
                if not done and diff:
                    bad.append("it has changed files without holding the database: %s" % "; ".join(diff[:3]))
                elif not done:
                    ctx.nontrivial = True
                    ctx.tag("overtaken")
                    oa, om, ook = oth[0]
                    if others[0]["op"] != "info":
                        res = r.w.run(*oa)
                        if (res.rc == 0) != ook or cmp(r, om if ook else r.m):
                            bad.append("%s while it waits to start: status %d, %s" % (" ".join(oa), res.rc, cmp(r, om if ook else r.m)[:3]))
                        elif ook:
                            # now the first one must work on what the other left
                            r.m = om
                            m1 = copy.deepcopy(om)
                            if case["op"]["op"] == "add":
                                pkg = M.plain_links(case["op"]["pkg"], True)
                                ok = m1.add(pkg, "-u" in a, bool(case["op"].get("f")))[0]
                            else:
                                ok = m1.rm(a[-1])[0]
                            if not ok: m1 = om
        finally:
            t.go(b"k" if end == "k" else b"c")
            res, _, _ = t.finish()
        if not bad and end == "c":
            if (res.rc == 0) != ok and writer: bad.append("afterwards it ends with status %d: %s" % (res.rc, res.text[-200:]))
            x = cmp(r, m1 if writer else r.m)
            if x: bad.append("the result is not that of running one after the other: %s" % "; ".join(x[:4]))
        if not bad:
            # the database is free again
            q = r.w.pkginfo(*r.rargs, "-n")
            if q.rc != 0: bad.append("afterwards pkginfo -n fails: %s" % q.text[-200:])
            if end == "k":
                ctx.tag("killed")
                r.w.write("pkgs/z.tar", M.build_pkg({"n": "zz", "e": [{"p": "zz/f", "t": "f", "c": "z"}]}))
                q = r.w.pkgadd(*r.rargs, "/pkgs/z.tar")
                if q.rc != 0: bad.append("after it was killed pkgadd fails: %s" % q.text[-200:])
        if bad:
            ctx.fail("%s: %s\n  base: %s" % (desc, "; ".join(bad[:4]), [M.describe(o) for o in case["base"]]))


def held_now(r):
    """Does the stopped process hold the lock?  Asked of the kernel, not of the tools."""
    fd = os.open(r.w.p(r.real(M.DBDIR)), os.O_RDONLY | os.O_DIRECTORY)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
        return False
    except BlockingIOError:
        return True
    finally:
        os.close(fd)
