import fcntl, os
import depot as D, ed25519 as E, world as W
import importlib.util as _u
_s = _u.spec_from_file_location("c16_for_c30", os.path.join(os.path.dirname(__file__), "c16.py")); C16 = _u.module_from_spec(_s); _s.loader.exec_module(C16)
# names that begin, end and go on like others
C16.NAMES = ["a", "bb", "lib", "app", "xlib", "app-lib", "libxyz", "gtk+", "b", "aa"]
NEEDS = ["sbx", "cardsui:asan"]
LEVEL = "exploration"
TECHNIQUE = "stateful model-based testing of the graphical client's back end with generated sequences of marks, jobs and failures"
NOTE = ("Exploration: the sources of the graphical client below its windows are linked with a driver that plays the windows; its package list, job list, callbacks and effects on the "
        "system are compared with a model after every operation, memory errors included.")
EXAMPLES = {"quick": 130, "thorough": 4000}
RULE = ("Catalogues of 2-8 packages in 1-3 collections with generated dependency graphs (kept locally or on a mirror that must be synchronised first) and partly installed systems of up to "
        "150 packages; 3-12 operations: new list, mark to install or remove, unmark, clear, process the jobs, ask for a package, second window; as root or not, with the "
        "database locked by another process, with a package that cannot be found or read. Non-trivial: a job list with at least one mark was processed.")
ASSUMPTIONS = ["Packages are marked as the windows allow: to install when not installed, to remove when installed.",
               "The windows themselves (fltk/table_*.cxx, mainWindow.cxx, progressbox.cxx) need a display and are not driven."]
KEY = b"k" * 32
PUB = E.public(KEY)


def gen(g, tier):
    c = C16.gen(g, tier)
    ps = [q for q in c["p"]]
    n = len(ps)
    ops = []
    for _ in range(g.randint(2, 7 if tier == "quick" else 12)):
        ops += g.pick((6, lambda: [{"o": "mark", "i": g.randrange(n)} for _ in range(g.randint(1, 3))]), (1, lambda: [{"o": "unmark", "i": g.randrange(n)}]), (1.5, lambda: [{"o": "clear"}]),
                      (4, lambda: [{"o": g.choice(["do", "do", "do", "do2"])}]), (0.4, lambda: [{"o": "gone", "w": "/var/lib/pkg/DB"}]), (0.7, lambda: [{"o": "info", "i": g.randrange(n + 1)}]), (0.7, lambda: [{"o": "refresh"}]), (0.5, lambda: [{"o": g.choice(["second", "first"])}]), (0.5, lambda: [{"o": "second"}, {"o": "mark", "i": g.randrange(n)}, {"o": "first"}]),
                      (0.3, lambda: [{"o": "sync"}]))
    if not any(o["o"] in ("do", "do2") for o in ops) or g.chance(0.5): ops.append({"o": "do"})
    return {"p": ps, "inst": c["inst"], "ops": ops, "miss": g.choice(ps)["n"] if g.chance(0.1) else "", "bad": g.randrange(n) + 1 if g.chance(0.1) else 0,
            "uid": g.choice([0] * 9 + [1000]), "lock": g.chance(0.08), "net": g.choice(["", "", "", "ok", "ok", "broken"]), "more": g.choice([0] * 7 + [95, 120, 150]),
            "files": g.choice([0, 0, 0, 120]), "mine": g.randrange(1 << n) if g.chance(0.3) else 0}


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    D.base(w)
    ps = [dict(q, R=[[d, D.BT - o] for d, o in q.get("R", [])]) for q in case.get("p", []) if q.get("n") and q["n"] != case.get("miss")]
    ps = list({q["n"]: q for q in ps}.values())
    if not ps: return
    for i, q in enumerate(ps):
        if i % 2 == 0: q["D"] = "about " + q["n"]
        if i % 3 == 0: q["P"] = "somebody"
    by = {q["n"]: q for q in ps}
    w.mkdir("log")
    full = [q if not case.get("files") or i else dict(q, e=D.entries(q)[:1] + [{"p": "opt/x-%03d" % k, "t": "f", "c": "%d\n" % k} for k in range(case["files"])] + D.entries(q)[1:]) for i, q in enumerate(ps)]
    ms_all = [dict(q, sc={"PRE": "echo %s var/lib/pkg/DB/* >> log/order\n" % q["n"]}) for q in full]
    by_full = {q["n"]: q for q in full}
    colls = sorted({q.get("c", "base") for q in ps})
    net = case.get("net", "")
    bad = ps[case["bad"] - 1]["n"] if 0 < case.get("bad", 0) <= len(ps) and not net else ""
    for c in colls:
        ms = [q for q in ms_all if q.get("c", "base") == c]
        if net:
            rep, fil, ar = D.texts(ms, KEY)
            d = D.put_mirror(w, c, rep, fil, ar, PUB)
            if net == "broken": w.write(d + "/.REPO.zst", b"\x28\xb5\x2f\xfd garbage" * 3)
        else:
            rep, fil, ar = D.texts(ms, None)
            D.put_local(w, c, rep, fil, {f: b"no package" if bad and f == D.fname(by[bad]) else b for f, b in ar.items()})
    D.conf(w, colls, url="file:///" + D.MIRROR if net else None)
    S = {}
    for n, dt, auto in case.get("inst", []):
        if n not in by: continue
        q = dict(by[n], b=D.BT + dt)
        if dt: q["v"] = "0.%d" % (dt + 20)
        S[n] = {"b": q["b"], "v": q.get("v", "1.0"), "r": q.get("r", 1), "auto": bool(auto)}
        w.write("var/lib/pkg/DB/%s/META" % n, "".join(l + "\n" for l in sorted(D.meta(q) + (["d1"] if auto else []))))
        w.write("var/lib/pkg/DB/%s/files" % n, "opt/\nopt/%s\n" % n)
        w.write("opt/" + n, "old %s\n" % n)
    # files of the user where packages will want theirs: the client installs with force
    mine = {q["n"] for i, q in enumerate(ps) if case.get("mine", 0) >> i & 1 and q["n"] not in S}
    for n in mine: w.write("opt/" + n, "mine\n")
    others = ["o-%03d" % i for i in range(case.get("more", 0))]
    for o in others:
        w.write("var/lib/pkg/DB/%s/META" % o, "N%s\nV1\nr1\nB1\ncbase\n" % o)
        w.write("var/lib/pkg/DB/%s/files" % o, "opt/\nopt/%s\n" % o)
        w.write("opt/" + o, "x")
    uid = case.get("uid", 0)
    lock = bool(case.get("lock"))

    # ---- what must happen: (line sent, check of what came back)
    script, todo = [], []
    marks = {}
    listed = None           # installed marks of the list the windows have
    nwin = 1
    cat = set() if net else set(by)
    st = {"S": dict(S), "order": [], "stop": False}

    def rows(listed):
        return sorted("%s|%s|%s|%s|%s|%d" % (n, by[n].get("v", "1.0"), by[n].get("c", "base"), by[n].get("D", ""), by[n].get("P", ""), listed[n] | marks.get(n, 0)) for n in listed or ())

    def send(line, **exp):
        for l, e in ((line, exp), ("list", {"rows": rows(listed), "sets": sorted({by[n].get("c", "base") for n in listed}) if listed else None}),
                     ("jobs", {"jobs": sorted("%s|%d" % (n, listed[n] | m) for n, m in marks.items())})):
            if l == "list" and listed is None: continue
            script.append(l)
            todo.append(e)

    def fresh():
        nonlocal listed
        listed = {n: int(n in st["S"]) for n in cat}
        marks.clear()

    def window(*lines):
        return {"a": list(lines), "b": list(lines) if nwin == 2 else []}
    if net:
        if uid:
            send("sync fails", win=window("sync 1"))
        elif net == "broken":
            send("sync fails", win=window("sync 3"), error=True)
        else:
            cat = set(by)
            fresh()
            send("sync", win=window("sync 0", "refreshed 0", "jobs 0 busy 1"), anyorder=True)
    if net and (uid or net == "broken"):
        ctx.tag("sync-refused")
    else:
        fresh()
        send("refresh", win=window("refreshed 0", "jobs 0 busy 1"))
    processed = 0
    for o in case.get("ops", []) if listed is not None else []:
        k = o["o"]
        if k in ("mark", "unmark"):
            n = ps[o.get("i", 0) % len(ps)]["n"]
            if k == "mark":
                if listed[n]: marks[n] = 4
                else: marks[n] = 2
                send(("mark- " if listed[n] else "mark+ ") + n, win=window("jobs 0 busy 0"))
            else:
                marks.pop(n, None)
                send("unmark " + n, win=window("jobs 0 busy 0"))
        elif k == "clear":
            if marks: ctx.tag("cleared")
            marks.clear()
            send("clear", win=window("jobs 0 busy 0"))
        elif k == "refresh":
            if marks: ctx.tag("list-with-marks")
            fresh()
            send("refresh", win=window("refreshed 0", "jobs 0 busy 1"))
        elif k == "gone":
            f = "/var/lib/pkg/DB"
            if uid or lock: continue
            ctx.tag("list-unreadable")
            send("hide " + f, win=window())
            send("refresh", win=window("refreshed 3", "jobs 0 busy 1"), error=True)
            send("show " + f, win=window())
        elif k == "info":
            i = o.get("i", 0)
            n = ps[i]["n"] if i < len(ps) else ps[len(ps) // 2]["n"][:2] if len(ps) % 2 else "nosuch"
            x = by.get(n)
            send("info " + n, win=window("info %s|%s|%s|%d" % (n, x.get("v", "1.0"), x.get("c", "base"), listed[n] | marks.get(n, 0)) if x else "info |||0"))
        elif k in ("second", "first"):
            if (k == "second") == (nwin == 2): continue
            nwin = 2 if k == "second" else 1
            send(k, win={"a": [], "b": []})
            ctx.tag("two-windows")
        elif k == "sync":
            if net != "ok" or uid: continue
            if marks: ctx.tag("list-with-marks")
            fresh()
            send("sync", win=window("sync 0", "refreshed 0", "jobs 0 busy 1"), anyorder=True)
        elif k in ("do", "do2"):
            if uid:
                ctx.tag("not-root")
                send(k, win=window("jobs 0 busy 1", "done 1"))
                continue
            rem = sorted(n for n, m in marks.items() if m == 4)
            ins = sorted(n for n, m in marks.items() if m == 2)
            if rem or ins: processed += 1
            if lock and (rem or ins):
                ctx.tag("locked")
                # what is installed first needs no lock to be looked at
                fresh()
                send(k, win=window("refreshed 0", "jobs 0 busy 1", "done 3"), error=True)
                continue
            now = {n: v for n, v in st["S"].items() if n not in rem}
            was = dict(now)
            c = {"p": ps, "args": ins, "groups": []}
            lo, expl, unk = C16.closure(c, by, now, False)
            hi, expl2, unk2 = C16.closure(c, by, now, True)
            if unk != unk2 or (bad in hi and bad not in lo): break     # depends on whether up to date packages are examined again
            if unk or bad in lo:
                ctx.tag("cannot")
                st["S"] = now
                fresh()
                send(k, win=window("refreshed 0", "jobs 0 busy 1", "done 3"), error=True)
                continue
            if lo != hi: break          # the same
            if len(lo) > 1: ctx.tag("several")
            if rem: ctx.tag("removed")
            for n in lo:
                auto = now[n]["auto"] and n not in expl if n in now else n not in expl
                now[n] = {"b": D.bt(by[n]), "v": by[n].get("v", "1.0"), "r": by[n].get("r", 1), "auto": auto, "new": True}
            mine -= lo | set(rem)
            st["S"] = now
            st["order"] += [(set(lo), {n: [d for d, t in by[n]["R"] if d in lo and not (d in was and was[d]["b"] >= t)] for n in lo})] if lo else []
            fresh()
            send(k, win=window("refreshed 0", "jobs 0 busy 1", "done 0"), progress=True)
    # ---- the real thing
    held = None
    if lock:
        held = os.open(w.p("var/lib/pkg/DB"), os.O_RDONLY)
        fcntl.flock(held, fcntl.LOCK_EX)
    if os.environ.get("C30_SHOW"): print(script)
    try:
        r = w.run("/t/cardsui", uid=uid, cpu=20, wall=60, stdin="".join(l + "\n" for l in script).encode())
    finally:
        if held is not None: os.close(held)
    said = [l[3:] for l in r.out.decode(errors="replace").split("\n") if l.startswith("@@ ")]
    if r.crashed() or r.timeout or r.rc != 0:
        at = next((l for l in reversed(said) if l.startswith("> ")), "")
        ctx.fail("the graphical client ended abnormally (status %d, timeout %s) at %r of %s: %s" % (r.rc, r.timeout, at, script, r.text[-700:]))
    ctx.nontrivial = processed > 0
    # one block for each line sent
    blocks = []
    for l in said:
        if l.startswith("> "): blocks.append([])
        if blocks: blocks[-1].append(l)
    if len(blocks) != len(script): ctx.fail("%d operations answered, %d sent" % (len(blocks), len(script)))
    for i, (line, e, b) in enumerate(zip(script, todo, blocks)):
        where = "%s (operation %d of %s)" % (line, i + 1, [x for x in script if x not in ("list", "jobs")])
        if "rows" in e:
            got = sorted(l[4:] for l in b if l.startswith("pkg "))
            if got != e["rows"]: ctx.fail("package list after %s is %s, expected %s" % (where, got, e["rows"]))
            sets = sorted(l[4:] for l in b if l.startswith("set "))
            if e.get("sets") is not None and sets != e["sets"]: ctx.fail("collections after %s are %s, expected %s" % (where, sets, e["sets"]))
        if "jobs" in e:
            got = sorted(l[4:] for l in b if l.startswith("job "))
            if got != e["jobs"]: ctx.fail("job list after %s is %s, expected %s" % (where, got, e["jobs"]))
        if "win" in e:
            for x in "ab":
                got = [l[2:] for l in b if l.startswith(x + " ") and not l.startswith((x + " log ", x + " draws "))]
                exp = e["win"][x]
                if (sorted(got) if e.get("anyorder") else got) != (sorted(exp) if e.get("anyorder") else exp):
                    ctx.fail("window %s is told %s about %s, expected %s" % (x, got, where, exp))
            errs = [l for l in b if l.startswith("a log Error : ")]
            if bool(errs) != bool(e.get("error")): ctx.fail("messages of level error about %s: %s" % (where, errs))
        for l in b:
            if l.startswith("progress "):
                n, lo_, hi_ = [int(x) for x in l.split()[1:]]
                if lo_ < 0 or hi_ > 100: ctx.fail("progress of %s goes from %d to %d per cent" % (where, lo_, hi_))
    # ---- the system
    db = w.read_db()
    S2 = st["S"]
    if set(db) != set(S2) | set(others): ctx.fail("after %s the installed packages are %s, expected %s" % (script, sorted(db), sorted(set(S2) | set(others))))
    for n in sorted(S2):
        m = db[n].get("meta") or []
        s = S2[n]
        want = D.entries(by[n])[-1]["c"] if s.get("new") else "old %s\n" % n
        f = w.p("opt/" + n)
        got = open(f).read() if os.path.exists(f) else None
        if got != want: ctx.fail("after %s the file of %s has content %r, expected %r" % (script, n, got, want))
        if ("d1" in m) != s["auto"]: ctx.fail("after %s %s is %s" % (script, n, "automatic" if "d1" in m else "manual"))
        if s.get("new") and {x for x in m if x != "d1"} != set(D.meta(by[n])): ctx.fail("after %s the record of %s is %s" % (script, n, m))
        if not s.get("new") and "B%d" % s["b"] not in m: ctx.fail("after %s %s, which needed no change, is recorded as %s" % (script, n, m))
    have = set(os.listdir(w.p("opt"))) if os.path.isdir(w.p("opt")) else set()
    first = ps[0]["n"]
    if case.get("files") and first in S2 and S2[first].get("new"): have -= {"x-%03d" % k for k in range(case["files"])}
    for n in sorted(mine & have):
        if open(w.p("opt/" + n)).read() != "mine\n": ctx.fail("%s changes the file %s of the user" % (script, n))
    if have != set(S2) | set(others) | mine: ctx.fail("after %s the files are %s, expected those of %s" % (script, sorted(have), sorted(set(S2) | set(others))))
    log = w.p("log/order")
    lines = [l.split() for l in open(log).read().splitlines()] if os.path.exists(log) else []
    order = [l[0] for l in lines]
    at = 0
    for lo, deps in st["order"]:
        part = order[at:at + len(lo)]
        at += len(lo)
        if sorted(part) != sorted(lo): ctx.fail("%s installs %s, expected %s" % (script, part, sorted(lo)))
        reach = {}
        for n in lo:
            seen, t = set(), list(deps[n])
            while t:
                x = t.pop()
                if x not in seen:
                    seen.add(x)
                    t += deps.get(x, [])
            reach[n] = seen
        for k, n in enumerate(part):
            for d in deps[n]:
                if d != n and n not in reach[d] and d not in part[:k]: ctx.fail("%s installs %s before its dependency %s" % (script, n, d))
    if at != len(order): ctx.fail("%s installs %s, more than was asked for" % (script, order))
