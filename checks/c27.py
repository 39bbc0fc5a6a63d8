import os, re
import depot as D, pkgmkcell as M, world as W
NEEDS = ["sbx", "cards"]
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of cards create with a stand-in for pkgmk: generated trees of ports, repositories, installed systems and build results against a model of the build environment"
NOTE = ("Exploration: cards create of a port or of a whole collection runs with a stand-in for pkgmk that records what is installed when it is called and gives generated packages, statuses or deaths; the sequence of builds, the "
        "environment of each, the packages installed at the end, the log and the exit status are compared with a model.")
EXAMPLES = {"quick": 200, "thorough": 3000}
RULE = ("1-2 collections of 1-7 ports with dependencies, group and locale packages, members of the sets chroot and devel, missing binaries, missing shared libraries, configured groups, packages already installed (of the same or another version), "
        "results of each build: new packages (other groups than before), a failing status, death by a signal. Non-trivial: something was built with dependencies, a foreign package was removed first, or a build failed.")
NAMES = ["a", "b", "glibc", "gtk+", "lua5", "zlib", "perl-x", "x-1", "qt"]
GROUPS = ["devel", "lib", "man"]


def gen(g, tier):
    order = list(NAMES)
    g.shuffle(order)
    order = order[:g.randint(2, 7)]
    ps = []
    for i, n in enumerate(order):
        q = {"n": n, "c": g.choice(["base", "base", "cli"]), "v": g.choice(["1.0", "2.1"]), "r": g.choice([1, 1, 2, 65537])}
        if i and g.chance(0.75): q["d"] = g.sub(order[:i], 1, 3)
        if i and g.chance(0.25): q["R"] = g.sub(order[:i], 1, 2)
        if i and g.chance(0.25): q["Rl"] = g.sub(order[:i], 1, 2)
        if g.chance(0.3): q["s"] = g.sub(["chroot", "devel", "other"], 1, 2)
        q["g"] = g.sub(GROUPS, 0, 2)
        if g.chance(0.2): q["nls"] = "fr"
        q["bin"] = g.pick((12, lambda: "same"), (3, lambda: "none"), (2, lambda: "old"), (1, lambda: "new"), (1, lambda: "rel"), (1, lambda: "nofile"))
        q["in"] = g.pick((6, lambda: ""), (3, lambda: "same"), (1, lambda: "old"))
        q["mk"] = g.pick((14, lambda: "0"), (1, lambda: "1"), (1, lambda: "8"), (1, lambda: "12"), (1, lambda: "kill"))
        if g.chance(0.4): q["L"] = g.sub(["own", "dep", "core", "none"], 1, 3)
        if g.chance(0.4): q["Ll"] = g.sub(["own", "dep", "core", "none"], 1, 3)
        q["ng"] = q["g"] if g.chance(0.6) else g.sub(GROUPS, 0, 2)
        ps.append(q)
    if g.chance(0.15):              # a chain of ports without binaries, to be built one after the other
        for i, q in enumerate(ps): q.update(c="base", d=[order[i - 1]] if i else [], bin=g.choice(["none", "none", "old", "nofile"]), mk="0")
        what = "base"
    else: what = g.pick((8, lambda: g.choice(order[len(order) // 2:])), (2, lambda: g.choice(["base", "cli"])), (1, lambda: g.choice(["nosuch", "a.devel"])))
    return {"p": ps, "w": what, "cg": g.sub(GROUPS, 0, 2) + (["fr"] if g.chance(0.2) else []), "log": int(g.chance(0.5)), "f": g.sub(["foreign", "alien"], 0, 2), "u": g.pick((20, lambda: 0), (1, lambda: 1000)), "setup": int(not g.chance(0.05)),
            "dry": int(g.chance(0.12)), "obs": int(g.chance(0.3)), "twice": int(g.chance(0.25))}


def base_of(n, ports): return n if n in ports else n.rpartition(".")[0]


def packs(q, v, groups, r=None, b=D.BT):
    """The packages of a port."""
    out = []
    for s in [""] + list(groups) + ([q["nls"]] if q.get("nls") else []):
        x = {"n": q["n"] + ("." + s if s else ""), "c": q.get("c", "base"), "v": v, "r": int(q.get("r") or 1) if r is None else r, "b": b}
        if s and s == q.get("nls"): x["nls"] = s
        elif s: x["g"] = s
        R = q.get("R" if not s else "Rl" if x.get("g") == "lib" else "")
        if R: x["R"] = list(R)
        if q.get("s") and not x.get("nls"): x["s"] = list(q["s"])
        L = q.get("L", []) if not s else q.get("Ll", []) if x.get("g") == "lib" else []
        own = "libown-%s.so.1" % x["n"]
        x["l"] = [l for k, l in (("own", own), ("core", "libcards.so.1"), ("none", "libno-%s.so.1" % x["n"])) if k in L]
        if "dep" in L: x["l"] += ["libown-%s.so.1" % d for d in x.get("R", [])]
        x["e"] = D.entries(x) + [{"p": "sys", "t": "d"}, {"p": "sys/lib", "t": "d"}, {"p": "sys/lib/" + own, "t": "f", "c": own}]
        out.append(x)
    return out


STUB = """#!/t/bin/bash
n=${PWD##*/}
cd /var/lib/pkg/DB
l=$(echo *)
cd "$OLDPWD"
echo "$n|$PWD|$*|$l" >> /tmp/mk.log
echo "making $n"
echo "a remark of $n" >&2
p=/tmp/plan/$n
read -r st < $p/status
[ "$st" = kill ] && kill -9 $$
[ "$st" != 0 ] && exit $st
d=$(cat $p/depot)
for f in $(cat $p/old); do rm -f $d/$f; done
cp $p/new/* $d
cp $p/rep $d.frag/$n.rep
cp $p/fil $d.frag/$n.fil
cat $d.frag/*.rep > $d/.REPO
cat $d.frag/*.fil > $d/.FILES
"""


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    D.base(w)
    M.prepare(w, os.environ.get("VERIF_REPO", "/repo"))
    if not os.path.exists(w.p("t/stub/pkgmk")):
        os.makedirs(w.p("t/stub"), exist_ok=True)
        with open(w.p("t/stub/pkgmk"), "w") as f: f.write(STUB)
        os.chmod(w.p("t/stub"), 0o755); os.chmod(w.p("t/stub/pkgmk"), 0o755)
    ports = {}
    for q in case.get("p", []):
        q = dict(q, n=str(q.get("n") or "a"))
        if q["n"] in ports or q["n"] == "cards": continue
        for k in ("d", "R", "Rl"): q[k] = [x for x in q.get(k, []) if x in ports]      # only earlier ones: no cycles
        q["v"], q["c"] = str(q.get("v") or "1.0"), q.get("c") if q.get("c") in ("base", "cli") else "base"
        ports[q["n"]] = q
    cg = [x for x in case.get("cg", []) if x in GROUPS + ["fr"]]
    colls = ["base", "cli"]
    w.mkdir("ports/base"); w.mkdir("ports/cli"); w.mkdir("tmp")
    if case.get("setup", 1): w.write("tmp/setup", "")
    D.conf(w, colls, groups=cg, extra=["logdir /var/log/make"] if case.get("log") else [])
    # the repository
    repo, nofile, frags = {}, set(), {"base": {}, "cli": {}}
    core = [{"n": "cards", "c": "base", "s": ["chroot"], "e": [{"p": "opt", "t": "d"}, {"p": "opt/cards", "t": "f", "c": "x"}, {"p": "sys", "t": "d"}, {"p": "sys/lib", "t": "d"}, {"p": "sys/lib/libcards.so.1", "t": "f", "c": "x"}]}, {"n": "cards.devel", "c": "base", "g": "devel", "s": ["chroot"]}]
    w.write("ports/base/cards/Pkgfile", "description=x\nversion=1.0\nrelease=1\nbuild() {\n  make\n}\n")
    extra = [{"n": "gone", "c": "base"}] if case.get("obs") else []
    for x in core + extra: frags["base"].setdefault(x["n"].split(".")[0], []).append(x)
    for q in ports.values():
        L = ["description=x", "version=" + q["v"], "release=%d" % int(q.get("r") or 1), "makedepends=(%s)" % " ".join(q.get("d", [])), "build() {", "  make", "}"]
        w.write("ports/%s/%s/Pkgfile" % (q["c"], q["n"]), "\n".join(L) + "\n")
        b = q.get("bin", "same")
        if b == "none": continue
        v, r = ("0.9", None) if b == "old" else ("9.9", None) if b == "new" else (q["v"], 77) if b == "rel" else (q["v"], None)
        frags[q["c"]][q["n"]] = packs(q, v, q.get("g", []), r)
        if b == "nofile": nofile.add(q["n"])
    times = {}
    for c in colls:
        for ps in frags[c].values():
            for x in ps:
                x["R"] = [d for d in x.get("R", [])]
                repo[x["n"]] = x
                times[x["n"]] = D.bt(x)
    def real(x):
        x["R"] = [d for d in x.get("R", []) if d in repo]
        x["l"] = [l for l in x.get("l", []) if not l.startswith("libown-") or l[7:-5] in x["R"] + [x["n"]]]
    for x in repo.values(): real(x)
    def frag_text(ps): return D.texts(ps, None, times=times)
    d0 = "var/lib/pkg/depot/"
    for c in colls:
        w.mkdir(d0 + c); w.mkdir(d0 + c + ".frag")
        w.write(d0 + c + "/.REPO", ""); w.write(d0 + c + "/.FILES", "")
        allr, allf = "", ""
        for n in sorted(frags[c], key=str.encode):
            rep, fil, ar = frag_text(frags[c][n])
            w.write("%s%s.frag/%s.rep" % (d0, c, n), rep); w.write("%s%s.frag/%s.fil" % (d0, c, n), fil)
            allr += rep; allf += fil
            for x in frags[c][n]:
                if n not in nofile: w.write("%s%s/%s" % (d0, c, D.fname(x)), ar[D.fname(x)])
        w.write(d0 + c + "/.REPO", allr); w.write(d0 + c + "/.FILES", allf)
    # what each build gives
    new = {}
    for q in ports.values():
        n, c = q["n"], q["c"]
        new[n] = packs(q, q["v"], q.get("ng", []), b=D.BT + 1000)
        for x in new[n]: real(x)
        rep, fil, ar = D.texts(new[n], None, times=times)
        P = "tmp/plan/%s/" % n
        w.write(P + "status", "%s\n" % (q.get("mk") if str(q.get("mk")) in ("kill", "1", "8", "12", "2", "7") else "0"))
        w.write(P + "depot", "/" + d0 + c + "\n")
        w.write(P + "old", " ".join(D.fname(x) for x in frags[c].get(n, [])) + "\n")
        w.write(P + "rep", rep); w.write(P + "fil", fil)
        for f, a in ar.items(): w.write(P + "new/" + f, a)
    # what is installed
    inst = {}
    for q in ports.values():
        if q.get("in") not in ("same", "old"): continue
        for x in packs(q, "0.1" if q["in"] == "old" else q["v"], q.get("g", []), b=D.BT - 5 if q["in"] == "old" else D.BT):
            x["R"] = []
            inst[x["n"]] = x
    for f in case.get("f", []):
        if f in ("foreign", "alien"): inst[f] = {"n": f, "c": "base", "R": []}
    for x in inst.values(): D.install_record(w, x, times=times)
    what = str(case.get("w") or "base")
    U = {"env": {"LC_ALL": "C", "PATH": "/t/stub:/t/bin:/t", "HOME": "/"}, "cwd": "/ports"}
    levels = {}
    for n in ports: levels[n] = 1 + max([levels[d] for d in ports[n].get("d", []) if d != n] or [-1])
    def closure(n):
        out, st = set(), [n]
        while st:
            x = st.pop()
            if x not in out:
                out.add(x); st += ports[x].get("d", [])
        return out
    keep = lambda x: any(s in ("chroot", "devel") for s in x.get("s", []))

    def core_list():
        """The packages of the sets and what they need, or None when one is missing."""
        out, st = [], [x["n"] for x in repo.values() if keep(x) and not x.get("g") and x["n"] not in inst] + ["cards.devel"]
        def close(st):
            while st:
                n = st.pop()
                if n in out: continue
                out.append(n)
                st += [d for d in repo[n].get("R", []) if d not in inst or D.bt(inst[d]) < times[d]]
        close(st)
        close([n + "." + s for n in out for s in cg if n + "." + s in repo])
        return out

    def todo_of():
        """The ports of the collection without a binary of their version and release, lower levels first."""
        out = []
        for n in sorted((p for p in ports if ports[p]["c"] == what), key=lambda p: (levels[p], p.encode())):
            x = repo.get(n)
            if x is None or n in nofile or x["v"] != ports[n]["v"] or x["r"] != int(ports[n].get("r") or 1): out.append(n)
        return out

    def lacking_libs(r, todo):
        """The ports whose libraries nothing provides are named, no others."""
        said = {l.split(" ")[6].rstrip(":"): l.split(" ")[7] for l in r.out.decode("utf-8", "replace").split("\n") if l.startswith("==> MAYBE NEEDS TO BE REBUILD ")}
        for n in sorted(p for p in ports if ports[p]["c"] == what and p not in todo):
            libs = [l for x in (n, n + ".lib") if x in repo for l in repo[x].get("l", []) if l.startswith("libno-")]
            if case.get("dry") and any("libcards.so.1" in repo[x].get("l", []) for x in (n, n + ".lib") if x in repo): continue
            if libs: ctx.tag("lib")
            if (n in said) != bool(libs) or libs and said[n] not in libs: return "%s, whose binary needs %s, which nothing provides: said is %s" % (n, libs, said.get(n))

    for turn in range(2 if case.get("twice") and what in ports else 1):
        if os.path.exists(w.p("tmp/mk.log")): os.unlink(w.p("tmp/mk.log"))
        before = W.strip_ino(w.snapshot())
        miss = [n for n in core_list() if not os.path.exists(w.p("%s%s/%s" % (d0, repo[n].get("c", "base"), D.fname(repo[n]))))]
        dry = ["--dry"] if case.get("dry") else []
        r = w.cards("create", *dry, what, uid=int(case.get("u", 0)), **U)
        txt = "cards create %s" % " ".join(dry + [what])
        if r.timeout or r.crashed(): return ctx.fail("%s dies: %s %s" % (txt, r.rc, r.text[-300:]))
        log = [l.split("|") for l in open(w.p("tmp/mk.log")).read().split("\n") if l] if os.path.exists(w.p("tmp/mk.log")) else []
        if case.get("u") or not case.get("setup", 1):
            if r.rc == 0: return ctx.fail("%s without right or in a running system ends with status 0" % txt)
            ch = W.diff_snap(before, W.strip_ino(w.snapshot()))
            if ch or log: return ctx.fail("%s is refused, but changes %s, builds %s" % (txt, ch[:5], log))
            ctx.tag("refused")
            return
        if dry:
            ch = W.diff_snap(before, W.strip_ino(w.snapshot()))
            if ch or log: return ctx.fail("%s changes %s, builds %s" % (txt, ch[:5], log))
            said = [l.split(" ===> SHOULD BE BUILD")[0].split(":")[0] for l in r.out.decode("utf-8", "replace").split("\n") if "SHOULD BE BUILD" in l]
            exp = todo_of() if what in ("base", "cli") else [what] if what in ports else []
            if sorted(said) != sorted(exp): return ctx.fail("%s says that these are to be built: %s, expected %s" % (txt, said, exp))
            if (r.rc != 0) != (what not in ports and what not in ("base", "cli")): return ctx.fail("%s ends with status %d: %s" % (txt, r.rc, r.text[-300:]))
            bad = what in ("base", "cli") and lacking_libs(r, exp)
            if bad: return ctx.fail("%s: %s" % (txt, bad))
            ctx.tag("dry")
            return
        # the model
        cur = dict(inst)
        status = 0
        built, envs = [], []
        if miss: status = 1
        else:
            for n in core_list(): cur.setdefault(n, repo[n])
            if what in ("base", "cli"):
                todo = todo_of()
            else: todo = [what]
            for n in todo:
                cur = {k: x for k, x in cur.items() if keep(x)}
                if n not in ports: status = 1; break
                lacking = False
                for d in sorted(closure(n) - {n}, key=lambda d: (levels[d], d.encode())):
                    for x in sorted((x for x in repo.values() if base_of(x["n"], ports) == d), key=lambda x: D.fname(x).encode()):
                        if d not in repo: continue
                        if d in nofile: lacking = True; break
                        if x.get("nls") or x.get("g") and x["g"] not in cg or x["n"] in cur: continue
                        cur[x["n"]] = x
                    if lacking: break
                if lacking: status = 1; break
                built.append(n); envs.append(sorted(cur))
                if str(ports[n].get("mk")) in ("kill", "1", "8", "12", "2", "7"): status = 1; break
                for k in [k for k in repo if base_of(k, ports) == n]: del repo[k]
                for x in new[n]: repo[x["n"]] = x; cur[x["n"]] = x
                nofile.discard(n)
        if (r.rc != 0) != (status != 0): return ctx.fail("%s ends with status %d, expected %s: %s" % (txt, r.rc, "0" if not status else "another", r.text[-400:]))
        if [l[0] for l in log] != built: return ctx.fail("%s builds %s, expected %s" % (txt, [l[0] for l in log], built))
        for l, e in zip(log, envs):
            if l[1] != "/ports/%s/%s" % (ports[l[0]]["c"], l[0]): return ctx.fail("%s: pkgmk of %s runs in %s" % (txt, l[0], l[1]))
            if l[2].split() != ["-d"]: return ctx.fail("%s: pkgmk runs with the options %s" % (txt, l[2]))
            if sorted(l[3].split()) != e: return ctx.fail("%s: when %s is built, there is too much: %s, and missing: %s" % (txt, l[0], sorted(set(l[3].split()) - set(e)), sorted(set(e) - set(l[3].split()))))
        db = w.read_db() or {}
        if not miss:
            if sorted(db) != sorted(cur): return ctx.fail("%s: installed at the end, but not expected: %s; missing: %s" % (txt, sorted(set(db) - set(cur)), sorted(set(cur) - set(db))))
            for n, x in cur.items():
                for l in ("V" + x.get("v", "1.0"), "B%d" % D.bt(x)):
                    if l not in db[n]["meta"]: return ctx.fail("%s: record of %s lacks %s: %s" % (txt, n, l, db[n]["meta"]))
            files = {p: open(w.p(p)).read() for p in ("opt/" + f for f in (os.listdir(w.p("opt")) if os.path.isdir(w.p("opt")) else []))}
            exp = {e["p"]: e["c"] for x in cur.values() for e in D.entries(x) if e["t"] == "f" and e["p"].startswith("opt/")}
            if files != exp: return ctx.fail("%s: files at the end: %s, expected %s" % (txt, {k: v for k, v in files.items() if exp.get(k) != v}, {k: v for k, v in exp.items() if files.get(k) != v}))
        if case.get("log"):
            for n in built:
                p = w.p("var/log/make/%s.log" % n)
                t = open(p, errors="replace").read() if os.path.exists(p) else None
                if t is None or "making %s\n" % n not in t or "a remark of %s\n" % n not in t or t.count("making") > 1: return ctx.fail("%s: the log of %s is %r" % (txt, n, t))
                if status == 0 and "finish" not in t: return ctx.fail("%s: the log of %s does not say that it is finished: %r" % (txt, n, t))
        for n in built:
            if "making %s\n" % n not in r.text: return ctx.fail("%s does not show what pkgmk says" % txt)
        if what in ("base", "cli") and not status:
            bad = lacking_libs(r, todo)
            if bad: return ctx.fail("%s: %s" % (txt, bad))
        if what in ("base", "cli") and not miss:
            gone = os.path.exists(w.p("%sbase/%s" % (d0, D.fname({"n": "gone", "c": "base"}))))
            if case.get("obs") and gone != (what != "base"): return ctx.fail("%s: the binary of a port which is gone %s" % (txt, "stays" if gone else "is removed"))
            ctx.tag("collection")
        ctx.tag("built:%d" % len(built), "status:%d" % status)
        if status and built: ctx.tag("fails:" + str(ports[built[-1]].get("mk")))
        if any(len(e) > 3 for e in envs) or status and built or built and len(inst) > len([x for x in inst.values() if keep(x)]): ctx.nontrivial = True
        inst = cur
