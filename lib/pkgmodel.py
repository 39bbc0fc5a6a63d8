"""Reference model of pkgadd / pkgrm on a root filesystem and its package database, with the
interpreter that runs a generated history against the real tools and compares after every step.

The model is written from the manual pages (man/*.in), documentation/ and the callers, and knows
nothing about how the tools work internally: it says what the filesystem and the database look like
after an operation, and whether the operation is refused.
"""
import copy, os, re
import world as W

MACHINE = os.uname().machine
DBDIR = "var/lib/pkg/DB"
REJ = "var/lib/pkg/rejected"
CONF = "var/lib/pkg/pkgadd.conf"


def norm(p):
    return p.rstrip("/")


def meta_lines(pkg):
    m = ["N" + pkg["n"], "V" + pkg.get("v", "1.0"), "r%d" % pkg.get("r", 1), "B%d" % pkg.get("b", 1600000000),
         "S%d" % pkg.get("S", 4096), "c" + pkg.get("c", "base"), "a" + pkg.get("a", MACHINE),
         "D" + pkg.get("D", "some package"), "Uhttps://example.org", "CSomebody", "MMaint", "PPack", "LGPL"]
    return m + list(pkg.get("x", []))


def build_pkg(pkg):
    return W.make_pkg(meta_lines(pkg), pkg["e"], pkg.get("s"), pkg.get("z", ""),
                      mtree=pkg.get("mtree"), omit=pkg.get("omit", ()), fmt=pkg.get("F", "gnu"))


def listed(pkg):
    """What the package says it contains, the way pkgmk writes it (directories end in '/')."""
    return [e["p"] + ("/" if e["t"] == "d" else "") for e in pkg["e"]]


def c_locale_search(pat, s):
    return re.search(pat, s) is not None


def rule_hit(rules, event, path):
    """Last matching rule of that event wins; no match -> None."""
    r = None
    for ev, pat, act in rules:
        if ev == event and c_locale_search(pat, path):
            r = (act == "YES")
    return r


class Model:
    def __init__(self, rules, root_is_slash=True, can_chown=True):
        self.fs = {}          # path -> node
        self.db = {}          # name -> {"meta": set, "files": set, "scripts": {}}
        self.rules = rules
        self.slash = root_is_slash
        self.can_chown = can_chown
        self.loose = set()

    # -- helpers
    def owners(self, path):
        return [n for n, r in self.db.items() if path in r["files"]]

    def aliases(self):
        res = {}
        for n in sorted(self.db):
            for l in self.db[n]["meta"]:
                if l.startswith("A"):
                    res[l[1:]] = n
        # a package is found by its name, whatever aliases others have
        for n in self.db:
            res[n] = n
        return res

    def parents(self, path):
        out = []
        d = os.path.dirname(path)
        while d:
            out.append(d)
            d = os.path.dirname(d)
        return list(reversed(out))

    def mkparents(self, path):
        for d in self.parents(path):
            if d not in self.fs:
                self.fs[d] = {"t": "d", "m": None, "own": (0, 0)}

    def children(self, d):
        return any(k.startswith(d + "/") for k in self.fs)

    def unlink(self, listed_path):
        """remove(3) semantics: files and symlinks go, directories only when empty."""
        p = norm(listed_path)
        n = self.fs.get(p)
        if n is None:
            return
        if n["t"] == "d":
            if not self.children(p):
                del self.fs[p]
        else:
            if listed_path.endswith("/"):
                return
            del self.fs[p]

    def node(self, e, entries):
        t = e["t"]
        own = (e.get("uid", 0), e.get("gid", 0)) if self.can_chown else (0, 0)
        if t == "l":
            return {"t": "l", "to": e["to"], "own": own}
        if t == "d":
            return {"t": "d", "m": e.get("m", 0o755), "own": own}
        if t == "h":
            return None
        if t in "cb":
            return {"t": t, "m": e.get("m", 0o644), "own": own, "dev": list(e.get("dev", (1, 3))), "mt": e.get("mt", 1600000000)}
        if t == "p":
            return {"t": "p", "m": e.get("m", 0o644), "own": own, "mt": e.get("mt", 1600000000)}
        return {"t": "f", "m": e.get("m", 0o644), "c": W.content(e.get("c", "")),
                "own": own, "mt": e.get("mt", 1600000000)}

    # -- operations: return (ok, classes, refusal reason)
    def add(self, pkg, upgrade, force, pre_fails=False):
        cls = set()
        name = pkg["n"]
        known = self.aliases()
        if pkg.get("a", MACHINE) not in (MACHINE, "any") and self.slash:
            return False, {"refuse-arch"}
        if name in known and not upgrade:
            return False, {"refuse-installed"}
        if name not in known and upgrade:
            return False, {"refuse-not-installed"}
        if name in known and known[name] != name:
            return False, {"refuse-alias"}
        inst, skipped = [], set()
        for e in pkg["e"]:
            lp = e["p"] + ("/" if e["t"] == "d" else "")
            if rule_hit(self.rules, "INSTALL", lp) is False:
                skipped.add(lp)
            else:
                inst.append((lp, e))
        if skipped:
            cls.add("install-rule")
        mine = self.db[name]["files"] if name in self.db else set()
        conflicts = set()
        for lp, e in inst:
            if lp.endswith("/") or lp in mine:
                continue
            if lp in self.fs or any(lp in r["files"] for n, r in self.db.items() if n != name):
                conflicts.add(lp)
        self.conflicts = conflicts
        if conflicts and not force:
            cls.add("conflict")
            return False, cls
        if pre_fails:
            return False, cls | {"refuse-pre"}
        keep = set()
        if upgrade:
            cls.add("upgrade")
            keep = {lp for lp, e in inst if rule_hit(self.rules, "UPGRADE", lp) is False}
        else:
            cls.add("install")
        if conflicts:
            cls.add("takeover")
            for n, r in self.db.items():
                if n != name:
                    r["files"] -= conflicts
            for lp in sorted(conflicts - keep, reverse=True):
                self.unlink(lp)
        if upgrade:
            old = self.db.pop(name)
            gone = set(old["files"]) - keep
            for r in self.db.values():
                gone -= r["files"]
            if gone - {lp for lp, _ in inst}:
                cls.add("obsolete-files")
            if set(old["files"]) & {f for r in self.db.values() for f in r["files"]}:
                cls.add("shared")
            for lp in sorted(gone, key=lambda s: s.encode("utf-8", "surrogateescape"), reverse=True):
                self.unlink(lp)
        byp = {e["p"]: e for e in pkg["e"]}
        for lp, e in inst:
            p = e["p"]
            if lp in keep and p in self.fs:
                cls.add("kept")
                self.reject(p, e)
                continue
            self.mkparents(p)
            n = self.node(e, pkg["e"])
            if e["t"] == "h":
                n = dict(self.fs[e["to"]])
            if e["t"] == "d" and p in self.fs and self.fs[p]["t"] != "d":
                cls.add("clash")
            self.fs[p] = n
        m = set(meta_lines(pkg))
        if upgrade and "d1" in old["meta"]:
            m.add("d1")
            cls.add("auto-kept")
        sc = {k: v for k, v in (pkg.get("s") or {}).items() if k in ("PRER", "POSTR") and v is not None}
        self.db[name] = {"meta": m, "files": {lp for lp, _ in inst}, "scripts": sc}
        return True, cls

    def reject(self, p, e):
        new = self.node(e, None)
        cur = self.fs[p]
        if new is None:
            return
        if new["t"] == "d":
            return
        rp = REJ + "/" + p
        if new["t"] == "p":             # whether two FIFOs are the same is left open
            self.loose.add(rp)
            return
        self.loose.discard(rp)
        same = new["t"] == cur["t"] and new["own"] == cur["own"] and new.get("m") == cur.get("m")
        if same and new["t"] == "f":
            same = new["c"] == b"" or new["c"] == cur["c"]
        elif same:
            same = new.get("to") == cur.get("to") and new.get("dev") == cur.get("dev")
        if same:
            self.fs.pop(rp, None)
        else:
            self.fs[rp] = new

    def rm(self, name):
        known = self.aliases()
        if name not in known:
            return False, {"refuse-rm-not-installed"}
        if known[name] != name:
            return False, {"refuse-rm-alias"}
        cls = {"remove"}
        rec = self.db.pop(name)
        gone = set(rec["files"])
        for r in self.db.values():
            if gone & r["files"]:
                cls.add("shared")
            gone -= r["files"]
        for lp in sorted(gone, key=lambda s: s.encode("utf-8", "surrogateescape"), reverse=True):
            before = norm(lp) in self.fs
            self.unlink(lp)
            if before and norm(lp) in self.fs:
                cls.add("dir-kept")
        return True, cls


def plain_links(pkg, allow):
    """Give hard links the attributes of their target, or (with install/upgrade rules in force, where what a
    link to a left-out target means is not specified) turn them into ordinary files."""
    byp = {e["p"]: e for e in pkg["e"]}
    es = []
    for e in pkg["e"]:
        if e["t"] == "h":
            t = byp[e["to"]]
            e = dict(t, p=e["p"]) if not allow else dict({k: t[k] for k in ("m", "uid", "gid", "mt") if k in t}, p=e["p"], t="h", to=e["to"])
        es.append(e)
    return dict(pkg, e=es)


class Runner:
    """Interprets a history against the real tools, keeping the model in step."""

    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        self.w = ctx.w
        self.rel = case.get("root", "")       # cell-relative root
        self.w.reset()
        self.m = Model(case.get("rules", []), root_is_slash=(self.rel == ""), can_chown=os.path.exists(self.w.p('t/shim.so')))
        self.rargs = ["-r", "/" + self.rel] if self.rel else []
        if self.rel:
            self.w.mkdir(self.rel)
        self.w.mkdir(os.path.join(self.rel, DBDIR))
        self.w.mkdir("pkgs")
        if case.get("rules"):
            self.w.write(os.path.join(self.rel, CONF), "# rules\n" + "".join("%s\t%s %s\n" % tuple(r) for r in case["rules"]))
        self.skip_top = {"pkgs", "log"}
        if not self.rel:
            # the shell of the cell is part of the root
            for d in ("usr", "usr/bin"):
                self.m.fs[d] = {"t": "d", "m": 0o755, "own": (0, 0)}
            self.m.fs["usr/bin/sh"] = {"t": "f", "m": None}

    def real(self, p):
        return os.path.join(self.rel, p) if self.rel else p

    def fs_now(self):
        s = self.w.snapshot(self.rel)
        return {k: v for k, v in s.items() if not (not self.rel and k.split("/")[0] in self.skip_top)}

    # -- user actions outside the package manager
    def user(self, op):
        m = self.m
        if op["op"] == "auto":        # what `cards install` does for a dependency: mark the record automatic
            if op["n"] in m.db:
                m.db[op["n"]]["meta"].add("d1")
                f = self.w.p(self.real(DBDIR + "/" + op["n"] + "/META"))
                lines = open(f, encoding="utf-8", errors="surrogateescape").read().split("\n")
                if "d1" not in lines:
                    self.w.write(self.real(DBDIR + "/" + op["n"] + "/META"), "\n".join(sorted(l for l in lines if l) + ["d1"]) + "\n")
            return
        if op["op"] == "share":       # a database in which two packages list a file, as older versions left them
            own = sorted(f for r in m.db.values() for f in r["files"] if not f.endswith("/"))
            if not own or len(m.db) < 2: return
            f = own[op["p"] % len(own)]
            n = sorted(m.db)[op["n"] % len(m.db)]
            m.db[n]["files"].add(f)
            self.w.write(self.real(DBDIR + "/" + n + "/files"), "".join(x + "\n" for x in sorted(m.db[n]["files"], key=lambda x: x.encode("utf-8", "surrogateescape"))))
            return
        p = op["p"]
        if isinstance(p, int):        # one of the installed files
            own = sorted({f for r in m.db.values() for f in r["files"]} & set(m.fs))
            if not own: return
            p = own[p % len(own)]
        if op["op"] == "perm":        # the administrator changes permissions or owners
            if p in m.fs and m.fs[p]["t"] in ("f", "d") and m.fs[p].get("m") is not None:
                q = self.w.p(self.real(p))
                same = [k for k in m.fs if m.fs[k]["t"] == "f" and os.lstat(self.w.p(self.real(k))).st_ino == os.lstat(q).st_ino] if m.fs[p]["t"] == "f" else [p]
                for k in same:
                    m.fs[k] = dict(m.fs[k])
                    if op.get("m"): m.fs[k]["m"] = op["m"]
                    if m.can_chown and len(op.get("own") or []) == 2: m.fs[k]["own"] = tuple(op["own"])
                if op.get("m"): os.chmod(q, op["m"])
                if m.can_chown and len(op.get("own") or []) == 2: self.w.set_owner(q, *op["own"])
            return
        if op["op"] in ("write", "ln"):
            if any(d in m.fs and m.fs[d]["t"] != "d" for d in m.parents(p)) or (p in m.fs and m.fs[p]["t"] == "d"):
                return
            m.mkparents(p)
            for d in m.parents(p):
                if not os.path.isdir(self.w.p(self.real(d))):
                    self.w.mkdir(self.real(d))
            q = self.w.p(self.real(p))
            if os.path.lexists(q):
                os.unlink(q)
            if op["op"] == "ln":
                self.w.symlink(self.real(p), op.get("to") or "nowhere")
                self.w.set_owner(q, 0, 0)
                m.fs[p] = {"t": "l", "to": op.get("to") or "nowhere", "own": (0, 0)}
                return
            self.w.write(self.real(p), op["c"], op.get("m", 0o644), mtime=1500000000)
            self.w.set_owner(q, 0, 0)
            m.fs[p] = {"t": "f", "m": op.get("m", 0o644), "c": op["c"].encode("utf-8", "surrogateescape"),
                       "own": (0, 0), "mt": 1500000000}
        elif op["op"] == "edit":
            if p in m.fs and m.fs[p]["t"] == "f":
                n = dict(m.fs[p])
                q = self.w.p(self.real(p))
                os.unlink(q)          # break hard links: only this name changes
                n.update(c=op["c"].encode("utf-8", "surrogateescape"), mt=1500000000, own=(0, 0))
                self.w.write(self.real(p), op["c"], n["m"], mtime=1500000000)
                self.w.set_owner(q, 0, 0)
                m.fs[p] = n
        elif op["op"] == "unlink":
            if p in m.fs and m.fs[p]["t"] != "d":
                del m.fs[p]
                os.unlink(self.w.p(self.real(p)))
        elif op["op"] == "rmtree":
            if p in m.fs and m.fs[p]["t"] == "d":
                for k in [k for k in m.fs if k == p or k.startswith(p + "/")]:
                    del m.fs[k]
                W.safe_rmtree(self.w.p(self.real(p)), self.w.base)

    def compare(self):
        """Differences between the model and what is on disk: list of (aspect, path, text)."""
        out = []
        fs = self.fs_now()
        m = self.m
        for k in sorted(set(fs) | set(m.fs)):
            if k == DBDIR or k.startswith(DBDIR + "/") or k in ("var", "var/lib", "var/lib/pkg", CONF, REJ):
                continue
            if k == "usr/bin/sh" and not self.rel:
                continue
            if k in m.loose:
                continue
            a, e = fs.get(k), m.fs.get(k)
            if k.startswith(REJ + "/") and (a or e)["t"] == "d" and (a is None or e is None or a["t"] == e["t"] == "d"):
                continue
            if e is None:
                out.append(("extra", k, "%s exists but should not (%s)" % (k, W._n(a))))
            elif a is None:
                out.append(("missing", k, "%s is missing, expected %s" % (k, W._n(e))))
            else:
                bad = [f for f in ("t", "to", "c", "m", "own", "dev", "mt") if f in e and e[f] is not None and a.get(f) != e[f]
                       and not (f == "mt" and k.startswith(REJ))]
                if bad:
                    out.append(("differs", k, "%s differs in %s: is %s, expected %s" % (k, ",".join(bad), W._n(a), W._n(e))))
        db = self.w.read_db(self.rel)
        if db is None:
            out.append(("db", "", "the package database directory is gone"))
            return out
        for n in sorted(set(db) | set(m.db)):
            if n not in m.db:
                out.append(("db", n, "database has a record %r that should not exist: %s" % (n, str(db[n])[:200])))
            elif n not in db:
                out.append(("db", n, "database has no record of %r" % n))
            else:
                r, e = db[n], m.db[n]
                if r.get("meta") is None or sorted(r["meta"]) != sorted(e["meta"]):
                    out.append(("db", n, "metadata of %r is %s, expected %s" % (n, sorted(r.get("meta") or []), sorted(e["meta"]))))
                if r.get("files") is None or len(r["files"]) != len(set(r["files"])) or set(r["files"]) != e["files"]:
                    out.append(("db", n, "files of %r are %s, expected %s" % (n, r.get("files"), sorted(e["files"]))))
                oth = {k: (v or b"").decode("utf-8", "replace") for k, v in r["other"].items()}
                if oth != e["scripts"]:
                    out.append(("db", n, "record of %r also holds %s, expected %s" % (n, sorted(oth.items()), sorted(e["scripts"].items()))))
        return out

    def pkgfile(self, i, pkg):
        f = "pkgs/p%d.cards.tar" % i
        self.w.write(f, build_pkg(pkg))
        return "/" + f

    def step(self, i, op):
        """-> (classes, ok expected, Res) for a package operation, or None."""
        k = op["op"]
        if k == "add":
            pkg = plain_links(op["pkg"], not self.m.rules)
            up = op["mode"] == "u" or (op["mode"] == "auto" and pkg["n"] in self.m.db)
            f = self.pkgfile(i, pkg)
            args = list(self.rargs) + (["-u"] if up else []) + (["-f"] if op.get("f") else []) + (["-i"] if op.get("i") else [])
            if op.get("tail"):
                args = [f] + args
            else:
                args = args + [f]
            ok, cls = self.m.add(pkg, up, bool(op.get("f")))
            if op.get("f"):
                cls.add("force")
            return cls, ok, self.w.pkgadd(*args, cwd=op.get("cwd", "/"))
        if k == "rm":
            n = op["n"]
            if isinstance(n, int):       # one of the installed packages
                inst = sorted(self.m.db)
                if not inst:
                    return None
                n = inst[n % len(inst)]
            ok, cls = self.m.rm(n)
            return cls, ok, self.w.pkgrm(*self.rargs, n, cwd=op.get("cwd", "/"))
        self.user(op)
        return None

    def devs(self, ok, res):
        """Deviations of a step: list of (aspect, path, text)."""
        bad = []
        if res.crashed() or res.timeout:
            bad.append(("crash", "", "ended abnormally (status %d)" % res.rc))
        elif ok and res.rc != 0:
            bad.append(("refused", "", "was refused (status %d) but should succeed" % res.rc))
        elif not ok and res.rc == 0:
            bad.append(("accepted", "", "reported success but should be refused"))
        return bad + self.compare()

    def explain(self, i, op, cls, res, devs):
        return "step %d %s [%s] %s\n  tool said: %s" % (
            i, describe(op), ",".join(sorted(cls)), "; ".join(t for _, _, t in devs[:5]), res.text.strip()[-400:])


def describe(op):
    if op["op"] == "add":
        p = op["pkg"]
        return "add %s (mode %s%s%s) files %s" % (p["n"], op["mode"], " -f" if op.get("f") else "", " -i" if op.get("i") else "",
                                                 [e["p"] + ("/" if e["t"] == "d" else "") for e in p["e"]])
    return str({k: v for k, v in op.items()})


def run_history(ctx, case, wanted, also=None):
    """Run the history.  wanted: set of step classes, or a function (runner, op, cls, ok, devs) -> bool;
    a deviation at a step that is wanted is a violation.  A deviation elsewhere belongs to another
    property: the history ends there."""
    r = Runner(ctx, case)
    steps = 0
    want = wanted if callable(wanted) else (lambda r, op, cls, ok, devs: bool(cls & wanted))
    for i, op in enumerate(case["ops"]):
        st = r.step(i, op)
        if st is None:
            continue
        cls, ok, res = st
        ctx.tag(*cls)
        dv = r.devs(ok, res)
        rel = want(r, op, cls, ok, dv)
        steps += bool(rel)
        if dv:
            if rel:
                ctx.fail(r.explain(i, op, cls, res, dv))
            ctx.tag("other-property-deviation")
            return r, steps
        if also:
            also(r, i, op, cls, ok, res)
    return r, steps
