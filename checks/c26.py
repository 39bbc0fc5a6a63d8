import fnmatch, gzip, hashlib, io, lzma, os, re, shutil, subprocess, tarfile, time
import build as BLD, depot as D, elfgen as L, pkgmkcell as M, world as W
NEEDS = ["sbx", "pkgadd", "bsdtar"]
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of pkgmk: generated ports, configurations and sequences of runs against a reference model of the packages they have to give"
NOTE = ("Exploration: the pkgmk script runs (with the real pkginfo and coreutils, and stand-ins for bsdtar, file and strip) on generated ports; the packages, their meta data, the records of the collection, footprints and "
        "exit statuses are compared with an independent model, over sequences of builds, rebuilds, failures and cleanings.")
EXAMPLES = {"quick": 34, "thorough": 900}
BUDGET = {"quick": 420}
SHRINK_S = 60
RULE = ("a port with 0-25 installed files (manual pages and links to them, headers, libraries, services, documentation, locales, opt trees, desktop files, ELF files, .la files), its lists written as strings or arrays, "
        "0-5 groups in any order with built-in or own functions, locales, scripts, a shared or own directory with packages of similar names, every compression; 1-4 runs: build, again, new version, force, failure, clean, "
        "update of the records. Non-trivial: a package other than the plain one is made, or a second run decides.")
ASSUMPTIONS = ["bsdtar is not installed here: a stand-in written with libarchive does what pkgmk asks of it; file and strip are stand-ins that recognise marked files and record how they were stripped"]
ENV = M.ENV
NAMES = ["foo", "foo-bar", "foobar", "gtk+", "lib_x", "x", "zlib1"]
COLLS = ["base", "cli", "gui-extra"]
ELFS = ["E1", "E2"]
POOL = [
    ("usr/bin/foo", "f"), ("usr/bin/bar baz", "f"), ("etc/foo.conf", "f"), ("usr/lib/libfoo.so.1", "f"), ("usr/lib/libfoo.so", "l:libfoo.so.1"), ("usr/lib/libfoo.la", "f"), ("usr/lib/libfoo.a", "f"),
    ("usr/include/foo.h", "f"), ("usr/include/foo/deep/x.h", "f"), ("usr/lib/pkgconfig/foo.pc", "f"), ("usr/share/pkgconfig/foo.pc", "f"), ("usr/lib/cmake/foo/foo.cmake", "f"), ("usr/lib64/libold.so", "f"),
    ("usr/lib64/pkgconfig/old.pc", "f"), ("usr/lib/qt6/mkspecs/a.pri", "f"), ("usr/lib/qt6/plugins/b.so", "f"),
    ("usr/share/man/man1/foo.1", "f"), ("usr/share/man/man1/done.1.gz", "z"), ("usr/share/man/man8/food.8", "f"), ("usr/share/man/fr/man1/foo.1", "f"), ("usr/share/man/man1/two words.1", "f"),
    ("usr/share/man/man1/link.1", "l:foo.1"), ("usr/share/man/man1/abs.1", "l:/usr/share/man/man1/foo.1"), ("usr/share/man/man1/gzl.1.gz", "l:done.1.gz"), ("usr/share/man/man8/other.8", "l:../man1/foo.1"),
    ("usr/share/man/man1/a-chain.1", "l:link.1"), ("usr/share/man/man1/z-chain.1", "l:link.1"), ("usr/share/man/man1/gone.1", "l:nowhere.1"), ("usr/share/man/fr_FR", "l:fr"),
    ("usr/share/info/foo.info", "f"), ("usr/share/info/lnk.info", "l:foo.info"),
    ("usr/share/doc/foo/README", "f"), ("usr/share/gtk-doc/html/i.html", "f"), ("usr/share/doc/foo/see", "l:README"),
    ("usr/lib/systemd/system/foo.service", "f"), ("usr/lib/systemd/user/foo.service", "f"), ("usr/lib/systemd/foo-helper", "f"),
    ("usr/share/locale/fr/LC_MESSAGES/foo.mo", "f"), ("usr/share/locale/fr_CA/LC_MESSAGES/foo.mo", "f"), ("usr/share/locale/de/LC_MESSAGES/foo.mo", "f"), ("usr/share/locale/pt_BR/LC_MESSAGES/foo.mo", "f"),
    ("opt/k/include/k.h", "f"), ("opt/k/lib/libk.so", "f"), ("opt/k/lib/pkgconfig/k.pc", "f"), ("opt/k/share/man/man1/k.1", "f"), ("opt/k/share/doc/k", "f"), ("opt/k/share/locale/fr/k.mo", "f"), ("opt/m/include/m.h", "f"), ("opt/m/bin/m", "f"),
    ("usr/share/applications/foo.desktop", "d"), ("usr/share/applications/kde/bar.desktop", "d"), ("usr/share/foo/data", "f"), ("usr/share/foo/x/y", "f"), ("var/lib/foo", "D"), ("usr/share/empty", "D"), ("usr/share/doc", "D"), ("usr/include", "D"), ("tmp/wide", "D"),
    ("usr/share/fr-data/t", "f"),
]
GROUPS = ["devel", "man", "doc", "service", "lib"]
CATS = ["Game;Board;", "Utility", "Qt;KDE;Utility;", "Office;Game", "X-Odd;"]
WORDS = ["w1", "desk-top", "gnu", "q+", "kde5"]
KINDS = ["pre-install", "post-install", "pre-remove", "post-remove"]
SCR = {"pre-install": ".PRE", "post-install": ".POST", "pre-remove": ".PRER", "post-remove": ".POSTR"}
MARK = {"exe": b"#EXE\n", "so": b"#SO\n", "ar": b"#AR\n", "": b""}
OPT = {"exe": b"--strip-all", "so": b"--strip-unneeded", "ar": b"--strip-debug"}


def somedir(g, full):
    ds = sorted({"/".join(e["p"].split("/")[:k]) for e in full for k in (1, 2, 3) if e["p"].count("/") >= k})
    return g.choice(ds) if ds and g.chance(0.85) else "no/such"


def gen(g, tier):
    n = g.choice(NAMES)
    tree = []
    pool = list(POOL)
    k = g.choice([g.randint(0, 6), g.randint(3, 25)])
    if g.chance(0.5):
        sec = g.choice(["man", "lib", "include", "locale", "opt", "doc", "systemd"])
        tree += [[p, t] for p, t in pool if sec in p and g.chance(0.8)]
    for p, t in g.sub(pool, k, k):
        if [p, t] not in tree: tree.append([p, t])
    if g.chance(0.04): tree.append(g.choice([["usr/sbin/food", "f"], ["sbin/init", "f"]]))
    full = []
    for p, t in tree:
        e = {"p": p, "t": t[0]}
        if t[0] == "l": e["to"] = t[2:]
        elif t == "f":
            e["c"] = g.choice(["x", "some text\n", "", "é\n"])
            e["m"] = g.choice([0o644, 0o644, 0o755, 0o600] + ([] if "/man" in p or "/info" in p else [0o4755]))
            if "man" not in p and "info" not in p and g.chance(0.25): e["mk"] = g.choice(["exe", "so", "ar"]); e["m"] = 0o755
            elif "man" not in p and "info" not in p and g.chance(0.15): e["elf"] = g.choice(ELFS); e["m"] = 0o755
        elif t == "d": e["c"] = g.choice(CATS)
        elif t == "D": e["m"] = g.choice([0o755, 0o1777, 0o700])
        full.append(e)
    q = {"n": n, "c": g.choice(COLLS), "v": g.choice(["1.0", "2.1", "r77", "1_2", "2024.01"]), "t": full}
    if g.chance(0.6): q["r"] = g.choice([1, 2, 12])
    q["d"] = g.choice(["A tool", "x", "An \\\"odd\\\" & <strange> one", "été", "D" * 255])
    for f, v in (("url", "https://x.org/"), ("packager", "p at x dot org"), ("maintainer", "The team, nobody"), ("contributors", "a, b"), ("license", "MIT"), ("url", "")):
        if g.chance(0.35): q.setdefault("f", {})[f] = v
    for f in ("alias", "set", "conflicts", "categories"):
        if g.chance(0.3): q.setdefault("w", {})[f] = [g.choice(["s", "a"] if f != "alias" else ["s"]), g.sub(WORDS, 1, 3)]
    if g.chance(0.3): q["run"] = [g.choice(["a", "a", "s"]), g.sub(["dep1", "dep2", "dep-3", "@self", "nosuch"] if g.chance(0.2) else ["dep1", "dep2", "dep-3", "@self"], 1, 3)]
    gs = g.sub(GROUPS, 0, 4)
    if g.chance(0.4): gs = ["devel", "man", "doc", "service"]
    elif g.chance(0.5): g.shuffle(gs)
    q["g"] = gs
    if gs and g.chance(0.25): q["gf"] = {g.choice(gs): somedir(g, full)}
    if gs and g.chance(0.15): q["gr"] = {g.choice(gs): g.sub(["dep1", "dep2"], 1, 2)}
    q["l"] = g.sub(["fr", "de", "pt", "en"], 0, 3) if g.chance(0.6) else []
    if q["l"] and g.chance(0.2): q["lf"] = {g.choice(q["l"]): somedir(g, full)}
    for _ in range(g.randint(0, 3) if g.chance(0.4) else 0):
        q.setdefault("s", []).append([g.choice([""] * 3 + gs + q["l"]), g.choice(KINDS)])
    q["own"] = int(g.chance(0.35))
    q["src"] = g.pick((12, lambda: "tar"), (5, lambda: "url"), (2, lambda: "plain"), (1, lambda: "missing"), (1, lambda: "bad"))
    q["p"] = g.pick((10, lambda: ""), (1, lambda: "prepare"), (1, lambda: "package"), (1, lambda: "xprepare"), (1, lambda: "xpackage"), (1, lambda: "xbuild"))
    q["z"] = g.pick((6, lambda: ""), (1, lambda: "gz"), (1, lambda: "xz"), (1, lambda: "zst"), (1, lambda: "bz2"))
    for f, pr in (("nostrip", 0.15), ("keepla", 0.2), ("igf", 0.3), ("deps", 0.7), ("igr", 0.1), ("keep", 0.3), ("filter", 0.2), ("ignl", 0.2), ("noclean", 0.4)):
        if g.chance(pr): q[f] = 1
    q["in"] = g.sub(["dep1", "dep2", "dep-3", "zlib", "foo.devel"], 3, 5)
    if g.chance(0.06): q["badname"] = g.choice(["release", "descr", "long", "name", "dirname", "noversion", "mode"])
    oth = []
    for x in g.sub([m for m in NAMES if m != n] + [n + "-doc", n + "2"], 0, 4): oth.append([x, g.choice(["", "", "devel"]), g.choice(["1.0", "3"]), int(g.chance(0.5))])
    q["o"] = oth
    if q["src"] == "url" and g.chance(0.7): q["dl"] = {"m": [g.choice(["ok", "none", "half", "down"]) for _ in range(g.randint(0, 2))], "o": g.choice(["ok", "ok", "ok", "none", "half"]), "d": int(g.chance(0.8))}
    q["x"] = ["build"] + [g.pick((3, lambda: "again"), (3, lambda: "new"), (1, lambda: "force"), (2, lambda: "fail"), (1, lambda: "clean"), (1, lambda: "utd"), (1, lambda: "sv"), (1, lambda: "ur"), (1, lambda: "cs"), (1, lambda: "rec"), (2, lambda: "inst"), (1, lambda: "po"), (1, lambda: "eo"), (1, lambda: "uf"), (1, lambda: "do")) for _ in range(g.randint(0, 3))]
    return q




ELF = {"E1": {"needed": ["libz.so.1"]}, "E2": {"needed": ["libz.so.1", "libnone.so.3"], "soname": "libe2.so.2"}}


def body(e):
    if e.get("elf") in ELF: return L.build(ELF[e["elf"]])
    t = e.get("t")
    if t == "d": return b"[Desktop Entry]\nName=x\nCategories=" + str(e.get("c", "A;")).encode() + b"\nComment=y\n"
    if t == "z": return gzip.compress(b"page", mtime=0)
    return MARK.get(e.get("mk", ""), b"") + str(e.get("c", "x")).encode() + (b"\n" if e.get("mk") else b"")


def clean_tree(case):
    """path -> node of what build() installs (later entries that clash are left out)."""
    tree = {}
    for e in case.get("t", []):
        p = str(e.get("p", "x")).strip("/")
        if not p or p in tree and e.get("t") != "D": continue
        ps = p.split("/")
        ups = ["/".join(ps[:i]) for i in range(1, len(ps))]
        if any(u in tree and tree[u]["t"] != "D" for u in ups): continue
        if e.get("t") == "D":
            if any(x.startswith(p + "/") for x in tree) or p in tree:
                if p in tree and tree[p]["t"] != "D": continue
            tree[p] = {"t": "D", "m": int(e.get("m", 0o755))}
            continue
        if any(x.startswith(p + "/") for x in tree): continue
        if e.get("t") == "l": tree[p] = {"t": "l", "to": str(e.get("to", "x"))}
        else: tree[p] = {"t": "f", "c": body(e), "m": int(e.get("m", 0o644)), "mk": e.get("mk", "") if e.get("mk", "") in OPT else ""}
    for p in list(tree):
        ps = p.split("/")
        for i in range(1, len(ps)): tree.setdefault("/".join(ps[:i]), {"t": "D", "m": 0o755})
    return tree


def src_tar(tree):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w", format=tarfile.GNU_FORMAT) as tf:
        for p in [""] + sorted(tree):
            n = tree.get(p, {"t": "D", "m": 0o755})
            ti = tarfile.TarInfo("root/" + p if p else "root")
            ti.mtime = D.BT
            if n["t"] == "D": ti.type, ti.mode = tarfile.DIRTYPE, n["m"]; tf.addfile(ti)
            elif n["t"] == "l": ti.type, ti.linkname, ti.mode = tarfile.SYMTYPE, n["to"], 0o777; tf.addfile(ti)
            else:
                ti.size, ti.mode = len(n["c"]), n["m"]
                tf.addfile(ti, io.BytesIO(n["c"]))
    return b.getvalue()


def below(tree, d): return [p for p in tree if p == d or p.startswith(d + "/")]


def norm(p):
    out = []
    for x in p.split("/"):
        if x == ".." and out and out[-1] != "..": out.pop()
        elif x not in ("", "."): out.append(x)
    return "/".join(out)


def model(case, tree):
    """-> ({package suffix: {path: node}}, categories) or the reason of a failure."""
    t = {p: dict(n) for p, n in tree.items()}
    name = str(case.get("n", "x"))
    if not case.get("nostrip"):
        for p, n in t.items():
            if n["t"] == "f" and n["mk"] and not (case.get("filter") and "lib" in p):
                n["c"] = n["c"] + OPT[n["mk"]] + b"\n"
    for pat in ("*/share/man*/*", "*/share/info/*"):
        for p in [p for p in t if fnmatch.fnmatchcase("./" + p, pat) and t[p]["t"] == "f" and not p.endswith(".gz")]:
            n = t.pop(p)
            t[p + ".gz"] = dict(n, z=1)
        links = [p for p in t if fnmatch.fnmatchcase("./" + p, pat) and t[p]["t"] == "l"]
        dirs = {p for p in links if t.get(norm(os.path.dirname(p) + "/" + t[p]["to"]), {}).get("t") == "D"}
        old = dict(t)
        for p in links:
            if p in dirs: continue
            to = old[p]["to"]
            base = to[:-3] if to.endswith(".gz") else to
            d = os.path.dirname(p)
            def there(x):
                y = norm(d + "/" + x)
                return y + ".gz" in old or y in old and old[y]["t"] == "l"
            if base.startswith("/") or not there(base): base = os.path.basename(base)
            del t[p]
            if there(base): t[(p[:-3] if p.endswith(".gz") else p) + ".gz"] = {"t": "l", "to": base + ".gz"}
        for p in links:         # a chain of links that leads nowhere can go or stay
            q, hop = (p[:-3] if p.endswith(".gz") else p) + ".gz", 0
            x = q
            while x in t and t[x]["t"] == "l" and hop < 40: x, hop = norm(os.path.dirname(x) + "/" + t[x]["to"]), hop + 1
            if q in t and (x not in t or hop >= 40): t[q] = dict(t[q], may=1)
    pk, cats = {}, set()
    if not case.get("keepla"): t = {p: n for p, n in t.items() if not (p.endswith(".la") and n["t"] != "D")}

    def take(suffix, d):
        ps = below(t, d)
        if not ps: return False
        dst = pk.setdefault(suffix, {})
        for p in ps: dst[p] = t.pop(p)
        return True
    def globs(*pats):
        return [q for pat in pats for q in sorted(p for p in t if t[p]["t"] == "D" and fnmatch.fnmatchcase(p, pat) and p.count("/") == pat.count("/"))]
    opts = lambda tail: [d + tail for d in sorted(p for p in t if re.fullmatch(r"opt/[^/.][^/]*", p))]
    gf = case.get("gf") or {}
    for g in case.get("g", []):
        if g in gf:
            if not take(g, gf[g]): return "group function"
        elif g == "devel":
            for d in ["usr"] + opts(""):
                for s in ("include", "lib/pkgconfig", "share/pkgconfig", "lib/cmake", "lib/qt6/mkspecs", "lib/qt6/metatypes"):
                    if t.get(d + "/" + s, {}).get("t") == "D": take(g, d + "/" + s)
        elif g == "lib":
            for d in ["usr"] + opts(""):
                for s in ("lib", "lib64"):
                    x = d + "/" + s
                    if t.get(x, {}).get("t") != "D": continue
                    keep = {p: t.pop(p) for p in below(t, x + "/pkgconfig")}
                    take(g, x)
                    if keep:
                        t[x] = {"t": "D", "m": 0o755}
                        t.update(keep)
        elif g in ("doc", "man"):
            for d in ["usr/share"] + opts("/share"):
                for s in ("doc", "gtk-doc") if g == "doc" else ("info", "man"):
                    if t.get(d + "/" + s, {}).get("t") == "D": take(g, d + "/" + s)
        elif g == "service":
            for d in ("usr/lib/systemd/system", "usr/lib/systemd/user"):
                if t.get(d, {}).get("t") == "D": take(g, d)
            if t.get("usr/lib/systemd", {}).get("t") == "D" and below(t, "usr/lib/systemd") == ["usr/lib/systemd"]: del t["usr/lib/systemd"]
    lf = case.get("lf") or {}
    for l in case.get("l", []):
        if l in lf:
            if not take(l, lf[l]): return "locale function"
        else:
            for d in globs("usr/share/locale/" + l + "*", "opt/*/share/locale/" + l + "*"): take(l, d)
    for d in globs("usr/share/locale", "opt/*/share/locale"):
        for p in below(t, d): del t[p]
    if "usr/sbin" in t or "sbin" in t: return "sbin"
    if not t: return "empty"
    pk[""] = t
    for p, n in t.items():
        if p.startswith("usr/share/applications/") and n["t"] == "f":
            for l in n["c"].decode("utf-8", "replace").split("\n"):
                if l.startswith("Categories"): cats |= {x for x in l.split("=", 1)[1].split(";") if x}
    for s in pk:
        for p in list(pk[s]):
            ps = p.split("/")
            for i in range(1, len(ps)): pk[s].setdefault("/".join(ps[:i]), {"t": "D", "m": None})
    return pk, sorted(cats)


def quote(ws, how): return '"' + " ".join(ws) + '"' if how == "s" else "(" + " ".join(ws) + ")"


def pkgfile(case, v, fail):
    b = case.get("badname")
    Lp = ["# port"]
    if b == "name": Lp.append("name=Foo.x")
    if b == "dirname": Lp.append("name=other")
    Lp.append('description="%s"' % ("D" * 256 if b == "long" else "" if b == "descr" else case.get("d", "x")))
    for f, x in (case.get("f") or {}).items(): Lp.append('%s="%s"' % (f, x))
    if b != "noversion": Lp.append("version=" + v)
    if b == "release": Lp.append("release=1a")
    elif case.get("r"): Lp.append("release=%d" % int(case["r"]))
    for f, x in (case.get("w") or {}).items(): Lp.append("%s=%s" % (f, quote(x[1], x[0])))
    if case.get("run"): Lp.append("run=" + quote([x if x != "@self" else case["n"] + ".devel" for x in case["run"][1]], case["run"][0]))
    for g, x in (case.get("gr") or {}).items(): Lp.append("run_%s=%s" % (g, quote(x, "a")))
    s = case.get("src", "tar")
    src = {"tar": "tree.tar", "url": "https://x.org/dl/tree.tar", "plain": "tree.tar %s.txt" % case["n"], "missing": "tree.tar absent.c", "bad": "tree.tar bad.tar.xz"}.get(s, "tree.tar")
    Lp.append("source=(%s)" % src)
    p = "xbuild" if fail else case.get("p", "")
    if p in ("prepare", "xprepare"): Lp += ["prepare() {", "  ls root", "  : > root/../prepared", "  false" if p == "xprepare" else "  true", "}"]
    Lp += ["build() {"] + (["  ls prepared"] if p == "prepare" else []) + ["  cp -a root/. $PKG/", "  false" if p == "xbuild" else "  true"] + (["  true"]) + ["}"]
    if p in ("package", "xpackage"): Lp += ["package() {", "  ls $PKG", "  false" if p == "xpackage" else "  true", "}"]
    for g, d in (case.get("gf") or {}).items(): Lp += [g + "() {", "  bsdtar -r -f $PKGMK_PACKAGE_DIR/${name}.%s${PKGMK_PACKAGE_EXT}$version-$release %s" % (g, d), "  rm -r " + d, "}"]
    for g, d in (case.get("lf") or {}).items(): Lp += ["locale_" + g + "() {", "  bsdtar -r -f $PKGMK_PACKAGE_DIR/${name}.%s${PKGMK_PACKAGE_EXT}$version-$release %s" % (g, d), "  rm -r " + d, "}"]
    return "\n".join(Lp) + "\n"


def read_pkg(data, z):
    if z == "gz": data = gzip.decompress(data)
    elif z == "xz": data = lzma.decompress(data)
    elif z == "bz2": import bz2; data = bz2.decompress(data)
    elif z == "zst": data = subprocess.run(["zstd", "-q", "-d", "-c"], input=data, stdout=subprocess.PIPE, check=True).stdout
    order, ents = [], {}
    with tarfile.open(fileobj=io.BytesIO(data)) as tf:
        for ti in tf.getmembers():
            p = ti.name.strip("/")
            order.append(p)
            if ti.isdir(): ents[p] = {"t": "D", "m": ti.mode}
            elif ti.issym(): ents[p] = {"t": "l", "to": ti.linkname}
            else: ents[p] = {"t": "f", "c": tf.extractfile(ti).read(), "m": ti.mode}
    return order, ents


def records(text):
    out = {}
    for r in text.split("\n\n"):
        ls = [l for l in r.split("\n") if l]
        if ls:
            if ls[0] in out: return None
            out[ls[0]] = ls[1:]
    return out


def listing(ents): return None


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    M.prepare(w, BLD.REPO)
    n, col = str(case.get("n", "x")) or "x", str(case.get("c", "base")) or "base"
    case = dict(case, n=n, c=col)
    port = "/ports/%s/%s" % (col, n)
    pdir = port if case.get("own") else "/depot/" + col
    work = "/work/w" if not case.get("own") else port + "/work"
    for d in (port, pdir, "/work", "/src", "/etc", "/tmp", "/var/lib/pkg/DB", "/ports/%s/aaa" % col): w.mkdir(d)
    groups, locs = list(case.get("g", [])), list(case.get("l", []))
    inst = {}
    for i, x in enumerate(case.get("in", [])):
        x = str(x)
        if x.split(".")[0] == n: continue
        inst[x] = D.BT + i
        w.write("/var/lib/pkg/DB/%s/META" % x, "N%s\nV1\nr1\nB%d\n" % (x, inst[x]))
        w.write("/var/lib/pkg/DB/%s/files" % x, "".join(f + "\n" for f in (["usr/lib/libz.so.1"] if x in ("zlib", "foo.devel") else ["usr/share/" + x])))
    conf = ["PKGMK_GROUPS=(%s)" % " ".join(groups), "PKGMK_LOCALES=(%s)" % " ".join(locs), "PKGMK_PACKAGE_DIR=" + pdir, "PKGMK_WORK_DIR=" + work, "PKGMK_COMPRESSION_OPTS=-1"]
    url = case.get("src") == "url"
    if url: conf.append("PKGMK_SOURCE_DIR=/src")
    z = str(case.get("z", "") or "")
    if z: conf += ["PKGMK_COMPRESS_PACKAGE=yes", "PKGMK_COMPRESSION_MODE=" + z]
    if case.get("badname") == "mode": conf.append("PKGMK_COMPRESSION_MODE=rar")
    if case.get("nostrip"): conf.append("PKGMK_NO_STRIP=yes")
    if case.get("keepla"): conf.append("PKGMK_KEEP_LA_LIBS=yes")
    if case.get("igf"): conf.append("PKGMK_IGNORE_FOOTPRINT=yes")
    if not case.get("deps"): conf.append("PKGMK_IGNORE_RUNTIMEDEPS=yes")
    if case.get("ignl"): conf.append("PKGMK_IGNORE_RUNTIMELIBS=yes")
    if case.get("igr"): conf.append("PKGMK_IGNORE_REPO=yes")
    if case.get("noclean"): conf.append("PKGMK_CLEAN=no")
    dl = case.get("dl") if url else None
    if dl:
        conf.append("PKGMK_SOURCE_MIRRORS=(%s)" % " ".join("https://m%d.org/pub%s" % (i, "/" * (i % 2)) for i in range(len(dl.get("m", [])))))
        if dl.get("d") == 2: conf.append("PKGMK_DOWNLOAD=yes")
    if case.get("keep"): conf.append("PKGMK_KEEP_SOURCES=yes")
    w.write("/etc/pkgmk.conf", "\n".join(conf) + "\n")
    if case.get("filter"): w.write(port + "/.nostrip", "lib\n")
    scripts = {}
    for x in case.get("s", []):
        if x[0] and x[0] not in groups + locs: continue
        s, k = x[0], x[1] if x[1] in SCR else "pre-install"
        t = "#!/bin/sh\n# %s %s\n" % (s, k)
        w.write("%s/%s%s.%s" % (port, n, "." + s if s else "", k), t)
        scripts.setdefault(s, {})[SCR[k]] = t.encode()
    # packages and records of other ports
    orep, ofil, seen = [], [], set()
    for o in case.get("o", []):
        x, s, v, sig = str(o[0]), str(o[1] or ""), str(o[2]), o[3]
        if x == n or not x or (x, s) in seen: continue
        seen.add((x, s))
        full = x + ("." + s if s else "")
        a = W.make_pkg(["N" + full, "V" + v, "r1", "B%d" % D.BT, "S1", "c" + col, "a" + D.ARCH] + (["g" + s] if s else ["Dx"]), [{"p": "usr/share/" + full, "t": "f", "c": "x"}])
        fn = "%s.cards-%s-1" % (full, v)
        w.write(pdir + "/" + fn, a)
        orep += ["@" + fn, "N" + full, "V" + v, "r1", "B%d" % D.BT, "S1", "c" + col, "a" + D.ARCH] + (["g" + s] if s else ["Dx"]) + ["i%d" % len(a), "H" + hashlib.sha512(a).hexdigest()] + (["I" + "ab" * 64] if sig else []) + [""]
        ofil += ["@" + fn, "usr/share/" + full, ""]
    if orep:
        w.write(pdir + "/.REPO", "\n".join(orep) + "\n")
        w.write(pdir + "/.FILES", "\n".join(ofil) + "\n")
    orec = records("\n".join(orep)) or {}
    ofrec = records("\n".join(ofil)) or {}
    tree = clean_tree(case)
    v = str(case.get("v", "1")) or "1"
    rel = int(case.get("r") or 1)
    st = {"v": v, "pk": None}

    if dl:
        data = src_tar(tree)
        for i, x in enumerate(list(dl.get("m", [])) + [dl.get("o", "ok")]):
            f = "/web/m%d.org/pub/tree.tar" % i if i < len(dl.get("m", [])) else "/web/x.org/dl/tree.tar"
            if x == "ok": w.write(f, data)
            elif x == "half": w.write(f + ".half", data[:len(data) // 2])
    asked = []
    for i, x in enumerate(dl.get("m", []) if dl else []):
        asked.append("https://m%d.org/pub/tree.tar" % i)
        if x == "ok": break
    else: asked.append("https://x.org/dl/tree.tar")
    avail = bool(dl) and (dl.get("o", "ok") == "ok" or "ok" in dl.get("m", []))

    def sources():
        if dl:
            for f in ("tree.tar", "tree.tar.partial"):
                if os.path.exists(w.p("src/" + f)): os.unlink(w.p("src/" + f))
            return
        w.write(("/src" if url else port) + "/tree.tar", src_tar(tree))
        if case.get("src") == "plain": w.write(port + "/%s.txt" % n, "plain\n")
        if case.get("src") == "bad": w.write(port + "/bad.tar.xz", "no archive at all")

    def write_port(fail=False, mt=D.BT):
        w.write(port + "/Pkgfile", pkgfile(case, st["v"], fail), mtime=mt)
    sources()
    write_port()
    mine = lambda f: (f.startswith(n + ".cards-") or f.startswith(n + ".") and ".cards-" in f)

    def pkgs(): return {f: open(w.p(pdir.lstrip("/"), f), "rb").read() for f in sorted(os.listdir(w.p(pdir.lstrip("/")))) if mine(f) and os.path.isfile(w.p(pdir.lstrip("/"), f))}

    def others(): return {f: open(w.p(pdir.lstrip("/"), f), "rb").read() for f in sorted(os.listdir(w.p(pdir.lstrip("/")))) if ".cards-" in f and not mine(f)}
    oth0 = others()

    def outside():
        s = W.strip_ino(w.snapshot())
        return {p: x for p, x in s.items() if not any(p == d.strip("/") or p.startswith(d.strip("/") + "/") for d in (port, pdir, "/work", "/src", "/tmp"))}
    out0 = outside()

    def text(f):
        try: return open(w.p(pdir.lstrip("/"), f), encoding="utf-8", errors="surrogateescape").read()
        except FileNotFoundError: return ""

    def check_records(what, own):
        for f, oth in ((".REPO", orec), (".FILES", ofrec)):
            r = records(text(f))
            if r is None: return ctx.fail("%s: two records of one package in %s" % (what, f))
            rest = {k: x for k, x in r.items() if not mine(k[1:])}
            if rest != oth: return ctx.fail("%s: records of other ports in %s are %s, expected %s" % (what, f, {k: x for k, x in rest.items() if oth.get(k) != x} or sorted(rest), sorted(oth)))
            if own is None: continue
            got = {k[1:] for k in r if mine(k[1:])}
            if got != set(own): return ctx.fail("%s: records of the port in %s are %s, packages are %s" % (what, f, sorted(got), sorted(own)))
            for k, x in r.items():
                if k[1:] not in own: continue
                data, order, ents = own[k[1:]]
                if f == ".REPO":
                    meta = [l for l in ents[".META"]["c"].decode("utf-8", "surrogateescape").split("\n") if l]
                    if sorted(x) != sorted(meta + ["i%d" % len(data), "H" + hashlib.sha512(data).hexdigest()]): return ctx.fail("%s: record of %s in .REPO is %s, meta data %s, %d bytes" % (what, k, x, meta, len(data)))
                else:
                    exp = {p + ("/" if ents[p]["t"] == "D" else "") for p in ents if not p.startswith(".")}
                    got_, files = {l for l in x if not l.startswith(".")}, {p for p in exp if not p.endswith("/")}
                    if got_ - exp or files - got_: return ctx.fail("%s: record of %s in .FILES is %s, files are %s" % (what, k, x[:8], sorted(exp)[:8]))
        if own is not None:
            zf = open(w.p(pdir.lstrip("/"), ".FILES.zst"), "rb").read() if os.path.exists(w.p(pdir.lstrip("/"), ".FILES.zst")) else b""
            t = subprocess.run(["zstd", "-q", "-d", "-c"], input=zf, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
            if t.decode("utf-8", "surrogateescape") != text(".FILES"): return ctx.fail("%s: .FILES.zst does not hold .FILES" % what)

    bad = case.get("badname")
    why = None
    if bad: why = 2 if bad != "mode" else 1
    elif case.get("src") == "missing": why = 4
    elif case.get("src") == "bad": why = 5
    elif str(case.get("p", "")).startswith("x"): why = 8
    m = model(case, tree)
    runs = [x if x != "@self" else n + ".devel" for x in (case.get("run") or [0, []])[1]] if case.get("deps") else []
    if why is None and isinstance(m, str): why = 8
    if dl and not (avail and dl.get("d")) and why in (None, 8): why = 4
    if why is None and (any(x not in inst and x.split(".")[0] != n for x in runs) or case.get("deps") and any(x not in inst for s, xs in (case.get("gr") or {}).items() if s in m[0] for x in xs)): why = 10
    names = lambda vv: {s: "%s%s.cards-%s-%d%s" % (n, "." + s if s else "", vv, rel, "." + z if z else "") for s in (m[0] if not isinstance(m, str) else {})}

    def check_packages(what, t0):
        want = names(st["v"])
        got = pkgs()
        if set(got) != set(want.values()): return ctx.fail("%s: packages are %s, expected %s" % (what, sorted(got), sorted(want.values())))
        own, builds = {}, set()
        for s, f in want.items():
            try: order, ents = read_pkg(got[f], z)
            except Exception as e: return ctx.fail("%s: %s cannot be read: %s" % (what, f, e))
            own[f] = (got[f], order, ents)
            exp = m[0][s]
            if len(order) != len(set(order)): return ctx.fail("%s: %s holds %s twice" % (what, f, [p for p in order if order.count(p) > 1][:3]))
            if order[:1] != [".META"] or ".MTREE" not in order: return ctx.fail("%s: %s begins with %s" % (what, f, order[:3]))
            dots = {p for p in ents if p.startswith(".")}
            if dots != {".META", ".MTREE"} | set(scripts.get(s, {})): return ctx.fail("%s: hidden entries of %s are %s, expected scripts %s" % (what, f, sorted(dots), sorted(scripts.get(s, {}))))
            for k, c in scripts.get(s, {}).items():
                if ents[k]["c"] != c: return ctx.fail("%s: %s of %s is %r" % (what, k, f, ents[k]["c"]))
            have = {p for p in ents if not p.startswith(".")}
            exp = {p: x for p, x in exp.items() if not x.get("may") or p in have}
            if have != set(exp): return ctx.fail("%s: %s misses %s and should not hold %s" % (what, f, sorted(set(exp) - have)[:5], sorted(have - set(exp))[:5]))
            for p, x in exp.items():
                y = ents[p]
                if x["t"] != y["t"]: return ctx.fail("%s: %s in %s is %s, expected %s" % (what, p, f, y["t"], x["t"]))
                if x["t"] == "l" and x["to"] != y["to"]: return ctx.fail("%s: link %s in %s leads to %s, expected %s" % (what, p, f, y["to"], x["to"]))
                if x.get("m") is not None and x["m"] != y.get("m"): return ctx.fail("%s: mode of %s in %s is %o, expected %o" % (what, p, f, y["m"], x["m"]))
                if x["t"] == "f":
                    c = gzip.decompress(y["c"]) if x.get("z") else y["c"]
                    if c != x["c"]: return ctx.fail("%s: %s in %s holds %r, expected %r" % (what, p, f, c[:60], x["c"][:60]))
            mt = [l.rstrip("/") for l in ents[".MTREE"]["c"].decode("utf-8", "surrogateescape").split("\n") if l]
            lost = {p for p in exp if exp[p]["t"] != "D"} - set(mt)
            if lost or set(mt) - set(exp) - set(scripts.get(s, {})): return ctx.fail("%s: .MTREE of %s misses %s, names %s" % (what, f, sorted(lost)[:4], sorted(set(mt) - set(exp))[:4]))
            meta = [l for l in ents[".META"]["c"].decode("utf-8", "surrogateescape").split("\n") if l]
            b = [l[1:] for l in meta if l[0] == "B"]
            if len(b) != 1 or not b[0].isdigit() or not t0 - 2 <= int(b[0]) <= time.time() + 2: return ctx.fail("%s: build time of %s is %s" % (what, f, b))
            builds.add(b[0])
            sz = [l[1:] for l in meta if l[0] == "S"]
            if len(sz) != 1 or not sz[0].isdigit() or int(sz[0]) < sum(len(y["c"]) for y in ents.values() if y["t"] == "f" and y is not ents[".META"] and y is not ents[".MTREE"]): return ctx.fail("%s: size of %s is %s" % (what, f, sz))
            F = case.get("f") or {}
            em = ["N" + n + ("." + s if s else ""), "V" + st["v"], "r%d" % rel, "B" + b[0], "S" + sz[0], "c" + col, "a" + os.uname().machine]
            grp = s in groups
            if not s:
                em += ["D" + str(case.get("d", "x")).replace("\\", "")] + [k + (F.get(f_) or d) for k, f_, d in (("U", "url", "none"), ("C", "contributors", "none"), ("M", "maintainer", "none"), ("P", "packager", "none"), ("L", "license", "GPL"))]
            else: em.append(("g" if grp else "n") + s)
            libs = set()
            for p, x in exp.items():
                if x["t"] == "f" and x["c"][:4] == b"\x7fELF" and not any(c.startswith(".") for c in p.split("/")):
                    for e in ELF.values():
                        if x["c"].startswith(L.build(e)): libs |= L.libraries(e)
            if case.get("deps"):
                if "libz.so.1" in libs and "zlib" in inst: em.append("Rzlib%d" % inst["zlib"])
                if not s:
                    for x in runs: em.append("R%s%s" % (x, b[0] if x.split(".")[0] == n else inst[x]))
                for x in (case.get("gr") or {}).get(s, []) if s else []: em.append("R%s%d" % (x, inst[x]))
            if not case.get("ignl"): em += ["l" + x for x in libs]
            Wd = case.get("w") or {}
            em += ["A" + x + ("." + s if s else "") for x in Wd.get("alias", [0, []])[1]]
            em += ["s" + x for x in Wd.get("set", [0, []])[1]] + ["o" + x for x in Wd.get("conflicts", [0, []])[1]]
            em += ["T" + x for x in (Wd["categories"][1] if Wd.get("categories") else m[1])]
            if sorted(meta) != sorted(em): return ctx.fail("%s: meta data of %s: missing %s, unexpected %s" % (what, f, sorted(set(em) - set(meta)), sorted(set(meta) - set(em)) or [l for l in meta if meta.count(l) > em.count(l)]))
        if len(builds) != 1: return ctx.fail("%s: packages of one build have several build times %s" % (what, builds))
        ctx.tag(*["pkg:" + s for s in want])
        if not case.get("igr"): check_records(what, own)
        return case.get("igf") or check_footprints(what)

    def check_footprints(what):
        for s, f in names(st["v"]).items():
            fp = w.p(port.lstrip("/"), n + ("." + s if s else "") + ".footprint")
            if not os.path.exists(fp): return ctx.fail("%s: no footprint %s" % (what, fp))
            ps = {l.split("\t")[2].split(" -> ")[0].rstrip("/") for l in open(fp, encoding="utf-8", errors="surrogateescape").read().split("\n") if l.count("\t") >= 2}
            exp = {p for p, x in m[0][s].items() if x["t"] != "D" and not x.get("may")}
            if exp - {re.sub(r" \(EMPTY\)$", "", p) for p in ps}: return ctx.fail("%s: footprint of %s misses %s" % (what, f, sorted(exp - ps)[:4]))
        return True

    def check_installed(what):
        db = w.read_db() or {}
        for s in m[0]:
            full = n + ("." + s if s else "")
            if full not in db or "V" + st["v"] not in db[full].get("meta", []): return ctx.fail("%s: %s %s is not installed" % (what, full, st["v"]))
            for p, x in m[0][s].items():
                if x["t"] != "f": continue
                if not os.path.isfile(w.p(p)): return ctx.fail("%s: %s is not installed" % (what, p))
                c = open(w.p(p), "rb").read()
                if (gzip.decompress(c) if x.get("z") else c) != x["c"]: return ctx.fail("%s: %s holds %r" % (what, p, c[:60]))
        return True

    nt = False
    built = False
    for step in case.get("x", ["build"]):
        before, rep, fil = pkgs(), text(".REPO"), text(".FILES")
        if step == "new":
            st["v"] = {"1": "2"}.get(st["v"], st["v"] + "9")
            write_port(mt=int(time.time()) + 3600)
        elif step == "fail": write_port(fail=True, mt=int(time.time()) + 3600)
        args, cwd = [], port
        if step == "force": args = ["-f"]
        elif step == "clean": args = ["-co"]
        elif step in ("utd", "sv", "ur", "cs"): args = ["-" + step]
        elif step == "rec": args, cwd = ["-r", "--ignore-repo"] if not case.get("own") else ["--recursive", "--ignore-repo", "-f"], "/ports"
        if step != "build" and url: sources()
        if os.path.exists(w.p("tmp/curl.log")): os.unlink(w.p("tmp/curl.log"))
        if step == "inst" and not case.get("igr"): args = ["-u" if st.get("inst") else "-i"]
        elif step in ("uf", "do"): args = ["-" + step]
        elif step == "eo": args = ["-eo"]
        elif step == "po":
            if why is not None or not dl is None and not dl.get("d"): continue
            args = ["-po", "-f"]
            w.write("/tmp/po.tar", src_tar(tree))
            x = w.run("/t/bin/bash", "-c", "mkdir -p %s/pkg && cd %s && bsdtar -p -o -C . -xf /tmp/po.tar && cp -a root/. pkg && rm -r root" % (work, work), cwd="/", env=ENV)
            if x.rc: raise RuntimeError("cannot prepare -po: " + x.text[-200:])
        if dl and dl.get("d") == 1: args.append("-d")
        t0 = int(time.time())
        r = w.run("/t/bin/bash", "/t/bin/pkgmk", *args, cwd=cwd, env=ENV, wall=100, cpu=60)
        what = "pkgmk %s (%s)" % (" ".join(args), step)
        if r.timeout: return ctx.fail("%s does not end" % what)
        ctx.tag("step:" + step)
        after = pkgs()
        if others() != oth0: return ctx.fail("%s changes packages of other ports" % what)
        o = outside()
        if step == "inst" and args and good and r.rc == 0: out0 = o
        if o != out0: return ctx.fail("%s changes other files: %s" % (what, W.diff_snap(out0, o)[:5]))
        good = why is None
        gone = step == "inst" and args and not case.get("noclean")
        if step == "sv":
            if bad in ("noversion", "dirname", "name"):
                if r.rc == 0 : return ctx.fail("%s: status 0 for a wrong port" % what)
            elif r.rc != 0 or st["v"] + "\n" != r.out.decode(): return ctx.fail("%s: status %s answer %r, expected %s" % (what, r.rc, r.out[:200], st["v"]))
            if after != before: return ctx.fail("%s changes packages" % what)
            continue
        if bad and step != "rec":
            if r.rc != why: return ctx.fail("%s: status %s for a wrong port (%s), expected %d: %s" % (what, r.rc, bad, why, r.text[-300:]))
            if after != before or text(".REPO") != rep: return ctx.fail("%s changes packages of a wrong port" % what)
            ctx.tag("bad:" + bad)
            continue
        log = open(w.p("tmp/curl.log")).read().split() if os.path.exists(w.p("tmp/curl.log")) else []
        if log and log != asked: return ctx.fail("%s asks %s, expected %s" % (what, log, asked))
        if step in ("do", "eo"):
            if after != before or text(".REPO") != rep: return ctx.fail("%s changes packages" % what)
            exp = 4 if case.get("src") == "missing" or dl and not (avail and (dl.get("d") or step == "do")) else 5 if case.get("src") == "bad" and step == "eo" else 0
            if r.rc != exp: return ctx.fail("%s: status %s, expected %s: %s" % (what, r.rc, exp, r.text[-300:]))
            if url and os.path.exists(w.p("src/tree.tar")) != (exp == 0): return ctx.fail("%s: the source is %s" % (what, "not there" if exp == 0 else "there"))
            if url and exp == 0 and open(w.p("src/tree.tar"), "rb").read() != src_tar(tree): return ctx.fail("%s: wrong source" % what)
            if step == "eo" and exp == 0:
                x = {p.split("src/root/", 1)[1]: y for p, y in w.snapshot(work.lstrip("/")).items() if "src/root/" in p}
                have = {p: (y["t"], y.get("c") or y.get("to")) for p, y in x.items()}
                if set(have) != set(tree): return ctx.fail("%s extracts %s, expected %s" % (what, sorted(set(have) - set(tree))[:4], sorted(set(tree) - set(have))[:4]))
                w.run("/t/bin/rm", "-rf", work, cwd="/", env=ENV)
            ctx.tag("%s:%d" % (step, exp))
            continue
        if step == "uf":
            if after != before or text(".REPO") != rep: return ctx.fail("%s changes packages" % what)
            if r.rc != (0 if after else 7): return ctx.fail("%s: status %s with %d packages: %s" % (what, r.rc, len(after), r.text[-300:]))
            if good and after and not check_footprints(what): return
            continue
        if step in ("utd", "cs"):
            if r.rc != 0: return ctx.fail("%s: status %s: %s" % (what, r.rc, r.text[-300:]))
            if after != before or text(".REPO") != rep: return ctx.fail("%s changes packages" % what)
            if step == "utd" and good:
                fresh = built
                if ("is up to date" in r.text) != fresh or ("not up to date" in r.text) == fresh: return ctx.fail("%s: %s, although the package %s" % (what, r.text[-200:], "is" if fresh else "is not"))
            continue
        if step == "clean":
            if r.rc != 0: return ctx.fail("%s: status %s: %s" % (what, r.rc, r.text[-300:]))
            if after: return ctx.fail("%s leaves %s" % (what, sorted(after)))
            check_records(what, None if case.get("igr") else {})
            left = [f for f in os.listdir(w.p(port.lstrip("/"))) if f.endswith(".footprint")]
            if left: return ctx.fail("%s leaves %s" % (what, left))
            if url:
                if os.path.exists(w.p("src/tree.tar")): return ctx.fail("%s leaves the downloaded source" % what)
                sources()
            elif not os.path.exists(w.p(port.lstrip("/"), "tree.tar")): return ctx.fail("%s removes a source of the port" % what)
            built = False
            continue
        if step == "ur":
            if r.rc != 0: return ctx.fail("%s: status %s: %s" % (what, r.rc, r.text[-300:]))
            if after != before: return ctx.fail("%s changes packages" % what)
            if good or not after:
                own = {}
                for f, data in after.items():
                    order, ents = read_pkg(data, z)
                    own[f] = (data, order, ents)
                check_records(what, own)
            continue
        if step == "fail" and why in (None, 8, 10):
            if r.rc != 8: return ctx.fail("%s: status %s of a failing build: %s" % (what, r.rc, r.text[-300:]))
            if after != before: return ctx.fail("%s: a failing build changes the packages: %s -> %s" % (what, sorted(before), sorted(after)))
            if (text(".REPO"), text(".FILES")) != (rep, fil): return ctx.fail("%s: a failing build changes the records" % what)
            write_port(mt=int(time.time()) + 3600)
            built = False       # the port is newer than the packages
            nt = True
            continue
        if step == "fail": write_port(mt=int(time.time()) + 3600)
        if not good:
            if step == "rec":
                check_records(what, None)
                continue
            if r.rc != why: return ctx.fail("%s: status %s, expected %d (%s): %s" % (what, r.rc, why, m if isinstance(m, str) else "", r.text[-400:]))
            if why in (4, 5) or why == 8 and not isinstance(m, str):
                if after != before: return ctx.fail("%s fails, but changes the packages: %s" % (what, sorted(after)))
            if why == 10 and after: return ctx.fail("%s fails, but leaves %s" % (what, sorted(after)))
            if (text(".REPO"), text(".FILES")) != (rep, fil): return ctx.fail("%s fails, but changes the records" % what)
            ctx.tag("fails:%d" % why, *(["fails:" + m] if isinstance(m, str) else []))
            nt = True
            continue
        if r.rc != 0: return ctx.fail("%s: status %s: %s" % (what, r.rc, r.text[-600:]))
        if step == "inst" and args[:1] in (["-i"], ["-u"]):
            st["inst"] = 1
            check_installed(what)
            nt = True
            if gone:
                if after: return ctx.fail("%s leaves %s" % (what, sorted(after)))
                check_records(what, {})
                built = False
                if os.path.exists(w.p(work.lstrip("/"))): return ctx.fail("%s leaves the working directory" % what)
                continue
        if built and (step in ("again", "build", "inst") or step == "rec" and not case.get("own")):
            if after != before: return ctx.fail("%s: nothing changed, but the packages are made again: %s" % (what, [f for f in set(after) | set(before) if after.get(f) != before.get(f)]))
            if "up to date" not in r.text: return ctx.fail("%s does not say that the package is up to date" % what)
            nt = True
            if log: return ctx.fail("%s downloads %s, although the package is up to date" % (what, log))
        else:
            if step == "rec":
                rp = text(".REPO")
                if (rp, text(".FILES")) != (rep, fil): return ctx.fail("%s: --ignore-repo changes the records" % what)
                igr = case.get("igr")
                case["igr"] = 1
                check_packages(what, t0)
                if not igr: del case["igr"]
                # bring the records up to date
                w.run("/t/bin/bash", "/t/bin/pkgmk", "-ur", cwd=port, env=ENV, wall=100, cpu=60)
            else: check_packages(what, t0)
            if step in ("new", "force"): nt = True
        built = os.stat(w.p(port.lstrip("/"), "Pkgfile")).st_mtime < time.time()
        if not built:
            write_port(mt=D.BT)
            built = True
        if step == "po": w.run("/t/bin/rm", "-rf", work, cwd="/", env=ENV)
        if os.path.exists(w.p(work.lstrip("/"))): return ctx.fail("%s leaves the working directory" % what)
        if url and (not dl or log) and os.path.exists(w.p("src/tree.tar")) != bool(case.get("keep")): return ctx.fail("%s: the downloaded source %s" % (what, "is gone" if case.get("keep") else "stays"))
        if not url and not os.path.exists(w.p(port.lstrip("/"), "tree.tar")): return ctx.fail("%s removes a source of the port" % what)
        if len(m[0]) > 1: nt = True
    ctx.nontrivial = nt
