import io, os, re, tarfile
import depot as D, ed25519 as E, world as W
NEEDS = ["sbx", "pkgadd:asan", "cards:asan", "webcards:asan"]
LEVEL = "exploration"
TECHNIQUE = "structure-aware fuzzing of every text file the tools read (databases, repositories, configuration, ports, site) and of their arguments with AddressSanitizer and UBSan builds, and oracles on what changes and on what must stay visible"
NOTE = ("Exploration: one or more of the text files of a small working system are mutated and the commands that read them run with sanitizers: none may crash or hang, queries may change nothing, commands may change nothing "
        "outside the places they own, and packages not touched by the damage stay visible.")
EXAMPLES = {"quick": 90, "thorough": 3500}
RULE = ("1-3 mutations (bytes changed, inserted or cut; lines changed, added, doubled, moved or dropped, long lines, other line ends; empty, random; a directory or a dangling link in place of the file) of cards.conf, the version, "
        "pkgadd.conf, records and file lists of installed packages, .REPO, .FILES, .PKEY, compressed metadata of a mirror, Pkgfiles, the site's configuration, pages and lists of packages; then 5 of 45 commands with usual and odd "
        "arguments. Non-trivial: a mutated file was read by a command (all cases with a mutation).")
ASSUMPTIONS = ["An error message with a status that is not zero is an acceptable answer to damaged metadata."]
INST = ["a", "bb", "lib", "gtk+"]
PKGS = ["a", "bb", "lib", "gtk+", "new", "a.devel", "bb.fr"]
ODD = ["", ".", "..", "/", "../../etc/passwd", "%s%n%d", "(", "[", "*", "a b", "é", "A" * 300, "a" * 5000, "-", "--", "a.devel", "base", "cli", "desk", "fr", "nosuch", "/etc/passwd", "a.cards", "\n", "\\", "a/"]
CMDS = [["pkginfo", "-i"], ["pkginfo", "-n"], ["pkginfo", "-l", "@"], ["pkginfo", "-o", "@"], ["pkginfo", "-d", "@"], ["pkginfo", "-R", "@"], ["pkginfo", "-L", "@"], ["pkginfo", "-i", "-r", "/"], ["pkginfo", "-p", "@"],
        ["pkginfo", "-c", "@"], ["pkginfo", "--runtimedepfiles", "/opt"], ["pkginfo", "--runtimelibs", "/opt"],
        ["cards", "list"], ["cards", "list", "-b"], ["cards", "list", "-S"], ["cards", "info", "@"], ["cards", "info", "-b", "@"], ["cards", "info", "-S", "@"], ["cards", "search", "@"], ["cards", "search", "-n", "@"],
        ["cards", "files", "@"], ["cards", "files", "-b", "@"], ["cards", "query", "@"], ["cards", "query", "-b", "@"], ["cards", "config"], ["cards", "level"], ["cards", "depends", "@"], ["cards", "depends", "-i", "@"], ["cards", "deptree", "@"],
        ["cards", "dependent", "@"], ["cards", "diff", "--no-sync"], ["cards", "upgrade", "-c", "--no-sync"], ["cards", "upgrade", "-s", "--no-sync"], ["cards", "create", "--dry", "base"], ["cards", "create", "--dry", "@"],
        ["cards", "@"], ["cards", "@", "@"], ["pkginfo", "-a", "/k.tar"], ["pkginfo", "-f", "/k.tar"], ["pkginfo", "-l", "/k.tar"], ["pkginfo", "-m", "/k.tar"],
        ["cards", "sync"], ["cards", "install", "@"], ["cards", "install", "-u", "@"], ["cards", "install", "@"], ["cards", "remove", "@"], ["cards", "upgrade", "-p"], ["cards", "purge"], ["pkgrm", "@"], ["pkgadd", "/k.tar"], ["pkgadd", "-f", "/k.tar"], ["pkgadd", "-u", "/k.tar"],
        ["web", "page=@"], ["web", "search=@"], ["web", "searchpkg=@"], ["web", "searchpkg=@&type=col&branch=systemd&system=@"], ["web", "@"]]
READS = 41                          # the first ones change nothing
TARGETS = ["conf", "conf", "version", "pkgadd", "meta", "meta", "meta", "list", "list", "repo", "repo", "repo", "fil", "fil", "key", "ameta", "amtree", "mrep", "mfil", "mkey", "port", "port", "wconf", "wpage", "wrepo"]
NUMS = ["99999999999999999999", "-1", "", "x", "0", "4294967296", "9" * 400, "1e9", "0x10", " 7"]
LINES = {
    "conf": ["dir", "dir ", "dir /", "dir /nosuch", "dir base", "dir /var/lib/pkg/depot/base|", "dir /var/lib/pkg/depot/base|file:///m|x", "dir |", "url", "url x", "url file:///nosuch", "url |", "group", "group fr", "group  ", "locale", "locale zz", "logdir",
             "logdir /", "depot", "depot /", "depot /nosuch", "collection", "collection cli", "collection /", "collection ..", "keypath", "keypath /", "arch", "base", "# x", "proxy", "dir " + "d" * 5000, "url " + "u" * 5000, "x" * 3000],
    "version": ["version", "version ", "12.1", "version " + "9" * 5000, "version ../../..", ""],
    "pkgadd": ["UPGRADE", "UPGRADE ^etc/.*$", "UPGRADE ^etc/.*$ NO", "INSTALL ( NO", "INSTALL a{1,99999} NO", "INSTALL [ YES", "X y z", "UPGRADE a b c d", "INSTALL ^" + "(a" * 200, "#", "INSTALL .* MAYBE", "INSTALL ^" + "x" * 70000 + "$ NO", "INSTALL a " + "N" * 5000, "INSTALL ^a$ NO " + "x" * 70000, "N" * 5000 + " a NO", "U" * 3000],
    "meta": ["N", "V", "r", "B", "S", "R", "Rx", "Ra", "Ra1600000000", "R" + "9" * 30, "Rlib160000000", "R1600000000", "A", "Aa", "Abb", "A" + "x" * 4000, "s", "sdesk", "T", "c", "c/", "c../..", "d", "d0", "dx", "n", "nfr", "g", "gdevel", "a", "D" + "x" * 70000, "l", "o", "\x00", "\xff\xfe", "Nother",
             "N../x", "E", "C", "M", "P", "U", "L", " "] + ["B" + x for x in NUMS] + ["r" + x for x in NUMS] + ["S" + x for x in NUMS] + ["R" + x for x in NUMS],
    "list": ["", "/", "//", ".", "..", "../../etc/passwd", "etc/passwd", "/etc/passwd", "opt/", "opt", "x" * 5000, "a/" * 3000, "\xff\xfe", "\x00", "opt/a", "opt/bb", "opt/a/b", " ", "opt/lib -> x", "var/lib/pkg/DB/a/META", "var/lib/pkg/DB/"],
    "port": ["version", "version=", "version=$(x)", "version=$version", "version=" + "9" * 5000, "release", "release=", "release=x", "release=99999999999999999999", "release=-1", "makedepends=(", "makedepends=)", "makedepends=", "makedepends=(a a a", "makedepends=(a", "b)", "run=(", "run=(a new", "run_devel=(",
             "makedepends=(port)", "description=", "url", "maintainer=x", "packager", "contributors", "# Description: x", "# Depends on: a b", "build() {", "}", "name=", "name=$x", "group=(a", "set=(", "alias=(x", "x" * 9000, "=", "==", "(", ")", "\"", "'", "\\", "$", "${", "\x00", "\xff"],
    "wconf": ["dir", "dir ", "dir /", "dir x", "dir /srv", "dir /srv/x86_64/systemd/base/", "dir " + "x" * 5000, "#", "url", "x y z", "dir /srv/x86_64/systemd/base|x"],
    "wpage": ["<h2>", "<h2", "<h", "<", "<h2></h2>", "<h9>x</h9>", "<h2 >x</h2>", "</h2>", "<h2>x<h3>y</h3></h2>", "x" * 9000, "<h2>" + "y" * 9000 + "</h2>", "\x00", "\xff", "<h2>%s%n</h2>", "<hr", "<h1>", "<h2>x</"],
}
LINES["key"] = LINES["mkey"] = ["-----BEGIN PUBLIC KEY-----", "-----END PUBLIC KEY-----", "MCowBQYDK2VwAyEA", "A" * 5000, "=", ""]
BLOCK = ["@", "@x", "@a.cards-1.0-1-x86_64.tar", "@../../../../etc/passwd", "@../../../../srv/evil.cards-1.0-1-x86_64.tar", "@/etc/passwd", "@a.cards", "@a.cards-", "@.cards-1-1", "@" + "x" * 5000, "@\x00", "", "", "@a", "@REP", "#", "H", "I", "H00", "I" + "z" * 128, "I" + "0" * 127, "I" + "ab" * 5000, "Iab", "H" + "f" * 5000, "i", "ix",
         "i99999999999999999999"]
LINES["ameta"], LINES["amtree"] = LINES["meta"] + ["", "#", "@"], LINES["list"]
LINES["repo"] = LINES["mrep"] = LINES["wrepo"] = BLOCK + LINES["meta"]
LINES["fil"] = LINES["mfil"] = BLOCK + LINES["list"]


TAILS = ["#", " # dir /nosuch", "\t#x # y"]
SAME = {"conf": ["#", "# dir /x|http://y", "", "  ", "\t", "  # group fr", "#url file:///x"], "version": ["#", "# version 1", ""], "pkgadd": ["#", "# INSTALL ^opt NO", "#UPGRADE", ""], "port": ["#", "# run=(x)", "#version=7", "  # makedepends=(a", "", "\t"],
        "wconf": ["#", "# dir /srv/x86_64/rolling/base", ""], "meta": [], "list": [], "repo": [], "fil": [], "wrepo": [], "wpage": []}


def gen(g, tier):
    ms = []
    if g.chance(0.3):               # changes without a meaning
        for _ in range(g.choice([1, 1, 2, 3])):
            t = g.choice(sorted(SAME) + ["conf", "pkgadd", "port", "meta", "list"])
            ms.append({"t": t, "k": "nonl" if not SAME[t] or g.chance(0.3) else "add", "p": g.choice(INST), "at": g.random()})
            if ms[-1]["k"] == "add": ms[-1]["l"] = g.choice(SAME[t])
            if t in ("conf", "version", "port", "wconf") and g.chance(0.4): ms[-1].update(k="tail", l=g.choice(TAILS))
        cs = [{"i": g.choice([j for j in range(len(CMDS)) if j < READS or CMDS[j][0] == "web"]), "a": [g.choice(PKGS + INST + ["opt"]) for _ in range(2)]} for _ in range(5)]
        return {"m": ms, "c": cs, "u": g.choice(["", "", "file"]), "g": g.sub(["fr", "devel"], 0, 2)}
    for _ in range(g.choice([1, 1, 1, 2, 2, 3])):
        t = g.choice(TARGETS)
        k = g.choice(["field", "field", "field", "line", "line", "line", "add", "add", "del", "dup", "move", "bytes", "bytes", "ins", "cut", "cut", "nonl", "crlf", "long", "empty", "rand", "dir", "link", "gone"])
        m = {"t": t, "k": k, "p": g.choice(INST), "at": g.random()}
        if k in ("line", "add"): m["l"] = g.choice(LINES[t])
        if k in ("bytes", "ins", "rand"): m["l"] = "".join(chr(g.choice([0, 10, 32, 64, 255, g.randrange(256), g.randrange(256)])) for _ in range(g.choice([1, 1, 2, 9, 80])))
        if t in ("repo", "mrep", "wrepo") and g.chance(0.4): m.update(k="all", f=g.choice("IIIIIHNVrBSRAgnscdaD"))
        if m["k"] in ("field", "all"): m["l"] = g.choice(FIELDS) if m.get("f", "x") not in "IH" or g.chance(0.3) else g.choice(["ab" * 5000, "ab" * 65, "ab" * 63, "abc", "", "a", "xy" * 64, "A" * 128, " "])
        if k == "long": m["n"] = g.choice([255, 256, 511, 512, 1022, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 8193, 16384, 70000])
        ms.append(m)
    cs = []
    for _ in range(6):
        i = g.randrange(len(CMDS))
        if g.chance(0.5):           # a command that reads what is damaged
            r = g.choice(REL[g.choice(ms)["t"]])
            i = g.choice([j for j, c in enumerate(CMDS) if " ".join(c).startswith(r)])
        cs.append({"i": i, "a": [g.choice(PKGS + INST + ["opt"]) if g.chance(0.8) else g.choice(ODD) for _ in range(2)]})
    sig = [m for m in ms if m.get("f") in ("I", "H")]
    if sig:                         # only that is wrong, and gets read
        if g.chance(0.7): ms = sig[:1]
        if g.chance(0.2): cs[0] = {"i": CMDS.index(["cards", "sync"]), "a": []}
        cs[1] = {"i": CMDS.index(["cards", "install", "@"]), "a": ["a.devel" if sig[0]["p"] in ("bb", "gtk+") else g.choice(["new", "bb.fr"]), "a"]}
    cs.sort(key=lambda c: c["i"] >= READS)
    return {"m": ms, "c": cs, "u": "file" if sig else g.choice(["", "", "file", "file"]), "g": g.sub(["fr", "devel"], 0, 2)}


ALWAYS = [["pkginfo", "-i"], ["pkginfo", "-n"], ["cards", "list"], ["cards", "list", "-b"], ["cards", "level"], ["cards", "config"], ["cards", "diff", "--no-sync"], ["cards", "list", "-S"]]
ALWAYS_T = {"-i": {"meta", "list", "repo", "fil", "key", "conf", "mrep", "mfil"}, "-n": {"meta", "list", "repo"}, "list": {"meta", "list", "repo", "port"}, "level": {"port", "meta", "list"}, "config": set(LINES) - {"conf", "version"}, "diff": {"meta", "list", "repo", "fil", "port", "key"}}


FIELDS = ["", "x", "-", "ab" * 5000, "ab" * 64, "abc", "0" * 10, "é", " ", "\t1", "a" * 11, "x" * 300 + "1600000000"] + NUMS
REL = {"conf": ["cards"], "version": ["cards"], "pkgadd": ["pkgadd", "pkgrm", "cards install"], "meta": ["pkginfo", "cards", "pkgrm", "pkgadd"], "list": ["pkginfo -l", "pkginfo -o", "pkginfo", "cards files", "pkgrm", "cards remove"],
       "repo": ["cards list", "cards info", "cards search", "cards install", "cards diff", "cards depend", "cards"], "fil": ["cards files", "cards query", "cards install"], "key": ["cards install"], "ameta": ["pkgadd", "pkginfo -a", "pkginfo -f"],
       "amtree": ["pkgadd", "pkginfo -l"], "mrep": ["cards sync", "cards install", "cards upgrade", "cards list"], "mfil": ["cards sync", "cards files"], "mkey": ["cards sync", "cards install"],
       "port": ["cards level", "cards depends", "cards deptree", "cards create", "cards info", "cards list"], "wconf": ["web"], "wpage": ["web"], "wrepo": ["web searchpkg", "web"]}


def s2b(s): return s.encode("latin-1", "replace")


def mutate(data, m):
    """-> (new content, offset of the first change)"""
    k, at = m.get("k"), float(m.get("at", 0))
    v = s2b(str(m.get("l", "")))
    n = len(data)
    o = min(n, int(at * (n + 1)))
    if k == "bytes": return data[:o] + v + data[o + len(v):], o
    if k == "ins": return data[:o] + v + data[o:], o
    if k == "cut": return data[:o], o
    if k == "empty": return b"", 0
    if k == "rand": return v, 0
    if k == "nonl": return data.rstrip(b"\n"), len(data.rstrip(b"\n"))
    if k == "crlf": return data.replace(b"\n", b"\r\n"), 0
    ls = data.split(b"\n")
    i = min(len(ls) - 1, int(at * len(ls)))
    off = len(b"\n".join(ls[:i]))
    if k == "line":                 # keep it of the same kind when there is such a line
        same = [j for j, l in enumerate(ls) if l[:1] == v[:1]]
        if same: i = same[int(at * len(same)) % len(same)]; off = len(b"\n".join(ls[:i]))
        ls[i] = v
    elif k == "add": ls.insert(i, v)
    elif k == "del": del ls[i]
    elif k == "dup": ls.insert(i, ls[i])
    elif k == "all":                # the same field of all packages
        ls = [l[:1] + v if l[:1] == s2b(str(m.get("f", "I")))[:1] else l for l in ls]
        off = 0
    elif k == "field":              # another value of a field
        o = len(re.match(rb"[^= \t]*[= \t(]+|.?", ls[i]).group() if b"=" in ls[i] or b" " in ls[i] else ls[i][:1])
        ls[i] = ls[i][:o] + v
    elif k == "tail": ls[i] += v
    elif k == "move": ls.append(ls.pop(i))
    elif k == "long": ls[i] = ls[i] + b"x" * int(m.get("n", 5000))
    return b"\n".join(ls), off


def world(w, case):
    w.reset()
    D.base(w)
    seed = b"k" * 32
    pk = []
    for i, n in enumerate(PKGS):
        q = {"n": n, "c": "base" if i % 2 == 0 else "cli", "v": "1.%d" % i, "r": i + 1, "D": "what %s is for" % n, "U": "http://x.org", "P": "p", "M": "m", "C": "c", "L": "GPL", "A": ["alias" + n[:1]] if i == 1 else [], "s": ["desk"] if i < 3 else []}
        if n == "a.devel": q["g"] = "devel"
        if n == "bb.fr": q["nls"] = "fr"
        if i in (1, 3, 4): q["R"] = PKGS[:1] + (PKGS[2:3] if i > 2 else [])
        pk.append(q)
    seen = {}
    for c in ("base", "cli"):
        ps = [q for q in pk if q["c"] == c]
        rep, fil, ar = D.texts(ps, seed, times=D.times_of(pk))
        D.put_local(w, c, rep, fil, ar if not case.get("u") else {}, E.public(seed))
        D.put_mirror(w, c, rep, fil, ar, E.public(seed))
        seen[c] = [(q["n"], q["v"], q["r"]) for q in sorted(ps, key=D.fname)]
    D.conf(w, ["base", "cli"], url="file:///" + D.MIRROR if case.get("u") else None, groups=[x for x in case.get("g", []) if x in ("fr", "devel")])
    for n in INST:
        q = next(x for x in pk if x["n"] == n)
        D.install_record(w, dict(q, b=D.BT - 9) if n == "lib" else q, auto=n == "a", times=D.times_of(pk))
    w.write("var/lib/pkg/pkgadd.conf", "UPGRADE ^etc/.*$ NO\nINSTALL ^usr/share/doc/.*$ NO\n")
    for n, c, deps in (("a", "base", ""), ("bb", "cli", "a"), ("port", "base", "a bb")):
        w.write("ports/%s/%s/Pkgfile" % (c, n), "description=\"the %s\"\nurl=http://x.org\nmaintainer=me\npackager=me\n\nversion=1.0\nrelease=2\n\nmakedepends=(%s)\nrun=(lib)\nsource=(x)\n\nbuild() {\n  make\n}\n" % (n, deps))
    w.write("k.tar", D.archive({"n": "k", "c": "base"}))
    w.write("tmp/setup", "")
    w.write("etc/passwd", "root:x:0:0\n")
    w.write("srv/keep", "keep\n")
    w.write("site/content/index", "<h2>One</h2>\n<p>text</p>\n<h3>Two</h3>\nmore\n<h2>Three</h2>\n")
    w.write("site/content/faq", "<p>bash</p>\n")
    w.write("site/.webcards.conf", "# site\ndir /srv/x86_64/systemd/base\ndir /srv/x86_64/rolling/cli\n")
    w.write("srv/x86_64/systemd/base/.REPO", D.texts(pk, None)[0])
    w.write("srv/x86_64/rolling/cli/.REPO", D.texts(pk[:2], None)[0])
    return seen, {q["n"]: s2b(D.entries(q)[1]["c"]) for q in pk}


def paths(m):
    d, p = "/" + D.DEPOT, str(m.get("p", "a"))
    c = "cli" if p in ("bb", "gtk+") else "base"
    mir = "%s/%s/%s/%s/" % (D.MIRROR, D.ARCH, D.VERSION, c)
    return {"conf": "etc/cards.conf", "version": "var/lib/pkg/nutyx-version", "pkgadd": "var/lib/pkg/pkgadd.conf", "meta": "var/lib/pkg/DB/%s/META" % p, "list": "var/lib/pkg/DB/%s/files" % p, "repo": "%s/%s/.REPO" % (D.DEPOT, c),
            "fil": "%s/%s/.FILES" % (D.DEPOT, c), "key": "%s/%s/.PKEY" % (D.DEPOT, c), "mrep": mir + ".REPO.zst", "mfil": mir + ".FILES.zst", "mkey": mir + ".PKEY",
            "port": "ports/%s/%s/Pkgfile" % ({"a": "base", "bb": "cli"}.get(p, "base"), p if p in ("a", "bb") else "port"), "ameta": "k.tar", "amtree": "k.tar", "wconf": "site/.webcards.conf", "wpage": "site/content/index", "wrepo": "srv/x86_64/systemd/base/.REPO"}[m["t"] if m.get("t") in LINES else "conf"]


def execute(w, case, c):
    a = [str(x).replace("\0", "") for x in c.get("a", [])] + ["a", "a"]
    argv = []
    for x in CMDS[int(c.get("i", 0)) % len(CMDS)]: argv.append(x.replace("@", a.pop(0)) if "@" in x else x)
    if argv[0] == "web": return argv, w.run("/t/webcards", cwd="/site", env={"QUERY_STRING": argv[1], "SCRIPT_NAME": "/en/index.cgi"}, cpu=10)
    return argv, w.run("/t/" + argv[0], *argv[1:], cwd="/ports", cpu=10, env={"LC_ALL": "C"})


def norm(r):
    if b"Content-type" in r.out: return re.sub(r"[0-9]+", "0", r.text)      # the time needed, dates
    return [l for l in r.text.split("\n") if not l.startswith(("==", "Available space", "False positive", "For details see"))]


def run_case(ctx, case):
    w = ctx.w
    seen, content = world(w, case)
    first, whole = {}, set()
    same = all(m.get("t") in SAME and (m.get("k") == "nonl" or m.get("k") == "add" and m.get("l") in SAME[m["t"]] or m.get("k") == "tail" and m.get("l") in TAILS and m["t"] in ("conf", "version", "port", "wconf")) for m in case.get("m", []))
    before = {}
    for j, c in enumerate(case.get("c", [])):
        if same and (int(c.get("i", 0)) % len(CMDS) < READS or CMDS[int(c.get("i", 0)) % len(CMDS)][0] == "web"):
            before[j] = execute(w, case, c)[1:]
    for m in case.get("m", []):
        f = paths(m)
        q = w.p(f)
        raw = f.endswith(".zst")
        if m.get("k") in ("dir", "link", "gone"):
            if os.path.lexists(q): w._rm(q)
            if m["k"] == "dir": w.mkdir(f)
            elif m["k"] == "link": w.symlink(f, "/nosuch/file")
            whole.add(f)
            continue
        if not os.path.isfile(q) or os.path.islink(q): continue
        data = open(q, "rb").read()
        if raw and m.get("k") not in ("bytes", "cut", "empty", "rand"):
            data, o = mutate(D_unzst(data), m)
            data = D.zst(data)
        elif f == "k.tar":
            try: data, o = in_archive(data, m), 0
            except (tarfile.TarError, KeyError): continue
        else: data, o = mutate(data, m)
        w.write(f, data)
        first[f] = min(o, first.get(f, o))
    ctx.nontrivial = bool(case.get("m"))
    ctx.tag(*["%s-%s" % (m.get("t"), m.get("k")) for m in case.get("m", [])])
    damaged = {m.get("p") for m in case.get("m", []) if m.get("t") in ("meta", "list")}
    other = [m for m in case.get("m", []) if m.get("t") in ("meta", "list") and m.get("k") in ("dir", "link", "gone")]
    renames = any(m.get("t") == "meta" for m in case.get("m", []))
    ok_db = not any(m.get("t") == "conf" for m in case.get("m", []))
    ok_out = not any(m.get("t") in ("conf", "list", "amtree") for m in case.get("m", []))
    ts = {m.get("t") for m in case.get("m", [])}
    s00 = s0 = W.strip_ino(w.snapshot())
    for j, c in enumerate(case.get("c", [])):
        i = int(c.get("i", 0)) % len(CMDS)
        argv, r = execute(w, case, c)
        txt = " ".join(argv)[:200]
        if r.timeout or r.crashed() and not (r.rc == 255 and b"Sanitizer" not in r.err and b"runtime error" not in r.err): return ctx.fail("%s crashed or hung (status %s): %s" % (txt, r.rc, r.text[-1500:]))
        s1 = W.strip_ino(w.snapshot())
        ch = W.diff_snap(s0, s1)
        if i < READS and argv[0] != "web" and argv[1] not in ("install", "remove", "upgrade", "sync", "purge"):
            if ch: return ctx.fail("%s changes %s" % (txt, ch[:5]))
        elif ok_out:                # a changed configuration or list of files may name any place
            for x in sorted(set(s0) | set(s1)):
                if s0.get(x) == s1.get(x): continue
                if not x.startswith(("opt", D.DEPOT + "/", "var/lib/pkg/DB", "var/log", "var/lib/pkg/depot", "site/content/.visits")) and x not in ("", "var", "var/lib", "var/lib/pkg", "site/content", "run", "tmp", "etc/ld.so.cache"):
                    return ctx.fail("%s changes %s: %s -> %s" % (txt, x, s0.get(x), s1.get(x)))
        if j in before and all(k in before for k in range(j)):
            b = before[j][0]
            if (b.rc, norm(b)) != (r.rc, norm(r)): return ctx.fail("a comment, an empty line or the missing line end after the last line changes the answer of %s from %d %r to %d %r" % (txt, b.rc, b.text[:400], r.rc, r.text[:400]))
            ctx.tag("same")
        if r.rc != 0 and not whole and argv in ALWAYS and ts <= ALWAYS_T[argv[1]]: return ctx.fail("%s ends with %d: %s" % (txt, r.rc, r.text[-300:]))
        if argv == ["cards", "level"] and r.rc == 0 and ts == {"port"} and all(m.get("p") not in ("a", "bb") for m in case["m"]):
            for l in ("0: base/a", "1: cli/bb"):
                if l not in r.text.split("\n"): return ctx.fail("%s does not show %s: %s" % (txt, l, r.text[:300]))
        if argv[:2] in (["cards", "install"], ["cards", "upgrade"]) and not ts & {"conf", "list", "meta"}:
            for n in PKGS:          # what gets installed has a right signature
                x = s1.get("opt/" + n)
                if x and x["t"] == "f" and x["c"] not in (content[n], s00.get("opt/" + n, x)["c"]): return ctx.fail("%s installs another %s: %r" % (txt, n, x["c"]))
        if argv[0] == "pkginfo" and r.rc == 0 and not renames and i < READS:
            if argv[1] == "-l" and argv[2] in INST and argv[2] not in damaged:
                got = r.out.decode("utf-8", "replace").split()
                if sorted(got) != sorted(["opt/", "opt/" + argv[2]]): return ctx.fail("%s shows %s" % (txt, got[:5]))
        if argv[:2] == ["pkginfo", "-i"] and r.rc == 0:
            for n in INST:
                if n not in damaged and (" %s " % n) not in r.text and ("\n%s " % n) not in r.text: return ctx.fail("%s does not show %s: %s" % (txt, n, r.text[:400]))
        if argv[:2] in (["pkginfo", "-i"], ["pkginfo", "-n"], ["cards", "list"]) and len(argv) == 2 and r.rc != 0 and not first and not whole: return ctx.fail("%s ends with %d: %s" % (txt, r.rc, r.text[-300:]))
        if argv == ["cards", "list", "-b"] and r.rc == 0 and ok_db:
            for cc in seen:
                f = "%s/%s/.REPO" % (D.DEPOT, cc)
                if f in whole: continue
                data = open(w.p(f), "rb").read()
                cut = first.get(f, len(data))
                for n, v, rel in seen[cc]:
                    j = data.find(b"@%s.cards-" % n.encode())
                    e = data.find(b"\n\n", j)
                    if j < 0 or e < 0 or e + 2 > cut: break
                    if "(%s) %s %s-%d" % (cc, n, v, rel) not in r.text: return ctx.fail("%s does not show %s of %s: %s" % (txt, n, cc, r.text[:600]))
        ctx.tag("rc:%s" % (0 if r.rc == 0 else 1))
        s0 = s1


def in_archive(data, m):
    """The package with another .META or .MTREE."""
    out = io.BytesIO()
    with tarfile.open(fileobj=io.BytesIO(data)) as tf, tarfile.open(fileobj=out, mode="w", format=tarfile.GNU_FORMAT) as to:
        for i in tf:
            c = tf.extractfile(i).read() if i.isreg() else b""
            if i.name == {"ameta": ".META"}.get(m["t"], ".MTREE"):
                c = mutate(c, m)[0]
                i.size = len(c)
            to.addfile(i, io.BytesIO(c))
    return out.getvalue()


def D_unzst(data):
    """The content of a frame made by depot.zst."""
    out, o = b"", 13
    while o + 3 <= len(data):
        h = int.from_bytes(data[o:o + 3], "little")
        out += data[o + 3:o + 3 + (h >> 3)]
        o += 3 + (h >> 3)
        if h & 1: break
    return out
