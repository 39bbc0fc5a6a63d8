import errno
import depot as D, world as W
NEEDS = ["sbx", "cards", "trc"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of cards config and cards purge over generated configuration files, against a reference reader of cards.conf"
NOTE = ("Exploration: generated cards.conf and nutyx-version files are shown with cards config and compared with a reference reader; cards purge then has to remove exactly the downloaded files of the collections "
        "with an url in a generated tree, also with failing system calls.")
EXAMPLES = {"quick": 400, "thorough": 12000}
RULE = ("Files of 0-14 lines: dir (with and without url, trailing slashes, relative names), collection, depot, url, group, locale, logdir, version and unknown keys, in any order, repeated, without value, with comments, any "
        "white space, long lines, missing last newline, alternative files with --config; depots with files, hidden files, directories, symbolic links. Non-trivial: at least one collection or group configured.")
TREES = ["var/lib/pkg/depot/base", "var/lib/pkg/depot/cli", "var/lib/pkg/depot/my-own", "srv/pkgs/base", "srv/pkgs/base/sub", "opt/x"]
WS = [" ", " ", " ", "  ", "\t", " \t ", "\t\t"]


def gen(g, tier):
    def line():
        k, v = g.pick((4, lambda: ("dir", g.choice(["", "", "", "/"]).join(["/" + g.choice(TREES), ""]) + g.pick((3, lambda: ""), (2, lambda: g.choice([" | ", "|", "\t|\t", " |"]) + g.choice(["http://m.org/x", "file:///srv/m", "https://a.b/c/", ""]))))),
                      (0.7, lambda: ("dir", g.choice(["/", "base", "cli/", "//", "| http://x", "/ | http://x", "", "//srv//pkgs//base", "/srv/pkgs/base//", "/srv/my pkgs/base"]))),
                      (2, lambda: ("collection", g.choice(["base", "cli", "my-own", "nowhere", ""]))), (1, lambda: ("depot", g.choice(["/var/lib/pkg/depot", "/srv/pkgs", ""]))),
                      (1, lambda: ("url", g.choice(["http://main.org/pub", "file:///srv/other", ""]))), (2, lambda: (g.choice(["group", "locale"]), g.choice(["devel", "fr", "man", "lib", "de DE", ""]))),
                      (0.6, lambda: ("logdir", g.choice(["/var/log/pkgbuild", "/tmp/l", ""]))), (0.4, lambda: ("version", g.choice(["24.1", "rolling"]))), (0.5, lambda: (g.choice(["dirs", "Dir", "groups", "arch", "name", "#dir", "di", "urls"]), "/opt/x")), (0.5, lambda: ("", "")))
        return [g.choice(["", "", "", "", " ", "\t", "  \t"]), k, g.choice(WS), v, g.choice(["", "", "", " ", "\t", " # comment", "# dir /opt/x | http://e", "#", "\r"]), g.choice([0] * 12 + [300, 4090, 8180, 8192, 20000])]
    ls = [line() for _ in range(g.randint(0, 14))]
    files = [[g.choice(TREES), g.choice(["a.cards-1-x86_64.tar.xz", "b", ".REPO", ".hidden/x", "dir/c", "dir/.h", "dir/deep/d", "lnk", "dlnk", "fifo", "é", "-f", "a b", "dirlnk/x"])] for _ in range(g.randint(0, 20))]
    return {"l": ls, "nl": g.choice([1, 1, 1, 0]), "v": g.pick((6, lambda: "version 12.3\n"), (1, lambda: ""), (1, lambda: "# v\nname x\nversion\t77\nurl http://late.org\n"), (0.7, lambda: None)), "cfg": g.choice(["", "", "", "etc/other.conf"]), "f": files,
            "purge": int(g.chance(0.7)), "uid": g.choice([0] * 12 + [7]), "err": g.randrange(60) if g.chance(0.2) else -1}


def model(text, vtext):
    dirs, groups, s = [], [], {"depot": "", "url": "", "version": "", "logdir": ""}
    for t in (text, vtext):
        for l in (t or "").split("\n"):
            l = l.split("#")[0].strip(" \t\r\n\v\f")
            parts = l.split(None, 1)
            if len(parts) < 2: continue
            k, v = parts
            if k == "dir":
                d, _, u = v.partition("|")
                d, u = d.strip(), u.strip()
                while d.endswith("/"): d = d[:-1]
                depot, sep, coll = d.rpartition("/")
                if coll.strip(): dirs.append([depot, coll, u, bool(sep)])
            elif k == "collection":
                if v not in [d[1] for d in dirs]: dirs.append(["", v, "", False])
            elif k in ("depot", "url", "version"): s[k] = s[k] or v
            elif k == "logdir": s[k] = v
            elif k in ("group", "locale"): groups.append(v)
    return [[d[0] or ("" if d[3] else s["depot"]), d[1], d[2] or s["url"]] for d in dirs], groups, s


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    D.base(w)
    text = "\n".join(l[0] + l[1] + (l[2] if l[1] else "") + l[3] + l[4] + ("# " + "x" * l[5] if l[5] else "") for l in case["l"]) + ("\n" if case["nl"] else "")
    name = case["cfg"] or "etc/cards.conf"
    if case["cfg"]: w.write("etc/cards.conf", "dir /opt/wrong | http://wrong\n")
    w.write(name, text)
    if case["v"] is not None: w.write("var/lib/pkg/nutyx-version", case["v"])
    opt = ["--conf=" + case["cfg"]] if case["cfg"] else []
    dirs, groups, s = model(text, case["v"])
    arch = "x86_64"
    want = []
    for i, (d, c, u) in enumerate(dirs):
        want.append("%d Directory: %s/%s" % (i + 1, d, c) + (" from %s/%s/%s/%s" % (u, arch, s["version"], c) if u else ""))
    want += ["Binaries : " + arch]
    want += ["Group    : " + x for x in groups] + (["log directory: " + s["logdir"]] if s["logdir"] else [])
    r = w.cards("config", *opt, env={"LC_ALL": "C"}, uid=case["uid"])
    ctx.nontrivial = bool(dirs or groups)
    if r.rc != 0: ctx.fail("cards config ends with status %d: %s" % (r.rc, r.text[-300:]))
    got = r.out.decode("utf-8", "replace") if isinstance(r.out, bytes) else r.out
    # nothing needs the architecture without a collection with an url
    if not any(u for _, _, u in dirs): got = got.replace("Binaries : \n", "Binaries : %s\n" % arch)
    if got.split("\n") != want + [""]: ctx.fail("cards config shows %r, expected %r" % (got.split("\n"), want))
    ctx.tag("config", *(["url"] if any(d[2] for d in dirs) else []))
    if not case["purge"]: return
    w.mkdir("srv/outside")
    w.write("srv/outside/keep", "k")
    for t, f in case["f"]:
        p = t + "/" + f
        if f.endswith("lnk") and "/" not in f:
            w.mkdir(t)
            try: w.symlink(p, "/srv/outside" if f == "dlnk" else "/srv/outside/keep")
            except FileExistsError: pass
        elif f == "fifo":
            import os
            w.mkdir(t)
            try: os.mkfifo(w.p(p))
            except FileExistsError: pass
        elif f == "dirlnk/x":
            w.mkdir(t)
            try: w.symlink(t + "/dirlnk", "/srv/outside")
            except FileExistsError: pass
        else: w.write(p, p)
    b4 = W.strip_ino(w.snapshot())
    gone = set()
    for d, c, u in dirs:
        if not u: continue
        top = "/".join(x for x in (d + "/" + c).split("/") if x)
        if not (d + "/" + c).startswith("/"): continue
        for p, e in b4.items():
            if p.startswith(top + "/") and not any(x.startswith(".") for x in p[len(top) + 1:].split("/")) and e["t"] not in ("d", "l"): gone.add(p)
    if case["err"] >= 0 and gone and not case["uid"]:
        r, n, _ = w.trace(["-c"], "/t/cards", "config", *opt)
        r, n, call = w.trace(["-e", "%d:%d" % (n + case["err"] % len(gone), errno.EIO)], "/t/cards", "purge", *opt)
        if call < 0 or r.rc is None: return
        now = W.strip_ino(w.snapshot())
        left = [p for p in gone if p in now]
        ctx.tag("fault")
        if r.crashed(): ctx.fail("cards purge crashes with an error: %s" % r.text[-300:])
        if left and r.rc == 0: ctx.fail("cards purge with EIO at its call %s ends with status %d; left are %s" % (call, r.rc, left))
        if len(left) > 1: ctx.fail("cards purge stops at the first file it cannot remove: %s" % left)
        if {p: e for p, e in b4.items() if p not in gone and e["t"] != "d"} != {p: e for p, e in now.items() if p not in gone and e["t"] != "d"}: ctx.fail("cards purge touches other files")
        return
    r = w.cards("purge", *opt, env={"LC_ALL": "C"}, uid=case["uid"])
    now = W.strip_ino(w.snapshot())
    if case["uid"]:
        if r.rc == 0: ctx.fail("cards purge works for everybody")
        gone = set()
    elif r.rc != 0: ctx.fail("cards purge ends with status %d: %s" % (r.rc, r.text[-300:]))
    d = W.diff_snap({p: e for p, e in b4.items() if p not in gone}, now)
    if gone: ctx.tag("purge")
    if d: ctx.fail("cards purge (collections with an url: %s): %s" % ([x for x in dirs if x[2]], d))
