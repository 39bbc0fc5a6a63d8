"""A command line means the same however its options are written and placed; a wrong one does nothing."""
import re
import depot as D, world as W
NEEDS = ["sbx", "pkgadd", "cards"]
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing of the command lines of pkgadd, pkgrm, pkginfo and cards: a generated valid command line against its rewritings (order, short and long names, repetition), against insertions of help and version, and against damaged command lines, over the whole file system"
NOTE = ("Exploration: each generated command line runs in a cell with installed packages and a depot; rewritten with its options in another order, under their other names or repeated, it must end with the same status, output and file "
        "system; with a help or version option it must succeed, print and change nothing; made invalid (unknown or incomplete option, too many or too few arguments) it must fail, explain itself and change nothing.")
EXAMPLES = {"quick": 450, "thorough": 4000}
RULE = ("18 cards commands, pkgadd, pkgrm and 13 modes of pkginfo with 0-4 options, packages that are named like commands, 0-3 installed packages. Non-trivial: the line has an option and a rewriting differs from it, or the line is invalid.")
NAMES = ["foo", "bar", "list", "force", "install", "upgrade"]
# short name, long name
CF = {"install": ["u/upgrade", "f/force", "d/disable", "/nolog"], "remove": ["f/force"], "upgrade": ["p/proceed", "c/check", "s/size", "/no-sync", "/no-progress", "/download-only", "/ready"],
      "list": ["b/binaries", "S/sets"], "info": ["b/binaries", "S/sets"], "search": ["n/name"], "query": ["b/binaries"], "files": ["b/binaries"], "diff": ["/no-sync"], "config": [], "purge": [], "help": [],
      "sync": ["/no-progress"], "level": [], "depends": [], "deptree": [], "dependent": [], "create": ["/dry", "/no-meta"]}
# how many arguments: exactly, at least, any
CA = {"files": "1", "query": "1", "info": "1", "search": "1", "install": "+", "remove": "+", "depends": "1", "deptree": "1", "create": "1", "dependent": "1"}
PF = {"pkgadd": ["i/ignore", "u/upgrade", "f/force", "p/progress"], "pkgrm": ["p/progress"]}
MODES = ["i/installed", "n/number", "d/details", "l/list", "R/runtimedep", "o/owner", "a/archive", "m/meta", "f/footprint", "L/libraries", "b/buildtime", "/runtimedepfiles", "/runtimelibs"]
BARE = ("i", "n")
VOLATILE = re.compile(rb"(Available space on your system|Installed date)[^\n]*")
COUNTED = ["i", "n", "l", "o", "a", "f"]


def gen(g, tier):
    inst = g.sub(NAMES, 0, 3)
    c = {"in": inst, "w": g.pick((6, lambda: "same"), (3, lambda: "bad"), (2, lambda: "help")), "o": [g.random() for _ in range(8)], "x": g.randint(0, 9), "rep": int(g.chance(0.2))}
    tool = g.pick((5, lambda: "cards"), (2, lambda: "pkgadd"), (1, lambda: "pkgrm"), (2, lambda: "pkginfo"))
    c["t"] = tool
    if tool == "cards":
        c["c"] = g.choice(list(CF) + ["install", "remove", "upgrade", "info"])
        c["f"] = g.sub(CF[c["c"]], 0, min(3, len(CF[c["c"]]))) if CF[c["c"]] else []
        c["root"] = g.pick((3, lambda: ""), (1, lambda: "/mnt")) if c["c"] in ("install", "remove", "upgrade") else ""
        c["conf"] = int(g.chance(0.2))
        k = CA.get(c["c"], "")
        c["a"] = g.sub(inst if inst and c["c"] in ("remove", "info", "files") and g.chance(0.7) else NAMES, 1, 1 if k == "1" else 2) if k else []
    elif tool == "pkginfo":
        c["c"] = g.choice(MODES)
        c["root"] = g.pick((3, lambda: ""), (1, lambda: "/mnt"))
        c["f"] = []
        c["a"] = [] if c["c"][0] in BARE else ["/pk/" + g.choice(NAMES)] if c["c"][0] in "amf" else ["opt"] if c["c"][0] == "o" else ["/opt"] if c["c"][0] == "/" else [g.choice(inst or NAMES)]
    else:
        c["f"] = g.sub(PF[tool], 0, len(PF[tool]))
        c["root"] = g.pick((3, lambda: ""), (1, lambda: "/mnt"))
        n = g.choice(inst) if inst and g.chance(0.6) else g.choice(NAMES)
        c["a"] = ["/pk/" + n if tool == "pkgadd" else n]
    return c


def pair(o):
    s, _, l = o.partition("/")
    return ("-" + s if s else "--" + l), "--" + l


def groups(case, other=False):
    """The command line as groups of words that belong together; the positional ones are marked."""
    n = 1 if other else 0
    t, gs = case["t"], []
    for o in case["f"]: gs.append((0, [pair(o)[n]]))
    root = case.get("root") or ""
    if t == "cards":
        if root: gs.append((0, ["--root=" + root]))
        if case.get("conf"): gs.append((0, ["--conf=etc/cards.conf"]))
        gs.append((1, [case["c"]]))
        for a in case["a"]: gs.append((1, [a]))
    else:
        if root: gs.append((0, [["-r", "--root"][n], root]))
        if t == "pkginfo": gs.append((0, [pair(case["c"])[n]] + list(case["a"][:1])))
        else:
            for a in case["a"]: gs.append((1, [a]))
    return gs


def shuffled(gs, keys):
    """The groups in another order, the positional ones in theirs."""
    ks = [(keys[i % len(keys)] if keys else i, i) for i in range(len(gs))]
    out = [gs[i] for _, i in sorted(ks)]
    pos = iter([x for x in gs if x[0]])
    return [next(pos) if x[0] else x for x in out]


def words(gs): return [x for _, ws in gs for x in ws]


def prepare(w, case, memo={}):
    w.reset()
    D.base(w)
    D.conf(w, ["cli"])
    pk = [{"n": n, "v": "2.0", "c": "cli", "s": ["games"], "D": "the " + n} for n in NAMES]
    if not memo:
        seed = bytes(range(32))
        memo["t"] = D.texts(pk, seed)
        memo["pub"] = D.E.public(seed) if hasattr(D.E, "public") else None
        memo["a"] = {q["n"]: D.archive(q) for q in pk}
    rep, fil, arch = memo["t"]
    D.put_local(w, "cli", rep, fil, arch, memo["pub"])
    for q in pk: w.write("pk/" + q["n"], memo["a"][q["n"]])
    for root in ("", "mnt/"):
        w.mkdir(root + "var/lib/pkg/DB")
        for q in pk:
            if q["n"] not in case["in"] or (root and q["n"] == case["in"][0]): continue
            old = dict(q, v="1.0", b=D.BT - 1000)
            d = root + "var/lib/pkg/DB/" + q["n"]
            w.write(d + "/META", "".join(l + "\n" for l in sorted(D.meta(old))))
            w.write(d + "/files", "".join(l + "\n" for l in sorted(D.listing(old))))
            for e in D.entries(old):
                if e["t"] == "d": w.mkdir(root + e["p"])
                else: w.write(root + e["p"], e["c"])


def run(ctx, case, line):
    w = ctx.w
    prepare(w, case)
    before = W.strip_ino(w.snapshot(mtimes=False))
    r = w.run("/t/" + case["t"], *line)
    if (r.crashed() and r.rc != 255) or r.timeout: ctx.fail("%s ended abnormally (status %d): %s" % (" ".join([case["t"]] + line), r.rc, r.text[-400:]))
    return r, before, W.strip_ino(w.snapshot(mtimes=False))


def run_case(ctx, case):
    t = case["t"]
    k = CA.get(case["c"], "") if t == "cards" else ("0" if case["c"][0] in BARE else "1") if t == "pkginfo" else "1"
    if t == "cards" and case["c"] not in CF: return
    if t == "pkginfo" and case["c"] not in MODES: return
    if (k in ("1", "+") and not case["a"]) or any(a not in NAMES and not a.startswith("/") and a != "opt" for a in case["a"]): return
    gs = groups(case)
    line = words(gs)
    shown = lambda l: " ".join([t] + l)
    keys = case["o"]
    x = case["x"]
    ctx.tag(t + ("-" + case["c"] if t == "cards" else ""))
    ctx.tag(case["w"])
    at = int(keys[0] * (len(gs) + 1)) if keys else 0
    if case["w"] == "same":
        r, b, a = run(ctx, case, line)
        if t == "cards" and r.rc == 255 or r.rc and b"option" in r.err and t != "cards": ctx.fail("%s is refused as a command line (status %d): %s" % (shown(line), r.rc, r.text[:300]))
        hs = groups(case, bool(x & 1))
        if case["rep"]:
            flags = [(0, [pair(o)[x >> 1 & 1]]) for o in case["f"]]
            hs = hs + flags
        hs = shuffled(hs, keys)
        other = words(hs)
        if other == line: return
        ctx.nontrivial = bool(case["f"] or case.get("root") or case.get("conf"))
        r2, b2, a2 = run(ctx, case, other)
        for n in (b, a, b2, a2):
            for f in n.values(): f.pop("mt", None)
        if b != b2: ctx.fail("HARNESS two cells differ: %s" % W.diff_snap(b, b2))
        what = "%s and %s: " % (shown(line), shown(other))
        if r.rc != r2.rc: ctx.fail(what + "status %d and %d: %s" % (r.rc, r2.rc, (r2.text or r.text)[:300]))
        x, y = (VOLATILE.sub(b"", t) for t in (r.out + b"|" + r.err, r2.out + b"|" + r2.err))
        if x != y:
            i = next((i for i, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
            ctx.fail(what + "the output differs: %r and %r" % (x[max(0, i - 60):i + 150], y[max(0, i - 60):i + 150]))
        d = W.diff_snap(a, a2)
        if d: ctx.fail(what + "the results differ: %s" % d)
        return
    if case["w"] == "help":
        opt = ["-h", "--help", "-v", "--version"][x % (2 if t == "cards" else 4)]
        hs = shuffled(groups(case, bool(x & 4)), keys[1:])
        bad = words(hs[:at] + [(0, [opt])] + hs[at:])
        r, b, a = run(ctx, case, bad)
        ctx.nontrivial = True
        if r.rc: ctx.fail("%s fails (status %d): %s" % (shown(bad), r.rc, r.text[:300]))
        if a != b: ctx.fail("%s only asks for information but changes: %s" % (shown(bad), W.diff_snap(b, a)))
        first = opt
        if t == "cards":
            i = [j for j, h in enumerate(hs[:at] + [(0, [opt])] + hs[at:]) if h[0] or h[1] == [opt]][0]
            first = "-h" if bad[i] == opt else None
            name = case["c"] if first is None else "install"
            if name.encode() not in r.out or b"sage" not in r.out: ctx.fail("%s does not print how it is used: %r" % (shown(bad), r.text[:300]))
        else:
            plain, _, _ = run(ctx, case, [opt])
            if plain.out != r.out or not r.out: ctx.fail("%s prints %r, %s prints %r" % (shown(bad), r.out[:200], shown([opt]), plain.out[:200]))
        return
    # not valid
    hs = shuffled(groups(case, bool(x & 1)), keys[1:])
    ins = lambda ws: words(hs[:at] + [(0, ws)] + hs[at:])
    kinds = ["long", "short", "dash", "joined", "value", "args", "none"] + (["cmd", "nocmd", "novalue"] if t == "cards" else ["modes"] if t == "pkginfo" else [])
    kind = kinds[int((keys[1] if len(keys) > 1 else 0) * len(kinds)) % len(kinds)]
    longs = {pair(o)[1] for o in (CF.get(case["c"], []) if t == "cards" else PF.get(t, MODES))}
    if kind == "long": bad = ins([["--bogus", "--forc", "--upgraded", "--Force", "--roots=/mnt", "--", "---force", "--instal", "--confi=etc/cards.conf"][x % 9]])
    elif kind == "short": bad = ins([["-Z", "-q", "-\xe9", "-0", "-?"][x % 5]])
    elif kind == "dash":
        if t == "pkginfo" and x % 2: bad = ins(["stray"])
        else: bad = ins(["-"])
    elif kind == "joined": bad = ins([["-uf", "-fu", "-ib", "-hh"][x % 4]])
    elif kind == "value": bad = words(hs) + (["--root", "--conf", "--root=", "--conf="][x % 4:x % 4 + 1] if t == "cards" else [["-r", "--root"][x % 2]])
    elif kind == "novalue": bad = ins([["--root", "--conf", "--root=", "--conf="][x % 4]])
    elif kind == "args":
        if k == "1" and t != "pkginfo": bad = words(hs) + [("/pk/" if t == "pkgadd" else "") + NAMES[x % len(NAMES)]]
        elif t == "pkginfo": bad = words(hs) + ["stray"]
        else: return
    elif kind == "none":
        if k not in ("1", "+"): return
        if t == "pkginfo":
            bad = words([h for h in hs if h[1][0] not in pair(case["c"])])
            if x % 2: bad += [pair(case["c"])[x >> 1 & 1]]
        elif t == "pkgrm": return       # nothing to remove is not said to be wrong
        else: bad = words([h for h in hs if not h[0] or (t == "cards" and h[1] == [case["c"]])]) if t != "cards" else [v for v in words([h for h in hs if not h[0]])] + [case["c"]]
    elif kind == "cmd":
        bad = [["instal", "Install", "install ", "removes", "nosuch", ""][x % 6] if v == case["c"] and j == words(hs).index(case["c"]) else v for j, v in enumerate(words(hs))]
    elif kind == "nocmd": bad = words([h for h in hs if not h[0]])
    else:
        if case["c"][0] not in COUNTED: return
        m = [o for o in MODES if o[0] in COUNTED and o != case["c"]][x % (len(COUNTED) - 1)]
        bad = words(hs) + [pair(m)[x & 1]] + ([] if m[0] in BARE else ["opt" if m[0] == "o" else "/pk/foo" if m[0] in "af" else "foo"])
    r, b, a = run(ctx, case, bad)
    ctx.tag("bad-" + kind)
    ctx.nontrivial = True
    if r.rc == 0: ctx.fail("%s is not a valid command line but succeeds: %s" % (shown(bad), r.text[:300]))
    if not r.text.strip(): ctx.fail("%s fails without a word (status %d)" % (shown(bad), r.rc))
    if a != b: ctx.fail("%s is not a valid command line (status %d) but changes: %s" % (shown(bad), r.rc, W.diff_snap(b, a)))
