import errno, random
import depot as D, ed25519 as E, httpd, world as W, zstdlib as Z
NEEDS = ["sbx", "cards", "trc"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of cards sync with generated mirrors, and injected transfer faults, failing system calls and kills at generated points"
NOTE = ("Exploration with fault injection: mirrors over file and HTTP serve generated metadata, intact or damaged, cut off or missing; cards sync is also killed, or its system calls fail, at generated "
        "points. Afterwards every metadata file must be the complete old or the complete new one, and new after success.")
EXAMPLES = {"quick": 160, "thorough": 4000}
RULE = ("1-3 collections with or without url, each with generated .REPO, .FILES (empty to several 100 KB) and .PKEY, compressed in different ways (levels, without size, checksum, several frames, skippable frames); "
        "previous state absent, older or with left-over files; faults: missing or damaged files, cut transfers, HTTP errors, wrong announced sizes, kills and failing system calls. Non-trivial: a fault, or a change of content.")
KINDS = ["REPO.zst", "FILES.zst", "PKEY"]


def gen(g, tier):
    cs = []
    for n in g.sub(["base", "cli", "gui"], 1, 3):
        c = {"n": n, "url": int(not g.chance(0.15)), "seed": g.randrange(1 << 30), "size": [g.choice([0, 1, 20, 200, 3000]) for _ in range(2)], "old": g.choice(["none", "old", "old", "same", "junk"]),
             "how": g.choice(["plain", "raw", "sum", "nosize", "frames", "skip", "fast"])}
        cs.append(c)
    t = {"c": cs, "via": g.choice(["file", "http", "http"]), "dirurl": g.choice([0, 0, 1, 2]), "bad": []}
    for c in cs: c["own"], c["twin"] = int(g.chance(0.5)), int(g.chance(0.08))
    if g.chance(0.45):
        for _ in range(g.choice([1, 1, 2])):
            t["bad"].append({"c": g.randrange(len(cs)), "f": g.choice(KINDS), "how": g.choice(["gone", "cut", "cut", "flip", "junk", "empty", "huge", "tail", "short", "close", "500", "cutchunk", "chunk", "move", "404"]), "at": g.random()})
    elif g.chance(0.6):
        t["via"] = "file"
        for c in cs: c["size"] = [min(s, 200) for s in c["size"]]
        t["trace"] = {"m": g.choice(["-k", "-k", "-e", "-E"]), "at": g.randrange(200), "err": g.choice(["EIO", "ENOSPC", "EACCES"])}
    return t


def text(seed, n, what):
    r = random.Random("%s/%s" % (seed, what))
    out = []
    for i in range(n):
        q = {"n": "p%d" % r.randrange(10000), "v": "%d.%d" % (r.randrange(9), r.randrange(9)), "D": "%x" % r.getrandbits(r.choice([8, 64, 600]))}
        out += ["@" + D.fname(q)] + (D.meta(q) if what == "REPO" else D.listing(q)) + [""]
    return "".join(l + "\n" for l in out).encode()


def place(c):
    """The directory of a collection; "2:NAME" is the same one in another depot."""
    return "var/lib/pkg/other/" + c[2:] if c[:2] == "2:" else D.DEPOT + "/" + c


def packed(b, how):
    if how == "raw": return D.zst(b)
    if how == "sum": return Z.compress(b, checksum=True)
    if how == "nosize": return Z.compress(b, size=False, level=1)
    if how == "fast": return Z.compress(b, level=19)
    if how == "frames":
        h = len(b) // 2
        return Z.compress(b[:h]) + Z.compress(b[h:], checksum=True)
    if how == "skip": return b"\x50\x2a\x4d\x18\x04\x00\x00\x00abcd" + Z.compress(b)
    return Z.compress(b)


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    D.base(w)
    tr = case.get("trace")
    http = case["via"] == "http"
    m = httpd.mirror() if http else None
    if m: m.files = {}
    colls = []
    for c in case["c"]:
        if c["n"] not in [x["n"] for x in colls]: colls.append(dict({"url": 1, "seed": 0, "size": [1, 1], "old": "none", "how": "plain"}, **c))
    lines, want, damage, changed = [], {}, {}, False
    u = "http://127.0.0.1:%d" % m.port if http else "file:///" + D.MIRROR
    raw = {}
    for c in colls:
        sz = (list(c["size"]) + [1, 1])[:2]
        new = {"REPO": text(c["seed"], sz[0], "REPO"), "FILES": text(c["seed"], sz[1], "FILES"), "PKEY": b"-----BEGIN PUBLIC KEY-----\n%064x\n-----END PUBLIC KEY-----\n" % c["seed"]}
        d = D.DEPOT + "/" + c["n"]
        old = dict.fromkeys(new)
        if c["old"] in ("old", "junk"):
            old = {k: (text(c["seed"] + 1, 3, k) if k != "PKEY" else b"an older key\n") for k in new}
        if c["old"] == "same": old = dict(new)
        for k, b in old.items():
            if b is not None: w.write(d + "/." + k, b)
        if c["old"] == "junk":
            for x in (".REPO.zst", ".FILES.zst.part", ".REPO.new", ".PKEY.part"): w.write(d + "/" + x, b"left over " * 50)
            w.write(d + "/app.cards-1-1-x86_64.tar.xz", b"a package")
        # dirurl 0: one url for all; 1: an url for each directory; 2: directories with an own one besides
        own = case["dirurl"] == 2 and c.get("own", 0)
        md = "%s%s/%s/%s/%s" % (D.MIRROR if not http else "", "/own/" + c["n"] if own else "", D.ARCH, D.VERSION, c["n"])
        lines.append("dir /%s/%s%s" % (D.DEPOT, c["n"], " | " + u + "/own/" + c["n"] if own else " | " + u if c["url"] and case["dirurl"] == 1 else ""))
        if not c["url"] and case["dirurl"] != 1: lines.pop(); lines.append(None)
        if lines[-1] is None:
            lines.pop()
            continue
        if c.get("twin"): lines.append(lines[-1].replace(D.DEPOT, "var/lib/pkg/other"))
        for k, b in new.items():
            want[(c["n"], k)] = (old[k], b if c["url"] else old[k])
            if c["url"]:
                changed = changed or old[k] != b
                raw[(c["n"], k if k == "PKEY" else k + ".zst")] = [md.lstrip("/") + "/." + (k if k == "PKEY" else k + ".zst"), b if k == "PKEY" else packed(b, c["how"]), "ok"]
    expect, soft = True, False
    for t in case["bad"]:
        c = colls[t["c"] % len(colls)]["n"]
        if (c, t["f"]) not in raw or (c, t["f"]) in damage: continue
        damage[(c, t["f"])] = 1
        x = raw[(c, t["f"])]
        b, how = x[1], t["how"]
        key = t["f"] == "PKEY"
        if how in ("short", "close", "500", "cutchunk", "chunk", "move", "404"):
            if not http: how = "gone" if how not in ("chunk", "move") else "ok"
            else: x[2] = how
            if how == "404": x[1] = b"<html>not here</html>" * 20
            if how in ("short", "close", "500", "cutchunk", "404", "gone"): expect = False
            if how == "gone": x[2] = "gone"
        elif how == "gone": x[2], expect = "gone", False
        elif key: 
            x[1] = b"another key\n"
            want[(c, "PKEY")] = (want[(c, "PKEY")][0], x[1])
        else:
            if how == "cut": x[1] = b[:int(t["at"] * len(b))]
            elif how == "flip":
                p = int(t["at"] * len(b)) if b else 0
                x[1] = b[:p] + bytes([b[p] ^ 1 << int(t["at"] * 997) % 8]) + b[p + 1:]
                soft = True       # may decompress to something else when there is no checksum
            elif how == "junk": x[1] = b"<html>Welcome to the hotel network</html>"
            elif how == "empty": x[1] = b""
            elif how == "huge": x[1] = b"\x28\xb5\x2f\xfd\xe0" + b"\xff" * 6 + b"\x0f\x00" + b"\x01\x00\x00"
            elif how == "tail": x[1] = b + b"trailing text"
            if how not in ("flip",):
                if how == "cut" and x[1] and colls[t["c"] % len(colls)]["how"] in ("frames", "skip"): soft = True
                else: expect = False
    for c in colls:
        for k in ("REPO", "FILES", "PKEY"):
            if c.get("twin") and c["url"] and (c["n"], k) in want: want[("2:" + c["n"], k)] = (None, want[(c["n"], k)][1])
    for p, b, kind in raw.values():
        if http:
            if kind != "gone": m.files[p] = b if kind == "ok" else (kind, b)
        elif kind != "gone": w.write(p, b)
    w.write("etc/cards.conf", "".join(l + "\n" for l in lines) + ("url %s\n" % u if case["dirurl"] != 1 else ""))
    w.write("var/lib/pkg/nutyx-version", "version %s\n" % D.VERSION)

    def state(): return {k: v for k, v in w.snapshot().items() if not k.startswith(D.MIRROR)}
    before = state()

    def read(c, k, s):
        e = s.get("%s/.%s" % (place(c), k))
        return e["c"] if e and e["t"] == "f" else None

    def complete(txt, s, new_only):
        for (c, k), (o, n) in sorted(want.items()):
            got = read(c, k, s)
            if got == n: continue
            if not new_only and got == o: continue
            if soft and k != "PKEY": continue
            ctx.fail("%s: .%s of %s is %s, %s" % (txt, k, c, "absent" if got is None else "%d bytes %r..." % (len(got), got[:40]),
                     "expected the mirror's %d bytes" % len(n or b"") if new_only else "neither the old (%s) nor the new one (%d bytes)" % (o is not None and len(o), len(n or b""))))

    def others(txt, s):
        meta = tuple("%s/.%s" % (place(c), k) for c, k in want)
        a = {k: v for k, v in before.items() if not k.startswith(meta)}
        b = {k: v for k, v in s.items() if not k.startswith(meta)}
        d = W.diff_snap(W.strip_ino(a), W.strip_ino({k: v for k, v in b.items() if k in a or v["t"] != "d"}))
        if d: ctx.fail("%s changes other files: %s" % (txt, d))

    ctx.nontrivial = bool(changed or case["bad"] or tr)
    if tr:
        r, n, _ = w.trace(["-c"], "/t/cards", "sync")
        if r.rc != 0: ctx.fail("cards sync fails (status %d): %s" % (r.rc, r.text[-400:]))
        if not n: return
        complete("cards sync", state(), True)
        # again, from the start
        for c, k in want:
            if read(c, k, state()) is not None: w._rm(w.p("%s/.%s" % (place(c), k)))
            if want[(c, k)][0] is not None: w.write("%s/.%s" % (place(c), k), want[(c, k)][0])
        at = tr["at"] % n
        mode = [tr["m"], str(at)] if tr["m"] == "-k" else [tr["m"], "%d:%d" % (at, getattr(errno, tr["err"]))]
        r, _, call = w.trace(mode, "/t/cards", "sync")
        txt = "cards sync with %s at its file-changing call %d (%s) of %d" % ("a kill" if tr["m"] == "-k" else tr["err"], at, call, n)
        ctx.tag(tr["m"])
        if r.timeout: ctx.fail("%s does not end" % txt)
        if tr["m"] != "-k" and r.crashed(): ctx.fail("%s crashes: %s" % (txt, r.text[-300:]))
        s = state()
        complete(txt, s, r.rc == 0)
        others(txt, s)
        r = w.cards("sync")
        if r.rc != 0: ctx.fail("cards sync after %s fails (status %d): %s" % (txt, r.rc, r.text[-300:]))
        complete("cards sync after " + txt, state(), True)
        return
    r = w.cards("sync", env={"LC_ALL": "C"}, wall=60)
    if r.crashed() or r.timeout: ctx.fail("cards sync ended abnormally (status %d, timeout %s): %s" % (r.rc, r.timeout, r.text[-400:]))
    s = state()
    others("cards sync", s)
    if expect and not soft:
        ctx.tag("ok")
        if r.rc != 0: ctx.fail("cards sync fails (status %d) with an intact mirror: %s" % (r.rc, r.text[-400:]))
        complete("cards sync", s, True)
        left = [k for k in s if k not in before and s[k]["t"] != "d" and k.split("/")[-1] not in (".REPO", ".FILES", ".PKEY", ".REPO.zst", ".FILES.zst")]
        if left: ctx.fail("cards sync leaves %s" % left)
        return
    if soft and expect:
        if r.rc != 0: ctx.tag("soft")
        return complete("cards sync", s, False)
    ctx.tag("fault")
    if r.rc == 0: ctx.fail("cards sync succeeds although the mirror is damaged: %s" % case["bad"])
    complete("cards sync with a damaged mirror", s, False)
