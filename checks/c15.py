import hashlib
import depot as D, ed25519 as E, world as W
NEEDS = ["sbx", "cards:asan"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing with tampered repositories, against a reference Ed25519/SHA-512 verifier"
NOTE = ("Exploration: cards install and cards upgrade run against generated signed repositories in which packages, hashes, signatures and keys were changed; an independent "
        "verifier says which packages are authentic, and anything else must be refused with the system unchanged.")
EXAMPLES = {"quick": 100, "thorough": 4000}
RULE = ("1-4 packages in 1-2 collections (chains and diamonds of runtime dependencies, locale packages), each collection signed with its own key, downloaded from a mirror or already in "
        "the depot; 0-2 changes: package bytes (flipped, cut, extended, replaced by another package), hash lines, signatures (bit flips, other key, other package, other message, "
        "missing, odd or no hexadecimal digits), public key (other, missing, garbage). Non-trivial: at least one change.")
ASSUMPTIONS = ["Package files given by path on the command line are the administrator's own and are not verified.",
               "A validly signed package offered under another name or as an older version is outside the signature's scope."]
NAMES = ["app", "libx", "zz", "dep-y"]
K = {"base": b"k" * 32, "cli": b"c" * 32}
OTHER = b"o" * 32
PUB = {}


def pub(seed):
    if seed not in PUB: PUB[seed] = E.public(seed)
    return PUB[seed]


def gen(g, tier):
    n = g.randint(1, 4)
    ps = []
    for i in range(n):
        q = {"n": NAMES[i], "c": g.choice(["base", "base", "cli"]), "R": [x["n"] for x in ps if g.chance(0.6)], "z": g.choice(["", "", "xz", "gz"])}
        if g.chance(0.1): q["big"] = g.choice([70000, 300000, 1100000])
        ps.append(q)
    if g.chance(0.25): ps.append({"n": ps[-1]["n"] + ".fr", "c": ps[-1]["c"], "g": "fr"})
    ts = []
    for _ in range(g.choice([0, 1, 1, 1, 1, 2, 2])):
        i = g.randrange(len(ps))
        k = g.choice(["file", "file", "sig", "sig", "sig", "hash", "key", "gone"])
        t = {"k": k, "i": i, "w": g.choice(["local", "mirror", "both"])}
        if k == "file": t["how"] = g.choice(["flip", "cut", "add", "evil", "evil-hash", "other"]); t["at"] = g.random()
        if k == "hash": t["how"] = g.choice(["flip", "gone", "short", "upper", "empty", "other"])
        if k == "sig": t["how"] = g.choice(["flip", "flip", "key", "other", "text", "gone", "empty", "short", "odd", "long", "junk", "upper", "zero", "malleable"]); t["at"] = g.randrange(512)
        if k == "key": t["how"] = g.choice(["other", "gone", "junk", "empty", "private", "evil-all"])
        ts.append(t)
    return {"p": ps, "t": ts, "cached": [g.chance(0.4) for _ in ps], "cmd": g.choice(["install", "install", "install", "upgrade"]), "deps": [g.chance(0.3) for _ in ps],
            "url": g.choice(["global", "global", "dir"])}


def setup(w, case):
    """-> expected packages: name -> (package, authentic)"""
    ps, times = case["p"], D.times_of(case["p"])
    # packages of more than a few blocks
    ps = [dict(q, z="", e=[{"p": "opt", "t": "d"}, {"p": "opt/big-" + q["n"], "t": "f", "c": ["k", q["big"], q["n"]]}, {"p": "opt/" + q["n"], "t": "f", "c": q["n"] + "\n"}]) if q.get("big") else q for q in ps]
    w.reset()
    D.base(w)
    colls = sorted({q["c"] for q in ps})
    good = {q["n"]: D.archive(q, times) for q in ps}
    keys = {c: E.public_pem(pub(K[c])) for c in colls}
    local = {q["n"]: good[q["n"]] if c else None for q, c in zip(ps, case["cached"])}
    mirror = dict(good)
    recs = {}
    for q in ps:
        l = D.record(q, good[q["n"]], K[q["c"]], times)
        recs[q["n"]] = l
    for t in case["t"]:
        q = ps[t["i"] % len(ps)]
        n = q["n"]
        rec = recs[n]
        where = [x for x in (local, mirror) if t["w"] == "both" or x is (local if t["w"] == "local" else mirror)]
        if t["k"] == "file":
            for x in where:
                b = x[n]
                if b is None: continue
                if t["how"] == "flip":
                    p = int(t["at"] * len(b)); b = b[:p] + bytes([b[p] ^ 1]) + b[p + 1:]
                elif t["how"] == "cut": b = b[:int(t["at"] * len(b))]
                elif t["how"] == "add": b = b + b"\0" * 512
                elif t["how"] == "other": b = good[ps[0]["n"]]
                else: b = D.archive(dict(q, e=[{"p": "opt", "t": "d"}, {"p": "opt/" + n, "t": "f", "c": "evil\n"}]), times)
                x[n] = b
                if t["how"] == "evil-hash": recs[n] = rec = ["H" + hashlib.sha512(b).hexdigest() if l[0:1] == "H" else l for l in rec]
        elif t["k"] == "hash":
            h = [l for l in rec if l[:1] == "H"]
            h = h[0][1:] if h else "0" * 128
            v = {"flip": h[:-1] + ("0" if h[-1:] != "0" else "1"), "gone": None, "short": h[:10], "upper": h.upper(), "empty": "", "other": hashlib.sha512(b"").hexdigest()}[t["how"]]
            recs[n] = [l for l in (("H" + v if v is not None else None) if l[:1] == "H" else l for l in rec) if l is not None]
        elif t["k"] == "sig":
            s = [l for l in rec if l[:1] == "I"]
            s = s[0][1:] if s else "0" * 128
            h = hashlib.sha512(good[n]).hexdigest()
            if t["how"] == "flip" and len(s) == 128:
                b = bytearray.fromhex(s) if all(c in "0123456789abcdefABCDEF" for c in s) else bytearray(64)
                b[t["at"] // 8] ^= 1 << t["at"] % 8
                v = b.hex()
            elif t["how"] == "malleable" and len(s) == 128:
                b = bytes.fromhex(s) if all(c in "0123456789abcdefABCDEF" for c in s) else bytes(64)
                v = (b[:32] + ((int.from_bytes(b[32:], "little") + E.L) % 2 ** 256).to_bytes(32, "little")).hex()
            else:
                v = {"key": lambda: D.sign_hash(OTHER, h), "other": lambda: D.sign_hash(K[q["c"]], hashlib.sha512(b"x" + good[n]).hexdigest()),
                     "text": lambda: E.sign(K[q["c"]], h.encode()).hex(), "gone": lambda: None, "empty": lambda: "", "short": lambda: s[:-2], "odd": lambda: s[:-1], "long": lambda: s + "00",
                     "junk": lambda: "zz" + s[2:], "upper": lambda: s.upper(), "zero": lambda: "0" * 128}.get(t["how"], lambda: s)()
            recs[n] = [l for l in (("I" + v if v is not None else None) if l[:1] == "I" else l for l in rec) if l is not None]
        elif t["k"] == "key":
            c = q["c"]
            keys[c] = {"other": lambda: E.public_pem(pub(OTHER)), "gone": lambda: None, "junk": lambda: "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n", "empty": lambda: "",
                       "private": lambda: E.private_pem(K[c]), "evil-all": lambda: E.public_pem(pub(K["base" if c != "base" else "cli"]))}[t["how"]]()
        elif t["k"] == "gone":
            for x in where: x[n] = None
    for c in colls:
        ms = [q for q in ps if q["c"] == c]
        rep = "".join(l + "\n" for q in sorted(ms, key=D.fname) for l in recs[q["n"]])
        fil = "".join(l + "\n" for q in sorted(ms, key=D.fname) for l in ["@" + D.fname(q)] + D.listing(q) + [""])
        D.put_local(w, c, rep, fil, {D.fname(q): local[q["n"]] for q in ms if local[q["n"]] is not None})
        md = D.put_mirror(w, c, rep, fil, {D.fname(q): mirror[q["n"]] for q in ms if mirror[q["n"]] is not None}, pub(K[c]))
        for d in (D.DEPOT + "/" + c, md):
            if keys[c] is not None: w.write(d + "/.PKEY", keys[c])
            elif w.p(d + "/.PKEY"): w._rm(w.p(d + "/.PKEY")) if __import__("os").path.lexists(w.p(d + "/.PKEY")) else None
    u = "file:///" + D.MIRROR
    D.conf(w, [c + (" | " + u if case["url"] == "dir" else "") for c in colls], url=u if case["url"] == "global" else None, groups=["fr"])
    exp = {}
    for q in ps:
        n = q["n"]
        h = [l[1:].lower() for l in recs[n] if l[:1] == "H"]
        s = [l[1:] for l in recs[n] if l[:1] == "I"]
        used = local[n]
        if used is None or hashlib.sha512(used).hexdigest() != (h[0] if h else ""): used = mirror[n]
        ok = used is not None
        try:
            key = E.load_public(keys[q["c"]]) if keys[q["c"]] else None
            ok = ok and key is not None and E.verify(key, hashlib.sha512(used).digest(), bytes.fromhex(s[0] if s else ""))
        except ValueError:
            ok = False
        # a download which can only fail or bring something else than announced may be refused too
        unsure = ok and (mirror[n] is None or (local[n] is not None and hashlib.sha512(local[n]).hexdigest() != (h[0] if h else ""))) or (ok and hashlib.sha512(used).hexdigest() != (h[0] if h else ""))
        exp[n] = (used, ok, unsure)
    return exp


def state(w):
    s = w.snapshot()
    return {k: v for k, v in s.items() if not k.startswith((D.DEPOT + "/", D.MIRROR)) and not k.startswith("var/log")}


def run_case(ctx, case):
    w = ctx.w
    exp = setup(w, case)
    ps = case["p"]
    ctx.nontrivial = bool(case["t"])
    plain = [q for q in ps if not q.get("g")]
    top = plain[-1]["n"]
    by = {q["n"]: q for q in ps}
    if case["cmd"] == "install":
        need, todo = set(), [top]
        while todo:
            n = todo.pop()
            if n in need: continue
            need.add(n)
            todo += by[n].get("R", [])
        need |= {n + ".fr" for n in need if n + ".fr" in by}
        have = set()
        args = ["install", top]
    else:
        have = {q["n"] for q in plain}
        for q in plain:
            D.install_record(w, dict(q, v="0.9", b=D.BT - 1000))
        need = {q["n"] for q in ps}
        args = ["upgrade", "-p"]
    before = state(w)
    r = w.cards(*args, env={"LC_ALL": "C"})
    if r.crashed() or r.timeout:
        ctx.fail("cards %s ended abnormally (status %d): %s" % (" ".join(args), r.rc, r.text[-1500:]))
    after = state(w)
    bad = sorted(n for n in need if not exp[n][1])
    unsure = sorted(n for n in need if exp[n][2])
    gone = case["cmd"] == "upgrade" and any(t["k"] == "key" and t["how"] in ("gone", "empty") for t in case["t"])
    if bad:
        ctx.tag("refused")
        if r.rc == 0: ctx.fail("cards %s succeeds although %s cannot be verified" % (" ".join(args), bad))
        d = W.diff_snap(W.strip_ino(before), W.strip_ino(after))
        if d: ctx.fail("cards %s changes the system although %s cannot be verified: %s" % (" ".join(args), bad, d))
        return
    if unsure or gone:
        ctx.tag("unsure")
        if r.rc != 0: return
    ctx.tag("accepted")
    if r.rc != 0: ctx.fail("cards %s refuses (status %d) although all of %s are authentic: %s" % (" ".join(args), r.rc, sorted(need), r.text[-600:]))
    db = w.read_db()
    for n in sorted(need):
        q = by[n]
        f = after.get("opt/" + n)
        want = (q["n"] + "\n").encode() if q.get("big") else D.entries(q)[-1]["c"].encode()
        if n not in db or not f or f["c"] != want: ctx.fail("%s is not installed as signed after cards %s: %s" % (n, " ".join(args), f))
