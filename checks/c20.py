import errno, hashlib, os
import depot as D, ed25519 as E, world as W, zstdlib as Z
NEEDS = ["sbx", "cards", "trc"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of cards keys and cards repo against an independent Ed25519 and metadata reference, with injected failing calls and kills"
NOTE = ("Exploration with fault injection: generated key pairs and collections are signed and checked; keys, signatures, hashes and metadata are recomputed by an independent implementation of Ed25519, "
        "tampered collections must be refused, and cards repo is killed or its system calls fail at generated points.")
EXAMPLES = {"quick": 100, "thorough": 2500}
RULE = ("1-3 collections of 0-4 generated packages (all metadata fields, file lists, compressions, hidden and foreign files beside them), keys made by cards or by the reference; cards repo signing all or one collection, "
        "with damaged keys, with faults; cards repo checking collections with altered, swapped, missing packages, signatures and keys. Non-trivial: at least one package signed or checked, or a fault.")
KEYDIR = "home/u/keys"
NAMES = ["a", "bb", "lib.devel", "gtk+", "zz-long-name", "R"]


def gen(g, tier):
    cs = []
    for c in g.sub(["base-x", "base", "cli", "cl"], 1, 3):
        ps = []
        for n in g.sub(NAMES, 0, 4):
            q = {"n": n, "c": c, "v": g.choice(["1.0", "2.10"]), "r": g.choice([1, 2, 5, 9, 10, 65536]), "z": g.choice(["", "", "xz", "gz"])}
            if g.chance(0.5): q["D"] = g.choice(["a tool", "é thing", "x" * 300])
            if g.chance(0.3): q["R"] = [[g.choice(NAMES), D.BT]]
            if g.chance(0.3): q["s"] = ["set1"]
            if g.chance(0.2): q["U"] = "https://x.org"
            q["fl"] = g.sub(["usr/bin/a", "usr/bin/b", "etc/x.conf", "opt/é.txt"], 1, 3)
            if g.chance(0.08): q["big"], q["z"] = g.choice([70000, 300000, 1100000]), ""
            if g.chance(0.04): q["many"], q["z"] = g.choice([1500, 4000]), ""
            ps.append(q)
        cs.append({"n": c, "p": ps, "old": g.choice([0, 1, 1])})
    k = g.pick((3, lambda: "sign"), (3, lambda: "check"), (1.5, lambda: "keys"), (2, lambda: "fault"), (1, lambda: "bad"))
    t = {"c": cs, "k": k, "key": g.choice(["cards", "ref"]), "seed": g.randrange(1 << 30), "two": int(g.chance(0.4)), "arg": g.choice(["", "", "base", "cli", "cl", "nosuch"])}
    if k == "check":
        t["bad"] = [[g.randrange(8), g.choice(["flip", "swap", "missing", "nosig", "sig", "shortsig", "junksig", "otherkey", "nokey", "junkkey", "upper"]), g.random()] for _ in range(g.choice([0, 0, 1, 1, 2]))]
    if k == "fault": t["f"] = {"m": g.choice(["-k", "-k", "-e", "-E"]), "at": g.randrange(300), "err": g.choice(["EIO", "ENOSPC"])}
    if k == "bad": t["why"] = g.choice(["junkfile", "emptyfile", "junkkey", "pubkey", "root", "nodir", "readonly"])
    return t


def uniq(ps):
    out = []
    for q in ps:
        if q["n"] not in [x["n"] for x in out]: out.append(q)
    return out


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    D.base(w)
    kind = case["k"]
    w.mkdir("home")
    w.mkdir("home/u", 0o777)
    w.mkdir(KEYDIR, 0o777)
    w.mkdir("home/u/pub", 0o777)
    seed = hashlib.sha256(b"%d" % case["seed"]).digest()
    U = {"uid": 1000, "cwd": "/home/u/pub", "env": {"LC_ALL": "C"}}
    colls, arch = [], {}
    for c in case["c"]:
        if c["n"] in [x["n"] for x in colls]: continue
        c = dict(c, p=[dict(q) for q in uniq(c["p"])])
        for q in c["p"]: q["e"] = [{"p": f, "t": "f", "c": [q["n"] + f, max(1, q.get("big", 1) // 9), ""]} for f in q.get("fl", [])] or [{"p": "opt/x", "t": "f", "c": ["x", q.get("big", 1), ""]}]
        for q in c["p"]: q["e"] += [{"p": "usr/share/doc/%s-with-a-long-name/html/page-%05d/index.en.html" % (q["n"], i * 7919 % 100003), "t": "f"} for i in range(int(q.get("many", 0)))]
        colls.append(c)
        d = D.DEPOT + "/" + c["n"]
        w.mkdir(d, 0o777)
        for q in c["p"]:
            arch[(c["n"], q["n"])] = D.archive(q)
            w.write(d + "/" + D.fname(q), arch[(c["n"], q["n"])])
        w.write(d + "/.hidden", "not a package")
        if c["old"]:
            for n in (".REPO", ".FILES"):
                w.write(d + "/" + n, "", 0o666)
                w.write(d + "/" + n + ".zst", Z.compress(b""), 0o666)
    META = (".REPO", ".FILES", ".REPO.zst", ".FILES.zst")
    dirs = [c["n"] for c in colls]
    conf = lambda key: D.conf(w, dirs, extra=["keypath /" + KEYDIR] if key else [])
    conf(True)

    def rm(p):
        if os.path.lexists(p): w._rm(p)

    def raw(p):
        try: return open(w.p(p), "rb").read()
        except OSError: return None

    def metas(): return {(c, n): raw("%s/%s/%s" % (D.DEPOT, c, n)) for c in dirs for n in META}

    def make_keys():
        if case["key"] == "ref" and kind != "keys":
            w.write(KEYDIR + "/.private.key", E.private_pem(seed), 0o600)
            w.write("home/u/pub/.PKEY", E.public_pem(E.public(seed)))
            return seed
        r = w.cards("keys", **U)
        if r.rc != 0: ctx.fail("cards keys fails (status %d): %s" % (r.rc, r.text[-300:]))
        st = w.snapshot()
        priv, pub = st.get(KEYDIR + "/.private.key"), st.get("home/u/pub/.PKEY")
        if not priv or not pub: ctx.fail("cards keys does not write both keys: %s" % sorted(k for k in st if k.startswith("home")))
        if priv["m"] & 0o7777 != 0o600: ctx.fail("the private key has mode %o" % priv["m"])
        try: s, p = E.load_private(priv["c"].decode()), E.load_public(pub["c"].decode())
        except Exception as e: ctx.fail("cards keys writes unusable keys: %s" % e)
        if E.public(s) != p: ctx.fail("the public key does not belong to the private key")
        return s

    def expected(c, s):
        rep, fil = [], []
        for q in sorted(c["p"], key=lambda q: D.fname(q).encode()):
            a = arch[(c["n"], q["n"])]
            h = hashlib.sha512(a).digest()
            rep.append(["@" + D.fname(q)] + sorted(D.meta(q) + ["H" + h.hex(), "I" + E.sign(s, h).hex(), "i%d" % len(a)]))
            fil.append(["@" + D.fname(q)] + sorted(D.listing(q)))
        return sorted(rep), sorted(fil)

    def parse(b):
        if b is None: return None
        t = b.decode("utf-8", "replace")
        if t and not t.endswith("\n\n"): return "unterminated"
        rs = [r.split("\n") for r in t.split("\n\n")[:-1]]
        return sorted(r[:1] + sorted(r[1:]) for r in rs)

    def verdict(c, s, n, b):
        """is this the complete new content?"""
        i = 0 if "REPO" in n else 1
        want = expected(c, s)[i]
        if n.endswith(".zst"):
            if b is None: return False
            b = Z.decompress(b, 400000)
            if b is None: return False
        return parse(b) == want

    chosen = [c for c in colls if not case["arg"] or c["n"] == case["arg"]]
    argv = ["repo"] + ([case["arg"]] if case["arg"] else [])
    txt = "cards " + " ".join(argv)
    if kind == "keys":
        ctx.nontrivial = True
        ctx.tag("keys")
        if case.get("arg"):
            w.write(KEYDIR + "/.private.key", "an old key", 0o644)
        w.mkdir("home/u/pub", 0o777)
        r, n, _ = w.trace(["-c"], "/t/cards", "keys", **U)
        make_keys()
        for at in range(n):
            rm(w.p(KEYDIR, ".private.key"))
            rm(w.p("home/u/pub/.PKEY"))
            r, _, call = w.trace(["-k", str(at)], "/t/cards", "keys", **U)
            st = w.snapshot().get(KEYDIR + "/.private.key")
            if st and st["m"] & 0o077: ctx.fail("others may read the private key (mode %o) while cards keys runs, at its call %d (%s)" % (st["m"], at, call))
        r = w.cards("keys", cwd="/home/u/pub")
        if r.rc == 0: ctx.fail("cards keys works as root")
        return
    before = metas()
    if kind == "bad":
        ctx.nontrivial = True
        why = case["why"]
        ctx.tag(why)
        s = make_keys()
        d = D.DEPOT + "/" + dirs[0]
        u = U
        if why == "junkfile": w.write(d + "/README", "this is not a package\n")
        elif why == "emptyfile": w.write(d + "/aaa.cards-1-1-x.tar", "")
        elif why == "junkkey": w.write(KEYDIR + "/.private.key", "junk", 0o644)
        elif why == "pubkey": w.write(KEYDIR + "/.private.key", E.public_pem(E.public(s)), 0o644)
        elif why == "root": u = dict(U, uid=0)
        elif why == "nodir": D.conf(w, ["nowhere"] + dirs, extra=["keypath /" + KEYDIR])
        elif why == "readonly": w.mkdir(d, 0o555)
        if why in ("junkkey", "pubkey") and not colls[0]["p"]: return
        r = w.cards("repo", **u)
        if r.crashed() or r.timeout: ctx.fail("cards repo ends with status %d: %s" % (r.rc, r.text[-300:]))
        if r.rc == 0: ctx.fail("cards repo succeeds (%s): %s" % (why, r.text[-300:]))
        now = metas()
        for (c, n), b in now.items():
            if b != before[(c, n)] and c == dirs[0]: ctx.fail("cards repo fails (%s) and changes %s of %s" % (why, n, c))
        return
    s = make_keys()
    ctx.nontrivial = any(c["p"] for c in colls)
    if kind == "fault":
        f = case["f"]
        r, n, _ = w.trace(["-c"], "/t/cards", "repo", **U)
        if r.rc != 0: ctx.fail("cards repo fails (status %d): %s" % (r.rc, r.text[-300:]))
        if not n: return
        for (c, nm), b in before.items():
            p = "%s/%s/%s" % (D.DEPOT, c, nm)
            rm(w.p(p))
            if b is not None: w.write(p, b, 0o666)
        at = f["at"] % n
        r, _, call = w.trace(["-k", str(at)] if f["m"] == "-k" else [f["m"], "%d:%d" % (at, getattr(errno, f["err"]))], "/t/cards", "repo", **U)
        what = "cards repo with %s at its file-changing call %d (%s) of %d" % ("a kill" if f["m"] == "-k" else f["err"], at, call, n)
        ctx.tag(f["m"])
        if f["m"] != "-k" and r.crashed(): ctx.fail("%s crashes: %s" % (what, r.text[-300:]))
        now = metas()
        for c in colls:
            for nm in META:
                b = now[(c["n"], nm)]
                new = verdict(c, s, nm, b)
                if not new and (r.rc == 0 or b != before[(c["n"], nm)]): ctx.fail("%s ends with status %d; %s of %s is %s" % (what, r.rc, nm, c["n"], "old" if b == before[(c["n"], nm)] else "neither the old nor the complete new one: %r" % (b and b[:200])))
        r = w.cards("repo", **U)
        if r.rc != 0: ctx.fail("cards repo after %s fails: %s" % (what, r.text[-300:]))
        for (c, nm), b in metas().items():
            if not verdict(next(x for x in colls if x["n"] == c), s, nm, b): ctx.fail("cards repo after %s leaves a wrong %s" % (what, nm))
        return
    b4 = {k: v for k, v in W.strip_ino(w.snapshot()).items() if not k.split("/")[-1].startswith((".REPO", ".FILES"))}
    r = w.cards(*argv, **U)
    if case["arg"] and not chosen:
        if r.rc == 0: ctx.fail("%s succeeds although there is no such collection" % txt)
        if metas() != before: ctx.fail("%s changes metadata although there is no such collection" % txt)
        return
    if r.rc != 0: ctx.fail("%s fails (status %d): %s" % (txt, r.rc, r.text[-400:]))
    now = metas()
    for c in colls:
        for nm in META:
            b = now[(c["n"], nm)]
            if c in chosen:
                if not verdict(c, s, nm, b): ctx.fail("%s: %s of %s is %r, expected %s" % (txt, nm, c["n"], b if b is None or nm.endswith("zst") else parse(b), expected(c, s)[0 if "REPO" in nm else 1]))
            elif b != before[(c["n"], nm)]: ctx.fail("%s changes %s of another collection" % (txt, nm))
    d = W.diff_snap(b4, {k: v for k, v in W.strip_ino(w.snapshot()).items() if not k.split("/")[-1].startswith((".REPO", ".FILES")) or k.endswith(".new")})
    if d: ctx.fail("%s changes other files: %s" % (txt, d))
    ctx.tag("sign")
    if kind != "check": return
    # check the collections as a user without the private key
    if case["arg"]:
        r = w.cards("repo", **U)
        if r.rc != 0: ctx.fail("cards repo fails: %s" % r.text[-300:])
    keys = {c["n"]: E.public(s) for c in colls}
    if case.get("two"):
        # another collection may be signed by someone else
        s2 = hashlib.sha256(seed).digest()
        rm(w.p(KEYDIR, ".private.key"))
        w.write(KEYDIR + "/.private.key", E.private_pem(s2), 0o600)
        r = w.cards("repo", dirs[-1], **U)
        if r.rc != 0: ctx.fail("cards repo %s fails: %s" % (dirs[-1], r.text[-300:]))
        keys[dirs[-1]] = E.public(s2)
        for c in colls:
            for nm in META:
                b = raw("%s/%s/%s" % (D.DEPOT, c["n"], nm))
                if not verdict(c, s2 if c["n"] == dirs[-1] else s, nm, b): ctx.fail("after cards repo %s with another key, %s of %s is wrong" % (dirs[-1], nm, c["n"]))
    conf(case["seed"] % 2 == 0)
    rm(w.p(KEYDIR, ".private.key"))
    for c in colls: w.write("%s/%s/.PKEY" % (D.DEPOT, c["n"]), E.public_pem(keys[c["n"]]))
    ps = [(c, q) for c in colls for q in c["p"]]
    wrong, dead = set(), set()
    seen = {}
    for c, q in ps: seen.setdefault(q["n"], c["n"])
    done = set()
    for i, how, at in case["bad"]:
        if not ps: break
        if (i % len(ps), how) in done: continue
        done.add((i % len(ps), how))
        c, q = ps[i % len(ps)]
        d = D.DEPOT + "/" + c["n"]
        fp = d + "/" + D.fname(q)
        a = arch[(c["n"], q["n"])]
        if how in ("otherkey", "nokey", "junkkey"):
            rm(w.p(d, ".PKEY"))
            if how == "otherkey": w.write(d + "/.PKEY", E.public_pem(E.public(b"z" * 32)))
            if how == "junkkey": w.write(d + "/.PKEY", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n")
            if any(seen[x["n"]] == c["n"] for x in c["p"]): dead.add(c["n"])
            continue
        if how == "flip":
            k = int(at * len(a))
            w.write(fp, a[:k] + bytes([a[k] ^ 1]) + a[k + 1:])
        elif how == "swap": w.write(fp, a + b"\0")
        elif how == "missing": rm(w.p(fp))
        else:
            ls = open(w.p(d, ".REPO"), encoding="utf-8").read().split("\n")
            on, out = False, []
            for l in ls:
                if l.startswith("@"): on = l == "@" + D.fname(q)
                if on and l.startswith("I") and len(l) > 100:
                    if how == "nosig": continue
                    if how == "upper": l = "I" + l[1:].upper()
                    if how == "sig":
                        k = 1 + int(at * (len(l) - 1))
                        l = l[:k] + ("0" if l[k] != "0" else "1") + l[k + 1:]
                    if how == "shortsig": l = l[:-2]
                    if how == "junksig": l = l[:1 + int(at * 60)] + "zz" + l[3 + int(at * 60):]
                out.append(l)
            w.write(d + "/.REPO", "\n".join(out))
            if how == "upper": continue
        if seen[q["n"]] == c["n"]: wrong.add((q["n"], how))
    r = w.cards("repo", **U)
    ctx.tag("check", *[h for _, h in wrong])
    if r.crashed() or r.timeout: ctx.fail("cards repo (checking) ends with status %d: %s" % (r.rc, r.text[-300:]))
    if bool(wrong or dead) != (r.rc != 0): ctx.fail("cards repo, checking, ends with status %d; wrong are %s, collections with a wrong key: %s: %s" % (r.rc, sorted(wrong), sorted(dead), r.text[-400:]))
    if not dead and not any(h == "missing" for _, h in wrong):
        for n, h in wrong:
            if n not in r.text.replace(":", " ").split(): ctx.fail("cards repo does not name %s (%s): %s" % (n, h, r.text[-400:]))
