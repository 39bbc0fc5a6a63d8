import bz2, io, lzma, tarfile, zlib
import pkggen as G, pkgmodel as M, world as W
NEEDS = ["sbx", "shim", "pkgadd:asan"]
LEVEL = "exploration"
TECHNIQUE = "structure-aware fuzzing of package files (mutated members, headers, metadata, compression) with AddressSanitizer and UBSan builds, and an oracle for files that must be refused"
NOTE = ("Exploration: every generated package file is given to pkginfo -a -m -f -d and pkgadd built with sanitizers; database and filesystem are compared before "
        "and after, and files an independent reader finds damaged must be refused.")
EXAMPLES = {"quick": 200, "thorough": 5000}
RULE = ("A valid package plus 0-4 mutations (members dropped, doubled, reordered, renamed, retyped; header fields with and without a right checksum; odd .META and .MTREE contents; "
        "bytes changed, cut, inserted before or after compression; other data altogether), given to every command that reads package files while other packages are installed. "
        "Non-trivial: at least one mutation.")
ASSUMPTIONS = ["An uncompressed archive cut exactly between two members cannot be told from one without end mark and is not required to be refused.",
               "Disagreement between .MTREE and the archive's members is not judged.",
               "libarchive itself is not instrumented."]
HF = {"name": (0, 100), "mode": (100, 8), "uid": (108, 8), "gid": (116, 8), "size": (124, 12), "mtime": (136, 12), "chksum": (148, 8), "type": (156, 1),
      "linkname": (157, 100), "magic": (257, 8), "uname": (265, 32), "devmajor": (329, 8), "prefix": (345, 155)}
HV = ["", "0", "77777777777", "7777777", "-1", "\x80\x00\x00\x00", "\xff" * 12, "99999999999", " 12 \x00", "../x", "/", ".", "A" * 155, "\x80" + "\xff" * 11, "\x00" * 12,
      "5", "1", "2", "x", "g", "L", "K", "S", "\x7f", "3", "6", "V", "N"]
LINES = ["", "N", "V", "r", "B", "S", "R", "Rx", "R1234567890", "Rlibcc1600000000", "Rab160000000", "R" + "9" * 30, "rabc", "r99999999999999999999", "r-1", "r-99999999999999999999", "Bxyz", "B-1", "B99999999999999999999999",
         "S-5", "Szz", "S99999999999999999999", "A", "T", "s", "d1", "d0", "d", "c", "c/../x", "a", "aother", "g", "\x00", "\xff\xfe", "N\x00aa", "Nzz/../../x", "N..", "N.", "N/abs", "N.hid", "N" + "n" * 300,
         "D" + "d" * 70000, "R" + "r" * 5000, "x" * 200, "\n\n", "\r", "nomarker", "Nbb", "Nkeep", " Nsp", "#", "Akeep", "Aaa"]
PATHS = ["../esc", "etc/../../esc2", "a/..", "..", "etc/..x/f", "./etc/f9", "//etc/f9", "/etc/abs", "etc//f8", "etc/./f7", "", ".", "/", "e" * 300, "x/" * 200 + "f", "d/" * 2200 + "f", "etc/keep", "etc/new\x01line",
         "\xff\xfename", ".META", ".MTREE", ".PRE", ".hidden", "etc/f\\n", "etc/keep/sub", "var/lib/pkg/DB"]


NAMES = ["N", "N.", "N..", "N.hid", "N/abs", "Nzz/../../x", "Nzz/", "Na/b", "Ncc", "Nc c", "N" + "n" * 255, "N" + "n" * 256, "N" + "n" * 300, "N" + "n" * 5000, "N-r", "N*", "N\xc3\xa9", "N\x01", "Nbb", "Nkeep"]


def num(b):
    b = bytes(b).split(b"\0")[0].strip()
    try: return int(b or b"0", 8)
    except ValueError: return 0


def s2b(s):
    return s.encode("latin-1", "replace")


def gen(g, tier):
    p = G.package(g, name=g.choice(["aa", "aa", "bb"]), owners=False, max_files=4, files=G.FILES[:8])
    p.pop("z", None)
    p["D"] = "x"
    muts = []
    for _ in range(g.choice([0, 1, 1, 1, 1, 2, 2, 3, 4])):
        k = g.choice(["meta", "meta", "mtree", "drop", "dup", "swap", "hdr", "hdr", "hdr", "path", "path", "link", "bytes", "trunc", "tail", "nocut"])
        m = {"k": k}
        if k in ("meta", "mtree"):
            m["how"] = g.choice(["add", "add", "add", "set", "set", "nonl", "empty", "front", "rand", "del"])
            m["i"] = g.randrange(40)
            m["l"] = [g.choice(LINES) if k == "meta" else g.choice(PATHS + LINES[:3]) for _ in range(g.randint(1, 3))]
            if k == "meta" and g.chance(0.15): m["how"], m["l"] = "name", [g.choice(NAMES)]
            if m["how"] == "rand": m["l"] = ["".join(chr(g.randrange(256)) for _ in range(g.randint(0, 60)))]
        elif k in ("drop", "dup", "swap"):
            m["i"], m["j"] = g.randrange(10), g.randrange(10)
        elif k == "hdr":
            m.update(i=g.randrange(10), f=g.choice(sorted(HF)), v=g.choice(HV), fix=g.chance(0.7))
        elif k == "path":
            m.update(i=g.randrange(10), v=g.choice(PATHS))
        elif k == "link":
            m.update(i=g.randrange(10), t=g.choice(["1", "2", "3", "4", "6"]), v=g.choice(PATHS + ["etc/f1", "/etc/keep"]))
        elif k in ("bytes", "trunc", "tail"):
            m["at"] = g.random()
            m["v"] = "".join(chr(g.choice([0, 255, 10, 48, g.randrange(256)])) for _ in range(g.choice([1, 1, 2, 8, 64])))
            m["head"] = g.chance(0.4)
        muts.append(m)
    z = g.choice(["", "", "", "gz", "xz", "bz2", "zst"])
    zm = []
    if z and g.chance(0.5):
        zm = [{"k": g.choice(["bytes", "trunc", "trunc", "tail"]), "at": g.random(), "v": "".join(chr(g.randrange(256)) for _ in range(g.choice([1, 1, 4, 40]))), "head": g.chance(0.3)}]
    c = {"pkg": p, "muts": muts, "z": z, "zm": zm, "old": g.choice(["", "", "same", "other"]), "args": g.choice(["", "", "u", "f", "uf"]), "root": g.choice(["", "r"])}
    if g.chance(0.06):
        c["junk"] = "".join(chr(g.randrange(256)) for _ in range(g.choice([0, 1, 10, 511, 512, 1024, 5000])))
    return c


def members(data):
    """Split a tar written by tarfile into [header+data] blocks."""
    res, o = [], 0
    while o + 512 <= len(data) and data[o:o + 512] != bytes(512):
        n = int(data[o + 124:o + 135].split(b"\0")[0] or b"0", 8)
        e = o + 512 + (n + 511) // 512 * 512
        # extended headers go with the member they describe
        if data[o + 156:o + 157] in b"xLKg" and res is not None:
            n2 = int(data[e + 124:e + 135].split(b"\0")[0] or b"0", 8)
            e2 = e + 512 + (n2 + 511) // 512 * 512
            res.append([bytearray(data[o:e2]), e - o])
            o = e2
            continue
        res.append([bytearray(data[o:e]), 0])
        o = e
    return res


def fixsum(b, o):
    b[o + 148:o + 156] = b" " * 8
    b[o + 148:o + 156] = b"%06o\0 " % sum(b[o:o + 512])


def put(b, o, f, v, fix):
    a, n = HF[f]
    v = s2b(v)[:n]
    b[o + a:o + a + n] = v + bytes(n - len(v))
    if fix and f != "chksum": fixsum(b, o)


def setdata(m, data):
    o = m[1]
    h = bytearray(m[0][:o + 512])
    h[o + 124:o + 136] = b"%011o\0" % len(data)
    fixsum(h, o)
    m[0] = h + data + bytes(-len(data) % 512)


def mangle(data, m):
    v, n = s2b(m["v"]), len(data)
    at = int(m["at"] * min(n, 1100 if m.get("head") else n))
    if m["k"] == "bytes": return data[:at] + v + data[at + len(v):]
    if m["k"] == "trunc": return data[:at]
    return data + v


def build(case):
    """-> (bytes of the package file, reasons why pkgadd must refuse it)"""
    must = set()
    if "junk" in case:
        j = s2b(case["junk"])
        return j, set() if b"\0" * 512 in j else {"junk"}
    data = M.build_pkg(case["pkg"])
    ms = members(data)
    raw = []
    nocut = False
    for m in case["muts"]:
        k = m["k"]
        if k in ("bytes", "trunc", "tail"):
            raw.append(m); continue
        if k == "nocut":
            nocut = True; continue
        if not ms: continue
        i = m.get("i", 0) % len(ms)
        if k in ("meta", "mtree"):
            i = 0 if k == "meta" else 1
            if i >= len(ms) or not bytes(ms[i][0][ms[i][1]:]).startswith(b".ME" if i == 0 else b".MT"): continue
            o = ms[i][1]
            n = num(ms[i][0][o + 124:o + 135])
            old = bytes(ms[i][0][o + 512:o + 512 + n])
            ls = old.split(b"\n")[:-1]
            new = [s2b(x) for x in m["l"]]
            h = m["how"]
            if h == "add": ls = ls + new
            elif h == "front": ls = new + ls
            elif h == "set" and ls: ls[m["i"] % len(ls)] = new[0]
            elif h == "name": ls = [new[0] if l[:1] == b"N" else l for l in ls]
            elif h == "del" and ls: del ls[m["i"] % len(ls)]
            d = b"".join(x + b"\n" for x in ls)
            if h == "nonl": d = d[:-1]
            elif h == "empty": d = b""
            elif h == "rand": d = new[0]
            setdata(ms[i], d)
        elif k == "drop": del ms[i]
        elif k == "dup": ms.insert(i, [bytearray(ms[i][0]), ms[i][1]])
        elif k == "swap":
            j = m["j"] % len(ms)
            ms[i], ms[j] = ms[j], ms[i]
        elif k == "hdr": put(ms[i][0], ms[i][1], m["f"], m["v"], m["fix"])
        elif k == "path": put(ms[i][0], ms[i][1], "name", m["v"], True)
        elif k == "link":
            b, o = ms[i]
            if not bytes(b[o:]).startswith((b".ME", b".MT")):
                setdata(ms[i], b"")
                b = ms[i][0]
                put(b, o, "type", m["t"], True); put(b, o, "linkname", m["v"], True)
    data = b"".join(bytes(m[0]) for m in ms)
    end = len(data)
    data += b"" if nocut else bytes(1024)
    # what must be refused: judged before raw bytes are mangled, by reading the members ourselves
    plain = all(m["k"] not in ("hdr", "path", "link", "dup") for m in case["muts"]) and not any(m["k"] == "bytes" for m in raw)
    names = [bytes(m[0][m[1]:m[1] + 100]).split(b"\0")[0] for m in ms]
    if b".META" not in names or b".MTREE" not in names: must.add("no-meta")
    for m in case["muts"]:
        if m["k"] == "hdr" and not m["fix"] and ms:
            pass
    o = 0
    for m in ms:
        b = m[0]
        for off in {0, m[1]}:
            h = bytearray(b[off:off + 512])
            f = bytes(h[148:156])
            h[148:156] = b" " * 8
            try: v = int(f.strip(b" \0") or b"0", 8)
            except ValueError: v = -1
            if v not in (sum(h), sum(x - 256 if x > 127 else x for x in h)) and any(h[:148]):
                if not raw: must.add("checksum")
    if plain and b".META" in names and not raw:
        i = names.index(b".META")
        o = ms[i][1]
        n = num(ms[i][0][o + 124:o + 135])
        ls = bytes(ms[i][0][o + 512:o + 512 + n]).split(b"\0")[0].split(b"\n")
        nm = [l[1:] for l in ls if l[:1] == b"N"]
        if not nm: must.add("no-name")
        elif nm[0] == b"" or b"/" in nm[0] or nm[0][:1] == b"." or len(nm[0]) > 255: must.add("bad-name")
        ar = [l[1:] for l in ls if l[:1] == b"a"]
        if not case.get("root") and (not ar or ar[0].decode("latin-1") not in (M.MACHINE, "any")): must.add("bad-arch")
    for m in case["muts"]:
        if m["k"] == "path" and m["v"] in ("../esc", "etc/../../esc2") and not raw and s2b(m["v"]) in names: must.add("dotdot")
    for m in raw:
        if m["k"] == "trunc":
            at = int(m["at"] * min(len(data), 1100 if m.get("head") else len(data)))
            o, inside = 0, False
            for b, _ in ms:
                n = num(b[_ + 124:_ + 135]) if plain else 0
                if o < at < o + _ + 512 + n: inside = True
                o += len(b)
            if plain and inside and len(raw) == 1: must.add("cut")
        data = mangle(data, m)
    z = W.compress(data, case["z"])
    for m in case["zm"]:
        if not case["z"]: break
        was = z
        z = mangle(z, m)
        if m["k"] == "trunc" and case["z"] in ("gz", "bz2", "xz") and plain and not raw:
            d = {"gz": lambda: zlib.decompressobj(31), "bz2": bz2.BZ2Decompressor, "xz": lzma.LZMADecompressor}[case["z"]]()
            try: got = d.decompress(z)
            except Exception: got = b""
            # compression formats that deliver whole blocks may have more buffered
            if len(got) < end - 512: must.add("cut-stream")
        if m["k"] == "bytes" and z != was:
            must -= {"no-meta"}
    if case["z"] and case["zm"] and case["zm"][0]["k"] != "trunc": must.clear()
    if any(m["k"] == "bytes" for m in raw): must.clear()
    if any(m["k"] == "hdr" and m["f"] in ("size", "type", "magic", "name", "prefix") for m in case["muts"]): must -= {"cut", "cut-stream", "no-meta", "checksum"} if len(case["muts"]) > 1 else {"cut"}
    return z, must


KEEP = {"n": "keep", "e": [{"p": "etc", "t": "d"}, {"p": "etc/keep", "t": "f", "c": "kept\n"}, {"p": "opt/kept", "t": "f", "c": "k2"}], "x": ["Akp", "Raa1600000000"]}


def run_case(ctx, case):
    w = ctx.w
    key = (case["old"], case["pkg"]["n"], case["root"])
    w.reset()
    rel = case["root"]
    if rel: w.mkdir(rel)
    rargs = ["-r", "/" + rel] if rel else []
    w.mkdir((rel + "/" if rel else "") + M.DBDIR)
    w.write("k.tar", M.build_pkg(KEEP))
    r = w.pkgadd(*rargs, "/k.tar")
    if r.rc: return ctx.fail("setup: a valid package is refused: %s" % r.text[-500:])
    if case["old"]:
        n = case["pkg"]["n"] if case["old"] == "same" else "bb"
        w.write("o.tar", M.build_pkg({"n": n, "e": [{"p": "srv/o", "t": "f", "c": "old\n"}]}))
        r = w.pkgadd(*rargs, "/o.tar")
        if r.rc: return ctx.fail("setup: a valid package is refused: %s" % r.text[-500:])
    data, must = build(case)
    w.write("p.cards.tar", data)
    ctx.nontrivial = bool(case["muts"] or case["zm"] or "junk" in case)
    ctx.tag(*["must-" + x for x in must])
    ctx.tag(*["mut-" + m["k"] for m in case["muts"]])
    s0, d0 = w.snapshot(), w.read_db(rel)

    def bad(r, what):
        if r.crashed() or r.timeout or b"AddressSanitizer" in r.err:
            ctx.fail("%s crashed or hung (status %d): %s" % (what, r.rc, r.text[-1800:]))

    for o in ("-a", "-m", "-f", "-R", "-L"):
        r = w.pkginfo(*rargs, o, "/p.cards.tar", cpu=10)
        bad(r, "pkginfo " + o)
        if "junk" in must and o in "-a-m-f" and r.rc == 0:
            ctx.fail("pkginfo %s reports success on a file that is no archive: %s" % (o, r.text[-300:]))
    df = W.diff_snap(s0, w.snapshot())
    if df: ctx.fail("pkginfo changed files: %s" % df)
    opts = {"": [], "u": ["-u"], "f": ["-f"], "uf": ["-u", "-f"]}[case["args"]]
    r = w.pkgadd(*rargs, *opts, "/p.cards.tar", cpu=10)
    bad(r, "pkgadd")
    s1 = w.snapshot()
    if r.rc != 0:
        ctx.tag("refused")
        skip = {k for k in s1 if k in s0 and s1[k]["t"] == "d"}
        df = W.diff_snap(s0, s1)
        if df: ctx.fail("pkgadd %s failed (%s) but changed: %s" % (opts, r.text.strip()[-300:], df))
        return
    ctx.tag("accepted")
    if must:
        ctx.fail("pkgadd %s accepted a package it must refuse (%s); it said: %s" % (opts, sorted(must), r.text.strip()[-300:]))
    # nothing outside the root (directory links that lead out of it: see the finding of C08)
    if rel and not any(m["k"] == "link" or m["k"] == "hdr" and m["f"] in ("type", "linkname") or m["k"] in ("path", "bytes", "swap", "dup") for m in case["muts"]):
        df = W.diff_snap({k: v for k, v in s0.items() if k.split("/")[0] != rel}, {k: v for k, v in s1.items() if k.split("/")[0] != rel})
        if df: ctx.fail("pkgadd -r changed files outside the root: %s" % df)
    d1 = w.read_db(rel)
    pre = rel + "/" if rel else ""
    said = r.text
    # the database still loads, other packages are intact
    q = w.pkginfo(*rargs, "-i", cpu=10)
    bad(q, "pkginfo -i afterwards")
    if q.rc: ctx.fail("after an accepted package the database cannot be read: %s" % q.text[-500:])
    new = set(d1) - set(d0)
    chg = {n for n in d0 if d1.get(n) != d0[n]}
    expect = {l.split()[2 if l.startswith("AUTO") else 2] for l in q.out.decode("utf-8", "replace").split("\n") if len(l.split()) > 2 and False}
    if "f" not in case["args"]:
        for n in d0:
            if n in chg and not ("u" in case["args"] and len(chg) == 1 and not new):
                ctx.fail("pkgadd %s of a package changed the record of %s: %s -> %s" % (opts, n, d0[n], d1.get(n)))
            if n not in chg:
                for f in d0[n]["files"]:
                    f = pre + f.rstrip("/")
                    if s0.get(f) and s0[f]["t"] == "f" and {a: s0[f][a] for a in ("c", "m", "own", "t")} != {a: s1.get(f, {}).get(a) for a in ("c", "m", "own", "t")} and not odd(case):
                        ctx.fail("pkgadd %s of a package changed %s of %s" % (opts, f, n))
    if len(new | chg) == 0 and "u" not in case["args"]:
        ctx.fail("pkgadd reports success but recorded nothing; it said: %s" % said[-300:])
    for n in new:
        if d1[n].get("meta") is None or d1[n].get("files") is None:
            ctx.fail("record %s is incomplete after success: %s" % (n, d1[n]))


def odd(case):
    """The members may name files that .MTREE does not list."""
    return any(m["k"] in ("path", "link", "mtree", "hdr", "drop", "dup", "bytes", "meta", "swap") for m in case["muts"]) or bool(case["zm"])
