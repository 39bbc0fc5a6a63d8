"""Generated binary repositories: collections of packages with the metadata files cards reads
(.REPO, .FILES, .PKEY), in a depot or on a mirror, and the configuration that points at them."""
import hashlib, os, struct
import ed25519 as E, pkgmodel as M, world as W

ARCH = os.uname().machine
VERSION = "rolling"
DEPOT = "var/lib/pkg/depot"
MIRROR = "srv/mirror"
BT = 1600000000           # every build time has ten digits


def bt(q):
    return q.get("b", BT)


def fname(q):
    return "%s.cards-%s-%d-%s.tar%s" % (q["n"], q.get("v", "1.0"), q.get("r", 1), q.get("a", ARCH), "." + q["z"] if q.get("z") else "")


def meta(q, times=None):
    """The package's .META in the order pkgmk writes it.  q["R"]: names or [name, build time]."""
    m = ["N" + q["n"], "V" + q.get("v", "1.0"), "r%d" % q.get("r", 1), "B%d" % bt(q), "S%d" % q.get("S", 4096)]
    if q.get("c"): m.append("c" + q["c"])
    m.append("a" + q.get("a", ARCH))
    for k, f in (("D", "D"), ("U", "U"), ("C", "C"), ("M", "M"), ("P", "P"), ("L", "L"), ("g", "g"), ("nls", "n")):
        if q.get(k): m.append(f + q[k])
    for d in q.get("R", []):
        n, t = (d, (times or {}).get(d, BT)) if isinstance(d, str) else d
        m.append("R%s%d" % (n, t))
    for k, f in (("l", "l"), ("A", "A"), ("s", "s"), ("T", "T"), ("o", "o")):
        m += [f + x for x in q.get(k, [])]
    return m


def entries(q):
    return q.get("e") or [{"p": "opt", "t": "d"}, {"p": "opt/" + q["n"], "t": "f", "c": "%s %s-%d %d\n" % (q["n"], q.get("v", "1.0"), q.get("r", 1), bt(q))}]


def archive(q, times=None):
    return W.make_pkg(meta(q, times), entries(q), q.get("sc"), q.get("z", ""))


def human(v):
    """A size as the tools print it."""
    if v < 2**10: return "%d" % v
    for k, u in ((2**20, "K"), (2**30, "M"), (2**90, "G")):
        if v < k: return "%5.2f %s" % (v / (k >> 10 if u != "G" else 2**30), u)


def listing(q):
    return [e["p"] + ("/" if e["t"] == "d" else "") for e in entries(q)]


def times_of(pkgs):
    return {q["n"]: bt(q) for q in pkgs}


def sign_hash(seed, h):
    return E.sign(seed, bytes.fromhex(h)).hex()


_sigs = {}


def record(q, data, seed, times=None):
    h = hashlib.sha512(data).hexdigest()
    k = (seed, h)
    if k not in _sigs:
        if len(_sigs) > 5000: _sigs.clear()
        _sigs[k] = sign_hash(seed, h) if seed else "00" * 64
    return ["@" + fname(q)] + meta(q, times) + ["H" + h, "I" + _sigs[k], "i%d" % len(data), ""]


def texts(pkgs, seed, times=None, datas=None):
    """-> (.REPO, .FILES, {file name: package})"""
    rep, fil, arch = [], [], {}
    times = times or times_of(pkgs)
    for q in sorted(pkgs, key=fname):
        a = datas[q["n"]] if datas and q["n"] in datas else archive(q, times)
        arch[fname(q)] = a
        rep += record(q, a, seed, times)
        fil += ["@" + fname(q)] + listing(q) + [""]
    return "".join(l + "\n" for l in rep), "".join(l + "\n" for l in fil), arch


def zst(data):
    """A Zstandard frame with the content's size, made of raw blocks."""
    if isinstance(data, str): data = data.encode("utf-8", "surrogateescape")
    out = b"\x28\xb5\x2f\xfd" + bytes([0xe0]) + struct.pack("<Q", len(data))
    n = max(1, (len(data) + 99999) // 100000)
    for i in range(n):
        b = data[i * 100000:(i + 1) * 100000]
        out += struct.pack("<I", (len(b) << 3) | (i == n - 1))[:3] + b
    return out


def put_local(w, coll, rep, fil, arch, pub=None, depot=DEPOT, packages=True):
    d = depot + "/" + coll
    w.mkdir(d)
    w.write(d + "/.REPO", rep)
    w.write(d + "/.FILES", fil)
    if pub is not None: w.write(d + "/.PKEY", E.public_pem(pub))
    if packages:
        for n, a in arch.items(): w.write(d + "/" + n, a)


def put_mirror(w, coll, rep, fil, arch, pub, top=MIRROR):
    d = "%s/%s/%s/%s" % (top, ARCH, VERSION, coll)
    w.mkdir(d)
    w.write(d + "/.REPO.zst", zst(rep))
    w.write(d + "/.FILES.zst", zst(fil))
    w.write(d + "/.PKEY", E.public_pem(pub))
    for n, a in arch.items(): w.write(d + "/" + n, a)
    return d


def conf(w, colls, url=None, groups=(), depot=DEPOT, extra=()):
    w.write("etc/cards.conf", "".join("dir /%s/%s\n" % (depot, c) for c in colls) + ("url %s\n" % url if url else "") +
            "".join("group %s\n" % g for g in groups) + "".join(l + "\n" for l in extra))
    w.write("var/lib/pkg/nutyx-version", "version %s\n" % VERSION)


def base(w):
    w.mkdir("var/lib/pkg/DB")
    w.mkdir("etc")


def install_record(w, q, auto=False, times=None, files=True):
    """Put an installed package into the cell: record and files."""
    d = "var/lib/pkg/DB/" + q["n"]
    w.write(d + "/META", "".join(l + "\n" for l in sorted(meta(q, times) + (["d1"] if auto else []))))
    w.write(d + "/files", "".join(l + "\n" for l in sorted(listing(q))))
    if files:
        for e in entries(q):
            if e["t"] == "d": w.mkdir(e["p"])
            else: w.write(e["p"], W.content(e.get("c", "")), e.get("m", 0o644))
