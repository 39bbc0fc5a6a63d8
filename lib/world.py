"""Containment cells, package construction and filesystem snapshots."""
import bz2, gzip, hashlib, io, lzma, os, select, shutil, stat, subprocess, tarfile, tempfile, time

BASE_UID = 61000
SYSTEM = {"lib", "lib64", "t", "dev"}     # top-level names of a cell that belong to the harness
SHELL = "usr/bin/sh"


def scratch_base():
    for d in (os.environ.get("VERIF_SCRATCH"), "/dev/shm", "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                s = os.statvfs(d)
                if s.f_bavail * s.f_frsize > 300 << 20 and not (s.f_flag & os.ST_NOEXEC):
                    return tempfile.mkdtemp(prefix="vp-cell-", dir=d)
            except OSError:
                pass
    raise RuntimeError("no scratch space")


def safe_rmtree(path, base):
    assert os.path.realpath(path).startswith(os.path.realpath(base) + "/") or path == base
    shutil.rmtree(path, ignore_errors=True)
    if os.path.lexists(path):
        # directories without permission bits cannot stop root, but be thorough
        for dp, dn, fn in os.walk(path):
            try: os.chmod(dp, 0o755)
            except OSError: pass
        shutil.rmtree(path, ignore_errors=True)


def _closure(binary):
    out = subprocess.run(["ldd", binary], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
    res = set()
    for line in out.splitlines():
        for w in line.split():
            if w.startswith("/"):
                res.add(w)
    return res


class Res:
    __slots__ = ("rc", "out", "err", "argv", "timeout")

    def __init__(self, rc, out, err, argv, timeout=False):
        self.rc, self.out, self.err, self.argv, self.timeout = rc, out, err, argv, timeout

    @property
    def text(self):
        return (self.out + self.err).decode("utf-8", "replace")

    def crashed(self):
        # killed by a signal (128+n from sbx), by a sanitizer or by an uncaught exception
        return self.rc >= 128 and self.rc not in (197, 198, 199) or b"ERROR: AddressSanitizer" in self.err \
            or b"runtime error:" in self.err

    def harness_error(self):
        return self.rc in (197, 198, 199)


class World:
    """One chroot cell.  `root` is the directory the tools see as '/'."""

    def __init__(self, bins, base, wid=0, single=True):
        self.base = os.path.join(base, "w%d" % wid)
        self.root = self.base
        os.makedirs(self.root)
        self.bins = bins
        self.sbx = bins["sbx"]
        self.single = single
        self.own = {}
        self.env = {"PATH": "/usr/bin", "LC_ALL": "C", "TZ": "UTC", "HOME": "/", "MALLOC_PERTURB_": "165",
                    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:malloc_context_size=3",
                    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1"}
        libs = set()
        os.makedirs(self.p("t"))
        os.makedirs(self.p("usr/bin"))
        tools = {}
        for name, path in bins.items():
            if name in ("sbx",):
                continue
            prog = name.split(":")[0] if not name.startswith(("driver:", "fuzz:")) else name.split(":")[1]
            if name == "shim":
                shutil.copy(path, self.p("t/shim.so"))
                libs |= _closure(path)
                self.env["VP_PRELOAD"] = "/t/shim.so"
                continue
            tools[prog] = path
            libs |= _closure(path)
        for prog, path in tools.items():
            shutil.copy(path, self.p("t/" + prog))
            os.chmod(self.p("t/" + prog), 0o755)
        if "pkgadd" in tools:
            os.link(self.p("t/pkgadd"), self.p("t/pkgrm"))
            os.link(self.p("t/pkgadd"), self.p("t/pkginfo"))
        sh = os.path.realpath("/bin/sh")
        shutil.copy(sh, self.p(SHELL))
        libs |= _closure(sh)
        for l in sorted(libs):
            d = self.libpath(l)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            if not os.path.exists(d):
                shutil.copy(os.path.realpath(l), d)
        os.makedirs(self.p("dev"))
        open(self.p("dev/null"), "w").close()
        for d, _, fs in os.walk(self.root):
            os.chmod(d, 0o755)
        self._own_tops()
        self._reset_own()

    def _reset_own(self):
        """Forget emulated owners (see shim.c)."""
        if os.path.exists(self.p("t/shim.so")):
            for f in ("t/own.log", "t/dev.log"):
                open(self.p(f), "w").close()
                os.chmod(self.p(f), 0o666)

    def set_owner(self, path, uid, gid):
        """Change an owner as the shim would record it."""
        if os.path.exists(self.p("t/own.log")):
            with open(self.p("t/own.log"), "a") as f:
                f.write("%d %d %d\n" % (os.lstat(path).st_ino, uid, gid))

    def owners(self):
        """inode -> owner recorded by the shim."""
        res = {}
        try:
            with open(self.p("t/own.log")) as f:
                for line in f:
                    i, u, g = line.split()
                    o = res.get(int(i), (0, 0))
                    res[int(i)] = (int(u) if u != "-1" else o[0], int(g) if g != "-1" else o[1])
        except FileNotFoundError:
            pass
        return res

    def devices(self):
        """inode -> (type, number) of the device nodes made through the shim (FIFOs in fact)."""
        res = {}
        try:
            with open(self.p("t/dev.log")) as f:
                for line in f:
                    i, t, d = line.split()
                    res[int(i)] = ({stat.S_IFCHR: "c", stat.S_IFBLK: "b"}.get(int(t)), int(d))
        except FileNotFoundError:
            pass
        return res

    def libpath(self, l):
        """Where the cell keeps a library of its tools: in /lib, as /usr/lib belongs to the cases."""
        return self.p(l.lstrip("/")[4:] if l.startswith("/usr/lib") else l.lstrip("/"))

    def _own_tops(self):
        for d in ("", "usr", "usr/bin"):
            os.chown(self.p(d) if d else self.root, BASE_UID, BASE_UID)

    def p(self, *a):
        return os.path.join(self.root, *a)

    # ---- fixtures -------------------------------------------------------------------------
    def reset(self):
        """Empty the cell (the harness' own parts stay)."""
        for n in os.listdir(self.root):
            if n in SYSTEM:
                continue
            q = self.p(n)
            if n == "usr":
                for m in os.listdir(q):
                    if m == "bin" and os.path.isdir(os.path.join(q, m)) and not os.path.islink(os.path.join(q, m)):
                        for k in os.listdir(os.path.join(q, m)):
                            if k != "sh":
                                self._rm(os.path.join(q, m, k))
                    else:
                        self._rm(os.path.join(q, m))
            else:
                self._rm(q)
        for d in ("", "usr", "usr/bin"):
            os.chmod(self.p(d) if d else self.root, 0o755)
        self._own_tops()
        self._reset_own()
        open(self.p("dev/null"), "w").close()
        os.chmod(self.p("dev/null"), 0o666)
        if not os.path.exists(self.p(SHELL)):
            shutil.copy(os.path.realpath("/bin/sh"), self.p(SHELL))

    def _rm(self, q):
        if os.path.isdir(q) and not os.path.islink(q):
            safe_rmtree(q, self.base)
        else:
            os.unlink(q)

    def mkdir(self, path, mode=0o755):
        parts = path.strip("/").split("/")
        cur = self.root
        for x in parts:
            cur = os.path.join(cur, x)
            if not os.path.lexists(cur):
                os.mkdir(cur)
                os.chmod(cur, 0o755)
                os.lchown(cur, BASE_UID, BASE_UID)
        if os.path.isdir(cur):
            os.chmod(cur, mode)
        return cur

    def write(self, path, data=b"", mode=0o644, uid=0, gid=0, mtime=None):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        path = path.strip("/")
        if "/" in path:
            self.mkdir(os.path.dirname(path)) if not os.path.isdir(self.p(os.path.dirname(path))) else None
        q = self.p(path)
        if os.path.islink(q):
            os.unlink(q)
        with open(q, "wb") as f:
            f.write(data)
        os.chown(q, BASE_UID + uid, BASE_UID + gid)
        os.chmod(q, mode)
        if mtime is not None:
            os.utime(q, (mtime, mtime))
        return q

    def symlink(self, path, target):
        if "/" in path:
            self.mkdir(os.path.dirname(path)) if not os.path.isdir(self.p(os.path.dirname(path))) else None
        os.symlink(target, self.p(path))
        os.lchown(self.p(path), BASE_UID, BASE_UID)

    # ---- running --------------------------------------------------------------------------
    def cmd(self, *argv, uid=0, cwd="/", cpu=20, env=None):
        c = [self.sbx, "-r", self.root, "-d", cwd, "-u", str(uid), "-t", str(cpu), "-b", str(BASE_UID)]
        if self.single:
            c.append("-1")
        return c + ["--"] + list(argv)

    def run(self, *argv, uid=0, cwd="/", cpu=20, env=None, stdin=None, wall=120):
        e = dict(self.env)
        if env:
            e.update(env)
        c = self.cmd(*argv, uid=uid, cwd=cwd, cpu=cpu)
        try:
            p = subprocess.run(c, input=stdin if stdin is not None else b"", stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=e, timeout=wall)
        except subprocess.TimeoutExpired as t:
            return Res(255, t.stdout or b"", t.stderr or b"", argv, True)
        r = Res(p.returncode, p.stdout, p.stderr, argv)
        if r.harness_error() and b"sbx:" in r.err:
            raise HarnessError(r.err.decode(errors="replace"))
        return r

    def trace(self, mode, *argv, wall=60, **kw):
        """Run under trc with the given mode options; -> (Res, file-changing calls made, number of the disturbed call or -1)."""
        t = Traced(self, mode, argv, **kw)
        return t.finish(wall)

    def pkgadd(self, *a, **k): return self.run("/t/pkgadd", *a, **k)
    def pkgrm(self, *a, **k): return self.run("/t/pkgrm", *a, **k)
    def pkginfo(self, *a, **k): return self.run("/t/pkginfo", *a, **k)
    def cards(self, *a, **k): return self.run("/t/cards", *a, **k)

    # ---- observation ----------------------------------------------------------------------
    def snapshot(self, sub="", mtimes=True, skip=()):
        """path -> node for everything below `sub` (harness parts left out)."""
        top = self.p(sub) if sub else self.root
        res = {}
        emul = self.owners()
        devs = self.devices()

        def walk(d, rel):
            try:
                ents = list(os.scandir(d))
            except FileNotFoundError:
                return
            for e in ents:
                r = rel + e.name
                if not sub and rel == "" and e.name in SYSTEM:
                    continue
                if not sub and r == SHELL:
                    continue
                if r in skip:
                    continue
                st = e.stat(follow_symlinks=False)
                own = emul.get(st.st_ino) or (st.st_uid - BASE_UID, st.st_gid - BASE_UID)
                if stat.S_ISLNK(st.st_mode):
                    res[r] = {"t": "l", "to": os.readlink(e.path), "own": own}
                elif stat.S_ISDIR(st.st_mode):
                    res[r] = {"t": "d", "m": stat.S_IMODE(st.st_mode), "own": own}
                    walk(e.path, r + "/")
                elif stat.S_ISREG(st.st_mode):
                    with open(e.path, "rb") as f:
                        c = f.read()
                    res[r] = {"t": "f", "m": stat.S_IMODE(st.st_mode), "c": c, "own": own,
                              "ino": st.st_ino, "mt": int(st.st_mtime)}
                elif stat.S_ISFIFO(st.st_mode):
                    res[r] = {"t": "p", "m": stat.S_IMODE(st.st_mode), "own": own, "ino": st.st_ino, "mt": int(st.st_mtime)}
                    t, d = devs.get(st.st_ino, (None, 0))
                    if t: res[r].update(t=t, dev=[os.major(d), os.minor(d)])
                else:
                    res[r] = {"t": "?", "m": st.st_mode}
        walk(top, "")
        return res

    def read_db(self, root=""):
        """name -> {'meta': [lines], 'files': [lines], 'other': {name: bytes}} as found on disk."""
        d = self.p(root, "var/lib/pkg/DB") if root else self.p("var/lib/pkg/DB")
        res = {}
        if not os.path.isdir(d):
            return None
        for n in os.listdir(d):
            q = os.path.join(d, n)
            if not os.path.isdir(q):
                res[n] = {"notdir": True}
                continue
            e = {"other": {}}
            for f in os.listdir(q):
                b = open(os.path.join(q, f), "rb").read() if os.path.isfile(os.path.join(q, f)) else None
                if f == "META": e["meta"] = b.decode("utf-8", "surrogateescape").split("\n")
                elif f == "files": e["files"] = b.decode("utf-8", "surrogateescape").split("\n")
                else: e["other"][f] = b
            for k in ("meta", "files"):
                if k in e and e[k] and e[k][-1] == "":
                    e[k].pop()
            res[n] = e
        return res


class Traced:
    """A program running under trc (see trc.c)."""

    def __init__(self, w, mode, argv, uid=0, cwd="/", cpu=20, env=None):
        self.w, self.argv = w, argv
        e = dict(w.env)
        if env: e.update(env)
        self.r, wr = os.pipe()
        rd, self.wr = os.pipe()
        c = w.cmd("/t/trc", "-o", str(wr), "-i", str(rd), *mode, "--", *argv, uid=uid, cwd=cwd, cpu=cpu)
        self.p = subprocess.Popen(c, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, pass_fds=(wr, rd))
        os.close(wr); os.close(rd)
        self.buf = b""

    def _line(self, wall):
        end = time.time() + wall
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                return None
            d = os.read(self.r, 4096)
            if not d:
                return None
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def paused(self, wall=60):
        """True: stopped at the wanted call.  False: ended before."""
        self.first = self._line(wall)
        return self.first == b"P"

    def go(self, how=b"c"):
        self.first = None
        os.write(self.wr, how)

    def finish(self, wall=60):
        line = getattr(self, "first", None) or self._line(wall)
        to = False
        try:
            out, err = self.p.communicate(timeout=wall)
        except subprocess.TimeoutExpired:
            self.p.kill()
            out, err = self.p.communicate()
            to = True
        os.close(self.r); os.close(self.wr)
        r = Res(255 if to else self.p.returncode, out, err, self.argv, to)
        if r.harness_error() and b"sbx:" in r.err:
            raise HarnessError(r.err.decode(errors="replace"))
        f = (line or b"").split()
        if len(f) != 3 or f[0] != b"E":
            if to: return r, 0, -1
            raise HarnessError("trc said %r (status %s, %r)" % (line, r.rc, r.err[:300]))
        return r, int(f[1]), int(f[2])


class HarnessError(Exception):
    pass


def strip_ino(snap):
    return {k: {a: b for a, b in v.items() if a not in ("ino",)} for k, v in snap.items()}


def diff_snap(a, b, limit=6):
    """Human-readable differences between two snapshots."""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a: out.append("+ %s %s" % (k, _n(b[k])))
        elif k not in b: out.append("- %s %s" % (k, _n(a[k])))
        else:
            x = {i: j for i, j in a[k].items() if i != "ino"}
            y = {i: j for i, j in b[k].items() if i != "ino"}
            if x != y: out.append("~ %s %s -> %s" % (k, _n(x), _n(y)))
    return out[:limit] + (["... %d more" % (len(out) - limit)] if len(out) > limit else [])


def _n(n):
    d = dict(n)
    if "c" in d: d["c"] = d["c"][:40]
    if "m" in d: d["m"] = oct(d["m"]) if isinstance(d["m"], int) else d["m"]
    d.pop("ino", None)
    return str(d)


# ---- packages -------------------------------------------------------------------------------
def compress(data, comp):
    if comp == "gz": return gzip.compress(data, 1, mtime=0)
    if comp == "bz2": return bz2.compress(data, 1)
    if comp == "xz": return lzma.compress(data, preset=0)
    if comp == "zst" and shutil.which("zstd"):
        return subprocess.run(["zstd", "-q", "-1", "-c"], input=data, stdout=subprocess.PIPE).stdout
    return data


def content(c):
    """Content spec: text, bytes, or [unit, times, tail]."""
    if isinstance(c, (list, tuple)): c = c[0] * c[1] + c[2]
    return c.encode("utf-8", "surrogateescape") if isinstance(c, str) else c


def add_entry(tf, e):
    ti = tarfile.TarInfo(e["p"] + ("/" if e["t"] == "d" else ""))
    ti.mode = e.get("m", 0o755 if e["t"] == "d" else 0o644)
    ti.uid, ti.gid = e.get("uid", 0), e.get("gid", 0)
    ti.mtime = e.get("mt", 1600000000)
    t = e["t"]
    if t == "d":
        ti.type = tarfile.DIRTYPE
        tf.addfile(ti)
    elif t == "l":
        ti.type = tarfile.SYMTYPE; ti.linkname = e["to"]; ti.mode = 0o777
        tf.addfile(ti)
    elif t == "h":
        ti.type = tarfile.LNKTYPE; ti.linkname = e["to"]
        tf.addfile(ti)
    elif t in "cbp":
        ti.type = {"c": tarfile.CHRTYPE, "b": tarfile.BLKTYPE, "p": tarfile.FIFOTYPE}[t]
        ti.devmajor, ti.devminor = e.get("dev", (1, 3))
        tf.addfile(ti)
    else:
        c = content(e.get("c", b""))
        ti.size = len(c)
        tf.addfile(ti, io.BytesIO(c))


FORMATS = {"gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT, "ustar": tarfile.USTAR_FORMAT}


def make_pkg(meta, entries, scripts=None, comp="", mtree=None, omit=(), fmt="gnu"):
    """meta: list of lines; entries: list of dicts; scripts: {'PRE': text, ...} -> package bytes.
    Same layout as pkgmk: .META .MTREE .PRE .POST .PRER .POSTR, then the files in path order."""
    bio = io.BytesIO()
    tf = tarfile.open(fileobj=bio, mode="w", format=FORMATS[fmt], encoding="utf-8", errors="surrogateescape")
    if mtree is None:
        mtree = [e["p"] + ("/" if e["t"] == "d" else "") for e in entries]
    if "META" not in omit:
        add_entry(tf, {"p": ".META", "t": "f", "c": "".join(l + "\n" for l in meta)})
    if "MTREE" not in omit:
        add_entry(tf, {"p": ".MTREE", "t": "f", "c": "".join(l + "\n" for l in mtree)})
    for k in ("PRE", "POST", "PRER", "POSTR", "README", "INFO"):
        if scripts and scripts.get(k) is not None:
            add_entry(tf, {"p": "." + k, "t": "f", "c": scripts[k]})
    for e in entries:
        add_entry(tf, e)
    tf.close()
    return compress(bio.getvalue(), comp)
