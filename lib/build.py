"""Build the programs under test from /repo's current working tree.

Nothing is built inside /repo: sources are read from /repo/src, objects and binaries go to
/verif/.build (git-ignored), keyed by the content they were made from.  The lists of sources that
make up `pkgadd` and `cards` are asked from the project's own Makefile, so a source file that is
added, split or renamed is followed.
"""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

DEFS = ['-std=c++17', '-D_GNU_SOURCE', '-DPACKAGE_VERSION="3.5.93"', '-D_LARGEFILE_SOURCE',
        '-D_FILE_OFFSET_BITS=64', '-fPIC', '-DNDEBUG', '-w']
FLAVOURS = {
    # command-line tools: cheap to start, uninitialised memory made visible
    "cli": dict(cxx="g++", flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
                link=[]),
    # in-process drivers: memory errors and undefined behaviour become visible failures
    "asan": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
                 "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                 "-fno-sanitize=vptr,function"],
                 link=["-fsanitize=address,undefined", "-fno-sanitize=vptr,function"]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
                 "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
                 "-fno-sanitize=vptr,function"],
                 link=["-fsanitize=fuzzer,address,undefined", "-fno-sanitize=vptr,function"]),
}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def make_vars():
    """OBJECT lists of the project's own Makefile."""
    # the project's Makefile includes dependency lists it generates (and make would generate them,
    # or their absence leave the default goal alone): ask with -n -p and read the variables.
    mk = "include Makefile\nvp-show:\n\t@echo TOOLS $(TOOLSOBJECTS)\n\t@echo CARDS $(CARDSOBJECTS)\n\t@echo LIBS $(LIBOBJECTS)\n\t@echo WEB $(WEBOBJECTS)\n"
    out = subprocess.run(["make", "-s", "--no-print-directory", "-f", "-", "vp-show"], input=mk.encode(),
                         cwd=os.path.join(REPO, "src"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    res = {}
    for line in out.stdout.decode().splitlines():
        w = line.split()
        if w and w[0] in ("TOOLS", "CARDS", "LIBS", "WEB"):
            res[w[0]] = [o[:-2] for o in w[1:] if o.endswith(".o")]
    if set(res) != {"TOOLS", "CARDS", "LIBS", "WEB"}:
        raise BuildError("cannot read object lists from src/Makefile: " + out.stderr.decode()[-500:])
    return res


def _headers_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(list(os.walk(os.path.join(REPO, "src"))) + list(os.walk(os.path.join(REPO, "fltk"))) + list(os.walk(os.path.join(VERIF, "drivers")))):
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".hxx", ".inc")):
                h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def _compile(flavour, src, hh, extra=()):
    fl = FLAVOURS[flavour]
    data = open(src, "rb").read()
    key = hashlib.sha256("|".join([flavour, fl["cxx"], " ".join(fl["flags"]), " ".join(DEFS), " ".join(extra),
                                   hh, os.path.basename(src)]).encode() + b"|" + data).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        _run([fl["cxx"]] + fl["flags"] + DEFS + list(extra) +
             ["-iquote", os.path.join(REPO, "src"), "-x", "c++", "-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def _link(flavour, objs, name, libs, extra=()):
    fl = FLAVOURS[flavour]
    key = hashlib.sha256(("|".join([flavour, " ".join(fl["link"]), " ".join(libs), " ".join(extra)]
                         + [os.path.basename(o) for o in objs])).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, flavour, key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        _run([fl["cxx"]] + fl["link"] + list(extra) + objs + ["-o", tmp] + libs)
        os.rename(tmp, out)
    return out


def _prune():
    # keep the object cache small: drop what has not been used for long
    for sub, keep in (("obj", 600), ("bin", 60)):
        d = os.path.join(BUILD, sub)
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda p: os.stat(p).st_mtime)
        for f in fs[:-keep]:
            try: os.unlink(f)
            except OSError: pass


def build(want):
    """want: iterable of 'pkgadd', 'cards', 'pkgadd:asan', 'sbx', 'shim', 'driver:NAME' -> dict of paths."""
    want = list(want)
    for d in ("obj", "bin"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    res = {}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _prune()
        mv = make_vars()
        hh = _headers_hash()
        jobs = {}     # (flavour, src, extra) -> future
        ex = ThreadPoolExecutor(max_workers=os.cpu_count() or 4)

        def need(flavour, src, extra=()):
            k = (flavour, src, tuple(extra))
            if k not in jobs:
                jobs[k] = ex.submit(_compile, flavour, src, hh, tuple(extra))
            return jobs[k]

        def srcs(which):
            r = []
            for o in mv[which]:
                for e in (".cxx", ".cpp", ".cc"):
                    p = os.path.join(REPO, "src", o + e)
                    if os.path.exists(p):
                        r.append(p); break
                else:
                    raise BuildError("no source for " + o)
            return r

        plans = {}
        for w in want:
            if w == "sbx":
                src = os.path.join(VERIF, "lib", "sbx.c")
                key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
                out = os.path.join(BUILD, "bin", "sbx-" + key)
                if not os.path.exists(out):
                    _run(["gcc", "-O1", "-w", "-o", out + ".tmp", src]); os.rename(out + ".tmp", out)
                res[w] = out
            elif w == "trc":
                src = os.path.join(VERIF, "lib", "trc.c")
                key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
                out = os.path.join(BUILD, "bin", "trc-" + key)
                if not os.path.exists(out):
                    _run(["gcc", "-O1", "-w", "-static", "-o", out + ".tmp", src]); os.rename(out + ".tmp", out)
                res[w] = out
            elif w == "bsdtar":
                src = os.path.join(VERIF, "lib", "bsdtar.c")
                key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
                out = os.path.join(BUILD, "bin", "bsdtar-" + key)
                if not os.path.exists(out):
                    _run(["gcc", "-O1", "-w", "-o", out + ".tmp", src, "-larchive"]); os.rename(out + ".tmp", out)
                res[w] = out
            elif w == "shim":
                src = os.path.join(VERIF, "lib", "shim.c")
                key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
                out = os.path.join(BUILD, "bin", "shim-%s.so" % key)
                if not os.path.exists(out):
                    _run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", out + ".tmp", src, "-ldl"])
                    os.rename(out + ".tmp", out)
                res[w] = out
            elif w.startswith("driver:") or w.startswith("fuzz:"):
                kind, name = w.split(":")
                fl = "asan" if kind == "driver" else "fuzz"
                src = os.path.join(VERIF, "drivers", name + ".cxx")
                # everything of `cards` but its main(), plus nothing else
                lib = sorted(set(srcs("LIBS")) | (set(srcs("CARDS")) - {os.path.join(REPO, "src", "cards.cxx")}))
                plans[w] = (fl, [need(fl, s) for s in lib] + [need(fl, src)] +
                            ([need(fl, os.path.join(VERIF, "lib", "asanopt.cxx"))] if fl == "asan" else []), name,
                            ["-larchive", "-lcurl", "-lzstd", "-lcrypto"])
            elif w.split(":")[0] == "cardsui":
                # the graphical client without its windows (fltk/, drivers/cardsui.cxx)
                fl = w.partition(":")[2] or "cli"
                lib = sorted(set(srcs("LIBS")) | (set(srcs("CARDS")) - {os.path.join(REPO, "src", "cards.cxx")}))
                ui = [os.path.join(REPO, "fltk", f) for f in ("cards_client.cxx", "cards_event_handler.cxx", "cards_log.cxx", "cards_wrapper.cxx")]
                inc = ("-iquote", os.path.join(REPO, "fltk"), "-I", os.path.join(VERIF, "drivers", "inc"))
                plans[w] = (fl, [need(fl, s) for s in lib] + [need(fl, s, inc) for s in ui + [os.path.join(VERIF, "drivers", "cardsui.cxx")]] +
                            ([need(fl, os.path.join(VERIF, "lib", "asanopt.cxx"))] if fl == "asan" else []), "cardsui",
                            ["-larchive", "-lcurl", "-lzstd", "-lcrypto", "-lpthread"])
            else:
                prog, _, fl = w.partition(":")
                fl = fl or "cli"
                lst = srcs({"pkgadd": "TOOLS", "cards": "CARDS", "webcards": "WEB"}[prog])
                if fl == "asan":
                    lst = lst + [os.path.join(VERIF, "lib", "asanopt.cxx")]
                plans[w] = (fl, [need(fl, s) for s in lst], prog,
                            ["-larchive"] if prog == "pkgadd" else ["-lmysqlclient"] if prog == "webcards" else ["-larchive", "-lcurl", "-lzstd", "-lcrypto"])
        errs = []
        for w, (fl, futs, name, libs) in plans.items():
            try:
                objs = [f.result() for f in futs]
                res[w] = _link(fl, objs, name, libs)
            except BuildError as e:
                errs.append(str(e))
        ex.shutdown()
        if errs:
            raise BuildError("\n".join(errs))
    for p in res.values():
        os.utime(p)
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1:] or ["sbx", "pkgadd", "cards"]), "%.1fs" % (time.time() - t))
