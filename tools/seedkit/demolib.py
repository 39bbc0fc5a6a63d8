"""A containment cell with the programs built in the current directory's src/."""
import atexit, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import world as W
from world import make_pkg

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
base = W.scratch_base()
os.chmod(base, 0o755)
atexit.register(lambda: W.safe_rmtree(base, base))
subprocess.check_call(["gcc", "-w", "-O1", "-o", base + "/sbx", HERE + "/sbx.c"])
bins = {"sbx": base + "/sbx", "pkgadd": REPO + "/src/pkgadd", "cards": REPO + "/src/cards"}
if os.path.exists(HERE + "/trc.c"):
    subprocess.check_call(["gcc", "-w", "-O1", "-static", "-o", base + "/trc", HERE + "/trc.c"])
    bins["trc"] = base + "/trc"
if os.path.exists(HERE + "/cardsui.cxx"):
    # the graphical client without its windows
    os.mkdir(base + "/inc")
    open(base + "/inc/libcards.h", "w").write(open(REPO + "/src/libcards.h").read())
    subprocess.check_call(["g++", "-std=c++17", "-w", "-O1", "-D_GNU_SOURCE", '-DPACKAGE_VERSION="0"', "-D_LARGEFILE_SOURCE", "-D_FILE_OFFSET_BITS=64", "-DNDEBUG",
                           "-I" + base + "/inc", "-I" + REPO + "/fltk", "-o", base + "/cardsui", HERE + "/cardsui.cxx"] +
                          [REPO + "/fltk/cards_%s.cxx" % x for x in ("client", "event_handler", "log", "wrapper")] +
                          [REPO + "/src/libcards.a", "-larchive", "-lcurl", "-lzstd", "-lcrypto", "-lpthread"])
    bins["cardsui"] = base + "/cardsui"
w = W.World(bins, base, 1)
DB = "var/lib/pkg/DB"
w.mkdir(DB)
ARCH = os.uname().machine


def meta(name, version="1", release=1, extra=(), arch=ARCH):
    return ["N" + name, "V" + version, "r%d" % release, "B1600000000", "S1", "cbase", "a" + arch, "Dd"] + list(extra)


def pkg(path, name, entries, **k):
    scripts = k.pop("scripts", None)
    kw = {a: k.pop(a) for a in ("comp", "mtree", "fmt") if a in k}
    w.write(path, make_pkg(meta(name, **k), entries, scripts, **kw))
    return "/" + path


def f(p, c="x", **k):
    return dict({"p": p, "t": "f", "c": c}, **k)


def d(p, **k):
    return dict({"p": p, "t": "d"}, **k)


def ok(r):
    if r.rc != 0:
        print("unexpected status %d: %s" % (r.rc, r.text))
        sys.exit(1)
    return r


def check(cond, text):
    if not cond:
        print("BROKEN:", text)
        sys.exit(1)


def ui(*lines, uid=0):
    """what the graphical client says to the operations"""
    r = ok(w.run("/t/cardsui", uid=uid, stdin="".join(l + "\n" for l in lines).encode()))
    return [l[3:] for l in r.out.decode().split("\n") if l.startswith("@@ ")]
