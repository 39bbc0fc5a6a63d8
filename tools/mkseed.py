#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes and confirms a planted bug.  SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (text).
Works on a scratch copy of /repo under /tmp; runs build, stable tests, demo before and after, and the property's check against the copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedcopy"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build():
    # the build script works on /repo: run its steps on the copy
    t = open("/opt/vp/build.sh").read().replace("/repo", S)
    return sh("bash -c '%s'" % t.replace("'", "'\\''"))


def main(spec, runcheck=True):
    ns = {}
    exec(open(spec).read(), ns)
    shutil.rmtree(S, ignore_errors=True)
    sh("cp -a /repo %s" % S)
    sh("git checkout -q -- . && git clean -fdq", cwd=S)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(S, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("edit of %s: %d matches" % (f, s.count(old))); return 1
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", ns["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    patch = subprocess.run(["git", "diff", "src", "scripts", "fltk"], cwd=S, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(patch)
    for f in ("demo.sh", "demolib.py"):
        shutil.copy(V + "/tools/seedkit/" + f, d)
    os.chmod(d + "/demo.sh", 0o755)
    for f in ["world.py", "sbx.c"] + (["trc.c"] if "trace" in ns["DEMO"] or "Traced" in ns["DEMO"] else []):
        shutil.copy(V + "/lib/" + f, d)
    for f in ns.get("FILES", []):
        shutil.copy(V + "/lib/" + f, d)
    open(d + "/demo.py", "w").write("from demolib import *\n" + ns["DEMO"].lstrip("\n"))
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    b = build()
    if b.returncode:
        print("BUILD FAILS", b.stdout.decode()[-2000:]); return 1
    base = sh("sh %s/demo.sh" % d, cwd="/repo")
    bug = sh("sh %s/demo.sh" % d, cwd=S)
    print("demo: unchanged %d, with the bug %d   %s" % (base.returncode, bug.returncode, (base.stdout if base.returncode else bug.stdout).decode(errors="replace")[-600:]))
    t = open("/opt/vp/test.sh").read()
    if "/repo" in t:
        t = t.replace("/repo", S).replace("/opt/vp/build.sh", "/tmp/seedbuild.sh")
        open("/tmp/seedbuild.sh", "w").write(open("/opt/vp/build.sh").read().replace("/repo", S))
        open("/tmp/seedtest.sh", "w").write(t)
        sh("bash /tmp/seedtest.sh /tmp/seedtest.json")
        res = json.load(open("/tmp/seedtest.json"))
        want = json.load(open("/opt/vp/BASELINE.json"))
        names = want["stable"]
        print("tests failing:", sorted(set(names) - set(res["passed"])))
    if runcheck:
        for pid in [ns["PROPERTY"]] + ns.get("ALSO", []):
            c = sh("./check %s" % pid, cwd=V, env=dict(os.environ, VERIF_REPO=S))
            o = c.stdout.decode(errors="replace").strip().split("\n")
            print("check %s -> %d: %s" % (pid, c.returncode, "\n".join(x[:600] for x in o[-3:])))
    shutil.rmtree(S, ignore_errors=True)
    ok = base.returncode == 0 and bug.returncode != 0
    if not ok: print("NOT KEPT"); shutil.rmtree(d)
    return 0


sys.exit(main(sys.argv[1], "-n" not in sys.argv))
