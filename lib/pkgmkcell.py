"""pkgmk of a source tree in a cell, with coreutils and stand-ins for bsdtar (built from bsdtar.c), file, strip, which and curl."""
import os, re, shutil
import world as W
TOOLS = ("bash cat cp mv rm mkdir ln ls sort uniq cut du stat basename dirname touch date uname id readlink sha512sum chmod head tr wc find sed grep gzip xz zstd bzip2 diff getconf tail xargs "
         "awk mawk gawk tee seq comm env cmp expr paste rmdir install mktemp realpath printf test true false sha256sum md5sum tac nproc od fold join sleep egrep fgrep gunzip zcat bunzip2 unxz xzcat unzstd dd install link unlink df").split()
ENV = {"PATH": "/t/bin:/t", "HOME": "/", "LOCPATH": "/t/locale"}
SH = {
    "which": "type -P \"$1\"\n",
    "file": """shift
read -r l < "$1"
case "$l" in
"#EXE") echo "ELF 64-bit LSB pie executable, x86-64, not stripped";;
"#SO") echo "ELF 64-bit LSB shared object, x86-64, not stripped";;
"#AR") echo "current ar archive";;
*) echo "ASCII text";;
esac
""",
    "curl": """while [ $# -gt 1 ]; do
case "$1" in -o) out="$2"; shift;; esac
shift
done
echo "$1" >> /tmp/curl.log
f="/web/${1#https://}"
[ -f "$f" ] && cp "$f" "$out" && exit 0
[ -f "$f.half" ] && cp "$f.half" "$out" && exit 18
exit 22
""",
    "strip": "printf '%s\\n' \"$1\" >> \"$2\"\n",
}


def prepare(w, repo, extra=()):
    if os.path.exists(w.p("t/bin/ok")): return
    os.makedirs(w.p("t/bin"))
    libs = set()
    for t in list(TOOLS) + list(extra):
        if not shutil.which(t): continue
        p, t = os.path.realpath(shutil.which(t)), os.path.basename(t)
        shutil.copy(p, w.p("t/bin/" + t))
        libs |= W._closure(p)
    for l in sorted(libs):
        d = w.libpath(l)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if not os.path.exists(d): shutil.copy(os.path.realpath(l), d)
    if os.path.isdir("/usr/lib/locale/C.utf8"): shutil.copytree("/usr/lib/locale/C.utf8", w.p("t/locale/C.utf8"))
    for n, t in SH.items():
        with open(w.p("t/bin/" + n), "w") as f: f.write("#!/t/bin/bash\n" + t)
    t = open(os.path.join(repo, "scripts", "pkgmk.in")).read().replace("#VERSION#", "1")
    t = re.sub(r"\A#!.*", "#!/t/bin/bash", t)
    with open(w.p("t/bin/pkgmk"), "w") as f: f.write(t)
    for d, ds, fs in os.walk(w.p("t/bin")):
        for f in fs: os.chmod(os.path.join(d, f), 0o755)
    for a in ("lib", "lib64", "t"):
        for d, ds, fs in os.walk(w.p(a)): os.chmod(d, 0o755)
    open(w.p("t/bin/ok"), "w").close()
