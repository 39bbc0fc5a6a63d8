import os
import depot as D, elfgen as L, world as W
NEEDS = ["sbx", "pkgadd:asan"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing and fuzzing of the runtime dependency search of pkginfo over generated ELF files, against the generator's own knowledge of what each file needs"
NOTE = ("Exploration: ELF files are built from a description (32 or 64 bits, sections and tables in any order, static, relocatable, stripped, damaged) and laid out in a directory and in installed packages; "
        "--runtimelibs, --runtimedepfiles, -L and -R of a pkginfo built with the address and undefined behaviour sanitizers must answer with exactly the described libraries and their owners.")
EXAMPLES = {"quick": 400, "thorough": 14000}
RULE = ("0-6 files per directory and 1-4 packages: ELF files with 0-5 needed libraries and perhaps a soname, damaged ELF files (fields set to chosen values, random bytes, truncated), scripts, empty files, symbolic links, FIFOs. "
        "Non-trivial: some library is found.")
LIBS = ["libc.so.6", "libz.so.1", "libz.so.10", "libz.so", "libm.so.6", "ld-linux-x86-64.so.2", "libstdc++.so.6", "lib a.so", "libé.so.3", "z.so.1", "libdot.", "", "libnobody.so.1", "libfoo-2.0.so.0", "x" * 300 + ".so"]
NAMES = ["bin/app", "bin/tool", "lib/mod.so", "lib/deep/er/x.so", "plain", "a b", "é", "-f", "lib/libz.so.1.3", ".hidden/h.so", ".dot"]
OWN = ["usr/lib/libz.so.1", "usr/lib/libz.so.1.3", "usr/lib/libz.so.10", "usr/lib/libz.so", "usr/lib/libc.so.6", "lib/libm.so.6", "usr/lib/libm.so.6.1.2", "usr/lib/libstdc++.so.6", "usr/lib/xlibz.so.1", "usr/share/libz.so.1.txt", "usr/lib/libz.so.1/", "usr/lib/libz.so.1/readme",
       "usr/lib/lib a.so", "usr/lib/libé.so.3", "usr/lib/z.so.1", "usr/lib/libfoo-2.0.so.0", "usr/lib/libfoo-2X0.so.0", "usr/lib/libc.so.60", "lib/ld-linux-x86-64.so.2"]
PK = ["a", "glibc", "zlib", "zlib.lib", "app", "libm1", "Z"]
BIG = [0, 1, 2, 0x28, 0x38, 0x40, 0x41, 255, 256, 4096, 0xfff0, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xffffffffffffff00]


def gen(g, tier):
    def elf():
        x = {"cl": g.choice([64, 64, 32]), "order": g.randrange(1 << 16), "strs": g.choice([0, 1, 1, 2]), "needed": g.sub(LIBS, 0, 5), "kind": g.choice(["dyn"] * 10 + ["static", "rel", "nosec", "nophdr"]), "pad": g.choice([0, 1, 16, 300, 5000])}
        if g.chance(0.5): x["so"] = g.choice(LIBS)
        for k in ("mix", "other", "tail", "shfirst", "after", "nozero"):
            if g.chance(0.4): x[k] = 1
        if g.chance(0.3): x["nulls"] = g.randint(1, 5)
        if g.chance(0.04): x["end"] = ">"
        return x

    def bad():
        x = elf()
        x["bad"] = 1
        g.pick((3, lambda: x.update(set=[[g.choice(["e_phoff", "e_shoff", "e_phentsize", "e_phnum", "e_shentsize", "e_shnum", "p_offset", "p_filesz", "sh_offset", "sh_size", "sh_link", "d_val", "d_val"]), g.choice(BIG)] for _ in range(g.randint(1, 2))])),
               (2, lambda: x.update(mal=[[[g.randrange(1 << 16), g.choice([0, 64, 200])], g.choice([0, 1, 127, 128, 255, g.randrange(256)])] for _ in range(g.randint(1, 6))])), (2, lambda: x.update(cut=g.randrange(1, 100))))
        return x

    def node():
        return g.pick((8, lambda: {"t": "elf", "x": elf()}), (3, lambda: {"t": "elf", "x": bad()}), (0.7, lambda: {"t": "txt", "c": g.choice(["", "#!/bin/sh\n", "\x7fELF", "\x7fELF" + "\x02" * 11, "libz.so.1\n", "\x7fELG" + "\0" * 100])}), (0.3, lambda: {"t": "lnk"}), (0.2, lambda: {"t": "fifo"}), (0.2, lambda: {"t": "dir"}))
    dirs = [[n, node()] for n in g.sub(NAMES, 0, 6)]
    pk = []
    for n in g.sub(PK, 1, 4):
        pk.append({"n": n, "b": D.BT + g.randrange(5), "own": g.sub(OWN, 0, 4), "elf": [["opt/%s/f%d" % (n, i), node()] for i in range(g.randint(0, 2))], "al": int(g.chance(0.2))})
    return {"d": dirs, "p": pk, "root": int(g.chance(0.35)), "ask": [g.choice(["libs", "deps", "L", "L", "R", "R"]) for _ in range(3)], "who": g.choice([p["n"] for p in pk] + ["nobody", "al-" + pk[0]["n"]]), "rel": int(g.chance(0.3))}


def owns(f, lib):
    b = f[f.rfind("/") + 1:]
    return b == lib or b.startswith(lib + ".")


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    root = "target" if case["root"] else ""
    opt = ["-r", "/" + root] if root else []
    pre = root + "/" if root else ""
    if root:
        D.base(w)
        w.write("var/lib/pkg/DB/outer/META", "Nouter\nV1\nr1\nB1500000000\n")
        w.write("var/lib/pkg/DB/outer/files", "usr/lib/libz.so.1\nusr/lib/libc.so.6\n")
    w.mkdir(pre + "var/lib/pkg/DB")
    w.mkdir("d")
    fuzzy = {"d": False}
    found = {"d": set()}
    hidden = set()

    def place(path, node, key):
        p = w.p(path)
        if node["t"] == "elf":
            x = node["x"]
            w.write(path, L.build(x, x.get("end", "<")), 0o755)
            if x.get("bad") or x.get("end"): fuzzy[key] = True
            elif x.get("kind") == "nophdr": pass
            else: found[key] |= L.libraries(x)
        elif node["t"] == "txt": w.write(path, node["c"].encode("latin-1"))
        elif node["t"] == "lnk": w.symlink(path, "/d/plain" if path != "d/plain" else "nowhere")
        elif node["t"] == "fifo":
            w.mkdir(os.path.dirname(path))
            os.mkfifo(p)
            os.chown(p, W.BASE_UID, W.BASE_UID)
        else: w.mkdir(path)
    followed = {}
    for n, node in case["d"]:
        hid = any(c.startswith(".") for c in n.split("/"))
        fuzzy.setdefault("hid", False); found.setdefault("hid", set())
        try: place("d/" + n, node, "hid" if hid else "d")
        except (FileExistsError, NotADirectoryError, IsADirectoryError): pass
    files = {}
    for q in case["p"]:
        k = "p:" + q["n"]
        fuzzy[k], found[k] = False, set()
        fl = list(q.get("own", []))
        for f, node in q.get("elf", []):
            if node["t"] == "fifo": continue
            if node["t"] == "lnk": node = {"t": "txt", "c": "x"}
            try: place(pre + f, node, k)
            except FileExistsError: pass
            fl.append(f + ("/" if node["t"] == "dir" else ""))
        files[q["n"]] = fl
        d = pre + "var/lib/pkg/DB/" + q["n"]
        w.write(d + "/META", "".join(l + "\n" for l in ["B%d" % q.get("b", D.BT), "N" + q["n"], "V1.0", "r1"] + (["Aal-" + q["n"]] if q.get("al") else [])))
        w.write(d + "/files", "".join(l + "\n" for l in sorted(set(fl))))
    al = {"al-" + q["n"]: q["n"] for q in case["p"] if q.get("al")}
    names = {q["n"]: q for q in case["p"]}
    b4 = W.strip_ino(w.snapshot())

    def run(*a):
        r = w.pkginfo(*opt, *a, cwd="/d" if case["rel"] else "/etc", cpu=10, wall=20)
        if r.timeout: ctx.fail("pkginfo %s does not end" % " ".join(a))
        if r.crashed() or r.rc != 0: ctx.fail("pkginfo %s ends with status %s: %s" % (" ".join(a), r.rc, r.text[-600:]))
        return r.out.decode("utf-8", "surrogateescape")

    def same(what, got, want, loose):
        if loose:
            if not want <= got: ctx.fail("%s: missing %s" % (what, sorted(want - got)))
        elif got != want: ctx.fail("%s: found %s, expected %s" % (what, sorted(got), sorted(want)))

    def owners(libs, build):
        return {n + (str(names[n].get("b", D.BT)) if build else "") for n in names for l in libs if any(owns(f, l) for f in files[n])}

    def lines(t):
        ls = t.split("\n")
        if ls[-1] != "": ctx.fail("the last line of pkginfo is not ended: %r" % t)
        return ls[:-1]
    if not os.path.isdir(w.p("etc")): w.mkdir("etc"); b4 = W.strip_ino(w.snapshot())
    dd = "." if case["rel"] else "/d"
    for a in case["ask"]:
        if a == "libs":
            out = run("--runtimelibs", dd)
            if fuzzy["d"]: got = set(out.split("\n")) - {""}
            else:
                ls = lines(out)
                if ls[-1:] != [""]: ctx.fail("pkginfo --runtimelibs does not end with an empty line: %r" % out)
                got = set(ls[:-1])
                if sorted(got, key=os.fsencode) != ls[:-1]: ctx.fail("pkginfo --runtimelibs is not a sorted list: %r" % ls)
            same("pkginfo --runtimelibs", got, found["d"], fuzzy["d"])
            if found["d"]: ctx.nontrivial = True
        elif a == "deps":
            out = run("--runtimedepfiles", dd)
            want = owners(found["d"], True)
            ls = lines(out)
            if ls and ls.pop() != "": ctx.fail("pkginfo --runtimedepfiles does not end with an empty line: %r" % out)
            if ls != sorted(set(ls), key=os.fsencode): ctx.fail("pkginfo --runtimedepfiles is not a sorted list: %r" % ls)
            same("pkginfo --runtimedepfiles", set(ls), want, fuzzy["d"])
            if want: ctx.nontrivial = True
        else:
            n = al.get(case["who"], case["who"])
            k = "p:" + n
            out = run("-" + a, case["who"])
            if n not in names:
                if lines(out) != ["Librairies"]: ctx.fail("pkginfo -%s of a missing package answers %r" % (a, out))
                continue
            fuz = fuzzy[k]
            if not out.startswith("Librairies\n"): ctx.fail("pkginfo -%s answers %r" % (a, out))
            body = out[len("Librairies\n"):]
            if a == "L":
                want = found[k]
                got = set(body.split("\n")) - {""}
                if not fuz and body != "".join(x + "\n" for x in sorted(want, key=os.fsencode)): ctx.fail("pkginfo -L %s: %r, expected %s" % (case["who"], body, sorted(want)))
            else:
                want = owners(found[k], False)
                got = set(body.rstrip("\n").split(",")) - {""}
                if not fuz and body != ("" if not want else ",".join(sorted(want)) + "\n"): ctx.fail("pkginfo -R %s: %r, expected %s" % (case["who"], body, sorted(want)))
            same("pkginfo -" + a, got, want, fuz)
            if want: ctx.nontrivial = True
        ctx.tag(a, *(["root"] if root else []))
    if any(fuzzy.values()): ctx.tag("damaged")
    d = W.diff_snap(b4, W.strip_ino(w.snapshot()))
    if d: ctx.fail("pkginfo changes files: %s" % d)
