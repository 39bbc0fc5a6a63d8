"""ELF files made to order.  Spec x keys: cl 32|64, needed [names], so name, order permutation seed, strs place of the dynamic
strings (0 first, 1 last), kind: dyn | static | rel | nosec | nophdr, pad, mal [[offset fraction, byte]...], cut fraction, other (extra string tables)."""
import random, struct
SHT = {"null": 0, "progbits": 1, "symtab": 2, "strtab": 3, "dynamic": 6, "dynsym": 11}


def build(x, end="<"):
    r = random.Random(x.get("order", 0))
    b64 = x.get("cl", 64) == 64
    ehs, phs, shs = (64, 56, 64) if b64 else (52, 32, 40)
    word = "Q" if b64 else "I"
    kind = x.get("kind", "dyn")
    names = [n.encode("utf-8", "surrogateescape") for n in x.get("needed", [])]
    so = (x.get("so") or "").encode()
    tab = b"" if x.get("nozero") else b"\0"
    off = {}
    strs = names + ([so] if x.get("so") is not None else []) + [b"GLIBC_2.4", b"printf", b"/opt/rpath"]
    r.shuffle(strs)
    for s in strs:
        if s in off: continue
        if x.get("tail") and s and (s + b"\0") in tab: off[s] = tab.index(s + b"\0"); continue     # strings may share their ends
        off[s] = len(tab); tab += s + b"\0"
    dyn = [(1, off[n]) for n in names] + ([(14, off[so])] if x.get("so") is not None else [])
    if x.get("mix"): dyn += [(15, off[b"/opt/rpath"]), (5, 0x1000), (6, 0x2000), (10, len(tab)), (29, off[b"/opt/rpath"]), (0x6ffffef5, off[b"printf"]), (12, 0x10), (30, 8)]
    r.shuffle(dyn)
    dyn += [(0, 0)] * (1 + x.get("nulls", 0))
    if x.get("after"): dyn += [(1, off[b"printf"])]              # behind the end of the list
    dynb = b"".join(struct.pack(end + word + word, t, v) for t, v in dyn)
    secs = [(".interp", "progbits", b"/lib/ld.so\0"), (".text", "progbits", b"\x90" * x.get("pad", 16)), (".dynsym", "dynsym", b"\0" * (24 if b64 else 16)), (".dynstr", "strtab", tab), (".dynamic", "dynamic", dynb), (".comment", "progbits", b"GCC\0")]
    if kind in ("static", "rel"): secs = [s for s in secs if not s[0].startswith(".dyn") and s[0] != ".interp"]
    if x.get("other"): secs += [(".symtab", "symtab", b"\0" * (24 if b64 else 16)), (".strtab", "strtab", b"\0libother.so.9\0main\0libwrong.so.1\0" + b"libpad.so\0" * 40)]
    sh = b"\0"; shn = {}
    for s in [s[0] for s in secs] + [".shstrtab"]:
        shn[s] = len(sh); sh += s.encode() + b"\0"
    secs.append((".shstrtab", "strtab", sh))
    order = secs[:]                                              # in the table
    r.shuffle(order)
    place = secs[:]                                              # in the file
    r.shuffle(place)
    if kind not in ("static", "rel"):
        d = [s for s in place if s[0] == ".dynstr"][0]
        place.remove(d)
        place = [d] + place if x.get("strs", 0) == 0 else place + [d] if x.get("strs") == 1 else place[:len(place) // 2] + [d] + place[len(place) // 2:]
    phdr = [] if kind in ("rel", "nophdr") else [[1, 0, 0x1000], [0x6474e551, 0, 0]]
    if kind not in ("static", "rel", "nophdr"): phdr.insert(r.randrange(len(phdr) + 1), [2, None, None])
    nosec = kind == "nosec"
    shnum = 0 if nosec else len(order) + 1
    pos = ehs
    shfirst = x.get("shfirst") and not nosec
    phoff = pos if phdr else 0
    pos += phs * len(phdr)
    if shfirst: shoff = pos; pos += shs * shnum
    body, at = b"", {}
    for s in place:
        fill = -(pos + len(body)) % 8
        body += b"\0" * fill
        at[s[0]] = pos + len(body)
        body += s[2]
    if not shfirst:
        body += b"\0" * (-(pos + len(body)) % 8)
        shoff = pos + len(body)
    idx = {s[0]: i + 1 for i, s in enumerate(order)}
    sht = b"\0" * shs
    for s in order:
        link = {".dynamic": idx.get(".dynstr", 0), ".dynsym": idx.get(".dynstr", 0), ".symtab": idx.get(".strtab", 0)}.get(s[0], 0)
        f = (shn[s[0]], SHT[s[1]], 2 if s[0].startswith(".dyn") else 0, 0x1000 + at[s[0]] if s[0].startswith(".dyn") else 0, at[s[0]], len(s[2]), link, 0, 8, 0)
        sht += struct.pack(end + ("IIQQQQIIQQ" if b64 else "IIIIIIIIII"), *f)
    pht = b""
    for t, o, n in phdr:
        if o is None: o, n = at[".dynamic"], len(dynb)
        pht += struct.pack(end + "IIQQQQQQ", t, 4, o, 0x1000 + o, 0, n, n, 8) if b64 else struct.pack(end + "IIIIIIII", t, o, 0x1000 + o, 0, n, n, 4, 4)
    head = b"\x7fELF" + bytes([2 if b64 else 1, 1 if end == "<" else 2, 1, 0]) + b"\0" * 8
    head += struct.pack(end + "HHI" + word * 3 + "IHHHHHH", {"rel": 1, "static": 2}.get(kind, 3), 62 if b64 else 3, 1, 0x1000, phoff, 0 if nosec else shoff, 0, ehs, phs if phdr else 0, len(phdr), shs if not nosec else 0, shnum, 0 if nosec else idx[".shstrtab"])
    out = bytearray(head + pht + (sht if shfirst else b"") + body + (b"" if shfirst or nosec else sht))
    for o, v in x.get("mal", []):
        area = min(len(out), o[1] if o[1] > 0 else len(out)) or 1
        out[o[0] % area] = v & 255
    for k, v in x.get("set", []): patch(out, b64, end, k, v, phoff, len(phdr), locals().get("shoff", 0), shnum, at)
    if x.get("cut"): out = out[:len(out) * x["cut"] // 100]
    return bytes(out)


def patch(out, b64, end, k, v, phoff, phn, shoff, shn, at):
    """Set a field of the file to a chosen value."""
    W = ("Q", 8) if b64 else ("I", 4)
    e = {"e_phoff": (32, W), "e_shoff": (40, W), "e_phentsize": (54, ("H", 2)), "e_phnum": (56, ("H", 2)), "e_shentsize": (58, ("H", 2)), "e_shnum": (60, ("H", 2))} if b64 else \
        {"e_phoff": (28, W), "e_shoff": (32, W), "e_phentsize": (42, ("H", 2)), "e_phnum": (44, ("H", 2)), "e_shentsize": (46, ("H", 2)), "e_shnum": (48, ("H", 2))}
    places = []
    if k in e: places = [e[k]]
    elif k.startswith("p_"):
        o = {"p_offset": 8, "p_filesz": 32}[k] if b64 else {"p_offset": 4, "p_filesz": 16}[k]
        places = [(phoff + i * (56 if b64 else 32) + o, W) for i in range(phn)]
    elif k.startswith("sh_"):
        o, t = ({"sh_offset": (24, W), "sh_size": (32, W), "sh_link": (40, ("I", 4))} if b64 else {"sh_offset": (16, W), "sh_size": (20, W), "sh_link": (24, ("I", 4))})[k]
        places = [(shoff + i * (64 if b64 else 40) + o, t) for i in range(shn)]
    elif k == "d_val" and ".dynamic" in at: places = [(at[".dynamic"] + W[1], W), (at[".dynamic"] + 3 * W[1], W)]
    for o, (f, n) in places:
        if 0 <= o and o + n <= len(out): out[o:o + n] = struct.pack(end + f, v & ((1 << (8 * n)) - 1))


def libraries(x):
    """What the file needs and provides."""
    if x.get("kind", "dyn") != "dyn" or x.get("end") == ">": return set()
    return {n for n in x.get("needed", []) + ([x["so"]] if x.get("so") is not None else []) if n and not n.endswith(".")}
