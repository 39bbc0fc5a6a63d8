import html, re, time
import depot as D
NEEDS = ["sbx", "webcards"]
LEVEL = "exploration"
TECHNIQUE = "property-based testing of the web catalogue (index.cgi) with generated sites, repositories and queries against a reference model of the answer"
NOTE = ("Exploration: index.cgi answers generated queries on generated sites (pages, depots of several collections and branches); the packages listed, the page with its contents list, the lines found and the words of "
        "the visitor are compared with an independent model.")
EXAMPLES = {"quick": 550, "thorough": 14000}
RULE = ("0-6 pages of 0-14 lines with headings of every level, look-alikes and attributes; 0-5 collections in 1-4 version directories with 0-6 records each (missing files, no final empty line, missing fields, text with "
        "< > & and upper case letters); 3-6 queries of every kind in two languages. Non-trivial: some answer must list a package, a heading or a found line.")
NAMES = ["attr", "Bash", "gtk+", "libX11", "python3", "perl-XML-Parser", "qt5", "a&b", "<b>", "zlib", "lib32-glibc", "R", "bash-completion"]
COLS = ["base", "cli", "gui-extra", "KDE", "xorg"]
VERS = ["systemd", "systemd", "systemd", "rolling", "testing", "testingd", "other"]
DESC = ["A shell", "The <b>bold</b> & the \"beautiful\"", "Python Bindings for GTK", "", "bibliothèque", "base of all", "XML parser's toolkit", "x", "@ odd"]
PAGES = ["index", "faq", "news", "under-construction", "packages", "Doc-1", "a_b"]
TXT = ["Plain text", "  indented <b>line</b>", "<p>How to <em>install</em></p>", "<hr>", "<hr />", "<header>top</header>", "<html>", "", "Install the BASE", "<a href=\"x\">link</a>", "a < b <h", "é à", "<p>end</p><hr>",
       "<h2>open heading", "closed</h2>", "<h2 no end", "<h7>not</h7>", "<h1>Title</h1>", "<h1 class=\"c\">Other Title</h1>", "x%y", "<pre>code</pre>"]
HEAD = ["Install", "The base", "Use &amp; abuse", "One", "Step 2", "é", "", "A > B"]
WORDS = ["ba", "BASH", "bash", "gtk", "gtk%2B", "gtk+", "+gtk+x", "%%", "xml", "XML", "lib", "base", "BASE", "kde", "KDE", "gui", "zz", "a", "R", "the", "python", "b%", "+%20sh", "<b>", "\"><script>", "lib%20x", "install", "ins", "in", "<h2>"]


def gen(g, tier):
    pages = []
    for n in g.sub(PAGES, 0, 6):
        L = []
        for _ in range(g.randint(0, 14)):
            if g.chance(0.4):
                l = g.randint(2, 6) if g.chance(0.5) else 2
                L.append(g.choice(["", "", "  ", "<hr>", "<p>x</p>"]) + "<h%d%s>%s</h%d>" % (l, g.choice(["", "", "", " class=\"t\"", " id=\"z\""]), g.choice(HEAD), l) + g.choice(["", "", "<p>tail</p>"]))
            else: L.append(g.choice(TXT))
        pages.append({"n": n, "b": g.choice(["", "", "12.0", "7"]), "l": L, "e": int(g.chance(0.8)), "mt": D.BT + g.randrange(10 ** 7)})
    ds, seen = [], set()
    for _ in range(g.randint(0, 5)):
        v, c = g.choice(VERS), g.choice(COLS)
        if (v, c) in seen: continue
        seen.add((v, c))
        recs = []
        for n in g.sub(NAMES, 0, 6):
            r = {"n": n}
            if g.chance(0.95): r["v"] = g.choice(["1.0", "5.2.15", "r77", "2<3", "1-2"])
            if g.chance(0.85): r["r"] = g.choice(["1", "2", "12", "7", "x", ""] if g.chance(0.2) else ["1", "2", "12"])
            if g.chance(0.9): r["s"] = g.choice(DESC)
            if g.chance(0.95): r["b"] = D.BT + g.randrange(10 ** 8) if not g.chance(0.02) else 10 ** 18
            if g.chance(0.5): r["x"] = g.choice(["gdevel man", "Rbash123", "Uhttps://x.org/", "S1200"])
            recs.append(r)
        ds.append({"v": v, "c": c, "r": recs if not g.chance(0.12) else None, "e": int(g.chance(0.7))})
    qs = []
    for _ in range(g.randint(3, 6)):
        q = {"l": g.choice(["en", "en", "fr", "de"])}
        k = g.pick((3, lambda: "pkg"), (3, lambda: "page"), (2, lambda: "search"), (1, lambda: "none"))
        if k == "pkg":
            q["w"] = g.choice(WORDS + [x for x in NAMES if "&" not in x])
            if g.chance(0.4): q["t"] = g.choice(["pkg", "col", "col"]); q["w"] = g.choice([q["w"]] + [x.lower() for x in COLS])
            if g.chance(0.6): q["br"] = g.choice(["all", "systemd", "rolling", "testing", "testingd", "none", ""])
            if g.chance(0.3): q["sy"] = g.choice(["all", "systemd", "sys-v", "none", ""])
            if g.chance(0.2): q["p"] = "faq"
        elif k == "page": q["p"] = g.choice(PAGES + [x["n"] for x in pages] * 4 + ["nosuch", "<script>alert(1)</script>", "a\"b&c"[:3], "../secret", ".visits", ".mysql", "visits"])
        elif k == "search": q["s"] = g.choice(WORDS + ["secret", "install", "text", "<h2>", "plain", "<P>"])
        qs.append(q)
    return {"p": pages, "d": ds, "q": qs, "vis": int(g.chance(0.4))}


def date(t): return time.asctime(time.gmtime(t)) if t < 1 << 50 else ""


def heading(line):
    m = re.search(r"<h([2-6])(?: [^>]*)?>", line)
    while m:
        e = line.find("</", m.end())
        if e >= 0: return int(m.group(1)), m.end(), line[m.end():e]
        return None
    return None


def tidy(s): return html.unescape(re.sub(r"<[^>]*>", "", s))


def run_case(ctx, case):
    w = ctx.w
    w.reset()
    w.mkdir("/site/content")
    pages, uniq = {}, set()
    for x in case.get("p", []):
        n = str(x.get("n", "index"))
        if n in uniq: continue
        uniq.add(n)
        L = [str(l) for l in x.get("l", [])]
        b = str(x.get("b", "") or "")
        data = "\n".join(L) + ("\n" if x.get("e", 1) and L else "")
        if L and not x.get("e", 1) and L[-1] == "": L = L[:-1]
        w.write("/site/content/" + n + ("." + b if b else ""), data, mtime=int(x.get("mt", D.BT)))
        pages[n] = (L, b, int(x.get("mt", D.BT)))
    w.write("/site/content/.mysql.conf", "hostname localhost\npassword topsecret\n")
    if case.get("vis"): w.write("/site/content/.visits", "1,searchpkg=secretive\n")
    conf, recs, seen = ["# catalogue"], [], set()
    for d in case.get("d", []):
        v, c = str(d.get("v", "systemd")), str(d.get("c", "base"))
        if (v, c) in seen: continue
        seen.add((v, c))
        conf.append("dir /srv/x86_64/%s/%s" % (v, c))
        if d.get("r") is None: continue
        L, ns = [], set()
        sy, br = {"systemd": ("systemd", "systemd"), "rolling": ("sys-v", "rolling"), "testing": ("sys-v", "testing"), "testingd": ("systemd", "testingd")}.get(v, ("", ""))
        for r in d["r"]:
            n = str(r.get("n", "x")) or "x"
            if n in ns: continue
            ns.add(n)
            if L: L.append("")
            L.append("@%s%d%s.cards.tar.xz" % (n, int(r.get("b", 0) or 0), r.get("v", "")))
            L.append("N" + n)
            if r.get("b"): L.append("B%d" % int(r["b"]))
            if "v" in r: L.append("V" + str(r["v"]))
            if "r" in r: L.append("r" + str(r["r"]))
            if "s" in r: L.append("D" + str(r["s"]))
            if r.get("x"): L.append(str(r["x"]))
            rel = int(str(r.get("r", 0))) if str(r.get("r", 0)).isdigit() else 0
            recs.append({"sy": sy, "br": br, "c": c, "n": n, "vr": "%s-%d" % (r.get("v", ""), rel), "s": str(r.get("s", "")), "b": date(int(r.get("b", 0) or 0))})
        text = "\n".join(L) + ("\n\n" if d.get("e", 1) and L else "\n" if L else "")
        w.write("/srv/x86_64/%s/%s/.REPO" % (v, c), text)
    w.write("/site/.webcards.conf", "\n".join(conf) + "\n")
    before = w.snapshot()
    visits = ["1,searchpkg=secretive"]
    nt = False
    for q in case.get("q", []):
        args = []
        for k, a in (("p", "page"), ("s", "search"), ("w", "searchpkg"), ("t", "type"), ("br", "branch"), ("sy", "system")):
            if k in q: args.append("%s=%s" % (a, q[k]))
        qs = "&".join(args)
        r = w.run("/t/webcards", cwd="/site", env={"QUERY_STRING": qs, "SCRIPT_NAME": "/%s/index.cgi" % q.get("l", "en")})
        out = r.out.decode("utf-8", "replace")
        what = "query %r (%s)" % (qs, q.get("l", "en"))
        if r.crashed() or r.timeout or r.rc != 0: return ctx.fail("%s: status %s %s" % (what, r.rc, r.err.decode(errors="replace")[-300:]))
        if not out.startswith("Content-type:text/html\r\n\r\n") or not out.rstrip().endswith("</html>"): return ctx.fail("%s: no complete answer: %r" % (what, out[-200:]))
        if "topsecret" in out or "secretive" in out: return ctx.fail("%s shows a hidden file of the site" % what)
        fr = q.get("l") == "fr"
        if ('href="../en"' in out) != fr or ('href="../fr"' in out) == fr: return ctx.fail("%s: menu of another language" % what)
        i, j = out.find('<td class="content">\n\n'), out.rfind("\n      </td>\n     </tr>")
        if i < 0 or j < i: return ctx.fail("%s: no content part" % what)
        body = out[i + len('<td class="content">\n\n'):j]
        if "<script>" in body and not any("<script>" in l for x in pages.values() for l in x[0]): return ctx.fail("%s: the words of the visitor come back as HTML: %s" % (what, body[:300]))
        if "w" in q and q["w"]:
            visits.append(qs)
            word = str(q["w"])
            if len(word.encode()) < 2:
                ctx.tag("short")
                if "min 2 characters" not in body or "fbody" in body: return ctx.fail("%s: expected the hint of 2 characters" % what)
                continue
            s = word
            for sep in "%+":
                ps = [x for x in s.split(sep) if x]
                if ps: s = ps[0]
            s = s.lower()
            br, sy, ty = str(q.get("br") or "systemd"), str(q.get("sy") or "all"), str(q.get("t") or "pkg")
            exp = set()
            for x in recs:
                if br not in ("all", x["br"]) or sy not in ("all", x["sy"]): continue
                if ty == "col" and s != x["c"].lower(): continue
                if ty != "col" and not (s in x["c"].lower() or s in x["n"].lower() or s in x["s"].lower()): continue
                exp.add((x["sy"], x["br"], x["c"], x["n"], x["vr"], x["s"], x["b"], "/".join(["https://github.com/NuTyX", x["sy"], "tree", x["br"], x["c"], x["n"]])))
            m = re.search(r'<tbody id="fbody">(.*)</tbody>', body, re.S)
            if not m: return ctx.fail("%s: no table of packages" % what)
            got, rows = set(), 0
            for row in re.findall(r"<tr[^>]*>(.*?)</tr>", m.group(1), re.S):
                cells = re.findall(r"<td>(.*?)</td>", row, re.S)
                hr = re.findall(r'href="([^"]*)"', row)
                if len(cells) != 7 or len(hr) != 2: return ctx.fail("%s: row of %d cells and %d links: %s" % (what, len(cells), len(hr), row[:400]))
                t = tuple(tidy(x).strip() for x in cells)
                if html.unescape(hr[1]) != html.unescape(hr[0]).replace("/tree/", "/commits/", 1): return ctx.fail("%s: link of the commits is %s" % (what, hr[1]))
                got.add(t + (html.unescape(hr[0]),)); rows += 1
            expd = {tuple(y.strip() for y in x) for x in exp}
            if got != expd or rows != len(expd):
                return ctx.fail("%s lists the wrong packages: missing %s, unexpected %s, %d rows for %d" % (what, sorted(expd - got)[:3], sorted(got - expd)[:3], rows, len(expd)))
            ti = re.search(r"<h2>(.*?)</h2>", body)
            n = re.match(r"(\d+) package", ti.group(1)) if ti else None
            if (int(n.group(1)) if n else 0 if ti and "no matching" in ti.group(1) else -1) != len(expd): return ctx.fail("%s: heading %r for %d packages" % (what, ti and ti.group(1), len(expd)))
            v = re.search(r'name="searchpkg"[^>]* value="([^"]*)"', body)
            if not v or html.unescape(v.group(1)) != word: return ctx.fail("%s: search field holds %r" % (what, v and v.group(1)))
            ctx.tag("pkg" if expd else "pkg:none")
            if ty == "col": ctx.tag("col" if expd else "col:none")
            nt = nt or bool(expd)
        elif q.get("s"):
            word = str(q["s"])
            if len(word.encode()) < 3:
                if "min 3 characters" not in body or "?page=" in body: return ctx.fail("%s: expected the hint of 3 characters" % what)
                continue
            exp = [(n, l) for n in sorted(pages) if n != "packages" for l in pages[n][0] if asc(word) in asc(l)]
            got = re.findall(r'<a href="\?page=([^"]*)">[^\n]*\n(.*)\n', body)
            got = [x for x in got]
            if got != exp: return ctx.fail("%s finds %s, expected %s" % (what, got[:6], exp[:6]))
            ctx.tag("search" if exp else "search:none")
            nt = nt or bool(exp)
        else:
            n = str(q.get("p", "index"))
            if n == "packages":
                if 'name="searchpkg"' not in body or "fbody" in body: return ctx.fail("%s: no form to search packages" % what)
                ctx.tag("form"); continue
            if n not in pages:
                m = re.search(r"<h1>(.*) is not existing yet</h1>\n", body)
                if not m or html.unescape(m.group(1)) != n: return ctx.fail("%s: expected to hear that %r does not exist: %s" % (what, n, body[:200]))
                rest = body[m.end():]
                exp = "".join(l + "\n" for l in pages.get("under-construction", ([],))[0])
                if rest != exp: return ctx.fail("%s: page under construction is %r, expected %r" % (what, rest[:200], exp[:200]))
                ctx.tag("missing"); continue
            L, b, mt = pages[n]
            m = re.search(r'<p class="updated"> (.*) UTC</p>\n', body)
            if not m or m.group(1) != date(mt): return ctx.fail("%s: date %r of the page, expected %r" % (what, m and m.group(1), date(mt)))
            if 'name="search"' not in body[:m.start()]: return ctx.fail("%s: no search field" % what)
            got = body[m.end():].split("\n")
            if got and got[-1] == "": got.pop()
            if b:
                link = [x for x in got[-3:] if "/index.php/board," in x]
                host = "forum.nutyx.org" if fr else "forums.nutyx.org"
                if not link or "https://" + host + "/index.php/board," + b + '"' not in link[0]: return ctx.fail("%s: no link to the board %s: %s" % (what, b, got[-3:]))
                got = got[:len(got) - 2]
            elif any("/index.php/board," in x for x in got): return ctx.fail("%s: link to a board" % what)
            pre, heads, rest = [], [], []
            for l in L:
                h = heading(l)
                if h:
                    heads.append(h)
                    rest.append(l[:h[1]] + '<a name="%d"></a>' % len(heads) + l[h[1]:])
                elif heads: rest.append(l)
                else: pre.append(l)
            if not heads:
                if got != pre: return ctx.fail("%s: page is %s, expected %s" % (what, got[:20], pre[:20]))
                ctx.tag("page:plain"); continue
            nt = True
            ctx.tag("page:headings")
            if got[:len(pre)] != pre: return ctx.fail("%s: text before the first heading is %s, expected %s" % (what, got[:len(pre)], pre))
            if got[len(got) - len(rest):] != rest or len(got) < len(pre) + len(rest): return ctx.fail("%s: text from the first heading on is %s, expected %s" % (what, got[len(got) - len(rest):], rest))
            toc = "\n".join(got[len(pre):len(got) - len(rest)])
            if ("Sommaire" if fr else "Contents") not in toc: return ctx.fail("%s: contents list has no title: %s" % (what, toc[:200]))
            depth, ls = 0, []
            for t in re.finditer(r'<ul[^>]*>|</ul>|<a href="#(\d+)">([^\n]*?)</a>', toc):
                if t.group(0) == "</ul>": depth -= 1
                elif t.group(1) is None: depth += 1
                else: ls.append((int(t.group(1)), depth + 1, t.group(2)))
            if ls != [(i + 1, h[0], h[2]) for i, h in enumerate(heads)]: return ctx.fail("%s: contents list %s, expected %s" % (what, ls, [(i + 1, h[0], h[2]) for i, h in enumerate(heads)]))
    after = w.snapshot()
    vf = "site/content/.visits"
    if case.get("vis"):
        got = after.pop(vf)["c"].decode().split("\n"); before.pop(vf)
        if [x.split(",", 1)[-1] for x in got if x] != [x.split(",", 1)[-1] for x in visits]: return ctx.fail("visits hold %s, expected %s" % (got[:8], visits))
        if any(not re.match(r"-?\d+,", x) for x in got if x): return ctx.fail("visits hold %s" % got[:8])
    if after != before: return ctx.fail("a query changed files: %s" % sorted(set(before) ^ set(after))[:4])
    if nt: ctx.nontrivial = True


def asc(s): return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
