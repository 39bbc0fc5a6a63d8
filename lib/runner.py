"""Drives one property check: generated search over several worker processes, shrinking, replay,
known findings, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
import world as W

NWORKERS = 8


class Violation(AssertionError):
    pass


class Ctx:
    """What a check's run_case gets: a cell, and a place to note what the case contained."""

    def __init__(self, mod, bins, base, wid, single, tier):
        self.mod, self.tier, self.bins = mod, tier, bins
        self.w = W.World(bins, base, wid, single=single)
        self.single = single
        self.tags = []
        self.nontrivial = False
        self.cache = {}

    def begin(self):
        self.tags = []
        self.nontrivial = False

    def tag(self, *t):
        self.tags.extend(t)

    def fail(self, msg):
        raise Violation(msg)


def jdump(c):
    return json.dumps(c, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def one(ctx, case):
    """Run one case; returns a violation text or None."""
    ctx.begin()
    try:
        ctx.mod.run_case(ctx, case)
    except Violation as v:
        return str(v) or "violated"
    return None


def worker(modname, bins, base, wid, single, tier, seed, n, budget, stop, q):
    try:
        _worker(modname, bins, base, wid, single, tier, seed, n, budget, stop, q)
    except BaseException:
        q.put({"wid": wid, "error": traceback.format_exc()})


def valid(c):
    """Keeps the reduction inside the generators' domain: packages have entries."""
    if isinstance(c, dict):
        return not ("e" in c and c["e"] == []) and all(valid(x) for x in c.values())
    return all(valid(x) for x in c) if isinstance(c, list) else True


def shrink(ctx, case, text, deadline):
    """Greedy structural reduction: drop list elements (chunks first), dictionary keys, reduce numbers.
    A candidate the check cannot run counts as not failing."""
    best, msg = case, text

    def fails(c):
        nonlocal best, msg
        if time.time() > deadline or not valid(c):
            return False
        try:
            v = one(ctx, c)
        except Exception:
            return False
        if v:
            best, msg = c, v
            return True
        return False

    def at(root, path):
        for k in path:
            root = root[k]
        return root

    def with_value(path, value):
        c = json.loads(jdump(best))
        if not path:
            return value
        at(c, path[:-1])[path[-1]] = value
        return c

    def paths(node, pre=()):
        yield pre, node
        if isinstance(node, list):
            for i, x in enumerate(node):
                yield from paths(x, pre + (i,))
        elif isinstance(node, dict):
            for k in sorted(node):
                yield from paths(node[k], pre + (k,))

    changed = True
    while changed and time.time() < deadline:
        changed = False
        size = len(jdump(best))
        for path, _ in list(paths(best)):
            try:
                node = at(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(node, list):
                step = max(1, len(node) // 2)
                while step:
                    i = 0
                    while i < len(node):
                        cand = node[:i] + node[i + step:]
                        if fails(with_value(path, cand)):
                            node = at(best, path)
                        else:
                            i += step
                    step //= 2
            elif isinstance(node, dict):
                for k in sorted(node):
                    cand = {a: b for a, b in node.items() if a != k}
                    if fails(with_value(path, cand)):
                        node = at(best, path)
            elif isinstance(node, bool):
                if node:
                    fails(with_value(path, False))
            elif isinstance(node, int) and node > 1:
                for v in (0, 1, node // 2):
                    if v < node and fails(with_value(path, v)):
                        break
        changed = len(jdump(best)) < size
    return jdump(best), msg


def _worker(modname, bins, base, wid, single, tier, seed, n, budget, stop, q):
    import pkggen
    mod = importlib.import_module(modname)
    ctx = Ctx(mod, bins, base, wid, single, tier)
    t0 = time.time()
    evals, nontriv, tags, samples, best, first, cut, err = 0, set(), {}, [], None, None, 0, None
    flaky = 0
    for k in range(n):
        if time.time() - t0 > budget or stop.is_set():
            cut = n - k
            break
        case = None
        try:
            case = json.loads(jdump(mod.gen(pkggen.R("%d/%d/%d" % (seed, wid, k)), tier)))
            v = one(ctx, case)
        except Exception:
            err = traceback.format_exc() + "\ncase: " + jdump(case)[:1500]
            break
        evals += getattr(ctx, "weight", 1)
        for t in set(ctx.tags):
            tags[t] = tags.get(t, 0) + 1
        if ctx.nontrivial:
            s = jdump(case)
            nontriv.add(hashlib.sha256(s.encode()).digest()[:12])
            if len(samples) < 2 and len(s) < 4000:
                samples.append(case)
        if v and flaky < 5 and not (one(ctx, case) and one(ctx, case)):
            flaky += 1      # not a failure that repeats: go on with the search
            v = None
        if v:
            stop.set()
            first = (jdump(case), v)
            best = shrink(ctx, case, v, time.time() + getattr(mod, "SHRINK_S", 60))
            break
    q.put({"wid": wid, "evals": evals, "nontriv": nontriv, "tags": tags, "samples": samples, "best": best, "first": first, "cut": cut, "error": err, "flaky": flaky})


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: ") and ("property=%s " % pid) in line:
                f = dict(x.split("=", 1) for x in line.split() if "=" in x and x.split("=")[0] in ("property", "case"))
                text = line.split(f["case"], 1)[1].strip() if "case" in f else line
                res.append((f.get("case"), text))
    return res


def main(pid, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    i = 0
    while i < len(argv):
        if argv[i] == "--tier": tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed": seed = int(argv[i + 1]); i += 2
        elif argv[i] == "--replay": replay = argv[i + 1]; i += 2
        else: raise SystemExit("usage: check ID [--tier T] [--seed N] [--replay FILE]")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    modname = pid.lower()
    mod = importlib.import_module(modname)
    bins = B.build(mod.NEEDS)
    tb = time.time() - t0
    base = W.scratch_base()
    os.chmod(base, 0o755)
    rc = 99
    try:
        rc = _main(pid, mod, modname, bins, base, tier, seed, replay, scale, t0, tb)
    finally:
        W.safe_rmtree(base, base)
    sys.stdout.flush()
    return rc


def probe(bins, base):
    """Does the containment cell work here?"""
    w = W.World({"sbx": bins["sbx"]}, base, 900)
    r = w.run("/" + W.SHELL, "-c", "echo ok")
    if r.out.strip() != b"ok":
        raise RuntimeError("no working containment cell: %r" % r.err)


def _main(pid, mod, modname, bins, base, tier, seed, replay, scale, t0, tb):
    probe(bins, base)
    single = True
    ctx = Ctx(mod, bins, base, 999, single, tier)
    if replay:
        case = json.load(open(replay))
        v = one(ctx, case)
        print("replay:", v or "holds", "tags:", sorted(set(ctx.tags)))
        if v:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1 if v else 0

    violations = []
    evals = 0
    nontriv = set()
    tags = {}
    samples = []

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    # 1. recorded findings: still there?
    finds = 0
    for case, text in known_findings(pid):
        f = os.path.join(VERIF, case)
        v = one(ctx, json.load(open(f)))
        if v:
            finds += 1
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    # 2. regression corpus: plain cases, no library involved
    cdir = os.path.join(VERIF, "corpus", pid)
    ncorp = 0
    failing = []
    if os.path.isdir(cdir):
        for f in sorted(os.listdir(cdir)):
            case = json.load(open(os.path.join(cdir, f)))
            v = one(ctx, case)
            ncorp += 1
            evals += 1
            for t in set(ctx.tags):
                tags[t] = tags.get(t, 0) + 1
            if ctx.nontrivial:
                nontriv.add(hashlib.sha256(jdump(case).encode()).digest()[:12])
            if v:
                failing.append((jdump(case), v))
                break
    # 3. generated search
    n = max(1, int(mod.EXAMPLES[tier] * scale))
    budget = getattr(mod, "BUDGET", {"quick": 240, "thorough": 780})[tier]
    cut = 0
    unrepro = 0
    errors = []
    if not failing:
        stop = mp.Event()
        q = mp.Queue()
        ps = []
        for wid in range(NWORKERS):
            p = mp.Process(target=worker, args=(modname, bins, base, wid, single, tier, seed, n, budget, stop, q))
            p.start()
            ps.append(p)
        got = 0
        while got < NWORKERS:
            try:
                r = q.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in ps) and q.empty():
                    errors.append("a worker ended without a report")
                    break
                continue
            got += 1
            if r.get("error"):
                errors.append(r["error"])
            if "evals" in r:
                evals += r["evals"]
                nontriv |= r["nontriv"]
                cut += r["cut"]
                unrepro += r["flaky"]
                for k, v in r["tags"].items():
                    tags[k] = tags.get(k, 0) + v
                samples += r["samples"][:1] if len(samples) < 4 else []
                if r["best"]:
                    failing.append(r["best"])
                    print("first failure in worker %d: %s" % (r["wid"], r["first"][1][:1500]))
        for p in ps:
            p.join(5)
            if p.is_alive():
                p.kill()
    # 4. replay each failing case three times, outside the library
    for s, v in sorted(failing, key=lambda x: len(x[0])):
        case = json.loads(s)
        texts = []
        try:
            texts = [one(ctx, case) for _ in range(3)]
        except Exception:
            errors.append(traceback.format_exc())
        if texts and all(texts):
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(s.encode()).hexdigest()[:12]))
            with open(f, "w") as h:
                h.write(json.dumps(case, indent=1, sort_keys=True) + "\n")
            violations.append((f, texts[0]))
            break
        unrepro += 1
    if errors:
        with open(os.path.join(VERIF, "evidence", pid + ".err"), "w") as h:
            h.write("\n\n".join(errors))
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": samples[:4] or [json.loads(failing[0][0])] if (samples or failing) else ["none"],
        "classes": dict(sorted(tags.items())),
        "workers": NWORKERS, "examples_per_worker": n, "not_run": cut, "corpus_cases": ncorp,
        "known_findings_reproduced": finds, "failures_not_reproduced": unrepro,
        "build_s": round(tb, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1, sort_keys=True, default=repr)
        h.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs%s" %
          (pid, tier, seed, evals, len(nontriv), time.time() - t0, ", %d not run" % cut if cut else ""))
    for e in errors[:2]:
        print("check error:", e[:3000], file=sys.stderr)
    if violations:
        f, v = violations[0]
        print("what: " + v[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if errors:
        return 3
    return 0
