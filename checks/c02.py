import pkggen as G, pkgmodel as M
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing (random histories; conflicts computed by a reference model)"
NOTE = "Exploration: the conflict set is computed from the model's root and database before each install; trusts the model."
EXAMPLES = {"quick": 800, "thorough": 16000}
RULE = ("Generated histories over a small pool of overlapping paths with user-made files; every install and upgrade without -f is "
        "checked: refused if and only if the model finds conflicting files, all of them named on stderr, nothing changed. "
        "Non-trivial: at least one install was refused because of a conflict.")


def gen(g, tier):
    op = lambda: g.pick((5, lambda: G.add_op(g, ("auto",), 0.1, owners=False, max_files=4)), (1.5, lambda: G.rm_op(g)), (2, lambda: G.user_op(g)))
    return {"ops": G.history(g, op, 2, 8 if tier == "quick" else 12), "root": g.choice(["", "r"]),
            "rules": G.rules(g, ("INSTALL", "INSTALL", "UPGRADE"), hi=2) if g.chance(0.4) else []}


def want(r, op, cls, ok, devs):
    if "conflict" in cls:
        return True
    # a refusal without a conflict (or a missing reason) is also this property's business
    return op["op"] == "add" and not op.get("f") and ok and any(a == "refused" for a, _, _ in devs)


def run_case(ctx, case):
    def also(r, i, op, cls, ok, res):
        if "conflict" not in cls:
            return
        ctx.nontrivial = True
        said = set(res.err.decode("utf-8", "surrogateescape").split("\n"))
        miss = [f for f in sorted(r.m.conflicts) if f not in said]
        if miss:
            ctx.fail("step %d %s: refused without naming %s\n  tool said: %s" % (i, M.describe(op), miss, res.text))
        known = {e["p"] + ("/" if e["t"] == "d" else "") for e in op["pkg"]["e"]}
        extra = sorted(f for f in said & known if f not in r.m.conflicts)
        if extra:
            ctx.fail("step %d %s: names %s which do not conflict\n  tool said: %s" % (i, M.describe(op), extra, res.text))
    M.run_history(ctx, case, want, also)
