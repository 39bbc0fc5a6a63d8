import pkggen as G, pkgmodel as M
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing (forced-install histories) plus a global single-owner invariant"
NOTE = "Exploration: model comparison after each forced install, and a model-free single-owner invariant over the real database after every step."
EXAMPLES = {"quick": 700, "thorough": 16000}
RULE = ("Generated histories rich in forced installs and upgrades over overlapping paths; after every forced operation the whole root and "
        "database are compared with the model, and after every step no file path may be listed by two records. Non-trivial: at least "
        "one forced operation took a file over.")


def gen(g, tier):
    op = lambda: g.pick((5, lambda: G.add_op(g, ("auto",), 0.85, owners=False, min_files=2, max_files=5)), (1, lambda: G.rm_op(g)), (1, lambda: G.user_op(g)))
    return {"ops": G.history(g, op, 2, 8 if tier == "quick" else 12), "root": g.choice(["", "r"]), "rules": G.rules(g, hi=2) if g.chance(0.4) else []}


def want(r, op, cls, ok, devs):
    return bool(cls & {"takeover", "force"})


def run_case(ctx, case):
    def also(r, i, op, cls, ok, res):
        if "takeover" in cls:
            ctx.nontrivial = True
        owner = {}
        for n, rec in (r.w.read_db(r.rel) or {}).items():
            for f in rec.get("files") or []:
                if not f.endswith("/"):
                    if f in owner:
                        ctx.fail("step %d %s: %s is listed by both %s and %s" % (i, M.describe(op), f, owner[f], n))
                    owner[f] = n
    M.run_history(ctx, case, want, also)
