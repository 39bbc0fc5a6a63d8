import pkggen as G, pkgmodel as M
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing (random histories against a reference model of root and database)"
NOTE = ("Exploration: the whole tree and database are compared with a reference model after every step of each generated history; "
        "trusts the model (lib/pkgmodel.py) and Python's tarfile as package writer.")
EXAMPLES = {"quick": 800, "thorough": 20000}
RULE = ("Generated histories of package installs, upgrades, removals and user edits on a scratch root; after every step "
        "the whole tree and the package database are compared with a reference model. Non-trivial: at least two "
        "packages were installed or upgraded successfully in the history.")
WANTED = {"install", "upgrade"}


def gen(g, tier):
    op = lambda: g.pick((5, lambda: G.add_op(g, ("auto", "auto", "auto", "auto", "n", "u"), 0.7)), (1.5, lambda: G.rm_op(g)), (1.5, lambda: G.user_op(g)))
    return {"ops": G.history(g, op, 2, 8 if tier == "quick" else 12), "rules": G.rules(g, hi=2), "root": g.choice(["", "r"])}


def run_case(ctx, case):
    r, n = M.run_history(ctx, case, WANTED)
    ctx.nontrivial = n >= 2
