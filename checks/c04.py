import pkggen as G, pkgmodel as M
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing (install/remove histories against a reference model)"
NOTE = "Exploration: whole-tree and database comparison with the model after every removal; trusts the model."
EXAMPLES = {"quick": 800, "thorough": 16000}
RULE = ("Generated histories of installs, upgrades, user edits and removals with shared files and directories and overlapping files; after every "
        "removal the whole tree and database are compared with the model. Non-trivial: a package was removed while another one was "
        "installed or while foreign files kept one of its directories.")


def gen(g, tier):
    # directories that several packages list and none has files in
    kw = {"dirs": g.sub(G.DIRS, 2, 3)} if g.chance(0.3) else {}
    share = g.chance(0.3)
    op = lambda: g.pick((4, lambda: G.add_op(g, ("auto",), 0.7, owners=False, max_files=5, **kw)), (3, lambda: G.rm_op(g)), (1.5, lambda: G.user_op(g)), (0.5 if share else 0, lambda: {"op": "share", "p": g.randrange(30), "n": g.randrange(5)}))
    return {"ops": G.history(g, op, 2, 9 if tier == "quick" else 14), "root": g.choice(["", "r"]), "rules": G.rules(g, hi=2) if g.chance(0.3) else []}


def run_case(ctx, case):
    def also(r, i, op, cls, ok, res):
        if "remove" in cls and (r.m.db or "dir-kept" in cls or "shared" in cls):
            ctx.nontrivial = True
    M.run_history(ctx, case, {"remove"}, also)
