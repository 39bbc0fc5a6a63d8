import pkggen as G, pkgmodel as M
NEEDS = ["sbx", "shim", "pkgadd"]
LEVEL = "exploration"
TECHNIQUE = "model-based property testing (upgrade histories against a reference model)"
NOTE = "Exploration: whole-tree, rejected-tree and database comparison with the model after every upgrade; trusts the model."
EXAMPLES = {"quick": 750, "thorough": 15000}
RULE = ("Generated histories in which few package names are upgraded repeatedly to versions with other file sets, under UPGRADE rules, user "
        "edits and deletions, files that two records list, with packages marked automatic or not; after every upgrade the tree, the rejected tree and the database are "
        "compared with the model. Non-trivial: an upgrade that dropped obsolete files, kept a file by rule or kept the automatic mark.")
NAMES = ["aa", "libcc"]


def gen(g, tier):
    g.nodes = 0.8 if g.chance(0.1) else 0.03
    # directories that several packages list and none has files in
    kw = {"dirs": g.sub(G.DIRS, 2, 3)} if g.chance(0.2) else {}
    share = g.chance(0.3)
    op = lambda: g.pick((6, lambda: G.add_op(g, ("auto",), 0.8, names=NAMES + ["bb", "libcc.devel"], owners=False, max_files=5, **kw)), (1, lambda: {"op": "auto", "n": g.choice(NAMES)}),
                        (0.7, lambda: G.rm_op(g)), (2, lambda: G.user_op(g)), (0.5 if share else 0, lambda: {"op": "share", "p": g.randrange(30), "n": g.randrange(5)}))
    ops = G.history(g, op, 2, 9 if tier == "quick" else 14)
    if g.chance(0.12):
        # reinstalled after the administrator changed something
        again = G.add_op(g, names=NAMES, owners=False, max_files=4)
        ops = ops[:2] + [again] + [G.user_op(g) if g.chance(0.3) else {"op": "perm", "p": g.randrange(30), "m": g.choice([0, 0, 0o640, 0o755]), "own": g.choice([[], [0, 42], [5, 0], [5, 42]])} for _ in range(g.randint(1, 4))] + [dict(again)]
    return {"ops": ops, "root": g.choice(["", "r"]),
            "rules": G.rules(g, ("UPGRADE",) if g.chance(0.5) else ("UPGRADE", "INSTALL"), hi=3)}


def run_case(ctx, case):
    def also(r, i, op, cls, ok, res):
        if "upgrade" in cls and cls & {"obsolete-files", "kept", "auto-kept"}:
            ctx.nontrivial = True
    M.run_history(ctx, case, {"upgrade"}, also)
