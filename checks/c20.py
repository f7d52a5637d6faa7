"""C20 hypervolume."""
LEVEL = "model_checking"


def rand_set(rng, m, top, n):
    pts = []
    style = rng.random()
    while len(pts) < n:
        if style < 0.4:
            p = [rng.randrange(top + 1) for _ in range(m)]
        elif style < 0.7:       # near an anti-diagonal front, many ties
            p = [rng.randrange(top + 1) for _ in range(m - 1)]
            p.append(max(0, top - sum(p) // max(1, m - 1) + rng.choice([0, 0, 1, -1])))
        else:
            p = [rng.choice([0, 1, top // 2, top - 1, top]) for _ in range(m)]
        pts.append(p)
        if rng.random() < 0.15:
            pts.append(list(rng.choice(pts)))
    return pts[:n]


def run(ctx):
    import vlib
    ctx.design("HypervolMC", "HypervolMCDeep.cfg")
    ctx.design("HypervolMC")
    r = ctx.tlc("HypervolMC", "HypervolMCTies.cfg", expect_ok=False, label="negative control: ties left out")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    items = []
    for cfg in ("HypervolGen2.cfg", "HypervolGen3.cfg", "HypervolGen4.cfg"):
        for g in ctx.generate("HypervolMC", cfg):
            items.append({"pts": [list(p) for p in g["pts"]], "ref": [g["r"]] * g["m"], "how": rng.choice(["scaled", "int"]), "shuffle": True,
                          "tuples": rng.random() < 0.3, "reuse": rng.random() < 0.5})
    exhaustive = len(items)
    for i in range(30000 if ctx.thorough else 3000):
        m = rng.choice([2, 3, 3, 3, 4, 4, 5, 5, 5, 6])
        top = rng.choice([3, 6, 12, 40] if m < 4 else [2, 3, 4, 6] if m < 6 else [2, 3, 4])
        n = rng.choice([1, 2, 4, 8, 12, 20] if m < 4 else [1, 3, 5, 6, 10] if m < 6 else [2, 4, 5, 6])
        pts = rand_set(rng, m, top, n)
        if m < 6 and rng.random() < 0.3:     # (50 to the sixth leaves the range of the model checker)
            ref = [50] * m
            items.append({"pts": [[min(60, c * rng.choice([1, 4])) for c in p] for p in pts] if m < 4 else pts, "ref": ref, "how": "metric", "shuffle": True})
        else:
            ref = [rng.choice([top + 1, top, max(1, top - 1)]) for _ in range(m)]
            items.append({"pts": pts, "ref": ref, "how": rng.choice(["scaled", "scaled", "int"]), "shuffle": True, "tuples": rng.random() < 0.3, "reuse": rng.random() < 0.3})
        if rng.random() < 0.25:     # the same set again: other order, duplicates, dominated points
            it = dict(items[-1])
            q = [list(p) for p in it["pts"]] + [list(rng.choice(it["pts"])) for _ in range(2)] + [[c + 1 for c in rng.choice(it["pts"])]]
            items.append(dict(it, pts=q))
    rng.shuffle(items)
    scs = [{"id": "hv%d" % i, "items": items[i:i + 40]} for i in range(0, len(items), 40)]
    traces = ctx.harness("h_hypervol", scs, timeout=800)
    es = [e for t in traces for e in t["ev"]]
    ctx.need("sets_measured", len(es), 8000)
    ctx.need("every_set_of_the_small_grids", exhaustive, 5000)
    ctx.need("with_four_or_more_objectives", sum(len(e["ref"]) > 3 for e in es), 1500)
    ctx.need("of_positive_measure", sum(e["v"] > 0 for e in es), 6000)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][:3]})
    ctx.report(ctx.validate("HypervolTrace", traces))
    ctx.assumptions = ["coordinates are dyadic multiples of small integers, for which the floating-point arithmetic involved is exact",
                       "two to six objectives, up to about twenty points"]
