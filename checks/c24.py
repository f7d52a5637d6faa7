"""C24 diversity-preserving selection."""
LEVEL = "model_checking"
ALGOS = ["NSGAII", "JGBL", "SMSEMOA", "SPEA2", "IBEA", "NSGAIII"]


def antichain(rng, d, n, v):
    """mutually non-dominated vectors, no value shared where possible"""
    if d == 2:
        xs = sorted(rng.sample(range(v + 1), min(n, v + 1)))
        ys = sorted(rng.sample(range(v + 1), len(xs)), reverse=True)
        return [list(p) for p in zip(xs, ys)]
    cols = [rng.sample(range(v + 1), min(n, v + 1)) for _ in range(d - 1)]
    t = [list(c) for c in zip(*cols)]
    order = sorted(t, key=sum)
    last = sorted(rng.sample(range(v + 1), len(t)), reverse=True)
    return [p + [w] for p, w in zip(order, last)]


def table(rng, algo, kind, n, d, v):
    m = 2 * n + 2
    if algo == "IBEA":
        t = [[0] * d, [v] * d] if kind == "rand" else [[0, v] + [0] * (d - 2), [v, 0] + [v] * (d - 2)]
        base = [[rng.randint(0, v) for _ in range(d)] for _ in range(m if kind != "dup" else 3)]
        if kind == "front":
            base = [[x, v - x] + [rng.randint(0, v) for _ in range(d - 2)] for x in (rng.randint(0, v) for _ in range(m))]
        t = t + [list(rng.choice(base)) for _ in range(m)]
        t = t[:2 * n] if rng.random() < .7 else t
        rng.shuffle(t)
        return t
    if kind == "front":
        t = antichain(rng, d, m, v)
    elif kind == "two":          # two layers, the first one too small or too large
        a = antichain(rng, d, m, v)
        t = [[c + (1 if i % rng.choice([2, 3]) == 0 else 0) * rng.choice([1, 2]) for c in p] for i, p in enumerate(a)]
        t = [[min(v, c) for c in p] for p in t]
    elif kind == "dup":
        b = antichain(rng, d, n + 1, v)
        t = [list(rng.choice(b)) for _ in range(m)]
    elif kind == "even":         # equally spaced: neighbours at the same distance, decided further away
        w = max(1, v // max(1, m))
        t = [[i * w + rng.choice([0, 0, 0, 1]), v - i * w] + [v // 2] * (d - 2) for i in range(m)]
        t = [[max(0, min(v, c)) for c in p] for p in t]
    elif kind == "deep":         # few values, many dominated ones
        t = [[rng.randint(0, 6) for _ in range(d)] for _ in range(m)]
    else:
        t = [[rng.randint(0, v) for _ in range(d)] for _ in range(m)]
    rng.shuffle(t)
    return t


def run(ctx):
    import vlib
    ctx.design("DiversityMC")
    if ctx.thorough:
        ctx.design("DiversityMC", "DiversityMC5.cfg")
    r = ctx.tlc("DiversityMC", "DiversityMCFlat.cfg", expect_ok=False, label="negative control: any candidates of the right number")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    g2 = [g["set"] for g in ctx.generate("ParetoMC", "ParetoGen6.cfg")]
    scs = []
    for a in ALGOS:
        for i in range(800 if ctx.thorough else 100):
            t = [list(p) for p in rng.choice(g2)]
            rng.shuffle(t)
            scs.append({"id": "%s-gen%d" % (a, i), "algo": a, "n": 5 if a == "SMSEMOA" else 3, "table": t, "more": t, "v": 2, "steps": 3, "final": rng.random() < .7,
                        "ref": rng.choice([0, 1])})
        for i in range(1600 if ctx.thorough else 200):
            d = rng.choice([2, 2, 3, 3, 4]) if a in ("NSGAII", "JGBL", "NSGAIII") else rng.choice([2, 2, 3])
            kind = ["front", "two", "rand", "even", "dup", "front", "deep"][i % 7]
            n = rng.choice([3, 4, 5, 6]) if a in ("IBEA", "SPEA2") else rng.choice([3, 4, 6, 8])
            v = rng.choice([2, 3, 4]) if a == "IBEA" else rng.choice([18, 25, 40]) if d < 4 else 20
            t = table(rng, a, kind, n, d, v)
            scs.append({"id": "%s-%s%d" % (a, kind, i), "algo": a, "n": n, "table": t, "more": t, "v": v, "steps": {"SMSEMOA": 6}.get(a, 3), "final": rng.random() < .5,
                        "mating": rng.choice([1.0, 1.0, .5]), "ref": rng.choice([0, 1, 5])})
    traces = ctx.harness("h_divers", scs, timeout=800)
    cuts = [(t["id"].split("-")[0], e) for t in traces for e in t["ev"] if e["k"] == "cut"]
    for a in ALGOS:
        if a == "NSGAIII":                   # seen through its public reference_points
            continue
        ctx.need("selections_" + a, sum(b == a for b, _ in cuts), 200)
        if a != "JGBL":
            ctx.need("selections_that_discard_" + a, sum(b == a and len(e["kept"]) < len(e["offered"]) for b, e in cuts), 200)
    ctx.sample({"id": traces[0]["id"], "cfg": traces[0]["cfg"], "ev": traces[0]["ev"][:2]})
    ctx.report(ctx.validate("DiversityTrace", traces))
    ctx.assumptions = ["objective values are whole numbers scaled by powers of two; IBEA's kappa is set so that its exponential sums order candidates by how often every indicator value occurs",
                       "crowding is judged in layers whose members share no value"]
