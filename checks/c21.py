"""C21 rankings and indicator statistics."""
import math
LEVEL = "model_checking"
NAMES = ["NSGAII", "HGS+SPEA2", "IMGA+OMOPSO", "JGBL", "SPEA2"]


def dominates(p, q):
    return all(a <= b for a, b in zip(p, q)) and p != q


def nondom(pop):
    return [p for p in pop if not any(dominates(q, p) for q in pop)]


def sq(p, q):
    return sum((a - b) ** 2 for a, b in zip(p, q))


def rooted(a, b):
    """is 2 sqrt(a / b) a whole number?"""
    x = 4 * a
    return x % b == 0 and math.isqrt(x // b) ** 2 == x // b


def regular(pop, front):
    nd = nondom(pop)
    n = len(nd)
    if not rooted(sum(min(sq(p, f) for f in front) for p in nd), n) or not rooted(sum(min(sq(p, f) for p in pop) for f in front), len(front)):
        return False
    if n < 2:
        return True
    g = [min(sum(abs(a - b) for a, b in zip(nd[i], nd[j])) for j in range(n) if j != i) for i in range(n)]
    return rooted(n * sum(x * x for x in g) - sum(g) ** 2, n * (n - 1))


def shape(rng, top):
    k = rng.random()
    x = rng.randrange(top + 1)
    if k < 0.25:
        pop = [[x, 0]]
    elif k < 0.5:
        pop = [[x, 0], [0, x]]
    elif k < 0.6:
        pop = [[3 * (x // 4), 4 * (x // 4)]]
    elif k < 0.75:
        a, b = sorted(rng.sample(range(top + 1), 2))
        pop = [[a, b], [b, a], [rng.randrange(top + 1), rng.randrange(top + 1)]]
    else:
        pop = [[rng.randrange(top + 1), rng.randrange(top + 1)] for _ in range(rng.randrange(1, 6))]
    if rng.random() < 0.3:
        q = rng.choice(pop)
        pop.append([q[0] + rng.randrange(3), q[1] + rng.randrange(3)])
    if rng.random() < 0.2:
        pop.append(list(rng.choice(pop)))
    rng.shuffle(pop)
    return pop


def population(rng, front, single, near, top=20):
    while True:
        if near and rng.random() < 0.6:      # close to somebody else's
            pop = [[max(0, c + rng.choice([0, 0, 0, 1, -1])) for c in p] for p in rng.choice(near)]
        else:
            pop = shape(rng, top)
        if single or regular(pop, front):
            return pop


def prob(rng, nalg):
    single = rng.random() < 0.5
    front = rng.choice([[[0, 0]], [[0, 0]], [[1, 3], [3, 1]], [[0, 4], [2, 2], [4, 0]], [[0, 3], [4, 0]]])
    if not single:
        front = rng.choice([[[0, 0]], [[0, 0]], [[0, 6], [6, 0]]])
    budgets = sorted(rng.sample([40, 40 * 5, 500, 900, 1500, 2600], rng.randrange(1, 5)) + ([40] if rng.random() < 0.5 else []))
    budgets = sorted(set(budgets))
    algos, seen = [], []
    for a in range(nalg):
        runs = 1 if single else rng.randrange(1, 4)
        cps, acc = [], 0
        mine = [b for b in budgets if rng.random() < 0.85]
        if rng.random() < 0.06:
            mine = []
        upto = [runs] * len(mine)
        for r in range(1, runs):            # later runs may have been cut short
            if rng.random() < 0.2:
                k = rng.randrange(len(mine) + 1)
                upto = [min(u, r) if i >= k else u for i, u in enumerate(upto)]
        heavy = rng.random()
        last = mine[-1] if mine else 0
        for b, n in zip(mine, upto):
            if n == 0:
                continue
            base = rng.choice([b, b + 100, b + 499, b + 500, b + 501, last + 500, last + 501, last + 900] if heavy < 0.5 else
                              [last + 400, last + 500, last + 501, last + 2000] if heavy < 0.75 else [b, b + 20])
            costs = [base] * n
            if n > 1 and rng.random() < 0.5:
                d = rng.randrange(1, 60)
                costs[0] += d
                costs[1] -= d
            pops = []
            for r in range(n):
                pops.append(population(rng, front, single, seen))
                seen.append(pops[-1])
            cps.append({"b": b, "c": costs, "pops": pops})
        algos.append(cps)
    return {"front": front, "sq": single, "algos": algos}


def run(ctx):
    import vlib
    ctx.design("RankMC", "RankMCScan.cfg")
    ctx.design("RankMC", "RankMCInd.cfg")
    ctx.design("RankMC", "RankMCTies.cfg")
    r = ctx.tlc("RankMC", "RankMCScanFlat.cfg", expect_ok=False, label="negative control: the allowance does not grow backwards")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    items = []
    for g in ctx.generate("RankMC", "RankGenScan.cfg"):
        items.append({"k": "accept", "cps": g})
    for g in ctx.generate("RankMC", "RankGenInd.cfg"):
        allp = nondom([list(p) for p in set(map(tuple, g["pop"] + g["front"]))])
        items.append({"k": "ind", "pop": g["pop"], "front": g["front"], "all": allp, "tuples": rng.random() < 0.5})
    exhaustive = len(items)
    big = 8 if ctx.thorough else 1
    for i in range(2500 * big):
        m = rng.choice([2, 2, 3, 3, 4])
        top = rng.choice([3, 8, 30])
        pts = lambda n: [[rng.randrange(top + 1) for _ in range(m)] for _ in range(n)]
        pop, front = pts(rng.choice([1, 2, 3, 5, 9])), nondom([list(p) for p in set(map(tuple, pts(rng.choice([1, 2, 4, 7]))))])
        if rng.random() < 0.2:
            pop += [list(rng.choice(front)) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.2:
            pop = [list(p) for p in front]
        if rng.random() < 0.3:
            pop.append(list(rng.choice(pop)))
        rng.shuffle(pop)
        others = pts(rng.randrange(4)) if rng.random() < 0.8 else []
        it = {"k": "ind", "pop": pop, "front": front, "all": nondom([list(p) for p in set(map(tuple, pop + others))]), "tuples": rng.random() < 0.5}
        items.append(it)
        if rng.random() < 0.3:      # the same in another order
            p2 = list(pop)
            rng.shuffle(p2)
            items.append(dict(it, pop=p2))
    for i in range(2500 * big):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 20, 21, 30])
        style = rng.random()
        if style < 0.2:
            data = [rng.randrange(30)] * n
        elif style < 0.6:
            data = [10 + rng.randrange(6) for _ in range(n)]
        else:
            data = [rng.randrange(40) for _ in range(n)]
        for _ in range(rng.choice([0, 0, 1, 2])):
            data[rng.randrange(n)] = rng.choice([0, 1, 19, 25, 40, 60, 200])
        items.append({"k": "stat", "data": data})
    for i in range(1500 * big):
        bs = sorted(rng.sample(range(50, 4000, 50), rng.randrange(1, 7)))
        lim = bs[-1] + 500
        cps = [{"b": b, "c": [] if rng.random() < 0.05 else [rng.choice([b, b + 500, b + 501, lim, lim + 1, lim + 40, lim + 3000]) for _ in range(rng.randrange(1, 4))]} for b in bs]
        items.append({"k": "accept", "cps": cps})
    for i in range(1500 * big):
        n = rng.randrange(1, 7)
        top = rng.choice([5, 100, 1000])
        sc = [rng.randrange(top + 1) if rng.random() < 0.5 else rng.choice([top, top * 95 // 100, top * 96 // 100, top * 94 // 100, top - 1, 0]) for _ in range(n)]
        win = sc.index(max(sc) if rng.random() < 0.5 else min(sc)) + 1
        items.append({"k": "ties", "scores": sc, "win": win, "rate": rng.choice([5, 50, 50, 200])})
    rng.shuffle(items)
    scs = [{"id": "u%d" % i, "kind": "unit", "items": items[i:i + 60]} for i in range(0, len(items), 60)]
    ntrees = 2400 if ctx.thorough else 400
    for i in range(ntrees):
        nalg = rng.choice([1, 2, 3, 3, 4, 5])
        names = rng.sample(NAMES, nalg)
        scs.append({"id": "t%d" % i, "kind": "tree", "names": names, "probs": [prob(rng, nalg) for _ in range(rng.choice([1, 1, 2, 3]))],
                    "what": rng.sample(["rank", "detailed", "table"], rng.choice([1, 2, 3]))})
    rng.shuffle(scs)
    traces = ctx.harness("h_rank", scs, timeout=800)
    es = [e for t in traces for e in t["ev"]]
    by = lambda k: [e for e in es if e["k"] == k]
    ctx.need("indicator_sets", len(by("ind")), 8000)
    ctx.need("every_small_indicator_case", exhaustive, 8000)
    ctx.need("fronts_met_exactly", sum(e["gd"] == 0 for e in by("ind")), 300)
    ctx.need("run_statistics", len(by("stat")), 2000)
    ctx.need("with_outliers", sum(e["mild"] + e["extr"] > 0 for e in by("stat")), 300)
    ctx.need("checkpoint_choices", len(by("accept")), 1500)
    ctx.need("earlier_checkpoint_chosen", sum(0 < e["got"] < len(e["cps"]) for e in by("accept")), 200)
    ctx.need("none_acceptable", sum(e["got"] == 0 for e in by("accept")), 100)
    ctx.need("comparisons_with_ties", sum(len(e["got"]) > 0 for e in by("ties")), 300)
    ctx.need("rankings_printed", len(by("rank")) + len(by("detailed")) + len(by("table")), 600)
    ctx.need("single_winners", sum(y[1] % 2 == 0 for e in by("rank") for x in e["total"] for y in x["pts"]), 300)
    ctx.need("tables_with_ties", sum(any(x["ties"] for x in e["won"]) for e in by("table")), 60)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][:3]})
    ctx.report(ctx.validate("RankTrace", traces))
    ctx.assumptions = ["whole rankings are compared over populations whose scores are exactly comparable (single runs, or runs whose distances are multiples of one half)",
                       "scores exactly at the tolerance may or may not count as ties (rounding decides)",
                       "bootstrapped confidence limits are only required to lie within the data"]
