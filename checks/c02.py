"""C02 timed runs."""
LEVEL = "model_checking"


def run(ctx):
    ctx.design("TimeRunMC")
    gen = ctx.generate("TimeRunMC", "TimeRunGen.cfg")
    rng = ctx.rng
    scs = []
    pick = gen if ctx.thorough else rng.sample(gen, min(len(gen), 1500))
    for i, g in enumerate(pick):
        scs.append(dict(g, id="job%d" % i, mode="job", lag=rng.choice([0, 0, 1, 9])))
        if i % 2 == 0 and g["step"] % 4 == 0 and g["timeout"] % 4 == 0:
            scs.append(dict(g, id="work%d" % i, mode="work", algo="SCRT", fin=rng.choice([0, 0, 2, 9]), holds=["plain", "live", "close", "plain", "large"][i // 2 % 5]))
    for i in range(600 if ctx.thorough else 200):
        k = rng.randint(1, 9)
        T = rng.randint(1, 80)
        scs.append({"id": "rnd%d" % i, "mode": "job", "step": k, "timeout": T, "lag": rng.choice([0, 3]),
                    "durs": [rng.choice([1, 1, 2, 3, k, 2 * k, 3 * k + 1, 17]) for _ in range(90)]})
        scs.append({"id": "rndw%d" % i, "mode": "work", "algo": "SCRT", "holds": rng.choice(["plain", "live", "close", "large"]), "step": 4 * rng.randint(1, 4), "timeout": 4 * rng.randint(4, 25),
                    "fin": rng.choice([0, 5]), "durs": [rng.choice([1, 2, 3, 4, 8, 13]) for _ in range(130)]})
    # steps that end just before, at and just after a sampling instant
    for i in range(600 if ctx.thorough else 150):
        per = rng.choice([2 ** 8, 2 ** 12, 2 ** 20])
        k = rng.choice([1, 1, 2, 3])
        T = k * rng.randint(1, 6) + rng.choice([0, 0, 1])
        durs, at, steps = [], 0, 0
        while at < (T + 2 * k) * per:
            nxt = ((at // (k * per)) + rng.choice([1, 1, 1, 2, 3])) * k * per + rng.choice([-1, -1, 0, 1, 2, -3])
            nxt = rng.choice([nxt, nxt, at + rng.choice([1, 2, per // 2, k * per])])
            if nxt > at:
                durs.append(nxt - at)
                at = nxt
        g = {"per": per, "step": k * per, "timeout": T * per, "durs": durs}
        scs.append(dict(g, id="edge%d" % i, mode="job", lag=rng.choice([0, 1, 5])))
        scs.append(dict(g, id="edgew%d" % i, mode="work", algo="SCRT", fin=rng.choice([0, 1, per])))
    real = []
    chains = ["NSGAII", "SPEA2", "IBEA", "OMOPSO", "NSLS", "SMSEMOA", "JGBL", "NSGAIII", "IMGA+NSGAII", "HGS+NSGAII"]
    for a in chains:
        for j in range(2 if ctx.thorough else 1):
            real.append({"id": "real-%s-%d" % (a, j), "mode": "work", "algo": a, "step": 4 * (1 + j), "timeout": 16 + 8 * j, "limit": 300,
                         "popsize": 64 if "+" in a else 16})
    traces = ctx.harness("h_time", real, timeout=800) + ctx.harness("h_time", scs, timeout=800)
    ctx.need("tlc_generated_scenarios", len(pick), 500)
    ctx.need("real_algorithm_runs", len(real), 10)
    ctx.need("reports_checked", sum(1 for t in traces for e in t["ev"] if e["k"] == "emit"), 1000)
    ctx.need("files_checked", sum(len(e["files"]) for t in traces for e in t["ev"] if e["k"] == "files"), 1000)
    ctx.sample({"id": traces[-1]["id"], "cfg": traces[-1]["cfg"], "ev": traces[-1]["ev"][:12]})
    ctx.report(ctx.validate("TimeRunTrace", traces))
    ctx.assumptions = ["time is read through the standard clock functions of module time, which a virtual clock replaces",
                       "durations are multiples of a binary fraction of a second, so that floating-point sums are exact"]
