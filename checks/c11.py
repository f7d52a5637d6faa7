"""C11 sequential hierarchical strategy: life cycle of demes."""
LEVEL = "model_checking"
RATES = [[500, 500, 500], [1000, 0, 1000], [1000, 1000, 0], [0, 1000, 0], [300, 600, 900], [900, 0, 300]]


def generated(ctx, num):
    return ctx.generate("HgsGen", args=("-simulate", "num=%d" % num, "-depth", "12", "-seed", str(ctx.seed)), workers=4)


def configs(rng):
    return {"dist2": [rng.choice([1, 1, 3, 5]) for _ in range(3)], "ratio": [rng.choice([10, 10, 300, 700, 1300]) for _ in range(3)],
            "maxlevel": rng.choice([0, 1, 2, 2, 2]), "limit": rng.choice([1, 2, 3, 5, 16]), "sproutiveness": rng.choice([1, 2, 3]),
            "len": [rng.choice([1, 1, 2, 3]) for _ in range(3)], "sizes": [rng.choice([1, 2, 3, 4]) for _ in range(3)], "rates": rng.choice(RATES)}


def scenarios(ctx, prefix=""):
    rng = ctx.rng
    gen = generated(ctx, 120 if ctx.thorough else 30)
    scs = []
    for i, g in enumerate(gen if ctx.thorough else rng.sample(gen, min(len(gen), 420))):
        scs.append({"id": "%sgen%d" % (prefix, i), "cfg": g["cfg"], "hist": g["hist"], "steps": len(g["hist"]) + 1})
    for s in scs:
        s["cfg"]["rates"] = rng.choice(RATES)
    for i in range(1500 if ctx.thorough else 260):
        scs.append({"id": "%srnd%d" % (prefix, i), "cfg": configs(rng), "steps": rng.choice([6, 9, 14]), "xs": rng.choice([[0, 1, 2, 4, 6], [0, 2, 4, 6, 8, 9], [3, 4], list(range(10))]),
                    "gs": rng.choice([[0, 1, 2, 4], [0, 0, 0, 1], [1, 2, 3]]), "shrink": i % 4 == 0})
    return gen, scs


def summarise(ctx, traces, scale=1.0):
    hs = [e for t in traces for e in t["ev"] if e["k"] == "hstep"]
    ctx.need("strategy_steps_checked", len(hs), int(4000 * scale))
    ctx.need("sprouts_released", sum(len(e["parents"]) for e in hs), int(1500 * scale))
    ctx.need("deaths", sum(1 for t in traces for a, b in zip(t["ev"], t["ev"][1:]) if b["k"] == "hstep" and a["k"] == "hstep"
                           for x, y in zip(a["alive"], b["alive"]) if x and not y), int(1000 * scale))
    ctx.need("revivals", sum(1 for t in traces for a, b in zip(t["ev"], t["ev"][1:]) if b["k"] == "hstep" and a["k"] == "hstep"
                             for x, y in zip(a["alive"], b["alive"]) if y and not x), int(100 * scale))
    ctx.need("deepest_level_demes", sum(e["lvls"].count(2) for e in hs), int(100 * scale))


def run(ctx):
    ctx.design("HgsMC", "HgsMC6.cfg" if ctx.thorough else None)
    gen, scs = scenarios(ctx)
    traces = ctx.harness("h_hgs", scs, timeout=850)
    ctx.need("tlc_generated_histories", len(gen), 300)
    summarise(ctx, traces)
    made = [(t["cfg"], e) for t in traces for e in t["ev"] if e["k"] == "made"]
    ctx.need("sprouts_with_their_parameters", len(made), 1500)
    ctx.need("sprouts_of_levels_that_do_not_vary", sum(c["params"][e["lvl"]][1] == 0 for c, e in made), 300)
    ctx.sample({"id": traces[0]["id"], "cfg": traces[0]["cfg"], "ev": traces[0]["ev"][:4]})
    ctx.report(ctx.validate("HgsTrace", traces))
    ctx.assumptions = ["demes are scripted algorithms under the documented driver interface; positions and hypervolumes avoid exact ties with thresholds",
                       "status is read from the alive, ripe, level, sprouts and population attributes of the demes"]
