"""C09 island migration."""
LEVEL = "model_checking"
REAL = ["NSGAII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS", "NSGAIII"]


def run(ctx):
    ctx.design("IslandsMC")
    rng = ctx.rng
    gen = ctx.generate("IslandsMC", "IslandsGen.cfg")
    scs = []
    for i, g in enumerate(gen):
        n, deg = g["islands"], max([len(a) for a in g["adj"]] + [0])
        need = max(1, deg * g["migrants"])
        for v in range(2 if not ctx.thorough else 6):
            scs.append({"id": "scripted-gen%d-%d" % (i, v), "algo": "scripted", "islands": n, "migrants": g["migrants"], "adj": g["adj"],
                        "len": rng.choice([1, 2, 3, 5]), "pop": n * (need + rng.randint(0, 3)) + rng.randint(0, n - 1), "dups": (i + v) % 3 == 0,
                        "fresh": rng.choice([0, 1]), "epochs": 3})
        if ctx.thorough or i % 4 == 0:
            a = REAL[(i // 4) % 8 if not ctx.thorough else i % 8]
            scs.append({"id": "%s-gen%d" % (a, i), "algo": a, "islands": n, "migrants": g["migrants"], "adj": g["adj"], "len": rng.choice([1, 2, 3]),
                        "pop": n * max(6, need + 2) + rng.randint(0, n - 1), "epochs": 2, "mrate": rng.choice([1.0, 1.0, 0.0])})
    for i in range(160 if ctx.thorough else 48):
        a = (["scripted"] + REAL)[i % 9]
        n = rng.choice([1, 2, 3, 4, 6, 9, 11])
        m = rng.choice([0, 1, 3, 5])
        scs.append({"id": "%s-torus%d" % (a, i), "algo": a, "islands": n, "migrants": m, "width": rng.choice([2, 3, 4, 4]), "len": rng.choice([1, 2, 5]),
                    "pop": n * (6 * m + 4) + rng.randint(0, n - 1), "epochs": 2, "limit": 200})
    traces = ctx.harness("h_islands", scs, timeout=850)
    ep = [e for t in traces for e in t["ev"] if e["k"] == "epoch"]
    ctx.need("tlc_generated_neighbourhoods", len(gen), 300)
    ctx.need("epochs_checked", len(ep), 2000)
    ctx.need("epochs_with_migrants", sum(e["before"] != e["after"] for e in ep), 1000)
    ctx.need("epochs_with_identifiable_origin", sum(e["uniq"] for e in ep), 1000)
    ctx.sample({"id": traces[0]["id"], "cfg": traces[0]["cfg"], "ev": traces[0]["ev"][:2]})
    ctx.report(ctx.validate("IslandsTrace", traces))
    ctx.assumptions = ["islands hold at least as many individuals as they must send", "populations are read through the population attribute",
                       "the number of migrants per pair is judged when no vector is held by two islands before migration (always so except with duplicate inputs)"]
