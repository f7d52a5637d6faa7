"""C05 search box and population size."""
LEVEL = "model_checking"
ALGOS = ["NSGAII", "NSGAIII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS"]
BOX = ["unit", "asym", "neg", "tiny", "big", "mixed", "odd"]
OBJ = ["conflict", "corner", "ucorner", "flat", "front", "basin"]


def run(ctx):
    ctx.design("BoxPopMC")
    gen = ctx.generate("BoxPopMC", "BoxPopGen.cfg")
    rng = ctx.rng
    scs = []
    pick = rng.sample(gen, 1600 if ctx.thorough else 400)
    for i, g in enumerate(pick):
        a = ALGOS[i % 8]
        scs.append({"id": "%s-gen%d" % (a, i), "algo": a, "init": g["init"], "box": rng.choice(BOX), "obj": rng.choice(OBJ),
                    "mrate": rng.choice([0.0, 0.5, 1.0, 1.0]), "crate": rng.choice([0.0, 0.9, 1.0]), "steps": 6})
    for i in range(240 if ctx.thorough else 80):
        a = ALGOS[i % 8]
        nd = rng.choice([1, 2, 3, 5, 9, 30]) if a not in ("JGBL",) else rng.choice([2, 3, 5, 9])
        n = rng.choice([2, 3, 5, 8, 10, 16, 31])
        if a == "SPEA2":
            n = max(n, 2)
        init = [[rng.choice([1, 2, 2, 2, 3]) for _ in range(nd)] for _ in range(n)]
        if i % 3 == 0:
            init[-1] = [1] * nd
            init[0] = [1] * nd                    # duplicates, on a corner
        scs.append({"id": "%s-rnd%d" % (a, i), "algo": a, "init": init, "box": rng.choice(BOX), "obj": rng.choice(OBJ),
                    "mrate": rng.choice([0.0, 0.1, 1.0]), "crate": rng.choice([0.0, 0.9, 1.0]), "steps": 25 if n < 20 else 10,
                    "budget": bool(i % 2)})
    # sizes that do not divide evenly, many generations
    for i in range(160 if ctx.thorough else 48):
        a = (ALGOS + ["NSGAIII"] * 4)[i % 12]
        n, nd = rng.choice([3, 4, 5, 7, 9]), rng.choice([2, 3, 4])
        scs.append({"id": "%s-size%d" % (a, i), "algo": a, "init": [[rng.choice([1, 2, 2, 3]) for _ in range(nd)] for _ in range(n)], "box": rng.choice(BOX),
                    "obj": rng.choice(OBJ), "mrate": rng.choice([0.1, 0.5]), "crate": rng.choice([0.0, 0.9]), "steps": 40, "every": True})
    # the operators' arithmetic at the ends of their random numbers' range
    for i in range(320 if ctx.thorough else 96):
        a = ALGOS[i % 8]
        n, nd = rng.choice([4, 6, 8]), rng.choice([2, 3, 5])
        scs.append({"id": "%s-extr%d" % (a, i), "algo": a, "init": [[rng.choice([1, 2, 2, 2, 3]) for _ in range(nd)] for _ in range(n)], "box": BOX[i // 8 % 7],
                    "obj": rng.choice(["corner", "ucorner", "conflict", "front"]), "mrate": rng.choice([0.0, 0.5, 1.0]), "crate": rng.choice([0.9, 1.0]), "steps": 12, "extreme": True})
    # everything non-dominated: genes jump
    for i in range(12):
        scs.append({"id": "JGBL-jump%d" % i, "algo": "JGBL", "init": [[2] * rng.choice([4]) for _ in range(12)], "box": BOX[i % 7], "obj": "front",
                    "mrate": 0.1, "crate": 0.9, "steps": 15, "jump": (1.0, 0.5)})
        scs.append({"id": "JGBL-jumpb%d" % i, "algo": "JGBL", "init": [[rng.choice([1, 3]) for _ in range(4)] for _ in range(12)], "box": BOX[i % 7],
                    "obj": "front", "mrate": 0.0, "crate": 0.0, "steps": 15, "jump": (1.0, 0.5)})
    # small populations around a common optimum, where a local search may improve nobody
    for i in range(400 if ctx.thorough else 160):
        scs.append({"id": "NSLS-basin%d" % i, "algo": "NSLS", "init": [[2]] * rng.choice([2, 2, 2, 3]), "box": "unit", "obj": "basin",
                    "mrate": 1.0, "crate": 1.0, "steps": 60, "every": False, "limit": 60})
    traces = ctx.harness("h_box", scs, timeout=850)
    ctx.need("tlc_generated_scenarios", len(pick), 400)
    ctx.need("algorithm_runs", len(scs), 480)
    ctx.need("individuals_checked", sum(len(e.get("cur", [])) + len(e.get("final", [])) for t in traces for e in t["ev"]), 50000)
    ctx.sample({"id": traces[-1]["id"], "cfg": traces[-1]["cfg"], "ev": traces[-1]["ev"][:2]})
    ctx.report(ctx.validate("BoxPopTrace", traces))
    ctx.assumptions = ["populations are read through the documented population attribute and finalized_population()",
                       "non-degenerate boxes, at least two individuals"]
