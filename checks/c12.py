"""C12 hierarchical accounting."""
LEVEL = "model_checking"
REAL = ["NSGAII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS", "NSGAIII"]
SHAPES = ["plain", "negative", "mixed", "three"]


def run(ctx):
    ctx.design("HgsCostMC")
    rng = ctx.rng
    scs = []
    for i in range(900 if ctx.thorough else 150):
        scs.append({"id": "scripted%d" % i, "algo": "scripted", "shape": SHAPES[i % 4], "mod8": [rng.choice([1, 4, 8, 12, 20]) for _ in range(3)],
                    "noise": [rng.random() < 0.3 for _ in range(3)], "bits": rng.choice([[4, 16, 64], [1, 3, 8], [2, 52, 60], [10, 20, 30], [30, 12, 4], [64, 9, 2], [8, 3, 5]]),
                    "sizes": [rng.choice([3, 5]), rng.choice([1, 3]), rng.choice([1, 2])], "len": [rng.choice([1, 2, 3]) for _ in range(3)],
                    "ratio": rng.choice([0.0, 0.5, 3.0]), "steps": rng.choice([4, 8, 10])})
    for i in range(160 if ctx.thorough else 40):
        a = REAL[i % 8]
        scs.append({"id": "%s-%d" % (a, i), "algo": a, "shape": SHAPES[(i // 8 + i) % (3 if a == "SMSEMOA" else 4)] if a != "OMOPSO" else "plain", "mod8": [rng.choice([1, 4, 8, 12, 20]) for _ in range(3)],
                    "noise": [False] * 3 if i % 3 else [rng.random() < 0.4 for _ in range(3)], "bits": rng.choice([[4, 16, 64], [2, 8, 30], [40, 12, 4]]),
                    "sizes": [rng.choice([12, 16]), 8, 6], "len": [2, 1, 2], "ratio": rng.choice([0.5, 3.0]), "steps": 6 if a not in ("NSLS", "SMSEMOA") else 4, "limit": 300})
    for i in range(40 if ctx.thorough else 12):
        a = [x for x in REAL if x != "OMOPSO"][i % 7]
        scs.append({"id": "tiny-%s-%d" % (a, i), "algo": a, "shape": "tiny", "mod8": [8, 4, 12], "noise": [False] * 3, "bits": [40, 46, 64],
                    "sizes": [12, 8, 6], "len": [2, 1, 2], "ratio": 0.5, "steps": 5, "limit": 300})
    for i in range(240 if ctx.thorough else 56):        # the distributed variant's demes
        a = (["scripted"] * 3 + REAL)[i % 11]
        scs.append({"id": "dist-%s-%d" % (a, i), "dist": True, "algo": a, "shape": "plain" if a == "OMOPSO" else rng.choice(SHAPES[:3 if a == "SMSEMOA" else 4]), "mod8": [8, 4, 12],
                    "noise": [rng.random() < 0.3 for _ in range(3)], "bits": rng.choice([[4, 16, 64], [2, 8, 30], [40, 12, 4], [10, 3, 5], [60, 9, 2]]),
                    "sizes": [12, 8, 6] if a != "scripted" else [5, 3, 2], "len": [2, 1, 2], "ratio": rng.choice([0.5, 3.0]), "steps": 9 if a == "scripted" else 6, "limit": 300})
    traces = ctx.harness("h_hgscost", scs, timeout=850)
    cs = [e for t in traces for e in t["ev"] if e["k"] == "cstep"]
    ctx.need("accounting_steps_checked", len(cs), 1000)
    ctx.need("steps_with_several_levels", sum(len(set(e["lvl"])) > 1 for e in cs), 300)
    ds = [e for t in traces if t["id"].startswith("dist") for e in t["ev"]]
    ctx.need("readings_of_distributed_demes", len(ds), 300)
    ctx.need("readings_below_the_root_of_distributed_demes", sum(e["k"] == "fit" and e["lvl"] > 0 for e in ds), 150)
    ctx.need("objective_reads_compared", sum(len(e["seen"]) for t in traces for e in t["ev"] if e["k"] == "fit"), 5000)
    ctx.sample({"id": traces[0]["id"], "cfg": traces[0]["cfg"], "ev": traces[0]["ev"][:3]})
    ctx.report(ctx.validate("HgsCostTrace", traces))
    ctx.assumptions = ["cost modifiers are multiples of one eighth", "the level of a deme is recognised by the level's own mutation parameter"]
