"""C15 runs are isolated from one another."""
LEVEL = "model_checking"
ALGOS = ["NSGAII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS", "NSGAIII"]
SMALL = {"DEFAULT_POPULATION_SIZE": 12}


def conf(rng):
    hgs = {"population_sizes": [8, 4, 3], "metaepoch_len": [1, 1, 1], "min_progress_ratio": [rng.choice([0.0, 50.0]), rng.choice([0.001, 50.0]), 50.0],
           "max_sprouts_no": rng.choice([0, 0, 6]), "sproutiveness": 2}
    c = dict(SMALL, algo={"HGS": hgs, "DHGS": dict(hgs), "IMGA": {"islands_number": rng.choice([2, 3]), "migrants_number": 1, "epoch_length": 1}})
    if rng.random() < 0.5:
        pop = [[round(rng.random(), 3) for _ in range(3)] for _ in range(12)]
        c["cust"] = [[[rng.choice(["SPEA2", "OMOPSO", "NSGAII", "JGBL"]), "TOY"], {"population": pop}], [["HGS", rng.choice(ALGOS), "TOY"], {"population": pop}]]
    return c


def run(ctx):
    ctx.design("IsolationMC")
    r = ctx.tlc("IsolationMC", "IsolationMCAlias.cfg", expect_ok=False, label="negative control: without copies the invariants fail")
    if not r.error or "violated" not in r.error:
        import vlib
        raise vlib.MachineryError("negative control did not fail")
    n = 1400 if ctx.thorough else 170
    gen = ctx.generate("IsolationMC", "IsolationGen.cfg", args=("-simulate", "num=%d" % (n * 3), "-depth", "11", "-seed", str(ctx.seed)), workers=4)
    rng = ctx.rng
    gen = [g for g in gen if any(o[0] in ("step", "fail", "work") for o in g["ops"])]
    rng.shuffle(gen)
    scs = []
    for i, g in enumerate(gen[:n]):
        combos = []
        for j in range(4):
            a = ALGOS[(i * 4 + j) % 8] if j % 2 == 0 else rng.choice(ALGOS)
            a = rng.choice([a, a, "IMGA+" + a, "HGS+" + a, "HGS+" + a, "DHGS+" + a])
            combos.append([a, rng.choice(["TOY", "TOY", "TOYNEG"] + (["ZDT1", "UF2"] if i % 6 == 0 else []))])
        if i % 5 == 0:
            combos[1] = combos[0]
        if any(c[1] == "TOYNEG" and ("OMOPSO" in c[0]) for c in combos):
            combos = [[a, "TOY"] for a, _ in combos]
        ops = [list(o) for o in g["ops"]]
        # let the instances go on after the history: what they do must still be what they do alone
        k = sum(o[0] == "new" for o in ops)
        gone = {o[1] for o in ops if o[0] in ("fail", "end")}
        tail = [["step", x, 0] for x in range(1, k + 1) if x not in gone] * 3
        rng.shuffle(tail)
        scs.append({"id": "iso%d" % i, "combos": combos, "conf": conf(rng), "ops": ops + tail + [["prep", 1 + rng.randrange(4), 0]]})
    traces = ctx.harness("h_isolation", scs, timeout=850)
    es = [e for t in traces for e in t["ev"]]
    ctx.need("histories", len(traces), 150)
    ctx.need("steps_compared_with_the_run_alone", sum(e["k"] == "step" for e in es), 500)
    ctx.need("whole_runs", sum(e["k"] == "work" for e in es), 130)
    ctx.need("failing_runs", sum(e["k"] == "fail" or (e["k"] == "work" and not e["expected"]) for e in es), 100)
    ctx.need("preparations_compared", sum(e["k"] == "prep" for e in es), 130)
    ctx.need("deterministic_baselines", sum(t.get("deterministic", 0) for t in traces), 500)
    ctx.sample({"id": traces[0]["id"], "combos": scs[0]["combos"], "ev": traces[0]["ev"][:3]})
    ctx.report(ctx.validate("IsolationTrace", traces))
    ctx.assumptions = ["random numbers are seeded before every operation, so that a run alone and the same run among others draw the same ones",
                       "the distributed strategy runs over a stand-in for the actor system"]
