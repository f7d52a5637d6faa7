"""C04 evaluation cost."""
LEVEL = "model_checking"
ALGOS = ["NSGAII", "NSGAIII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS"]


def run(ctx):
    ctx.design("CostCountMC")
    gen = ctx.generate("CostCountMC", "CostCountGen.cfg")
    rng = ctx.rng
    scs = []

    def add(tag, algo, cached, ops, **kw):
        mode = "distinct" if algo == "IBEA" else kw.pop("mode", "each")
        kw.pop("mode", None)
        scs.append(dict({"id": "%s-%s-%d" % (algo, tag, len(scs)), "algo": algo, "cached": cached, "ops": ops, "m": 2, "nd": 3,
                         "obj": "conv", "rate": 1.0, "mode": mode, "use_cache": True}, **kw))
    for i, g in enumerate(gen):
        for a in ALGOS:
            if not ctx.thorough and (i + ALGOS.index(a)) % 2:
                continue
            # the caches of these algorithms may be written by them; candidates are distinct when the rates are 1
            both = a not in ("OMOPSO", "JGBL", "NSLS")
            add("gen", a, g["cached"], g["ops"], m=rng.choice([2, 3]), nd=rng.choice([2, 3, 5]), obj=rng.choice(["conv", "neg"]),
                mode="both" if both else "each")
    for i in range(12 if ctx.thorough else 4):
        for a in ALGOS:
            n = rng.choice([6, 8, 9, 13, 20])
            ops = ["init"] + [rng.choice(["step", "step", "step", "read"]) for _ in range(8)]
            none = [0] * n
            add("nocache", a, none, ops, use_cache=False, m=rng.choice([2, 3, 4]), nd=rng.choice([2, 4, 7]),
                mode="each" if a in ("OMOPSO", "JGBL", "NSLS") else "both")
            add("cache", a, [rng.randint(0, 1) for _ in range(n)], ops, m=rng.choice([2, 3, 4]), nd=rng.choice([2, 4, 7]),
                mode="each" if a in ("OMOPSO", "JGBL", "NSLS") else "both")
            add("twin", a, [rng.randint(0, 1) for _ in range(n)], ops, twin=True, m=2, nd=3, mode="each")
            if a != "IBEA":        # copies of earlier candidates are produced when the rates are small
                add("copies", a, none, ops, use_cache=False, rate=0.3, mode="each", dup=True)
                add("onegene", a, none, ops + ["step", "read"] * 3, use_cache=False, rate=0.15, nd=rng.choice([2, 3, 5]), mode="each")
                add("copiesc", a, [rng.randint(0, 1) for _ in range(n - 1)] + [0], ops, rate=0.3, mode="each")
    traces = ctx.harness("h_cost", scs, timeout=850)
    ctx.need("tlc_generated_scenarios", len(gen), 100)
    ctx.need("algorithm_runs", len(scs), 400)
    ctx.need("evaluations_observed", sum(len(e.get("evals", [])) for t in traces for e in t["ev"]), 5000)
    ctx.sample({"id": traces[-1]["id"], "cfg": traces[-1]["cfg"], "ev": traces[-1]["ev"][:3]})
    ctx.report(ctx.validate("CostCountTrace", traces))
    ctx.assumptions = ["submissions for evaluation are observed at the objective functions handed to the algorithm",
                       "IBEA re-evaluates its candidates every generation, so for it distinct candidates are counted (mutation rate 1: all candidates differ)"]
