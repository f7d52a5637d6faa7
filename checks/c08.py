"""C08 particle-swarm archives."""
LEVEL = "model_checking"


def run(ctx):
    ctx.design("SwarmMC")
    ctx.design("SwarmMC", "SwarmMCTol.cfg")
    rng = ctx.rng
    gens = []
    for cfg, caps in (("SwarmGen", (1, 2, 3)), ("SwarmGen3", (1, 2, 3)), ("SwarmGenTol", (1, 2))):
        g = [x["seq"] for x in ctx.generate("SwarmMC", cfg + ".cfg")]
        for i, s in enumerate(g if ctx.thorough else rng.sample(g, 900)):
            gens.append({"id": "%s-%d" % (cfg, i), "what": "offers", "seq": s, "cap": rng.choice(caps)})
    scs = list(gens)
    for i in range(3000 if ctx.thorough else 500):
        d = rng.choice([2, 2, 3, 4])
        lo, hi = rng.choice([(1, 4), (1, 9), (200, 206), (1, 30)])
        n = rng.choice([6, 12, 25])
        seq = [[rng.randint(lo, hi) for _ in range(d)] for _ in range(n)]
        if i % 3 == 0:                      # an antichain first, then points that dominate runs of adjacent members
            m = rng.randint(3, 7)
            seq = [[100 + 3 * k, 100 + 3 * (m - k)] for k in range(m)]
            if i % 2:
                rng.shuffle(seq)
            seq += [[100 + 3 * rng.randint(0, m), 100 + 3 * rng.randint(0, m)] for _ in range(4)] + [[90, 90]]
        scs.append({"id": "rnd%d" % i, "what": "offers", "seq": seq, "cap": rng.choice([1, 2, 3, 5, 30]), "gate": bool(i % 2), "crowd": bool(i % 5 == 0),
                    "ints": bool(i % 7 == 0)})
    for i in range(300 if ctx.thorough else 90):
        scs.append({"id": "swarm%d" % i, "what": "swarm", "n": rng.choice([2, 3, 5, 8, 12]), "d": rng.choice([2, 2, 3]), "v": rng.choice([2, 3, 6, 12]),
                    "shape": ["rand", "better", "line"][i % 3], "steps": 15, "budget": i % 2 == 0})
    for i, s in enumerate(scs):
        s["exp"] = [0, 0, -26, 0, 20][i % 5]
    traces = ctx.harness("h_swarm", scs, timeout=850)
    ev = [e for t in traces for e in t["ev"]]
    ctx.need("tlc_generated_sequences", len(gens), 2700)
    ctx.need("insertions_checked", sum(e["k"] == "offer" for e in ev), 20000)
    ctx.need("refusals", sum(e["k"] == "offer" and not e["acc"] for e in ev), 5000)
    ctx.need("swarm_states_checked", sum(e["k"] == "swarm" for e in ev), 1200)
    ctx.sample({"id": traces[0]["id"], "cfg": traces[0]["cfg"], "ev": traces[0]["ev"][:3]})
    ctx.report(ctx.validate("SwarmTrace", traces))
    ctx.assumptions = ["positive objective values; tolerance 0.0075 as in the code", "insertion-level rules are observed on the archive classes, swarm-level ones on running OMOPSO drivers"]
