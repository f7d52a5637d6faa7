"""C13 distributed hierarchical strategy: every request answered once, whatever the schedule."""
import checks.c14 as c14
LEVEL = "model_checking"
REAL = ["NSGAII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS", "NSGAIII"]


def run(ctx):
    ctx.design("DistHgs", "DistHgs5.cfg" if ctx.thorough else "DistHgs4.cfg")
    if ctx.thorough:
        ctx.design("DistHgs", "DistHgs4.cfg")
    rng = ctx.rng
    sch = c14.schedules(ctx, 400 if ctx.thorough else 60)
    scs = []
    for i in range(1600 if ctx.thorough else 400):
        m = c14.MODES[i % len(c14.MODES)]
        scs.append({"id": "scripted%d" % i, "algo": "scripted", "mode": m, "mod8": [rng.choice([1, 4, 8, 12, 20]) for _ in range(3)],
                    "sizes": [rng.choice([3, 5]), rng.choice([1, 3]), rng.choice([1, 2])], "len": [rng.choice([1, 2, 3]) for _ in range(3)],
                    "ratio": rng.choice([0.0, 0.3, 3.0]), "mult": rng.choice([[0.5, 0.05, 0.005], [0.5, 0.2, 0.2], [1.0, 0.01, 0.001]]),
                    "steps": rng.choice([5, 8, 11]), "maxlevel": rng.choice([0, 1, 2, 2])})
        if m == "model":
            scs[-1]["sched"] = rng.choice(sch) + rng.choice(sch)
    for i in range(64 if ctx.thorough else 16):
        a = REAL[i % 8]
        scs.append({"id": "%s-%d" % (a, i), "algo": a, "mode": c14.MODES[i % 8], "sched": rng.choice(sch), "mod8": [rng.choice([1, 4, 8, 12]) for _ in range(3)],
                    "sizes": [12, 8, 6], "len": [2, 1, 2], "ratio": 3.0, "mult": [0.5, 0.05, 0.005], "steps": 5, "limit": 300})
    traces = ctx.harness("h_dist", scs, timeout=850)
    ds = [e for t in traces for e in t["ev"] if e["k"] == "dstep"]
    ctx.need("tlc_generated_schedules", len(sch), 30)
    ctx.need("steps_checked", len(ds), 2000)
    ctx.need("messages_delivered", sum(t.get("delivered", 0) for t in traces), 50000)
    ctx.need("steps_with_four_or_more_demes", sum(len(e["costs"]) >= 4 for e in ds), 500)
    ctx.need("population_requests_checked", sum(1 for t in traces for e in t["ev"] if e["k"] == "dpop"), 1000)
    ctx.sample({"id": traces[0]["id"], "cfg": traces[0]["cfg"], "ev": traces[0]["ev"][:3]})
    ctx.report(ctx.validate("DistStepTrace", traces))
    ctx.assumptions = ["the actor system delivers messages between each pair of actors in order and exactly once; messages are copied",
                       "cost modifiers are multiples of one eighth"]
