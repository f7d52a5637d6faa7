"""C14 distributed hierarchical strategy: life cycle of demes under any message schedule."""
import checks.c11 as c11
LEVEL = "model_checking"
MODES = ["model", "random", "lifo", "random", "starve", "fifo", "depth", "model"]


def schedules(ctx, num):
    return [g["sched"] for g in ctx.generate("DistHgsGen", args=("-simulate", "num=%d" % num, "-depth", "700", "-seed", str(ctx.seed)), workers=4)]


def run(ctx):
    ctx.design("DistLifeMC", "DistLifeMC4.cfg" if ctx.thorough else None)
    ctx.design("HgsMC")
    sch = schedules(ctx, 250 if ctx.thorough else 40)
    gen, scs = c11.scenarios(ctx, "d")
    rng = ctx.rng
    scs = scs if ctx.thorough else scs[:260] + scs[420:]
    for i, s in enumerate(scs):
        s["mode"] = MODES[i % len(MODES)]
        if s["mode"] == "model":
            s["sched"] = rng.choice(sch) + rng.choice(sch)
        if i % 2:
            s["cfg"] = dict(s["cfg"], sizes=[s["cfg"]["sizes"][0], 1, 1])
    traces = ctx.harness("h_distlife", scs, timeout=850)
    ctx.need("tlc_generated_schedules", len(sch), 30)
    c11.summarise(ctx, traces, 0.6)
    ctx.need("sprouts_with_their_parameters", sum(e["k"] == "made" for t in traces for e in t["ev"]), 900)
    ctx.sample({"id": traces[0]["id"], "cfg": traces[0]["cfg"], "ev": traces[0]["ev"][:4]})
    ctx.report(ctx.validate("DistLifeTrace", traces))
    ctx.assumptions = ["the actor system delivers messages between each pair of actors in order and exactly once; messages are copied",
                       "demes are scripted algorithms; positions and hypervolumes avoid exact ties with thresholds"]
