"""C17 the queue: every simulation once, failures contained and reported."""
LEVEL = "model_checking"


def run(ctx):
    import vlib
    ctx.design("QueueMC")
    r = ctx.tlc("QueueMC", "QueueMCStop.cfg", expect_ok=False, label="negative control: a queue that stops at a failure")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    gen = {2: ctx.generate("QueueMC", "QueueGen.cfg"), 3: ctx.generate("QueueMC", "QueueGen3.cfg"), 1: ctx.generate("QueueMC", "QueueGen1.cfg")}
    for n in gen:
        gen[n].sort(key=lambda g: str(g))
    scs = []

    def add(n, gs, np_, na):
        mode = "time" if len(scs) % 4 == 3 else "budget"
        top = rng.choice([3, 4, 5])
        scs.append({"id": "q%d" % len(scs), "np": np_, "na": na, "exc": rng.randrange(1000), "renice": rng.choice([None, None, "0"]), "limit": 30,
                    "cfg": {"n": n, "mode": mode, "cps": gs[0]["cps"] if mode == "budget" else list(range(1, top + 1)),
                            "pf": [g["pf"][0] for g in gs], "inf": [g["inf"][0] for g in gs]}})
    for n in (1, 2, 3):
        pool = list(gen[n]) if n < 3 or ctx.thorough else rng.sample(gen[n], 300)
        rng.shuffle(pool)
        k = 0
        while k < len(pool):
            np_, na = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)])
            gs = pool[k:k + np_ * na]
            while len(gs) < np_ * na:
                gs.append(rng.choice(pool))
            add(n, gs, np_, na)
            k += np_ * na
    for _ in range(1500 if ctx.thorough else 250):
        n, np_, na = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
        add(n, [rng.choice(gen[n]) for _ in range(np_ * na)], np_, na)
    for n, np_, na in ((1, 0, 0), (2, 0, 2), (3, 1, 0), (2, 0, 1), (1, 2, 0), (2, 0, 0)):     # a selection that selects nothing
        scs.append({"id": "q%d" % len(scs), "np": np_, "na": na, "exc": rng.randrange(1000), "renice": None, "limit": 30,
                    "cfg": {"n": n, "mode": rng.choice(["budget", "time"]), "cps": [1, 2], "pf": [], "inf": []}})
    traces = ctx.harness("h_queue", scs, timeout=800)
    es = [e for t in traces for e in t["ev"]]
    ctx.need("queues", len(traces), 300)
    ctx.need("simulations_begun", sum(e["k"] == "begin" for e in es), 1500)
    ctx.need("failures_injected", sum(e["k"] == "fault" for e in es), 800)
    ctx.need("pairs_failing_before_the_object_is_made", sum(f in ("prep", "nv") for s in scs for f in s["cfg"]["pf"]), 20)
    ctx.need("failures_reported", sum(len(e["reported"]) for e in es if e["k"] == "end"), 800)
    ctx.need("runs_stored", sum(len(e["dirs"]) for e in es if e["k"] == "end"), 500)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][:4]})
    ctx.report(ctx.validate("QueueTrace", traces))
    ctx.assumptions = ["the actor system is a stand-in", "algorithms are scripted; failures are exceptions of the Exception family"]
