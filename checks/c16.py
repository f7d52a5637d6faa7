"""C16 results: stored, found again, crash while storing."""
LEVEL = "model_checking"


def run(ctx):
    import vlib
    ctx.design("StoreMC")
    r = ctx.tlc("StoreMC", "StoreMCInPlace.cfg", expect_ok=False, label="negative control: writing in place tears checkpoints")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    n = 2500 if ctx.thorough else 700
    gen = ctx.generate("StoreMC", "StoreGen.cfg", args=("-simulate", "num=%d" % n, "-depth", "140", "-seed", str(ctx.seed)), workers=4)
    scs = []
    for i, g in enumerate(gen[:n]):
        runs = []
        for j in range(6):
            runs.append({"p": rng.choice(["TOY", "ZDT1", "UF1"]), "a": rng.choice(["NSGAII", "HGS+SPEA2", "IMGA+NSGAII"]), "run": rng.choice([0, 1, 1 + j, 10 + j, 123]),
                         "sec": rng.choice([0, 1, 9, 10, 59]), "us": rng.choice([0, 1, 10, 999999, j]),
                         "mon": rng.choice([1, 1, 2, 12]), "day": rng.choice([1, 2, 28]), "hour": rng.choice([0, 1, 12, 13]), "min": rng.choice([0, 0, 1, 59]), "via": "factory" if rng.random() < 0.25 else "case"})
        for _ in range(2):
            # the same simulation prepared at another instant: only one component of the clock differs
            a, b = rng.sample(range(6), 2)
            what = rng.choice(["mon", "day", "hour", "hour", "min", "sec", "us"])
            runs[b] = dict(runs[a], **{what: (runs[a][what] + 12) % 24 if what == "hour" else rng.choice([3, 7, 11])})

        def key(s):
            f = s["via"] == "factory"
            return ("ZDT1" if f else s["p"], s["a"], s["run"] % 2 if f else s["run"]) + tuple(s[x] for x in ("mon", "day", "hour", "min", "sec", "us"))
        seen = set()
        for s in runs:
            # two different simulations are told apart by their number or the instant of their creation
            while key(s) in seen or s["run"] == 0:
                s["run"], s["us"] = rng.randrange(1, 50), rng.randrange(0, 1000)
            seen.add(key(s))
        scs.append({"id": "store%d" % i, "kind": "time" if i % 5 == 4 else "budget", "runs": runs, "ops": g["ops"], "junk": i % 2 == 1, "frozen": rng.choice([0, 0, 2, 12]),
                    "budgets": rng.choice([[5, 10, 100, 1000, 20000], [900, 1000, 1100, 90, 9], [2, 1, 3, 30, 12], [500, 1500, 2500, 10500, 99]])})
    traces = ctx.harness("h_store", scs, timeout=800)
    es = [e for t in traces for e in t["ev"]]
    ctx.need("histories", len(traces), 300)
    ctx.need("stores", sum(e["k"] == "store" for e in es), 1500)
    ctx.need("deaths_while_storing", sum(e["k"] == "crash" for e in es), 600)
    ctx.need("deaths_in_the_middle_of_a_write", sum(e["k"] == "crash" and e["at"][0] == "bytes" for e in es), 300)
    ctx.need("loads", sum(e["k"] == "load" for e in es), 500)
    ctx.need("checkpoints_loaded", sum(len(l["runs"]) for e in es if e["k"] == "load" for g in e["groups"] for l in g["lists"]), 3000)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][:4]})
    ctx.report(ctx.validate("StoreTrace", traces))
    ctx.assumptions = ["death of the process, not of the machine: what the process handed to the kernel survives", "deaths are placed before file operations and inside writes (by a limit on the file size)"]
