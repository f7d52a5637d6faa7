"""C10 migration topology."""
LEVEL = "model_checking"


def run(ctx):
    ctx.design("TopologyMC")
    top, wid = (300, 16) if ctx.thorough else (90, 12)
    scs = []
    for w in range(1, wid + 1):
        for a in range(1, top, 30):
            scs.append({"id": "w%d-from%d" % (w, a), "w": w, "ns": list(range(a, a + 30))})
    scs.append({"id": "imga-small", "w": 4, "ns": list(range(1, 17)), "imga": True})
    scs.append({"id": "imga-larger", "w": 4, "ns": [17, 18, 19, 20, 21, 22, 23, 31, 32, 33], "imga": True})
    traces = ctx.harness("h_topo", scs)
    ctx.need("topologies_checked", sum(len(t["ev"]) for t in traces), wid * top)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][4:7]})
    ctx.report(ctx.validate("TopologyTrace", traces))
    ctx.assumptions = ["torus widths 1..%d, island counts 1..%d, exhaustively" % (wid, top)]
