"""C18 selection and layered configuration."""
LEVEL = "model_checking"
ALGOS = ["SPEA2", "IBEA", "NSGAII", "OMOPSO", "NSGAIII", "JGBL", "SMSEMOA", "NSLS"]
PROBS = ["ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6", "UF1", "UF2", "UF3", "UF4", "UF5", "UF6", "UF7", "UF8", "UF9"]


def case(rng, w):
    return rng.choice([w, w.lower(), w.upper(), w.swapcase(), "".join(rng.choice([c.upper(), c.lower()]) for c in w)])


def token(rng, names):
    w = rng.choice(names)
    return rng.choice([lambda: case(rng, w), lambda: case(rng, w), lambda: w[:-1], lambda: w + "1", lambda: w.replace("I", "l"), lambda: "", lambda: "unknown",
                       lambda: "*", lambda: "." + w[1:], lambda: w.split("+")[-1], lambda: w.split("+")[0], lambda: w.replace("+", " ")])()


def run(ctx):
    import vlib
    ctx.design("ConfigMC")
    r = ctx.tlc("ConfigMC", "ConfigMCFirst.cfg", expect_ok=False, label="negative control: the first layer wins")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    pats = [g["defs"] for g in ctx.generate("ConfigMC", "ConfigGen.cfg")]
    pats.sort(key=str)
    rng.shuffle(pats)
    scs, k = [], 0
    names = ["p%d" % i for i in range(8)]
    for i in range(4000 if ctx.thorough else 500):
        length = (1, 2, 3, 3)[i % 4]
        lv = []
        for j in range(length):
            d = {}
            for n in names:
                d[n] = pats[k % len(pats)]
                k += 1
            if rng.random() < 0.5:
                d["population"] = rng.choice(pats)
            elif rng.random() < 0.3:
                d["population"] = []
            for n in ("fitnesses", "dims"):
                if rng.random() < 0.2:
                    d[n] = [x for x in rng.choice(pats) if x["op"] == "set"]
            lv.append(d)
        scs.append({"id": "cfg%d" % i, "kind": "scripted", "length": length, "prob": rng.choice(["PA", "PB"]), "pats": lv,
                    "inner": "SA" if length == 1 or rng.random() < 0.85 else rng.choice(["SNO", "SOTHER"])})
    full = ["%s+%s" % (m, a) for m in ("IMGA", "HGS", "DHGS") for a in ALGOS] + ALGOS + ["IMGA+HGS+SPEA2", "HGS+IMGA+SPEA2", "IMGA+IMGA+SPEA2"]
    for i, a in enumerate(full):
        for p in (PROBS if ctx.thorough else [PROBS[i % len(PROBS)], PROBS[(i + 5) % len(PROBS)]]):
            scs.append({"id": "real-%s-%s" % (a, p), "kind": "real", "algo": a, "prob": p})
    for what, ns in (("problems", PROBS), ("algorithms", full[:-3])):
        for i in range(1500 if ctx.thorough else 150):
            text = None if i < 2 else ",".join(token(rng, ns) for _ in range(rng.choice([1, 1, 2, 3, 5])))
            scs.append({"id": "sel-%s-%d" % (what, i), "kind": "select", "what": what, "text": text if text != "" else "none"})
    traces = ctx.harness("h_config", scs, timeout=800)
    es = [e for t in traces for e in t["ev"]]
    ctx.need("configurations_prepared", sum(e["k"] == "prep" and e["result"] == "ok" for e in es), 400)
    ctx.need("rejected_as_not_viable", sum(e["k"] == "prep" and e["result"] == "nv" for e in es), 30)
    ctx.need("parameters_resolved", sum(len(l["params"]) for e in es if e["k"] == "prep" for l in e["levels"]), 5000)
    ctx.need("populations_generated", sum(l["pop"] == 0 for e in es if e["k"] == "prep" for l in e["levels"]), 300)
    ctx.need("selections", sum(e["k"] == "sel" for e in es), 250)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"]})
    ctx.report(ctx.validate("ConfigTrace", traces))
    ctx.assumptions = ["layers are written into the tables the documentation names (algo_base, cust_base, init_alg___...)",
                       "layers told apart only by sub-algorithms are not exercised for an algorithm without one"]
