"""C23: a benchmark problem of the code, its declared front, and evaluations of its objectives.

The points evaluated are proposed by an oracle of its own: the published Pareto sets (for reaching the declared
points and for the shape of the front), variations of them in one or several coordinates over the whole range of
the box, corners, uniform points and short descents.  A value weakly dominated by one already reported is not
reported again (ProblemsMC: Skip), unless something else about it is wrong.
"""
import importlib, math, random
import hlib
pi = math.pi
UNIT = 1000000


def pareto_set(name, n):
    s = lambda a: [a] + [math.sin(6 * pi * a + j * pi / n) for j in range(2, n + 1)]
    if name.startswith("ZDT"):
        return lambda a: [a] + [0.0] * (n - 1)
    if name in ("UF1", "UF4", "UF5", "UF6", "UF7"):
        return s
    if name == "UF2":
        return lambda a: [a] + [(.3 * a * a * math.cos(24 * pi * a + 4 * j * pi / n) + .6 * a)
                                * (math.cos if j % 2 else math.sin)(6 * pi * a + j * pi / n) for j in range(2, n + 1)]
    if name == "UF3":
        return lambda a: [a] + [a ** (.5 * (1 + 3 * (j - 2) / (n - 2))) for j in range(2, n + 1)]
    if name in ("UF8", "UF9", "UF10"):
        return lambda a, b: [a, b] + [2 * b * math.sin(2 * pi * a + j * pi / n) for j in range(3, n + 1)]
    return None


def main(sc, tr):
    rng = random.Random(sc["id"])
    name = sc["problem"]
    mod = importlib.import_module("problems.%s.problem" % name)
    fits, dims = list(mod.fitnesses), [tuple(d) for d in mod.dims]
    m, n = len(fits), len(dims)
    ps = pareto_set(name, n)
    front = [[float(c) for c in p] for p in mod.pareto_front]
    tr["cfg"] = {"m": m, "eps": sc["eps"], "tol": sc["tol"], "mesh": sc["mesh"], "ext": sc["ext"], "full": ps is not None and bool(sc["full"])}
    ev = tr["ev"]
    fin = lambda c: isinstance(c, (int, float)) and not isinstance(c, bool) and c == c and abs(c) != math.inf
    num = lambda c: max(-2000 * UNIT, min(2000 * UNIT, int(round(c * UNIT))))
    ev.append({"k": "front", "pts": [[num(c) for c in p] for p in front],
               "dims": all(len(d) == 2 and fin(d[0]) and fin(d[1]) and d[0] < d[1] for d in dims)})
    sent, stats = [], {"evaluated": 0}
    values = {}
    buf = [0.0] * n

    def look(x, force=False):
        """evaluates the point, reports what must be reported, gives the real values"""
        x = [min(max(c, lo), hi) for c, (lo, hi) in zip(x, dims)]
        if rng.random() < .5:         # one vector moved from place to place
            buf[:] = x
            given = buf
        else:
            given = list(x)
        v = [f(given) for f in fits]
        stats["evaluated"] += 1
        real = all(isinstance(c, (int, float)) or hasattr(c, "dtype") for c in v)
        real = real and all(float(c) == float(c) and abs(float(c)) != math.inf for c in v)
        kept = given == x and all(type(a) is type(b) for a, b in zip(given, x))
        pure = True
        if stats["evaluated"] % 5 == 0 or force:      # again, in another order, and a point met long ago
            w = [f(list(x)) for f in reversed(fits)][::-1]
            pure = w == v
            if values and rng.random() < .3:
                y = rng.choice(list(values)[-50:])
                if [f(list(y)) for f in fits] != values[y]:
                    pure = False
            if len(values) < 400:
                values[tuple(x)] = v
        if not (real and kept and pure):
            ev.append({"k": "val", "v": [num(c) for c in v] if real else [0] * m, "real": real, "pure": pure, "kept": kept})
            return [float("inf")] * m if not real else v
        iv = [num(c) for c in v]
        if force or not any(all(a <= b for a, b in zip(u, iv)) for u in sent):
            ev.append({"k": "val", "v": iv, "real": True, "pure": True, "kept": True})
            sent[:] = [u for u in sent if not all(a <= b for a, b in zip(iv, u))]
            sent.append(iv)
        return v

    gap = lambda v, p: max(a - b for a, b in zip(v, p))
    # reaching the declared points
    base = []
    if ps is not None:
        if m == 2:
            grid = [(i / 1500.0,) for i in range(1501)]
        else:
            grid = [(i / 44.0, j / 44.0) for i in range(45) for j in range(45)]
        known = [(g, [f(ps(*g)) for f in fits]) for g in grid]
        for p in front:
            if len(p) != m:
                continue
            g, v = min(known, key=lambda kv: gap(kv[1], p))
            step = 1.0 / (1500 if m == 2 else 44)
            tries = [g]
            if name in ("UF8", "UF10"):
                tries.append((math.asin(min(1, max(0, p[2]))) * 2 / pi, (math.atan2(p[1], p[0])) * 2 / pi))
            if name == "UF9":
                tries.append((p[0] / (1 - p[2]) if p[2] < 1 else 0.0, 1 - p[2]))
            if name == "UF7":
                tries.append((max(0.0, p[0]) ** 5,))
            if name in ("ZDT1", "ZDT2", "ZDT3", "ZDT4", "UF1", "UF2", "UF3", "UF4", "UF5", "UF6"):
                tries.append((p[0],))
            tries = [tuple(min(1.0, max(0.0, c)) for c in t) for t in tries]
            val = lambda t: gap([f(ps(*t)) for f in fits], p)
            best = min(tries, key=val)
            bv = val(best)
            while step > 1e-9 and bv > 1e-7:
                moved = False
                for i in range(len(best)):
                    for s in (step, -step):
                        t = tuple(min(1.0, max(0.0, c + (s if k == i else 0))) for k, c in enumerate(best))
                        if val(t) < bv - 1e-12:
                            best, bv, moved = t, val(t), True
                if not moved:
                    step /= 2
            base.append(best)
            look(ps(*best), force=True)
        for g, _ in known[::1 if sc["deep"] else 4]:
            look(ps(*g))
        rng.shuffle(base)
        # one coordinate over its whole range, the others left where they were
        for b in base[:sc["bases"]] + [tuple(rng.choice([0.0, 1.0, rng.random()]) for _ in base[0]) for _ in range(sc["bases"] // 2)]:
            x = ps(*b)
            for j in range(n):
                lo, hi = dims[j]
                for i in range(sc["sweep"] + 1):
                    look(x[:j] + [lo + (hi - lo) * i / sc["sweep"]] + x[j + 1:])
            for _ in range(sc["joint"]):
                r = rng.choice([.02, .1, .3, 1.0])
                k = rng.randrange(1, n + 1)
                js = set(rng.sample(range(n), k))
                look([c + (rng.uniform(-r, r) * (dims[j][1] - dims[j][0]) if j in js else 0) for j, c in enumerate(x)])
    # the box at large, corners and edges, whole numbers included
    for _ in range(sc["uniform"]):
        q = rng.choice([0.0, 0.0, .3, .7, 1.0])
        look([rng.choice(d) if rng.random() < q else rng.uniform(*d) for d in dims])
    for lo in (0, 1):
        look([d[lo] for d in dims])
    # short descents towards declared points
    for _ in range(sc["descents"]):
        p = rng.choice(front)
        x = [rng.uniform(*d) for d in dims] if ps is None or rng.random() < .5 else [c + rng.gauss(0, .1) for c in ps(*rng.choice(base))]
        x = [min(max(c, lo), hi) for c, (lo, hi) in zip(x, dims)]
        bv = gap(look(x), p)
        r = .5
        for _ in range(sc["length"]):
            y = [c + (rng.gauss(0, r) * (dims[j][1] - dims[j][0]) if rng.random() < 3.0 / n else 0) for j, c in enumerate(x)]
            y = [min(max(c, lo), hi) for c, (lo, hi) in zip(y, dims)]
            w = gap(look(y), p)
            if w < bv:
                x, bv = y, w
            else:
                r = max(r * .97, 1e-4)
    tr["stats"] = {"evaluated": stats["evaluated"], "front": len(front)}
    return tr


hlib.run_main(main, 300)
