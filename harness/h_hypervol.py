"""C20: the real hypervolume over exact (dyadic) coordinates; the value is reported in units of the scale."""
import copy, random
import hlib
from algorithms.base.hv import HyperVolume
from metrics import metrics


def main(sc, tr):
    rng = random.Random(sc["id"])
    ev = tr["ev"]
    tr["cfg"] = {"x": 0}
    shared = {}
    for it in sc["items"]:
        pts, ref, m = [list(p) for p in it["pts"]], list(it["ref"]), len(it["ref"])
        if it.get("shuffle"):
            rng.shuffle(pts)
        scale = [2.0 ** rng.randrange(-3, 4) for _ in ref] if it["how"] != "metric" else [1.0] * m
        off = [rng.choice([0.0, -8.0, 16.0, 1024.0, -r * 1.0]) for r in ref] if it["how"] != "metric" else [0.0] * m
        real = [[(c + o) * s for c, o, s in zip(p, off, scale)] for p in pts]
        rref = [(c + o) * s for c, o, s in zip(ref, off, scale)]
        if it["how"] == "int":
            real, rref, scale = [list(p) for p in pts], list(ref), [1.0] * m
        if it.get("tuples"):
            real, rref = [tuple(p) for p in real], tuple(rref)
        r0, q0 = copy.deepcopy(real), copy.deepcopy(rref)
        same = list(map(id, real))
        if it["how"] == "metric":
            v = metrics.hypervolume(real, real, pareto=[[0.0] * m])
        else:
            key = tuple(rref)
            hv = shared.setdefault(key, HyperVolume(rref)) if it.get("reuse") else HyperVolume(rref)
            v = hv.compute(real)
        unit = 1.0
        for s in scale:
            unit *= s
        x = v / unit
        ev.append({"k": "hv", "pts": pts, "ref": ref, "v": int(x) if x == int(x) and 0 <= x < 2 ** 31 - 1 else -1,
                   "kept": r0 == real and q0 == rref and list(map(id, real)) == same and type(rref) is type(q0)})
    return tr


hlib.run_main(main, 120)
