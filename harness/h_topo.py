"""C10: the neighbourhoods the platform builds."""
import hlib, hplug
from algorithms.IMGA.topology import TorusTopology
from simulation import factory

hplug.toy()


def ab(t):
    return [sorted(int(j) + 1 for j in a) for a in t]


def main(sc, tr):
    ev = tr["ev"]
    top = TorusTopology(sc["w"])
    for n in sc["ns"]:
        a = ab(top.create(n))
        ev.append({"k": "topology", "n": n, "adj": a})
        if n % 5 == 0 and ab(top.create(n)) != a:
            ev.append({"k": "changed"})
    if sc.get("imga"):
        for n in sc["ns"]:                       # the neighbourhood an archipelago actually uses
            fac, _ = factory.prepare("IMGA+NSGAII", "TOY")
            alg = fac(islands_number=n, population=[[0.1, 0.2, 0.3 + i * 1e-3] for i in range(2 * n)])
            ev.append({"k": "topology", "n": n, "adj": ab(alg.topology)})
    return tr


hlib.run_main(main, 200)
