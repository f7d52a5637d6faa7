"""C11: the real sequential hierarchical strategy over scripted demes (positions, progress and delegates are chosen)."""
import hlib, hplug
from algorithms.HGS.HGS import HGS
from hdeme import World, config, params, U

def main(sc, tr):
    ev = tr["ev"]
    c = sc["cfg"]
    w = World(sc)
    given, kw = config(sc, w, w.rng, "classic")
    giv = [tuple(p) for p in given]
    alg = HGS(**kw)
    tr["cfg"] = dict(c, params=params(c))
    strat = alg.hgs
    root = w.demes[0]
    ev.append({"k": "plant", "sub": all(giv.count(tuple(p)) >= [tuple(q) for q in root.start].count(tuple(p)) for p in root.start), "size": len(root.start)})
    for s in range(sc["steps"]):
        w.s = s
        n0 = len(w.demes)
        pre = {id(n.driver): [tuple(p) for p in n.population] for n in strat.nodes}
        for d in w.demes:
            d.steps = 0
        alg.next_step()
        by = {id(n.driver): n for n in strat.nodes}
        nodes = [by.get(id(d)) for d in w.demes]
        if None in nodes or len(by) != len(w.demes):
            ev.append({"k": "deme-lost"})
            return tr
        no = {id(n): q + 1 for q, n in enumerate(nodes)}
        par = {}
        for n in nodes:
            for ch in n.sprouts:
                par[id(ch)] = no[id(n)]
        pop = [[tuple(p) for p in n.population] for n in nodes]
        new = range(n0, len(nodes))
        ev.append({"k": "hstep", "steps": [d.steps for d in w.demes[:n0]],
                   "x": [int(round(sum(p[0] for p in q) / len(q) / U)) if q else 0 for q in pop[:n0]],
                   "h": [int(round(max(p[1] for p in q))) if q else 0 for q in pop[:n0]],
                   "del": [list(d.nominated) for d in w.demes[:n0]],
                   "same": [pop[i] == pre[id(w.demes[i])] for i in range(n0)],
                   "alive": [bool(n.alive) for n in nodes], "ripe": [bool(n.ripe) for n in nodes],
                   "parents": [par.get(id(nodes[q]), 0) for q in new], "lvls": [nodes[q].level for q in new],
                   "starts": [int(round(w.demes[q].start[0][0] / U)) if abs(w.demes[q].start[0][0] / U - round(w.demes[q].start[0][0] / U)) < 1e-9 else -99 for q in new],
                   "sizes": [len(w.demes[q].start) for q in new]})
        for q in new:
            d = w.demes[q]
            ev.append({"k": "made", "lvl": nodes[q].level, "params": d.params, "varied": sum(p != d.start[0] for p in d.start)})
        if len(nodes) > 60:
            break
    return tr


hlib.run_main(main, 120)
