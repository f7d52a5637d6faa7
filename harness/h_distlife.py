"""C14: the real distributed strategy (its actors under a chosen message schedule) over scripted demes."""
import random
import hactors                                    # before the code under test imports the actor system
import hlib, hplug
from algorithms.HGS.HGS import HGS
from hdeme import World, config, params, U


def main(sc, tr):
    ev, c = tr["ev"], sc["cfg"]
    w = World(sc)
    given, kw = config(sc, w, w.rng, "distributed")
    giv = [tuple(p) for p in given]
    sysm = hactors.System(hactors.picker(random.Random(sc["id"] + "s"), sc["mode"], sc.get("sched", ())))
    hactors.current[0] = sysm
    alg = HGS(**kw)
    sysm.drain()
    tr["cfg"] = dict(c, params=params(c))
    root = w.demes[0]
    ev.append({"k": "plant", "sub": all(giv.count(tuple(p)) >= [tuple(q) for q in root.start].count(tuple(p)) for p in root.start), "size": len(root.start)})
    for s in range(sc["steps"]):
        w.s = s
        n0 = len(w.demes)

        def nodes_now():
            by = {id(a.driver): (n, a) for n, a in sysm.actors.items() if getattr(a, "driver", None) is not None}
            return [by.get(id(d)) for d in w.demes]
        pre = {id(a.driver): [tuple(p) for p in a.population] for _, a in nodes_now()}
        for d in w.demes:
            d.steps = 0
        try:
            alg.next_step()
        except hactors.Unanswered as e:
            ev.append({"k": "request-never-answered"})
            return tr
        sysm.drain()
        found = nodes_now()
        if None in found:
            ev.append({"k": "deme-lost"})
            return tr
        nodes = [a for _, a in found]
        no = {hactors.Addr(n): q + 1 for q, (n, _) in enumerate(found)}
        par = {}
        for n in nodes:
            for ch in n.sprouts:
                par[no.get(ch, 0)] = no[n.myAddress]
        pop = [[tuple(p) for p in n.population] for n in nodes]
        new = range(n0, len(nodes))
        ev.append({"k": "hstep", "steps": [d.steps for d in w.demes[:n0]],
                   "x": [int(round(sum(p[0] for p in q) / len(q) / U)) if q else 0 for q in pop[:n0]],
                   "h": [int(round(max(p[1] for p in q))) if q else 0 for q in pop[:n0]],
                   "del": [list(d.nominated) for d in w.demes[:n0]],
                   "same": [pop[i] == pre[id(w.demes[i])] for i in range(n0)],
                   "alive": [bool(n.alive) for n in nodes], "ripe": [bool(n.ripe) for n in nodes],
                   "parents": [par.get(q + 1, 0) for q in new], "lvls": [nodes[q].level for q in new],
                   "starts": [int(round(w.demes[q].start[0][0] / U)) if abs(w.demes[q].start[0][0] / U - round(w.demes[q].start[0][0] / U)) < 1e-9 else -99 for q in new],
                   "sizes": [len(w.demes[q].start) for q in new]})
        for q in new:
            d = w.demes[q]
            ev.append({"k": "made", "lvl": nodes[q].level, "params": d.params, "varied": sum(p != d.start[0] for p in d.start)})
        if len(nodes) > 45:
            break
    return tr


hlib.run_main(main, 120)
