"""
Run as a separate process: makes a population, evolves and saves it.
python -m rv.child_pop FILE SEED Nd Np generations
"""
import sys, random, json
import numpy as np
from rv import sim, lab


class SavedPopulation(sim.Population):
    Np_min = 4

def main():
    path, seed, Nd, Np, gens = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    sim.fresh(seed)
    rng = random.Random(seed)
    L = lab.Lab(rng, 'sync')
    ev = lab.Evaluator(L, lambda e: float(np.sum(np.square(e.values - 0.3))) + 0.1)
    from rv.child_pop import SavedPopulation as cls
    p = cls(ev, ["x{}".format(k) for k in range(Nd)], [(-5.0, 5.0)]*Nd, popsize=max(1, int(round(Np/Nd))))
    L.drive(p.setup())
    if gens:
        de = sim.DifferentialEvolution(p, logHandle=None, maxiter=gens, bitterEnd=True)
        L.drive(de())
    sim.drain(3000)
    p.save(path)
    json.dump([[float(i.SSE), [float(x) for x in i.values]] for i in p], open(path + '.json', 'w'))

if __name__ == '__main__': main()
