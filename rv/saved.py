"""
Populations to be saved and loaded, and what can be said about them.

Run as a separate process, loads a population and tells about it:
python -m rv.saved FILE SEED GENERATIONS OUT.json
"""
import sys, random, json, struct
import numpy as np
from rv import sim, lab
from ade import constraints


class FloatSSE(float):
    """An SSE with something extra, as evaluators may return."""
    def __reduce__(self): return FloatSSE, (float(self), getattr(self, 'extra', None))
    def __new__(cls, x, extra=None):
        self = float.__new__(cls, x)
        self.extra = extra
        return self


class SmallPopulation(sim.Population):
    Np_min, Np_max = 4, 40


def sumConstraint(params):
    return sum(float(x) for x in params.values()) < 6.0


class Half(constraints.Constraints):
    registry = {'notBoth': ({'a'}, None), 'powers': (None, {'b'})}
    limit = 4.0
    def notBoth(self, params): return params['a'] < self.limit
    def powers(self, params): return params['b'] < 10**self.limit


def objective(values):
    return float(np.sum(np.square(values - 0.3)) + 0.1*np.sum(np.abs(np.sin(5*values)))) + 0.01


def bits(x):
    if x is None: return None
    return struct.pack('>d', float(x)).hex()


def snapshot(p):
    """What the public interface says about p, JSON-able, floats bit for bit."""
    pm = p.pm
    rng = random.Random(5)
    probes = []
    for _ in range(12):
        v = [rng.uniform(-1.5, 1.5)*max(abs(float(lo)), abs(float(hi)), 1e-9) for lo, hi in zip(pm.mins, pm.maxs)]
        probes.append([bool(pm.passesConstraints(np.array(v))), [bits(x) for x in pm.limit(np.array(v))],
                       [bits(x) for x in pm.fromUnity(np.array([0.25]*p.Nd))]])
    members = [[[bits(x) for x in i.values], str(np.asarray(i.values).dtype), bits(i._SSE), bits(i.SSE), bits(getattr(i, 'dt', -1.0)),
                type(i._SSE).__name__, repr(getattr(i._SSE, 'extra', None)), i.p is p] for i in p]
    return dict(
        members=members,
        settings=[type(p).__name__, len(p), p.Np, p.Nd, p.popsize, bits(p.targetFraction), bits(p.statusQuoScore), bool(p.debug)],
        names=list(pm.names), bounds=[[bits(x) for x in a] for a in (pm.mins, pm.maxs, pm.scales, pm.mids)],
        constraints=len(list(pm.constraints)), probes=probes,
        order=[name for k, name in pm.sortedNamerator()],
        best=None if not len(p) else [bits(p.best().SSE), [bits(x) for x in p.best().values]],
        ranking=[bits(i.SSE) for i in p.iSorted] if len(p) else [])


def records(h):
    """The history's records with their class, as a multiset."""
    out = []
    for k in h.K:
        k = int(k)
        c = 'in' if k in h.Kp else 'never' if k in h.Kn else 'former'
        out.append([c] + [bits(x) for x in h.X[k]])
    return dict(rows=sorted(out), ascending=[float(h.X[int(k),0]) for k in h.K] == sorted(float(h.X[int(k),0]) for k in h.K),
                names=list(h.names), N_max=int(h.N_max), N_total=int(h.N_total), len=len(h))


def further(p, seed, gens, L, ev, **kw):
    """Runs DE on p from a given state of the random generators."""
    random.seed(seed); np.random.seed(seed % 2**32)
    n0 = len(ev.evals)
    de = sim.DifferentialEvolution(p, logHandle=None, maxiter=gens, bitterEnd=True, **kw)
    L.drive(de())
    return [[bits(x) for x in e.values] for e in ev.evals[n0:]]


def main():
    path, seed, gens, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sim.fresh(seed)
    L = lab.Lab(random.Random(seed), 'sync')
    ev = lab.Evaluator(L, lambda e: objective(e.values))
    p = sim.Population.load(path, func=ev)
    sim.drain(3000)
    result = dict(snapshot=snapshot(p), records=records(p.history), seen=None)
    if gens:
        result['seen'] = further(p, seed, gens, L, ev)
        result['after'] = snapshot(p)['members']
        sim.drain(3000)
    json.dump(result, open(out, 'w'))

if __name__ == '__main__':
    from rv import saved
    saved.main()
