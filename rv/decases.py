"""Configurations and objective functions for cases that run the optimizer."""
import random
import numpy as np

from rv import lab
from rv.lab import POLICIES, INF

OBJECTIVES = ['noise', 'sphere', 'better', 'worse', 'ties', 'weird', 'plateau']


def objective(name, rng, run=None):
    """
    Returns objective(e): what evaluation e will give. In setup everything is
    an ordinary number.
    """
    n = [0]
    def f(e):
        n[0] += 1
        if e.phase != 'run' and name != 'sphere':
            return round(rng.uniform(50, 100), 6)
        if name == 'noise': return rng.uniform(0.001, 120)
        if name == 'sphere': return float(np.sum(np.square(e.values)))
        if name == 'better': return 50.0/(n[0]+1)
        if name == 'creep': return 50.0 - 0.01*n[0]
        if name == 'worse': return 100.0 + n[0]
        if name == 'ties':
            if e.cur is not None and rng.random() < 0.5: return e.target[1]
            return float(rng.randint(0, 6))
        if name == 'plateau': return rng.choice([0.0, 0, 1, 60.0])
        if name == 'weird':
            r = rng.random()
            if r < 0.1: return None
            if r < 0.2: return INF
            if r < 0.3: return float('nan')
            if r < 0.4: return np.float64(rng.uniform(0, 80))
            if r < 0.5: return np.float32(rng.uniform(0, 80))
            if r < 0.6: return rng.randint(0, 80)
            if r < 0.65: return 0
            if r < 0.7: return 1e-300
            return rng.uniform(0, 100)
        raise ValueError(name)
    return f


def configs(seed, n, policies=POLICIES, objectives=OBJECTIVES, **fixed):
    """n random configurations, each a JSON-able dict with its own seed."""
    rng = random.Random(seed*7919 + 17)
    out = []
    for k in range(n):
        c = dict(seed=seed*100003 + k,
                 Nd=rng.choice([1, 2, 2, 3, 4, 6]),
                 Np=rng.choice([4, 5, 6, 8, 10, 14, 20, 24]),
                 bounds=rng.choice(['wide', 'unit', 'tight', 'mixed', 'int']),
                 CR=rng.choice([0.0, 0.2, 0.5, 0.8, 0.8, 0.95, 1.0]),
                 F=rng.choice([0.5, 0.9, 0.3, [0.5, 1.0], [0.2, 0.9], [0, 1]]),
                 randomBase=rng.choice([False, False, True, 0.3, 0.5, 0.8]),
                 adaptive=rng.choice([True, False]),
                 maxiter=rng.choice([2, 3, 4, 6]),
                 policy=policies[k % len(policies)],
                 objective=objectives[(k // len(policies)) % len(objectives)],
                 bitterEnd=True)
        for name, value in fixed.items():
            c[name] = rng.choice(value) if isinstance(value, list) and name.startswith('_') else value
        for name in [x for x in c if x.startswith('_')]:
            c[name[1:]] = c.pop(name)
        out.append(c)
    return out


def build(m, params, checks, **cfg):
    """A DERun of configuration params, not set up yet."""
    rng = random.Random(params['seed'])
    c = dict(params)
    c.update(cfg)
    run = lab.DERun(m, rng, c, objective(params.get('objective', 'noise'), rng), checks)
    return run


def half_plane(run_ref, frac):
    """A constraint that rejects roughly frac of the vectors."""
    def f(params):
        run = run_ref[0]
        u = (params[run.names[0]] - run.mins[0])/(run.maxs[0] - run.mins[0])
        x = (u*7919.0) % 1.0
        return x >= frac
    return f
