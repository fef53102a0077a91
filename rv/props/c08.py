"""C08: the evaluation function never sees a vector outside the bounds."""
import random, os, tempfile, shutil
import numpy as np
from rv import decases, lab
from rv.lab import POLICIES
from rv.sim import Population

LEVEL = 'exploration'
ROUNDS = 5
RULE = ("Cases are distinct by bounds, members and configuration; non-trivial when at least one value had to be "
        "limited, or a run was resumed with other bounds.")
NEED = ['vectors_limited', 'mirrored', 'beyond_both', 'unchanged', 'challenger_vectors', 'setup_vectors', 'resumed_vectors',
        'vectors_on_or_near_bound', 'donor_out_of_bounds', 'unit_translations']


def cases(tier, seed):
    n = 300 if tier == 'quick' else 3000
    rng = random.Random(seed*77 + 3)
    out = []
    for k in range(n):
        out.append(dict(seed=seed*100003 + k, kind='limit', Nd=rng.choice([1, 2, 3, 5, 10])))
    runs = decases.configs(seed, n, policies=POLICIES + ['sync'], objectives=['noise', 'sphere', 'better', 'weird'],
                           _bounds=['wide', 'unit', 'tight', 'int', 'mixed', 'odd', 'degenerate', 'huge'],
                           _F=[0.5, 1.0, 2.0, 1.5, [0.5, 2.0], [0, 2.0]], _CR=[0.3, 0.9, 1.0],
                           _Np=[4, 6, 12], _maxiter=[2, 4, 8], _uniform=[False, True], _resume=[0, 1, 2])
    for c in runs: c['kind'] = 'run'
    return out + runs


def bounds(rng, kind, Nd):
    if kind == 'degenerate':
        return [rng.choice([(1.0, 1.0), (0, 0), (-3.7, -3.7), (0, 1), (2.5, 2.6)]) for _ in range(Nd)]
    if kind == 'huge':
        return [rng.choice([(-1e300, 1e300), (1e200, 1e250), (-1e-300, 1e-300), (0, 1e-310), (1e16, 1e16+2), (-1e15, 3)]) for _ in range(Nd)]
    return lab.bounds_for(rng, kind, Nd)


def run_limit(params, m):
    rng = random.Random(params['seed'])
    Nd = params['Nd']
    kind = rng.choice(['wide', 'unit', 'tight', 'int', 'mixed', 'odd', 'degenerate', 'huge'])
    b = bounds(rng, kind, Nd)
    p = Population(lambda x: 1.0, ["x{}".format(k) for k in range(Nd)], b)
    seen = []
    for _ in range(40):
        v = []
        for lo, hi in b:
            R = hi - lo
            v.append(float(rng.choice([
                lo, hi, lo + rng.random()*R, lo - rng.random()*R, hi + rng.random()*R, lo - 3*R*rng.random(), hi + 3*R*rng.random(),
                lo - R, hi + R, np.nextafter(float(lo), -np.inf), np.nextafter(float(hi), np.inf), 2*lo - hi, 1e308, -1e308,
                rng.uniform(-10, 10)])))
        given = np.array(v)
        i = p.spawn(given.copy())
        p.limit(i)
        got = np.asarray(i.values, dtype=float)
        m.count('vectors_limited')
        m.check(got.shape == given.shape, 'shape', "limiting {} gave {}", v, list(got))
        for k, (lo, hi) in enumerate(b):
            x, y = given[k], got[k]
            what = "value {!r} with bounds ({!r}, {!r}) limited to {!r}".format(x, lo, hi, y)
            m.check(lo <= y <= hi, 'outside', "outside: {}", what)
            if lo <= x <= hi:
                m.count('unchanged')
                m.check(x == y, 'changed', "changed although within bounds: {}", what)
                continue
            mirror = 2*float(lo) - x if x < lo else 2*float(hi) - x
            tol = 1e-14*(abs(x) + abs(lo) + abs(hi))
            if lo + tol <= mirror <= hi - tol:
                m.count('mirrored')
                m.check(abs(y - mirror) <= tol, 'not-mirrored', "not mirrored: {}", what)
            elif not (lo - tol <= mirror <= hi + tol): m.count('beyond_both')
        seen.append(v)
        # Unit range and back
        u = np.array([rng.choice([0.0, 1.0, 0.5, rng.random()]) for _ in b])
        x = np.asarray(p.spawn(u.copy(), fromUnity=True).values, dtype=float)
        for k, (lo, hi) in enumerate(b):
            tol = 1e-12*(abs(lo) + abs(hi))
            m.check(abs(x[k] - ((1 - u[k])*float(lo) + u[k]*float(hi))) <= tol, 'from-unity', "{} of ({}, {}) is {}", u[k], lo, hi, x[k])
        back = np.asarray(p.pm.toUnity(x), dtype=float)
        for k, (lo, hi) in enumerate(b):
            R = float(hi) - float(lo)
            if not R > 1e-9*(abs(lo) + abs(hi)) or not 1e-290 < R < 1e305: continue
            m.count('unit_translations')
            m.check(abs(back[k] - u[k]) < 1e-5, 'to-unity', "{} of ({}, {}) came back as {}", u[k], lo, hi, back[k])
    m.sig(params, b)
    m.nontrivial = True
    m.notes = dict(bounds=b[:3], vectors=len(seen))


def run_run(params, m):
    rng = random.Random(params['seed'] + 1)
    Nd = params['Nd']
    ref = []
    which = ['setup_vectors']
    current = [bounds(rng, params['bounds'], Nd)]
    def onStart(e):
        m.count(which[0] if e.phase != 'setup' else 'setup_vectors')
        b = current[0]
        for k, x in enumerate(e.values):
            lo, hi = b[k]
            if x == lo or x == hi or abs(x - lo) < 0.01*(hi - lo): m.count('vectors_on_or_near_bound')
            if not (lo <= x <= hi):
                m.bad('evaluated-outside', "{} evaluated with parameter {} = {!r}, outside ({!r}, {!r})",
                      'initial vector' if e.phase == 'setup' else 'challenger', k, x, lo, hi)
                break
        m.count('checks')
        m.check(len(e.values) == Nd, 'shape', "evaluated with {} values", len(e.values))
    cfg = dict(params)
    cfg['boundsList'] = current[0]
    objective = decases.objective('noise' if params['bounds'] == 'huge' else params['objective'], rng)
    run = lab.DERun(m, rng, cfg, objective, set())
    # Donors that had to be brought into bounds
    limit = run.p.pm.limit
    def spy(values):
        out = limit(values)
        if run.lab.phase == 'run' and not np.array_equal(out, values): m.count('donor_out_of_bounds')
        return out
    run.p.pm.limit = spy
    old = run.ev.onStart
    def started(e):
        onStart(e)
        old(e)
    run.ev.onStart = started
    run.setup(uniform=params['uniform'])
    which[0] = 'challenger_vectors'
    run.run()
    if params['resume']:
        tmp = tempfile.mkdtemp(prefix='rv-c08-')
        try:
            path = os.path.join(tmp, 'p.dat')
            del run.p.pm.limit
            run.p.save(path)
            new = []
            for lo, hi in current[0]:
                a, b = float(lo) + (hi-lo)*rng.random(), float(lo) + (hi-lo)*rng.random()
                a, b = min(a, b), max(a, b)
                r = rng.random()
                if r < 0.2: a, b = float(lo), float(hi)
                elif r < 0.4: a, b = float(hi), float(hi) + (hi-lo) + 1
                elif r < 0.5: a, b = float(lo) - 1, float(lo) - 0.5
                new.append((a, b))
            current[0] = new
            run.p = Population.load(path, func=run.ev, bounds=new)
        finally: shutil.rmtree(tmp)
        for i in run.p:
            for k, x in enumerate(i.values):
                lo, hi = new[k]
                m.check(lo <= x <= hi, 'member-outside', "loaded member has parameter {} = {!r}, outside ({!r}, {!r})", k, x, lo, hi)
        run.gen = -1
        run.kgs = []
        run.challenges = []
        run.takeSnapshot()
        which[0] = 'resumed_vectors'
        run.mins = np.array([b[0] for b in new]); run.maxs = np.array([b[1] for b in new])
        run.run()
    m.sig(params, run.lab.sigEvents)
    m.nontrivial = bool(m.counts.get('donor_out_of_bounds') or params['resume'])
    m.notes = dict(bounds=[list(map(float, b)) for b in current[0]], donors_limited=m.counts.get('donor_out_of_bounds', 0))


def run_case(params, m):
    (run_limit if params['kind'] == 'limit' else run_run)(params, m)
