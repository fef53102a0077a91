"""C07: adaptive F stays within its limits and recovers its original range."""
import random, math
import numpy as np
from rv.sim import de as de_mod
from rv import lab
from rv.fmodel import FModel

LEVEL = 'exploration'
ROUNDS = 5
RULE = ("Request sequences and runs are distinct by their parameters; non-trivial when at least one lowering "
        "took effect or F reached its limit.")
NEED = ['lowered', 'raised', 'limited', 'restored', 'draws', 'upper_lowered', 'run_generations', 'never_adapted']


def cases(tier, seed):
    n = 500 if tier == 'quick' else 6000
    rng = random.Random(seed*31 + 7)
    out = []
    for k in range(n):
        if k % 5 == 4:
            out.append(dict(seed=seed*100003 + k, kind='run', Np=rng.choice([4, 6, 10]), Nd=2, CR=rng.choice([0, 0.5, 0.8, 1.0]),
                            F=rng.choice([0.9, 0.6, [0.5, 1.0], [0.6, 2.0], [0, 1]]), adaptive=rng.random() < 0.8,
                            bitterEnd=True, maxiter=18, policy=rng.choice(lab.POLICIES), randomBase=rng.choice([False, True, 0.5]),
                            script="".join(rng.choice('NNNP') for _ in range(18))))
            continue
        if rng.random() < 0.4: F = round(rng.choice([rng.uniform(0.01, 2), 0.5, 1, 0.17]), 4)
        else:
            lo = rng.choice([0, 0.5, 0.3, 0.9, rng.uniform(0.001, 1.5)])
            F = [lo, rng.choice([lo, lo*3, 1.0 if lo <= 1 else 2.0, lo + rng.uniform(0, 2)]) if lo else rng.uniform(0.6, 2)]
        out.append(dict(seed=seed*100003 + k, kind='requests', F=F, CR=rng.choice([0.0, 0.2, 0.8, 0.9, 1.0, rng.random()]),
                        Np=rng.choice([4, 5, 20, 50, 100, 500, 2000]), adaptive=rng.random() < 0.85,
                        form=rng.choice(['tuple', 'list', 'array'])))
    return out


def run_requests(params, m):
    rng = random.Random(params['seed'])
    F, CR, Np, adaptive = params['F'], params['CR'], params['Np'], params['adaptive']
    seq = isinstance(F, list)
    given = F
    if seq: given = dict(tuple=tuple, list=list, array=np.array)[params['form']](F)
    fm = de_mod.FManager(given, CR, Np, adaptive)
    crit = math.sqrt((1 - CR/2)/Np)
    lo0, hi0 = F if seq else (F, F)
    if seq and lo0 == 0:
        lo0 = crit
        adaptive = False
    def same(a, b): return abs(a - b) <= 1e-12*abs(b)
    m.check(same(fm.lowest, lo0) and same(fm.highest, hi0), 'initial', "F={} CR={} Np={} starts as [{}, {}]", F, CR, Np, fm.lowest, fm.highest)
    limited = False
    lo, hi = fm.lowest, fm.highest
    ops = ''
    for phase in range(6):
        bias = rng.choice([0.0, 0.3, 0.5, 0.8, 1.0])
        for _ in range(rng.randint(1, 40)):
            op = 'u' if rng.random() < bias else 'd'
            ops += op
            (fm.up if op == 'u' else fm.down)()
            a, b = fm.lowest, fm.highest
            what = "F={} CR={} Np={} adaptive={} after {}: [{}, {}] -> [{}, {}]".format(F, CR, Np, params['adaptive'], ops[-12:], lo, hi, a, b)
            m.check(a <= lo0*(1+1e-12) and b <= hi0*(1+1e-12), 'above-original', "exceeds the original: {}", what)
            if not adaptive:
                m.count('never_adapted')
                m.check(a == lo and b == hi, 'not-adaptive', "changed without adaptation: {}", what)
                m.check(not fm.limited, 'limited', "limited without adaptation: {}", what)
            elif op == 'd':
                m.check(a <= lo and b <= hi, 'raised-by-lowering', "{}", what)
                if a < lo:
                    m.count('lowered')
                    m.check(a > crit, 'below-critical', "lower end at or below critical {}: {}", crit, what)
                if seq and b < hi:
                    m.count('upper_lowered')
                    m.check(b > 3*a, 'upper-too-low', "upper end lowered to within three times the lower: {}", what)
                limited = a == lo and b == hi
                if limited: m.count('limited')
                m.check(bool(fm.limited) == limited, 'limited', "limited is {} but lowering had {}effect: {}",
                        fm.limited, 'no ' if limited else '', what)
            else:
                m.check(a >= lo and b >= hi, 'lowered-by-raising', "{}", what)
                if a > lo or b > hi: m.count('raised')
                limited = False
                m.check(not fm.limited, 'limited', "limited right after raising: {}", what)
            lo, hi = a, b
            for _ in range(2):
                f = fm.get()
                m.count('draws')
                m.check(lo <= f <= hi and (seq or f == lo), 'draw', "drew F={} from [{}, {}]", f, lo, hi)
    lowered = lo < lo0*(1-1e-9) or hi < hi0*(1-1e-9)
    for _ in range(3000):
        fm.up()
        if fm.lowest == lo0 and fm.highest == hi0: break
    m.check(same(fm.lowest, lo0) and same(fm.highest, hi0), 'not-restored',
            "raising 3000 times gives [{}, {}] instead of [{}, {}]", fm.lowest, fm.highest, lo0, hi0)
    if lowered: m.count('restored')
    if seq:
        m.check(list(given) == list(F), 'argument-changed', "the sequence given for F was changed to {}", given)
    m.sig(params, ops)
    m.nontrivial = bool(m.counts.get('lowered') or m.counts.get('limited') or m.counts.get('never_adapted'))
    m.notes = dict(requests=ops[:60])


def run_run(params, m):
    """The requests a run makes: up after progress, down otherwise."""
    rng = random.Random(params['seed'])
    script = params['script']
    def objective(e):
        if e.cur is None: return round(rng.uniform(50, 100), 6)
        t = e.target[1]
        return t/3.0 if script[e.cur.gen] == 'P' else t*2.0
    cfg = dict(params)
    model = FModel(params['F'], params['CR'], params['Np'], params['adaptive'])
    first = [True]
    def onGeneration(run, kg):
        if first[0] or script[kg] == 'P': model.up()
        else: model.down()
        first[0] = False
        m.count('run_generations')
        fm = run.de.fm
        m.check(abs(fm.lowest - model.lo) < 1e-9 and abs(fm.highest - model.hi) < 1e-9, 'run-requests',
                "after generations {} of a run F is [{}, {}], expected [{}, {}]", script[:kg+1], fm.lowest, fm.highest, model.lo, model.hi)
    cfg['onGeneration'] = onGeneration
    run = lab.DERun(m, rng, cfg, objective, {'recipe'})
    run.setup()
    run.run(maxEvents=20000)
    m.sig(params)
    m.nontrivial = True
    m.notes = dict(script=script, F=[model.lo, model.hi])


def run_case(params, m):
    (run_run if params['kind'] == 'run' else run_requests)(params, m)
