"""C36: what cannot be used is refused, and refusing changes nothing."""
import random, io, re
import numpy as np
from rv import decases, sim
from rv.sim import Population, Individual, DifferentialEvolution, abort, reactor, msg, fresh, drain, enter
from rv.lab import small_population

LEVEL = 'exploration'
ROUNDS = 8
RULE = "Pairs of runs are distinct by configuration and attempts; non-trivial when at least four kinds of attempts were refused while evaluations were in flight."
KINDS = ['function', 'bounds', 'names', 'constraint', 'one_constraint', 'callback', 'member', 'position', 'twice', 'crossover', 'spawn', 'update', 'many_best',
         'random_base', 'on_abort', 'parameter']
TIME = re.compile(r'avg eval time \S+')      # real time, different in each run
NEED = ['pairs', 'attempts', 'in_flight', 'in_setup', 'aborted_pairs', 'aborted_members'] + ['refused_' + k for k in KINDS]


def cases(tier, seed):
    out = decases.configs(seed + 3600, 150 if tier == 'quick' else 1500, objectives=['noise', 'sphere', 'weird', 'ties'])
    for k, c in enumerate(out):
        c['abort'] = k % 7 == 3
        c['constrained'] = k % 3 == 1
    return out


def attempt(m, kind, p, rng, log):
    """Something that has to be refused. Returns what it did, None if nothing was raised."""
    k = rng.randrange(len(p)) if len(p) else 0
    names = list(p.pm.names)
    thing = rng.choice([None, 3, "fun", [1, 2], 4.5])
    bounds = [(0, 1)]*p.Nd
    f = lambda values: 1.0
    try:
        if kind == 'function': Population(thing, names, bounds)
        elif kind == 'bounds': Population(f, names, rng.choice([bounds + [(0, 1)], bounds[:-1]]))
        elif kind == 'names': Population(f, names + ['extra'], bounds)
        elif kind == 'constraint': p.setConstraints(*rng.choice([(thing, f), (f, thing), (f, f, thing)]))
        elif kind == 'one_constraint': p.setConstraints(thing)
        elif kind == 'callback': p.addCallback(thing)
        elif kind == 'member': p[k] = rng.choice([thing, [0.5]*p.Nd, np.zeros(p.Nd)])
        elif kind == 'position':
            i = p.spawn(np.array([float(rng.random()) for _ in range(p.Nd)])); i.SSE = rng.choice([1e-9, 5.0, 1e9])
            p[len(p) + rng.choice([0, 1, 30])] = i
        elif kind == 'twice':
            k2 = rng.randrange(len(p))
            p.lock(*rng.choice([(k, k), (k2, k, k), (k, k2, k)]))
        elif kind == 'crossover': DifferentialEvolution(p, CR=rng.choice([-0.01, 1.01, -3, 2, 80]), logHandle=log)
        elif kind == 'spawn': p.spawn(np.zeros(p.Nd + rng.choice([1, -1])))
        elif kind == 'update': p[k].update(rng.choice([[0.5]*(p.Nd + 1), (0.5,)*(p.Nd - 1), np.ones(p.Nd + 2)]))
        elif kind == 'many_best': p.sample(2, randomBase=rng.choice([False, 0.0]))
        elif kind == 'random_base': p.sample(1, randomBase=rng.choice([1.5, 2, -0.5]))
        elif kind == 'on_abort': abort.callOnAbort(thing)
        elif kind == 'parameter': p[k]['no-such-parameter']
    except (ValueError, TypeError, IndexError, KeyError, AttributeError, AssertionError) as e:
        return e
    return None


def state(p):
    h = p.history
    K = [int(k) for k in h.K]
    return dict(members=[(id(i), [float(x) for x in i.values], repr(i.SSE)) for i in p], order=[int(k) for k in p.KS] if len(p) else [],
                records=[tuple(float(x) for x in h.X[k]) for k in K], marks=[(k in h.Kp, k in h.Kn) for k in K], total=h.N_total,
                counter=p.counter, locked=[bool(l.locked) for l in p.dLocks], waiting=[len(l.waiting) for l in p.dLocks], constraints=list(p.pm.constraints),
                callbacks=len(p.reporter.callbacks), bounds=[list(p.pm.mins), list(p.pm.maxs)], names=list(p.pm.names),
                triggers=len(reactor._triggers))


def one(params, m, disturb):
    """One run; if disturb, with refused attempts at some of the evaluations. Returns what came of it."""
    fresh(params['seed'])
    log = io.StringIO()
    log.close = lambda: None
    cfg = {}
    if params['constrained']: cfg['constraint'] = lambda d: sum(d.values()) % 1.0 < 0.8
    run = decases.build(m, params, set(), **cfg)
    p = run.p
    arng = random.Random(params['seed'] + 1)        # only for attempts
    seen = []
    p.addCallback(lambda values, counter, SSE: seen.append(([float(x) for x in values], counter, repr(SSE))))
    onStart = run.ev.onStart
    done = set()
    def start(e):
        if disturb and arng.random() < 0.3:
            for _ in range(arng.choice([1, 1, 3])):
                kind = arng.choice(KINDS)
                if not len(p) and kind in ('member', 'twice', 'update', 'many_best', 'random_base', 'parameter'): continue
                if e.phase != 'run' and kind in ('position', 'twice', 'many_best', 'random_base'): continue
                m.count('attempts')
                m.count('in_flight' if e.phase == 'run' else 'in_setup')
                before = state(p)
                err = attempt(m, kind, p, arng, log)
                if m.check(err is not None, 'not-refused', "{} not refused", kind):
                    m.count('refused_' + kind)
                    if len(run.ev.inFlight): done.add(kind)
                after = state(p)
                for name in before:
                    m.check(before[name] == after[name], 'changed', "{} changed by refused {}: {} became {}", name, kind, str(before[name])[:200], str(after[name])[:200])
        if onStart: onStart(e)
        if params['abort'] and e.phase == 'run' and e.id == params['Np']*2 + 3: enter()
    run.ev.onStart = start
    msg(log)
    run.setup()
    run.lab.drive(run.start(logHandle=log), maxEvents=20000)
    run.lab.settle()
    drain()
    if params['abort'] and len(run.ev.evals) > params['Np']*2 + 3: m.count('aborted_pairs' if disturb else 'aborted_members', max(1, len(p)))
    out = dict(evals=[([float(x) for x in e.values], repr(e.raw)) for e in run.ev.evals], seen=seen, log=TIME.sub('', log.getvalue()), generations=run.kgs)
    s = state(p)
    for name in ('members', 'constraints', 'triggers'): out[name] = s.pop(name) if name == 'triggers' else None if name == 'constraints' else [x[1:] for x in s.pop(name)]
    s.pop('constraints')
    out.update(s)
    msg(None)
    return out, done


def run_case(params, m):
    plain, _ = one(params, m, False)
    got, done = one(params, m, True)
    m.count('pairs')
    for name in plain:
        m.check(plain[name] == got[name], 'consequence', "{} differ after refused attempts: {} instead of {}", name, str(got[name])[-300:], str(plain[name])[-300:])
    if len(done) >= 4: m.nontrivial = True
    m.sig(params['seed'])
