"""C23: constraint helpers judge each vector by its own values only."""
import random, types, itertools
import numpy as np
from rv.sim import Population, constraints_mod, drain
from rv.lab import Lab, Evaluator

LEVEL = 'exploration'
ROUNDS = 4
RULE = ("Registries, dicts and ways of iterating are distinct by their content and order; non-trivial when the same object "
        "both passed and failed dicts.")
NEED = ['judgements', 'passes', 'failures', 'absent_parameters', 'log_parameters', 'appended_judged', 'collected_constraints',
        'interleaved_iterations', 'relations_judged', 'relations_failed', 'relations_at_limit', 'population_judgements',
        'two_objects', 'empty_registries', 'overlapping_names']


def cases(tier, seed):
    rng = random.Random(seed*43 + 23)
    return [dict(seed=seed*100069 + k, methods=rng.choice([0, 1, 2, 3, 5]), names=rng.choice([1, 2, 4, 6]),
                 appended=rng.choice([0, 0, 1, 2]), dicts=rng.choice([10, 25]), collect=rng.choice(['iterate', 'list', 'shuffle', 'interleave']),
                 pop=rng.random() < 0.4)
            for k in range(1500 if tier == 'quick' else 20000)]


class Model(object):
    """One registered method: what it should be called with and answer."""
    def __init__(self, name, linear, log, threshold, sign):
        self.name, self.linear, self.log, self.threshold, self.sign = name, linear, log, threshold, sign
        self.calls = []

    def names(self): return set(self.linear or ()) | set(self.log or ())

    def transformed(self, params):
        out = {}
        for n in self.log or (): out[n] = 10.0**params[n]
        for n in self.linear or (): out[n] = params[n]
        return out

    def answer(self, p): return self.sign*sum(float(np.sign(x)*abs(x)**0.5) for k, x in sorted(p.items())) <= self.threshold

    def judge(self, params):
        if not self.names() <= set(params): return None
        return self.answer(self.transformed(params))


def make(rng, params, m):
    pool = ['p{}'.format(k) for k in range(params['names'])]
    models = []
    for k in range(params['methods']):
        kind = rng.choice(['linear', 'log', 'both', 'overlap', 'none'])
        some = lambda: set(rng.sample(pool, rng.randint(1, len(pool))))
        lin = some() if kind in ('linear', 'both', 'overlap') else rng.choice([None, set()])
        log = some() if kind in ('log', 'both', 'overlap') else rng.choice([None, set()])
        # A name in both places is linear
        if lin and log and kind == 'both': log = (log - lin) or None
        if lin and log and lin & log: m.count('overlapping_names')
        models.append(Model('m{}'.format(k), lin, log, rng.uniform(-3, 6), rng.choice([1, -1])))
    ns = dict(registry={})
    for mod in models:
        ns['registry'][mod.name] = (mod.linear, mod.log)
        def method(self, p, mod=mod):
            mod.calls.append(dict(p))
            return mod.answer(p)
        method.__name__ = mod.name
        ns[mod.name] = method
    def setup(self, *args): self.setupArgs = args
    ns['setup'] = setup
    cls = type('C', (constraints_mod.Constraints,), ns)
    obj = cls('one', 2, someAttribute=rng.random())
    m.check(obj.setupArgs == ('one', 2), 'setup-args', "setup got {}", getattr(obj, 'setupArgs', None))
    appended = []
    for k in range(params['appended']):
        threshold = rng.uniform(-4, 4)
        log = []
        def func(p, threshold=threshold, log=log):
            log.append(p)
            return sum(p.values()) < threshold
        obj.append(func)
        appended.append((func, log, threshold))
    return pool, models, obj, appended


def run_case(params, m):
    rng = random.Random(params['seed'])
    pool, models, obj, appended = make(rng, params, m)
    second = make(rng, params, m) if rng.random() < 0.3 else None
    if second: m.count('two_objects')
    if not models: m.count('empty_registries')
    m.check(len(obj) == len(models) + len(appended), 'length', "length {} with {}+{}", len(obj), len(models), len(appended))
    m.check(bool(obj) == bool(models or appended), 'truth', "truth value {}", bool(obj))
    outcomes = set()
    collected = list(obj)
    m.check(len(collected) == len(models) + len(appended), 'iteration', "iterating gives {} constraints", len(collected))
    if len(collected) != len(models) + len(appended): return

    def judge(k, func, p):
        """Constraint number k, gotten as func, given dict p."""
        before = dict(p)
        if k < len(models):
            mod = models[k]
            n = len(mod.calls)
            got = func(p)
            want = mod.judge(p)
            m.count('judgements')
            if mod.log: m.count('log_parameters')
            calls = mod.calls[n:]
            if want is None:
                m.count('absent_parameters')
                m.check(bool(got) and not calls, 'absent', "constraint on {} given {}: {}, {} calls",
                        sorted(mod.names()), sorted(p), got, len(calls))
                return
            m.check(len(calls) == 1, 'calls', "method called {} times for one judgement", len(calls))
            others = [x.name for j, x in enumerate(models) if j != k and x.calls and x.calls[-1] is calls]
            if calls:
                w = mod.transformed(p)
                ok = set(calls[0]) == set(w) and all(abs(calls[0][x] - w[x]) <= 1e-9*abs(w[x]) for x in w)
                m.check(ok, 'transformed', "method on linear {} log {} given {} was called with {}",
                        mod.linear, mod.log, before, calls[0])
            # Rounding of the power must not matter
            if abs(mod.sign*sum(float(np.sign(x)*abs(x)**0.5) for x in mod.transformed(p).values()) - mod.threshold) > 1e-6:
                m.check(bool(got) == bool(want), 'verdict', "constraint {} of {} gave {} for {}, should be {}",
                        k, len(models), got, before, want)
        else:
            func0, log, threshold = appended[k - len(models)]
            n = len(log)
            got = func(p)
            want = sum(p.values()) < threshold
            m.count('appended_judged')
            m.check(bool(got) == bool(want) and len(log) == n + 1 and dict(log[-1]) == before, 'appended',
                    "appended function gave {} for {}, should be {}, was given {}", got, before, want, log[-1:])
        m.check(p == before, 'dict-changed', "the dict was changed by judging it: {} -> {}", before, p)
        m.count('passes' if got else 'failures')
        outcomes.add(bool(got))

    def someDict():
        names = [n for n in pool if rng.random() < 0.85]
        d = {n: rng.uniform(-3, 2) for n in names}
        if rng.random() < 0.5: d['unrelated'] = rng.uniform(-1, 1)
        return d

    for _ in range(params['dicts']):
        p = someDict()
        how = params['collect']
        if how == 'iterate':
            for k, func in enumerate(obj): judge(k, func, p)
        elif how == 'list':
            m.count('collected_constraints')
            for k, func in enumerate(collected): judge(k, func, p)
        elif how == 'shuffle':
            m.count('collected_constraints')
            order = list(enumerate(collected)); rng.shuffle(order)
            for k, func in order: judge(k, func, rng.choice([p, someDict()]))
        else:
            m.count('interleaved_iterations')
            q = someDict()
            a, b = enumerate(obj), enumerate(obj)
            held = []
            for _ in range(2*len(collected)):
                it = rng.choice([a, b])
                try: held.append(next(it))
                except StopIteration: continue
                if second:
                    for func in second[2]: func(someDict())
                judge(held[-1][0], held[-1][1], q)
                j = rng.choice(held)
                judge(j[0], j[1], p)

    # As the constraints of a population
    if params['pop'] and len(obj):
        L = Lab(rng, 'sync')
        pop = Population(Evaluator(L, lambda e: 1.0), pool, [(-3.0, 2.0)]*len(pool), constraints=obj)
        for _ in range(15):
            v = np.array([rng.uniform(-3, 2) for _ in pool])
            p = dict(zip(pool, v))
            want = all(mod.judge(p) for mod in models) and all(sum(p.values()) < th for f, lg, th in appended)
            close = any(abs(mod.sign*sum(float(np.sign(x)*abs(x)**0.5) for x in mod.transformed(p).values()) - mod.threshold) < 1e-6
                        for mod in models)
            got = pop.pm.passesConstraints(v)
            m.count('population_judgements')
            m.check(close or bool(got) == want, 'population', "population with these constraints passes {}: {}, should be {}", p, got, want)

    # Relations
    rel, names = {}, pool + ['q0', 'q1']
    for x in rng.sample(names, rng.randint(0, 2)):
        rel[x] = {y: (rng.uniform(-3, 3), rng.uniform(-2, 2), rng.choice([0.5, 1, 3])) for y in rng.sample(names, rng.randint(1, 2)) if y != x}
    checker = constraints_mod.RelationsChecker(rel)
    for _ in range(8):
        p = {n: rng.uniform(-3, 3) for n in names}
        exactly = False
        if rel and rng.random() < 0.6:
            # Put it on or near the lines
            for x in rel:
                for y in rel[x]:
                    mm, b, e = rel[x][y]
                    f = rng.choice([0, 0.5, 0.9, -0.9, 1.01, -1.01, 1.5, -2])
                    p[y] = mm*p[x] + b + f*e
        elif rel and rng.random() < 0.5:
            # Exactly at the allowed error, without any rounding
            x = rng.choice(sorted(rel))
            rel2 = {x: {'yy': (2, 1, 0.5)}}
            p2 = {x: rng.randint(-4, 4), 'yy': 0}
            p2['yy'] = 2*p2[x] + 1 + rng.choice([0.5, -0.5])
            m.count('relations_at_limit')
            m.check(bool(constraints_mod.RelationsChecker(rel2)(p2)), 'relation-limit', "{} fails {} at exactly the allowed error", p2, rel2)
        devs = [abs(mm*p[x] + b - p[y]) - e for x in rel for y, (mm, b, e) in rel[x].items()]
        if any(abs(d) < 1e-9 for d in devs): continue
        want = all(d < 0 for d in devs)
        before = dict(p)
        got = checker(p)
        m.count('relations_judged')
        if not want: m.count('relations_failed')
        m.check(bool(got) == want, 'relation', "relations {} on {}: {}, should be {}", rel, p, got, want)
        m.check(p == before, 'dict-changed', "relations checker changed the dict")
    m.sig(params['seed'], len(models), params['collect'])
    m.nontrivial = len(outcomes) == 2
