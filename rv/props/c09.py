"""C09: a vector violating any constraint is never evaluated and never a member."""
import random
import numpy as np
from rv import decases, lab
from rv.lab import POLICIES, norm
from rv.sim import constraints_mod, Population, reactor, CUR

LEVEL = 'exploration'
ROUNDS = 8
RULE = ("Cases are distinct by configuration, constraint set and its changes; non-trivial when at least one vector "
        "was rejected or setup was aborted for lack of a conforming one.")
NEED = ['vectors_judged', 'consultations', 'rejections', 'members_judged', 'unsatisfiable_setups', 'constraints_changed',
        'constraints_cleared', 'helper_instances', 'rejected_challenges']


def cases(tier, seed):
    n = 400 if tier == 'quick' else 4000
    return decases.configs(seed, n, policies=POLICIES + ['sync'], objectives=['noise', 'better', 'weird', 'sphere'],
                           _Np=[4, 6, 10, 20], _Nd=[1, 2, 3, 4], _maxiter=[2, 4, 6], _bounds=['unit', 'tight', 'wide', 'int'],
                           _form=['single', 'list', 'tuple', 'helper', 'object', 'list', 'helper'],
                           _keep=[0.9, 0.6, 0.3, 0.1, 0.0, 0.7], _count=[1, 2, 3],
                           _change=['none', 'replace', 'clear', 'midrun', 'clearmid'], _blank=[False, False, False, True],
                           _noneReturns=[None, 5.0], _setupPolicy=['sync', 'random', 'hold', 'fifo'])


class Predicate(object):
    """One constraint with its own idea of which vectors are fine."""
    def __init__(self, case, keep, rng):
        self.case = case
        self.keep = keep
        self.j = rng.randrange(case.Nd)
        self.salt = rng.uniform(100, 10000)
        self.narrow = False       # sees only its own parameter
        self.log = False          # gets ten to the power of it
        self.truth = rng.choice([(True, False), (1, 0), (np.True_, np.False_), ('yes', ''), ([0], []), (2.5, None)])

    def fine(self, params):
        name = self.case.names[self.j]
        lo, hi = self.case.bounds[self.j]
        u = (float(params[name]) - lo)/(hi - lo)
        # Must not depend on the last digits, which bringing a value into
        # bounds may change
        return (round(u, 9)*self.salt) % 1.0 < self.keep

    def __call__(self, params):
        m = self.case.m
        m.count('consultations')
        if self.narrow:
            name = self.case.names[self.j]
            ok = self.fine({name: np.log10(params[name]) if self.log else params[name]})
        else:
            m.check(set(params) == set(self.case.names), 'dict', "constraint consulted with names {}", sorted(params))
            ok = self.fine(params)
        if not ok:
            m.count('rejections')
            cur = CUR.get()
            if cur is not None and self in self.case.inForce: cur.rejected = True
        return self.truth[0] if ok else self.truth[1]


class Case(object):
    def __init__(self, params, m, rng):
        self.m, self.rng, self.params = m, rng, params
        self.Nd = params['Nd']
        self.names = ["x{}".format(k) for k in range(self.Nd)]
        rng.shuffle(self.names)
        self.bounds = lab.bounds_for(rng, params['bounds'], self.Nd)
        self.inForce = []

    def predicates(self, keep=None):
        p = self.params
        if keep is None: keep = p['keep']
        n = 1 if p['form'] in ('single', 'object') else p['count']
        return [Predicate(self, keep**(1.0/n), self.rng) for _ in range(n)]

    def package(self, preds, form):
        """What the user passes as the constraints keyword."""
        if form == 'single': return lambda params: preds[0](params)
        if form == 'object': return preds[0]
        if form == 'list': return list(preds)
        if form == 'tuple': return tuple(preds)
        case = self
        registry, methods = {}, {}
        appended = []
        for n, x in enumerate(preds):
            way = self.rng.choice(['linear', 'log', 'append'])
            if way == 'append':
                appended.append(x)
                continue
            name = 'check{}'.format(n)
            x.narrow = True
            x.log = way == 'log'
            methods[name] = lambda self, params, x=x: x(params)
            registry[name] = [{case.names[x.j]}, None] if way == 'linear' else [None, {case.names[x.j]}]
        methods['registry'] = registry
        h = type('Helper', (constraints_mod.Constraints,), methods)()
        for x in appended: h.append(x)
        self.m.count('helper_instances')
        return h

    def conforms(self, values):
        params = dict(zip(self.names, [float(x) for x in values]))
        return all(x.fine(params) for x in self.inForce)


def run_case(params, m):
    rng = random.Random(params['seed'])
    case = Case(params, m, rng)
    preds = case.predicates()
    case.inForce = preds
    unsat = params['keep'] == 0.0
    objective = decases.objective(params['objective'], rng)
    cfg = dict(params)
    cfg.update(boundsList=case.bounds, names=case.names, pop=dict(constraints=case.package(preds, params['form'])))
    cfg.pop('constraint', None)
    atSetup = [True]
    def onGeneration(run, kg):
        judge_members(run, "at the end of generation {}".format(kg))
        n = sum(1 for e in run.ev.evals if e.cur and e.cur.gen == run.gen)
        rej = [c.kt for c in run.challenges if c.gen == run.gen and c.rejected]
        m.count('rejected_challenges', len(rej))
        m.check(n + len(rej) == params['Np'], 'evaluation-cost', "{} evaluations, {} rejected trials, {} positions",
                n, len(rej), params['Np'])
        for k in rej:
            m.check(run.sameAs(run.p[k], *run.before[k]), 'target-changed', "position {} changed although its trial was rejected", k)
        if kg == 0 and params['change'] in ('midrun', 'clearmid'): change(run, params['change'] == 'clearmid')
    def change(run, clear):
        if clear:
            case.inForce = []
            run.p.setConstraints()
            m.count('constraints_cleared')
        else:
            new = case.predicates(rng.choice([0.3, 0.6]))
            case.inForce = new
            grandfather[:] = [np.array(i.values) for i in run.p]
            run.p.setConstraints(*new)
            m.count('constraints_changed')
    grandfather = []
    def judge_members(run, when):
        for k, i in enumerate(run.p):
            if any(np.array_equal(i.values, v) for v in grandfather): continue
            m.count('members_judged')
            if not case.conforms(i.values):
                m.bad('member-violates', "{}: member {} at {} violates a constraint in force", when, list(i.values), k)
                return
    cfg['onGeneration'] = onGeneration
    run = lab.DERun(m, rng, cfg, objective, set())
    run.p.maxTries = 25 if unsat else 3000
    run.ev.noneResult = params['noneReturns']
    old = run.ev.onStart
    def started(e):
        m.count('vectors_judged')
        if not case.conforms(e.values):
            m.bad('evaluated-violating', "{} {} was evaluated although it violates a constraint in force",
                  'initial vector' if e.cur is None else 'challenger', list(e.values))
        old(e)
    run.ev.onStart = started
    result = run.setup(blank=params['blank'])
    judge_members(run, "after setup")
    m.sig(params)
    if unsat:
        m.count('unsatisfiable_setups')
        m.check(result is not True, 'setup-ready', "setup reported success although no vector conforms")
        m.check(len(run.p) == 0, 'admitted', "{} members admitted although no vector conforms", len(run.p))
        m.nontrivial = True
        return
    m.check(result is True, 'setup-result', "setup gave {!r}", result)
    m.check(len(run.p) == params['Np'], 'setup-count', "{} members", len(run.p))
    if params['blank']: 
        m.nontrivial = bool(m.counts.get('rejections'))
        return
    if params['change'] in ('replace', 'clear'): change(run, params['change'] == 'clear')
    run.run()
    judge_members(run, "after the run")
    m.nontrivial = bool(m.counts.get('rejections'))
    m.notes = dict(rejections=m.counts.get('rejections'), consultations=m.counts.get('consultations'))
