"""C06: a run stops exactly when its stopping rules say so."""
import random
from rv import decases, lab
from rv.lab import POLICIES, norm, INF
from rv.fmodel import StopModel

LEVEL = 'exploration'
ROUNDS = 6
RULE = ("Runs are distinct by configuration and script of generations; non-trivial when a rule other than "
        "maxiter applied, or was configured and must not apply.")
NEED = ['runs', 'stopped_by_goal', 'stopped_by_dwell', 'stopped_by_maxiter', 'dwell_restarted', 'generations_predicted']

#: What happens in a generation: P all challengers win big, p one does, E all
#: win by an insignificant amount, T all tie, N all lose, I all fail
KINDS = 'PpETNI'


def cases(tier, seed):
    n = 420 if tier == 'quick' else 4000
    out = decases.configs(
        seed, n, policies=POLICIES + ['sync'], objectives=['script'],
        _Np=[4, 4, 5, 6, 8, 12], _Nd=[1, 2, 3], _maxiter=[0, 1, 2, 7, 15, 25, 40, 40],
        _F=[0.5, 0.5, 0.4, 0.9, 0.3, [0.5, 1.0], [0.3, 2.0], [0, 1]],
        _adaptive=[True, True, True, False], _bitterEnd=[False, False, False, True],
        _dwellByGrave=[0, 1, 2, 3, 5], _goal=[None, None, 'reach', 'exact', 'far', 0])
    for c in out:
        rng = random.Random(c['seed']*3 + 1)
        style = rng.choice(['N', 'mostlyN', 'mix', 'late', 'wide'])
        script = ''
        for g in range(c['maxiter'] + 2):
            if style == 'N': x = 'N'
            elif style == 'mostlyN': x = rng.choice('NNNNNNNN' + KINDS)
            elif style == 'mix': x = rng.choice(KINDS)
            elif style == 'late': x = 'N' if g < 10 else rng.choice('NNNP')
            else: x = rng.choice('NNNNNNNNNNNNNNp')
            script += x
        c['script'] = script
    return out


def run_case(params, m):
    script = params['script']
    rng = random.Random(params['seed'])
    cfg = dict(params)
    goal = params['goal']
    # Members have SSEs from 50 to 100; best is known in advance because the
    # script says by how much challengers win
    cfg['goalSSE'] = {None: None, 'reach': rng.uniform(0.1, 60), 'exact': None, 'far': 1e-30, 0: 0}[goal]
    if cfg['goalSSE'] is None: cfg.pop('goalSSE')
    scores = []
    def objective(e):
        if e.cur is None: return round(rng.uniform(50, 100), 6)
        g = e.cur.gen
        while len(scores) <= g: scores.append(0.0)
        kind = script[g]
        t = e.target[1]
        if kind == 'p': kind = 'P' if e.cur.kt == g % params['Np'] else 'N'
        if kind == 'P': return t/3.0
        if kind == 'E': return t*0.999
        if kind == 'T': return t
        if kind == 'I': return rng.choice([INF, None, float('nan')])
        return t*rng.choice([1.0001, 1.5, 100])
    last = []
    model = [None]
    goesOn = [True]
    def onGeneration(run, kg): pass
    run = lab.DERun(m, rng, cfg, objective, set())
    run.p.addCallback(lambda values, counter, SSE: last.append((list(values), float(SSE))))
    run.setup()
    if goal == 'exact':
        # The goal is what the best will be at some generation end, give or
        # take nothing: being equal to the goal is not below it
        b = min(s for v, s in run.M)
        for x in script[:rng.randint(0, 4)]:
            if x == 'P': b /= 3.0
            elif x == 'E': b *= 0.999
        run.cfg['goalSSE'] = b
        cfg['goalSSE'] = b
    model = StopModel(cfg)
    # Predict
    SSEs = [s for v, s in run.M]
    goesOn = cfg['maxiter'] > 0
    dwelt = 0
    g = 0
    while goesOn:
        kind = script[g]
        score = 0.0
        best = min(SSEs)
        new = []
        for k, s in enumerate(SSEs):
            x = kind if kind != 'p' else ('P' if k == g % params['Np'] else 'N')
            if x == 'P': s, score = s/3.0, score + 2.5
            elif x == 'E': s, score = s*0.999, score + 0.1
            elif x in 'TI': score += 0.1
            new.append(s)
        if min(new) < best: score += 0.5
        SSEs = new
        before = model.dwell
        goesOn = model.generation(score, min(SSEs))
        if before and not model.dwell: m.count('dwell_restarted')
        g += 1
    m.count('generations_predicted', model.gens)
    result = run.run(maxEvents=5000 + 20*params['Np']*(params['maxiter'] + 2))
    m.count('runs')
    m.count('stopped_by_' + model.why)
    evals = [e for e in run.ev.evals if e.phase == 'run']
    gens = len(evals)/float(params['Np'])
    m.check(gens == model.gens, 'generation-count',
            "run performed {} generations, its rules ({}) prescribe {}: script {} maxiter {} goal {} F {} CR {} Np {} "
            "adaptive {} bitterEnd {} dwellByGrave {}", gens, model.why, model.gens, script[:model.gens+2], cfg['maxiter'],
            cfg.get('goalSSE'), cfg['F'], cfg['CR'], cfg['Np'], cfg['adaptive'], cfg['bitterEnd'], cfg['dwellByGrave'])
    m.check(result is run.p, 'result', "the run's Deferred fired with {!r}", result)
    if m.violations: return
    m.check(run.kgs == list(range(model.gens)), 'callback-count',
            "generation callback got {} in {} generations", run.kgs[-3:], model.gens)
    b = run.p.best()
    m.check(last and last[-1] == (list(b.values), float(b.SSE)), 'best-not-reported',
            "best member {} not reported last, which was {}", b, last[-1:])
    m.sig(params['script'][:model.gens], cfg.get('goalSSE'), params)
    m.nontrivial = model.why != 'maxiter' or 'goalSSE' in cfg or (cfg['adaptive'] and not cfg['bitterEnd'])
    m.notes = dict(why=model.why, generations=model.gens)
