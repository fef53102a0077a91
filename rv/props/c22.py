"""C22: saving and loading preserves the population, history and resumability."""
import os, sys, json, random, shutil, subprocess, tempfile
import numpy as np
from rv.sim import reactor, history, Population, DifferentialEvolution, Hang, drain, abort
from rv.lab import Lab, Evaluator, Boom, norm
from rv.saved import (
    FloatSSE, SmallPopulation, Half, sumConstraint, objective, snapshot, records, further, bits)

LEVEL = 'exploration'
ROUNDS = 2
RULE = ("Lives of a population are distinct by configuration, by the moment of saving and by the way of loading; "
        "non-trivial when a population with members was loaded and compared.")
NEED = ['saves', 'loads', 'members_compared', 'histories_compared', 'resumed_runs_compared', 'resumed_evaluations',
        'other_process', 'new_bounds', 'members_limited', 'saved_new', 'saved_blank', 'saved_setup', 'saved_run', 'saved_generation',
        'saved_flight', 'saved_aborted', 'saved_pending', 'saved_again', 'home_paths', 'resumed_after_abort',
        'setup_after_load', 'complaints_after_load', 'records_dropped_before']
STAGES = ['new', 'blank', 'setup', 'run', 'generation', 'flight', 'abortrun', 'abortsetup', 'pending']


def cases(tier, seed):
    rng = random.Random(seed*41 + 22)
    out = []
    for k in range(560 if tier == 'quick' else 6000):
        out.append(dict(seed=seed*100057 + k, stage=STAGES[k % len(STAGES)], Nd=rng.choice([1, 2, 3, 4]),
                        cons=rng.choice(['none', 'none', 'func', 'half', 'both']), sse=rng.choice(['float', 'np', 'int', 'sub']),
                        bounds=rng.choice(['plain', 'int', 'neg', 'narrow']), popsize=rng.choice([None, 2, 5, 7]),
                        debug=rng.random() < 0.3, tf=rng.choice([None, 0.01, 0.3]), home=rng.random() < 0.15,
                        again=rng.choice([0, 0, 1, 2]), rebound=rng.random() < 0.3, base=rng.random() < 0.3,
                        sub=rng.random() < 0.7, small=rng.random() < 0.25, gens=rng.choice([1, 2, 4]), process=(k % (20 if tier == 'quick' else 40) == 3)))
    return out


BOUNDS = dict(plain=(-5.0, 5.0), int=(-5, 5), neg=(-20.0, -0.5), narrow=(0.29, 0.31))


def sseOf(kind, x):
    if kind == 'np': return np.float64(x)
    if kind == 'int': return int(x*100)
    if kind == 'sub': return FloatSSE(x, extra=('tag', round(x, 3)))
    return x


def run_case(params, m):
    scratch = tempfile.mkdtemp(prefix='rv-')
    home = os.environ.get('HOME')
    try:
        os.environ['HOME'] = scratch
        life(params, m, scratch)
    finally:
        if home is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = home
        shutil.rmtree(scratch)


def compare(m, what, a, b, skip=()):
    for key in a:
        if key in skip: continue
        if a[key] != b[key]:
            d = ''
            if isinstance(a[key], list) and len(a[key]) == len(b[key]):
                d = [(x, y) for x, y in zip(a[key], b[key]) if x != y][:1]
            m.bad('differs-' + key, "{}: {} differ: {}", what, key, d or (a[key], b[key]))
        m.count('checks')


def life(params, m, scratch):
    rng = random.Random(params['seed'])
    stage, Nd = params['stage'], params['Nd']
    names = ['b', 'a', 'zeta', 'C4'][:Nd]
    bounds = [BOUNDS[params['bounds']]]*Nd
    if params['bounds'] == 'plain': bounds = [(lo - k, hi + 2*k) for k, (lo, hi) in enumerate(bounds)]
    kw = {}
    if params['cons'] == 'func': kw['constraints'] = [sumConstraint]
    elif params['cons'] == 'half': kw['constraints'] = Half(limit=3.5)
    elif params['cons'] == 'both':
        kw['constraints'] = Half(limit=3.5)
        kw['constraints'].append(sumConstraint)
    if params['popsize']: kw['popsize'] = params['popsize']
    if params['debug']: kw['debug'] = True
    if params['tf']: kw['targetFraction'] = params['tf']
    kind = params['sse']
    L = Lab(rng, 'sync')
    ev = Evaluator(L, lambda e: sseOf(kind, objective(e.values)))
    cls = SmallPopulation if params['sub'] else Population
    p = cls(ev, names, bounds, **kw)
    if params['small']: p.history = history.History(list(names), N_max=p.Np + 4)
    path = '~/pop.dat' if params['home'] else os.path.join(scratch, 'pop.dat')
    real = os.path.join(scratch, 'pop.dat')
    saved = {}

    def save(when):
        before = snapshot(p)
        p.save(path)
        m.count('saves')
        m.check(snapshot(p) == before, 'save-changed', "{}: saving changed the population", when)
        if params['home']:
            m.count('home_paths')
            m.check(os.path.exists(real), 'home', "saving to ~ did not write in the home directory")
        saved['snapshot'] = before
        for j in range(params['again']):
            # Once more over the old file
            p.save(path)
            m.count('saved_again')

    exact = True            # the history can be compared exactly
    if stage == 'new':
        save('new'); m.count('saved_new')
    elif stage == 'blank':
        L.drive(p.setup(blank=True)); save('blank'); m.count('saved_blank')
    elif stage == 'abortsetup':
        L.policy = 'hold'
        d = p.setup()
        n = rng.randint(1, max(1, min(p.Np, 12)))
        box = []; d.addBoth(box.append)
        for _ in range(400):
            if box or sum(e.done for e in ev.evals) >= n: break
            L.step()
        abort.abortNow()
        L.settle()
        drain(2000)
        save('after an aborted setup'); m.count('saved_aborted')
    else:
        L.drive(p.setup())
        if stage == 'setup':
            if rng.random() < 0.5: drain(2000)
            save('setup'); m.count('saved_setup')
        else:
            opts = dict(logHandle=None, maxiter=params['gens'], bitterEnd=True)
            if params['base']: opts['randomBase'] = 0.4
            de = DifferentialEvolution(p, **opts)
            if stage in ('run', 'pending'):
                L.drive(de())
                if stage == 'pending':
                    drain(2000)
                    for _ in range(rng.randint(1, 6)):
                        i = p.spawn(np.array([rng.uniform(lo, hi) for lo, hi in bounds]))
                        i.SSE = rng.uniform(0.001, 20)
                        r = rng.random()
                        if r < 0.5: p[rng.randrange(len(p))] = i
                        elif r < 0.7: p.push(i)
                        elif r < 0.9: p.history.add(i, neverInPop=True)
                        else: rng.choice(list(p)).blacklist()
                        if rng.random() < 0.2: reactor.step()
                    m.count('saved_pending')
                # (Which record makes room for a pending addition is not determined)
                if params['small']:
                    if stage == 'pending': exact = False
                    else: drain(2000)
                save(stage); m.count('saved_run')
            elif stage == 'generation':
                at = rng.randrange(params['gens'])
                def gen(kg):
                    if kg == at: save('generation'); m.count('saved_generation'); saved['records'] = None
                L.drive(de(gen))
                exact = False
            else:
                L.policy = rng.choice(['hold', 'random', 'lifo'])
                d = de()
                box = []; d.addBoth(box.append)
                n0 = len(ev.evals)
                want = rng.randint(1, p.Np)
                for _ in range(3000):
                    if box or sum(e.done for e in ev.evals[n0:]) >= want: break
                    L.step()
                if stage == 'flight':
                    save('in flight'); m.count('saved_flight')
                    exact = False
                    m.count('evaluations_in_flight_at_save', len(ev.inFlight))
                L_abort = stage == 'abortrun'
                if L_abort: abort.abortNow() if rng.random() < 0.5 else de.shutdown()
                L.settle()
                if not box: raise Hang("run did not end")
                if L_abort:
                    drain(2000)
                    save('after abort'); m.count('saved_aborted')
                L.policy = 'sync'
    L.policy = 'sync'
    drain(3000)
    orig = records(p.history) if exact else None
    if len(p.history) < p.history.N_total: m.count('records_dropped_before')
    abort.restart()
    snap = saved['snapshot']
    content = open(real, 'rb').read()

    # The same in another process
    if params['process']:
        m.count('other_process')
        out = os.path.join(scratch, 'out.json')
        env = dict(os.environ, PYTHONHASHSEED=str(1 + params['seed'] % 4000))
        g = 2 if len(snap['members']) == p.Np and stage != 'blank' else 0
        subprocess.run([sys.executable, '-m', 'rv.saved', real, str(params['seed']), str(g), out], check=True, env=env, timeout=120,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                       stdout=subprocess.DEVNULL)
        other = json.load(open(out))
        compare(m, "{}, loaded in another process".format(stage), json.loads(json.dumps(snap)), other['snapshot'])
        if exact: compare(m, "history in another process", json.loads(json.dumps(orig)), other['records'])
        m.count('loads')
        if g:
            q = Population.load(path, func=ev); drain(3000)
            ev.objective = lambda e: objective(e.values)
            seen = further(q, params['seed'], g, L, ev)
            ev.objective = lambda e: sseOf(kind, objective(e.values))
            m.check(seen == other['seen'], 'other-process-run',
                    "{}: resumed in another process evaluates something else", stage)
            m.count('resumed_runs_compared')

    # In this process
    q = Population.load(path, func=ev)
    m.count('loads')
    m.check(type(q) is type(p), 'class', "{}: loaded population is a {}", stage, type(q).__name__)
    now = snapshot(q)
    compare(m, "{}, loaded".format(stage), snap, now)
    m.count('members_compared', len(snap['members']))
    drain(3000)
    r = records(q.history)
    m.check(r['ascending'], 'history-order', "{}: history roster not in order after loading", stage)
    m.count('histories_compared')
    if exact: compare(m, "{}, history".format(stage), orig, r)
    # Whatever the moment, members with finite SSE are recorded as such
    want = sorted(['in', bits(np.float32(float(i.SSE)))] + [bits(np.float32(x)) for x in i.values]
                  for i in q if np.isfinite(float(i.SSE)))
    m.check([x for x in r['rows'] if x[0] == 'in'] == want, 'history-members',
            "{}: {} members but {} records of members after loading", stage, len(want), sum(x[0] == 'in' for x in r['rows']))
    m.check(not any(x is y for x in q for y in p), 'shared', "loaded population shares an individual with the original")
    m.check(q.history is not p.history and q.pm is not p.pm, 'shared', "loaded population shares its history")

    # Further runs: the original, and copies loaded from the same file, do the same
    full = len(snap['members']) == p.Np
    if full and not m.violations:
        runs = []
        opts = dict(randomBase=0.5) if params['base'] else {}
        seed = params['seed'] + 5
        aborted = stage in ('abortrun',)
        # (Individuals put in by hand have not been reported, which counts as progress of the original)
        if not aborted and stage in ('run', 'setup'): runs.append(('the original', p))
        runs.append(('the loaded population', q))
        runs.append(('a second loaded population', Population.load(path, func=ev)))
        drain(3000)
        seq = []
        for what, x in runs:
            seen = further(x, seed, params['gens'], L, ev, **opts)
            drain(3000)
            seq.append((what, seen, snapshot(x)['members'], records(x.history)))
            m.count('resumed_evaluations', len(seen))
            m.check(len(seen) > 0, 'not-resumed', "{}: {} did no evaluations when run", stage, what)
            if aborted: m.count('resumed_after_abort')
            m.check(all(norm(sseOf(kind, objective(np.array(i.values)))) == norm(i.SSE) or stage in ('pending', 'blank') for i in x),
                    'wrong-sse', "{}: member of {} has an SSE its values do not have", stage, what)
        for what, seen, mem, rec in seq[1:]:
            m.count('resumed_runs_compared')
            m.check(seen == seq[0][1], 'run-differs', "{}: run of {} evaluates otherwise than {}", stage, what, seq[0][0])
            strip = lambda mm: [x[:4] + x[5:] for x in mm]
            m.check(strip(mem) == strip(seq[0][2]), 'outcome-differs', "{}: run of {} gives other members than {}: {}", stage, what, seq[0][0],
                    [(x, y) for x, y in zip(strip(mem), strip(seq[0][2])) if x != y][:2])
            if not params['small']: m.check(rec == seq[0][3], 'history-differs', "{}: run of {} gives another history than {}", stage, what, seq[0][0])
    elif not full and not m.violations:
        # It can be set up afresh
        ok = L.drive(q.setup())
        m.count('setup_after_load')
        m.check(ok is True and len(q) == q.Np, 'setup-after-load', "{}: setup after loading gave {}, {} members", stage, ok, len(q))

    # Complaint callback given on loading
    if full and rng.random() < 0.5:
        asked = []
        def complain(i, *args): asked.append(i); return None
        q2 = Population.load(path, func=ev, complaintCallback=complain)
        reported = []
        def report(values, counter, SSE):
            reported.append(float(SSE))
            return "do not like it"
        q2.addCallback(report)
        further(q2, 3, 1, L, ev)
        m.check(bool(asked) == bool(reported), 'complaint', "{} reports, {} complaint calls", len(reported), len(asked))
        if asked: m.count('complaints_after_load')

    # New bounds
    if params['rebound']:
        nb = []
        for lo, hi in bounds:
            w = float(hi) - float(lo)
            a, b = sorted([lo + w*rng.uniform(-0.2, 1.0), lo + w*rng.uniform(0, 1.2)])
            nb.append((a, max(b, a + 0.05*w)))
        z = Population.load(path, func=ev, bounds=nb)
        m.count('new_bounds'); m.count('loads')
        s2 = snapshot(z)
        compare(m, "loaded with new bounds", snap, s2, skip=('members', 'bounds', 'probes', 'best'))
        m.check(s2['bounds'][:2] == [[bits(a) for a, b in nb], [bits(b) for a, b in nb]], 'new-bounds',
                "bounds after loading with new ones: {} {}", list(z.pm.mins), list(z.pm.maxs))
        for i0, i in zip(snap['members'], z):
            for x0, x, (lo, hi) in zip(i0[0], i.values, nb):
                if lo <= unbits(x0) <= hi: ok = bits(x) == x0
                else: ok = lo <= x <= hi; m.count('members_limited')
                m.check(ok, 'limited', "bounds {}: value {} became {}", (lo, hi), unbits(x0), x)
            m.check(bits(i.SSE) == i0[3], 'limited-sse', "SSE changed on loading with new bounds")
        drain(3000)
        r2 = records(z.history)
        want = sorted(['in', bits(np.float32(float(i.SSE)))] + [bits(np.float32(x)) for x in i.values]
                      for i in z if np.isfinite(float(i.SSE)))
        m.check([x for x in r2['rows'] if x[0] == 'in'] == want, 'history-new-bounds',
                "with new bounds: records of members are not the members")
    m.check(open(real, 'rb').read() == content, 'file-changed', "loading changed the file")
    m.sig(params['stage'], snap['members'][:3], params['rebound'], params['gens'])
    m.nontrivial = bool(snap['members'])


def unbits(h):
    import struct
    return struct.unpack('>d', bytes.fromhex(h))[0]
