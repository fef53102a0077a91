"""C05: a run always completes; a slow evaluation holds up only its dependants."""
import random
from rv import decases
from rv.lab import POLICIES
from rv.sim import result_of, reactor

LEVEL = 'exploration'
ROUNDS = 6
RULE = ("Runs are distinct by configuration and event order; non-trivial when a challenge was seen "
        "waiting for another one, or a report callback was unfinished while the run went on.")
NEED = ['runs_completed', 'quiescent_moments', 'waiting_challenges_judged', 'slow_callbacks', 'locks_probed']


def cases(tier, seed):
    n = 420 if tier == 'quick' else 4000
    return decases.configs(
        seed, n, policies=['hold', 'holdlifo', 'starve', 'random', 'timed', 'lifo', 'mixed', 'fifo', 'sync'],
        objectives=['noise', 'better', 'weird', 'ties', 'worse', 'sphere'],
        _Np=[4, 5, 7, 10, 16, 24, 40], _maxiter=[1, 2, 3, 5], _constrained=[0, 0, 0.3],
        _callbacks=[0, 0, 1, 2], _complain=[0, 0, 0.2], _slowHandler=[False, True], _xSSE=[False, True],
        _bitterEnd=[True, False], _histMax=[None, None, 40])


def run_case(params, m):
    ref = []
    rng2 = random.Random(params['seed'] + 5)
    pop = {}
    def handler(i, complaint):
        m.count('complaints')
        if params['slowHandler'] and params['policy'] != 'sync':
            return run.lab.defer('handler', None)
    if params['complain']: pop['complaintCallback'] = handler
    run = decases.build(m, params, set(), pop=pop,
                        constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
    ref.append(run)
    if params['histMax']:
        run.p.history.N_max = max(params['histMax'], 2*params['Np'] + 10)
    def callback(values, counter, SSE, *args):
        run.lab.event('report')
        m.count('report_callbacks')
        verdict = 'no good' if rng2.random() < params['complain'] else None
        if params['policy'] == 'sync' or rng2.random() < 0.3: return verdict
        m.count('slow_callbacks')
        return run.lab.defer('report', verdict)
    for k in range(params['callbacks']): run.p.addCallback(callback, k)
    run.setup()
    waited = [0]

    def onQuiet():
        if run.lab.phase != 'run' or not run.ev.inFlight: return
        m.count('quiescent_moments')
        chs = [c for c in run.challenges if c.gen == run.gen]
        for n, c in enumerate(chs):
            if c.eval is not None or c.rejected or c.returned: continue
            if c.indices is None: continue
            m.count('waiting_challenges_judged')
            waited[0] += 1
            mine = set(c.indices)
            ok = False
            for e in chs[:n]:
                if e.rejected or e.returned: continue
                if e.eval is not None:
                    if e.kt in mine: ok = True; break
                elif e.indices and mine.intersection(e.indices): ok = True; break
            if not ok:
                m.bad('needless-wait', "generation {}: the challenge of position {} drawing on {} waits although no "
                      "earlier undecided challenge concerns those; under evaluation: {}", run.gen, c.kt,
                      c.indices, [e.cur.kt for e in run.ev.inFlight if e.cur])
    run.lab.onQuiet = onQuiet
    result = run.run(maxEvents=6000 + 30*params['Np']*(params['maxiter'] + 2))
    m.check(result is run.p, 'result', "the run's Deferred fired with {!r}", result)
    m.count('runs_completed')
    run.lab.settle()
    # Nothing may be left locked
    for k in range(len(run.p)):
        d = run.p.lock(k)
        fired, x = result_of(d)
        m.count('locks_probed')
        if not m.check(fired, 'lock-left', "position {} is still locked after the run", k): break
        run.p.release(k)
    m.sig(params, run.lab.sigEvents)
    m.nontrivial = waited[0] > 0 or m.counts.get('slow_callbacks', 0) > 0
    m.notes = dict(waiting=waited[0], max_in_flight=run.lab.maxInFlight)
