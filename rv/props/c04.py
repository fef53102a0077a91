"""C04: each generation challenges every position once, no overlap."""
from rv import decases
from rv.lab import POLICIES

LEVEL = 'exploration'
ROUNDS = 6
RULE = ("Runs are distinct by configuration and event order; non-trivial when at least two "
        "generations completed with more than one evaluation in flight.")
NEED = ['generations', 'challenger_evaluations', 'rejected_trials', 'counter_checks', 'stopped_early', 'blank_runs']


def cases(tier, seed):
    n = 400 if tier == 'quick' else 4000
    return decases.configs(seed, n, policies=POLICIES + ['sync'],
                           objectives=['noise', 'weird', 'sphere', 'ties', 'better', 'worse'],
                           _Np=[4, 6, 9, 13, 20, 33], _maxiter=[1, 3, 5, 8], _constrained=[0, 0, 0.3, 0.8],
                           _bitterEnd=[True, False], _goalSSE=[None, None, 20.0, 60.0], _blank=[False]*5 + [True])


def run_case(params, m):
    ref = []
    evals = [0]
    def onGeneration(run, kg):
        # Exactly one evaluation per position not rejected
        n = sum(1 for e in run.ev.evals if e.phase == 'run') - evals[0]
        evals[0] += n
        rejected = sum(1 for c in run.challenges if c.gen == run.gen and c.rejected)
        m.check(n + rejected == run.p.Np, 'evaluation-count',
                "generation {} cost {} evaluations with {} rejected trials for {} positions", kg, n, rejected, run.p.Np)
        done = sum(1 for e in run.ev.evals if e.done)
        m.count('counter_checks')
        m.check(run.p.counter == done, 'counter', "population counted {} evaluations, {} finished", run.p.counter, done)
    run = decases.build(m, params, {'account'}, onGeneration=onGeneration,
                        constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
    ref.append(run)
    run.setup(blank=params['blank'])
    if params['blank']: m.count('blank_runs')
    run.run()
    done = sum(1 for e in run.ev.evals if e.done)
    m.count('counter_checks')
    m.check(run.p.counter == done, 'counter', "population counted {} evaluations, {} finished", run.p.counter, done)
    n = sum(1 for e in run.ev.evals if e.phase == 'run') + sum(1 for c in run.challenges if c.rejected)
    m.check(n == run.p.Np*len(run.kgs), 'callback-missing', "{} challenges of {} positions but {} generation callbacks",
            n, run.p.Np, len(run.kgs))
    if len(run.kgs) < params['maxiter']: m.count('stopped_early')
    if params['goalSSE']: return done_(params, m, run)
    if params['bitterEnd'] or not params['adaptive']:
        m.check(len(run.kgs) == params['maxiter'], 'callback-count',
                "{} generation callbacks for {} generations", len(run.kgs), params['maxiter'])
    done_(params, m, run)


def done_(params, m, run):
    m.sig(params, run.lab.sigEvents)
    m.nontrivial = len(run.kgs) >= 2 and (run.lab.maxInFlight > 1 or params['policy'] == 'sync')
    m.notes = dict(generations=len(run.kgs), rejected=m.counts.get('rejected_trials', 0), max_in_flight=run.lab.maxInFlight)
