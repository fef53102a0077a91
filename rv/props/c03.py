"""C03: a position changes hands only to its own strictly better challenger."""
from rv import decases
from rv.lab import POLICIES, norm
import numpy as np

LEVEL = 'exploration'
ROUNDS = 5
RULE = ("Runs are distinct by configuration, schedule of events and SSE sequence; non-trivial when "
        "both a win and a loss or tie occurred.")
NEED = ['tournaments', 'wins', 'ties', 'members_compared', 'best_checks', 'blank_runs']


def cases(tier, seed):
    n = 400 if tier == 'quick' else 4000
    return decases.configs(
        seed, n, policies=POLICIES + ['sync'],
        objectives=['ties', 'weird', 'noise', 'plateau', 'better', 'worse'],
        _Np=[4, 6, 8, 12, 20, 30], _maxiter=[3, 5, 8], _xSSE=[False, False, True], _constrained=[0, 0, 0.4], _blank=[False]*5 + [True])


def run_case(params, m):
    ref = []
    best = [None]
    def onGeneration(run, kg):
        m.count('best_checks')
        b = norm(run.p.best().SSE)
        m.check(b == min(s for v, s in run.M), 'best-SSE', "best SSE {} but the lowest member SSE is {}",
                b, min(s for v, s in run.M))
        if best[0] is not None:
            m.check(b <= best[0], 'best-worsened', "best SSE went from {} to {}", best[0], b)
        best[0] = b
    run = decases.build(m, params, {'select'}, onGeneration=onGeneration,
                        constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
    ref.append(run)
    run.setup(blank=params['blank'])
    blank = {k: v for k, (v, s) in enumerate(run.M)} if params['blank'] else {}
    evaluated = {}
    if blank: m.count('blank_runs')
    run.run()
    for e in run.ev.evals:
        evaluated.setdefault(e.values.tobytes(), []).append(norm(e.raw))
    for k, i in enumerate(run.p):
        if k in blank and np.array_equal(blank[k], i.values):
            m.count('blank_members_left')
            continue
        s = evaluated.get(np.array(i.values, dtype=float).tobytes())
        m.check(s is not None and norm(i.SSE) in s, 'SSE-not-evaluated',
                "position {} has SSE {} but its values evaluated to {}", k, i.SSE, s)
    m.sig(params, run.lab.sigEvents, [e.raw for e in run.ev.evals[:200]])
    w, t = m.counts.get('wins', 0), m.counts.get('tournaments', 0)
    m.nontrivial = 0 < w < t
    m.notes = dict(wins=w, tournaments=t, generations=len(run.kgs))
