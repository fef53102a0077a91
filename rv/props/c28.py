"""C28: with xSSE on, each evaluation gets its own target's SSE as cut-off."""
import collections
import numpy as np
from rv import decases
from rv.lab import POLICIES, norm, INF
from rv.sim import drain
from rv.histmon import HistoryMonitor

LEVEL = 'exploration'
ROUNDS = 6
RULE = ("Runs are distinct by configuration, schedule of events and SSE sequence; non-trivial when both wins and losses occurred.")
NEED = ['evaluations_with_cutoff', 'evaluations_without_cutoff', 'setup_evaluations', 'early_terminations', 'wins', 'losers_recorded',
        'losers_not_recorded', 'members_compared', 'cutoff_is_not_initial', 'infinite_cutoffs', 'zero_cutoffs', 'complained_targets']



def cases(tier, seed):
    n = 500 if tier == 'quick' else 5000
    out = decases.configs(
        seed, n, policies=POLICIES + ['sync'], objectives=['noise', 'ties', 'weird', 'plateau', 'better', 'worse', 'sphere'],
        _Np=[4, 6, 8, 12, 20], _maxiter=[2, 4, 6], _xSSE=[False, True, True, 1, 0], _blank=[False, False, False, True],
        _complain=[0, 0, 0, 0.3], _early=[False, True], _constrained=[0, 0, 0.3])
    return out


def run_case(params, m):
    on = bool(params['xSSE'])
    ref = []
    run = decases.build(m, params, {'select', 'account'} if not params['complain'] else set(),
                        pop=dict(complaintCallback=lambda i, result: m.count('complained_targets')),
                        constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
    ref.append(run)
    ev, inner = run.ev, run.ev.objective
    initial = {}
    wins, losers = [], collections.Counter()

    def objective(e):
        x = inner(e)
        if on and params['early'] and e.phase == 'run' and e.kw.get('xSSE') is not None:
            # Adding up parts of the SSE and giving up when it is no use
            limit = norm(e.kw['xSSE'])
            if norm(x) > limit and np.isfinite(norm(x)):
                m.count('early_terminations')
                return limit*(1 + 1e-9) + 1e-12 if run.rng.random() < 0.5 else limit + 0.5*(norm(x) - limit)
        return x
    ev.objective = objective

    started = ev.onStart
    def onStart(e):
        if started: started(e)
        if e.phase != 'run':
            m.count('setup_evaluations')
            m.check(not e.kw, 'setup-keyword', "setup evaluation was called with {}", e.kw)
            return
        kt = e.cur.kt
        target = run.p[kt]
        if on:
            m.count('evaluations_with_cutoff')
            ok = m.check(set(e.kw) == {'xSSE'}, 'keyword', "evaluation was called with keywords {}", sorted(e.kw))
            if ok:
                x = norm(e.kw['xSSE'])
                m.check(x == norm(target.SSE), 'cutoff', "challenger of position {} was given {} as the SSE of its target, which is {}",
                        kt, e.kw['xSSE'], target.SSE)
                if not params['complain']:
                    m.check(x == run.M[kt][1], 'cutoff-model', "challenger of position {} was given {}, the target's evaluation gave {}",
                            kt, x, run.M[kt][1])
                if x != initial.get(kt): m.count('cutoff_is_not_initial')
                if x == INF: m.count('infinite_cutoffs')
                if x == 0: m.count('zero_cutoffs')
        else:
            m.count('evaluations_without_cutoff')
            m.check(not e.kw, 'keyword', "without the option, evaluation was called with {}", e.kw)
    ev.onStart = onStart

    if params['complain']:
        run.p.addCallback(lambda values, counter, SSE: 1 if run.rng.random() < params['complain'] else None)
    run.setup(blank=params['blank'])
    for k, i in enumerate(run.p): initial[k] = norm(i.SSE)
    drain(2000)
    mon = HistoryMonitor(m, run.p)
    for i in run.p: mon.member(i.SSE, i.values)
    finished = ev.onFinish
    def onFinish(e):
        if e.phase == 'run' and not isinstance(e.raw, Exception):
            s = norm(run.p[e.cur.kt].SSE)
            if e.SSE < s: mon.member(e.raw, e.values)
            elif e.raw is not None: mon.loser(e.raw, e.values)
        if finished: finished(e)
    ev.onFinish = onFinish
    run.run()
    drain(3000)
    losersSeen = sum(mon.losers.values())
    if on:
        m.count('losers_not_recorded', losersSeen)
        mon.losers.clear()
    else: m.count('losers_recorded', losersSeen)
    if not params['complain']:
        mon.compare("after the run", exactLosers=True)
    else:
        h = run.p.history
        never = [k for k in h.K if k in h.Kn]
        m.check(not (on and never), 'recorded', "with the option, {} records of individuals never in the population", len(never))
        if not on: m.check(len(never) == losersSeen, 'losers-recorded', "{} losing challengers, {} records of them", losersSeen, len(never))

    m.sig(params, run.lab.sigEvents, [e.raw for e in ev.evals[:200]])
    w, t = m.counts.get('wins', 0), m.counts.get('tournaments', 0)
    m.nontrivial = 0 < w < t
