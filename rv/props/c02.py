"""C02: completion order never changes what a challenge is built from."""
from rv import decases
from rv.lab import POLICIES

LEVEL = 'exploration'
ROUNDS = 4
RULE = ("Schedules are distinct by configuration and full order of challenge, evaluation-start, "
        "completion and generation events; non-trivial when two or more evaluations were in flight "
        "together and completed in another order than they started.")
NEED = ['recipes_checked', 'unique_recipes', 'out_of_order_completions']


def cases(tier, seed):
    n = 360 if tier == 'quick' else 4000
    return decases.configs(
        seed, n, policies=['random', 'lifo', 'hold', 'holdlifo', 'starve', 'timed', 'mixed', 'fifo'],
        objectives=['noise', 'better', 'noise', 'ties', 'sphere', 'weird'],
        _Nd=[2, 3, 4], _Np=[6, 8, 10, 14, 20], _maxiter=[3, 5], _F=[0.5, 0.8, [0.5, 1.0]], _CR=[0.8, 0.95, 1.0],
        _randomBase=[False, True, True, 0.5], _bounds=['wide', 'unit', 'mixed'], _constrained=[0, 0, 0.3])


def run_case(params, m):
    ref = []
    run = decases.build(m, params, {'serial'},
                        constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
    ref.append(run)
    run.setup()
    n0 = len(run.ev.evals)
    order = []
    orig = run.ev.onFinish
    def onFinish(e):
        if e.phase == 'run': order.append(e.id)
        orig(e)
    run.ev.onFinish = onFinish
    run.run()
    ooo = sum(1 for a, b in zip(order, order[1:]) if b < a)
    m.count('out_of_order_completions', ooo)
    m.count('max_in_flight_sum', run.lab.maxInFlight)
    m.sig(params, run.lab.sigEvents)
    m.nontrivial = ooo > 0 and run.lab.maxInFlight > 1
    m.notes = dict(completion_order=order[:30], max_in_flight=run.lab.maxInFlight)
