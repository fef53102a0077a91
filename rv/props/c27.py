"""C27: piecewise evaluation order follows measured average durations."""
import random, pickle, time
from twisted.internet import defer
from twisted.python.failure import Failure
from rv.sim import util, reactor
from rv.lab import Boom

LEVEL = 'exploration'
ROUNDS = 2
RULE = "Call histories are distinct by IDs, durations and overlaps; non-trivial when at least two IDs with different averages were ordered."
NEED = ['calls', 'finished', 'failed', 'iterations', 'ids_compared', 'overlapping_calls', 'updates_during_iteration', 'pickled',
        'immediate_results', 'order_changes', 'unfinished_at_iteration', 'first_call_slow']


def cases(tier, seed):
    rng = random.Random(seed*61 + 27)
    return [dict(seed=seed*100153 + k, ids=rng.choice([1, 2, 3, 6]), ops=rng.choice([6, 20, 60]), k=rng.choice([0, 0, 1, 2]),
                 start=rng.choice([0.0, 1.0, 1.7e9, 1e6]), scale=rng.choice([1e-3, 1.0, 100.0]), overlap=rng.choice([0, 0.4, 0.8]))
            for k in range(3000 if tier == 'quick' else 40000)]


CLOCKS = ['time', 'monotonic', 'perf_counter']


def run_case(params, m):
    rng = random.Random(params['seed'])
    now = [params['start']]
    saved = {name: getattr(time, name) for name in CLOCKS}
    try:
        for name in CLOCKS: setattr(time, name, lambda: now[0])
        # Modules that imported a clock by name
        byName = [(name, x) for name, x in vars(util).items() if any(x is saved[c] for c in CLOCKS)]
        for name, x in byName: setattr(util, name, lambda: now[0])
        try: body(params, m, rng, now)
        finally:
            for name, x in byName: setattr(util, name, x)
    finally:
        for name in CLOCKS: setattr(time, name, saved[name])


def body(params, m, rng, now):
    k = params['k']
    t = util.EvalTimer(k)
    IDs = rng.sample(['a', 'bb', 3, 0, (1, 2), 'z', None, 2.5, -1], params['ids'])
    base = {ID: params['scale']*rng.uniform(0.5, 20) for ID in IDs}
    spent, count = {}, {}
    pending = []
    order0 = [None]

    def averages(): return {ID: spent[ID]/count[ID] for ID in spent}

    def ordered(seq, avg):
        """Ascending by average, up to what rounding of the clock's big numbers can hide."""
        eps = 1e-6*max(avg.values()) + 1e-6 if avg else 0
        return all(avg[x] <= avg[y] + eps for x, y in zip(seq, seq[1:]))

    def start():
        ID = rng.choice(IDs)
        args = ['arg{}'.format(j) for j in range(rng.randint(k+1, k+3))]
        args[k] = ID
        kw = dict(xSSE=rng.random()) if rng.random() < 0.5 else {}
        seen = []
        d = defer.Deferred()
        immediate = rng.random() < 0.1
        value = rng.choice([1.5, None, 'text', [1]])
        def func(*a, **k2):
            seen.append((a, k2))
            return defer.succeed(value) if immediate else d
        if pending: m.count('overlapping_calls')
        m.count('calls')
        got = t(func, *args, **kw)
        m.check(seen == [(tuple(args), kw)], 'arguments', "called with {} instead of {}", seen, (args, kw))
        box = []
        got.addBoth(box.append)
        if immediate:
            m.count('immediate_results')
            m.check(box == [value], 'result', "result {} instead of {}", box, value)
            finish(ID, 0.0)
            return
        pending.append((ID, d, box, now[0]))

    def finish(ID, dt):
        if ID not in count and dt > 10*params['scale']: m.count('first_call_slow')
        spent[ID] = spent.get(ID, 0) + dt
        count[ID] = count.get(ID, 0) + 1
        m.count('finished')

    def end():
        ID, d, box, t0 = pending.pop(rng.randrange(len(pending)))
        now[0] += base[ID]*rng.uniform(0.3, 2)
        if rng.random() < 0.2:
            m.count('failed')
            e = Boom("part")
            d.errback(Failure(e))
            m.check(len(box) == 1 and isinstance(box[0], Failure) and box[0].value is e, 'result', "failure became {}", box)
        else:
            v = rng.random()
            d.callback(v)
            m.check(box == [v], 'result', "result {} instead of {}", box, v)
        finish(ID, now[0] - t0)

    def look(t):
        m.count('iterations')
        if pending: m.count('unfinished_at_iteration')
        avg = averages()
        seq = list(t)
        m.count('ids_compared', len(seq))
        m.check(sorted(map(repr, seq)) == sorted(map(repr, avg)), 'ids', "iterating gives {}, finished were {}", seq, list(avg))
        if set(map(repr, seq)) == set(map(repr, avg)):
            m.check(ordered(seq, avg), 'order', "order {} but averages are {}", seq, avg)
        if order0[0] is not None and order0[0] != seq and set(map(repr, order0[0])) == set(map(repr, seq)): m.count('order_changes')
        order0[0] = seq
        if len(set(round(x, 9) for x in avg.values())) > 1: m.nontrivial = True

    for _ in range(params['ops']):
        r = rng.random()
        if not pending or r < params['overlap']: start()
        elif r < 0.9: end()
        else: now[0] += params['scale']*rng.uniform(0, 3)
        if rng.random() < 0.2: look(t)
        if rng.random() < 0.1 and spent:
            avg = averages()
            seq = []
            for ID in t:
                seq.append(ID)
                if rng.random() < 0.5:
                    start()
                    if pending: end()
                    m.count('updates_during_iteration')
            m.check(sorted(map(repr, seq)) == sorted(map(repr, avg)) and ordered(seq, avg), 'disturbed',
                    "iteration with updates in between gives {}, averages at its start were {}", seq, avg)
        if rng.random() < 0.05:
            m.count('pickled')
            t2 = pickle.loads(pickle.dumps(t))
            look(t2)
            if not pending: t = t2
        if m.violations: return
    while pending: end()
    look(t)
    m.sig(params['seed'], sorted(map(repr, spent)))
