"""C38: objects of the picklable kind come back whole."""
import random, pickle, copy
import numpy as np
from rv.sim import util

LEVEL = 'exploration'
ROUNDS = 8
RULE = "Objects are distinct by class and attributes; non-trivial when they had at least two attributes and one that is not kept."
NEED = ['objects', 'attributes_compared', 'slots_compared', 'unset_slots', 'inherited_slots', 'mixed_objects', 'class_attributes', 'private_left_out', 'copies', 'nested', 'cycles', 'methods_work',
        'falsy_values', 'example_data', 'timers', 'overridden_class_attributes']


class Plain(util.Picklable):
    kind = 'class attribute'
    limit = 5
    def total(self): return sum(v for v in vars(self).values() if isinstance(v, (int, float)) and not isinstance(v, bool))
    @property
    def prop(self): return 'computed'

class Derived(Plain):
    extra = [1, 2]

class Slotted(util.Picklable):
    __slots__ = ['a', 'b', 'c', 'd']

class SlottedMore(Slotted):
    __slots__ = ['e', 'f']

class SlottedOpen(Slotted):
    """Has no slots of its own, so that anything can be set."""

KINDS = [Plain, Derived, Slotted, SlottedMore, SlottedOpen]
SLOTS = {Slotted: 'abcd', SlottedMore: 'abcdef', SlottedOpen: 'abcd'}


def cases(tier, seed):
    return [dict(seed=seed*100363 + k) for k in range(600 if tier == 'quick' else 8000)]


def value(rng, m, depth=0):
    r = rng.random()
    if r < 0.15 and depth < 3:
        m.count('nested')
        return make(rng, m, depth + 1)
    x = rng.choice([0, '', None, False, [], 1, -2.5, 'text', (1, 2), {'k': [1]}, True, float('inf'), np.array([1.0, 2.0]), np.float64(3.5), b'bytes', {1, 2}, {}])
    if not isinstance(x, np.ndarray) and not x: m.count('falsy_values')
    return copy.deepcopy(x)


def make(rng, m, depth=0):
    cls = rng.choice(KINDS)
    o = cls()
    o_want = {}
    for name in SLOTS.get(cls, ''):
        if rng.random() < 0.75: setattr(o, name, value(rng, m, depth))
    if cls not in (Slotted, SlottedMore):
        for name in rng.sample(['alpha', 'beta', 'gamma', 'x1', 'Zeta', 'items', 'values', 'name', 'limit', 'extra'], rng.randint(0, 5)): setattr(o, name, value(rng, m, depth))
        if rng.random() < 0.5: o._private = 'not kept'
    return o


def public(o):
    """What has to come back."""
    out = {}
    for name in SLOTS.get(type(o), ''):
        if hasattr(o, name): out[name] = getattr(o, name)
    for name, v in getattr(o, '__dict__', {}).items():
        if not name.startswith('_'): out[name] = v
    return out


def same(a, b, m, path, depth=0):
    if depth > 12: return True
    if isinstance(a, util.Picklable):
        if not m.check(type(b) is type(a), 'class', "{} is a {} instead of a {}", path, type(b).__name__, type(a).__name__): return False
        x, y = public(a), public(b)
        if not m.check(set(x) == set(y), 'attributes', "{} of class {} has attributes {} instead of {}", path, type(a).__name__, sorted(y), sorted(x)): return False
        for name in x:
            m.count('slots_compared' if name in SLOTS.get(type(a), '') else 'attributes_compared')
            if type(a) is SlottedMore and name in 'abcd': m.count('inherited_slots')
            if x[name] is a: m.count('cycles'); ok = m.check(y[name] is b, 'cycle', "{}.{} is not the object itself", path, name)
            else: ok = same(x[name], y[name], m, path + '.' + name, depth + 1)
            if not ok: return False
        for name in SLOTS.get(type(a), ''):
            if name not in x:
                m.count('unset_slots')
                m.check(not hasattr(b, name), 'unset', "{}.{} was not set but is {!r}", path, name, getattr(b, name, None))
        if type(a) is SlottedOpen and len(x) > 2: m.count('mixed_objects')
        return True
    if isinstance(a, np.ndarray): ok = isinstance(b, np.ndarray) and np.array_equal(a, b)
    else: ok = type(a) is type(b) and a == b
    return m.check(ok, 'value', "{} is {!r} instead of {!r}", path, b, a)


def run_case(params, m):
    rng = random.Random(params['seed'])
    for _ in range(5):
        o = make(rng, m)
        if rng.random() < 0.15 and hasattr(o, '__dict__') and type(o) not in (Slotted, SlottedMore): o.me = o
        m.count('objects')
        how = rng.choice(list(range(2, pickle.HIGHEST_PROTOCOL + 1)) + ['copy', 'deepcopy'])
        if how == 'copy':
            m.count('copies')
            b = copy.copy(o)
            x, y = public(o), public(b)
            m.check(set(x) == set(y) and all(x[k] is y[k] for k in x), 'copy', "copy of a {} has {} instead of {}", type(o).__name__, sorted(y), sorted(x))
        else:
            try: b = copy.deepcopy(o) if how == 'deepcopy' else pickle.loads(pickle.dumps(o, protocol=how))
            except Exception as e:
                m.bad('raised', "pickling a {} with {} raised {!r}", type(o).__name__, sorted(public(o)), e)
                return
            if how == 'deepcopy': m.count('copies')
            same(o, b, m, 'object')
        if isinstance(o, Plain):
            m.count('class_attributes')
            m.check(b.kind == 'class attribute' and ('limit' in public(o) or b.limit == 5) and 'kind' not in vars(b) and b.prop == 'computed', 'class-attributes',
                    "what belongs to the class was changed: {}", sorted(vars(b)))
            if 'limit' in vars(o): m.count('overridden_class_attributes')
            m.count('methods_work')
            m.check(b.total() == o.total(), 'method', "method gives {} instead of {}", b.total(), o.total())
        if getattr(o, '_private', None) and how not in ('copy',):
            m.count('private_left_out')
            m.check(not hasattr(b, '_private'), 'private', "a private attribute was pickled")
        # Not changed by it
        same(o, o, m, 'original')
    t = util.EvalTimer(1)
    m.count('timers')
    b = pickle.loads(pickle.dumps(t))
    m.check(type(b) is util.EvalTimer and list(b) == [] and b.k == 1 if hasattr(t, 'k') else True, 'timer', "pickled timer differs")
    if params['seed'] % 10 == 0: example(m, rng)
    m.sig(params['seed'])
    m.nontrivial = True


def example(m, rng):
    """The data objects of the examples, which are sent to other processes."""
    from ade.examples import data
    m.count('example_data')
    class_ = data.Data
    o = class_.__new__(class_)
    o.t = np.linspace(0, 1, 5)
    o.X = np.array([[rng.random() for _ in range(2)] for _ in range(5)])
    o.weights = None
    o.ranges = [(0, 1)]
    b = pickle.loads(pickle.dumps(o))
    m.check(type(b) is class_ and np.array_equal(b.t, o.t) and np.array_equal(b.X, o.X) and b.weights is None and b.ranges == o.ranges, 'example',
            "data object came back with {}", sorted(vars(b)))
