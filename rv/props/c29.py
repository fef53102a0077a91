"""C29: individuals compare, combine and hash consistently in every process."""
import os, sys, json, random, pickle, subprocess, tempfile, shutil, itertools
import numpy as np
from rv.sim import Population, Individual, drain
from rv.lab import Lab, Evaluator, norm, INF

LEVEL = 'exploration'
ROUNDS = 4
RULE = "Sets of individuals are distinct by their values and SSEs; non-trivial when the set had both equal and unequal pairs."
NEED = ['equals_of_values', 'pairs_compared', 'equal_pairs', 'unequal_pairs', 'number_comparisons', 'hashes', 'sums', 'copies', 'name_lookups', 'position_lookups',
        'other_process_hashes', 'pickled', 'odd_SSEs', 'saved_parameters', 'sorted_lists', 'in_place_changes', 'membership_tests',
        'refused_lengths', 'numpy_positions']
ASSUMPTIONS = ["Parameter values are finite; SSEs are convertible to float."]


def cases(tier, seed):
    rng = random.Random(seed*67 + 29)
    out = [dict(mode='set', seed=seed*100169 + k, Nd=rng.choice([1, 2, 3, 5]), n=rng.choice([4, 8, 12]), dup=rng.choice([0.1, 0.4]),
                odd=rng.choice([0.1, 0.5]))
           for k in range(1200 if tier == 'quick' else 15000)]
    for k in range(6 if tier == 'quick' else 30): out.insert(k*30, dict(mode='process', seed=seed*100183 + k, Nd=3, n=40, dup=0.2, odd=0.5))
    return out


ODD = [None, float('nan'), INF, -1, -1.0, -0.5, 0, 0.0, -0.0, 1e-300, 5e-324, 1e308, 1e39, 10**20, 7, True, np.float32(0.1), np.int64(3),
       np.float64('nan'), np.float64('inf'), np.float64(2.5), -INF]
VALUES = [0.0, -0.0, 1.0, -1.0, 1e-300, 1e300, -1e39, 0.1, 3.0]


def sse(x):
    """SSE as documented: None, negative and NaN are infinite."""
    x = norm(x)
    return INF if x < 0 else x


def population(m, rng, Nd):
    L = Lab(rng, 'sync')
    names = rng.sample(['alpha', 'b', 'C', 'd_4', 'é', '5'], Nd)
    return Population(Evaluator(L, lambda e: 1.0), names, [(-10.0, 10.0)]*Nd), names, L


def individuals(rng, p, params):
    out = []
    for _ in range(params['n']):
        if out and rng.random() < params['dup']:
            v, s = rng.choice(out)[1:]
            if rng.random() < 0.3: s = rng.choice(out)[2]
            v = list(v)
        else:
            v = [rng.choice(VALUES) if rng.random() < params['odd'] else rng.uniform(-10, 10) for _ in range(params['Nd'])]
            s = rng.choice(ODD) if rng.random() < params['odd'] else rng.choice([rng.uniform(0, 100), float(rng.randint(0, 4))])
        form = rng.choice([list, tuple, np.array])
        i = Individual(p, form(v))
        i.SSE = s
        out.append((i, v, s))
    return out


def run_case(params, m):
    rng = random.Random(params['seed'])
    p, names, L = population(m, rng, params['Nd'])
    if params['mode'] == 'process': return process(params, m, rng, p)
    Nd = params['Nd']
    S = individuals(rng, p, params)
    eq = ne = 0
    if any(s is None or norm(s) != norm(s) or norm(s) < 0 or norm(s) == INF for i, v, s in S): m.count('odd_SSEs')
    for (i, v, s), (j, w, t) in itertools.product(S, S):
        m.count('pairs_compared')
        a, b = sse(s), sse(t)
        m.check(bool(i < j) == (a < b) and bool(i > j) == (a > b), 'order', "SSE {} vs {}: < {} > {}", s, t, i < j, i > j)
        same = a == b and all(x == y for x, y in zip(v, w))
        got = bool(i == j)
        m.check(got == same, 'equality', "SSE {} {} == SSE {} {} gives {}", s, v, t, w, got)
        m.check(bool(i != j) == (not same), 'inequality', "SSE {} {} != SSE {} {} gives {}", s, v, t, w, i != j)
        m.check(bool(i.equals(j)) == all(x == y for x, y in zip(v, w)), 'equals', "equals() of {} and {}", v, w)
        for kind in (list, tuple, np.array):
            m.count('equals_of_values')
            m.check(bool(i.equals(kind(list(w)))) == all(x == y for x, y in zip(v, w)), 'equals-values', "equals() of {} and {} {}", v, kind.__name__, w)
        if same:
            eq += 1
            m.check(hash(i) == hash(j), 'hash', "equal individuals SSE {} {} and SSE {} {} have different hashes", s, v, t, w)
        else: ne += 1
    m.count('equal_pairs', eq); m.count('unequal_pairs', ne)
    for i, v, s in S:
        a = sse(s)
        # Numbers
        for x in [0, 1, 2.5, a, INF, -1, np.float64(3.0)]:
            m.count('number_comparisons')
            ok = bool(i < x) == (a < x) and bool(i > x) == (a > x) and bool(x > i) == (x > a) and bool(x < i) == (x < a)
            m.check(ok, 'number', "SSE {} against {}: < {} > {}", s, x, i < x, i > x)
        m.check(float(i) == a, 'float', "float() of SSE {} is {}", s, float(i))
        m.check(bool(i) == (not (s is not None and norm(s) == norm(s) and float(s) < 0)), 'truth', "truth value of SSE {} is {}", s, bool(i))
        # Hash: works, stays, distinguishes
        h = hash(i); m.count('hashes')
        m.check(h == hash(i) and isinstance(h, int), 'hash-stable', "hash changed")
        try: repr(i), str(i)
        except Exception as e: m.bad('repr', "repr of SSE {} {} raised {!r}", s, v, e)
        # Copy
        c = i.copy(); m.count('copies')
        m.check(c is not i and c == i and hash(c) == h and c.p is p, 'copy', "copy of SSE {} {} is SSE {} {}", s, v, c.SSE, list(c.values))
        m.check(bool(c) == bool(i) and float(c) == float(i), 'copy-status', "copy of SSE {} has SSE {}, truth value {}", s, c.SSE, bool(c))
        k = rng.randrange(Nd)
        c[k] = 99.0; c.SSE = 12345.0
        m.count('in_place_changes')
        m.check([float(x) for x in i.values] == [float(x) for x in v] and sse(i.SSE) == a, 'copy-shared', "changing a copy changed the original")
        m.check(c[k] == 99.0 and float(c) == 12345.0 and c[names[k]] == 99.0, 'setitem', "setting value {} gave {}", k, list(c.values))
        m.check(all(c[j] == v[j] for j in range(Nd) if j != k), 'setitem', "setting value {} changed others: {} -> {}", k, v, list(c.values))
        # Addressing
        for k, n in enumerate(names):
            m.count('name_lookups'); m.count('position_lookups')
            m.check(i[k] == v[k] and i[n] == v[k] and i[k-Nd] == v[k], 'addressing', "value {} ({}) is {}, by name {}", k, n, i[k], i[n])
            m.count('numpy_positions')
            try: m.check(i[np.int64(k)] == v[k], 'numpy-position', "value at numpy position {} is {}", k, i[np.int64(k)])
            except Exception as e: m.bad('numpy-position', "value at numpy position {}: {!r}", k, e)
        for bad in ['nobody', 'x']:
            try: i[bad]
            except (ValueError, KeyError, IndexError): pass
            else: m.bad('unknown-name', "value of an unknown name is {}", i[bad])
        m.check(list(i) == list(i.values) and i.params == dict(zip(names, v)), 'iteration', "iterating gives {}, params {}", list(i), i.params)
        # Arithmetic
        j, w, t = rng.choice(S)
        F = rng.choice([0.5, 1.0, 0, -2, 0.8123])
        for what, x, want in [('sum', i + j, [x+y for x, y in zip(v, w)]), ('difference', i - j, [x-y for x, y in zip(v, w)]),
                              ('scaling', i*F, [x*F for x in v]), ('spawn', i.spawn(list(w)), w)]:
            m.count('sums')
            ok = all(a == b or (a != a and b != b) for a, b in zip([float(a) for a in x.values], [float(b) for b in want]))
            m.check(ok and len(x.values) == Nd, 'arithmetic', "{} of {} and {} (F={}) is {}", what, v, w, F, list(x.values))
            m.check(x.SSE == INF and float(x) == INF and bool(x) and x.p is p, 'arithmetic-sse', "{} has SSE {}", what, x.SSE)
            m.check(x is not i and x is not j, 'arithmetic-new', "{} is not a new individual", what)
            x[0] = 77.0
            m.check([float(a) for a in i.values] == [float(a) for a in v] and [float(a) for a in j.values] == [float(a) for a in w],
                    'arithmetic-shared', "changing the {} changed an operand", what)
        # Pickle
        q = pickle.loads(pickle.dumps(i)); q.p = p
        m.count('pickled')
        m.check(q == i and hash(q) == h and bool(q) == bool(i), 'pickle', "unpickled SSE {} {} is SSE {} {}", s, v, q.SSE, list(q.values))
        # Wrong lengths
        for n in (Nd-1, Nd+1):
            m.count('refused_lengths')
            try: i.update([0.0]*n)
            except ValueError: pass
            else: m.bad('length', "{} values accepted for {} parameters", n, Nd)
        m.check([float(x) for x in i.values] == [float(x) for x in v], 'length', "refused update changed the values")
    # Sorting, sets, membership
    order = sorted(i for i, v, s in S)
    m.count('sorted_lists')
    m.check([float(i) for i in order] == sorted(sse(s) for i, v, s in S), 'sorting', "sorted gives SSEs {}", [float(i) for i in order])
    uniq = {(sse(s), tuple(x + 0.0 for x in v)) for i, v, s in S}
    m.check(len({i for i, v, s in S}) == len(uniq), 'set', "a set of them has {} members, {} are different", len({i for i, v, s in S}), len(uniq))
    table = {}
    for i, v, s in S: table[i] = (v, s)
    for i, v, s in S:
        m.count('membership_tests')
        m.check(i in table and i.copy() in table, 'lookup', "SSE {} {} (or its copy) not found in a dict by equality", s, v)
    scratch = tempfile.mkdtemp(prefix='rv-')
    try:
        path = os.path.join(scratch, 'i.dat')
        i, v, s = rng.choice(S)
        i.save(path)
        with open(path, 'rb') as fh: got = pickle.load(fh)
        m.count('saved_parameters')
        m.check(got == dict(zip(names, v)), 'save', "saved parameters {} of {}", got, v)
    finally: shutil.rmtree(scratch)
    m.sig(params['seed'], [repr(s) for i, v, s in S])
    m.nontrivial = eq > len(S) and ne > 0


CHILD = """
import sys, json, pickle
from rv.sim import Individual
data = pickle.load(open(sys.argv[1], 'rb'))
json.dump([hash(i) for i in data], open(sys.argv[2], 'w'))
"""

def process(params, m, rng, p):
    S = individuals(rng, p, params)
    scratch = tempfile.mkdtemp(prefix='rv-')
    try:
        a, b = os.path.join(scratch, 'a'), os.path.join(scratch, 'b')
        with open(a, 'wb') as fh: pickle.dump([i for i, v, s in S], fh)
        env = dict(os.environ, PYTHONHASHSEED=str(params['seed'] % 1000 + 1))
        subprocess.run([sys.executable, '-c', CHILD, a, b], check=True, env=env, timeout=120,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), stdout=subprocess.DEVNULL)
        got = json.load(open(b))
    finally: shutil.rmtree(scratch)
    for (i, v, s), h in zip(S, got):
        m.count('other_process_hashes')
        m.check(h == hash(i), 'hash-process', "hash of SSE {} {} is {} here and {} in another process", s, v, hash(i), h)
    m.sig('process', params['seed'])
    m.nontrivial = True
