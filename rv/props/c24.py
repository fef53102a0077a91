"""C24: a specs file is read back as exactly what it says."""
import os, random, shutil, string, tempfile
from rv.sim import specs

LEVEL = 'exploration'
ROUNDS = 3
RULE = ("Specs texts are distinct by their content; non-trivial when the text has both single entries and dict blocks.")
NEED = ['files', 'entries', 'lists', 'dict_blocks', 'nested_entries', 'integer_keys', 'comment_lines', 'trailing_comments',
        'glued_comments', 'quoted_names', 'equals_signs', 'trailing_commas', 'blank_lines', 'numbers', 'texts', 'words',
        'refused_nested', 'refused_rules', 'lookups', 'absent_lookups', 'empty_files', 'redefinitions', 'missing_files',
        'commented_dict_names', 'last_line_unterminated']
ASSUMPTIONS = ["Entry names are not names of the Specs object's own methods.",
               "Keys of nested entries are not also used for plain values in the same block."]
METHODS = {'get', 'add', 'dict_add', 'dict_done', 'dict_start', 'ds'}


def cases(tier, seed):
    rng = random.Random(seed*47 + 24)
    return [dict(seed=seed*100103 + k, items=rng.choice([0, 1, 3, 6, 12]), noise=rng.choice([0, 0.2, 0.5]),
                 bad=rng.choice([None, None, None, None, 'nested', 'rule', 'rule2']))
            for k in range(2500 if tier == 'quick' else 40000)]


class Writer(object):
    def __init__(self, rng, m, noise):
        self.rng, self.m, self.noise = rng, m, noise
        self.lines = []

    def gap(self): return self.rng.choice([' ', '  ', '\t', '     ', ' \t '])

    def comment(self):
        r = self.rng
        return '#' + r.choice([' a comment', '', ' x = 5', '# double', ' name', '-----', " it's", ' foo:bar 3', '\ttab'])

    def noiseLines(self):
        r = self.rng
        while r.random() < self.noise:
            if r.random() < 0.5:
                self.lines.append(r.choice(['', '   ', '\t'])); self.m.count('blank_lines')
            else:
                self.lines.append(r.choice(['', '  ', '\t']) + self.comment()); self.m.count('comment_lines')

    def tail(self, glue=True):
        r = self.rng
        if r.random() > self.noise: return ''
        if glue and r.random() < 0.3:
            self.m.count('glued_comments')
            return self.comment()
        self.m.count('trailing_comments')
        return self.gap() + self.comment()

    def line(self, text):
        self.noiseLines()
        r = self.rng
        self.lines.append((self.gap() if r.random() < self.noise else '') + text + (r.choice([' ', '\t']) if r.random() < self.noise else ''))

    def quoted(self, name):
        if self.rng.random() < 0.3*bool(self.noise):
            self.m.count('quoted_names')
            return ':'.join("'{}'".format(x) for x in name.split(':')) if self.rng.random() < 0.5 else "'{}'".format(name)
        return name

    def rule(self): self.line('-'*self.rng.choice([2, 3, 5, 20, 78]))

    def value(self):
        """Text of one value and what it means."""
        r, m = self.rng, self.m
        x = r.random()
        if x < 0.5:
            m.count('numbers')
            sign = r.choice(['', '', '-', '+'])
            body = r.choice([str(r.randint(0, 99999)), "{:.3f}".format(r.uniform(0, 100)), "{:.6e}".format(r.uniform(0, 1e6)),
                             "{:.1E}".format(r.uniform(0, 10)), "5e6", "0", "00012", "2E-4", "3.3e+8", "1e300", ".5", "5.", ".25e-3", "7.E2"])
            return sign + body, float(sign + body)
        if x < 0.7:
            m.count('words')
            w = r.choice(['none', 'None', 'NONE', 'true', 'True', 'TRUE', 'false', 'False'])
            return w, dict(none=None, true=True, false=False)[w.lower()]
        m.count('texts')
        t = r.choice(['Foo', 'bar', 'C19_US', 'a-b', 't0', '1st', '3x5', '1e', '1.2.3', 'e5', '-', '+', 'x:y', '/usr/x.dat', 'nOpe', '5-6',
                      'nonesuch', 'truer', 'n', 'no', 't', 'fa', 'f', 'non', 'yes', '-x', "1e5e6", 'inf', '1,5', '0x1F', '--', '~'])
        return t, t.lower()

    def values(self):
        r = self.rng
        n = r.choice([1, 1, 1, 2, 3, 5])
        texts, vals = zip(*[self.value() for _ in range(n)])
        out = ''
        for k, t in enumerate(texts):
            if r.random() < 0.4*self.noise:
                t += ','; self.m.count('trailing_commas')
            out += t + (self.gap() if k < n-1 else '')
        if n > 1: self.m.count('lists')
        return out, (vals[0] if n == 1 else list(vals))

    def entry(self, name):
        eq = ''
        if self.rng.random() < 0.3:
            eq = self.gap() + '='; self.m.count('equals_signs')
        text, val = self.values()
        self.m.count('entries')
        self.line(self.quoted(name) + eq + self.gap() + text + self.tail())
        return val


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and [type(k) for k in a] == [type(k) for k in b] and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float): return isinstance(b, (int, float)) and not isinstance(b, bool) and a == b
    return type(a) is type(b) and a == b


def name(rng):
    while True:
        n = rng.choice(string.ascii_letters + '_') + ''.join(rng.choice(string.ascii_letters + string.digits + '_-.') for _ in range(rng.randint(0, 8)))
        if n not in METHODS: return n


def run_case(params, m):
    rng = random.Random(params['seed'])
    w = Writer(rng, m, params['noise'])
    want = {}
    blocks = singles = 0
    bad = params['bad']
    where = rng.randrange(params['items'] + 1)
    for k in range(params['items']):
        if bad and k == where: break
        n = name(rng)
        if want and rng.random() < 0.1:
            n = rng.choice(list(want)); m.count('redefinitions')
        if rng.random() < 0.6:
            want[n] = w.entry(n)
            singles += 1
            continue
        blocks += 1
        m.count('dict_blocks')
        t = w.tail(glue=False)
        if t: m.count('commented_dict_names')
        w.line(w.quoted(n) + t)
        w.rule()
        dct = {}
        nested, plain = set(), set()
        for _ in range(rng.randint(1, 6)):
            parts = [rng.choice(['k{}'.format(rng.randint(0, 3)), str(rng.randint(0, 400)), name(rng), '007'])
                     for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            keys = [int(x) if x.isdigit() else x for x in parts]
            # Plain values and sub-dicts are not to be mixed up under one key
            path = [tuple(keys[:j]) for j in range(1, len(keys)+1)]
            if any(x in plain for x in path[:-1]) or path[-1] in nested: continue
            nested.update(path[:-1]); plain.add(path[-1])
            val = w.entry(':'.join(parts))
            d = dct
            for x in keys[:-1]: d = d.setdefault(x, {})
            d[keys[-1]] = val
            if len(keys) > 1: m.count('nested_entries')
            if any(isinstance(x, int) for x in keys): m.count('integer_keys')
        if not dct:
            w.entry('only'); del w.lines[-1]
            val = w.entry('only'); dct['only'] = val
        w.rule()
        want[n] = dct
    if bad == 'nested': w.line(name(rng) + ':' + name(rng) + ' 5')
    elif bad == 'rule': w.line('-'*20)
    elif bad == 'rule2':
        # A second block right after the first has no name of its own
        w.line(name(rng)); w.rule(); w.entry('x'); w.rule(); w.rule()
    if bad:
        for _ in range(rng.randint(0, 2)): w.entry(name(rng))
    w.noiseLines()
    text = '\n'.join(w.lines) + ('' if rng.random() < 0.3 else '\n')
    if text and not text.endswith('\n'): m.count('last_line_unterminated')
    if not text.strip(): m.count('empty_files')
    if not params['items'] and not bad and rng.random() < 0.5: text = ''
    scratch = tempfile.mkdtemp(prefix='rv-')
    try:
        path = os.path.join(scratch, 'x.specs')
        with open(path, 'w') as fh: fh.write(text)
        try: s = specs.SpecsLoader(path)()
        except Exception as e: s, err = None, e
        m.count('files')
        m.check(open(path).read() == text, 'file-changed', "reading changed the file")
        if rng.random() < 0.05:
            m.count('missing_files')
            try: specs.SpecsLoader(path + 'x')()
            except OSError: pass
            except Exception as e: m.bad('missing', "missing file: {!r}", e)
            else: m.bad('missing', "no complaint about a missing file")
    finally: shutil.rmtree(scratch)
    m.sig(text)
    m.nontrivial = bool(blocks and singles)
    if bad:
        m.count('refused_nested' if bad == 'nested' else 'refused_rules')
        m.check(s is None and isinstance(err, ValueError), 'not-refused', "{} not refused: {} in\n{}", bad, None if s else repr(err), text)
        return
    if s is None:
        m.bad('raised', "{!r} on\n{}", err, text)
        return
    got = {k: v for k, v in vars(s).items()}
    m.check(set(got) == set(want), 'names', "entries {} instead of {} from\n{}", sorted(got), sorted(want), text)
    for n in want:
        m.check(same(want[n], got.get(n, KeyError)), 'value', "{} is {!r} instead of {!r} from\n{}", n, got.get(n, KeyError), want[n], text)
        m.check(same(want[n], s.get(n)), 'get', "get({}) is {!r} instead of {!r}", n, s.get(n), want[n])
        m.count('lookups')
        def walk(d, keys):
            for k in d:
                g = s.get(*(keys + [k]))
                m.count('lookups')
                m.check(same(d[k], g), 'get', "get{} is {!r} instead of {!r}", keys + [k], g, d[k])
                if isinstance(d[k], dict): walk(d[k], keys + [k])
                elif rng.random() < 0.5: absent(*(keys + [k, 'deeper']))
            absent(*(keys + ['missing']))
            absent(*(keys + ['missing', 'more']))
        def absent(*keys):
            g = s.get(*keys)
            m.count('absent_lookups')
            m.check(g == {} and isinstance(g, dict), 'get-absent', "get{} of something absent is {!r}", keys, g)
        if isinstance(want[n], dict): walk(want[n], [n])
        elif rng.random() < 0.5: absent(n, 'deeper')
    absent = s.get('no such entry')
    m.check(absent == {} and isinstance(absent, dict), 'get-absent', "get of something absent is {!r}", absent)
