"""C32: command lines are read as the declared options say."""
import sys, io, random, re, contextlib
from rv import sim
from ade.args import Args

LEVEL = 'exploration'
ROUNDS = 4
RULE = "Programs and command lines are distinct by the options declared and the words given; non-trivial when some option was given and another was not."
NEED = ['programs', 'options', 'flags', 'values_given', 'values_defaulted', 'flags_given', 'flags_absent', 'positionals', 'no_positionals', 'undeclared_positionals',
        'slices', 'iterations', 'truth', 'absent_names', 'main_run', 'main_not_run', 'refused_values', 'unknown_refused', 'help_texts', 'help_defaults',
        'negative_values', 'empty_values', 'repeated_options']


def cases(tier, seed):
    rng = random.Random(seed*59 + 32)
    return [dict(seed=seed*100291 + k) for k in range(1500 if tier == 'quick' else 15000)]


LETTERS = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"        # but not h, which is for help
WORDS = ["alpha", "beta", "gamma-ray", "delta", "eps-il-on", "zeta", "eta", "theta", "iota", "kappa"]


def parse(args, argv, what):
    """what() with the command line argv: (result, exit code, output)."""
    old = sys.argv
    out = io.StringIO()
    try:
        sys.argv = ['prog'] + argv
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try: return what(), None, out.getvalue()
            except SystemExit as e: return None, e.code, out.getvalue()
    finally: sys.argv = old


def run_case(params, m):
    rng = random.Random(params['seed'])
    m.count('programs')
    paras = [" ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 5, 40]))) for _ in range(rng.choice([1, 1, 2, 3]))]
    text = "\n\n".join(p if rng.random() < 0.5 else p.replace(" ", "\n    ", 1) for p in paras)
    if rng.random() < 0.5: text = "\n    " + text + "\n    \n"
    opts = []
    letters = rng.sample(LETTERS, rng.choice([0, 1, 2, 4, 8]))
    longs = rng.sample(WORDS, len(letters))
    for letter, word in zip(letters, longs):
        kind = rng.choice(['flag', int, float, str])
        help = "About {}".format(word)
        default = None
        if kind is int: default = rng.choice([0, 1, -3, 10**12])
        elif kind is float: default = rng.choice([0.0, 1.5, -2.25, 1e-9])
        elif kind is str: default = rng.choice(["", "text", "two words", "0"])
        if kind is not str or default:
            style = rng.choice(['plain', 'plain', 'dest', 'says'])
            if style == 'dest' and kind != 'flag': help += " of {}"
            elif style == 'says': help += " (default is what it is)"
        opts.append((letter, word, kind, default, help))
    declared = rng.random() < 0.7

    def make():
        args = Args(text)
        order = list(range(len(opts)))
        at = rng.randint(0, len(opts)) if declared else -1
        for k in range(len(opts) + 1):
            if k == at: args("<positional things>")
            if k < len(opts):
                letter, word, kind, default, help = opts[k]
                if kind == 'flag': args('-'+letter, '--'+word, help)
                else: args('-'+letter, '--'+word, default, help)
        return args

    def value(kind):
        if kind is int: return rng.choice([0, 5, -7, 123456789])
        if kind is float: return rng.choice([0.0, 3.25, -1e-3, 2e30, 7.0])
        return rng.choice(["x", "", "with space", "a=b", "é", "None", "0", "{}", "%d"])

    # --- A command line and what it means
    want, argv, given = {}, [], set()
    for letter, word, kind, default, help in opts:
        m.count('options')
        if kind == 'flag': m.count('flags')
        want[letter] = (kind == 'flag' and False) or default if kind != 'flag' else False
        for _ in range(rng.choice([0, 1, 1, 2])):
            if letter in given: m.count('repeated_options')
            given.add(letter)
            if kind == 'flag':
                argv.append([rng.choice(['-'+letter, '--'+word])]); want[letter] = True
                continue
            v = value(kind)
            s = str(v) if kind is not float else repr(v)
            forms = [['--{}={}'.format(word, s)]]
            if not s.startswith('-') : forms.append(['--'+word, s]); forms.append(['-'+letter, s])
            if s and not s.startswith('='): forms.append(['-'+letter+s])
            if s.startswith('-'): m.count('negative_values')
            if not s: m.count('empty_values')
            argv.append(rng.choice(forms)); want[letter] = v
    blocks = list(argv)
    # (the last of repeated options counts, so keep their order)
    pos = [rng.choice(["one", "two words", "3", "p=4", "", "é"]) for _ in range(rng.choice([0, 1, 2, 5]))] if declared else []
    pos = [p for p in pos if p] if rng.random() < 0.9 else pos
    where = rng.choice([0, len(blocks)])
    words = [w for b in blocks[:where] for w in b] + pos + [w for b in blocks[where:] for w in b]
    args = make()

    def look():
        got = {}
        for letter, _, _, _, _ in opts: got[letter] = getattr(args, letter)
        return got

    got, code, out = parse(args, words, look)
    for letter, _, kind, _, _ in opts:
        if kind == 'flag': m.count('flags_given' if want[letter] else 'flags_absent')
        else: m.count('values_given' if letter in given else 'values_defaulted')
    if opts and given and len(given) < len(opts): m.nontrivial = True
    m.sig(tuple(words), tuple((o[0], str(o[2])) for o in opts), declared)
    if not m.check(code is None and got is not None, 'refused', "{} for options {} was refused: {}", words, [o[:4] for o in opts], out[-200:]): return
    for letter, word, kind, default, help in opts:
        t = bool if kind == 'flag' else kind
        m.check(type(got[letter]) is t and got[letter] == want[letter], 'value', "{} for -{} (default {!r}) gives {!r} instead of {!r}",
                words, letter, default, got[letter], want[letter])

    def seq():
        return (list(args), len(args), bool(args), [args[k] for k in range(len(pos))], args[1:], args[-2:], list(args))
    if declared:
        m.count('positionals' if pos else 'no_positionals')
    else: m.count('undeclared_positionals')
    got, code, out = parse(args, words, seq)
    if m.check(code is None, 'positionals', "looking at the positional arguments of {} exits", words):
        a, n, b, items, tail, last, again = got
        m.count('iterations'); m.count('slices'); m.count('truth')
        m.check(a == pos and again == pos and n == len(pos) and items == pos and list(tail) == pos[1:] and list(last) == pos[-2:], 'positionals',
                "positional arguments of {} are {} (len {}, items {}, [1:] {}) instead of {}", words, a, n, items, tail, pos)
        m.check(b is (len(pos) > 0), 'truth', "truth of {} is {} with {} positional arguments", words, b, len(pos))
    other = [c for c in LETTERS if c not in letters]
    name = rng.choice(other)
    got, code, out = parse(args, words, lambda: getattr(args, name))
    m.count('absent_names')
    m.check(got is None and code is None, 'absent', "undeclared option {} gives {!r}", name, got)

    # --- A function to be run
    ran = []
    def func(): ran.append(1); return 'result'
    main = rng.random() < 0.5
    func.__module__ = '__main__' if main else rng.choice(['ade.something', '__main', 'main'])
    got, code, out = parse(args, words, lambda: args(func))
    if main:
        m.count('main_run')
        m.check(ran == [1] and got == 'result', 'main', "a function of the main module was run {} times and gave {!r}", len(ran), got)
    else:
        m.count('main_not_run')
        m.check(not ran, 'main', "a function of module {} was run", func.__module__)

    # --- What can't be a command line is refused
    numeric = [o for o in opts if o[2] in (int, float)]
    if numeric:
        o = rng.choice(numeric)
        a2 = make()
        bad = rng.choice(["x", "1.5" if o[2] is int else "1,5", "1 2"])
        got, code, out = parse(a2, ['--{}={}'.format(o[1], bad)], lambda: getattr(a2, o[0]))
        m.count('refused_values')
        m.check(code not in (None, 0), 'not-refused', "{!r} for {} with default {!r} gives {!r}", bad, o[1], o[3], got)
    a2 = make()
    got, code, out = parse(a2, ['--unheard-of'], lambda: a2.x)
    m.count('unknown_refused')
    m.check(code not in (None, 0), 'not-refused', "an unknown option was accepted")

    # --- Help
    a2 = make()
    got, code, out = parse(a2, ['-h'], lambda: a2.h)
    m.count('help_texts')
    if m.check(code == 0, 'help', "asking for help exits with {!r}: {}", code, out[-200:]):
        flat = "".join(out.split())        # words may be broken at hyphens
        for p in paras: m.check("".join(p.split()) in flat, 'help', "paragraph {!r} is not in the help text", p[:60])
        for letter, word, kind, default, help in opts:
            m.check(re.search(r"-{}\b.*--{}\b".format(letter, re.escape(word)), out) is not None, 'help', "-{}, --{} not in the help text", letter, word)
            if kind != 'flag':
                m.count('help_defaults')
                h = help.format(letter)
                h = h if 'default' in h.lower() else "{} [{}]".format(h, default)
                m.check("".join(h.split()) in flat, 'help', "help on {} is not {!r}: {}", word, h, flat[-300:])
            else: m.check("".join(help.split()) in flat, 'help', "help on {} is not {!r}", word, help)
