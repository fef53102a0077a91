"""C01: trial vectors obey the DE/x/1/bin recipe."""
import math
from scipy import stats as st
from rv import decases

LEVEL = 'exploration'
ROUNDS = 4
RULE = ("Runs are distinct by configuration and the sequence of evaluation, completion and "
        "generation events; non-trivial when at least one trial vector was decomposed into a "
        "unique (base, r0, r1).")
NEED = ['recipes_checked', 'unique_recipes', 'statistical_tests']
ASSUMPTIONS = ["statistical clauses (crossover frequency, index uniformity, base ranks, F draws) are "
               "judged on the pooled unique decompositions with p < 1e-9 per test"]


def cases(tier, seed):
    n = 260 if tier == 'quick' else 2600
    out = decases.configs(seed, n, policies=['sync', 'sync', 'random', 'hold', 'timed', 'mixed'],
                          objectives=['noise', 'sphere', 'noise', 'better', 'worse'], _Nd=[1, 2, 3, 4, 6])
    # For the statistics: many unique decompositions at few configurations
    for k in range(n // 2):
        c = dict(out[k])
        c.update(seed=seed*100003 + 50000 + k, Nd=5, Np=12, bounds='wide', objective='noise',
                 CR=[0.2, 0.5, 0.8][k % 3], F=[0.5, 0.7, 0.6, [0.5, 1.0]][(k//3) % 4], adaptive=False,
                 randomBase=[True, 0.3, 0.8, False][k % 4], maxiter=8, stats=True,
                 policy=['sync', 'random'][k % 2])
        out.append(c)
    return out


def run_case(params, m):
    run = decases.build(m, params, {'recipe'})
    run.setup()
    run.run()
    m.sig(params['CR'], params['F'], params['randomBase'], params['Nd'], params['Np'], run.lab.sigEvents)
    m.nontrivial = m.counts.get('unique_recipes', 0) > 0
    m.notes = dict(generations=len(run.kgs))


P = 1e-9

def chi2(obs, exp):
    pairs = [(o, e) for o, e in zip(obs, exp)]
    # Pool small expectations
    o2, e2, oa, ea = [], [], 0.0, 0.0
    for o, e in sorted(pairs, key=lambda x: -x[1]):
        oa += o; ea += e
        if ea >= 8:
            o2.append(oa); e2.append(ea); oa = ea = 0.0
    if ea and o2:
        o2[-1] += oa; e2[-1] += ea
    if len(o2) < 2: return None
    x = sum((o-e)**2/e for o, e in zip(o2, e2))
    return st.chi2.sf(x, len(o2)-1)


def finish(stats, m):
    report = {}
    def judge(key, name, p, text, *args):
        if p is None: return
        m.count('statistical_tests')
        report[name] = p
        if p < P: m.bad(key, "{}: p={:.3g}: " + text, name, p, *args)
    for key, hist in stats.get('donor_count', {}).items():
        CR, Nd = key.split('/')
        CR, Nd = float(CR), int(Nd)
        n = sum(hist)
        if n < 100: continue
        if hist[0]: m.bad('no-donor-coordinate', "{} challengers without any donor coordinate", hist[0])
        exp = [0.0] + [n*st.binom.pmf(j-1, Nd-1, CR) for j in range(1, Nd+1)]
        judge('crossover-rate', 'donor_count '+key, chi2(hist[1:], exp[1:]),
              "number of donor coordinates {} expected {}", hist, [round(e, 1) for e in exp])
    for key, v in stats.get('donor_position', {}).items():
        CR, Nd = key.split('/')
        CR, Nd = float(CR), int(Nd)
        n = v[-1]
        if n < 100: continue
        pr = 1.0/Nd + (1-1.0/Nd)*CR
        for j in range(Nd):
            judge('crossover-position', 'donor_position {}[{}]'.format(key, j),
                  st.binomtest(int(v[j]), int(n), pr).pvalue, "coordinate {} from the donor {} of {} times", j, v[j], n)
    for key, v in stats.get('difference_members', {}).items():
        n = len(v)//2
        judge('difference-members', 'difference_members '+key, chi2(v[:n], v[n:]),
              "positions of the difference members are not uniform: {} expected {}", v[:n], [round(e) for e in v[n:]])
    for key, v in stats.get('difference_ranks', {}).items():
        n, N = sum(v), len(v)
        if n < 200: continue
        judge('difference-ranks', 'difference_ranks '+key, chi2(v, [n/float(N)]*N),
              "ranks of the difference members are not uniform: {}", v)
    for key, v in stats.get('difference_order', {}).items():
        judge('difference-order', 'difference_order', st.binomtest(int(v[0]), int(v[1]), 0.5).pvalue,
              "first difference member has the lower position {} of {} times", v[0], v[1])
    for key, v in stats.get('F_draws', {}).items():
        n = sum(v)
        if n > 200: judge('F-draws', 'F_draws', chi2(v, [n/10.0]*10), "F draws by tenth of the range: {}", v)
    for key, v in stats.get('base_rank', {}).items():
        rb, nr = key.split('/')
        n, N = sum(v), len(v)
        if n < 200: continue
        if rb == 'True':
            judge('base-uniform', 'base_rank '+key, chi2(v, [n/float(N)]*N), "ranks of the base {}", v)
        else:
            # Non-increasing in rank: the first half must not be rarer than the second
            h = N//2
            a, b = sum(v[:h]), sum(v[-h:])
            judge('base-bias', 'base_rank '+key, st.binomtest(int(a), int(a+b), 0.5, alternative='less').pvalue,
                  "better half chosen {} times, worse half {} times", a, b)
            if float(rb) < 0.9 and n > 500:
                pu = chi2(v, [n/float(N)]*N)
                if pu is not None:
                    m.count('statistical_tests')
                    report['base not uniform '+key] = pu
                    if pu > 1e-3: m.bad('base-bias', "base ranks for randomBase={} look uniform: {}", rb, v)
    return report
