"""C26: predicting a batch equals predicting its rows one by one."""
import itertools

from mc.core import same, canon
from mc.learners import registry, words, trained, norm, QUERY

ID = 'C26'
TECHNIQUE = 'exhaustive enumeration of query batches (all sequences of rows, repeats included) against row-by-row answers in every state of a bounded set of training histories'
LEVEL_NOTE = (
    'every learner of the library in one to several settings; every sequence of at most 3 rows out of 4 and two long batches, in every state reached by the bounded training histories, '
    'including the untrained one'
)
BOUNDS = {'quick': 'all learners (about 80 settings); histories of 0-2 blocks of 6 samples plus 3 long ones; all 85 batches of 0..3 rows over 4 rows, a 9-row and a 20-row batch',
          'thorough': 'histories of 0-3 blocks plus 3 long ones; all 341 batches of up to 4 rows'}
ASSUMPTIONS = ['probability rows are compared up to trailing zero columns: while classes are undeclared the number of columns is that of the largest class voted for in the batch',
               'the Monte Carlo chain draws a new sample for every row and is compared only in shape']


def shards(tier):
    return [(l.name, {'depth': 2 if tier == 'quick' else 3, 'rows': 3 if tier == 'quick' else 4}) for l in registry()]


def find(name):
    return [l for l in registry() if l.name == name][0]


LONG = [QUERY[i % 4] for i in (0, 1, 2, 3, 3, 2, 1, 0, 0)]
LONG2 = [(float(a), float(b)) for a in range(4) for b in range(5)]


def run(name, p, ctx):
    l = find(name)
    batches = [list(b) for n in range(1, p['rows'] + 1) for b in itertools.product(QUERY, repeat=n)] + [LONG, LONG2]
    for h in words(p['depth']):
        ctx.case(name, 'history', h)
        m = trained(l, h)
        try:
            one = {q: norm(l.answers(m, [q])) for q in dict.fromkeys(QUERY + LONG2)}
        except Exception:
            if h == '':
                ctx.check(raises(l, m), name + '/untrained', 'one row raises, a batch answers')
                continue
            raise
        ctx.state(h, canon([one[q] for q in QUERY]))
        ctx.sample({'learner': name, 'history': h, 'rows': QUERY, 'answers': [one[q] for q in QUERY]})
        for q in one:
            ctx.check(all(len(a) == 1 for a in one[q]), name + '/one-row', lambda: 'row %s: %r' % (q, one[q]))
        for b in batches:
            ctx.trace()
            ctx.step(len(b))
            got = norm(l.answers(m, b))
            for k, a in enumerate(got):
                if not ctx.check(len(a) == len(b), '%s/length/%d' % (name, k), lambda: '%d rows, %d answers (history %s, batch %s)' % (len(b), len(a), h, b)):
                    break
                if 'q' in l:
                    continue
                want = [one[q][k][0] for q in b]
                if not same(a, want):
                    ctx.fail('%s/%s' % (name, ('predict', 'predict_proba')[k]), 'history %s, batch %s: got %s, row by row %s' % (h, b, a, want))


def raises(l, m):
    try:
        l.answers(m)
    except Exception:
        return True
    return False
