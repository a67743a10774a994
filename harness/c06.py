import math

TICKS = True
BUDGET = {'quick': 300, 'thorough': 300}
BOUNDS = 'up to 5 n-grams per order with unbounded symbolic counts >= 1, orders 1 to 4, 1 to 8 workers (up to 250 n-grams with one symbolic count each and 49 workers), one interruption of a worker before any statement; floats modelled as exact reals'
ASSUMPTIONS = ['floating-point rounding is not modelled (compared up to 1e-9 in concrete runs)']
W = ['', 'a', 'b c', 'd e f', 'g h i j']

CASES = ['%s/%d' % (s, w) for s in ('1', '2', '3', '1,1', '3,2', '2,3,1', '5', '1,4,1,2', '0', '2,0', '0,2', '2,0,2', '4,1') for w in (1, 2, 3, 4)] \
    + ['5,5/8', '1/8', '5/7', '3,3,3/5', '2,1/2 >> 3/1', '3/1 >> 2,2/2', '2,2/2 >> 1,3/2', '2/1 >> 2/1 >> 2/1', '2,2/2 i', '3,1/2 i', '3/3 i', '15,30/11 b', '13/23 b', '1,2/49 b', '15/13 b', '40,40,40/8 b', '250/3 b']


def cases(tier):
    return CASES


def run(ctx, case):
    spec, workers = case.split('/')
    workers, _, opt = workers.partition(' ')
    if opt == 'i':
        ctx.preempt(0, 60)
    sizes = [int(x) for x in spec.split(',')]
    N = ctx.mod('langmodel.ngram').Ngram
    ngrams = []
    for o, n in enumerate(sizes):
        for i in range(n):
            g = N(' '.join(['w%d%d' % (i, k) for k in range(o + 1)]))
            g.count = ctx.int('c%d_%d' % (o + 1, i), 1) if opt != 'b' or i == n - 1 else 1 + i % 4
            ngrams.append((o + 1, i, g))
    # the store hands n-grams of all orders over mixed
    ngrams.sort(key=lambda x: (x[1], -x[0]))
    counts = {g.text: g.count for _, _, g in ngrams}
    S = ctx.mod('langmodel.mle_smoother').MLESmoother
    sm = S([g for _, _, g in ngrams], len(sizes), int(workers))
    res = sm()
    for o, n in enumerate(sizes):
        mine = [g for order, _, g in ngrams if order == o + 1]
        listed = list(res.ngrams(o + 1))
        ctx.check(len(listed) == n, 'n-grams lost or invented')
        total = 0
        for g in mine:
            total = total + counts[g.text]
        s = 0
        for g in listed:
            ctx.check(len(g.tokens) == o + 1, 'n-gram of another order')
            ctx.check(ctx.eq(g.count, counts[g.text]), 'count changed')
            ctx.check(g.proba is not None, 'no probability')
            ctx.check(ctx.close(g.proba * total, g.count), 'probability is not count over total')
            ctx.check(ctx.close(math.exp(g.logp), g.proba), 'logarithm of another probability')
            s = s + g.proba
        ctx.check(len({g.text for g in listed}) == n, 'n-gram listed twice')
        for g, h in zip(listed, listed[1:]):
            ctx.check((g > h) == (g.proba > h.proba), 'order of two n-grams')
        if n:
            ctx.check(ctx.close(s, 1), 'probabilities do not sum to one')
            ctx.cover('distribution')
    if ngrams:
        ngrams[0][2].proba = 0.0
        ctx.check(ngrams[0][2].logp == float('-inf'), 'logarithm of zero')


COVER = ['distribution']
