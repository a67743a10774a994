TICKS = True
BUDGET = {'quick': 300, 'thorough': 600}
BOUNDS = 'orders 2 to 4, up to 9 n-grams per order with fixed words, up to 3 symbolic counts (unbounded, >= 1) at a time and ' \
         'symbolic unigram counts, 1 to 9 workers, one interruption of a worker before any statement; floats modelled as exact reals'
ASSUMPTIONS = ['every part of an n-gram is itself among the n-grams (as extraction guarantees)',
               'floating-point rounding is not modelled (compared up to 1e-9 in concrete runs)']

B2 = 'ab=1 ac=2 ba=3 bc=4 ca=%s cc=%s'
T3 = 'abc=1 bcc=2 cca=3 cab=4 bca=%s'
SHAPES = {
    '2a': 'a=u b=u c=u ' + B2 % ('x', 'x'),
    '2b': 'a=x b=x c=u ab=x ac=1 ba=2 bc=3 ca=4',
    '2c': 'a=u b=u ab=x ba=x aa=x bb=1',
    '2d': 'a=u b=u c=u d=u ab=1 bc=2 cd=3 da=4 ac=x ad=x db=x',
    '2e': 'a=u b=u ab=1 ba=2 aa=3',
    '2f': 'a=u b=u ab=1 ba=2 aa=3 bb=x',
    '2g': 'b=u a=u ab=4 ba=3 aa=2 bb=x',
    '2h': 'a=u b=u c=u ab=1 ba=1 ac=2 ca=3 cb=3 bc=4 aa=x cc=7',
    '2i': 'a=u b=u c=u ab=x ba=x ac=x bc=x',
    '3a': 'a=u b=u c=u ' + B2 % ('5', '7') + ' ' + T3 % 'x',
    '3b': 'a=u b=u c=u ' + B2 % ('x', '7') + ' ' + T3 % '9',
    '3c': 'a=u b=u c=u ' + B2 % ('x', 'x') + ' ' + T3 % 'x',
    '3d': 'a=u b=u c=u aa=8 ' + B2 % ('6', '7') + ' ' + 'aab=1 aaa=1 baa=2 caa=3 aac=x cab=x abc=4',
    '3e': 'a=u b=u c=u ' + B2 % ('6', '7') + ' abc=1 bca=2 cab=x',
    '3f': 'a=u b=u c=u ' + B2 % ('3', '7') + ' abc=x bca=x cab=x acc=x',
    '4a': 'a=u b=u c=u ' + B2 % ('5', '7') + ' ' + T3 % '2' + ' abca=1 bcab=2 cabc=3 abcc=x bcca=4',
    '4b': 'a=u b=u c=u ' + B2 % ('5', 'x') + ' ' + T3 % 'x' + ' abca=1 bcab=2 cabc=3 abcc=4 bcca=6',
    '4c': 'a=u b=u c=u ' + B2 % ('5', '4') + ' ' + T3 % '2' + ' abca=1 bcab=2 cabc=x abcc=3 bcca=x',
}

# many n-grams
PAIRS = [a + b for a in 'abcdefgh' for b in 'abcdefgh' if (ord(a) * 3 + ord(b) * 5) % 7 < 5]
SHAPES['2m'] = ' '.join(['%s=u' % c for c in 'abcdefgh'] + ['%s=%s' % (p, 'x' if p in (PAIRS[0], PAIRS[-1]) else 1 + i * i % 7) for i, p in enumerate(PAIRS)])
SHAPES['3m'] = ' '.join(['%s=%d' % (c, 90 + ord(c)) for c in 'abcdefgh'] + ['%s=%d' % (p, 1 + i * i % 7) for i, p in enumerate(PAIRS)] +
                        ['%s=%s' % (t, 'x' if i == 5 else 1 + i * i % 5) for i, t in enumerate([p + c for p in PAIRS for c in 'abcdefgh' if p[1] + c in PAIRS and (ord(p[0]) + ord(c)) % 3 == 0])])


def cases(tier):
    out = []
    for s in sorted([x for x in SHAPES if x[1] != 'm']):
        for w in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5, 9)):
            out.append('%s/%d' % (s, w))
    return out + ['2m/1', '2m/4', '3m/3', '2a/9', '3a/8', '2e/1 >> 2f/1', '2f/1 >> 2g/2', '2b/1 >> 3e/1', '3b/1 >> 2f/2', '2e/2 i', '2f/2 i', '3e/2 i', '3b/2 i']


def run(ctx, case):
    shape, workers = case.split('/')
    workers, _, opt = workers.partition(' ')
    if opt == 'i':
        ctx.preempt(0, 60)
    N = ctx.mod('langmodel.ngram').Ngram
    C = {}
    ngrams = []
    for item in SHAPES[shape].split():
        t, c = item.split('=')
        key = tuple(t)
        g = N(' '.join(key))
        if c == 'x':
            g.count = ctx.int('c_' + t, 1)
        elif c == 'u':
            g.count = ctx.int('c_' + t, 5)
        else:
            g.count = int(c)
        C[key] = g.count
        ngrams.append(g)
    last = max([len(k) for k in C])
    K = ctx.mod('langmodel.mkn_smoother')

    def go():
        return K.MKNSmoother(ngrams, last, int(workers))()
    res, err = ctx.call(go)
    # classes of counts: the path has decided them
    cls = {}
    for k in C:
        c = C[k]
        cls[k] = 1 if c == 1 else 2 if c == 2 else 3 if c == 3 else 4 if c == 4 else 5
    n = {}
    for o in range(2, last + 1):
        for j in (1, 2, 3, 4):
            n[o, j] = len([k for k in cls if len(k) == o and cls[k] == j])
    poor = any([n[o, j] == 0 for o in range(2, last + 1) for j in (1, 2, 3, 4)])
    if poor:
        ctx.check(err is not None and isinstance(err, K.ModifiedKneserNeyNotEnoughDataError), 'poor data is not refused')
        ctx.cover('refused')
        return
    if err is not None:
        raise err
    D = {}
    for o in range(2, last + 1):
        y = n[o, 1] / (n[o, 1] + 2 * n[o, 2])
        D[o] = [0, 1 - 2 * y * n[o, 2] / n[o, 1], 2 - 3 * y * n[o, 3] / n[o, 2], 3 - 4 * y * n[o, 4] / n[o, 3]]
    nbig = len([k for k in C if len(k) == 2])

    def follow(h, o, kind):
        return len([k for k in C if len(k) == o and k[:-1] == h and (min(cls[k], 3) == kind)])

    def weight(h, o):
        return follow(h, o, 1) * D[o][1] + follow(h, o, 2) * D[o][2] + follow(h, o, 3) * D[o][3]

    def cont(k):
        m = len(k)
        left = len([x for x in C if len(x) == m + 1 and x[1:] == k])
        if m == 1:
            return left / nbig
        mid = len([x for x in C if len(x) == m + 1 and x[1:-1] == k[:-1]])
        disc = max(left - D[m + 1][min(left, 3)], 0)
        return disc / mid + weight(k[:-1], m) / mid * cont(k[1:])
    total = 0
    seen = 0
    for o in range(1, last + 1):
        listed = list(res.ngrams(o))
        mine = sorted([k for k in C if len(k) == o])
        ctx.check(sorted([tuple(g.text.split(' ')) for g in listed]) == mine, 'n-grams lost or invented')
        for g in listed:
            k = tuple(g.text.split(' '))
            ctx.check(ctx.eq(g.count, C[k]), 'count changed')
            p = g.proba
            if o == 1:
                ctx.check(ctx.close(p, cont(k)), 'unigram probability is not the share of left contexts')
                total = total + p
                continue
            h = C[k[:-1]]
            d = D[o][min(cls[k], 3)]
            num = ctx.ite(C[k] - d > 0, C[k] - d, 0)
            # p = num/h + weight/h * lower
            ctx.check(ctx.close(p * h, num + weight(k[:-1], o) * cont(k[1:])), 'probability differs from the formula')
            seen += 1
    ctx.check(ctx.close(total, 1), 'unigram probabilities do not sum to one')
    if seen:
        ctx.cover('order %d' % last)


COVER = ['refused', 'order 2', 'order 3', 'order 4']
