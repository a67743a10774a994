BUDGET = {'quick': 300, 'thorough': 500}
BOUNDS = 'streams of 0 to 5 texts of up to 4 symbolic words, 1 to 4 workers, orders 1 to 3; round trip of up to 4 n-grams per order ' \
         'with symbolic counts >= 1 and probabilities in [1e-300, 1]'
ASSUMPTIONS = ['multiprocessing.Pool.map behaves as documented (sequential stand-in)', 'printed decimals read back within the printed precision']
WORDS = ['a', 'b', 'C']

QUICK = ['count %s/%d/%d' % (t, w, o) for t, w, o in [
    ('', 1, 1), ('', 2, 2), ('2', 1, 1), ('2', 2, 2), ('2,2', 1, 2), ('2,2', 2, 2), ('2,2', 3, 1), ('1,1,1', 2, 1), ('1,1,1', 3, 2), ('1,2,1', 2, 2),
    ('1,1,1,1', 2, 1), ('1,1,1,1,1', 4, 1), ('1,1,1,1', 4, 2), ('3,1', 2, 3), ('4', 1, 3), ('0,1', 1, 1), ('1,0,1', 2, 2), ('1,1,1', 1, 1)]] + \
    ['trip %s' % s for s in ('1', '2', '3', '1,1', '2,2', '1,2,1', '0,2', '3,3')] + ['mkn 2/1', 'mkn 2/2', 'mkn 3/2', 'mknpoor', 'order1', 'badname'] + ['many 40/4/2', 'many 60/3/1', 'many 101/8/3', 'alike 30/4/2']
THOROUGH = ['count 2,2,2/2/2', 'count 3,3/2/3', 'count 1,1,1,1,1,1/4/2', 'count 5/1/3', 'count 2,1,2,1/3/2', 'trip 4', 'trip 4,2', 'trip 2,2,2', 'count 4,4/2/2']

# histories: one after another in the same process, with the same objects
HISTORY = ['count 1,1/2/1 >> count 2/2/1', 'count 2/1/2 >> count 2/1/2', 'count 2,1/2/2 >> count 1/2/2', 'count 2/1/1 >> count 2/1/2', 'trip 1 >> trip 2', 'count 2/2/1 >> trip 1', 'mkn 2/1 >> mkn 2/1']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def valid(t):
    return t == 'I' or (len(t) > 0 and not 'A' <= t[0] <= 'Z' and all([('a' <= c <= 'z') or ('A' <= c <= 'Z') for c in t]))


def run(ctx, case):
    kind, _, arg = case.partition(' ')
    B = ctx.mod('langmodel.language_model_builder')
    L = ctx.mod('langmodel.language_model')
    if kind == 'order1':
        r, e = ctx.call(B.LanguageModelBuilder, 1)
        ctx.check(isinstance(e, B.ModifiedKneserNeyMinOrderError), 'Kneser-Ney with order 1 is not refused')
        return
    if kind == 'badname':
        r, e = ctx.call(B.LanguageModelBuilder, 2, smoothing='laplace')
        ctx.check(isinstance(e, ctx.mod('exceptions').ArgumentValueError), 'unknown smoothing is not refused')
        return
    if kind == 'mknpoor':
        r, e = ctx.call(B.LanguageModelBuilder(2, nb_processes=2), iter(['a b ! b a !']))
        ctx.check(isinstance(e, ctx.mod('langmodel.mkn_smoother').ModifiedKneserNeyNotEnoughDataError), 'poor data is not refused')
        return
    if kind == 'trip':
        return trip(ctx, B, L, [int(x) for x in arg.split(',')])
    if kind == 'mkn':
        o, w = [int(x) for x in arg.split('/')]
        texts = ['a b a b a b a b ! b c b c b c ! c a c a c', 'a c', 'b a b b', 'a b c a b c ! a b c', 'a a b b c']
        order = ctx.pick('swap', [0, 1, 2])
        k = ctx.concrete(order)
        if ctx.flag('start'):
            texts[0] = 'd ' + texts[0]  # a word that follows no other
        texts = texts[k:] + texts[:k]
        b = ctx.keep('mkn %d %d' % (o, w), lambda: B.LanguageModelBuilder(o, nb_processes=w))
        r, e = ctx.call(b, iter(texts))
        if e is not None:
            ctx.check(isinstance(e, ctx.mod('langmodel.mkn_smoother').ModifiedKneserNeyNotEnoughDataError), 'building failed')
            return
        lm = L.LanguageModel(*([1] * o))
        counts = count(texts, o)
        follow = {g.split()[1] for g in counts if len(g.split()) == 2}
        want = sorted([g for g in counts if ' ' in g or g in follow])
        ctx.check(sorted([g for n in range(1, o + 1) for g, _, _ in lm.top_ngrams(n)]) == want, 'n-grams lost or invented')
        files_written(ctx, o)
        for n in range(1, o + 1):
            for g, c, p in lm.top_ngrams(n):
                ctx.check(g in counts and counts[g] == c, 'count differs')
                ctx.check(p > 0, 'probability')
        ctx.check(all([g in counts for g in ['a b', 'b']]), 'harness')
        ctx.cover('kneser-ney')
        return
    spec, w, o = arg.split('/')
    w, o = int(w), int(o)
    texts = []
    if kind in ('many', 'alike'):
        # many texts, different or all the same but for some words
        for i in range(int(spec)):
            free = ctx.concrete(ctx.pick('w%d' % i, WORDS)) if i in (0, int(spec) // 2, int(spec) - 1) else 'b'
            texts.append('%s %s a' % ('x' + 'abcdefghij'[i // 10 % 10] + 'abcdefghij'[i % 10] if kind == 'many' else 'b', free))
        spec = ''
    for i, n in enumerate([int(x) for x in spec.split(',') if x]):
        words = [ctx.concrete(ctx.pick('w%d_%d' % (i, j), WORDS if n < 3 else WORDS[:2])) for j in range(n)]
        t = ' '.join(words)
        if n == 3:
            t = ' '.join(words[:2]) + ' ! ' + words[2]
        texts.append(t)
    ctx.observe('texts', texts)
    counts = count(texts, o)
    b = ctx.keep('mle %d %d' % (o, w), lambda: B.LanguageModelBuilder(o, smoothing='maximum_likelihood_estimation', nb_processes=w))
    b(iter(texts))
    files_written(ctx, o)
    lm = L.LanguageModel(*([1] * o))
    ctx.check(len(lm) == len(counts), 'n-grams lost or invented')
    for n in range(1, o + 1):
        total = sum([counts[g] for g in counts if len(g.split()) == n])
        top = list(lm.top_ngrams(n))
        ctx.check(len(top) == len([g for g in counts if len(g.split()) == n]), 'n-grams of one order lost')
        for g, c, p in top:
            ctx.check(g in counts, 'unknown n-gram')
            ctx.check(c == counts[g], 'a text is not counted exactly once')
            ctx.check(ctx.close(p * total, c), 'probability changed')
        listed = [line.split('\t') for line in ctx.written('langmodel/%d_grams.txt' % n).split('\n') if line]
        ctx.check(all([float(x[2]) >= float(y[2]) for x, y in zip(listed, listed[1:])]), 'file not in descending probability')
    if len(counts) > 1:
        ctx.cover('counted')


def files_written(ctx, o):
    """Other files of a language model are left alone (an earlier part of the case may have written more)"""
    known = ctx.keep('files', set)
    known.update(['langmodel/%d_grams.txt' % n for n in range(1, o + 1)])
    ctx.check(all([f in known for f in ctx.world.vfs.files if str(f).startswith('langmodel/') and 'grams' in str(f)]), 'a file of another order is written')


def count(texts, o):
    counts = {}
    for t in texts:
        for s in t.split('!'):
            toks = s.split()
            for n in range(1, o + 1):
                for i in range(len(toks) - n + 1):
                    if all([valid(x) for x in toks[i:i + n]]):
                        g = ' '.join(toks[i:i + n]).lower()
                        counts[g] = counts.get(g, 0) + 1
    return counts


def trip(ctx, B, L, sizes):
    words = 'alpha beta gamma delta'.split()
    vals = {}

    def fake(self):
        for o, n in enumerate(sizes):
            for i, g in enumerate(sorted(list(self.ngrams(o + 1)), key=lambda x: x.text)):
                g.count = ctx.int('c%d_%d' % (o, i), 1)
                p = ctx.real('p%d_%d' % (o, i), 1e-300, 1)
                g.proba = p
                vals[g.text] = (o + 1, g.count, p)
        return self
    S = ctx.mod('langmodel.mle_smoother').MLESmoother
    old = S.__call__
    S.__call__ = fake
    try:
        texts = []
        for o, n in enumerate(sizes):
            for i in range(n):
                texts.append(' '.join([words[(i + k) % 4] for k in range(o + 1)]))
        B.LanguageModelBuilder(len(sizes), smoothing='maximum_likelihood_estimation', nb_processes=2)(iter(texts))
    finally:
        S.__call__ = old
    lm = L.LanguageModel(*([1] * len(sizes)))
    ctx.check(len(lm) == len(vals), 'n-grams lost or invented')
    for o in range(1, len(sizes) + 1):
        want = [g for g in vals if vals[g][0] == o]
        got = list(lm.top_ngrams(o))
        ctx.check(len(got) == len(want), 'n-grams lost or invented')
        for g, c, p in got:
            ctx.check(g in want, 'text changed')
            ctx.check(ctx.eq(c, vals[g][1]), 'count changed')
            ctx.check(ctx.all([abs(p - vals[g][2]) <= vals[g][2] * 1e-6]), 'probability changed')
            ctx.cover('round trip')
        names = [g for g, _, _ in got]
        for x, y in zip(names, names[1:]):
            ctx.check(vals[x][2] >= vals[y][2], 'not listed by descending probability')
        lines = lines_of(ctx.written('langmodel/%d_grams.txt' % o))
        fnames = lines
        ctx.check(sorted(fnames) == sorted(want), 'file content')
        for x, y in zip(fnames, fnames[1:]):
            ctx.check(vals[x][2] >= vals[y][2], 'file not in descending probability')


def lines_of(text):
    return [f for f in [line.split('\t')[0] for line in text.split('\n')] if f != '']


COVER = ['counted', 'round trip', 'kneser-ney']
