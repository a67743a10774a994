BUDGET = {'quick': 300, 'thorough': 500}
BOUNDS = 'files of up to 6 n-grams per order (orders 1 to 3) with symbolic counts (>= 1), probabilities in (0, 1] and minimum counts, ' \
         'queries over symbolic choices of known and unknown words, limits None and 0 to 4'
ASSUMPTIONS = ['every probability in the files is positive', 'an n-gram is listed once']
UNI = ['a', 'b', 'c', 'd']
BI = ['a b', 'a c', 'b c', 'c a', 'a a']
TRI = ['a b c', 'a b a', 'c a b']
QUAD = ['a b c a', 'c a b c']

QUICK = ['load 1 %d' % i for i in (1, 2, 4)] + ['load 2 2', 'load 2 3', 'load 3 2', 'has', 'hasmin', 'bestngram 1 2', 'bestngram 1 3', 'bestngram 2 3',
         'bestngram 2 2', 'token1 2', 'token1 3', 'token2 2', 'token2 3', 'token3 2', 'token3b 2', 'token2n 2', 'token4 2', 'next 4 0', 'load 4 1', 'next 2 0', 'next 2 1', 'next 3 0', 'next 3 1', 'next 1 0',
         'top 1', 'top 2', 'top 3', 'top0', 'many top', 'many next', 'many best']
THOROUGH = ['load 1 6', 'load 2 4', 'load 3 3', 'bestngram 1 4', 'bestngram 2 4', 'token1 4', 'token3 3', 'token3b 3', 'token2n 3']

# histories: one after another in the same process, with the same objects
HISTORY = ['load 2 2 >> load 1 2', 'load 1 2 >> load 2 2', 'load 1 1 >> load 1 2', 'hasmin >> has', 'bestngram 1 2 >> bestngram 1 2', 'token2n 2 >> token2n 2', 'token1 2 >> token1 2', 'next 2 0 >> next 2 0', 'next 3 0 >> next 2 0', 'top 1 >> top 1', 'top 2 >> top 1', 'top 1 >> load 1 2']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def setup(ctx, sizes, fixed=None):
    """Writes the files; returns (model, {ngram: (count, proba)} after the minimum counts)"""
    if fixed is not None and 'model %s' % sizes in ctx.kept:
        return ctx.kept['model %s' % sizes]   # the model of an earlier part of the case
    mins = [ctx.int('min%d' % (o + 1), 0) if fixed is None else fixed for o in range(len(sizes))]
    table = {}
    for o, n in enumerate(sizes):
        lines = []
        for i, g in enumerate([UNI, BI, TRI, QUAD][o][:n]):
            c = ctx.int('c%d_%d' % (o, i), 1) if fixed is None else 5
            p = ctx.real('p%d_%d' % (o, i), 0, 1)
            ctx.assume(p > 0)
            lines.append(g + '\t' + str(c) + '\t' + str(p) + '\n')
            table[g] = (c, p, o)
        ctx.file('langmodel/%d_grams.txt' % (o + 1), lines)
    # files of higher orders must not be read; give them other content
    lm = ctx.mod('langmodel.language_model').LanguageModel(*mins)
    known = {}
    for g in table:
        c, p, o = table[g]
        if c >= mins[o]:
            known[g] = (c, p)
    if fixed is not None:
        ctx.kept['model %s' % sizes] = (lm, known, table)
    return lm, known, table


def run(ctx, case):
    kind, *args = case.split()
    if kind == 'load':
        o, n = int(args[0]), int(args[1])
        lm, known, table = setup(ctx, [n] * o)
        ctx.check(len(lm) == len(known), 'number of n-grams')
        for g in list(table) + ['zz', 'a zz', '', 'b a']:
            ctx.check((g in lm) == (g in known), 'membership')
            ctx.check(lm.has_ngram(g) == (g in known), 'has_ngram')
        tops = []
        for k in range(1, o + 2):
            tops += [tuple(x) for x in lm.top_ngrams(k)]
        ctx.check(len(tops) == len(known), 'listed n-grams')
        for g, c, p in tops:
            ctx.check(g in known, 'unknown n-gram listed')
            ctx.check(ctx.all([ctx.eq(c, known[g][0]), ctx.eq(p, known[g][1])]), 'count or probability changed by loading')
        ctx.cover('loaded')
        return
    if kind == 'has' or kind == 'hasmin':
        lm, known, table = setup(ctx, [2, 1])
        m = ctx.int('q') if kind == 'hasmin' else 1
        for g in ['a', 'b', 'a b', 'zz', 'a zz']:
            got = lm.has_ngram(g, m) if kind == 'hasmin' else lm.has_ngram(g)
            if g in known:
                ctx.check(ctx.eq(got, ctx.all([m >= 1, known[g][0] >= m])), 'has_ngram with minimum count')
            else:
                ctx.check(not got, 'unknown n-gram reported')
            ctx.check((g in lm) == (g in known), 'membership')
        return
    if kind == 'bestngram':
        o, n = int(args[0]), int(args[1])
        lm, known, table = setup(ctx, [3, 2][:o], 5)
        pool = ['a', 'b', 'c', 'zz'] if o == 1 else ['a b', 'a c', 'zz a', 'b']
        cands = [ctx.pick('q%d' % i, pool) for i in range(n)]
        cands = [ctx.concrete(x) for x in cands]
        got = lm.best_ngram(*cands)
        ctx.observe('got', got)
        here = [c for c in cands if c in known]
        if not here:
            ctx.check(got is None, 'an answer for unknown n-grams')
            return
        ctx.check(got is not None and got in here, 'answer is not a known candidate')
        for c in here:
            ctx.check(known[got][1] >= known[c][1], 'a more probable candidate lost')
        ctx.cover('best n-gram')
        return
    if kind.startswith('token'):
        n = int(args[0])
        if kind == 'token1':
            sizes, before, after = [3], None, None
        elif kind == 'token2':
            sizes, before, after = [3, 4], ctx.concrete(ctx.pick('before', [None, 'a', 'z a', 'c'])), ctx.concrete(ctx.pick('after', [None, 'c', 'b z']))
        elif kind == 'token2n':
            sizes, before, after = [2, 2], 'a', None
        elif kind == 'token4':
            sizes, before, after = [2, 2, 1, 2], ctx.concrete(ctx.pick('before', [None, 'a', 'a b', 'c a b'])), ctx.concrete(ctx.pick('after', [None, 'c', 'b c']))
        elif kind == 'token3':
            sizes, before, after = [3, 2, 3], ctx.concrete(ctx.pick('before', ['a', 'x a', 'c a'])), ctx.concrete(ctx.pick('after', [None, 'c', 'a']))
        else:
            sizes, before, after = [3, 3, 3], ctx.concrete(ctx.pick('before', ['a b', 'c a', None])), ctx.concrete(ctx.pick('after', ['b c', None]))
        lm, known, table = setup(ctx, sizes, 5)
        pool = ['a', 'b', 'c', 'zz']
        cands = [ctx.concrete(ctx.pick('q%d' % i, pool)) for i in range(n)]
        kw = {}
        if before is not None:
            kw['before'] = before
        if after is not None:
            kw['after'] = after
        got = lm.best_token(*cands, **kw)
        ctx.observe('got', got)
        here = [c for c in cands if c in known]
        if not here:
            ctx.check(got is None, 'an answer for unknown tokens')
            return
        ctx.check(got in cands, 'answer is not a candidate')

        def score(t):
            """Best probability per order, longest first (0 when nothing is known)"""
            seq = (before.split() if before else []) + [t] + (after.split() if after else [])
            at = len(before.split()) if before else 0
            out = []
            for k in range(len(sizes), 0, -1):
                best = 0
                for i in range(len(seq) - k + 1):
                    g = ' '.join(seq[i:i + k])
                    if i <= at < i + k and g in known:
                        best = max(best, known[g][1])
                out.append(best)
            return out
        sg = score(got)
        for c in cands:
            sc = score(c)
            # sg >= sc lexicographically
            better = False
            for x, y in zip(sg, sc):
                if x > y:
                    better = True
                    break
                if x < y:
                    ctx.fail('a candidate with a better context lost')
        ctx.cover('best token')
        return
    if kind == 'next':
        o, with_limit = int(args[0]), int(args[1])
        lm, known, table = setup(ctx, [2, 5, 3, 2][:o], 5) if o != 1 else setup(ctx, [3], 5)
        text = ctx.concrete(ctx.pick('text', ['a', 'a b', 'z a', 'c a', 'b', 'zz', 'x a b', 'd z', 'A. a', '']))
        limit = ctx.concrete(ctx.pick('limit', [None, 1, 2, 0, 4])) if with_limit else None
        got = list(lm.next_word(text, limit) if with_limit else lm.next_word(text))
        toks = text.split()
        want = []
        for k in range(o - 1, 0, -1):
            if k <= len(toks):
                h = ' '.join(toks[-k:])
                want = [g for g in known if g.split()[:-1] == h.split()]
                if want:
                    break
        check_list(ctx, [(x[0], x[1]) for x in got], {g.split()[-1]: known[g][1] for g in want}, limit)
        if want:
            ctx.cover('next word')
        return
    if kind == 'many':
        # many n-grams, some probabilities free
        n = 150
        words = ['w' + 'abcdefghijklmno'[i // 10] + 'abcdefghij'[i % 10] for i in range(n)]
        p = [ctx.concrete(ctx.pick('p%d' % i, [0.0005, 0.101, 0.5, 0.9])) if i in (3, 149) else 0.001 + ((i * 37) % 151) / 200.0 for i in range(n)]
        c = [7 if i == 149 else 5 + i for i in range(n)]
        for o in (1, 2):
            ctx.file('langmodel/%d_grams.txt' % o, [('h ' if o == 2 else '') + words[i] + '\t' + str(c[i]) + '\t' + str(p[i]) + '\n' for i in range(n)])
        lm = ctx.mod('langmodel.language_model').LanguageModel(7, 6)
        left = {words[i]: p[i] for i in range(n) if c[i] >= (7 if args[0] == 'top' else 6)}
        limit = ctx.concrete(ctx.pick('limit', [None, 1, 100, 120, 147, 148, 149, 150, 500]))
        ctx.check(len(lm) == 148 + 149, 'n-grams lost or invented')
        if args[0] == 'top':
            for _ in range(2):
                got = lm.top_ngrams(1, limit)
                check_list(ctx, [(x[0], x[2]) for x in got], left, limit)
                if isinstance(got, list):
                    got.clear()  # the answer belongs to who asked
        elif args[0] == 'next':
            for _ in range(2):
                got = lm.next_word('the h', limit)
                check_list(ctx, [(x[0], x[1]) for x in got], left, limit)
                if isinstance(got, list):
                    got.clear()
        else:
            got = lm.best_ngram(*(words + ['zz']))
            ctx.check(got in left and all([left[got] >= left[w] for w in words[2:]]), 'a more probable candidate lost')
            got = lm.best_token(*(words[2:] + ['zz']), before='h')
            ctx.check(got in left and all([left[got] >= left[w] for w in words[2:]]), 'a candidate with a better context lost')
        return
    if kind == 'top' or kind == 'top0':
        lm, known, table = setup(ctx, [3, 3, 2], 5)
        o = int(args[0]) if args else 4
        limit = ctx.concrete(ctx.pick('limit', [None, 1, 2, 0, 4]))
        got = list(lm.top_ngrams(o, limit))
        check_list(ctx, [(x[0], x[2]) for x in got], {g: known[g][1] for g in known if len(g.split()) == o}, limit)
        for x in got:
            ctx.check(ctx.eq(x[1], known[x[0]][0]), 'wrong count listed')
        ctx.cover('top')


def check_list(ctx, got, want, limit):
    n = len(want) if limit is None else min(limit, len(want))
    ctx.check(len(got) == n, 'wrong number of answers')
    names = [x[0] for x in got]
    ctx.check(len(set(names)) == len(names), 'answer repeated')
    for name, p in got:
        ctx.check(name in want, 'answer not asked for')
        ctx.check(ctx.eq(p, want[name]), 'wrong probability')
    for x, y in zip(got, got[1:]):
        ctx.check(x[1] >= y[1], 'answers not in descending probability')
    if got:
        for w in want:
            if w not in names:
                ctx.check(want[w] <= got[-1][1], 'a more probable answer was cut')


COVER = ['loaded', 'best n-gram', 'best token', 'next word', 'top']
