BUDGET = {'quick': 300, 'thorough': 200}
BOUNDS = 'left and right contexts of up to 4 tokens with orders 2 to 5, chosen ones of up to 60 tokens and orders up to 16, tokens picked symbolically from 3 words (repetitions included)'
ASSUMPTIONS = []
WORDS = ['a', 'b', '']

# histories: one after another in the same process
HISTORY = ['2,2,3 >> 1,1,2', '1,3,2 >> 3,1,3', '0,2,2 >> 2,0,2', 'sym 1,1,2 >> sym 1,1,3']
LONG = ['9,9,8', '6,6,7', '12,0,6', '0,12,6', '3,8,6', '8,3,7', '5,5,6', '20,20,12', '1,30,16', '30,1,16', '7,7,15', '60,60,5']


def cases(tier):
    m = 5 if tier == 'quick' else 7
    out = ['%d,%d,%d' % (b, a, n) for b in range(m) for a in range(m) for n in range(2, 6 if tier == 'quick' else 9)]
    return out + ['sym %d,%d,%d' % (b, a, n) for b in range(3) for a in range(3) for n in (2, 3, 4)] + HISTORY + LONG


def run(ctx, case):
    if case.startswith('sym'):
        b, a, n = [int(x) for x in case[4:].split(',')]
        before = [ctx.pick('b%d' % i, WORDS) for i in range(b)]
        after = [ctx.pick('a%d' % i, WORDS) for i in range(a)]
        token = ctx.pick('t', WORDS)
    else:
        b, a, n = [int(x) for x in case.split(',')]
        before = ['b%d' % i for i in range(b)]
        after = ['a%d' % i for i in range(a)]
        token = ctx.pick('t', ['t', 'b0', 'a0', ''])
    tc = ctx.mod('langmodel.token_context').TokenContext(token, list(before), list(after))
    ctx.check(ctx.eq(tc.token, token), 'token changed')
    left, right = list(tc.left_ngram), list(tc.right_ngram)
    ctx.check(len(left) == b + 1 and len(right) == a + 1, 'tokens on one side')
    for x, y in zip(left + right, before + [token] + [token] + after):
        ctx.check(ctx.eq(x, y), 'token on one side')
    for again in range(2):   # asking twice gives the same answer
        got = list(tc.candidates(n))
        seq = before + [token] + after
        want = [seq[i:i + n] for i in range(len(seq) - n + 1) if i <= len(before) < i + n]
        ctx.check(len(got) == len(want), 'windows are missing or invented')
        for g, w in zip(got, want):
            ctx.check(ctx.eq(g, ' '.join(w)), 'wrong window')
    if len(want) > 1:
        ctx.cover('several windows')
    ctx.observe('got', got)


COVER = ['several windows']
