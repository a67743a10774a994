BUDGET = {'quick': 300, 'thorough': 600}
BOUNDS = 'sentences of up to 4 tokens of up to 3 free characters each (34-character alphabet with upper case, digits, punctuation, ' \
         'accents), up to 3 sentences, orders 1 to 5; sentences of 300 words with a free one'
ASSUMPTIONS = ['letters are the 26 letters of the English alphabet', 'tokens contain no white space (what the tokenizer guarantees)']
ANY = list('abIizAZé5.-\'&_ßİſK1ñ–@`[{^Γǅµ')
FEW = list('aIB.é')
TWO = list('aI')

# sentences separated by |, tokens by blanks; per token: n = n characters of ANY, f = FEW, t = TWO, w = a concrete word, e = empty
QUICK = ['1:a', '1:aa', '1:aaa', '1:a a', '2:a a', '2:f w f', '3:f f f', '2:f f f', '3:f f f f', '4:f f f f', '1:f f|f f', '2:f f|f f', '2:f|f|f',
         '2:w f|w f', '3:t t t|t t t', '2:e f', '1:e f', '3:f e f', '5:t t t t t t', '4:f f', '2:', '2:|f', '1:t t t t', '2:ff w', '2:t t t t',
         '3:w w f w w', '2:|', '5:w w f w w',
         '1:w*300 f', '2:w*120 f w*120', '3:f w*260 t', '5:w*70 f w*70', '2:w|'+'w w|' * 60 + 'f w', '8:w*9 f w*9']
THOROUGH = ['2:aa a', '3:a a a', '2:f f f f f', '3:f f f f f', '2:f f f|f f f', '1:aaaa', '4:t t t t t t t t', '2:ff ff']

# histories: one after another in the same process
HISTORY = ['2:w f >> 1:f f', '1:f f >> 2:f f', '2:f f|w f >> 2:w f', '2:t t t >> 2:t t t', '3:w f w >> 2:f w', '1:t|t >> 1:t']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def ok(t):
    if t == 'I':
        return True
    if len(t) == 0 or 'A' <= t[0] <= 'Z':
        return False
    return all([('a' <= c <= 'z') or ('A' <= c <= 'Z') for c in t])


def run(ctx, case):
    order, spec = case.split(':')
    order = int(order)
    sents = []
    k = 0
    for part in spec.split('|'):
        toks = []
        for w in [x for w in part.split() for x in [w.partition('*')[0]] * int(w.partition('*')[2] or 1)]:
            if w == 'w':
                toks.append('the')
            elif w == 'e':
                toks.append('')
            else:
                toks.append(ctx.text('t%d' % k, len(w), {'a': ANY, 'f': FEW, 't': TWO}[w[0]]))
            k += 1
        sents.append(toks)
    ctx.observe('sentences', sents)
    got = ctx.mod('langmodel.ngrams_extraction').extract_ngrams(sents, order)
    ctx.observe('ngrams', got)
    ctx.stable('the list of n-grams', got) if isinstance(got, list) else None
    want = []
    for s in sents:
        good = [ok(t) for t in s]
        for i in range(len(s) - order + 1):
            if all(good[i:i + order]):
                want.append(' '.join(s[i:i + order]).lower())
    got = list(got)
    ctx.check(len(got) == len(want), 'wrong number of n-grams')
    rest = list(want)
    for g in got:
        hit = None
        for i, w in enumerate(rest):
            if g == w:
                hit = i
                break
        ctx.check(hit is not None, 'an n-gram that is no window of valid tokens')
        del rest[hit]
    if len(want) > 1:
        ctx.cover('several n-grams')
    store = ctx.mod('langmodel.ngram_store').NgramStore()
    for g in got:
        store.make_ngram(g)
    have = list(store.ngrams)
    ctx.check(len(store) == len(have), 'store length')
    total = 0
    for ng in have:
        n = 0
        for w in want:
            if w == ng.text:
                n += 1
        ctx.check(ng.count == n, 'wrong count')
        ctx.check(ng.order == order, 'wrong order')
        total += n
    ctx.check(total == len(want), 'store lost or duplicated an n-gram')


COVER = ['several n-grams']
