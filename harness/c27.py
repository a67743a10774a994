BUDGET = {'quick': 300, 'thorough': 400}
BOUNDS = 'tuples of 0 to 5 arguments, every code and polarity, words of up to 4 characters; one or two characters as an unknown code; ' \
         'documents of 0 to 3 sentences of 0 to 3 tuples'
ASSUMPTIONS = []

CODES = {'A': 'ADJ', 'L': 'ADJ', 'I': 'VERB', 'R': 'VERB', 'T': 'VERB', 'N': 'NOUN', 'O': 'NOUN', 'P': 'NOUN', 'S': 'NOUN', 'U': 'NOUN'}
NAMES = {'ADJ': 'A', 'COP': 'C', 'PP': 'L', 'INTR': 'I', 'NOUN': 'N', 'PRON': 'O', 'PROPN': 'P', 'REC': 'R', 'SYM': 'S', 'TRANS': 'T', 'NUM': 'U'}
ALPHA = 'aN ,(\u00e9'

QUICK = ['arg %d' % n for n in range(0, 5)] + ['code 0', 'code 1', 'code 2', 'codes'] + ['tuple %d' % n for n in range(0, 5)] + ['docs %d' % n for n in range(0, 4)] + ['twice 2', 'twice 3']
THOROUGH = ['arg 6', 'tuple 5', 'tuple 6', 'docs 4', 'code 3']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + ['docs 2 >> docs 1', 'docs 1 >> docs 2 >> docs 0', 'tuple 2 >> tuple 1', 'arg 1 >> arg 2', 'tuple 1 >> docs 1', 'arg 2 >> tuple 1', 'code 1 >> code 1']


def run(ctx, case):
    kind, _, n = case.partition(' ')
    n = int(n or 0)
    A = ctx.mod('semantics.argument').Argument
    ST = ctx.mod('semantics.semantic_tuple').SemanticTuple
    E = ctx.mod('exceptions').ArgumentValueError
    if kind == 'codes':
        AC = ctx.mod('semantics.argument_code').ArgCode
        ctx.check(sorted([(c.name, c.value) for c in AC]) == sorted(NAMES.items()), 'code table')
        return
    if kind == 'code':
        code = ctx.text('code', n, 'ACLINOPRSTUBZan0 ')
        a, e = ctx.call(A, 'word', code)
        known = ctx.any([ctx.eq(code, c) for c in NAMES.values()]) if n == 1 else False
        if e is None:
            ctx.check(known, 'an unknown code is accepted')
            ctx.check(ctx.eq(a.code, code), 'code of an argument')
        else:
            ctx.check(isinstance(e, E), 'another error than that of the library')
            ctx.check(not known if isinstance(known, bool) else ctx.all([ctx.eq(known, False)]), 'a known code is refused')
            ctx.cover('refused')
        return
    if kind == 'arg':
        code = ctx.pick('code', sorted(NAMES.values()))
        word = ctx.text('word', n, ALPHA)
        neg = ctx.choose('negated', 3)
        a = A(word, code) if neg == 2 else A(word, code, neg == 0)
        aff = neg != 1
        ctx.check(a.is_affirmative == aff, 'polarity')
        ctx.check(ctx.all([ctx.eq(a.word, word), ctx.eq(a.code, code)]), 'word or code')
        ctx.check(ctx.eq(a.flatten(), word if aff else 'NOT ' + word), 'text of an argument')
        ctx.check(ctx.eq(str(a), a.flatten()), 'text of an argument')
        ctx.check(ctx.eq(repr(a), a.flatten()), 'text of an argument')
        ctx.check(ctx.eq(a.flatten(False), word), 'text without decorators')
        ctx.check(ctx.eq(a.flatten(with_decorators=False), word), 'text without decorators')
        code = ctx.concrete(code)
        if code in CODES:
            ctx.check(a.tag == CODES[code], 'tag of code %s' % code)
        return
    if kind in ('tuple', 'twice'):
        codes = [ctx.pick('code%d' % i, sorted(NAMES.values()) if i == 0 or n == 2 else ['N', 'T', 'C', 'L'][:5 - i]) for i in range(n)]
        words = [ctx.text('word%d' % i, 1 + i % 2, ALPHA) for i in range(n)]
        aff = [ctx.flag('aff%d' % i) for i in range(n)]
        args = [A(w, c, f) for w, c, f in zip(words, codes, aff)]
        if kind == 'twice':   # the same argument at two places
            args[-1], words[-1], codes[-1], aff[-1] = args[0], words[0], codes[0], aff[0]
        t = ST(*args)
        ctx.check(len(t) == n, 'length')
        ctx.check(len(list(t)) == n and all([x is y for x, y in zip(list(t), args)]), 'iteration')
        ctx.check(len(list(t)) == n, 'iterating twice')
        ctx.check(all([t.arg(i) is args[i] for i in range(n)]), 'indexing')
        code = ''
        for c in codes:
            code = code + c
        ctx.check(ctx.eq(t.code, code), 'code of a tuple')
        for deco in (True, False):
            s = ''
            for i in range(n):
                s = s + (', ' if i else '') + ('NOT ' if deco and not aff[i] else '') + words[i]
            ctx.check(ctx.eq(t.flatten(deco), code + '(' + s + ')'), 'text of a tuple')
            if deco:
                ctx.check(ctx.eq(str(t), code + '(' + s + ')'), 'text of a tuple')
                ctx.check(ctx.eq(repr(t), code + '(' + s + ')'), 'text of a tuple')
                ctx.check(ctx.eq(t.flatten(), code + '(' + s + ')'), 'text of a tuple')
        for c in sorted(NAMES.values()) if n < 3 else ['N', 'T']:
            ctx.check(ctx.eq(t.has_any_arg_with_code(c), ctx.any([ctx.eq(x, c) for x in codes])), 'search by code')
        if n > 2:
            ctx.cover('triple')
        return
    D = ctx.mod('pipeline.document').Document
    S = ctx.mod('pipeline.sentence').Sentence
    doc, want = D(), []
    other = D()
    ctx.check(list(doc) == [] and doc.stuples == [], 'a new document is not empty')
    sents = []
    for i in range(n):
        s = S()
        ctx.check(list(s) == [], 'a new sentence is not empty')
        s.stuples = [ST(A('w%d%d' % (i, j), 'N')) for j in range(ctx.choose('tuples%d' % i, 4))]
        doc.sentences.append(s)
        sents.append(s)
        want.extend(s.stuples)
        ctx.check(len(list(s)) == len(s.stuples) and all([x is y for x, y in zip(s, s.stuples)]), 'iterating over a sentence')
    got = doc.stuples
    ctx.check(len(got) == len(want) and all([x is y for x, y in zip(got, want)]), 'tuples of a document')
    ctx.check(len(list(doc)) == n and all([x is y for x, y in zip(doc, sents)]), 'iterating over a document')
    ctx.check(list(other) == [] and other.stuples == [] and list(S()) == [], 'documents or sentences share state')
    if len(want) > 2:
        ctx.cover('document')


COVER = ['refused', 'triple', 'document']
