BUDGET = {'quick': 300, 'thorough': 600}
BOUNDS = 'tokens of 0 to 4 free characters over 40, endings and prefixes of up to 3; marked texts of up to 3 parts of up to 3 free characters'
ASSUMPTIONS = ['marked texts do not contain the mark itself (parentheses, ǁ, »)']
LOWER = 'abcdefghijklmnopqrstuvwxyz'
CONS = 'bcdfghjklmnpqrstvwxz'
VOW = 'aeiouy'
ALPHA = list(LOWER + "AEKZÉéσΣ09-_' .»\n")
FEW = list("abeyzABZé-1 ") + ['\n']

KINDS = ['letters', 'start', 'prefix', 'double', 'function', 'associate', 'attach']


def cases(tier):
    m = 4 if tier == 'quick' else 5
    out = ['letters %d' % n for n in range(0, m)] + ['double %d' % n for n in range(0, 5)]
    out += ['start %d,%d,%d' % (n, e, k) for n in range(0, 4) for e in range(1, 4) for k in range(0, 3)]
    out += ['prefix %d,%d' % (n, k) for n in range(0, 5 if tier == 'quick' else 6) for k in range(0, 3)]
    out += ['function %s' % x for x in ('', '1', '0', '2', '1,1', '2,N', 'N', '1,2,1', '3')]
    out += ['associate %s' % x for x in ('', '1', '1,1', '2,1', '0,1', '1,N,1', 'N,2', '1,1,1', '3,2')]
    out += ['attach %s' % x for x in ('0', '1', '1,1', '2,N,1', '1,1,1', 'N', '0,0')]
    out += ['letters 30', 'letters 70', 'double 14', 'double 30', 'start 30,3,2', 'start 30,3,0', 'prefix 20,2', 'function 40', 'function 1,1,1,1,1,1,1,1,1,1,1,1', 'associate 20,20', 'attach 30', 'attach 1,1,1,1,1,1,1,1,1,1']
    return out + ['prefix 2,1 >> prefix 2,2', 'prefix 2,2 >> prefix 2,1', 'start 2,1,0 >> start 2,1,1', 'start 2,1,1 >> start 2,2,0', 'double 3 >> double 3', 'letters 1 >> letters 2', 'function 1 >> function 1',
                  'associate 1,1 >> associate 1,1', 'attach 1 >> attach 1,1', 'function 1,1 >> associate 1,1']


def long_text(ctx, name, n, letters, filler='m'):
    """up to 4 free characters, or of a long text the first, one in the middle and the last two"""
    if n < 6:
        return ctx.text(name, n, letters)
    f = ctx.text(name, 4, letters)
    h = (n - 4) // 2
    return f[0] + filler * h + f[1] + filler * (n - 4 - h) + f[2] + f[3]


def one_of(ctx, c, chars):
    return ctx.any([ctx.eq(c, x) for x in chars])


def run(ctx, case):
    kind, _, arg = case.partition(' ')
    M = ctx.mod('utils.text')
    if kind == 'letters':
        n = int(arg)
        t = long_text(ctx, 't', n, ALPHA if n < 3 else FEW)
        ctx.observe('t', t)
        up = LOWER.upper()
        for f, chars in ((M.has_only_letters, LOWER + up), (M.has_only_lowercase_letters, LOWER)):
            got = f(t)
            ctx.check(ctx.eq(got, ctx.all([n > 0] + [one_of(ctx, t[i], chars) for i in range(n)])), 'letters or not')
        if n:
            ctx.check(ctx.eq(M.starts_with_uppercase_letter(t), one_of(ctx, t[0], up)), 'first letter a capital or not')
            ctx.check(ctx.eq(M.ends_with_consonant(t), one_of(ctx, t[n - 1], CONS)), 'last letter a consonant or not')
            ctx.cover('letters')
        return
    if kind == 'double':
        n = int(arg)
        t = long_text(ctx, 't', n, LOWER if n < 6 else 'abemyz')
        got = M.vowel_double_consonant_endings(t)
        want = n >= 3 and t[-1] == t[-2] and t[-1] in CONS and t[-3] in VOW
        ctx.check((got is not None) == bool(want), 'doubled or not')
        if want:
            ctx.check(list(got) == [t[-1], t[-1] + t[-1]], 'endings')
            ctx.cover('doubled')
        return
    if kind == 'start':
        n, e, k = [int(x) for x in arg.split(',')]
        t, end = long_text(ctx, 't', n, 'abz', 'a'), ctx.text('e', e, 'abz')
        got = M.token_start(t, end, k)
        want = n > e and n - e >= k and t[n - e:] == end
        ctx.check((got is not None) == bool(want), 'start or not')
        if want:
            ctx.check(got == t[:n - e], 'start')
            ctx.cover('start')
        return
    if kind == 'prefix':
        n, k = [int(x) for x in arg.split(',')]
        t = long_text(ctx, 't', n, 'ab-', 'a')
        prefixes = [ctx.text('p0', 2, 'ab'), ctx.text('p1', 1, 'ab')][:k]
        got = M.token_prefix(t, list(prefixes))
        hyphens = [i for i in range(n) if t[i] == '-']
        if len(hyphens) == 1:
            ctx.check(got == (t[:hyphens[0] + 1], t[hyphens[0] + 1:]), 'hyphenated')
            ctx.cover('hyphen')
            return
        for p in prefixes:
            if len(t) >= len(p) and t[:len(p)] == p:
                ctx.check(got is not None and any([got == (q, t[len(q):]) for q in prefixes if len(t) >= len(q) and t[:len(q)] == q]), 'prefix')
                ctx.cover('prefix')
                return
        ctx.check(got is None, 'a prefix found')
        return
    sizes = arg.split(',') if arg else []
    parts = [None if x == 'N' else long_text(ctx, 'x%d' % i, int(x), 'ab ,é5' if len(sizes) < 3 else 'a ,') if len(sizes) < 6 or i in (0, 5, len(sizes) - 1) else 'p%d' % i for i, x in enumerate(sizes)]
    there = [p for p in parts if p is not None]
    if kind == 'function':
        name = ctx.text('name', 2, 'fG_')
        text = M.functionalize(name, *parts)
        ctx.observe('text', text)
        want = name + '('
        for i, p in enumerate(there):
            want = want + (', ' if i else '') + p
        ctx.check(text == want + ')', 'function notation')
        back = M.defunctionalize(text)
        ctx.check(back[0] == name and back[1] == ', '.join(there) and len(back) == 2, 'reading it back')
        ctx.check(M.functionalize(name, *(parts + [7])) == want + (', ' if there else '') + '7)', 'numbers')
        ctx.cover('function')
    elif kind == 'associate':
        text = M.associate(*parts)
        ctx.observe('text', text)
        back = M.dissociate(text)
        if len(there) == 2:
            ctx.check(back is not None and len(back) == 2 and back[0] == there[0] and back[1] == there[1], 'two associated words')
            ctx.cover('associate')
        else:
            ctx.check(back is None, 'other than two words')
            ctx.check(text == 'ǁ'.join(there), 'associated words')
    else:
        token = ctx.text('token', 2, 'ab ')
        text = M.attach_attributes(token, *parts)
        back = list(M.detach_attributes(text))
        ctx.check(len(back) == 1 + len(there) and back[0] == token, 'token or attributes lost')
        for a, b in zip(back[1:], there):
            ctx.check(a == b, 'attribute')
        ctx.check(list(M.detach_attributes(M.attach_attributes(3, 4, None, 5))) == ['3', '4', '5'], 'numbers')
        ctx.cover('attach')


COVER = ['letters', 'doubled', 'start', 'hyphen', 'prefix', 'function', 'associate', 'attach']
