BUDGET = {'quick': 300, 'thorough': 600}
BOUNDS = 'looked-up characters: any of 140 and any other; word vectors of up to 3 lines, 100 numbers each, words and lookups of up to 3 free characters, any language model; ' \
         'text files of up to 3 lines of up to 3 free characters per column; files of 150 lines and words of 40 characters with 2 free in each of up to 3 lines'
ASSUMPTIONS = ['words of the vector file are in lower case and differ', 'columns contain no tab and no line break and do not begin or end with a blank', 'pickle gives back what it was given']
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
SIGNS = '`~!@#$£€%^&*()-_=+[{]}\\|;:\'",<.>/?'
PADS = '†‡ʃʄ'
KNOWN = LETTERS + LETTERS.upper() + '0123456789' + SIGNS + PADS
OTHER = 'éßσ漢 \t’“\U0001f600½²ǁ'


def cases(tier):
    out = ['chars', 'chars twice', 'chars reload', 'odd codes']
    out += ['words %s' % x for x in ('', '1', '2', '3', '1,1', '2,1', '1,2,1')] + ['numbers', 'words again 2', 'case 1', 'case 2', 'case 3', 'mixed']
    out += ['set %s' % x for x in ('', '1', '2', '3', '1,1', '2,1', '1,1,1', '0,1')] + ['dict %s' % x for x in ('', '1:1', '2:1', '1:2', '1:1,1:1', '2:1,1:2', '1:1,1:1,1:1')]
    out += ['set 150*1', 'set 40', 'dict 150*1:1', 'dict 30:40', 'words 60*2', 'words 25']
    out += ['path %d' % n for n in range(1, 4)] + ['pkl']
    if tier == 'thorough':
        out += ['words 2,2', 'words 2,2,2', 'words 4', 'set 3,3', 'set 2,2,2', 'dict 3:3', 'dict 2:2,2:2']
    return out + ['set 1 >> set 1', 'set 2 >> dict 1:1', 'dict 1:1 >> dict 1:1', 'dict 1:1 >> set 1', 'words 1 >> words 1', 'words 1,1 >> words 1', 'chars >> odd codes', 'odd codes >> chars', 'pkl >> pkl', 'words 1 >> chars']


def parts(arg):
    """the sizes, and a constant prefix for each: of n*size only the first, a middle and the last item are free"""
    out = []
    for x in arg.split(',') if arg else []:
        many = int(x.split('*')[0]) if '*' in x else 1
        out += [(x.split('*')[-1], '' if many == 1 else 'x%03d' % i, many == 1 or i in (0, many // 2, many - 1)) for i in range(many)]
    return out


def word(ctx, name, size, prefix, free, letters):
    size = int(size)
    n = min(size, 2) if size > 3 else size
    return prefix + ('m' * (size - n)) + (ctx.text(name, n, letters) if free else letters[0] * n)


def run(ctx, case):
    kind, _, arg = case.partition(' ')
    F = ctx.mod('utils.files')
    folder = 'english' if not ctx.prefix else 'lang' + ctx.prefix[0]
    if kind in ('chars', 'odd'):
        return chars(ctx, arg, kind)
    if kind == 'mixed':
        return mixed(ctx)
    if kind == 'words' or kind == 'case':
        return words(ctx, arg, kind)
    if kind == 'numbers':
        return numbers(ctx)
    if kind == 'path':
        names = ['d%d' % i for i in range(int(arg) - 1)] + ['f.txt']
        got = F.file_path(*names)
        ctx.check(got == '/'.join([str(ctx.mod('config').DATA_DIR)] + names), 'path of a data file')
        return
    if kind == 'pkl':
        value = {ctx.concrete(ctx.pick('k', ['a', 'b'])): [1, 2], 'c': 'd'}
        F.save_pkl_file(dict(value), 'models', 'x.pkl')
        F.save_pkl_file([3], 'models', 'y.pkl')
        got = F.load_pkl_file('models', 'x.pkl')
        ctx.check(dict(got) == value, 'pickled object')
        return
    if kind == 'set':
        lines = [word(ctx, 'l%d' % i, n, pre, free, 'ab -É') for i, (n, pre, free) in enumerate(parts(arg))]
        for t in lines:
            ctx.assume(t.strip() == t)
        ctx.file(folder + '/x.txt', [t + '\n' for t in lines])
        got = F.load_set_from_txt_file(folder, 'x.txt')
        for t in lines:
            ctx.check(t in got, 'line missing')
        for g in got:
            ctx.check(any([len(g) == len(t) and g == t for t in lines]), 'line invented')
        ctx.cover('set')
        return
    pairs = [(word(ctx, 'k%d' % i, x.split(':')[0], pre, free, 'ab -É'), word(ctx, 'v%d' % i, x.split(':')[1], '', free, 'ab -É')) for i, (x, pre, free) in enumerate(parts(arg))]
    for a, b in pairs:
        ctx.assume(a.strip() == a and b.strip() == b)
    for i in range(len(pairs)):
        for j in range(i):
            ctx.assume(not (len(pairs[i][0]) == len(pairs[j][0]) and pairs[i][0] == pairs[j][0]))
    ctx.file(folder + '/x.txt', [a + '\t' + b + '\n' for a, b in pairs])
    got = F.load_dict_from_txt_file(folder, 'x.txt')
    ctx.check(len(got) == len(pairs), 'entries lost or invented')
    for a, b in pairs:
        ctx.check(a in got and got[a] == b, 'entry')
    ctx.cover('dict')


def chars(ctx, arg, kind):
    C = ctx.mod('syntax.charset').Charset
    if kind == 'odd':
        ctx.pkl('models/char_codes.pkl', {'a': 3, 'b': 0, 'c': 7})
        cs = C().load()
        c = ctx.pick('c', ['a', 'b', 'c', 'd'])
        ctx.check(cs[c] == (3 if c == 'a' else 0 if c == 'b' else 7 if c == 'c' else cs['é']), 'code')
        ctx.check(cs['é'] not in (0, 3, 7) and cs['é'] > 0, 'code of unknown characters')
        ctx.check(len(cs) == 4, 'size')
        return
    C().save()
    if arg == 'twice':
        C().save()
    cs = C()
    ctx.check(cs.load() is cs, 'loading')
    if arg == 'reload':
        cs.load()
    codes = [cs[c] for c in KNOWN]
    unknown = cs['é']
    ctx.check(len(cs) == len(KNOWN) + 1, 'number of characters')
    ctx.check(sorted(codes) == list(range(len(KNOWN))), 'codes are not 0, 1, ...')
    ctx.check(unknown == len(KNOWN), 'code of unknown characters')
    c = ctx.text('c', 1, list(KNOWN + OTHER))
    got = cs[c]
    if c in KNOWN:
        ctx.check(got == codes[KNOWN.index(ctx.concrete(c))], 'code')
        ctx.cover('code')
    else:
        ctx.check(got == unknown, 'code of an unknown character')
        ctx.cover('unknown code')


class LM:
    def __init__(self, known):
        self.known = known

    def has_ngram(self, g, min_count=1):
        return any([len(g) == len(k) and g == k for k in self.known])

    def __contains__(self, g):
        return self.has_ngram(g)


def mixed(ctx):
    # capitals in the vector file: a word is looked up the same in any case
    W = ctx.mod('syntax.wordset').Wordset
    size = ctx.mod('config').WORD_VECTOR_SIZE
    names = [ctx.text('w%d' % i, 2, 'abAB') for i in range(2)]
    ctx.assume(not (names[0] == names[1]))
    ctx.file('/vectors/glove.6B.%dd.txt' % size, [t + ' ' + ' '.join(['%d.5' % (i + k) for k in range(size)]) + '\n' for i, t in enumerate(names)])
    W().save('/vectors', LM(names))
    ws = W().load()
    q = ctx.text('q', 2, 'abAB')
    a, b = ws[q], ws[q.lower()]
    for k in range(size):
        ctx.check(ctx.close(a[k] + 0.0, b[k] + 0.0), 'looked up with regard to case')


def words(ctx, arg, kind):
    W = ctx.mod('syntax.wordset').Wordset
    size = ctx.mod('config').WORD_VECTOR_SIZE
    again = arg.startswith('again')
    sizes = arg.replace('again ', '')
    names = [word(ctx, 'w%d' % i, n, pre, free, 'ab-éß' if kind == 'case' else 'ab-é') for i, (n, pre, free) in enumerate(parts(sizes))]
    for i in range(len(names)):
        for j in range(i):
            ctx.assume(not (len(names[i]) == len(names[j]) and names[i] == names[j]))
    known = [ctx.choose('known%d' % i, 2) == 1 if len(names) < 9 or i in (0, len(names) - 1) else i % 3 > 0 for i in range(len(names))]
    lines = []
    for i, t in enumerate(names):
        lines.append(t + ' ' + ' '.join(['%.5f' % (((i + 1) * (k + 3)) / 8.0 - 5) for k in range(size)]) + '\n')
    ctx.file('/vectors/glove.6B.%dd.txt' % size, lines)
    ws = W()
    ws.save('/vectors', LM([n for n, k in zip(names, known) if k]))
    if again:
        ws.save('/vectors', LM([n for n, k in zip(names, known) if k]))
    ws = W()
    ctx.check(ws.load() is ws, 'loading')
    ctx.check(len(ws) == 1 + len([k for k in known if k]), 'number of words')
    if '*' in sizes:
        q = 'X0' + ctx.pick('number', ['00', '01', '02', '30', '31', '47', '58', '59', '60']) + ctx.text('q', 2, 'ab-éA')
    elif sizes and len(sizes) > 1 and sizes.isdigit():
        q = 'm' * (int(sizes) - 2) + ctx.text('q', 2, 'ab-éA')
    else:
        q = ctx.text('q', int(sizes.split(',')[0]) if sizes else 1, 'ab-éABÉßſ' if kind == 'case' else 'ab-éA')
    got = ws[q]
    ctx.check(len(got) == size, 'length of a vector')
    low = q.lower()
    row = None
    for i, t in enumerate(names):
        if known[i] and len(t) == len(low) and t == low:
            row = i
    for k in range(size):
        want = 0 if row is None else ((row + 1) * (k + 3)) / 8.0 - 5
        ctx.check(ctx.close(got[k] + 0.0, want), 'number %d of a vector' % k)
    ctx.cover('vector' if row is not None else 'no vector')


def numbers(ctx):
    W = ctx.mod('syntax.wordset').Wordset
    size = ctx.mod('config').WORD_VECTOR_SIZE
    texts = ['0.25', '-1.5', '3', '-0.0625', '1e-3', '0']
    at = ctx.choose('at', size)
    v = ctx.concrete(ctx.pick('v', texts))
    ctx.file('/vectors/glove.6B.%dd.txt' % size, ['x ' + ' '.join([v if k == at else '0.5' for k in range(size)]) + '\n'])
    W().save('/vectors', LM(['x']))
    got = W().load()['X']
    for k in range(size):
        ctx.check(ctx.eq(round(float(got[k]), 6), float(v) if k == at else 0.5), 'number of a vector')
    ctx.cover('vector')


COVER = ['code', 'unknown code', 'vector', 'no vector', 'set', 'dict']
