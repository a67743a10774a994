from scrappybara_verif_nn import vectors

BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = ('words of 0 to 24 and 40 symbolic characters (letters, digits, signs, marks, characters without code), sentences of 0 to 4 words with symbolic '
          'characters and of 5, 48 to 52 and 60 fixed words, every pair of mask positions, every tag and dependency, every shuffling of 3 samples')
ASSUMPTIONS = ['character codes are those of the shipped char_codes.pkl, word vectors are distinct per word']
CHARS = "abzAZ09'-.,ʃ†é漢\U0001f600 "

LONG = [0, 1, 5, 48, 49, 50, 51, 52, 60]
SHAPES = ['0', '1', '2', '3', '17', '18', '19', '20', '21', '22', '23', '40', '1,1', '20,21', '0,3', '2,1,3', '1,22,0,2']

# histories: one after another in the same process, with the same objects
HISTORY = ['long 50 >> long 5', 'chars 3,22 >> chars 1', 'tags 3 >> tags 1', 'words 3 >> words 1', 'long 49 >> words 1 >> long 2', 'trans 3 >> trans 2', 'deps 2 >> tags 1', 'masks 0 >> masks 1', 'long 51 >> long 1', 'data tags >> tags 1', 'chars 40 >> chars 2', 'chars 1 >> chars 1']


def cases(tier):
    out = ['chars ' + s for s in SHAPES] + ['long %d' % n for n in LONG]
    out += ['words 1', 'words 2', 'words 3', 'masks 0', 'masks 1', 'trans 1', 'trans 2', 'trans 3', 'trans 50', 'tags 0', 'tags 1', 'tags 3', 'tags 49', 'tags 50', 'deps 2', 'deps 50', 'deps 0']
    out += ['data tags', 'data deps', 'data trans', 'data tags alike', 'data deps alike', 'data trans alike', 'data trans longer']
    if tier == 'thorough':
        out += ['chars %d' % n for n in list(range(4, 17)) + [24, 25, 30, 41, 42, 43, 60]] + ['chars 21,21', 'chars 3,2,1,4,5'] + ['words 5'] + ['tags %d' % n for n in (10, 25, 48)]
    return out + HISTORY


def run(ctx, case):
    kind, _, arg = case.partition(' ')
    codes = charcodes(ctx)
    ts = ctx.mod('syntax.training_samples')
    words = ['Apple', 'pear', "don't", 'the']
    vecs = vectors(['apple', 'pear', "don't", 'the'])
    ctx.pkl('models/word_vectors.pkl', vecs)
    cs = ctx.keep('charset', lambda: ctx.mod('syntax.charset').Charset().load())
    ws = ctx.keep('wordset', lambda: ctx.mod('syntax.wordset').Wordset().load())
    if kind == 'chars':
        tokens = [word(ctx, i, int(k)) for i, k in enumerate(arg.split(','))]
        given = list(tokens)
        n, chars, vec = ts.vectorize_sentence(given, cs, ws)
        ctx.check(len(given) == len(tokens), 'the tokens are changed')
        ctx.check(n == len(tokens) + 2, 'length of the padded sequence')
        check_chars(ctx, chars, tokens, codes)
        ctx.observe('row', [chars[1][k] for k in range(22)])
        ctx.check(len(cs) > max(codes.values()) + 1, 'no room for the code of unknown characters')
    elif kind == 'long':
        k = int(arg)
        tokens = ['pear' if i % 3 else 'w%d' % i for i in range(k)]
        r, e = ctx.call(ts.vectorize_sentence, list(tokens), cs, ws)
        if k > 50:
            ctx.check(e is not None and type(e).__name__ == 'SentenceTooLongError', 'a sentence that is too long is not refused')
            ctx.cover('too long')
            return
        ctx.check(e is None, 'raised %r' % (e,))
        ctx.check(r[0] == k + 2, 'length of the padded sequence')
        check_chars(ctx, r[1], tokens, codes)
        check_vectors(ctx, r[2], tokens, vecs)
    elif kind == 'words':
        tokens = [ctx.pick('w%d' % i, ['Apple', 'apple', 'APPLE', 'pear', 'pearS', "Don't", 'the', 'zzz', '']) for i in range(int(arg))]
        tokens = [ctx.concrete(t) for t in tokens] if len(tokens) == 1 else tokens
        n, chars, vec = ts.vectorize_sentence([ctx.concrete(t) for t in tokens], cs, ws)
        check_vectors(ctx, vec, [ctx.concrete(t) for t in tokens], vecs)
    elif kind == 'masks':
        i = ctx.concrete(ctx.pick('first', list(range(52)))) if arg == '0' else 7
        j = ctx.concrete(ctx.pick('second', list(range(52)))) if arg == '1' else 7
        m1, m2 = ts.make_masks(i, j)
        ctx.check(one_hot(m1, i) and one_hot(m2, j), 'mask does not select exactly the requested position')
    elif kind in ('tags', 'deps', 'trans'):
        n = int(arg)
        D = ctx.mod('syntax.dependencies').Dep
        T = ctx.mod('syntax.tags').Tag
        R = ctx.mod('syntax.transitions').Trans
        tokens = [words[i % 4] for i in range(n)]
        tags = [T(ctx.pick('tag%d' % i, [t.value for t in T]) if i < 3 or i > n - 3 else 1 + i % 16) for i in range(n)]
        deps = [D(ctx.pick('dep%d' % i, [d.value for d in D]) if i < 3 or i > n - 3 else 1 + i % 24) for i in range(n)]
        if kind == 'tags':
            chars, vec, tag = ts.PTagsSample(list(tokens), list(tags), cs, ws).training_mats
        elif kind == 'deps':
            tag, chars, vec, dep = ts.PDepsSample(list(tokens), list(tags), list(deps), cs, ws).training_mats
            check_codes(ctx, dep, deps)
        else:
            i = ctx.concrete(ctx.pick('first', list(range(min(n, 4))) + ([n - 1] if n > 4 else [])))
            j = ctx.concrete(ctx.pick('second', list(range(min(n, 4))) + ([n - 1] if n > 4 else [])))
            t = R(ctx.pick('trans', [0, 1, 2, 3]))
            tag, dep, chars, vec, m1, m2, code = ts.TransSample(list(tokens), list(tags), list(deps), i, j, t, cs, ws).training_mats
            check_codes(ctx, dep, deps)
            ctx.check(one_hot(m1, i + 1) and one_hot(m2, j + 1), 'mask does not select exactly the requested word')
            ctx.check(ctx.eq(code, t.value), 'transition differs')
        check_codes(ctx, tag, tags)
        check_chars(ctx, chars, tokens, codes)
        check_vectors(ctx, vec, tokens, vecs)
    else:
        data(ctx, arg, words, codes, vecs, cs, ws)


def data(ctx, kind, words, codes, vecs, cs, ws):
    """Shuffled training data keeps the parts of a sample together"""
    ctx.randomness()
    D = ctx.mod('syntax.dependencies').Dep
    T = ctx.mod('syntax.tags').Tag
    ld = ctx.mod('syntax.labelled_data')
    tagnames = [t.name for t in T if t.value]
    sents = [[('Apple', ctx.pick('t0', tagnames), 'SUBJ', 1), ('the', 'VERB', 'ROOT', -1)],
             [('pear', ctx.pick('t1', tagnames), 'ROOT', -1)],
             [("don't", 'DET', 'ROOT', -1), ('pear', ctx.pick('t2', tagnames), ctx.pick('d2', ['OBJ', 'NEG', 'PROP']), 0), ('.', 'PUNCT', 'NODEP', -1)]]
    kind, _, what = kind.partition(' ')
    transitions = None
    if what == 'alike':
        # same length, one kind of label the same everywhere
        names = [d.name for d in D if d.name not in ('PAD', 'ROOT', 'NODEP')]
        dep = lambda i: ctx.pick('same_d%d' % i, names) if kind != 'tags' else 'OBJ'
        tag = lambda i: ctx.pick('same_t%d' % i, tagnames) if kind == 'tags' else 'NOUN'
        sents = [[('Apple', 'VERB', 'ROOT', -1), ('the', tag(0), dep(0), 0)], [('pear', 'VERB', 'ROOT', -1), ('the', tag(1), dep(1), 0)], [("don't", 'VERB', 'ROOT', -1), ('the', tag(2), dep(2), 0)]]
        transitions = {(s, 1, 2): 1 for s in range(3)}
    elif what == 'longer':
        sents = [[('Apple', 'NOUN', ctx.pick('long_d', ['SUBJ', 'OBJ']), 1), ('the', ctx.pick('long_t', ['VERB', 'NOUN']), 'ROOT', -1), ('pear', 'NOUN', 'OBJ', 1)]]
        transitions = {(0, 1, 2): 0, (0, 2, 3): 1}
    elif kind == 'trans':
        sents = [sents[0], sents[2]]
        transitions = {(0, 1, 2): 0, (1, 1, 2): 1}
    out = getattr(ld, {'tags': 'extract_ptags_training_data', 'deps': 'extract_pdeps_training_data', 'trans': 'extract_trans_training_data'}[kind])(sents, cs, ws)
    k = {'tags': 0, 'deps': 1, 'trans': 2}[kind]
    ctx.check(len(out) == {'tags': 3, 'deps': 4, 'trans': 7}[kind] and all([len(x) == len(out[0]) for x in out]), 'parts of different sizes')
    ctx.check(len(out[0]) == (len(sents) if transitions is None or kind != 'trans' else len(transitions)), 'one sample per sentence and transition')
    seen = []
    for i in range(len(out[0])):
        chars = out[k][i]
        row = [int(chars[1][j]) for j in range(22)]
        which = [s for s in range(len(sents)) if row == [codes[c] for c in '†' + sents[s][0][0] + '‡'] + [0] * (20 - len(sents[s][0][0]))]
        ctx.check(len(which) == 1, 'a sample of no sentence')
        s = sents[which[0]]
        seen.append(which[0])
        tags, deps = [T[x[1]] for x in s], [D[x[2]] for x in s]
        check_chars(ctx, chars, [x[0] for x in s], codes)
        check_vectors(ctx, out[k + 1][i], [x[0] for x in s], vecs)
        if kind == 'tags':
            check_codes(ctx, out[2][i], tags)
        elif kind == 'deps':
            check_codes(ctx, out[0][i], tags)
            check_codes(ctx, out[3][i], deps)
        else:
            check_codes(ctx, out[0][i], tags)
            check_codes(ctx, out[1][i], deps)
            hit = [k for k in transitions if k[0] == which[0] and one_hot(out[4][i], k[1]) and one_hot(out[5][i], k[2])]
            ctx.check(len(hit) == 1, 'mask does not select exactly the requested word')
            ctx.check(out[6][i] == transitions[hit[0]], 'transition differs')
            seen[-1] = hit[0]
    ctx.check(sorted(seen) == (list(range(len(sents))) if kind != 'trans' else sorted(transitions)), 'a sample is missing')
    ctx.cover('data')


def word(ctx, i, n):
    """Any characters; characters without a code only at both ends of long words"""
    if n <= 3:
        return ctx.text('w%d' % i, n, CHARS)
    known = [c for c in CHARS if c in charcodes(ctx)]
    return ctx.text('a%d' % i, 1, CHARS) + ctx.text('b%d' % i, n - 2, known) + ctx.text('c%d' % i, 1, CHARS)


def charcodes(ctx):
    import pickle
    with open('/repo/scrappybara/data/models/char_codes.pkl', 'rb') as f:
        return pickle.load(f)


def one_hot(mask, i):
    return len(mask) == 52 and all([bool(mask[k]) == (k == i) for k in range(52)])


def check_codes(ctx, got, enums):
    ctx.check(len(got) == 52, 'padded length')
    ctx.check(ctx.all([ctx.eq(got[p], enums[p - 1].value if 1 <= p <= len(enums) else 0) for p in range(52)]), 'label codes differ')


def check_chars(ctx, chars, tokens, codes):
    ctx.check(tuple(chars.shape) == (52, 22), 'shape of the characters')
    known = sorted(codes.values())
    rows = ['ʃʃʃ'] + list(tokens) + ['ʄʄʄ']
    unknown = []
    conds = []
    for r in range(52):
        if r >= len(rows):
            conds.append(all([int(chars[r][k]) == 0 for k in range(22)]))
            continue
        w = rows[r]
        cut = w[len(w) - 20:] if len(w) > 20 else w
        want = ['†'] + [c for c in cut] + ['‡']
        for k in range(22):
            if k >= len(want):
                conds.append(ctx.eq(chars[r][k], 0))
            elif want[k] in codes:
                conds.append(ctx.eq(chars[r][k], codes[want[k]]))
            else:
                unknown.append(chars[r][k])
    ctx.check(ctx.all(conds), 'characters differ')
    for u in unknown:
        ctx.check(u not in known, 'an unknown character gets the code of another one')
        ctx.check(ctx.eq(u, unknown[0]), 'unknown characters get different codes')
        ctx.cover('unknown')


def check_vectors(ctx, vec, tokens, vecs):
    ctx.check(tuple(vec.shape) == (52, 100), 'shape of the word vectors')
    ok = True
    for r in range(52):
        v = vecs.get(tokens[r - 1].lower()) if 1 <= r <= len(tokens) else None
        want = float(v[0]) if v is not None else 0.0
        for k in (0, 1, 50, 99):
            ok = ok and float(vec[r][k]) == want
    ctx.check(ok, 'word vectors differ')


COVER = ['too long', 'unknown', 'data']
