from scrappybara_verif_pipe import Recorder, setup, vectorizer

TICKS = True
BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = '0 to 4 texts of 0 to 3 sentences each (every combination, also equal sentences and texts; 40 texts of one sentence, 2 of 30), 1 to 4 cores, batches of 1 to 4 sentences, both devices, sentences with and without ' \
         'a tree, thread switches at sentence granularity for up to 3 texts; ' \
         'for two texts in two threads, one interruption of the first thread before any statement (first 3 visits of each, up to 1200 per run)'
ASSUMPTIONS = ['a network returns one class per position; which one is free, and depends on the sentence only']

NOUNS = ['apple', 'pear', 'man', 'tom', 'king', 'cake', 'lemon', 'squeezer', 'box', 'cook', 'name', 'color']
# (z: sentences can be empty, e: sentences can be equal, x: texts can be equal, b: many, all of the same size)
# number of texts / most sentences per text / most cores / largest batch, then: s thread switches are inputs, t trees can be missing, d the sentencizer is the library's own
QUICK = ['0/0/3/2', '1/3/2/2', '1/2/4/3 t', '2/2/3/3', '2/2/2/2 t', '1/3/2/2 z', '2/2/2/2 z', '3/2/2/2', '3/1/4/4', '3/2/3/1', '2/1/2/2 s', '2/2/2/2 d', '3/1/2/2 d', '4/1/3/2',
         '1/3/2/2 e', '2/2/2/2 e', '3/1/3/2 e', '3/1/2/2 x', '40/1/3/7 b', '40/1/8/16 b', '2/30/2/7 b', '1/70/3/32 b']
THOROUGH = ['3/1/2/1 s', '4/2/4/3', '3/3/3/3', '3/2/3/3 t', '3/2/3/2 s', '4/1/3/2 s', '3/2/3/2 d', '2/3/2/4 t']

# histories: the same pipeline on other texts
HISTORY = ['1/2/2/2 h >> 2/1/2/2 h', '2/1/2/1 h >> 1/1/2/1 h', '2/2/1/2 h >> 1/2/1/2 h', '1/1/2/1 d >> 1/2/2/1 d', '1/1/1/2 t >> 1/1/1/2 t']


# one interruption of a thread, before any of the statements of this window; which sentences is a choice
INTERRUPTED = ['interrupt %s %d,80' % (c, k) for c, first, last in (('q', 0, 320), ('w', 160, 1200), ('v', 480, 1200)) for k in range(first, last, 80)]
PAIRS = {'q': [(1, 2), (2, 1), (1, 1), (2, 2)], 'w': [(3, 4), (4, 3)], 'v': [(5, 3)]}


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY + INTERRUPTED


def sentence_kind(kind, noun, verb):
    """Text, then token / tag / dependency / head"""
    N = noun.capitalize()
    if kind in (0, 1, 2):
        a, b = [('', ''), ('"', '"'), ('(', ')')][kind]
        rows = [(a, 'PUNCT', 'NODEP', None), (N, 'NOUN', 'SUBJ', verb), (b, 'PUNCT', 'NODEP', None), (verb, 'VERB', 'ROOT', None), ('.', 'PUNCT', 'NODEP', None)]
        return '%s%s%s %s.' % (a, N, b, verb), [r for r in rows if r[0]]
    if kind == 3:
        return N + 's called out Tom.', [(N + 's', 'NOUN', 'SUBJ', 'called'), ('called', 'VERB', 'ROOT', None), ('out', 'FRAG', 'PART', 'called'), ('Tom', 'PROPN', 'OBJ', 'called'), ('.', 'PUNCT', 'NODEP', None)]
    if kind == 5:
        return N + ' sees men eat cake.', [(N, 'NOUN', 'SUBJ', 'sees'), ('sees', 'VERB', 'ROOT', None), ('men', 'NOUN', 'SUBJ', 'eat'), ('eat', 'VERB', 'OBJ', 'sees'),
                                               ('cake', 'NOUN', 'OBJ', 'eat'), ('.', 'PUNCT', 'NODEP', None)]
    return 'Lemon ' + noun + ' was baked by men.', [('Lemon', 'NOUN', 'CPL', noun), (noun, 'NOUN', 'SUBJ', 'was'), ('was', 'VERB', 'ROOT', None), ('baked', 'ADJ', 'PROP', 'was'),
                                                      ('by', 'PREP', 'MARK', 'men'), ('men', 'NOUN', 'CPL', 'baked'), ('.', 'PUNCT', 'NODEP', None)]


def interrupted(ctx, group, start, length):
    setup(ctx)
    T = ctx.mod('syntax.tags').Tag
    D = ctx.mod('syntax.dependencies').Dep
    kinds = PAIRS[group][ctx.choose('sentences', len(PAIRS[group]))]
    made = [sentence_kind(k, n, v) for k, n, v in zip(kinds, ['cook', 'squeezer'], ['sings', 'slept'])]
    texts, rows = [m[0] for m in made], [m[1] for m in made]
    flat = [[r[0] for r in rs] for rs in rows]

    def trans(s, top, front):
        head = [r[3] for r in rows[s]]
        t, f = flat[s][top - 1], flat[s][front - 1]
        if head[top - 1] == f:
            return 0
        if head[front - 1] == t:
            return 1
        return 2 if any([head[front - 1] == flat[s][k] or head[k] == f for k in range(top - 1)]) else 3
    nets = Recorder(ctx, lambda s, p: T[rows[s][p - 1][1]].value if 1 <= p <= len(rows[s]) else 0, lambda s, p: D[rows[s][p - 1][2]].value if 1 <= p <= len(rows[s]) else 0, trans)
    nets.learn(flat, vectorizer(ctx))
    P = ctx.mod('pipeline.pipeline').Pipeline
    want = [[str(t) for s in P(nb_cores=1, batch_size=2)([text])[0] for t in s] for text in texts]
    pipe = P(nb_cores=2, batch_size=2)
    ctx.preempt(start, length)
    got = [[str(t) for s in d for t in s] for d in pipe(texts)]
    ctx.observe('documents', got)
    ctx.check(got == want, 'documents %s instead of %s' % (got, want))


def run(ctx, case):
    if case.startswith('interrupt '):
        _, group, window = case.split()
        interrupted(ctx, group, *[int(x) for x in window.split(',')])
        return
    spec, _, opt = case.partition(' ')
    nt, ms, mc, mb = [int(x) for x in spec.split('/')]
    setup(ctx)
    T = ctx.mod('syntax.tags').Tag
    D = ctx.mod('syntax.dependencies').Dep
    fixed = opt in ('s', 'h', 'b')
    if opt == 'b':
        sizes = [ms] * nt
        sizes[ctx.choose('which', 3) * (nt // 3)] = ctx.choose('sentences', 2)
    else:
        sizes = [(ctx.choose('sentences%d' % i, ms) + 1 if opt == 'd' else ctx.choose('sentences%d' % i, ms + 1)) for i in range(nt)]
    cores = mc if fixed else ctx.choose('cores', mc) + 1
    batch = mb if fixed else ctx.choose('batch', mb) + 1
    gpu = fixed or ctx.flag('gpu')
    chunk = fixed or opt == 'd' or ctx.flag('chunk')
    texts, sents = [], []
    k = 5 * int(ctx.prefix[0]) if ctx.prefix else 0
    for i in range(nt):
        if opt in ('b', 'e', 'x'):
            same = i > 0 and opt == 'x' and ctx.flag('same%d' % i)
            sents.append(sents[-1] if same else [[NOUNS[(k + j) % 12 if opt != 'e' else ctx.choose('noun%d_%d' % (i, j), 2)], ['sing', 'sleep', 'go'][j % 3 if opt != 'e' else 0]] for j in range(sizes[i])])
            k += sizes[i]
            texts.append(texts[-1] if same else 'text %d' % i)
            continue
        sents.append([[NOUNS[k + j].capitalize() if opt == 'd' else NOUNS[k + j], ['sing', 'sleep', 'go'][j % 3]] + (['.'] if opt == 'd' else []) for j in range(sizes[i])])
        k += sizes[i]
        texts.append(' '.join([' '.join(s) for s in sents[-1]]).replace(' .', '.') if opt == 'd' else 'text %s%d' % (ctx.prefix, i))
    if opt == 'z':
        # a sentence without any token has a place of its own
        sents = [[[] if ctx.flag('empty%d_%d' % (i, j)) else s for j, s in enumerate(ss)] for i, ss in enumerate(sents)]
    flat = [s for ss in sents for s in ss]
    tree = [ctx.flag('tree%d' % i) if opt == 't' else True for i in range(len(flat))]
    tags = [T.NOUN.value, T.VERB.value, T.PUNCT.value]
    deps = [D.SUBJ.value, D.ROOT.value, D.NODEP.value]

    def at(codes, s, p):
        return codes[p - 1] if 1 <= p <= len(flat[s]) else 0
    nets = Recorder(ctx, lambda s, p: at(tags, s, p), lambda s, p: at(deps, s, p), lambda s, top, front: 0 if tree[s] else 3)
    nets.learn(flat, vectorizer(ctx))
    if opt == 's':
        ctx.schedule(4 * ctx.choose('start', 10), 6)
    P = ctx.mod('pipeline.pipeline').Pipeline

    now = ctx.keep('texts', dict)
    now['sents'], now['texts'] = sents, texts

    def sentencize(text):
        if opt == 's':
            ctx.switch_point()
        return [list(s) for s in now['sents'][now['texts'].index(text)]]
    kw = {} if opt == 'd' else {'sentencizer': sentencize}
    pipe = ctx.keep('pipeline %s %s %s' % (cores, batch, gpu), lambda: P(nb_cores=cores, batch_size=batch, use_gpu=gpu, **kw))
    docs = pipe(list(texts), chunk)
    got = [[[str(t) for t in s] for s in d] for d in docs]
    ctx.observe('documents', got)
    ctx.check(len(got) == nt, '%d documents for %d texts' % (len(got), nt))
    want, n = [], 0
    for ss in sents:
        doc = []
        for s in ss:
            doc.append(['NI(%s, %s)' % (s[0].lower(), s[1])] if tree[n] and s else [])
            n += 1
        want.append(doc)
    ctx.check(got == want, 'documents %s instead of %s' % (got, want))
    ctx.later(lambda: ctx.check([[[str(t) for t in s] for s in d] for d in docs] == want, 'documents changed afterwards'))
    ctx.check(all([[str(t) for t in d.stuples] == [t for s in w for t in s] for d, w in zip(docs, want)]), 'tuples of a document are not those of its sentences')
    ctx.check(max(nets.batch_sizes + [0]) <= batch, 'a batch is bigger than asked for')
    ctx.check(ctx.all(nets.misaligned), 'a network is given predictions of another sentence')
    # a second call on the same pipeline gives the same documents
    if opt == '' and nt <= 2:
        again = [[[str(t) for t in s] for s in d] for d in pipe(list(texts), chunk)]
        ctx.check(again == want, 'second call on the same pipeline gives other documents')
    if nt > 1 and len(flat) > 2 and batch < len(flat):
        ctx.cover('batches across texts')


COVER = ['batches across texts', 'interrupted']
