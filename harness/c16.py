from scrappybara_verif_nn import Nets, arcs_of, vectorizer, vectors

BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = 'crossing arcs: every tree of up to 4 words; sentences of 0 to 5 words (6 with a given root in quick), every projective tree over every subset of the words, every label; sentences of up to 47 words with 5 free heads'
ASSUMPTIONS = ['projective: no two arcs cross and no arc covers the root; words out of the tree have no children']

# number of words : position of the root : words out of the tree (x) or in it (o)
QUICK = ['0', '1 0 r', '2 0 ro', '2 1 or', '2 0 rx', '2 1 xr', '3 0 roo', '3 1 oro', '3 2 oor', '3 0 rxo', '3 2 oxr', '4 0 rooo', '4 1 oroo',
         '4 2 ooro', '4 3 ooor', '4 1 xrxo', '4 0 roxo', '4 3 oxor', '4 2 oxro', '5 0 roooo', '5 2 oorxo', '5 4 oxoor', '5 1 oroxo', '5 3 oooro', '5 1 orooo', '5 2 ooroo', '5 4 oooor', '6 2 oorooo']
QUICK += ['free 2', 'free 3', 'free 4']
# long sentences: the heads of a few words are free
QUICK += ['16 5 ' + 'o' * 5 + 'r' + 'o' * 10, '40 0 r' + 'ooo' * 13, '40 39 ' + 'ooo' * 13 + 'r', '47 20 ' + 'oxoo' * 5 + 'r' + 'ooooox' * 4 + 'oo']
THOROUGH = ['free 5', '6 0 rooooo', '6 3 oooroo', '6 5 ooooor', '6 3 oxorxo', '7 3 oxorxoo']

# histories: one after another in the same process, with the same objects
HISTORY = ['2 0 ro >> 2 1 or', '3 1 oro >> 3 0 rxo', '3 2 oor >> 2 0 rx', 'free 2 >> 3 0 roo', '4 1 xrxo >> 3 2 oor', 'free 3 >> free 2']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def run(ctx, case):
    spec = case.split()
    if spec[0] == 'free':
        return free(ctx, int(spec[1]))
    n = int(spec[0])
    shape = spec[2] if n else ''
    root = int(spec[1]) if n else None
    D = ctx.mod('syntax.dependencies').Dep
    T = ctx.mod('syntax.tags').Tag
    R = ctx.mod('syntax.transitions').Trans
    tokens = ['%sword%d' % (ctx.prefix, i) for i in range(n)]
    words = [i for i in range(n) if shape[i] in 'or']
    labels = [d.name for d in D if d.name not in ('PAD', 'ROOT', 'NODEP')]
    ctx.pkl('models/word_vectors.pkl', vectors(tokens if not ctx.prefix else ['%d:word%d' % (k, i) for k in range(3) for i in range(8)]))
    if n <= 8:
        heads = {i: ctx.concrete(ctx.pick('head%d' % i, [h for h in words if h != i])) for i in words if i != root}
    else:
        heads = {}
        for i in words:
            if i != root:
                # the neighbour towards the root, the root, or the last word of that side
                side = [w for w in words if (w < root) == (i < root) and w != root]
                towards = min([w for w in words if w > i]) if i < root else max([w for w in words if w < i])
                options = [towards, root, side[0] if i < root else side[-1]] if i % (n // 5) == 2 else [[towards, root][i // 5 % 2]]
                heads[i] = ctx.concrete(ctx.pick('head%d' % i, [h for h in options if h != i])) if len(options) > 1 else options[0]
    # a tree
    for i in heads:
        x = i
        for _ in range(n):
            if x == root:
                break
            x = heads[x]
        if x != root:
            ctx.assume(False)
    # projective
    arcs = [sorted((i, h)) for i, h in heads.items()]
    for a, b in arcs:
        ctx.assume(not a < root < b)
        for c, d in arcs:
            ctx.assume(not a < c < b < d)
    names = {}
    tuples = []
    for i in range(n):
        if i == root:
            dep = 'ROOT'
        elif i in heads:
            dep = ctx.pick('label%d' % i, labels if i in (0, n - 1) else [labels[i], labels[-1 - i]]) if n <= 8 or i in (0, n - 1) else labels[i % len(labels)]
        else:
            dep = 'NODEP'
        names[i] = dep
        tuples.append((tokens[i], 'NOUN', dep, heads.get(i, -1)))
    sent = ctx.mod('syntax.labelled_data').LabelledSentence(0, tuples)
    if n:
        ctx.check(len(sent) == n and [t for t in sent] == tokens, 'tokens lost')
        for i in range(n):
            ctx.check(ctx.eq(sent.deps[i], D[names[i]]), 'label lost')
        ctx.check(list(sent.valid_idxs) == words, 'words in the tree')
        ctx.check(sent.tree.root == root, 'root of the labelled sentence')
        ctx.check(sorted([(p, c) for _, p, c in arcs_of(sent.tree)]) == sorted([(h, c) for c, h in heads.items()]), 'arcs of the labelled sentence')
        for i in words:
            ctx.check(sent.is_leaf(i) == (i not in heads.values()), 'leaf or not')
    trans = list(sent.transitions)
    ctx.observe('transitions', [(a, b, t.name) for a, b, t in trans])
    steps = []

    def predict(s, top, front):
        k = len(steps)
        ctx.check(k < len(trans), 'the parser asks for more transitions than deduced')
        steps.append((top - 1, front - 1))
        return trans[k][2].value
    nets = Nets(ctx, lambda s, p: T.NOUN.value if 1 <= p <= n else 0, lambda s, p: D[names[p - 1]].value if 1 <= p <= n else 0, predict)
    nets.learn([tokens], vectorizer(ctx))
    all_tags, trees = ctx.keep('parser', lambda: ctx.mod('syntax.parser').Parser(1, 4))([list(tokens)])
    ctx.check(steps == [(a, b) for a, b, _ in trans], 'the parser does not visit the deduced pairs')
    tree = trees[0]
    if len(words) < 2:
        ctx.check(tree is None, 'a tree without arcs')
        return
    ctx.check(tree is not None, 'no tree')
    got = arcs_of(tree)
    ctx.observe('arcs', sorted([(p, c) for _, p, c in got]))
    ctx.check(sorted([(p, c) for _, p, c in got]) == sorted([(h, c) for c, h in heads.items()]), 'heads differ')
    for label, p, c in got:
        ctx.check(ctx.eq(label, D[names[c]]), 'label differs')
    ctx.check(tree.root == root, 'root differs')
    if any([t == R.REDUCE for _, _, t in trans]):
        ctx.cover('reduce')


def free(ctx, n):
    """Every tree, projective or not"""
    root = ctx.choose('root', n)
    heads = {i: ctx.concrete(ctx.pick('head%d' % i, [h for h in range(n) if h != i])) for i in range(n) if i != root}
    for i in heads:
        x = i
        for _ in range(n):
            if x != root:
                x = heads[x]
        ctx.assume(x == root)
    S = ctx.mod('syntax.labelled_data').LabelledSentence(7, [('w%d' % i, 'NOUN', 'ROOT' if i == root else 'CPL', heads.get(i, -1)) for i in range(n)])
    ctx.check(S.id == 7, 'number of the sentence')
    for i in range(n):
        ctx.check(S[i] == 'w%d' % i and S.is_leaf(i) == (i not in heads.values()), 'leaf or not')
        for j in range(n):
            want = False
            if i in heads and j in heads:
                a, b = sorted((i, heads[i]))
                c, d = sorted((j, heads[j]))
                want = a < c < b < d or c < a < d < b
            got = S.have_crossing_arcs(i, j)
            ctx.check(got == want, 'crossing or not')
            if want:
                ctx.cover('crossing')


COVER = ['reduce', 'crossing']
