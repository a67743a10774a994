from scrappybara_verif_pipe import Recorder, setup, vectorizer
from scrappybara_verif_logic import pipeline, sentence

BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = 'trees of 1 to 4 words (5 in thorough) with every attachment, dependency, tag and marker; any order of the nodes; up to 3 particles; ' \
         'all tags; the whole pipeline on 1 to 3 compound words with chunking on and off'
ASSUMPTIONS = ['the lemmatizer returns some lemma and suffix; which ones is free']

NOUNY = ['NOUN', 'PROPN', 'PRON', 'SYM', 'NUM']
WORDS = ['lemon', 'squeezer', 'king', 'box', 'cake'] + ['thing%d' % i for i in range(12)]

QUICK = ['tree 1', 'tree 2', 'tree 3', 'chain 3', 'chain 4', 'star 3', 'star 4', 'late 4', 'canon', 'particles', 'pronoun', 'pipe 1', 'pipe 2', 'pipe 3', 'sample 2', 'sample 3', 'verb', 'adj',
         'star 7', 'chain 8', 'chain 14', 'star 14', 'sample 7']
THOROUGH = ['tree 4', 'chain 5', 'star 5', 'late 5', 'sample 4', 'pipe 4']

# histories: one after another with the same objects
HISTORY = ['~~1 chain 3 >> tree 2', 'tree 2 >> ~0 chain 3', '~0 chain 3 >> star 3', '~0 star 3 >> chain 3', '~0 late 4 >> star 3', 'sample 2 >> ~~1 sample 2', 'verb >> ~~2 verb', '~~3 verb >> verb', '~0 adj >> adj', '~1 canon >> pronoun', '~~2 pronoun >> canon', '~3 particles >> canon', '~0 sample 3 >> verb']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def run(ctx, case):
    kind, _, n = case.partition(' ')
    T = ctx.mod('syntax.tags').Tag
    D = ctx.mod('syntax.dependencies').Dep
    Node = ctx.mod('syntax.node').Node
    if kind in ('tree', 'chain', 'star', 'late'):
        return chunking(ctx, kind, int(n), T, D, Node)
    if kind == 'pipe':
        return whole(ctx, int(n), T, D)
    if kind == 'sample':
        return sample(ctx, int(n))
    if kind in ('verb', 'adj'):
        return worded(ctx, kind)
    S = ctx.mod('normalization.suffixes').Suffix
    suffix = ctx.pick('suffix', [s for s in S] + [None])
    verb = ctx.pick('verb', ['eat', 'see'])
    now = ctx.keep('lemmatizer', dict)
    now['answer'] = (verb, suffix)
    asked = now['asked'] = []

    def lemmatize(word, tag):
        now['asked'].append((word, tag))
        return now['answer']
    tag = ctx.pick('tag', [t for t in T])
    word = 'eaten' if kind != 'pronoun' else ctx.pick('word', ['me', 'you', 'her', 'him', 'us', 'them', 'it', 'they', 'he', 'i', 'who', 'Them'])
    node = Node(3, word, tag)
    node.standard = word.lower()
    node.lemma = 'lemma' if kind != 'pronoun' else word.lower()
    node.chunk = ctx.concrete(ctx.pick('chunk', [None, 'lemon squeezer']))
    node.particles = ['up', 'with', 'for'][:ctx.choose('particles', 4 if kind == 'particles' else 2)]
    particles = list(node.particles)
    ctx.keep('canonicalizer', lambda: ctx.mod('normalization.canonicalizer').Canonicalizer(lemmatize))(node)
    pron = {'me': 'i', 'you': 'you', 'her': 'she', 'him': 'he', 'us': 'we', 'them': 'they'}
    lemma = node.lemma
    tag = ctx.concrete(tag)
    if tag == T.PRON:
        want = pron.get(ctx.concrete(lemma), lemma)
    elif tag == T.NOUN and node.chunk:
        want = 'lemon squeezer'
    elif tag in (T.ADJ, T.VERB):
        want = ' '.join([lemma] + particles)
    else:
        want = lemma
    ctx.observe('canon', node.canon)
    ctx.check(ctx.eq(node.canon, want), 'canonical form of a %s' % tag.name)
    ctx.check(node.particles == particles, 'particles changed')
    if tag == T.ADJ:
        past = ctx.concrete(suffix) == S.PAST
        ctx.check((node.active_verb is not None) == past, 'active verb of an adjective')
        if past:
            ctx.check(ctx.eq(node.active_verb, ' '.join([ctx.concrete(verb)] + particles)), 'active verb of an adjective')
            ctx.check(all([w == 'eaten' and t == T.VERB for w, t in asked]) or kind == 'pronoun', 'the verb asked for')
        ctx.cover('adjective')
    else:
        ctx.check(node.active_verb is None, 'active verb of another word')
    if tag == T.PRON and kind == 'pronoun':
        ctx.cover('pronoun')


def chunking(ctx, kind, n, T, D, Node):
    Tree = ctx.mod('utils.tree').Tree
    tags = [ctx.pick('tag%d' % i, [t for t in T][1:]) if kind in ('tree', 'chain') and (n < 7 or i == n // 2) else T.NOUN for i in range(n)]
    if kind == 'tree':
        root = ctx.choose('root', n)
        heads = [None if i == root else [j for j in range(n) if j != i][ctx.choose('head%d' % i, n - 1)] for i in range(n)]
    elif kind == 'chain':
        root = n - 1
        heads = [i + 1 for i in range(n - 1)] + [None]
    elif kind == 'star':
        root = ctx.choose('root', n) if n < 7 else [n - 1, 0, n // 2, n - 2][ctx.choose('root', 4)]
        heads = [None if i == root else root for i in range(n)]
    else:
        # every attachment in which the words depend on a later one or on the first
        root = n - 1
        heads = [([i + 1, n - 1, 0] if i else [1, n - 1])[ctx.choose('head%d' % i, 3 if i else 2)] for i in range(n - 1)] + [None]
    for i in range(n):
        x, k = i, 0
        while heads[x] is not None and k <= n:
            x, k = heads[x], k + 1
        if k > n:
            ctx.assume(False)
    deps = [(D.CPL if n > 6 and i not in (0, n // 2, n - 2) else ctx.pick('dep%d' % i, [D.CPL, D.SUBJ, D.AND])) if heads[i] is not None else None for i in range(n)]
    marks = [ctx.pick('mark%d' % i, [None, D.MARK, D.CMARK, D.IMARK, D.ART] if i == 0 else [None, D.MARK]) if (n < 4 and i < 2) or i == (1 if kind == 'late' else 0) else None for i in range(n)]
    nodes = [Node(i, WORDS[i], tags[i]) for i in range(n)]
    for i, x in enumerate(nodes):
        x.lemma = 'l%d' % i
    tree = Tree(nodes[root])
    extra = []
    todo = [root]
    while todo:
        p = todo.pop(0)
        for i in range(n):
            if heads[i] == p:
                tree.register_child(deps[i], nodes[p], nodes[i])
                todo.append(i)
    for i in range(n):
        m = ctx.concrete(marks[i])
        if m is not None:
            marker = Node(100 + i, 'of', T.PREP)
            tree.register_child(m, nodes[i], marker)
            extra.append(marker)
    order = list(nodes)
    if n > 1:
        k = ctx.choose('order', 2)
        order = [order, order[::-1]][k]
    # functional words are not among the nodes, others are
    ctx.keep('chunker', lambda: ctx.mod('syntax.chunker').Chunker())(order, tree)
    nouny = [T[x] for x in NOUNY]
    noun = [bool(t in nouny) for t in tags]
    comp = []
    for i in range(n):
        ok = heads[i] is not None and noun[i] and noun[heads[i]] and i < heads[i]
        comp.append(bool(ok and deps[i] == D.CPL and ctx.concrete(marks[i]) in (None, D.ART)))
    for i in range(n):
        members = set([i])
        for _ in range(n):
            members |= set([j for j in range(n) if comp[j] and heads[j] in members])
        got = nodes[i].chunk
        if comp[i] or len(members) == 1:
            ctx.check(got is None, 'a word that is no head of compounds has a compound name')
        else:
            want = ' '.join(['l%d' % j for j in sorted(members)])
            ctx.observe('chunk', got)
            ctx.check(got == want, 'compound name %s instead of %s' % (got, want))
            if len(members) > 2:
                ctx.cover('compound of three')
    ctx.check(all([x.lemma == 'l%d' % i and x.idx == i for i, x in enumerate(nodes)]), 'chunking changed a word')


def whole(ctx, n, T, D):
    """n compound words, their head and a verb, through the pipeline with chunking on or off"""
    setup(ctx)
    words = WORDS[:n] + ['man', 'sing']
    kinds = [ctx.pick('tag%d' % i, [T.NOUN.value, T.PROPN.value, T.NUM.value]) for i in range(n + 1)]
    rel = [ctx.pick('dep%d' % i, [D.CPL.value, D.ART.value]) for i in range(n)]
    tags = kinds + [T.VERB.value]
    deps = rel + [D.SUBJ.value, D.ROOT.value]

    def at(codes, p):
        return codes[p - 1] if 1 <= p <= len(words) else 0
    nets = Recorder(ctx, lambda s, p: at(tags, p), lambda s, p: at(deps, p), lambda s, a, b: 0)
    nets.learn([words], vectorizer(ctx))
    chunk = ctx.flag('chunk')
    pipe = ctx.mod('pipeline.pipeline').Pipeline(sentencizer=lambda text: [list(words)], nb_cores=1, batch_size=2)
    docs = pipe(['text'], chunk)
    got = [str(t) for t in docs[0].stuples]
    head = ctx.concrete(kinds[n])
    rel = [ctx.concrete(r) for r in rel]
    first = n
    while first > 0 and rel[first - 1] == D.CPL.value:
        first -= 1
    name = ' '.join(words[first:n + 1]) if chunk and head == T.NOUN.value else 'man'
    code = {T.NOUN.value: 'N', T.PROPN.value: 'P', T.NUM.value: 'U'}[head]
    ctx.observe('tuples', got)
    ctx.check([t for t in got if t.split('(')[0][1:] == 'I'] == ['%sI(%s, sing)' % (code, name)], 'tuples %s without the one of %s' % (got, name))
    if chunk and n > 1:
        ctx.cover('chunked')


def sample(ctx, n):
    """the object of a verb has compounds in a row or all on the head, one of them possibly marked"""
    words = WORDS[:n]
    flat = ctx.flag('flat')
    marked = ctx.choose('marked', n + 1)
    rows = [('sing', 'sing', 'VERB', 'ROOT', None)]
    for i, w in enumerate(words):
        if i == marked:
            rows.append(('of', 'of', 'PREP', 'MARK', w))
        rows.append((w, w, 'NOUN', 'CPL', 'man' if flat or i == n - 1 else words[i + 1]))
    rows.append(('man', 'men', 'NOUN', 'OBJ', 'sing'))
    rows.insert(0, ('we', ctx.pick('subject', ['us', 'we', 'We']), 'PRON', 'SUBJ', 'sing'))
    got = [str(t) for t in pipeline(ctx).test_sample(sentence(rows))]
    members = [i for i in range(n) if (i != marked if flat else (i > marked or marked == n))]
    name = ' '.join([words[i] for i in members] + ['man'])
    ctx.observe('tuples', got)
    ctx.check([t for t in got if 'T' in t.split('(')[0]] == ['OTN(we, sing, %s)' % name], 'tuples %s without the one of %s' % (got, name))


def worded(ctx, kind):
    k = ctx.choose('particles', 3)
    parts = ['up', 'to'][:k]
    if kind == 'verb':
        rows = [('tom', 'tom', 'PROPN', 'SUBJ', 'v'), ('to', ctx.pick('before', ['out', 'up']), 'FRAG', 'PART', 'v'), ('v', ctx.pick('form', ['call', 'called', 'calls', 'calling']), 'VERB', 'ROOT', None)]
        rows += [('part' + p, p.upper(), 'FRAG', 'PART', 'v') for p in parts]
        rows += [('o', ctx.pick('object', ['him', 'her', 'them', 'me', 'us', 'you', 'it']), 'PRON', 'OBJ', 'v')]
        got = [str(t) for t in pipeline(ctx).test_sample(sentence(rows))]
        obj = {'him': 'he', 'her': 'she', 'them': 'they', 'me': 'i', 'us': 'we'}
        o = ctx.concrete(rows[-1][1])
        want = 'PTO(tom, %s, %s)' % (' '.join(['call'] + parts), obj.get(o, o))
        ctx.observe('tuples', got)
        ctx.check([t for t in got if 'T' in t.split('(')[0]] == [want], 'tuples %s without %s' % (got, want))
        return
    form = ctx.pick('form', ['eaten', 'called', 'red', 'calling'])
    rows = [('apple', 'apple', 'NOUN', 'SUBJ', 'be'), ('be', 'was', 'VERB', 'ROOT', None), ('a', form, 'ADJ', 'PROP', 'be')] + [('part' + p, p, 'FRAG', 'PART', 'a') for p in parts]
    rows += [('by', 'by', 'PREP', 'MARK', 'tom'), ('tom', 'tom', 'PROPN', 'CPL', 'a')] if ctx.flag('agent') else []
    got = [str(t) for t in pipeline(ctx).test_sample(sentence(rows))]
    form = ctx.concrete(form)
    past = form in ('eaten', 'called')
    want = ['NC%s(apple, be, %s)' % ('L' if past else 'A', ' '.join([form] + parts))]
    if past and len(rows) > 3 + k:
        want.append('PTN(tom, %s, apple)' % ' '.join([{'eaten': 'eat', 'called': 'call'}[form]] + parts))
    ctx.observe('tuples', got)
    ctx.check(sorted(got) == sorted(want), 'tuples %s instead of %s' % (sorted(got), sorted(want)))


COVER = ['adjective', 'pronoun', 'compound of three', 'chunked']
