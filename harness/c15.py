from scrappybara_verif_nn import Nets, arcs_of, vectorizer, vectors

BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = 'sentences of 0 to 4 words (5 and 6 with a prefix of fixed transitions), all dependencies and all transition sequences symbolic; sentences of up to 47 words with two transitions and 2 or 3 dependencies symbolic'
ASSUMPTIONS = ['a network returns one class per position; which one is free']

# number of words / which words may be out of the tree or root (x: any dependency, o: in the tree)
QUICK = ['', 'x', 'xx', 'xxx', 'ooo', 'xoo', 'oox', 'oxo', 'oooo', 'oooo RS', 'ooooo RR', 'ooooo RSS', 'oxoo RS', 'ooooo SL', 'ooooo SSR']
THOROUGH = ['xxxx', 'ooooo', 'oxoxo', 'oooooo RR', 'oooooo RS', 'oooooo SR', 'oooooo SSL']
# long sentences; k: a given dependency
LONG = ['k' * 38 + 'oo ' + 'SR' * 15, 'k' * 40 + 'ox ' + 'R' * 38, 'k' * 30 + 'oxo ' + 'SSRL' * 9 + 'EE', 'ko' + 'k' * 44 + 'o ' + 'S' * 30 + 'L' * 28 + 'R' * 10, 'k' * 45 + 'o ' + 'RSLE' * 14]
CODE = {'L': 0, 'R': 1, 'E': 2, 'S': 3}

# histories: one after another in the same process, with the same objects
HISTORY = ['xx >> xx', 'oo >> ooo', 'oooo RR >> oo', 'ooo RR >> x >> oo', 'oox RS >> oo']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY + LONG


def run(ctx, case):
    spec, _, start = case.partition(' ')
    n = len(spec)
    D = ctx.mod('syntax.dependencies').Dep
    T = ctx.mod('syntax.tags').Tag
    tokens = ['%sword%d' % (ctx.prefix, i) for i in range(n)]
    ctx.pkl('models/word_vectors.pkl', vectors(tokens if not ctx.prefix else ['%d:word%d' % (k, i) for k in range(3) for i in range(8)]))
    some = [D.SUBJ.value, D.OBJ.value, D.ROOT.value]
    every = [d.value for d in D]
    tags = {p: ctx.pick('tag%d' % p, [t.value for t in T]) if p in (1, n) else T.NOUN.value for p in range(1, n + 1)}
    deps = {p: ctx.pick('dep%d' % p, every if spec[p - 1] == 'x' else some) if spec[p - 1] != 'k' else [D.SUBJ, D.OBJ, D.AND, D.CPL][p % 4].value for p in range(1, n + 1)}
    steps = []

    def trans(s, top, front):
        k = len(steps)
        t = CODE[start[k]] if k < len(start) else [1, 3, 0][k % 3] if n > 8 and k > len(start) + 1 else ctx.concrete(ctx.pick('trans%d' % k, [0, 1, 2, 3]))
        steps.append(t)
        return t
    nets = Nets(ctx, lambda s, p: tags.get(p, 0), lambda s, p: deps.get(p, 0), trans)
    nets.learn([tokens], vectorizer(ctx))
    P = ctx.keep('parser', lambda: ctx.mod('syntax.parser').Parser(1, 4))
    all_tags, trees = P([list(tokens)])
    ctx.check(len(all_tags) == 1 and len(trees) == 1, 'one result per sentence')
    ctx.check(ctx.all(nets.misaligned), 'a network is given other predictions than those made')
    ctx.check(len(all_tags[0]) == n, 'one tag per word')
    for i in range(n):
        ctx.check(ctx.eq(all_tags[0][i], T(tags[i + 1])), 'tag differs from the prediction')
    tree = trees[0]
    ctx.observe('steps', steps)
    if tree is None:
        # then no transition attached anything
        ctx.check(not any([t == 0 or t == 1 for t in steps]), 'an attachment is lost')
        return
    arcs = arcs_of(tree)
    ctx.observe('arcs', [(p, c) for _, p, c in arcs])
    ctx.check(len(arcs) > 0, 'a tree without arcs')
    heads = {}
    for label, p, c in arcs:
        ctx.check(0 <= p < n and 0 <= c < n and p != c, 'no word of the sentence')
        ctx.check(c not in heads, 'two heads for one word')
        heads[c] = p
        dc = deps[c + 1]
        ctx.check(ctx.all([dc != D.NODEP.value, deps[p + 1] != D.NODEP.value]), 'a word out of the tree is attached')
        ctx.check(ctx.eq(label, D(dc)) if dc != D.ROOT.value else ctx.eq(label, D.SPLIT), 'label differs from the prediction')
    for c in heads:
        x, k = c, 0
        while x in heads:
            x = heads[x]
            k += 1
            ctx.check(k <= n, 'heads form a cycle')
    ctx.check(tree.root not in heads and tree.root in heads.values(), 'the root has a head or no child')
    for c in range(n):
        par = tree.parent(c)
        ctx.check((par is None) == (c not in heads) and (par is None or par[1] == heads[c]), 'parent and children disagree')
    if len(heads) > 1:
        ctx.cover('tree')


COVER = ['tree']
