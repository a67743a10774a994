BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = ('trees and forests of 0 to 4 words (5 in chosen shapes), every shape, also with equal words; a verb with a dozen particles and a name of 15 words; labels flat, particle, subject, article, negation, object; '
          'words to/To/other, tags symbolic; conventional trees in full, any other tree for words lost or invented')
ASSUMPTIONS = ['conventional: flat words form chains from left to right whose later words have no other dependent, particles have no dependents and '
               'are not attached to flat words']

QUICK = ['none', '1', '2 c', '2 f', '3 c', '3 f', '3 c forest', '4 c', '5 c flat', '5 c part', '4 f flat', '4 c same', '5 c part same', '3 f same', '14 c long', '14 c long same', '30 c long']
THOROUGH = ['4 f', '5 c', '5 c forest', '4 c forest', '6 c flat', '6 c part']

# histories: one after another in the same process, with the same objects
HISTORY = ['~0 3 f >> 2 c', '~1 3 f >> 3 c', '~3 3 f >> 2 f', 'none >> 2 c', '~0 2 c >> none', '~1 2 f >> ~0 2 f >> 2 f', '1 >> 2 c', '~0 5 c flat >> 2 c', '~1 5 c part >> 3 c', '2 c >> ~1 3 f']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def run(ctx, case):
    D = ctx.mod('syntax.dependencies').Dep
    T = ctx.mod('syntax.tags').Tag
    nodify = ctx.keep('nodifier', lambda: ctx.mod('syntax.nodifier').Nodifier())
    Tree = ctx.mod('utils.tree').Tree
    if case == 'none':
        nd, tree = nodify(['a', 'b'], [T.NOUN, T.VERB], None)
        ctx.check(len(nd) == 0 and tree is None, 'nodes without tree')
        return
    spec = case.split()
    n = int(spec[0])
    conv = 'c' in spec
    forest = 'forest' in spec
    if 'flat' in spec:
        labels = [D.FLAT, D.SUBJ]
    elif 'part' in spec:
        labels = [D.PART, D.OBJ]
    elif n <= 3:
        labels = [D.FLAT, D.PART, D.SUBJ, D.ART, D.NEG]
    else:
        labels = [D.FLAT, D.PART, D.SUBJ, D.MARK]
    outside = n if n != 3 else 1  # a word that is not part of the tree
    tokens, pos = [], []
    for i in range(n + 1):
        if i == outside:
            tokens.append(',')
        if i < n:
            pos.append(len(tokens))
            tokens.append('Up' if 'same' in spec else 'w%d' % i if n > 8 else ctx.concrete(ctx.pick('word%d' % i, ['to', 'To', 'Up%d' % i])) if i < 2 and n <= 3 else ['To', 'Up', 'x', 'York', 'to', 'Q'][i])
    if n == 1:
        tree = Tree(pos[0])
        nd, nt = nodify(list(tokens), [T.NOUN for _ in tokens], tree)
        ctx.check(len(nd) == 1 and nt is not None, 'one node for the only word')
        nodes = list(nd.values())
        ctx.check(nodes[0].original == tokens[pos[0]] and nodes[0].idx == pos[0] and nt.root is nodes[0], 'node of the only word')
        return
    root = ctx.concrete(ctx.pick('root', list(range(n)) if n < 4 else [0, n - 2])) if n <= 8 else 0
    heads = {}
    if n > 8:
        # a verb with particles and a long name
        heads = {i: 0 if i <= n // 2 else i - 1 for i in range(1, n)}
    for i in range(n) if n <= 8 else []:
        if i == root:
            continue
        opts = [x for x in range(n) if x != i]
        h = ctx.concrete(ctx.pick('head%d' % i, opts + ([None] if forest else [])))
        if h is not None:
            heads[i] = h
    for i in heads:
        x, k = i, 0
        while x in heads and k <= n:
            x = heads[x]
            k += 1
        ctx.assume(k <= n)
    ctx.assume(root in heads.values())
    inside = [i for i in range(n) if i in heads or i in heads.values()]
    if n > 8:
        dep = {i: ([D.PART, D.PART, D.SUBJ, D.ART][i % 4] if i < n // 2 else D.OBJ if i == n // 2 else D.FLAT) for i in heads}
        for i in (1, 3, n // 2 - 1):
            dep[i] = D(ctx.concrete(ctx.pick('dep%d' % i, [D.PART.value, D.SUBJ.value, D.NEG.value])))
    else:
        dep = {i: D(ctx.concrete(ctx.pick('dep%d' % i, [l.value for l in labels]))) for i in heads}
    kids = {i: [c for c in range(n) if c in heads and heads[c] == i] for i in range(n)}
    if conv:
        for i in heads:
            if dep[i] == D.FLAT:
                ctx.assume(heads[i] < i)
                ctx.assume(all([dep[c] == D.FLAT for c in kids[i]]))
                ctx.assume(len([c for c in kids[heads[i]] if dep[c] == D.FLAT]) == 1)
                ctx.assume(not any([dep[c] == D.PART for c in kids[heads[i]]]))
            if dep[i] == D.PART:
                ctx.assume(not kids[i])
    tags = [T(ctx.pick('tag%d' % i, [t.value for t in T if t.value])) if i in (0, n - 1) else T(i % 12 + 1) for i in range(len(tokens))]
    tree = Tree(pos[root])
    for i in sorted(heads) if n % 2 else sorted(heads, reverse=True):
        tree.register_child(dep[i], pos[heads[i]], pos[i])
    given = list(tokens)
    nd, nt = nodify(given, list(tags), tree)
    ctx.check(given == tokens, 'tokens changed')
    returned = list(nd.values())
    # every node that can be reached
    nodes = []
    for x in returned + [nt.root]:
        if not any([x is y for y in nodes]):
            nodes.append(x)
    k = 0
    while k < len(nodes):
        for _, c in nt.children(nodes[k]):
            if not any([c is y for y in nodes]):
                nodes.append(c)
        k += 1
    spelled = [w for x in nodes for w in x.original.split(' ')]
    ctx.observe('nodes', [(x.original, x.idx, list(x.particles), x.is_inf_to) for x in returned])
    for i in inside:
        if i in heads and dep[i] in (D.FLAT, D.PART):
            continue
        # some node starts with the word
        mine = [x for x in nodes if x.original.split(' ')[0] == tokens[pos[i]]]
        same = [j for j in inside if tokens[pos[j]] == tokens[pos[i]]]
        functional = i in heads and dep[i] in (D.ART, D.NEG, D.MARK)
        if not functional:
            ctx.check(len(mine) >= 1, 'a word of the tree has no node')
        if len(same) == 1:
            ctx.check(len(mine) <= 1, 'a word of the tree has several nodes')
    ctx.check(all([any([w == t for t in tokens]) for w in spelled]), 'a node spells words that are not in the sentence')
    ctx.check(',' not in spelled, 'a word outside the tree has a node')
    for x in returned:
        ctx.check(any([y is x for y in nodes]), 'node lost')
    if not conv:
        return
    # conventional trees: exact
    want = {}
    for i in inside:
        if i in heads and dep[i] in (D.FLAT, D.PART):
            continue
        chain = [i]
        while True:
            nxt = [c for c in kids[chain[-1]] if dep[c] == D.FLAT]
            if not nxt:
                break
            chain.append(nxt[0])
        parts = [c for c in kids[i] if dep[c] == D.PART]
        want[i] = (' '.join([tokens[pos[c]] for c in chain]), pos[chain[-1]], [tokens[pos[c]].lower() for c in parts if c > i],
                   any([tokens[pos[c]].lower() == 'to' for c in parts if c < i]))
        if len(chain) > 1:
            ctx.cover('flat')
        if len(parts) > 1:
            ctx.cover('particles')
    # functional words: no node of their own in the result
    keep = [i for i in want if not (i in heads and dep[i] in (D.ART, D.NEG, D.MARK))]
    ctx.check(len(returned) == len(keep), 'number of nodes')
    for i in keep:
        text, idx, parts, inf = want[i]
        x = [y for y in returned if y.idx == idx]
        ctx.check(len(x) == 1, 'no node for a word of the tree')
        x = x[0]
        ctx.check(idx in nd and nd[idx] is x, 'node filed under another position')
        ctx.check(x.original == text, 'words of a node')
        ctx.check(ctx.eq(x.tag, tags[idx]), 'tag of a node')
        ctx.check(list(x.particles) == parts, 'particles')
        ctx.check(bool(x.is_inf_to) == inf, 'mark of the infinitive')
        if i in heads:
            par = nt.parent(x)
            ctx.check(par is not None, 'relation lost')
            ctx.check(ctx.eq(par[0], dep[i]), 'label of a relation')
            ctx.check(par[1].idx == want[heads[i]][1] and par[1].original == want[heads[i]][0], 'other parent')
        else:
            ctx.check(nt.parent(x) is None, 'relation invented')
        marks = sorted([dep[c].value for c in kids[i] if dep[c] in (D.ART, D.NEG, D.MARK)])
        ctx.check(sorted([l.value for l, _ in nt.children(x) if l in (D.ART, D.NEG, D.MARK)]) == marks, 'function words of a node')
    ctx.check(nt.root.idx == want[root][1], 'root')


COVER = ['flat', 'particles']
