BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = 'trees and forests of 1 to 5 nodes, every shape, three orders of registration, three labels per arc (symbolic); chains, stars and binary trees of 25 to 40 nodes with two free labels; questions also between two registrations (trees of 2 to 4 nodes, chains and stars of 25)'
ASSUMPTIONS = ['no node is registered twice as a child, arcs form no cycle, the root has no parent']

# number of nodes, order of registration, nodes that may stay without parent (besides the root)
QUICK = ['1 up', '2 up', '2 down', '3 up', '3 down', '3 mid', '3 up f', '4 up', '4 down', '4 mid', '4 mid f', '5 mid']
THOROUGH = ['5 up', '5 down', '4 up f', '5 mid f']

# the tree is asked everything between two registrations
BETWEEN = ['2 up q', '3 up q', '3 down f q', '4 mid q', '4 down q', '25 chain q', '25 star q']
LONG = ['25 chain', '25 star', '25 heap', '40 flat']
# histories: one after another in the same process, with the same objects
HISTORY = ['3 up >> 3 down', '2 up >> 3 mid', '3 mid >> 2 down >> 1 up', '2 up >> 2 up', '3 up f >> 3 up f']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY + BETWEEN + LONG


def run(ctx, case):
    spec = case.split()
    n = int(spec[0])
    forest = 'f' in spec[2:]
    D = ctx.mod('syntax.dependencies').Dep
    root = ctx.concrete(ctx.pick('root', [0, n - 1] if n > 1 else [0]))
    names = list(range(n)) if n != 3 else [3, 5, 9]
    kids = [i for i in range(n) if i != root]
    if spec[1] == 'down':
        kids.reverse()
    elif spec[1] == 'mid':
        kids = kids[1:] + kids[:1]
    heads = {}
    if n > 8:
        kids = [i for i in range(n) if i != root]
        for i in kids:
            if spec[1] == 'star':
                heads[i] = root
            elif spec[1] == 'heap':
                heads[i] = (i - 1) // 2 if root == 0 else (i + n) // 2
            else:
                heads[i] = i - 1 if root == 0 else i + 1
        kids = kids[::3] + kids[1::3] + kids[2::3]
    for i in kids if n <= 8 else []:
        h = ctx.concrete(ctx.pick('head%d' % i, [x for x in range(n) if x != i] + ([None] if forest else [])))
        if h is not None:
            heads[i] = h
    for i in heads:
        x, k = i, 0
        while x in heads and k <= n:
            x = heads[x]
            k += 1
        ctx.assume(k <= n)
    free = list(heads) if n <= 8 else [2, n - 3]
    labels = {i: D(ctx.pick('label%d' % i, [D.FLAT.value, D.OBJ.value, D.AND.value])) if i in free else [D.FLAT, D.FLAT, D.OBJ, D.AND][i % 4 if spec[1] != 'flat' else 0] for i in heads}
    tree = ctx.mod('utils.tree').Tree(names[root])
    order = [i for i in kids if i in heads]
    for k, i in enumerate(order):
        if 'q' in spec[2:] and (n <= 8 or k == n // 2):
            # asked before the tree is complete
            questions(ctx, D, tree, names, root, [(labels[j], names[heads[j]], names[j]) for j in order[:k]])
        tree.register_child(labels[i], names[heads[i]], names[i])
    arcs = [(labels[i], names[heads[i]], names[i]) for i in order]
    questions(ctx, D, tree, names, root, arcs)
    if ctx.prefix:
        # still so when other trees have been built
        ctx.later(lambda: questions(ctx, D, tree, names, root, arcs))
    if len(arcs) > 2:
        ctx.cover('three arcs')


def questions(ctx, D, tree, names, root, arcs):
    ask = [D.FLAT, D.OBJ, D.AND, D.SUBJ]
    ctx.check(tree.root == names[root], 'root')
    # whole tree
    got = [(l, p, c) for l, p, c in tree]
    ctx.check(len(got) == len(arcs), 'number of arcs iterated')
    ctx.check(all([any([g[1] == a[1] and g[2] == a[2] for g in got]) for a in arcs]), 'arcs iterated')
    for g in got:
        a = [a for a in arcs if a[2] == g[2]]
        ctx.check(len(a) == 1 and a[0][1] == g[1] and ctx.eq(a[0][0], g[0]), 'arc iterated with another label')
    again = [c for _, _, c in tree]
    ctx.check(again == [g[2] for g in got], 'a second iteration differs')
    ctx.check(len(tree) == 1 + len(arcs), 'size')
    nodes = list(tree.nodes)
    ctx.check(sorted(nodes) == sorted([names[root]] + [a[2] for a in arcs]), 'nodes')
    for x in names + [77]:
        mine = [a for a in arcs if a[1] == x]
        up = [a for a in arcs if a[2] == x]
        par = tree.parent(x)
        if not up:
            ctx.check(par is None, 'parent of a node without parent')
        else:
            ctx.check(par is not None and par[1] == up[0][1], 'parent')
            ctx.check(ctx.eq(par[0], up[0][0]), 'label of the parent')
        ctx.check(tree.has_node(x) == (len(mine) + len(up) > 0), 'has_node')
        # children
        ch = list(tree.children(x))
        ctx.check(sorted([c for _, c in ch]) == sorted([a[2] for a in mine]), 'children')
        for l, c in ch:
            ctx.check(ctx.eq(l, [a[0] for a in mine if a[2] == c][0]), 'label of a child')
        for l in ask:
            via = [a[2] for a in mine if a[0] == l]
            ctx.check([c for k, c in ch if k == l] == via, 'order of the children')
            ctx.check(list(tree.children_via(x, l)) == via, 'children_via')
            ctx.check(tree.child_via(x, l) == (via[0] if via else None), 'child_via')
            ctx.check(bool(tree.has_child_via(x, l)) == (len(via) > 0), 'has_child_via')
            ctx.check(bool(tree.has_parent_via(x, l)) == (len(up) > 0 and up[0][0] == l), 'has_parent_via')
            # climbing and descending
            chain, y = [], x
            while True:
                nxt = [a for a in arcs if a[2] == y and a[0] == l]
                if not nxt:
                    break
                y = nxt[0][1]
                chain.append(y)
            chain.reverse()
            ctx.check(list(tree.ancestors_via(x, l)) == chain, 'ancestors_via')
            ctx.check(list(tree.descendants_via(x, l)) == below(arcs, x, l), 'descendants_via')
        for ls in ([D.FLAT, D.SUBJ], [D.OBJ, D.AND], []):
            ctx.check(bool(tree.has_child_via_set(x, set(ls))) == any([any([a[0] == l for l in ls]) for a in mine]), 'has_child_via_set')
            ctx.check(bool(tree.has_parent_via_set(x, set(ls))) == (len(up) > 0 and any([up[0][0] == l for l in ls])), 'has_parent_via_set')
        sib = list(tree.siblings(x))
        want = [a for a in arcs if up and a[1] == up[0][1] and a[2] != x]
        ctx.check(sorted([c for _, c in sib]) == sorted([a[2] for a in want]), 'siblings')
        for l, c in sib:
            ctx.check(ctx.eq(l, [a[0] for a in want if a[2] == c][0]), 'label of a sibling')
    ctx.observe('arcs', [(p, c) for _, p, c in got])


def below(arcs, x, l):
    out = []
    for a in arcs:
        if a[1] == x and a[0] == l:
            out.append(a[2])
            out.extend(below(arcs, a[2], l))
    return out


COVER = ['three arcs']
