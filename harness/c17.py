from scrappybara_verif_nn import Nets, arcs_of, vectorizer, vectors

TICKS = True
BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = 'lists of 0 to 5 sentences of 0 to 3 words, batches of 1 to 4, 1 to 4 workers; the tags, dependencies and transitions of each sentence are free; up to 40 sentences and up to 48 words with few free transitions; one interruption of a thread before any statement (two sentences in two threads)'
ASSUMPTIONS = ['a network is a function of its inputs: equal inputs give equal classes']

# lengths of the sentences / batch size / workers
QUICK = ['- 2 1', '2 1 1', '1,2 1 1', '2,1 2 2', '0,2 2 1', '2,0,1 2 2', '1,2,1 2 3', '2,2 1 2', '3,1,2 2 2', '1,1,1,1 3 4', '2,2,2 4 2', '1,0,0,2 1 3',
         '0 1 2', '0,0 2 4', '3,2 1 4', '1,1,2,1,2 2 3', '2,2x 2 2']
# one free transition per sentence for the first two; batch size free
LONG = [','.join(['%d' % (1 + i % 3) for i in range(40)]) + ' 7 3', ','.join(['2'] * 33) + ' 32 8', ','.join(['1', '30', '2', '48', '0', '7']) + ' 2 2', ','.join(['3', '0x', '1', '2'] * 8) + ' 5 4']
MIXED = ['4,2,3 * 2', '2,4,3 * 1', '3,2,4,2 * 3', '5,1,2,3,2 * 4', '2,3,0,4,2,3 * 2']
THOROUGH = ['3,3,2 2 2', '3,2,3 1 1', '2,2,2,2 3 4', '1,2,3,2,1 4 8', '4,2 2 2', '2,3,2,2x 3 3']

# histories: one after another in the same process, with the same objects
HISTORY = ['2 1 1 >> 2 1 1', '2 1 2 >> 1,2 1 2', '0,2 2 1 >> 2 2 1', 'tagger 2 >> tagger 1,2', 'tagger 3,0,1 >> tagger 2', '1,1,1 3 4 >> 2 3 4']


def cases(tier):
    base = QUICK if tier == 'quick' else QUICK + THOROUGH
    base = base + MIXED + LONG
    base = base + ['~~%d %s i%d' % (k, c, start) for k, c in ((1, '2,1 2 2'), (2, '1,2 1 2')) for start in range(0, 480, 60)]
    return base + HISTORY + ['tagger ' + c.split()[0] for c in ('2', '1,2', '3,0,1', '2,2,1', '0', '2,2x')]


def run(ctx, case):
    tagger = case.startswith('tagger ')
    if tagger:
        lens, batch, cores = case.split()[1], 0, 0
        mixed = False
    else:
        lens, batch, cores = case.split()[:3]
        cores = int(cores)
        mixed = batch == '*' or case in LONG
        batch = ctx.concrete(ctx.pick('batch', list(range(1, len(lens.split(',')) + 2)))) if batch == '*' else int(batch)
    lens = [] if lens == '-' else lens.split(',')
    sents = []
    for s, k in enumerate(lens):
        if k.endswith('x'):
            sents.append(list(sents[0]))  # the same sentence again
        else:
            sents.append(['%ss%dw%d' % (ctx.prefix, s, i) for i in range(int(k))])
    D = ctx.mod('syntax.dependencies').Dep
    T = ctx.mod('syntax.tags').Tag
    ctx.pkl('models/word_vectors.pkl', vectors([w for s in sents for w in s] if not ctx.prefix else ['%d:s%dw%d' % (k, s, i) for k in range(3) for s in range(6) for i in range(6)]))
    distinct = []
    for s in sents:
        if s not in distinct:
            distinct.append(s)
    deps = [D.SUBJ.value, D.OBJ.value, D.NODEP.value]
    tag, dep, steps = {}, {}, {}
    for s, words in enumerate(distinct):
        for p in range(1, len(words) + 1):
            tag[s, p] = ctx.pick('tag_%d_%d' % (s, p), [t.value for t in T])
            if mixed:
                dep[s, p] = deps[(s + p) % 2]
            elif not tagger:
                dep[s, p] = ctx.pick('dep_%d_%d' % (s, p), deps if p == len(words) else deps[:2])

    def trans(s, top, front):
        k = '%d_%d_%d' % (s, top, front)
        if k not in steps:
            if mixed and (s > 1 or top != 1):
                return (s + top + 2 * front) % 4
            steps[k] = ctx.concrete(ctx.pick('trans_' + k, [0, 1, 2, 3]))
        return steps[k]
    nets = Nets(ctx, lambda s, p: tag.get((s, p), 5), lambda s, p: dep.get((s, p), 2), trans)
    nets.learn(distinct, vectorizer(ctx))
    if tagger:
        out = ctx.keep('tagger', lambda: ctx.mod('syntax.tagger').Tagger()).tag([list(s) for s in sents])
        ctx.check(len(out) == len(sents), 'one list of tags per sentence')
        for i, s in enumerate(sents):
            check_tags(ctx, T, out[i], tag, distinct.index(s), len(s))
        ctx.observe('tags', out)
        return
    P = ctx.keep('parser %d %d' % (cores, batch), lambda: ctx.mod('syntax.parser').Parser(cores, batch))
    given = [list(s) for s in sents]
    if ' i' in case:
        ctx.preempt(int(case.split(' i')[1]), 60)
    all_tags, trees = P(given)
    ctx.calm()
    ctx.check(given == sents, 'the sentences are changed')
    ctx.check(len(all_tags) == len(sents) and len(trees) == len(sents), 'one result per sentence')
    ctx.check(ctx.all(nets.misaligned), 'a network is given predictions of another sentence')
    for i, s in enumerate(sents):
        check_tags(ctx, T, all_tags[i], tag, distinct.index(s), len(s))
    alone = ctx.mod('syntax.parser').Parser(1, 1)
    for i, s in enumerate(sents):
        (atags,), (atree,) = alone([list(s)])
        ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(all_tags[i], atags)]), 'tags differ from those of the sentence alone')
        ctx.check((atree is None) == (trees[i] is None), 'tree differs from that of the sentence alone')
        if atree is not None:
            a, b = arcs_of(trees[i]), arcs_of(atree)
            ctx.check([x[1:] for x in a] == [x[1:] for x in b], 'heads differ from those of the sentence alone')
            ctx.check(ctx.all([ctx.eq(x[0], y[0]) for x, y in zip(a, b)]), 'labels differ from those of the sentence alone')
            ctx.check(trees[i].root == atree.root, 'root differs from that of the sentence alone')
            if i > 0 and trees[i - 1] is not None:
                ctx.cover('two trees')


def check_tags(ctx, T, got, tag, s, n):
    ctx.check(len(got) == n, 'one tag per token')
    ctx.check(ctx.all([ctx.eq(got[p], T(tag[s, p + 1])) for p in range(n)]), 'tag differs from the prediction')


COVER = ['two trees']
