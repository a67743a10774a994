from scrappybara_verif_pipe import Recorder, setup, vectorizer, key_of

BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = 'sentences of 1 to 4 and of 47 to 110 and of 420 words; up to 4 places, each holding any splitting mark or another token, anywhere a piece begins, ends or reaches the limit; ' \
         '1 to 3 sentences per text, 1 or 2 texts'
ASSUMPTIONS = ['what the parser is given is what the first network is given']

LIMIT = 50
SPLITTERS = [':', '"', ';', '(', ')', '[', ']', '{', '}', '-']
OTHERS = [',', '.', '--', '::', "'", 'a-b', '!', '/', '...', '()', '[]', '{}', ':"', '-:', ';;', ')-']

# lengths of the sentences (| separates texts), then: number of free places in the longest, then a spacing of the offered positions
QUICK = ['50 1', '51 1', '51 2', '52 1', '49,51 1', '51,3 1', '2,52,2 2', '101 1', '102 1', '103 1', '101 2', '102 2', '54 3', '60,60 1', '51|3 1', '3|52 2', '100 1', '50,50 1', '53 2', '50 0', '51 0',
         '1,50,1 0', '110 2']
THOROUGH = ['52 3', '101 3', '102 3', '110 3', '54 4', '51 3', '153 2', '50 2', '51,52 2', '52|51,2 2']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + ['420 2', '12*30,60 1', '60|' + '|'.join(['3'] * 30) + ' 1'] + ['51 1 >> 50 1', '2 0 >> 52 1', '52 1 >> 3 0', '51 0 >> 51 1']


def spots(n, few):
    near = [0, 1, 2, n // 2, n - 51, n - 50, n - 3, n - 2, n - 1, 48, 49, 50, 51, 52] if not few else [0, 1, n // 2, n - 51, n - 2, n - 1, 49, 50, 51]
    return sorted(set([p for p in near if 0 <= p < n]))


def run(ctx, case):
    shape, k = case.split()
    k = int(k)
    lens = [[int(x.split('*')[-1]) for x in t.split(',') for _ in range(int(x.split('*')[0]) if '*' in x else 1)] for t in shape.split('|')]
    longest = max([n for t in lens for n in t])
    setup(ctx)
    T = ctx.mod('syntax.tags').Tag
    D = ctx.mod('syntax.dependencies').Dep
    texts, uid = [], 0
    start = 300 * int(ctx.prefix[0]) if ctx.prefix else 0
    special = {}
    done = False
    for t in lens:
        sents = []
        for n in t:
            sent = ['w%d' % (start + uid + i) for i in range(n)]
            if n == longest and not done:
                done = True
                last = -1
                for j in range(k):
                    free = [p for p in spots(n, k > 2) if p > last]
                    if not free:
                        ctx.assume(False)
                    last = free[ctx.choose('place%d' % j, len(free))]
                    sent[last] = ctx.pick('token%d' % j, (SPLITTERS + OTHERS) if k == 1 else (SPLITTERS + ['--', ',']) if j == 0 else ['-', ';', '--'])
            uid += n
            sents.append(sent)
        texts.append(sents)
    given = []
    nets = Recorder(ctx, lambda s, p: T.NOUN.value, lambda s, p: D.NODEP.value, lambda s, a, b: 3)

    def predict(inputs):
        given.extend([key_of(inputs[0][i]) for i in range(len(inputs[0]))])
        return [[T.NOUN.value if len(inputs) == 2 else D.NODEP.value] * 52 for i in range(len(inputs[0]))], (17 if len(inputs) == 2 else 25)

    def only_tags(inputs):
        n = len(given)
        out = predict(inputs)
        if len(inputs) != 2:
            del given[n:]
        return out
    ctx.predict(only_tags)
    now = ctx.keep('texts', dict)
    now['texts'] = texts
    pipe = ctx.keep('pipeline', lambda: ctx.mod('pipeline.pipeline').Pipeline(sentencizer=lambda text: [list(s) for s in now['texts'][int(text.split(':')[-1])]], nb_cores=2, batch_size=128, use_gpu=True))
    docs = pipe([ctx.prefix + str(i) for i in range(len(texts))])
    vec = vectorizer(ctx)
    want = []
    counts = []
    for sents in texts:
        pieces = []
        for sent in sents:
            sent = [ctx.concrete(x) for x in sent] if len(sent) <= LIMIT else sent
            if len(sent) <= LIMIT:
                pieces.append(sent)
                continue
            cur = []
            for x in sent:
                if x in SPLITTERS:
                    pieces.append(cur)
                    cur = []
                else:
                    cur.append(ctx.concrete(x))
            pieces.append(cur)
            ctx.cover('split')
        pieces = [p for p in pieces if 0 < len(p) <= LIMIT]
        counts.append(len(pieces))
        want.extend(pieces)
    ctx.observe('given', len(given))
    ctx.check(len(given) == len(want), 'the parser is given %d sentences instead of %d' % (len(given), len(want)))
    for g, w in zip(given, want):
        ctx.check(g == key_of(vec(w)[1]), 'the parser is given another sentence than %s' % ' '.join(w))
    ctx.check([len(list(d)) for d in docs] == counts, 'sentences of a document')


COVER = ['split']
