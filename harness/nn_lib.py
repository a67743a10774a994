"""Stand-in for the neural networks: every prediction is an input, a function of what the network is given."""


class Nets:
    """Predictions per sentence. Sentences are told apart by their rows of character codes.
    tag(sid, pos), dep(sid, pos), trans(sid, top, front) give the class codes; positions are those of the padded sentence."""

    def __init__(self, ctx, tag, dep, trans):
        self.ctx = ctx
        self.tag, self.dep, self.trans = tag, dep, trans
        self.sids = {}        # key -> sentence number
        self.words = {}       # sentence number -> first component of its word vectors
        self.misaligned = []  # conditions that must hold
        self.calls = []
        self.batch_sizes = []
        ctx.predict(self.predict)

    def learn(self, tokens_list, vectorize):
        """Registers the sentences: their character codes are what the code under test computes for them"""
        for sid, tokens in enumerate(tokens_list):
            _, chars, words = vectorize(tokens)
            self.sids[key_of(chars)] = sid
            self.words[sid] = key_of(words[:, 0])

    def predict(self, inputs):
        n = len(inputs[0])
        self.batch_sizes.append(n)
        chars = [x for x in inputs if len(x.shape) == 3 and x.shape[2] == 22][0]
        sids = [self.sids.get(key_of(chars[i])) for i in range(n)]
        self.ctx.check(None not in sids, 'a network is given something else than the sentences')
        vecs = [x for x in inputs if len(x.shape) == 3 and x.shape[2] == 100][0]
        self.ctx.check(all([key_of(vecs[i][:, 0]) == self.words[s] for i, s in enumerate(sids)]), 'a network is given word vectors of something else')
        if len(inputs) == 2:
            self.calls.append(('tags', sids))
            return [[self.tag(s, p) for p in range(52)] for s in sids], 17
        if len(inputs) == 3:
            self.calls.append(('deps', sids))
            for i, s in enumerate(sids):
                self.misaligned.append(self.ctx.all([self.ctx.eq(inputs[0][i][p], self.tag(s, p)) for p in range(52)]))
            return [[self.dep(s, p) for p in range(52)] for s in sids], 25
        self.calls.append(('trans', sids))
        out = []
        for i, s in enumerate(sids):
            self.misaligned.append(self.ctx.all([self.ctx.eq(inputs[0][i][p], self.tag(s, p)) for p in range(52)]))
            self.misaligned.append(self.ctx.all([self.ctx.eq(inputs[1][i][p], self.dep(s, p)) for p in range(52)]))
            tops = [p for p in range(52) if inputs[4][i][p]]
            fronts = [p for p in range(52) if inputs[5][i][p]]
            self.ctx.check(len(tops) == 1 and len(fronts) == 1, 'a word mask does not select exactly one word')
            out.append(self.trans(s, tops[0], fronts[0]))
        return out, 4


def key_of(rows):
    return tuple([int(x) for x in rows.reshape(-1)])


def vectors(words):
    import numpy as np
    return {w: np.array([float(i + 1)] * 100, dtype=np.float32) for i, w in enumerate(words)}


def arcs_of(tree):
    """Arcs (label, parent, child) found by asking the tree, whatever its representation"""
    return [(label, p, c) for p in range(60) for label, c in tree.children(p)]


def vectorizer(ctx):
    ts = ctx.mod('syntax.training_samples')
    cs = ctx.mod('syntax.charset').Charset().load()
    ws = ctx.mod('syntax.wordset').Wordset().load()
    return lambda tokens: ts.vectorize_sentence(list(tokens), cs, ws)
