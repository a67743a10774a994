"""A language model that may know anything: every answer is an input, answers never contradict each other."""


class AnyModel:
    def __init__(self, ctx):
        self.ctx = ctx
        self.facts = []    # (text, known)
        self.ranks = []    # (text, better text): the first one is at most as probable as the second
        self.answers = []  # (candidates, answer)
        self.big = []      # (text, min_count, answer)
        self.n = 0

    def known(self, text):
        """True, False or None when not decided yet"""
        for t, k in self.facts:
            if len(t) == len(text) and t == text:
                return k
        return None

    def _flag(self):
        self.n += 1
        return self.ctx.flag('lm%d' % self.n)

    def knows(self, text):
        k = self.known(text)
        if k is None:
            k = self._flag()
            self.facts.append((text, k))
        return k

    def has_ngram(self, ngram, min_count=1):
        if min_count < 1:
            return False
        if not self.knows(ngram):
            return False
        if min_count == 1:
            return True
        for t, m, a in self.big:
            if m == min_count and len(t) == len(ngram) and t == ngram:
                return a
        a = self._flag()
        self.big.append((ngram, min_count, a))
        return a

    def __contains__(self, ngram):
        return self.knows(ngram)

    def _at_most(self, a, b):
        for x, y in self.ranks:
            if x == a and y == b:
                return True
        return False

    def best_ngram(self, *ngrams):
        cands = []
        for g in ngrams:
            if not any([len(c) == len(g) and c == g for c in cands]):
                cands.append(g)
        for cs, a in self.answers:
            if len(cs) == len(cands) and all([len(x) == len(y) and x == y for x, y in zip(cs, cands)]):
                return a
        # all unknown?
        status = [self.known(c) for c in cands]
        if not any([s is True for s in status]):
            if all([s is False for s in status]) or not self._flag():
                for c, s in zip(cands, status):
                    if s is None:
                        self.facts.append((c, False))
                self.answers.append((cands, None))
                return None
        options = []
        for c, s in zip(cands, status):
            if s is False:
                continue
            # not beaten strictly by an earlier answer: the earlier winner is at least as probable
            if any([self._at_most(c, o) for o in cands if not (len(o) == len(c) and o == c)]):
                continue
            options.append(c)
        self.n += 1
        k = self.ctx.choose('lm%d' % self.n, len(options)) if len(options) > 1 else 0
        win = options[k]
        if self.known(win) is None:
            self.facts.append((win, True))
        for c in cands:
            if not (len(c) == len(win) and c == win):
                self.ranks.append((c, win))
        self.answers.append((cands, win))
        return win

    def best_token(self, *tokens, before=None, after=None):
        return self.best_ngram(*tokens)

    def next_word(self, text, limit=None):
        return []

    def top_ngrams(self, order, limit=None):
        return []

    def __len__(self):
        return 1000
