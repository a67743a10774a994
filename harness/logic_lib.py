"""Labelled sentences for the logic part of the pipeline, with a small fixed vocabulary."""

FILES = {
    'irregular_preterits.txt': 'was\tbe\nate\teat\nsaw\tsee\nmet\tmeet\nwent\tgo\nhurt\thurt\n',
    'irregular_past_participles.txt': 'given\tgive\neaten\teat\nseen\tsee\nmet\tmeet\ngone\tgo\nhurt\thurt\nmade\tmake\nbeen\tbe\ndone\tdo\nhad\thave\n',
    'irregular_plurals.txt': 'mice\tmouse\nmen\tman\n',
    'irregular_comparatives.txt': 'better\tgood\n',
    'irregular_superlatives.txt': 'best\tgood\n',
    'nouns.txt': 'pear\napple\ncook\n',
    'adjectives.txt': 'cold\nred\nsweet\n',
}
WORDS = ('apple', 'pear', 'man', 'tom', 'king', 'cake', 'eat', 'bake', 'call', 'give', 'want', 'sing', 'name', 'cook', 'meet', 'see', 'be', 'have', 'get', 'do', 'go',
         'lemon', 'squeezer', 'color', 'fall', 'make', 'red', 'cold', 'good', 'box', 'sleep', 'hurt')


class FixedModel:
    """Knows the base forms only"""

    def has_ngram(self, ngram, min_count=1):
        return ngram in WORDS

    def __contains__(self, ngram):
        return ngram in WORDS

    def best_ngram(self, *ngrams):
        for g in ngrams:
            if g in WORDS:
                return g
        return None

    def best_token(self, *tokens, before=None, after=None):
        return self.best_ngram(*tokens)


def files(ctx):
    for k, v in FILES.items():
        ctx.file('english/' + k, v)


def pipeline(ctx):
    files(ctx)
    return ctx.keep('logic', lambda: ctx.mod('pipeline.logic_pipeline').LogicPipeline(FixedModel()))


def sentence(words, negated=()):
    """words: (key, token, tag, dep, key of the head or None); each negated key gets a negation"""
    rows = []
    for key, token, tag, dep, head in words:
        rows.append((key, token, tag, dep, head))
        if key in negated:
            rows.append(('not ' + key, 'not', 'ADV', 'NEG', key))
    pos = {r[0]: i for i, r in enumerate(rows)}
    return [(token, tag, dep, pos[head] if head is not None else -1) for _, token, tag, dep, head in rows]


def show(code, words, verb, negative):
    return code + '(' + ', '.join([('NOT ' + w) if negative and i == verb else w for i, w in enumerate(words)]) + ')'
