"""The whole pipeline on sentences of known vocabulary, with free neural predictions."""
from scrappybara_verif_logic import WORDS, files
from scrappybara_verif_nn import Nets, key_of, vectors, vectorizer


def grams(ctx, words=WORDS):
    ctx.file('langmodel/1_grams.txt', ''.join(['%s\t%d\t0.0%d\n' % (w, 10 + i, 100 + i) for i, w in enumerate(words)]))
    ctx.file('langmodel/2_grams.txt', 'red apple\t3\t0.2\nbig king\t2\t0.1\n')


def setup(ctx, words=WORDS):
    files(ctx)
    grams(ctx, words)
    ctx.pkl('models/word_vectors.pkl', vectors(words))


class Recorder(Nets):
    """Keeps which sentences the networks are given, by their character codes"""

    def __init__(self, ctx, tag, dep, trans):
        super().__init__(ctx, tag, dep, trans)
        self.tagged = []

    def predict(self, inputs):
        if len(inputs) == 2:
            chars = [x for x in inputs if len(x.shape) == 3 and x.shape[2] == 22][0]
            for i in range(len(inputs[0])):
                self.tagged.append(key_of(chars[i]))
        return super().predict(inputs)
