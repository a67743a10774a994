"""Bugs that need many items, long inputs or equal items"""
R = 'scrappybara/'
seed('c06b', 'C06', [(R + 'langmodel/smoother.py', 'marks = np.linspace(0, nb_samples, self._nb_processes + 1, dtype=int)',
                      'step = nb_samples / self._nb_processes\n        marks = [int(i * step) for i in range(self._nb_processes + 1)]')],
     'numbers of n-grams and workers where n / w * w is below n in floating point (1 and 49)', 'the last n-gram gets no probability', '''
from scrappybara.langmodel.ngram import Ngram
from scrappybara.langmodel.mle_smoother import MLESmoother
for n, w in ((1, 49), (1, 98), (7, 3), (50, 8)):
    gs = [Ngram('w%d' % i) for i in range(n)]
    for g in gs: g.count = 2
    MLESmoother(gs, 1, w)()
    assert all(g.proba is not None and abs(g.proba - 1 / n) < 1e-9 for g in gs), (n, w)
''')
seed('c05c', 'C05', [(R + 'langmodel/ngrams_extraction.py', 'zip(*[token_list[i:] for i in range(order)])', 'zip(*[token_list[i:256] for i in range(order)])')],
     'a sentence of more than 256 tokens', 'the n-grams behind them are not counted', '''
from scrappybara.langmodel.ngrams_extraction import extract_ngrams
assert len(extract_ngrams([['a'] * 300], 2)) == 299
assert len(extract_ngrams([['a'] * 30], 3)) == 28
''')
seed('c10c', 'C10', [(R + 'langmodel/language_model_builder.py', 'pool.map(self.__sentencize, batch)', 'pool.map(self.__sentencize, dict.fromkeys(batch))')],
     'the same text twice in one batch', 'it is counted once', '''
import tempfile, pathlib, shutil
import scrappybara.config as cfg
d = tempfile.mkdtemp(); cfg.DATA_DIR = pathlib.Path(d); (cfg.DATA_DIR / 'langmodel').mkdir()
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
LanguageModelBuilder(1, smoothing='maximum_likelihood_estimation', nb_processes=2)(iter(['a', 'a', 'b']))
s = (cfg.DATA_DIR / 'langmodel' / '1_grams.txt').read_text()
shutil.rmtree(d)
assert 'a\\t2\\t' in s and 'b\\t1\\t' in s, s
''')
seed('c20d', 'C20', [(R + 'syntax/nodifier.py', '                    if i > idx:', '                    if i > idx and tokens[i].lower() not in node.particles:')],
     'a verb with the same particle twice', 'one of them is lost', '''
from scrappybara.syntax.nodifier import Nodifier
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree
t = Tree(0)
for i in (1, 2, 3): t.register_child(Dep.PART, 0, i)
d, _ = Nodifier()(['go', 'on', 'and', 'on'], [Tag.VERB] + [Tag.FRAG] * 3, t)
assert d[0].particles == ['on', 'and', 'on'], d[0].particles
''')
seed('c24e', 'C24', [(R + 'pipeline/pipeline.py', "                sentence.stuples = stuple_list\n", "                sentence.stuples = stuple_list\n                if doc.sentences and str(doc.sentences[-1].stuples) == str(stuple_list):\n                    continue\n")],
     'two sentences with the same tuples, or without any, one after the other in one text', 'the document has a sentence less', '''
import scrappybara.pipeline.pipeline as P
P.LanguageModel = lambda *a: None
P.Parser = lambda *a: (lambda toks: ([[] for _ in toks], [None for _ in toks]))
pipe = P.Pipeline(sentencizer=lambda t: [[x] for x in t.split()], nb_cores=1)
docs = pipe(['a a', 'b c'])
assert [len(d.sentences) for d in docs] == [2, 2], [len(d.sentences) for d in docs]
''')
seed('c27c', 'C27', [(R + 'semantics/semantic_tuple.py', 'return len(self.__args)', 'return len(set(self.__args))')],
     'the same argument twice in one tuple', 'it is counted once', '''
from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple
a, v = Argument('man', 'N'), Argument('hurt', 'T')
assert len(SemanticTuple(a, v, a)) == 3 and len(SemanticTuple(a, v)) == 2
''')
