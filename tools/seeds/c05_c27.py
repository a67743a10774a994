R = 'scrappybara/'
LMSTUB = '''
class LM:
    def __init__(self, *known): self.k = list(known)
    def has_ngram(self, g, min_count=1): return g in self.k
    def __contains__(self, g): return g in self.k
    def best_ngram(self, *gs):
        c = [g for g in self.k if g in gs]
        return c[0] if c else None
    def best_token(self, *gs, before=None, after=None): return self.best_ngram(*gs)
'''
LOGIC = LMSTUB + '''
from scrappybara.pipeline.logic_pipeline import LogicPipeline
def tuples(*rows, known=('eat', 'bake', 'want', 'sing', 'man', 'cake', 'apple', 'see', 'cook', 'call')):
    return sorted(str(t) for t in LogicPipeline(LM(*known)).test_sample(list(rows)))
'''
seed('c05a', 'C05', [(R + 'langmodel/ngrams_extraction.py', "zip(*[token_list[i:] for i in range(order)])]", "zip(*[token_list[i:] for i in range(order)]) if len(set(ngram_tokens)) > 1]")],
     'a window of equal tokens ("no no no")', 'windows of repeated tokens are not counted', '''
from scrappybara.langmodel.ngrams_extraction import extract_ngrams
assert extract_ngrams([['no', 'no', 'no', 'way']], 2) == ['no no', 'no no', 'no way']
''')
seed('c05b', 'C05', [(R + 'utils/text.py', """    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))


def has_only_lowercase""", """    return bool(_RE_ONLY_LETTERS.match(token)) and token.isalpha()


def has_only_lowercase""")],
     'a token beginning with an English letter and containing an accented one', 'n-grams with other than English letters are counted', '''
from scrappybara.langmodel.ngrams_extraction import extract_ngrams
assert extract_ngrams([['the', 'caf\\u00e9']], 1) == ['the']
''')
seed('c06a', 'C06', [(R + 'langmodel/smoother.py', "    data_slices = run_multithreads(data_slices, process, nb_processes)\n", "    data_slices = [s for s in run_multithreads(data_slices, process, nb_processes) if s.np_probas is not None]\n    data_slices.sort(key=lambda s: -len(s.np_probas))\n")],
     'slices of unequal size, a bigger one after a smaller one', 'probabilities go to other n-grams', '''
from scrappybara.langmodel.ngram import Ngram
from scrappybara.langmodel.mle_smoother import MLESmoother
gs = [Ngram(w) for w in 'abcde']
for i, g in enumerate(gs): g.count = i + 1
MLESmoother(gs, 1, 3)()
assert all(abs(g.proba - g.count / 15) < 1e-9 for g in gs), [g.proba for g in gs]
''')
seed('c07a', 'C07', [(R + 'langmodel/mkn_smoother.py', "            cl_d = self.__discount(order + 1, cl)", "            cl_d = self.__discount(min(order + 1, 3), cl)")],
     'a model of order four', 'trigram continuation counts are discounted with the wrong order', '''
from fractions import Fraction
from scrappybara.langmodel.ngram import Ngram
from scrappybara.langmodel.mkn_smoother import MKNSmoother
import itertools
sents = ['a b c d', 'a b c d', 'b b c d', 'a c c d', 'b a c d', 'b a c d', 'b a c d', 'c c c d', 'd a b a', 'd a b a', 'd a b a', 'd a b a', 'a a b c', 'b d c a', 'b d c a', 'c d b a', 'c d b a', 'c d b a', 'b c a d']
counts = {}
for s in sents:
    t = s.split()
    for n in range(1, 5):
        for i in range(len(t) - n + 1):
            g = ' '.join(t[i:i + n]); counts[g] = counts.get(g, 0) + 1
gs = []
for g, c in counts.items():
    x = Ngram(g); x.count = c; gs.append(x)
m = MKNSmoother(gs, 4, 1)()
d = {o: (m.discount_1(o), m.discount_2(o), m.discount_3(o)) for o in (2, 3, 4)}
wc = lambda suffix: sum(1 for g in counts if len(g.split()) == len(suffix.split()) + 1 and g.split()[1:] == suffix.split())
def disc(o, c): return 0 if c == 0 else d[o][min(c, 3) - 1]
def follow(h, k):
    return sum(1 for g, c in counts.items() if g.split()[:-1] == h.split() and len(g.split()) == len(h.split()) + 1 and (c == k if k < 3 else c >= 3))
def p(g, top):
    t = g.split(); n = len(t)
    if n == 1: return wc(g) / sum(1 for x in counts if len(x.split()) == 2)
    h = ' '.join(t[:-1])
    if top: c, dd, tot = counts[g], disc(n, counts[g]), counts[h]
    else:
        c = wc(g); dd = disc(n + 1, c)
        tot = sum(1 for x in counts if len(x.split()) == n + 1 and x.split()[1:-1] == t[:-1])
    w = sum(follow(h, k) * d[n][k - 1] for k in (1, 2, 3)) / tot
    return max(c - dd, 0) / tot + w * p(' '.join(t[1:]), False)
for g in m.ngrams(4):
    assert abs(g.proba - p(g.text, True)) < 1e-9, (g.text, g.proba, p(g.text, True))
''')
seed('c07b', 'C07', [(R + 'langmodel/mkn_smoother.py', """        elif ngram.count == 4:
            n4[ngram.order] += 1
        # Wildcards""", """        else:
            n4[ngram.order] += 1
        # Wildcards""")],
     'counts of five or more', 'the discount of frequent n-grams is wrong and poor data is accepted', '''
from scrappybara.langmodel.ngram import Ngram
from scrappybara.langmodel.mkn_smoother import MKNSmoother, ModifiedKneserNeyNotEnoughDataError
gs = []
for t, c in (('a', 9), ('b', 5), ('a a', 1), ('a b', 2), ('b a', 3), ('b b', 5)):
    g = Ngram(t); g.count = c; gs.append(g)
try:
    MKNSmoother(gs, 2, 1)
except ModifiedKneserNeyNotEnoughDataError:
    pass
else:
    raise AssertionError('accepted')
''')
seed('c08a', 'C08', [(R + 'utils/mutables.py', "            result.append(items[int(ranges[i]):int(ranges[i + 1])])", "            result.append(items[int(ranges[i]):int(ranges[i] + len_list / nb_lists)])")],
     'a length and a number of parts whose marks do not add up exactly in floating point', 'an item between two parts is lost', '''
from scrappybara.utils.mutables import divide_list
for n in range(1, 400):
    for k in range(1, 40):
        assert sum(divide_list(list(range(n)), k), []) == list(range(n)), (n, k)
''')
seed('c08b', 'C08', [(R + 'utils/multithreading.py', "    for idx, _ in enumerate(items_lists):\n        nb_threads[idx].join()\n        output_items.extend(nb_threads[idx].output_items)", "    for thread in sorted(nb_threads, key=lambda t: t.is_alive()):\n        thread.join()\n        output_items.extend(thread.output_items)")],
     'an earlier thread is still running when a later one has finished', 'results come in another order', '''
import time
from scrappybara.utils.multithreading import run_multithreads
def f(x):
    if x == 0: time.sleep(0.5)
    return x
r = None
import scrappybara.utils.multithreading as m
real = m._Thread.start
def start(self):
    real(self); time.sleep(0.1)
m._Thread.start = start
assert run_multithreads([0, 1, 2], f, 3) == [0, 1, 2]
''')
seed('c09a', 'C09', [(R + 'langmodel/language_model.py', "        tprobas = {tuple(self.__logps(token_context)): idx for idx, token_context in enumerate(token_contexts)}\n        return tokens[tprobas[max(tprobas.keys())]]",
     "        tprobas = {tuple(self.__logps(token_context)[:2]): idx for idx, token_context in enumerate(token_contexts)}\n        return tokens[tprobas[max(tprobas.keys())]]")],
     'order three, candidates that differ in their unigram probability only', 'the last candidate wins although it is less probable or unknown', '''
import tempfile, pathlib
import scrappybara.config as cfg
d = tempfile.mkdtemp(); cfg.DATA_DIR = pathlib.Path(d); (cfg.DATA_DIR / 'langmodel').mkdir()
for n, s in ((1, 'a\\t5\\t0.5\\nb\\t4\\t0.1\\n'), (2, 'x y\\t1\\t0.2\\n'), (3, 'x y z\\t1\\t0.1\\n')):
    (cfg.DATA_DIR / 'langmodel' / ('%d_grams.txt' % n)).write_text(s)
from scrappybara.langmodel.language_model import LanguageModel
lm = LanguageModel(1, 1, 1)
r = lm.best_token('a', 'b', before='q r', after='s')
import shutil; shutil.rmtree(d)
assert r == 'a', r
''')
seed('c09b', 'C09', [(R + 'langmodel/language_model.py', "        for i in range(self.__max_order - 1, 0, -1):\n            try:", "        for i in range(min(self.__max_order, len(tokens)) - 1, 0, -1):\n            try:")],
     'a text with fewer words than the order of the model', 'no next word although the whole text is a known context', '''
import tempfile, pathlib
import scrappybara.config as cfg
d = tempfile.mkdtemp(); cfg.DATA_DIR = pathlib.Path(d); (cfg.DATA_DIR / 'langmodel').mkdir()
for n, s in ((1, 'a\\t5\\t0.5\\nb\\t4\\t0.1\\n'), (2, 'a b\\t1\\t0.2\\n')):
    (cfg.DATA_DIR / 'langmodel' / ('%d_grams.txt' % n)).write_text(s)
from scrappybara.langmodel.language_model import LanguageModel
r = LanguageModel(1, 1).next_word('a')
import shutil; shutil.rmtree(d)
assert r == [('b', 0.2)], r
''')
seed('c10a', 'C10', [(R + 'langmodel/language_model_builder.py', """                except StopIteration:
                    consumed = True
                    break
            with""", """                except StopIteration:
                    consumed = True
                    break
            if consumed and 0 < len(batch) < self.__nb_processes // 2:
                break
            with""")],
     'four or more workers and a last batch of fewer than half of them', 'the last texts are not counted', '''
import tempfile, pathlib, shutil
import scrappybara.config as cfg
d = tempfile.mkdtemp(); cfg.DATA_DIR = pathlib.Path(d); (cfg.DATA_DIR / 'langmodel').mkdir()
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
LanguageModelBuilder(1, smoothing='maximum_likelihood_estimation', nb_processes=4)(iter(['a', 'a', 'a', 'a', 'b']))
s = (cfg.DATA_DIR / 'langmodel' / '1_grams.txt').read_text()
shutil.rmtree(d)
assert 'b\\t1\\t' in s and 'a\\t4\\t' in s, s
''')
seed('c11a', 'C11', [(R + 'langmodel/token_context.py', "        return [' '.join(items) for items in self.__slide_window(tokens, order)]", "        return [' '.join(items) for items in self.__slide_window(tokens, order) if items.count(self.token) == tokens.count(self.token) or items.index(self.token) == 0 or items[-1] == self.token]")],
     'the token also occurs in its own context and order three or more', 'windows with the token in the middle are lost', '''
from scrappybara.langmodel.token_context import TokenContext
r = TokenContext('a', ['a', 'b', 'c'], ['d', 'e']).candidates(4)
assert r == ['a b c a', 'b c a d', 'c a d e'], r
''')
seed('c12a', 'C12', [(R + 'normalization/lemmatizer.py', "                return _lm_lemma(start[:-1], [start[-1], start[-1] + 'e', start[-1] + 'is'], Suffix.PLURAL)", "                return _lm_lemma(start[:-1], [start[-1], start[-1] + 'e', start[-1] + 'is', 'x'], Suffix.PLURAL)")],
     'a noun like "codes" whose stem with x is known to the model', 'a lemma that does not inflect to the word', LMSTUB + '''
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.syntax.tags import Tag
r = Lemmatizer(LM('fax'), set(), {}, {}, {}, {}, {}, {})('fades', Tag.NOUN)
assert r == ('fades', None), r
''')
seed('c12b', 'C12', [(R + 'normalization/lemmatizer.py', "            if word in self.__comparative_lemma:\n                return self.__comparative_lemma[word], Suffix.COMPARATIVE", "            if word in self.__comparative_lemma and word not in self.__adjs:\n                return self.__comparative_lemma[word], Suffix.COMPARATIVE")],
     'an irregular comparative that is also listed as an adjective', 'the irregular table does not take precedence', LMSTUB + '''
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.syntax.tags import Tag
r = Lemmatizer(LM(), {'further'}, {}, {}, {}, {'further': 'far'}, {}, {})('further', Tag.ADJ)
assert r[0] == 'far', r
''')
seed('c13a', 'C13', [(R + 'normalization/standardizer.py', "best_lemma = self.__lm.best_ngram(start + 'se', start + 'ce')\n                if best_lemma is not None:\n                    return best_lemma[:-1] + end", "best_lemma = self.__lm.best_ngram(start + 'se', start + 'ce', start + 'ze')\n                if best_lemma is not None:\n                    return best_lemma[:-1] + end")],
     'an unknown word in -ce/-se whose -ze variant the model knows', 'a spelling that is no listed variant', LMSTUB + '''
from scrappybara.normalization.standardizer import Standardizer
r = Standardizer(LM('bronze'))('bronse')
assert r == 'bronse', r
''')
seed('c13b', 'C13', [(R + 'normalization/standardizer.py', "            best_lemma = self.__lm.best_ngram(token.replace('oe', 'e'), token)", "            best_lemma = self.__lm.best_ngram(token.replace('o', '', 1), token)")],
     'an o before the oe', 'another letter is dropped', LMSTUB + '''
from scrappybara.normalization.standardizer import Standardizer
r = Standardizer(LM('homeopathy', 'hmoeopathy'))('homoeopathy')
assert r in ('homeopathy', 'homoeopathy') and r == 'homeopathy' or r == 'homoeopathy', r
r = Standardizer(LM('mnoeuvre', 'x'))('monoeuvre')
assert r == 'monoeuvre', r
''')
seed('c14a', 'C14', [(R + 'normalization/inflector.py', "                if lemma[-2] in CONSONANTS and lemma[-1] == 'y':", "                if lemma[-2] not in 'aeo' and lemma[-1] == 'y':")],
     'a lemma in uy or a hyphen before the y', 'buy-like lemmas get -ied', LMSTUB + '''
from scrappybara.normalization.inflector import Inflector
r = Inflector(LM(), {}).past_participle('guy')
assert r == 'guyed', r
''')
seed('c15a', 'C15', [(R + 'syntax/parser.py', """        if pdep == Dep.ROOT:
            return Dep.SPLIT  # ROOT cannot have any parent""", """        if pdep == Dep.ROOT and not self.arcs:
            return Dep.SPLIT  # ROOT cannot have any parent""")],
     'a predicted root attached after another arc', 'an attached word keeps the root label', '''
from scrappybara.syntax.parser import _Parse
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.transitions import Trans
p = _Parse(5, [0, 8, 14, 8, 0], [0, Dep.SUBJ.value, Dep.OBJ.value, Dep.ROOT.value, 0], None, None)
p.register_transition(Trans.RIGHT); p.register_transition(Trans.RIGHT)
assert [d for d, _, _ in p.arcs] == [Dep.OBJ, Dep.SPLIT], p.arcs
''')
seed('c15b', 'C15', [(R + 'syntax/parser.py', "        self.__stack.pop()\n        if not self.__stack:\n            self.__shift()", "        self.__stack.pop()\n        if len(self.__stack) < 1 and len(self.__buffer) > 1:\n            self.__shift()")],
     'the stack runs empty with one word left in the buffer', 'parsing fails on the next step', '''
from scrappybara.syntax.parser import _Parse
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.transitions import Trans
p = _Parse(4, [0, 8, 14, 0], [0, Dep.SUBJ.value, Dep.ROOT.value, 0], [], [])
p.register_transition(Trans.LEFT)
assert p.complete
''')
seed('c16a', 'C16', [(R + 'syntax/labelled_data.py', "        for _, child_idx in self.tree.children(token_idx):\n            if child_idx < max_idx:\n                return True", "        for _, child_idx in self.tree.children(token_idx)[:1]:\n            if child_idx < max_idx:\n                return True")],
     'a word with a right dependent registered before its far left one', 'the deduced transitions do not rebuild the tree', '''
from scrappybara.syntax.labelled_data import LabelledSentence
from scrappybara.syntax.transitions import Trans
s = LabelledSentence(0, [('a', 'NOUN', 'SUBJ', 3), ('b', 'NOUN', 'CPL', 0), ('c', 'NOUN', 'OBJ', 3), ('d', 'VERB', 'ROOT', -1)])
from scrappybara.syntax.parser import _Parse
def arcs(s):
    p = _Parse(len(s) + 2, [0] + [t.value for t in s.tags] + [0], [0] + [d.value for d in s.deps] + [0], None, None)
    for _, _, t in s.transitions:
        if not p.complete: p.register_transition(t)
    return sorted((b, c) for _, b, c in p.arcs)
s = LabelledSentence(0, [('a', 'NOUN', 'OBJ', 3), ('b', 'NOUN', 'CPL', 0), ('c', 'NOUN', 'SUBJ', 3), ('d', 'VERB', 'ROOT', -1), ('e', 'NOUN', 'SUBJ', 3)])
assert arcs(s) == [(0, 1), (3, 0), (3, 2), (3, 4)], arcs(s)
s = LabelledSentence(0, [('a', 'NOUN', 'OBJ', 2), ('b', 'NOUN', 'CPL', 0), ('d', 'VERB', 'ROOT', -1)])
import itertools
from scrappybara.utils.tree import Tree
for n in (3, 4, 5):
    for root in range(n):
        for heads in itertools.product(range(n), repeat=n):
            if heads[root] != root or any(h == i and i != root for i, h in enumerate(heads)): continue
            ok = True
            for i in range(n):
                x, k = i, 0
                while x != root and k <= n: x, k = heads[x], k + 1
                ok = ok and k <= n
            sp = [tuple(sorted((i, heads[i]))) for i in range(n) if i != root]
            ok = ok and not any(a < c < b < d for a, b in sp for c, d in sp) and not any(a < root < b for a, b in sp)
            if not ok: continue
            for lab in (['SUBJ'] * n, ['SUBJ', 'OBJ', 'SUBJ', 'OBJ', 'OBJ'][:n], ['OBJ', 'SUBJ', 'OBJ', 'SUBJ', 'OBJ'][:n]):
                s = LabelledSentence(0, [('w', 'NOUN', 'ROOT' if i == root else lab[i], -1 if i == root else heads[i]) for i in range(n)])
                assert arcs(s) == sorted((heads[i], i) for i in range(n) if i != root), (heads, arcs(s))
''')
seed('c17a', 'C17', [(R + 'syntax/parser.py', "            for batch in parse_batches:\n                self.__predict_transitions(batch)", "            for batch in parse_batches[-1:] + parse_batches[:-1] if len(incomplete_parses) < len(all_parses) else parse_batches:\n                self.__predict_transitions(batch if len(parse_batches) == 1 else sorted(batch, key=id))"),
     (R + 'syntax/parser.py', "        for idx, trans in enumerate(predictions):\n            parses[idx].register_transition(trans)", "        for trans, parse in zip(predictions, sorted(parses, key=lambda p: len(p.tags)) if len({len(p.tags) for p in parses}) == 3 else parses):\n            parse.register_transition(trans)")],
     'three different sentence lengths in one batch, not in ascending order', 'transitions go to another sentence', '''
import numpy as np
import scrappybara.syntax.parser as P
class M:
    def __init__(self, *a): pass
    def load(self): return self
class Tags(M):
    def predict(self, c, w): return [[8] * 52 for _ in c]
class Deps(M):
    def predict(self, t, c, w): return [[24] * 52 for _ in c]
class Trans(M):
    def predict(self, t, d, c, w, m1, m2): return [int(x[1][1]) % 2 for x in c]
P.PTagsModel, P.PDepsModel, P.TransModel = Tags, Deps, Trans
class CS(M):
    def __len__(self): return 3
    def __getitem__(self, ch): return ord(ch) % 100
class WS(M):
    def __getitem__(self, w): return np.zeros(100)
P.Charset, P.Wordset = CS, WS
sents = [['b'] * 4, ['c'] * 2, ['d'] * 3, ['e'] * 2]
def show(r): return [sorted((l, p, c) for l, p, c in t) if t else None for t in r[1]]
alone = [show(P.Parser(1, 8)([s]))[0] for s in sents]
assert show(P.Parser(1, 8)(sents)) == alone, (show(P.Parser(1, 8)(sents)), alone)
''')
seed('c18a', 'C18', [(R + 'syntax/training_samples.py', "        token = token[len(token) - cfg.MAX_WORD_LENGTH:]  # Truncate", "        token = token[len(token) % cfg.MAX_WORD_LENGTH:]  # Truncate")],
     'a word of twice the maximal length or more', 'the marks are cut off the row', '''
import numpy as np
from scrappybara.syntax.training_samples import vectorize_sentence
from scrappybara.syntax.charset import Charset
class WS:
    def __getitem__(self, w): return np.zeros(100)
cs = Charset().load()
n, c, w = vectorize_sentence(['x' * 10 + 'abcdefghij' * 4], cs, WS())
want = [cs[x] for x in '\\u2020' + 'abcdefghij' * 2 + '\\u2021']
assert list(c[1]) == want, list(c[1])
''')
seed('c18b', 'C18', [(R + 'syntax/labelled_data.py', """    random.shuffle(pdeps_samples)
    # Prepare tensors
    data_per_sample = [pdeps_sample.training_mats for pdeps_sample in pdeps_samples]
    return [list(data) for data in zip(*data_per_sample)]""", """    random.shuffle(pdeps_samples)
    # Prepare tensors
    data_per_sample = [pdeps_sample.training_mats for pdeps_sample in pdeps_samples]
    data = [list(data) for data in zip(*data_per_sample)]
    data[-1] = data[-1] if len({d.tobytes() for d in data[0]}) > 1 else sorted(data[-1], key=lambda d: d.tolist())
    return data""")],
     'samples with the same tags and other dependencies', 'labels no longer belong to their sentence', '''
import numpy as np, random
from scrappybara.syntax.labelled_data import extract_pdeps_training_data
class CS:
    def __getitem__(self, ch): return ord(ch) % 97
class WS:
    def __getitem__(self, w): return np.zeros(100)
data = [[(w, 'NOUN', 'ROOT', -1), ('b', 'NOUN', d, 0)] for w, d in zip('cdefgh', ('SUBJ', 'OBJ', 'AND', 'OR', 'CPL', 'PROP'))]
from scrappybara.syntax.dependencies import Dep
random.seed(3)
t, c, w, d = extract_pdeps_training_data(data, CS(), WS())
want = {ord(x) % 97: Dep[y].value for x, y in zip('cdefgh', ('SUBJ', 'OBJ', 'AND', 'OR', 'CPL', 'PROP'))}
for i in range(6):
    assert d[i][2] == want[c[i][1][1]]
''')
seed('c19a', 'C19', [(R + 'utils/tree.py', "                    if child != node:\n                        siblings.append((label, child))", "                    if child != node and (label, child) not in siblings and label != self.__parents[parent][0]:\n                        siblings.append((label, child))")],
     'siblings of a word whose parent has a parent', 'siblings are missing', '''
from scrappybara.utils.tree import Tree
t = Tree(0)
t.register_child('a', 0, 1); t.register_child('a', 1, 2); t.register_child('b', 1, 3)
assert t.siblings(3) == [('a', 2)], t.siblings(3)
t2 = Tree(0); t2.register_child('a', 0, 1); t2.register_child('b', 0, 2)
assert t2.siblings(1) == [('b', 2)]
''')
seed('c20a', 'C20', [(R + 'syntax/nodifier.py', "                for i in sorted(particle_idxs):", "                for i in particle_idxs if len(particle_idxs) > 2 else sorted(particle_idxs):"),
     (R + 'syntax/nodifier.py', "            for child_dep, child_idx in idx_tree.children(idx):\n                if child_dep == Dep.PART:", "            for child_dep, child_idx in reversed(idx_tree.children(idx)):\n                if child_dep == Dep.PART:")],
     'a verb with three particles', 'the particles come in the wrong order', '''
from scrappybara.syntax.nodifier import Nodifier
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree
t = Tree(0)
for i in (1, 2, 3): t.register_child(Dep.PART, 0, i)
d, _ = Nodifier()(['get', 'away', 'up', 'with'], [Tag.VERB] + [Tag.FRAG] * 3, t)
assert d[0].particles == ['away', 'up', 'with'], d[0].particles
''')
seed('c20b', 'C20', [(R + 'syntax/nodifier.py', "                     not node_tree.has_parent_via_set(node, FUNCTIONAL_DEPS)}", "                     not node_tree.has_parent_via_set(node, FUNCTIONAL_DEPS) or node_tree.children(node)}")],
     'a function word with a dependent', 'function words are kept as nodes', '''
from scrappybara.syntax.nodifier import Nodifier
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree
t = Tree(0)
t.register_child(Dep.AUX, 0, 1); t.register_child(Dep.CPL, 1, 2)
d, _ = Nodifier()(['go', 'may', 'well'], [Tag.VERB, Tag.MAT, Tag.ADV], t)
assert sorted(d) == [0, 2], sorted(d)
''')
seed('c21a', 'C21', [(R + 'semantics/semantic_tuple_extractor.py', "            is_aff = xnor(noun.is_aff, pp.is_aff, prop.is_aff)", "            is_aff = xnor(noun.is_aff, pp.is_aff) and prop.is_aff")],
     'two negations, one of them on the property', 'double negation does not cancel', LOGIC + '''
r = tuples(('man', 'NOUN', 'ROOT', -1), ('not', 'ADV', 'NEG', 2), ('called', 'ADJ', 'CPL', 0), ('not', 'ADV', 'NEG', 4), ('king', 'NOUN', 'PROP', 2))
assert 'NCN(man, be called, king)' in r, r
''')
seed('c22a', 'C22', [(R + 'semantics/semantic_tuple_extractor.py', "for iobj in [io for io in verb.iobjs if io.tag in NOUN_TAGS]:", "for iobj in [io for io in verb.iobjs if io.tag in PROP_TAGS]:")],
     'an adjective in the place of the recipient', 'an adjective is coded as a common noun', LOGIC + '''
r = tuples(('man', 'NOUN', 'SUBJ', 1), ('give', 'VERB', 'ROOT', -1), ('poor', 'ADJ', 'IOBJ', 1), ('cake', 'NOUN', 'OBJ', 1), known=('give', 'man', 'cake', 'poor'))
assert not any('poor' in t for t in r), r
''')
seed('c22b', 'C22', [(R + 'syntax/arg_finder.py', "    for s, p in [(s, p) for s in subj.aggreg for p in prop.aggreg if not tree.has_child_via_set(p, MARKER_DEPS)]:", "    for s, p in [(s, p) for s in subj.aggreg for p in prop.aggreg if not tree.has_child_via_set(p, MARKER_DEPS) and tree.parent(s)[1].tag == copula.tag]:")],
     'a relative clause with a copula whose antecedent is the root', 'processing fails', LOGIC + '''
r = tuples(('man', 'NOUN', 'ROOT', -1), ('who', 'PRON', 'SUBJ', 2), ('is', 'VERB', 'CPL', 0), ('sweet', 'ADJ', 'PROP', 2))
assert 'NCA(man, be, sweet)' in r, r
''')
seed('c23a', 'C23', [(R + 'syntax/arg_finder.py', "        v.subjs.extend(subj.aggreg)", "        v.subjs.extend([s for s in subj.aggreg if s not in subj.or_cconjs or not subj.and_cconjs])")],
     'a subject coordinated with both and and or', 'combinations are missing', LOGIC + '''
r = tuples(('man', 'NOUN', 'SUBJ', 3), ('king', 'NOUN', 'AND', 0), ('tom', 'PROPN', 'OR', 0), ('eat', 'VERB', 'ROOT', -1), ('cake', 'NOUN', 'OBJ', 3))
assert 'PTN(tom, eat, cake)' in r, r
''')
seed('c24a', 'C24', [(R + 'pipeline/pipeline.py', "            new_total = total_sents + len(token_lists)\n            sent_ranges.append((total_sents, new_total))", "            new_total = total_sents + len(token_lists)\n            sent_ranges.append((total_sents, new_total or None))")],
     'a text without sentences before a text with some', 'the first document holds the sentences of the other texts', '''
import scrappybara.pipeline.pipeline as P
from scrappybara.pipeline.logic_pipeline import LogicPipeline
P.LanguageModel = lambda *a: None
P.Parser = lambda *a: (lambda toks: ([[] for _ in toks], [None for _ in toks]))
pipe = P.Pipeline(sentencizer=lambda t: [[x] for x in t.split()], nb_cores=1)
docs = pipe(['', 'a b', 'c'])
assert [len(d.sentences) for d in docs] == [0, 2, 1], [len(d.sentences) for d in docs]
''')
seed('c25a', 'C25', [(R + 'pipeline/pipeline.py', "                    [list(group) for b, group in itertools.groupby(tokens, lambda x: x in self.__splitters) if not b])", "                    [list(group) for b, group in itertools.groupby(tokens, lambda x: x[:1] in self.__splitters) if not b])")],
     'a long sentence with a token that merely begins with a splitting mark ("-5", ":)")', 'tokens are lost', '''
import scrappybara.pipeline.pipeline as P
seen = []
P.LanguageModel = lambda *a: None
def parse(toks):
    seen.extend(toks); return [[] for _ in toks], [None for _ in toks]
P.Parser = lambda *a: parse
pipe = P.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=1)
pipe([' '.join(['a'] * 30 + ['-5'] + ['b'] * 10 + [';'] + ['c'] * 12)])
assert seen == [['a'] * 30 + ['-5'] + ['b'] * 10, ['c'] * 12], seen
''')
seed('c25b', 'C25', [(R + 'pipeline/pipeline.py', "        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]", "        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.PADDED_SENT_LENGTH]")],
     'a sentence of 51 or 52 words without splitting marks', 'a sentence above the limit reaches the parser', '''
import scrappybara.pipeline.pipeline as P
seen = []
P.LanguageModel = lambda *a: None
def parse(toks):
    seen.extend(toks); return [[] for _ in toks], [None for _ in toks]
P.Parser = lambda *a: parse
P.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=1)([' '.join(['a'] * 51)])
assert seen == [], [len(s) for s in seen]
''')
seed('c26a', 'C26', [(R + 'syntax/chunker.py', "    nouns.sort(key=lambda x: x.idx)", "    nouns.reverse()")],
     'a head with two compound nouns of its own', 'the words of the compound come in another order', '''
from scrappybara.syntax.chunker import Chunker
from scrappybara.syntax.node import Node
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree
a, b, c, d = [Node(i, w, Tag.NOUN) for i, w in enumerate(['plastic', 'lemon', 'squeezer', 'box'])]
t = Tree(d); t.register_child(Dep.CPL, d, a); t.register_child(Dep.CPL, d, c); t.register_child(Dep.CPL, c, b)
Chunker()([a, b, c, d], t)
assert d.chunk == 'plastic lemon squeezer box', d.chunk
''')
seed('c26b', 'C26', [(R + 'normalization/canonicalizer.py', "            if node.suffix == Suffix.PAST:\n                node.active_verb = _particle_compound(lemma, node)", "            if node.suffix == Suffix.PAST:\n                node.active_verb = lemma")],
     'a participle with a particle', 'the active verb lacks its particle', '''
from scrappybara.normalization.canonicalizer import Canonicalizer
from scrappybara.normalization.suffixes import Suffix
from scrappybara.syntax.node import Node
from scrappybara.syntax.tags import Tag
n = Node(0, 'called', Tag.ADJ); n.particles = ['off']
Canonicalizer(lambda w, t: ('call', Suffix.PAST))(n)
assert n.active_verb == 'call off', n.active_verb
''')
seed('c27a', 'C27', [(R + 'semantics/argument.py', "        strs.append(self.word)\n        return ' '.join(strs)", "        strs.append(self.word)\n        return ' '.join(strs).strip()")],
     'a word with blanks at its ends', 'the text of the argument differs from the word', '''
from scrappybara.semantics.argument import Argument
assert Argument(' a', 'N').flatten() == ' a'
''')
seed('c27b', 'C27', [(R + 'semantics/argument.py', "    __verb_codes = {ArgCode.INTR.value, ArgCode.REC.value, ArgCode.TRANS.value}", "    __verb_codes = {ArgCode.INTR.value, ArgCode.TRANS.value}")],
     'an argument with the code of a verb with recipient', 'reported as a noun', '''
from scrappybara.semantics.argument import Argument
assert Argument('give', 'R').tag == 'VERB'
''')
