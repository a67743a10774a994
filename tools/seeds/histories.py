"""Bugs that need an earlier call, another object or another thread"""
R = 'scrappybara/'
LMSTUB = '''
class LM:
    def __init__(self, *known): self.k = list(known)
    def has_ngram(self, g, min_count=1): return g in self.k
    def __contains__(self, g): return g in self.k
    def best_ngram(self, *gs):
        c = [g for g in self.k if g in gs]
        return c[0] if c else None
    def best_token(self, *gs, before=None, after=None): return self.best_ngram(*gs)
'''
LOGIC = LMSTUB + '''
from scrappybara.pipeline.logic_pipeline import LogicPipeline
KNOWN = ('eat', 'bake', 'want', 'sing', 'man', 'cake', 'apple', 'see', 'cook', 'call')
'''
# interrupts first() before each of its lines in the given module, runs second() in another thread, and goes on
INTERRUPT = '''
import sys, threading
def interrupted(first, second, ends):
    want1, want2, n = first(), second(), 0
    while True:
        n += 1
        seen, got2, got1, err = [0], [], [], []
        def other():
            try:
                got2.append(second())
            except Exception as e:
                err.append(e)
        def line(frame, event, arg):
            if event == 'line':
                seen[0] += 1
                if seen[0] == n:
                    threading.settrace(None)
                    t = threading.Thread(target=other); t.start(); t.join()
            return line
        def trace(frame, event, arg):
            return line if frame.f_code.co_filename.endswith(ends) else None
        def one():
            sys.settrace(trace)
            threading.settrace(trace)
            try:
                got1.append(first())
            except Exception as e:
                err.append(e)
            finally:
                sys.settrace(None)
                threading.settrace(None)
        t = threading.Thread(target=one); t.start(); t.join()
        assert not err, (n, err)
        assert got1 == [want1], (n, got1, want1)
        if seen[0] < n:
            return
        assert got2 == [want2], (n, got2, want2)
'''
seed('c12d', 'C12', [(R + 'normalization/lemmatizer.py', '        word = word.lower()\n\n        # FULL MATCH', '''        word = word.lower()
        if word not in self.__memo:
            self.__memo[word] = self.__lemmatize(word, tag)
        return self.__memo[word]

    def __lemmatize(self, word, tag):

        # FULL MATCH'''), (R + 'normalization/lemmatizer.py', '        self.__lm = language_model\n', '        self.__lm = language_model\n        self.__memo = {}\n')],
     'the same word before with another tag', 'the lemma of the word with the first tag is given', LMSTUB + '''
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.syntax.tags import Tag
l = Lemmatizer(LM('paint'), set(), {}, {}, {}, {}, {}, {})
assert l('painting', Tag.NOUN)[0] == 'painting'
assert l('painting', Tag.VERB)[0] == 'paint', l('painting', Tag.VERB)
''')
seed('c20c', 'C20', [(R + 'syntax/nodifier.py', 'def __call__(self, tokens, tags, idx_tree):', 'def __call__(self, tokens, tags, idx_tree, bl_idxs=set()):'),
                     (R + 'syntax/nodifier.py', "        bl_idxs = set()  # Black list of token indexes (flat, particles, NODEP)\n", "")],
     'a sentence with particles before another one', 'words of the second sentence get no node', '''
from scrappybara.syntax.nodifier import Nodifier
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree
n = Nodifier()
t = Tree(0); t.register_child(Dep.PART, 0, 1)
n(['get', 'up'], [Tag.VERB, Tag.FRAG], t)
t = Tree(0); t.register_child(Dep.OBJ, 0, 1)
d, _ = n(['eat', 'pie'], [Tag.VERB, Tag.NOUN], t)
assert sorted(d) == [0, 1], d
''')
seed('c24b', 'C24', [(R + 'preprocessing/sentencizer.py', '        quotes = []\n', '        quotes = self.__quotes\n        quotes.clear()\n'),
                     (R + 'preprocessing/sentencizer.py', '        self.__tokenize = tokenizer\n', '        self.__tokenize = tokenizer\n        self.__quotes = []\n')],
     'two threads splitting texts with quotations at the same time', 'a text gets the quotations of another one', INTERRUPT + '''
from scrappybara.preprocessing.sentencizer import Sentencizer
s = Sentencizer()
interrupted(lambda: s('He said "yes" now.'), lambda: s('We saw "the sea" there.'), 'sentencizer.py')
''')
seed('c24c', 'C24', [(R + 'syntax/nodifier.py', "        bl_idxs = set()  # Black list of token indexes (flat, particles, NODEP)\n", "        bl_idxs = self.__bl_idxs  # Black list of token indexes (flat, particles, NODEP)\n        bl_idxs.clear()\n"),
                     (R + 'syntax/nodifier.py', "class Nodifier(object):\n", "class Nodifier(object):\n\n    def __init__(self):\n        self.__bl_idxs = set()\n"),
                     (R + 'syntax/nodifier.py', "bl_idxs |= set([idx] + anc_branch)", "bl_idxs.update([idx] + anc_branch)"),
                     (R + 'syntax/nodifier.py', "bl_idxs |= set(particle_idxs)", "bl_idxs.update(particle_idxs)")],
     'two threads building nodes at the same time', 'words of a sentence get no node, or particles get one', INTERRUPT + LOGIC + '''
p = LogicPipeline(LM(*KNOWN))
def run(*rows): return lambda: sorted(str(t) for t in p.test_sample(list(rows)))
interrupted(run(('man', 'NOUN', 'SUBJ', 1), ('call', 'VERB', 'ROOT', -1), ('cake', 'NOUN', 'OBJ', 1)),
            run(('eat', 'VERB', 'ROOT', -1), ('up', 'FRAG', 'PART', 0), ('apple', 'NOUN', 'OBJ', 0)), 'nodifier.py')
''')
seed('c24d', 'C24', [(R + 'pipeline/pipeline.py', "        new_token_lists = []\n", "        new_token_lists = self.__new_token_lists = []\n"),
                     (R + 'pipeline/pipeline.py', "        return [tokens for tokens in new_token_lists if", "        return [tokens for tokens in self.__new_token_lists if")],
     'two texts split at the same time', 'a text gets the sentences of another one', INTERRUPT + '''
import scrappybara.pipeline.pipeline as P
P.LanguageModel = lambda *a: None
P.Parser = lambda *a: (lambda toks: ([[] for _ in toks], [None for _ in toks]))
pipe = P.Pipeline(sentencizer=lambda t: [[x] for x in t.split()], nb_cores=1)
interrupted(lambda: [len(d.sentences) for d in pipe(['a b c'])], lambda: [len(d.sentences) for d in pipe(['d'])], 'pipeline.py')
''')
seed('c17b', 'C17', [(R + 'syntax/training_samples.py', "    result = np.zeros(dim, dtype=np.int32)\n    array = np", "    result = _BUFFER[:dim]\n    result[:] = 0\n    array = np"),
                     (R + 'syntax/training_samples.py', "    result[:len(array)] = array\n    return result\n", "    result[:len(array)] = array\n    return result.copy()\n"),
                     (R + 'syntax/training_samples.py', "def _pad_array(", "_BUFFER = np.zeros(cfg.PADDED_SENT_LENGTH, dtype=np.int32)\n\n\ndef _pad_array(")],
     'two threads preparing sentences for the networks at the same time', 'the characters of a word are those of another sentence', INTERRUPT + '''
import numpy as np
from scrappybara.syntax.training_samples import vectorize_sentence
class CS:
    def __getitem__(self, ch): return ord(ch) % 97
class WS:
    def __getitem__(self, w): return np.zeros(4)
def run(*words): return lambda: [list(r) for r in vectorize_sentence(list(words), CS(), WS())[1][:4]]
import scrappybara.syntax.training_samples as T
T.cfg.PADDED_SENT_LENGTH, T.cfg.MAX_SENT_LENGTH = 6, 4
interrupted(run('a', 'cat'), run('queens'), 'training_samples.py')
''')
seed('c31c', 'C31', [(R + 'utils/files.py', 'def load_set_from_txt_file(*args):\n', '''_LOADED = {}


def load_set_from_txt_file(*args):
    """Files are read once"""
    if args[-1] not in _LOADED:
        _LOADED[args[-1]] = _load_set_from_txt_file(*args)
    return _LOADED[args[-1]]


def _load_set_from_txt_file(*args):
''')],
     'a file written again, or one of the same name in another folder', 'the old words are returned', '''
import tempfile, pathlib, shutil
import scrappybara.config as cfg
d = tempfile.mkdtemp(); cfg.DATA_DIR = pathlib.Path(d)
from scrappybara.utils.files import load_set_from_txt_file
(cfg.DATA_DIR / 'x.txt').write_text('a\\nb\\n')
assert load_set_from_txt_file('x.txt') == {'a', 'b'}
(cfg.DATA_DIR / 'x.txt').write_text('c\\n')
r = load_set_from_txt_file('x.txt')
shutil.rmtree(d)
assert r == {'c'}, r
''')
seed('c10b', 'C10', [(R + 'langmodel/language_model_builder.py', '        store = NgramStore()\n', '        store = self.__store\n'),
                     (R + 'langmodel/language_model_builder.py', '        self.__nb_processes = nb_processes\n', '        self.__nb_processes = nb_processes\n        self.__store = NgramStore()\n')],
     'one builder used for two corpora', 'the counts of the first corpus are in the second model', '''
import tempfile, pathlib, shutil
import scrappybara.config as cfg
d = tempfile.mkdtemp(); cfg.DATA_DIR = pathlib.Path(d); (cfg.DATA_DIR / 'langmodel').mkdir()
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
b = LanguageModelBuilder(1, smoothing='maximum_likelihood_estimation', nb_processes=1)
b(iter(['a b'])); b(iter(['a']))
s = (cfg.DATA_DIR / 'langmodel' / '1_grams.txt').read_text()
shutil.rmtree(d)
assert 'a\\t1\\t' in s and 'b' not in s, s
''')
seed('c09c', 'C09', [(R + 'langmodel/language_model.py', "        self.__ngrams_details = {}  # ngram => tuple (count, proba, logp)\n", ""),
                     (R + 'langmodel/language_model.py', "    def __init__(self, *min_counts):", "    __ngrams_details = {}  # ngram => tuple (count, proba, logp)\n\n    def __init__(self, *min_counts):")],
     'two models loaded one after the other', 'the second model knows the n-grams of the first', '''
import tempfile, pathlib, shutil
import scrappybara.config as cfg
d = tempfile.mkdtemp(); cfg.DATA_DIR = pathlib.Path(d); (cfg.DATA_DIR / 'langmodel').mkdir()
from scrappybara.langmodel.language_model import LanguageModel
(cfg.DATA_DIR / 'langmodel' / '1_grams.txt').write_text('a\\t1\\t0.5\\nb\\t9\\t0.5\\n')
one = LanguageModel(1)
two = LanguageModel(5)
shutil.rmtree(d)
assert 'a' in one and 'a' not in two
''')
seed('c19b', 'C19', [(R + 'utils/tree.py', "        self.__parents = {}  # Node => (label, node)\n", "        self.__parents = {}  # Node => (label, node)\n        self.__descendants = {}  # (node, label) => list_nodes\n"),
                     (R + 'utils/tree.py', "        _recurse_add_descendants(node)\n        return nodes\n", "        if (node, label) not in self.__descendants:\n            _recurse_add_descendants(node)\n            self.__descendants[node, label] = nodes\n        return self.__descendants[node, label]\n")],
     'descendants asked for, another word registered below them, asked for again', 'the word registered last is missing', '''
from scrappybara.utils.tree import Tree
t = Tree(0)
t.register_child('x', 0, 1)
assert list(t.descendants_via(0, 'x')) == [1]
t.register_child('x', 1, 2)
assert list(t.descendants_via(0, 'x')) == [1, 2], t.descendants_via(0, 'x')
''')
seed('c18c', 'C18', [(R + 'syntax/training_samples.py', "    result = (np.zeros((cfg.PADDED_SENT_LENGTH, len(matrix[0])), dtype=np.float32))\n", "    result = _word_matrix(len(matrix[0]))\n"),
                     (R + 'syntax/training_samples.py', "        result[idx] = array\n    return result\n", "        result[idx] = array\n    return result.copy()\n"),
                     (R + 'syntax/training_samples.py', "def _pad_word_vectors(", '''@lru_cache(maxsize=None)
def _word_matrix(dim):
    return np.zeros((cfg.PADDED_SENT_LENGTH, dim), dtype=np.float32)


def _pad_word_vectors('''), (R + 'syntax/training_samples.py', 'import numpy as np\n\nimport', 'from functools import lru_cache\n\nimport numpy as np\n\nimport')],
     'a sentence after a longer one', 'the padding of the shorter sentence has words of the longer one', '''
import numpy as np
from scrappybara.syntax.training_samples import vectorize_sentence
from scrappybara.syntax.charset import Charset
class WS:
    def __getitem__(self, w): return np.ones(100)
cs = Charset().load()
vectorize_sentence(['a'] * 9, cs, WS())
n, c, w = vectorize_sentence(['a'], cs, WS())
assert n == 3 and not w[3:].any()
''')
seed('c29d', 'C29', [(R + 'syntax/arg_finder.py', '        naked_cpls = set()\n', '        naked_cpls = self.__naked_cpls\n'), (R + 'syntax/arg_finder.py', '    __relative_pronouns =', '    __naked_cpls = set()\n    __relative_pronouns ='),
                     (R + 'syntax/arg_finder.py', 'naked_cpls.add(node)', 'naked_cpls.add(node.idx)'), (R + 'syntax/arg_finder.py', 'node in naked_cpls', 'node.idx in naked_cpls')],
     'a sentence with a bare relative clause before one with a clause at the same place', 'the second clause takes its object for its subject', LOGIC + '''
p = LogicPipeline(LM(*KNOWN))
a = [('man', 'NOUN', 'ROOT', -1), ('who', 'PRON', 'SUBJ', 2), ('sing', 'VERB', 'CPL', 0), ('apple', 'NOUN', 'OBJ', 2)]
b = [('cake', 'NOUN', 'ROOT', -1), ('man', 'NOUN', 'SUBJ', 2), ('eat', 'VERB', 'CPL', 0)]
run = lambda q, r: sorted(str(t) for t in q.test_sample(r))
rows = [a, b, [('cake', 'NOUN', 'ROOT', -1), ('man', 'NOUN', 'SUBJ', 2), ('see', 'VERB', 'CALLEE', 0)], [('cake', 'NOUN', 'ROOT', -1), ('if', 'CONJ', 'MARK', 3), ('man', 'NOUN', 'SUBJ', 3), ('eat', 'VERB', 'CPL', 0)]]
import subprocess, sys, os
if len(sys.argv) > 1:
    print(run(p, rows[int(sys.argv[1])])); sys.exit()
alone = [subprocess.run([sys.executable, sys.argv[0], str(i)], stdout=subprocess.PIPE, text=True).stdout.strip() for i in range(len(rows))]
for i in list(range(len(rows))) * 2 + list(range(len(rows)))[::-1]:
    assert str(run(p, rows[i])) == alone[i], (rows[i], alone[i])
''')
