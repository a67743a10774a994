R = 'scrappybara/'
seed('c30a', 'C30', [(R + 'utils/text.py', "    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))\n\n\ndef has_only_lower", "    return token.isalpha() and token.isascii() or bool(re.match(r'[a-zA-Z]+$', token))\n\n\ndef has_only_lower")],
     'a token of letters that ends in a line break', 'it counts as having only letters', """
from scrappybara.utils.text import has_only_letters
assert not has_only_letters('abc' + chr(10)) and has_only_letters('abC') and not has_only_letters('')
""")
seed('c30b', 'C30', [(R + 'utils/text.py', "    args_str = ', '.join([str(arg) for arg in args if arg is not None])", "    args_str = ', '.join([str(arg) for arg in args if arg or arg == 0])")],
     'an empty argument next to others', 'empty arguments are left out as if they were absent', """
from scrappybara.utils.text import functionalize
assert functionalize('f', 'a', '', None, 0) == 'f(a, , 0)'
""")
seed('c31a', 'C31', [(R + 'syntax/charset.py', "self.__unk_code = max(self.__char_code.values()) + 1", "self.__unk_code = len(self.__char_code) - 1")],
     'a character without code', 'unknown characters share the code of the last supported one', """
import scrappybara.syntax.charset as m
store = {}
m.save_pkl_file = lambda o, *a: store.update({a: dict(o)})
m.load_pkl_file = lambda *a: store[a]
m.Charset().save()
cs = m.Charset().load()
codes = list(store.values())[0]
assert cs[chr(233)] not in codes.values()
""")
seed('c31b', 'C31', [(R + 'syntax/wordset.py', "                if language_model.has_ngram(word):\n                    word_vector[word]", "                if language_model.has_ngram(word) and len(wordvec) == cfg.WORD_VECTOR_SIZE and word[-1].isalnum():\n                    word_vector[word]")],
     'a known word that ends in a sign', 'its vector is not kept', """
import os, tempfile
import scrappybara.syntax.wordset as m
import scrappybara.config as cfg
store = {}
m.save_pkl_file = lambda o, *a: store.update({a: dict(o)})
m.load_pkl_file = lambda *a: store[a]
class LM:
    def has_ngram(self, g): return True
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, 'glove.6B.%dd.txt' % cfg.WORD_VECTOR_SIZE), 'w', encoding='utf-8') as f:
        for w in ('a', 'b-'):
            f.write(w + ' 0.5' * cfg.WORD_VECTOR_SIZE + chr(10))
    m.Wordset().save(d, LM())
assert m.Wordset().load()['B-'][3] == 0.5
""")
seed('c12c', 'C12', [(R + 'normalization/lemmatizer.py', "            start = token_start(word, 'ied', 2)", "            start = token_start(word, 'ied', 3)")],
     'a past form in -ied of a base of three letters', 'spied is not reduced to spy', """
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.syntax.tags import Tag
class LM:
    def has_ngram(self, g, min_count=1): return g == 'spy'
    def best_ngram(self, *g): return 'spy' if 'spy' in g else None
l, s = Lemmatizer(LM(), set(), {}, {}, {}, {}, {}, {})('spied', Tag.VERB)
assert l == 'spy', (l, s)
""")
