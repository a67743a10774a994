R = 'scrappybara/'
LOGIC = '''
class LM:
    def __init__(self, *known): self.k = list(known)
    def has_ngram(self, g, min_count=1): return g in self.k
    def __contains__(self, g): return g in self.k
    def best_ngram(self, *gs):
        c = [g for g in self.k if g in gs]
        return c[0] if c else None
    def best_token(self, *gs, before=None, after=None): return self.best_ngram(*gs)
from scrappybara.pipeline.logic_pipeline import LogicPipeline
def tuples(*rows, known=('eat', 'bake', 'want', 'sing', 'man', 'cake', 'apple', 'see', 'cook', 'call')):
    return sorted(str(t) for t in LogicPipeline(LM(*known)).test_sample(list(rows)))
'''
seed('c29a', 'C29', [(R + 'syntax/arg_finder.py', "                        # Object of complement verb: e.g. \"the apple I ate\"\n                        _register_objs(node, parent, tree)\n", "                        # Object of complement verb: e.g. \"the apple I ate\"\n                        node.objs.append(parent)\n")],
     'a bare relative clause of coordinated nouns ("the apple or cake I ate")', 'the coordinated noun is no longer an object of the clause', LOGIC + '''
got = tuples(('apple', 'NOUN', 'ROOT', -1), ('cake', 'NOUN', 'OR', 0), ('I', 'PRON', 'SUBJ', 3), ('eat', 'VERB', 'CPL', 0))
assert 'OTN(i, eat, cake)' in got and 'OTN(i, eat, apple)' in got, got
''')
seed('c29b', 'C29', [(R + 'syntax/arg_finder.py', """    for p in prop.aggreg:
        noun.pps_props.append((pp, p))""", """    for p in prop.aggreg[:2]:
        noun.pps_props.append((pp, p))""")],
     'a noun named by three coordinated words', 'the third name is lost', LOGIC + """
got = tuples(('man', 'NOUN', 'ROOT', -1), ('named', 'ADJ', 'CPL', 0), ('Tom', 'PROPN', 'PROP', 1), ('Tim', 'PROPN', 'OR', 2), ('Jim', 'PROPN', 'OR', 2), known=('name', 'man'))
assert [x for x in got if 'jim' in x], got
""")
seed('c29c', 'C29', [(R + 'syntax/arg_finder.py', "if cmark is not None and parent.tag == Tag.ADJ and node.tag in NOUN_TAGS:", "if cmark is not None and not mark and parent.tag == Tag.ADJ and node.tag in NOUN_TAGS and not node.adjs:")],
     'a compared noun that has an adjective of its own before it', 'the compared noun loses the property', LOGIC + '''
got = tuples(('man', 'NOUN', 'SUBJ', 1), ('is', 'VERB', 'ROOT', -1), ('tall', 'ADJ', 'PROP', 1), ('as', 'ADV', 'CMARK', 5), ('old', 'ADJ', 'CPL', 5), ('tom', 'NOUN', 'CPL', 2))
assert 'NCA(tom, be, tall)' in got, got
''')
seed('c16a', 'C16', [(R + 'syntax/labelled_data.py', "            if parent_idx < max_idx:", "            if parent_idx and parent_idx < max_idx:")],
     'two right dependents of the very first word', 'the second arc cannot be built any more', '''
from scrappybara.syntax.labelled_data import LabelledSentence
t = LabelledSentence(0, [('Go', 'VERB', 'ROOT', -1), ('home', 'NOUN', 'OBJ', 0), ('now', 'ADV', 'CPL', 0)]).transitions
assert [x[2].name for x in t] == ['RIGHT', 'REDUCE', 'RIGHT'], t
''')
seed('c16b', 'C16', [(R + 'syntax/labelled_data.py', "            if Dep[token_tag_dep_pidx[2]] == Dep.ROOT:\n                root_idx = child_idx\n                break", "            if token_tag_dep_pidx[3] == -1 and token_tag_dep_pidx[1] != 'PUNCT':\n                root_idx = child_idx\n                break")],
     'a word without parent (not punctuation) before the root', 'the tree hangs from the wrong root', '''
from scrappybara.syntax.labelled_data import LabelledSentence
s = LabelledSentence(0, [('and', 'CONJ', 'NODEP', -1), ('go', 'VERB', 'ROOT', -1), ('home', 'NOUN', 'OBJ', 1)])
assert s.tree.root == 1
''')
