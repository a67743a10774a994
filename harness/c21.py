from scrappybara_verif_logic import pipeline, sentence, show

BUDGET = {'quick': 300, 'thorough': 600}
BOUNDS = 'one sentence per tuple form and per way of finding its words (30 sentence patterns), every subset of its words negated, tags of the nouns free'
ASSUMPTIONS = ['a word is negated when a negation depends on it']

HE = ('s', 'man', None, 'SUBJ', 'v')
# pattern: words, tuples as (code with n for the code of a noun, words, words whose negation counts, place of the verb);
# a tuple of words counts as one word negated when all of them are
P = {
    'sv': ([HE, ('v', 'sing', 'VERB', 'ROOT', None)], [('sI', 'man sing', ['s', 'v'], 1)]),
    'svo': ([HE, ('v', 'eat', 'VERB', 'ROOT', None), ('o', 'apple', None, 'OBJ', 'v')],
            [('sTo', 'man eat apple', ['s', 'v', 'o'], 1), ('oCL', 'apple be eaten', ['s', 'v', 'o'], 1)]),
    'vo': ([('v', 'eat', 'VERB', 'ROOT', None), ('o', 'apple', None, 'OBJ', 'v')], [('oCL', 'apple be eaten', ['v', 'o'], 1)]),
    'ssvo': ([HE, ('t', 'tom', 'PROPN', 'OR', 's'), ('v', 'eat', 'VERB', 'ROOT', None), ('o', 'apple', None, 'OBJ', 'v')],
             [('sTo', 'man eat apple', ['s', 'v', 'o'], 1), ('tTo', 'tom eat apple', ['t', 'v', 'o'], 1), ('oCL', 'apple be eaten', [('s', 't'), 'v', 'o'], 1)]),
    'svoo': ([HE, ('v', 'eat', 'VERB', 'ROOT', None), ('o', 'apple', None, 'OBJ', 'v'), ('p', 'pear', 'NOUN', 'AND', 'o')],
             [('sTo', 'man eat apple', ['s', 'v', 'o'], 1), ('sTp', 'man eat pear', ['s', 'v', 'p'], 1), ('oCL', 'apple be eaten', ['s', 'v', 'o'], 1),
              ('pCL', 'pear be eaten', ['s', 'v', 'p'], 1)]),
    'svv': ([HE, ('v', 'sing', 'VERB', 'ROOT', None), ('w', 'sleep', 'VERB', 'AND', 'v')],
            [('sI', 'man sing', ['s', 'v'], 1), ('sI', 'man sleep', ['s', 'w'], 1)]),
    'svio': ([HE, ('v', 'give', 'VERB', 'ROOT', None), ('i', 'tom', None, 'IOBJ', 'v'), ('o', 'apple', None, 'OBJ', 'v')],
             [('sTo', 'man give apple', ['s', 'v', 'o'], 1), ('sRi', 'man give tom', ['s', 'v', 'i'], 1), ('oCL', 'apple be given', ['s', 'v', 'o'], 1)]),
    'copula adj': ([HE, ('v', 'is', 'VERB', 'ROOT', None), ('p', 'tall', 'ADJ', 'PROP', 'v')], [('sCA', 'man be tall', ['s', 'v', 'p'], 1)]),
    'copula noun': ([HE, ('v', 'is', 'VERB', 'ROOT', None), ('p', 'king', None, 'PROP', 'v')], [('sCp', 'man be king', ['s', 'v', 'p'], 1)]),
    'passive': ([HE, ('v', 'was', 'VERB', 'ROOT', None), ('p', 'baked', 'ADJ', 'PROP', 'v')], [('sCL', 'man be baked', ['s', 'v', 'p'], 1)]),
    'passive by': ([HE, ('v', 'is', 'VERB', 'ROOT', None), ('p', 'baked', 'ADJ', 'PROP', 'v'), ('b', 'by', 'PREP', 'MARK', 'a'), ('a', 'tom', None, 'CPL', 'p')],
                   [('sCL', 'man be baked', ['s', 'v', 'p'], 1), ('aTs', 'tom bake man', ['s', 'v', 'p', 'a'], 1)]),
    'adj': ([('a', 'tall', 'ADJ', 'CPL', 's'), ('s', 'man', None, 'ROOT', None)], [('sCA', 'man be tall', ['a', 's'], 1)]),
    'adjs': ([('a', 'tall', 'ADJ', 'CPL', 's'), ('b', 'slim', 'ADJ', 'AND', 'a'), ('s', 'man', None, 'ROOT', None)],
             [('sCA', 'man be tall', ['a', 's'], 1), ('sCA', 'man be slim', ['b', 's'], 1)]),
    'pp by': ([('s', 'cake', None, 'ROOT', None), ('p', 'baked', 'ADJ', 'CPL', 's'), ('b', 'by', 'PREP', 'MARK', 'a'), ('a', 'tom', None, 'CPL', 'p')],
              [('sCL', 'cake be baked', ['s', 'p'], 1), ('aTs', 'tom bake cake', ['a', 'p', 's'], 1)]),
    'pp prop': ([('s', 'man', None, 'ROOT', None), ('p', 'named', 'ADJ', 'CPL', 's'), ('n', 'tom', None, 'PROP', 'p')],
                [('sCn', 'man be named tom', ['s', 'p', 'n'], 1), ('sCL', 'man be named', ['s', 'p'], 1)]),
    'iprop': ([HE, ('v', 'call', 'VERB', 'ROOT', None), ('o', 'tom', None, 'OBJ', 'v'), ('p', 'king', None, 'IPROP', 'v')],
              [('oCp', 'tom be called king', ['s', 'v', 'o', 'p'], 1)]),
    'iprop group': ([HE, ('t', 'sam', 'PROPN', 'OR', 's'), ('v', 'call', 'VERB', 'ROOT', None), ('o', 'tom', 'PROPN', 'OBJ', 'v'), ('p', 'king', None, 'IPROP', 'v')],
                    [('oCp', 'tom be called king', [('s', 't'), 'v', 'o', 'p'], 1)]),
    'iprop groups': ([('s', 'man', 'NOUN', 'SUBJ', 'v'), ('t', 'sam', 'PROPN', 'AND', 's'), ('v', 'call', 'VERB', 'ROOT', None), ('o', 'tom', 'PROPN', 'OBJ', 'v'), ('u', 'jim', 'PROPN', 'AND', 'o'), ('p', 'king', None, 'IPROP', 'v')],
                     [('oCp', 'tom be called king', [('s', 't'), 'v', 'o', 'p'], 1), ('uCp', 'jim be called king', [('s', 't'), 'v', 'u', 'p'], 1)]),
    'iprop reflexive': ([HE, ('v', 'call', 'VERB', 'ROOT', None), ('o', 'himself', 'PRON', 'OBJ', 'v'), ('p', 'king', None, 'IPROP', 'v')],
                        [('sCp', 'man be called king', ['s', 'v', 'p'], 1)]),
    'iprop relative': ([('s', 'man', None, 'ROOT', None), ('r', 'who', 'PRON', 'SUBJ', 'v'), ('v', 'call', 'VERB', 'CPL', 's'), ('o', 'tom', 'PROPN', 'OBJ', 'v'), ('p', 'king', None, 'IPROP', 'v')],
                       [('oCp', 'tom be called king', ['s', 'v', 'o', 'p'], 1)]),
    'iprop bare': ([('o', 'man', None, 'ROOT', None), ('s', 'tom', None, 'SUBJ', 'v'), ('v', 'call', 'VERB', 'CPL', 'o'), ('p', 'king', None, 'IPROP', 'v')],
                   [('oCp', 'man be called king', ['s', 'v', 'o', 'p'], 1)]),
    'iprop alone': ([('v', 'call', 'VERB', 'ROOT', None), ('o', 'tom', None, 'OBJ', 'v'), ('p', 'tall', 'ADJ', 'IPROP', 'v')],
                    [('oCA', 'tom be called tall', ['v', 'o', 'p'], 1)]),
    'quad': ([HE, ('v', 'want', 'VERB', 'ROOT', None), ('t', 'to', 'FRAG', 'PART', 'w'), ('w', 'sing', 'VERB', 'OBJ', 'v')],
             [('sTsI', 'man want man sing', ['s', 'v', 'w'], 1)]),
    'quad subj': ([HE, ('v', 'want', 'VERB', 'ROOT', None), ('x', 'tom', None, 'SUBJ', 'w'), ('t', 'to', 'FRAG', 'PART', 'w'), ('w', 'sing', 'VERB', 'OBJ', 'v')],
                  [('sTxI', 'man want tom sing', ['s', 'v', 'x', 'w'], 1)]),
    'quint': ([HE, ('v', 'want', 'VERB', 'ROOT', None), ('t', 'to', 'FRAG', 'PART', 'w'), ('w', 'eat', 'VERB', 'OBJ', 'v'), ('o', 'apple', None, 'OBJ', 'w')],
              [('sTsTo', 'man want man eat apple', ['s', 'v', 'w', 'o'], 1), ('oCL', 'apple be eaten', ['w', 'o'], 1)]),
    'quint subj': ([HE, ('v', 'want', 'VERB', 'ROOT', None), ('x', 'tom', None, 'SUBJ', 'w'), ('t', 'to', 'FRAG', 'PART', 'w'), ('w', 'eat', 'VERB', 'OBJ', 'v'),
                    ('o', 'apple', None, 'OBJ', 'w')],
                   [('sTxTo', 'man want tom eat apple', ['s', 'v', 'x', 'w', 'o'], 1), ('oCL', 'apple be eaten', ['x', 'w', 'o'], 1)]),
    'quint copula': ([HE, ('v', 'want', 'VERB', 'ROOT', None), ('t', 'to', 'FRAG', 'PART', 'w'), ('w', 'be', 'VERB', 'OBJ', 'v'), ('p', 'tall', 'ADJ', 'PROP', 'w')],
                     [('sTsCA', 'man want man be tall', ['s', 'v', 'w', 'p'], 1)]),
    'quint copula noun': ([HE, ('v', 'want', 'VERB', 'ROOT', None), ('t', 'to', 'FRAG', 'PART', 'w'), ('w', 'be', 'VERB', 'OBJ', 'v'), ('p', 'king', None, 'PROP', 'w')],
                          [('sTsCp', 'man want man be king', ['s', 'v', 'w', 'p'], 1)]),
    'relative': ([('s', 'man', None, 'ROOT', None), ('r', 'who', 'PRON', 'SUBJ', 'v'), ('v', 'eat', 'VERB', 'CPL', 's'), ('o', 'apple', None, 'OBJ', 'v')],
                 [('sTo', 'man eat apple', ['s', 'v', 'o'], 1), ('oCL', 'apple be eaten', ['s', 'v', 'o'], 1)]),
    'relative obj': ([('o', 'apple', None, 'ROOT', None), ('s', 'man', None, 'SUBJ', 'v'), ('v', 'eat', 'VERB', 'CPL', 'o')],
                     [('sTo', 'man eat apple', ['s', 'v', 'o'], 1), ('oCL', 'apple be eaten', ['s', 'v', 'o'], 1)]),
    'relative copula': ([('s', 'man', None, 'ROOT', None), ('r', 'who', 'PRON', 'SUBJ', 'v'), ('v', 'is', 'VERB', 'CPL', 's'), ('p', 'tall', 'ADJ', 'PROP', 'v')],
                        [('sCA', 'man be tall', ['s', 'v', 'p'], 1)]),
    'reflexive': ([HE, ('v', 'hurt', 'VERB', 'ROOT', None), ('o', 'himself', 'PRON', 'OBJ', 'v')],
                  [('sTs', 'man hurt man', ['s', 'v'], 1), ('sCL', 'man be hurt', ['s', 'v'], 1)]),
    'but': ([HE, ('v', 'eat', 'VERB', 'ROOT', None), ('b', 'but', 'CONJ', 'MARK', 'w'), ('w', 'sleep', 'VERB', 'CPL', 'v')],
            [('sI', 'man eat', ['s', 'v'], 1), ('sI', 'man sleep', ['s', 'w'], 1)]),
    'comparative': ([HE, ('v', 'is', 'VERB', 'ROOT', None), ('p', 'tall', 'ADJ', 'PROP', 'v'), ('m', 'as', 'ADV', 'CMARK', 'c'), ('c', 'tom', None, 'CPL', 'p')],
                    [('sCA', 'man be tall', ['s', 'v', 'p'], 1), ('cCA', 'tom be tall', ['p', 'c'], 1)]),
    'sssvo': ([HE, ('t', 'tom', 'PROPN', 'OR', 's'), ('u', 'sam', 'PROPN', 'AND', 's'), ('v', 'eat', 'VERB', 'ROOT', None), ('o', 'apple', 'PROPN', 'OBJ', 'v')],
              [('sTo', 'man eat apple', ['s', 'v', 'o'], 1), ('tTo', 'tom eat apple', ['t', 'v', 'o'], 1), ('uTo', 'sam eat apple', ['u', 'v', 'o'], 1), ('oCL', 'apple be eaten', [('s', 't', 'u'), 'v', 'o'], 1)]),
    'ssvoo': ([HE, ('t', 'tom', 'PROPN', 'OR', 's'), ('v', 'eat', 'VERB', 'ROOT', None), ('o', 'apple', 'PROPN', 'OBJ', 'v'), ('u', 'pear', 'PROPN', 'AND', 'o')],
              [('sTo', 'man eat apple', ['s', 'v', 'o'], 1), ('tTo', 'tom eat apple', ['t', 'v', 'o'], 1), ('sTu', 'man eat pear', ['s', 'v', 'u'], 1), ('tTu', 'tom eat pear', ['t', 'v', 'u'], 1),
               ('oCL', 'apple be eaten', [('s', 't'), 'v', 'o'], 1), ('uCL', 'pear be eaten', [('s', 't'), 'v', 'u'], 1)]),
    'same word': ([HE, ('v', 'see', 'VERB', 'ROOT', None), ('o', 'man', None, 'OBJ', 'v')],
                  [('sTo', 'man see man', ['s', 'v', 'o'], 1), ('oCL', 'man be seen', ['s', 'v', 'o'], 1)]),
    'same subject': ([HE, ('t', 'man', 'PROPN', 'OR', 's'), ('v', 'sing', 'VERB', 'ROOT', None)], [('sI', 'man sing', ['s', 'v'], 1), ('tI', 'man sing', ['t', 'v'], 1)]),
    'same verb': ([HE, ('v', 'sing', 'VERB', 'ROOT', None), ('w', 'sing', 'VERB', 'AND', 'v')], [('sI', 'man sing', ['s', 'v'], 1), ('sI', 'man sing', ['s', 'w'], 1)]),
    'same adjs': ([('a', 'tall', 'ADJ', 'CPL', 's'), ('b', 'tall', 'ADJ', 'AND', 'a'), ('s', 'man', None, 'ROOT', None)],
                  [('sCA', 'man be tall', ['a', 's'], 1), ('sCA', 'man be tall', ['b', 's'], 1)]),
    'same clause': ([HE, ('v', 'want', 'VERB', 'ROOT', None), ('x', 'man', None, 'SUBJ', 'w'), ('t', 'to', 'FRAG', 'PART', 'w'), ('w', 'want', 'VERB', 'OBJ', 'v')],
                    [('sTxI', 'man want man want', ['s', 'v', 'x', 'w'], 1)]),
    'properties': ([HE, ('t', 'tom', 'PROPN', 'AND', 's'), ('v', 'is', 'VERB', 'ROOT', None), ('p', 'tall', 'ADJ', 'PROP', 'v'), ('q', 'slim', 'ADJ', 'OR', 'p')],
                   [('sCA', 'man be tall', ['s', 'v', 'p'], 1), ('tCA', 'tom be tall', ['t', 'v', 'p'], 1), ('sCA', 'man be slim', ['s', 'v', 'q'], 1), ('tCA', 'tom be slim', ['t', 'v', 'q'], 1)]),
    'agents': ([('s', 'cake', None, 'ROOT', None), ('p', 'baked', 'ADJ', 'CPL', 's'), ('b', 'by', 'PREP', 'MARK', 'a'), ('a', 'tom', None, 'CPL', 'p'), ('c', 'sam', 'PROPN', 'OR', 'a')],
               [('sCL', 'cake be baked', ['s', 'p'], 1), ('aTs', 'tom bake cake', ['a', 'p', 's'], 1), ('cTs', 'sam bake cake', ['c', 'p', 's'], 1)]),
    'recipients': ([HE, ('v', 'give', 'VERB', 'ROOT', None), ('i', 'tom', None, 'IOBJ', 'v'), ('j', 'sam', 'PROPN', 'AND', 'i')],
                   [('sI', 'man give', ['s', 'v'], 1), ('sRi', 'man give tom', ['s', 'v', 'i'], 1), ('sRj', 'man give sam', ['s', 'v', 'j'], 1)]),
    'particle': ([HE, ('v', 'eat', 'VERB', 'ROOT', None), ('u', 'up', 'FRAG', 'PART', 'v'), ('o', 'apple', None, 'OBJ', 'v')],
                 [('sTo', 'man eat up|apple', ['s', 'v', 'o'], 1), ('oCL', 'apple|be|eaten up', ['s', 'v', 'o'], 1)]),
}
FUNCTION = ('MARK', 'CMARK', 'PART')
CODES = {'NOUN': 'N', 'PROPN': 'P', 'PRON': 'O', 'NUM': 'U', 'SYM': 'S'}

# histories: sentences one after another through the same pipeline
HISTORY = ['~1 svo >> sv', '~1 sv >> svo', '~1 ssvo >> copula adj', '~1 passive by >> svo', '~1 relative >> sv', '~1 quad >> sv', '~1 adjs >> adj', '~1 reflexive >> vo', '~1 but >> vo', '~1 particle >> vo', '~0 svo >> ~1 svo >> sv', 'sv >> ~0 svo']


def cases(tier):
    return list(P) + HISTORY


def words_of(case, text, code):
    if '|' in text:
        return {'man eat up|apple': ['man', 'eat up', 'apple'], 'apple|be|eaten up': ['apple', 'be', 'eaten up']}[text]
    out = text.split(' ')
    k = out.index('be') if 'be' in out else None
    if len(out) > len(code):
        out = out[:k] + ['be ' + out[k + 1]] + out[k + 2:]
    return out


def run(ctx, case):
    words, tuples = P[case]
    rows = []
    tags, marks = {}, {}
    for key, token, tag, dep, head in words:
        if tag is None:
            tag = ctx.pick('tag_' + key, ['NOUN', 'PROPN'] if tags else ['NOUN', 'PRON', 'SYM', 'NUM', 'PROPN'])
            tags[key] = tag
        elif tag == 'PROPN':
            tags[key] = tag
        rows.append((key, token, tag, dep, head))
        if dep not in FUNCTION and key != 'r':
            # the word next to it negates it or not
            marks[key] = ctx.pick('neg_' + key, ['INTJ', 'NEG'])
            rows.append(('not ' + key, 'not', 'ADV', marks[key], key))
    got = [str(t) for t in pipeline(ctx).test_sample(sentence(rows))]
    code = {k: CODES[ctx.concrete(t)] for k, t in tags.items()}
    code['p'] = code.get('p', 'N')
    neg = [k for k in marks if marks[k] == 'NEG']
    want = []
    for c, text, parts, verb in tuples:
        odd = 0
        for p in parts:
            odd += (all([k in neg for k in p]) if isinstance(p, tuple) else p in neg)
        text_words = words_of(case, text, c)
        want.append(show(''.join([code[x] if x.islower() else x for x in c]), text_words, verb, odd % 2 == 1))
        if odd == 2:
            ctx.cover('double negation')
    ctx.observe('tuples', sorted(got))
    ctx.check(sorted(got) == sorted(want), 'tuples %s instead of %s' % (sorted(got), sorted(want)))


COVER = ['double negation']
