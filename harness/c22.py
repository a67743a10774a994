from scrappybara_verif_logic import pipeline

BUDGET = {'quick': 300, 'thorough': 850}
BOUNDS = ('trees of 1 and 2 words with every label and every tag, of 3 to 5 words with the labels and tags that matter for tuples (groups of 3 to 7 labels '
          'and 2 to 4 tags); every shape up to 3 words, the natural shape of the sentence above; fixed words including participles, pronouns, relative and reflexive pronouns and particles')
ASSUMPTIONS = ['the language model knows the base forms of the words used']

NOUNS = ('NOUN', 'PROPN', 'PRON', 'SYM', 'NUM')
# tokens of a case; lemma -> word of the sentence is one to one
W2 = ['man apple', 'baked cake', 'who eat', 'New York', 'to eat', 'has himself', 'not eat']
W3 = ['man eat apple', 'cake baked tom', 'man who sing', 'man hurt himself', 'to eat up', 'tom be king', 'lemon squeezer fall']
G3 = {'a': ['SUBJ', 'OBJ', 'CPL', 'PROP'], 'b': ['AND', 'SUBJ', 'NEG', 'MARK'], 'c': ['FLAT', 'PART', 'CMARK', 'EXIST'], 'd': ['IOBJ', 'OR', 'SUBJ', 'IPROP'],
      'A': ['SUBJ', 'OBJ', 'CPL', 'PROP', 'IPROP', 'IOBJ', 'EXIST', 'AND'], 'B': ['AND', 'SUBJ', 'NEG', 'MARK', 'CPL', 'FLAT', 'PART', 'CMARK'], 'e': ['SPLIT', 'ORPHAN', 'CALLEE', 'ART', 'IMARK', 'MODAL', 'INTJ']}
T3 = {'a': ['NOUN', 'VERB', 'ADJ'], 'b': ['PROPN', 'VERB', 'ADJ'], 'c': ['NUM', 'VERB', 'PREP'], 'd': ['SYM', 'VERB', 'PRON'], 'A': ['NOUN', 'PRON', 'VERB', 'ADJ', 'ADV'], 'B': ['PROPN', 'VERB', 'ADJ', 'NUM', 'FRAG'], 'e': ['NOUN', 'VERB', 'ADJ']}
# tokens, heads, labels, tags
W4 = ['man eat apple tom|1,-,1,2|SUBJ OBJ CPL|NOUN VERB ADJ', 'cake be baked tom|1,-,1,2|SUBJ PROP CPL|NOUN VERB ADJ', 'man want eat apple|1,-,1,2|SUBJ OBJ PROP|PRON VERB ADJ',
      'tom call man king|1,-,1,1|SUBJ OBJ IPROP|PROPN VERB ADJ', 'tom give man pear|1,-,1,1|SUBJ OBJ IOBJ|PROPN VERB ADV', 'man named tom pear|-,0,1,2|CPL PROP AND|NOUN ADJ VERB', 'man eat sing pear|1,-,1,1|AND SUBJ OBJ|NUM VERB ADJ',
      'cake baked by tom|-,0,3,1|MARK CPL PROP|NOUN ADJ PREP', 'man who eat apple|-,2,0,2|SUBJ CPL OBJ|NOUN PRON VERB', 'man want tom sing|1,-,3,1|SUBJ OBJ CPL|NOUN VERB ADJ',
      'tom be cold man|1,-,1,2|PROP CPL CMARK|NOUN VERB ADJ', 'tom give man cold|1,-,1,1|SUBJ OBJ IOBJ|NOUN VERB ADJ', 'man who be cold|-,2,0,2|SUBJ CPL PROP|PRON VERB ADJ',
      'man find himself cold|1,-,1,1|SUBJ OBJ PROP|PRON VERB ADJ', 'man that eat cold|-,2,0,2|OBJ CPL MARK|PRON VERB NOUN', 'man eat and sing|1,-,3,1|SUBJ CPL MARK|PRON VERB NOUN', 'pear man eat cold|-,2,0,2|SUBJ CPL OBJ|PRON VERB NOUN']
W5 = ['cake be baked by tom|1,-,1,4,2|SUBJ PROP CPL MARK|NOUN ADJ', 'man want to eat apple|1,-,3,1,3|SUBJ OBJ PART|NOUN VERB', 'tom man eat apple pear|2,0,-,2,3|SUBJ OBJ AND|NOUN VERB']

# histories: sentences one after another through the same pipeline
HISTORY = ['~~4 4 ' + W4[0] + ' >> 4 man named tom pear|-,0,1,2|CPL PROP AND|NOUN ADJ', '~~6 4 ' + W4[8] + ' >> 4 pear man eat cold|-,2,0,2|SUBJ CPL OBJ|NOUN VERB', '1 man >> 1 eat',
           '~~23 4 ' + W4[7] + ' >> 4 man eat sing pear|1,-,1,1|AND SUBJ OBJ|NOUN VERB', '~~15 4 ' + W4[8] + ' >> 4 man eat apple tom|1,-,1,2|SUBJ OBJ CPL|NOUN VERB',
           '~~3 4 ' + W4[2] + ' >> 4 man want eat apple|1,-,1,2|SUBJ OBJ|NOUN VERB']


def cases(tier):
    out = ['1 man', '1 eat'] + ['2 ' + w for w in (W2 if tier == 'thorough' else W2[1:5])]
    for k, w in enumerate(W3):
        out += ['3 %s|%s' % (w, g) for g in ('abcdeAB' if tier == 'thorough' else {0: 'abde', 1: 'a', 2: 'a', 3: 'a', 4: 'c', 5: 'd', 6: 'a'}[k])]
    out += ['4 ' + w for w in W4]
    if tier == 'thorough':
        out += ['5 ' + w for w in W5]
    return out + HISTORY


def run(ctx, case):
    k, _, text = case.partition(' ')
    text, _, mode = text.partition('|')
    tokens = text.split(' ')
    n = len(tokens)
    D = ctx.mod('syntax.dependencies').Dep
    T = ctx.mod('syntax.tags').Tag
    every = [d.name for d in D if d.name not in ('PAD', 'ROOT', 'NODEP')]
    alltags = [t.name for t in T if t.name != 'PAD']
    if n > 3:
        shape, every, alltags = mode.split('|')
        every, alltags = every.split(' '), alltags.split(' ')
        heads = {i: int(h) for i, h in enumerate(shape.split(',')) if h != '-'}
        root = [i for i in range(n) if i not in heads][0]
    else:
        if n == 3:
            every, alltags = G3[mode], T3[mode]
        root = ctx.concrete(ctx.pick('root', [0, 1] if n == 3 else list(range(n))))
        heads = {i: ctx.concrete(ctx.pick('head%d' % i, [h for h in range(n) if h != i])) for i in range(n) if i != root}
    for i in heads:
        x, c = i, 0
        while x in heads and c <= n:
            x = heads[x]
            c += 1
        ctx.assume(c <= n)
    # as the parser does, the root is a word of some arc
    ctx.assume(root in heads.values() or not any([h >= 0 for h in heads.values()]))
    tags = [ctx.pick('tag%d' % i, alltags) for i in range(n)]
    deps = [ctx.pick('dep%d' % i, every) if i != root else 'ROOT' for i in range(n)]
    rows = [(tokens[i], tags[i], deps[i], heads.get(i, -1)) for i in range(n)]
    stuples = list(pipeline(ctx).test_sample(rows))
    ctx.observe('tuples', [str(t) for t in stuples])
    lemmas = {'baked': ['baked', 'bake'], 'has': ['has', 'have'], 'named': ['named', 'name'], 'New': ['new'], 'York': ['york']}
    forms = {}
    for i, t in enumerate(tokens):
        for w in lemmas.get(t, [t]):
            forms[w] = i
    for st in stuples:
        check(ctx, st, forms, tokens, tags, deps)


def check(ctx, st, forms, tokens, tags, deps):
    code = st.code
    args = [a for a in st]
    kind = ''.join(['n' if c in 'NPOSU' else 'a' if c in 'AL' else c for c in code])
    ctx.check(kind in ('nI', 'nTn', 'nRn', 'nCn', 'nCa', 'nTnI', 'nTnTn', 'nTnCn', 'nTnCa'), 'undocumented form of tuple ' + code)
    ctx.check(len(args) == len(code), 'one code per argument')
    ctx.cover(kind)
    for k, a in enumerate(args):
        if k != 1:
            ctx.check(bool(a.is_affirmative), 'another argument than the verb is negated')
        parts = a.word.split(' ')
        where = [forms[p] for p in parts if p in forms]
        extra = [p for p in parts if p not in forms]
        if a.code == 'L':
            # a participle of the sentence's verb or a word of the sentence
            ctx.check(all([participle(p, forms) for p in extra]), 'a participle of no word of the sentence')
        elif a.code == 'C':
            ctx.check(all([p == 'be' or participle(p, forms) for p in extra]), 'a word that is not in the sentence')
        else:
            ctx.check(all([p in PRONOUNS and PRONOUNS[p] in forms for p in extra]) and len(parts) > 0, 'a word that is not in the sentence: ' + a.word)
        if a.code in LETTER and where:
            head = where[-1]
            ctx.check(ctx.any([ctx.eq(tags[head], LETTER[a.code]), a.code == 'N' and tokens[head] in ('apple', 'pear') and ctx.eq(tags[head], 'ADJ')]) if len(where) == 1 else True, 'code %s of a word with another tag' % a.code)
        if a.code in 'TIR' and len(where) == 1:
            # a verb, or the active verb of a participle
            ctx.check(ctx.any([ctx.eq(tags[where[0]], 'VERB'), ctx.eq(tags[where[0]], 'ADJ')]), 'verb code of a word that is no verb')
            if a.code in 'IR':
                ctx.check(ctx.eq(tags[where[0]], 'VERB'), 'verb code of a word that is no verb')
        if a.code == 'A' and len(where) == 1:
            ctx.check(ctx.any([ctx.eq(tags[where[0]], 'ADJ'), tokens[where[0]] == 'cold' and ctx.any([ctx.eq(tags[where[0]], t) for t in NOUNS]), ctx.eq(deps[where[0]], 'AND'), ctx.eq(deps[where[0]], 'OR')]), 'code of an adjective that is none')


LETTER = {'P': 'PROPN', 'O': 'PRON', 'U': 'NUM', 'S': 'SYM', 'N': 'NOUN'}
PARTICIPLES = {'given': 'give', 'eaten': 'eat', 'been': 'be', 'had': 'have'}


def participle(p, forms):
    return p in PARTICIPLES and PARTICIPLES[p] in forms or any([p == f + e or p == f[:-1] + 'ied' for f in forms for e in ('d', 'ed', f[-1] + 'ed')])


PRONOUNS = {'he': 'him'}
COVER = ['nI', 'nTn', 'nCn', 'nCa', 'nTnI', 'nRn']
