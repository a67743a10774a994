from scrappybara_verif_logic import pipeline, sentence

BUDGET = {'quick': 300, 'thorough': 600}
BOUNDS = '1 to 3 subjects (4 in thorough) and up to 12 with 3 of them free, 0 to 3 objects and up to 12, 1 to 3 verbs, every mix of and/or, second verb with or without own subject and object; verbs eat, cook, have, get, do'
ASSUMPTIONS = ['coordinated words depend on the first one']

PP = {'eat': 'eaten', 'cook': 'cooked', 'have': 'had', 'get': 'getted', 'do': 'done', 'see': 'seen', 'meet': 'met'}
SUBJECTS = ['man', 'tom', 'king', 'we'] + ['s%d' % i for i in range(12)]
OBJECTS = ['apple', 'pear', 'cake', 'box'] + ['o%d' % i for i in range(12)]
VERBS = ['eat', 'cook', 'see']

# subjects verbs objects, then what the second verb has of its own (s: subject, o: object, x: something else)
QUICK = ['1 1 0', '1 1 1', '2 1 0', '2 1 1', '1 1 2', '2 1 2', '3 1 1', '1 1 3', '2 1 3', '0 1 2', '3 1 3', '1 2 0', '1 2 1', '2 2 0', '2 2 1', '1 2 2', '0 2 1', '2 2 2', '1 3 1',
         '1 2 1 s', '2 2 1 s', '1 2 1 o', '2 2 2 o', '1 2 0 o', '1 2 1 so', '1 2 1 x', '2 2 1 x', '2 1 2 y', '1 2 1 y', '2 2 0 y', '1 1 1 have', '2 1 2 get', '2 1 0 do', '1 1 0 have', '2 2 1 have', '2 1 1 do']
THOROUGH = ['4 1 4', '3 2 3', '2 3 2', '4 1 1', '1 1 4', '3 3 1', '2 2 2 s', '3 2 2 o', '2 3 3']

# histories: sentences one after another through the same pipeline
HISTORY = ['2 1 2 >> 1 1 1', '1 1 1 >> 1 2 1', '1 2 1 s >> 1 2 0', '2 2 1 >> 0 1 2', '2 1 0 do >> 1 1 1 have']


# many
LONG = ['6 1 1', '1 1 6', '5 1 5', '12 1 1', '1 1 12', '5 2 4']


def cases(tier):
    return LONG + (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def run(ctx, case):
    spec = case.split()
    ns, nv, no = int(spec[0]), int(spec[1]), int(spec[2])
    own = spec[3] if len(spec) > 3 else ''
    verbs = list(VERBS[:nv])
    if own in ('have', 'get', 'do'):
        verbs[-1] = own
        own = ''
    conj = ['AND', 'OR']
    rows = []
    code = {}
    tags = {}
    for i in range(ns):
        w = SUBJECTS[i]
        tags[w] = 'NOUN' if i > 2 and ns > 4 else ctx.pick('tag_' + w, ['NOUN', 'PROPN'] if i else ['NOUN', 'PRON', 'NUM'])
        rows.append((w, w, tags[w], 'SUBJ' if i == 0 else 'AND' if 2 < i < ns - 1 else ctx.pick('conj_' + w, conj), verbs[0] if i == 0 else SUBJECTS[0]))
    rows.append((verbs[0], verbs[0], 'VERB', 'ROOT', None))
    for i in range(no):
        w = OBJECTS[i]
        tags[w] = ctx.pick('tag_' + w, ['NOUN', 'SYM']) if i == 0 else 'NOUN'
        rows.append((w, w, tags[w], 'OBJ' if i == 0 else 'AND' if 2 < i < no - 1 else ctx.pick('conj_' + w, conj), verbs[0] if i == 0 else OBJECTS[0]))
    for j in range(1, nv):
        if j == 1 and 's' in own:
            rows.append(('lemon', 'lemon', 'NOUN', 'SUBJ', verbs[1]))
            tags['lemon'] = 'NOUN'
        rows.append((verbs[j], verbs[j], 'VERB', ctx.pick('conj_' + verbs[j], conj), verbs[0]))
        if j == 1 and 'o' in own:
            rows.append(('squeezer', 'squeezer', 'NOUN', 'OBJ', verbs[1]))
            tags['squeezer'] = 'NOUN'
        if j == 1 and own == 'x':
            rows.append(('fast', 'fast', 'ADV', ctx.pick('own', ['CPL', 'AUX', 'MODAL', 'NEG', 'INTJ', 'CALLEE', 'MARK', 'ORPHAN']), verbs[1]))
    if own == 'y':
        rows.append(('fast', 'fast', 'ADV', ctx.pick('own', ['CPL', 'AUX', 'MODAL', 'NEG', 'INTJ', 'CALLEE', 'MARK', 'ORPHAN']), verbs[0]))
        own = ''
    got = [t.flatten(False) for t in pipeline(ctx).test_sample(sentence(rows))]
    code = {w: {'NOUN': 'N', 'PROPN': 'P', 'PRON': 'O', 'NUM': 'U', 'SYM': 'S'}[ctx.concrete(t)] for w, t in tags.items()}
    want = []
    for j, v in enumerate(verbs):
        subjs, objs = SUBJECTS[:ns], OBJECTS[:no]
        if j == 1 and 's' in own:
            subjs = ['lemon']
        if j == 1 and 'o' in own:
            objs = ['squeezer']
        elif j == 1 and own:
            objs = []  # a verb with words of its own does not share the object
        for o in objs:
            for s in subjs:
                want.append('%sT%s(%s, %s, %s)' % (code[s], code[o], s, v, o))
            if v not in ('have', 'get'):
                want.append('%sCL(%s, be, %s)' % (code[o], o, PP[v]))
        if not objs and v not in ('have', 'get', 'be', 'do'):
            for s in subjs:
                want.append('%sI(%s, %s)' % (code[s], s, v))
    ctx.observe('tuples', sorted(got))
    ctx.check(sorted(got) == sorted(want), 'tuples %s instead of %s' % (sorted(got), sorted(want)))
    if ns > 1 and no > 1:
        ctx.cover('product')


COVER = ['product']
