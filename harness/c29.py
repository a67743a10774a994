from scrappybara_verif_logic import pipeline
from scrappybara_verif_rules import Reading

BUDGET = {'quick': 300, 'thorough': 800}
BOUNDS = ('sentences of up to 8 words after patterns for relative clauses, reflexive pronouns, shared subjects, agents, comparisons, properties and clauses as objects; in each of them the tags, '
          'labels and words named in the pattern are free, and optional words are there or not')
ASSUMPTIONS = ['the language model knows the base forms of the words used', 'one subject, object and property arc per verb, other words coordinated with them']

MK = 'MARK/CMARK/IMARK/INTJ'
NT = 'NOUN/PROPN/PRON/NUM/SYM'
# key, words, tags, labels, head; "-": the word may be missing
P = {
    'relative subject': 'x man %s/ADJ ROOT -; y -/tom NOUN AND x; r who/which/that/what PRON/NOUN/ADJ SUBJ v; v eat VERB CPL/CALLEE x; o -/apple NOUN OBJ v; m -/if CONJ %s v' % (NT, MK),
    'relative object': 'x man NOUN/PROPN/ADV ROOT -; y -/tom NOUN OR x; r who/which/that/what PRON/DET OBJ v; s king NOUN/ADV SUBJ v; v see VERB CPL/ORPHAN x; m -/if CONJ %s v' % MK,
    'relative words': 'x man NOUN ROOT -; r who/which/that/whom/what/this/it PRON/NOUN SUBJ/OBJ v; v see VERB CPL x; o -/apple NOUN OBJ/IOBJ v',
    'relative bare': 'x man NOUN/ADJ/SYM ROOT -; y -/tom NOUN AND x; s king/that/we NOUN/PRON/ADJ SUBJ v; v eat VERB CPL/CALLEE x; w -/sing VERB AND v; o -/pear NOUN OBJ/IOBJ v; m -/if CONJ %s v' % MK,
    'relative inside': 'u see VERB ROOT -; x man NOUN/PROPN OBJ/SUBJ u; r who/what PRON SUBJ v; v eat VERB CPL x; w -/sing VERB OR v; o -/apple NOUN OBJ v',
    'relative copula': 'x man NOUN/ADV ROOT -; y -/tom NOUN AND x; r who/that/he PRON/NOUN SUBJ v; v is VERB CPL/CALLEE x; p tall/king ADJ/NOUN/ADV PROP v; m -/if CONJ %s v/p' % MK,
    'copula': 's man %s/ADV SUBJ v; v is VERB ROOT -; p tall/baked ADJ/PRON/ADV PROP v; q -/slim ADJ/NOUN/ADV OR p; m -/like PREP MARK/IMARK/INTJ p/q' % NT,
    'copula group': 's man NOUN/ADV SUBJ v; t -/tom NOUN/ADV AND s; v is/make VERB/NOUN ROOT -; p tall ADJ/PRON PROP v; q -/king NOUN/ADV OR p; m -/like PREP CMARK p/q',
    'copula object': 's man NOUN SUBJ v; v is/make VERB ROOT -; p tall ADJ PROP/IPROP/EXIST v; o -/cake NOUN OBJ/IOBJ v; x -/tom NOUN SUBJ/OBJ p',
    'reflexive object': 's -/man %s SUBJ v; v hurt/is VERB ROOT -; o himself/itself/me/them/him PRON/NOUN OBJ/IOBJ v; e -/tall ADJ PROP v' % NT,
    'reflexive pronouns': 's man NOUN SUBJ v; v see VERB ROOT -; o myself/yourself/yourselves/himself/herself/itself/ourself/ourselves/theirself/themselves/oneself/itself/itselves PRON OBJ v',
    'reflexive group': 's man NOUN SUBJ v; t -/tom NOUN/ADV AND/OR s; v see VERB ROOT -; o themselves/them PRON OBJ v; w -/eat VERB AND v',
    'reflexive relative': 'x man NOUN/ADV ROOT -; y -/tom NOUN AND x; r who/he PRON SUBJ v; v see VERB CPL x; o himself PRON OBJ v',
    'relative shared': 'x man NOUN/ADJ ROOT -; y -/tom NOUN AND x; r who/he PRON SUBJ v; v see VERB CPL x; b -/but CONJ MARK/IMARK w; w sing VERB CPL/OBJ v; s -/themselves PRON SUBJ/OBJ w; m -/if CONJ MARK v',
    'reflexive subject': 's -/man NOUN/PRON SUBJ v; t -/tom NOUN AND s; v see VERB/NOUN ROOT -; r themselves/ourselves/them PRON/NOUN SUBJ w; w sing/eat VERB OBJ/CPL v; o -/apple NOUN OBJ w',
    'shared subject': 's -/man NOUN/ADJ SUBJ v; t -/tom NOUN OR s; v eat VERB/NOUN ROOT -; b -/but CONJ %s w; w sing VERB/NOUN CPL/CALLEE v; x -/we PRON SUBJ/OBJ w; z -/sleep VERB AND w' % MK,
    'agent': 's man NOUN/PRON SUBJ v; v is VERB ROOT -; p baked/tall ADJ/NOUN PROP/CPL/OBJ v; b by/with PREP MARK/IMARK a; a tom %s/ADV CPL/OBJ p; c -/king NOUN/ADJ AND a' % NT,
    'agent of a noun': 'x cake NOUN/PRON/ADV ROOT -; y -/we PRON AND x; p baked/tall ADJ/NOUN CPL/OBJ x; q -/made/slim ADJ AND p; b by/near PREP MARK/CMARK/IMARK a; a tom PROPN/NUM/ADV CPL p',
    'adjectives': 'x man %s/ADV ROOT -; p tall/baked ADJ/ADV/NUM CPL/OBJ x; q -/slim ADJ/NOUN/ADV OR p; m -/like PREP %s p' % (NT, MK),
    'named': 'x man NOUN/PRON/ADV ROOT -; p named/tall ADJ/NOUN CPL/OBJ x; n tom %s/ADJ/ADV PROP/OBJ p; k -/king NOUN/ADV AND n; m -/like PREP MARK/CMARK/IMARK p' % NT,
    'comparison': 's -/man NOUN SUBJ v; v is VERB ROOT -; p tall/baked ADJ/NOUN PROP/OBJ v; q -/slim ADJ AND p; m as ADV %s c; c tom %s/ADV CPL/OBJ p' % (MK, NT),
    'named by': 's -/man NOUN SUBJ v; v call VERB/NOUN ROOT -; o -/tom %s/ADV OBJ/IOBJ v; y -/we PRON AND o; p king/tall NOUN/ADJ/ADV IPROP/PROP v; q -/slim ADJ OR p' % NT,
    'recipient': 's man NOUN/PRON/ADJ SUBJ v; v give/has VERB ROOT -; i tom %s/ADJ IOBJ/OBJ v; k -/king NOUN/ADV AND i; o -/cake NOUN/ADJ OBJ v' % NT,
    'clause': 's man NOUN/PRON/ADV SUBJ v; t -/tom NOUN AND s; v want VERB ROOT -; x -/king NOUN/PRON/ADV SUBJ w; y -/we PRON OR x; i -/to FRAG PART w; w sing/eat/is/has VERB/NOUN OBJ/CPL v; o -/cake NOUN/ADV OBJ w',
    'clause copula': 's man NOUN/ADJ SUBJ v; v want VERB ROOT -; x -/king NOUN/ADV SUBJ w; w is/make VERB OBJ v; p tall/baked ADJ/PRON/ADV PROP/EXIST/IPROP w; q -/slim ADJ/NOUN AND p; o -/cake NOUN OBJ w',
    'clause chain': 's -/man NOUN SUBJ u; u want VERB ROOT -; x -/tom NOUN SUBJ v; v see VERB OBJ u; y -/king NOUN SUBJ w; w sing/eat VERB OBJ v; o -/cake NOUN OBJ w; i -/to FRAG PART v/w',
    'clauses': 's man NOUN SUBJ v; v want/has VERB ROOT -; i -/to FRAG PART w; w sing/eat VERB OBJ v; z -/sleep/see VERB AND w; o -/cake NOUN OBJ w/z; x -/we PRON SUBJ w/z',
    'infinitive': 's -/man NOUN SUBJ v; i -/to FRAG/PREP PART/MARK v; v eat/has/is/gets/does VERB ROOT -; o -/cake NOUN/ADJ/ADV OBJ v; j -/tom NOUN IOBJ v; e -/king NOUN EXIST v',
    'verbs': 's -/man NOUN SUBJ v; v eat VERB ROOT -; o -/cake NOUN OBJ v; w sing/has/is/does VERB AND/OR v; z -/see VERB AND v; x -/we/apple PRON SUBJ/OBJ/IOBJ/INTJ w/z',
    'own words': 's -/man NOUN SUBJ v; v eat VERB ROOT -; o cake NOUN OBJ v; w sing/has VERB AND/OR v; k -/so ADV ART/AUX/CALLEE/CMARK/CPL/EXIST/IMARK/INTJ/IOBJ/IPROP/MARK/MODAL/NEG/ORPHAN/PROP w/v; x -/we PRON SUBJ w',
    'own words relative': 'x man NOUN ROOT -; r who/king PRON/NOUN SUBJ v; v see VERB CPL x; w sing VERB AND v; k -/so ADV ART/AUX/CALLEE/CPL/INTJ/IOBJ/MODAL/NEG/ORPHAN w/v/x; o -/cake NOUN OBJ v',
    'lists own words': 's man NOUN SUBJ v; v is VERB ROOT -; p cold/apple NOUN/ADJ PROP/IPROP v; k -/so ADV ART/AUX/CALLEE/CMARK/CPL/EXIST/IMARK/INTJ/IOBJ/MARK/MODAL/NEG/ORPHAN p',
    'lists': 's man/sweet NOUN/ADJ SUBJ/CPL v; v is VERB/NOUN ROOT -; p cold/apple/tall NOUN/ADJ/PRON PROP/IPROP/CPL/OBJ v; k -/so ADV CPL/INTJ p',
    'named by relative': 'x man NOUN/ADV ROOT -; y -/tom NOUN AND x; r that/him PRON/NOUN OBJ/SUBJ v; s king NOUN SUBJ/OBJ v; v call VERB CPL/CALLEE x; p tall/apple ADJ/NOUN/ADV IPROP v; m -/if CONJ %s v' % MK,
    'named by bare': 'x man NOUN/ADV ROOT -; y -/tom NOUN AND x; s -/king/that NOUN/PRON SUBJ v; t -/we PRON OR s; v call VERB CPL/CALLEE x; o -/cake NOUN OBJ/IOBJ v; p tall/apple ADJ/NOUN IPROP v; m -/if CONJ %s v' % MK,
    'named by oneself': 's -/man NOUN/PRON SUBJ v; t -/tom NOUN AND s; v call VERB ROOT -; o himself/him PRON OBJ/IOBJ v; y -/we PRON AND o; p king/tall NOUN/ADJ IPROP v; w -/sing VERB AND v',
    'particles named by': 's man NOUN SUBJ v; v call VERB ROOT -; u -/up/out FRAG/ADV PART v; w -/off FRAG PART v; o -/tom PROPN OBJ v; p -/king/tall NOUN/ADJ IPROP v',
    'particles agent': 'x cake NOUN ROOT -; p baked/tall ADJ CPL x; u -/out/up FRAG PART p; w -/off FRAG PART p; b by PREP MARK a; a -/tom PROPN CPL p',
    'particles copula': 's man NOUN SUBJ v; v is VERB ROOT -; p baked/tall ADJ PROP v; u -/out FRAG/ADV PART p; w -/up FRAG PART v; b by PREP MARK a; a -/tom PROPN CPL p',
    'particles named': 'x man NOUN ROOT -; p named/tall ADJ CPL x; u -/out/up FRAG PART p; n -/tom PROPN PROP p; w -/off FRAG PART n',
    'particles clause': 's man NOUN SUBJ v; v want VERB ROOT -; t -/out/off FRAG PART v; w sing/eat VERB OBJ v; u -/up/out FRAG PART w; o -/cake NOUN OBJ w; p -/off FRAG PART w; x -/king NOUN SUBJ w',
    'particles verbs': 's -/man NOUN SUBJ v; v eat/has VERB ROOT -; u -/up FRAG PART v; o -/cake NOUN OBJ v; w -/sing VERB AND v; t -/out/off FRAG PART w/v; i -/tom NOUN IOBJ v',
    'clause and property': 's man NOUN SUBJ v; v is/make VERB ROOT -; w sing/eat VERB OBJ v; x -/king NOUN SUBJ w; o -/cake NOUN OBJ w; p -/tall/king ADJ/NOUN PROP/IPROP/EXIST v; d -/pie NOUN EXIST/IOBJ w/v',
    'same nouns': 's man NOUN SUBJ v; t -/man NOUN AND s; v see VERB ROOT -; o man/himself NOUN/PRON OBJ v; d -/man NOUN OR o; i -/man NOUN IOBJ v',
    'same verbs': 's man NOUN SUBJ v; v see VERB ROOT -; b -/but CONJ MARK w; w see VERB AND/OR/CPL v; x -/tom NOUN SUBJ w; o -/cake NOUN OBJ v/w; z -/see VERB OBJ/AND v/w',
    'same adjectives': 'x man NOUN ROOT -; p tall ADJ CPL x; q -/tall ADJ AND/CPL x/p; y -/man NOUN AND x; r -/tall ADJ CPL y',
    'same properties': 's man NOUN SUBJ v; t -/king/tall NOUN/ADJ AND s; v is VERB ROOT -; p king/tall NOUN/ADJ PROP v; q -/king/tall NOUN/ADJ OR p; a -/tall ADJ CPL s',
    'same relative': 'x man NOUN ROOT -; r who PRON SUBJ/OBJ v; v see VERB CPL x; o man/who NOUN/PRON OBJ/SUBJ v; y -/man NOUN AND x/o; w -/see VERB CPL x/o',
    'same clause': 's man NOUN SUBJ v; v want VERB ROOT -; x -/man NOUN SUBJ w; w want/see VERB OBJ v; o -/man NOUN OBJ w; z -/want VERB OBJ/AND w; t -/man NOUN OR s/x',
    'same agent': 'x man NOUN ROOT -; p baked ADJ CPL x; q -/baked ADJ AND p; b by PREP MARK a; a man NOUN CPL p; c -/man NOUN AND/CPL a/p; d -/by PREP MARK c',
    'same named': 's tom NOUN SUBJ v; v call VERB ROOT -; o tom NOUN OBJ v; p tom/king NOUN IPROP v; q -/tom NOUN OR p; y -/tom NOUN AND o',
    'many adjectives': 'x man NOUN ROOT -; ' + '; '.join(['p%d %s ADJ CPL x' % (i, w) for i, w in enumerate(('tall -/slim shy old -/wise calm red big -/kind cold').split())]),
    'many clauses': 'x man NOUN ROOT -; r who PRON SUBJ v; v see VERB CPL x; ' + '; '.join(['w%d %s VERB %s v' % (i, w, 'AND' if i % 2 else 'OR') for i, w in enumerate('sing eat -/sleep call -/want make hurt -/give'.split())]) + '; o -/cake NOUN OBJ v',
    'many recipients': 's man NOUN SUBJ v; ' + '; '.join(['s%d %s NOUN AND s' % (i, w) for i, w in enumerate('-/tom king jim -/queen'.split())]) + '; v give VERB ROOT -; i sam NOUN IOBJ v; ' + '; '.join(['i%d %s NOUN OR i' % (i, w) for i, w in enumerate('-/we pear apple -/box pie'.split())]) + '; o -/cake NOUN OBJ v',
    'three names': 'x man NOUN ROOT -; p named ADJ CPL x; n tom PROPN/ADV PROP p; k -/king NOUN/ADV AND n; l -/jim PROPN/ADJ OR n; d -/sam PROPN AND/OR n',
    'three adjectives': 'x man NOUN ROOT -; p tall/baked ADJ CPL x; q -/slim ADJ AND p; r -/shy ADJ OR p; t -/old ADJ AND/OR p; u -/wise ADJ CPL x; w -/calm ADJ CPL x',
    'three agents': 'x cake NOUN ROOT -; y -/pie NOUN AND x; p baked ADJ CPL x; b by PREP MARK a; a tom PROPN CPL p; c -/king NOUN AND a; d -/jim PROPN OR a; e -/sam PROPN/ADV AND a; f -/we PRON CPL p; g -/by PREP MARK f',
    'three properties': 's man NOUN SUBJ v; t -/tom NOUN AND s; u -/jim PROPN OR s; v is VERB ROOT -; p tall ADJ PROP v; q -/king NOUN OR p; r -/shy ADJ AND p; d -/old ADJ AND p',
    'three named by': 's man NOUN SUBJ v; v call VERB ROOT -; o tom PROPN OBJ v; y -/we PRON AND o; z -/jim PROPN OR o; p king NOUN IPROP v; q -/slim ADJ OR p; r -/shy ADJ AND p',
    'three recipients': 's man NOUN SUBJ v; t -/tom NOUN AND s; u -/sam NOUN OR s; v give VERB ROOT -; i jim PROPN IOBJ v; k -/king NOUN AND i; l -/we PRON OR i; o -/cake NOUN OBJ v; d -/pie NOUN OR o',
    'three antecedents': 'x man NOUN ROOT -; y -/tom NOUN AND x; z -/jim PROPN OR x; r who PRON SUBJ/OBJ v; s -/king NOUN SUBJ/OBJ v; t -/queen NOUN OR s; v see VERB CPL x; w -/sing VERB AND v',
    'three bare': 'x man NOUN ROOT -; y -/tom NOUN AND x; z -/jim PROPN OR x; s king NOUN SUBJ v; t -/queen NOUN OR s; u -/we PRON AND s; v see VERB CPL x; w -/call VERB AND v; k -/eat VERB CPL x',
    'three clauses': 's man NOUN SUBJ v; t -/tom NOUN AND s; v want VERB ROOT -; w sing VERB OBJ v; y -/see VERB AND w; z -/eat VERB OR w; x -/king NOUN SUBJ w; o -/cake NOUN OBJ w; d -/pie NOUN OR o',
    'three shared': 's man NOUN SUBJ v; t -/tom NOUN OR s; u -/jim PROPN AND s; v eat VERB ROOT -; b -/but CONJ MARK w; w sing VERB CPL v; z -/sleep VERB AND w; y -/see VERB OR w; c -/call VERB OR v',
    'three compared': 's man NOUN SUBJ v; v is VERB ROOT -; p tall ADJ PROP v; q -/slim ADJ AND p; m as ADV CMARK c; e -/old ADJ CPL c; c tom PROPN CPL p; d -/jim PROPN AND c; f -/wise ADJ CPL s; g -/shy ADJ OR p',
    'together': 'a -/old ADJ CPL x; x man NOUN SUBJ v; p -/named ADJ CPL x; n -/tom PROPN PROP p; r -/who PRON SUBJ w; w -/sing VERB CPL x; v see VERB ROOT -; o -/cake NOUN OBJ v; q -/baked ADJ CPL o; c -/jim PROPN CPL q; b -/by PREP MARK c',
    'together 2': 'a -/old ADJ CPL x; x man NOUN SUBJ v; r -/king NOUN SUBJ w; w -/call VERB CPL x; v is VERB ROOT -; p tall ADJ PROP v; c -/jim PROPN CPL p; m -/as ADV CMARK c; d -/shy ADJ CPL c; z -/eat VERB AND v; o -/cake NOUN OBJ z',
}
DEEP = {
    'named by deep': 's -/man NOUN SUBJ v; v call/make VERB/NOUN ROOT -; o -/tom %s/ADV OBJ/IOBJ v; y -/we PRON AND o; p king/tall NOUN/ADJ/ADV IPROP/PROP v; q -/slim ADJ OR p' % NT,
    'shared subject deep': 's -/man NOUN/PRON/ADJ SUBJ v; t -/tom NOUN OR s; v eat VERB/NOUN/ADJ ROOT -; b -/but CONJ %s w; w sing/see VERB/NOUN CPL/CALLEE v; x -/we PRON SUBJ/OBJ w; z -/sleep VERB AND w' % MK,
    'lists deep': 's man/sweet NOUN/ADJ SUBJ/CPL/PROP v; v is/eat VERB/NOUN ROOT -; p cold/apple/pear/red/tall NOUN/ADJ/PRON PROP/IPROP/CPL/OBJ v; k -/so ADV CPL/INTJ p',
    'agent deep': 's man NOUN/PRON/ADJ SUBJ v; v is VERB ROOT -; p baked/tall/hurt ADJ/NOUN PROP/CPL/OBJ v; b by/with PREP MARK/IMARK/INTJ a; a tom %s/ADV CPL/OBJ p; c -/king NOUN/ADJ AND a' % NT,
    'copula deep': 's man %s/ADV SUBJ v; t -/tom NOUN/ADV AND s; v is/make VERB/NOUN ROOT -; p tall/baked ADJ/PRON/ADV PROP v; q -/slim/king ADJ/NOUN/ADV OR p; m -/like PREP MARK/IMARK/INTJ p/q' % NT,
    'relative deep': 'u see VERB ROOT -; x man NOUN/PROPN OBJ/SUBJ/CPL u; y -/tom NOUN AND/OR x; r who/that/what PRON/NOUN SUBJ/OBJ v; s -/king NOUN SUBJ/OBJ v; v eat VERB/ADJ CPL/CALLEE x; w -/sing VERB OR v; m -/if CONJ %s v' % MK,
    'agent deep': 's man NOUN/PRON/ADJ SUBJ v; t -/we PRON AND s; v is VERB ROOT -; p baked/tall ADJ/NOUN PROP/CPL v; q -/made ADJ AND p; b by/with PREP MARK/IMARK a; a tom %s CPL/OBJ p/q; c -/king NOUN/ADJ AND a' % NT,
    'clause deep': 's man NOUN/PRON/ADV SUBJ v; t -/tom NOUN AND s; v want/is VERB ROOT -; x -/king NOUN/ADV SUBJ w; i -/to FRAG PART w/v; w sing/eat/is VERB OBJ/CPL v; z -/see VERB AND/OR w; o -/cake NOUN/ADV OBJ w/z; p -/tall ADJ PROP w/z',
}

# shorter patterns for histories: sentences one after another through the same pipeline
SHORT = {
    '!relative': 'x man NOUN ROOT -; r who/tom PRON SUBJ v; v eat VERB CPL x; o -/apple NOUN OBJ v',
    '!bare': 'x pear NOUN ROOT -; s king NOUN SUBJ v; v see VERB CPL/CALLEE x',
    '!agent': 'x cake NOUN ROOT -; p baked/tall ADJ CPL x; b by PREP MARK/CMARK a; a tom PROPN CPL p',
    '!named': 'x man NOUN ROOT -; p named/tall ADJ CPL x; n -/tom PROPN PROP p',
    '!group': 's man NOUN SUBJ v; t -/tom NOUN OR s; v eat VERB ROOT -; o -/apple/himself NOUN OBJ v',
    '!clause': 's man NOUN SUBJ v; v want VERB ROOT -; i -/to FRAG PART w; w eat VERB OBJ v; o -/cake NOUN OBJ w',
    '!compared': 's man NOUN SUBJ v; v is VERB ROOT -; p tall ADJ PROP v; m as ADV CMARK c; c tom PROPN CPL p',
    '!verbs': 's man NOUN SUBJ v; v eat VERB ROOT -; w -/sing VERB AND v; o -/apple NOUN OBJ w/v',
    '!copula': 's man/cold NOUN SUBJ v; v is VERB ROOT -; p tall/cold/apple ADJ/NOUN PROP v',
    '!but': 's man NOUN SUBJ v; v eat VERB ROOT -; b -/but CONJ MARK w; w sing VERB CPL v; x -/we PRON SUBJ w',
}
NAMES = list(SHORT)
HISTORY = ['~%d %s >> %s' % (k, a, b) for i, a in enumerate(NAMES) for k in (0, 1) for b in (NAMES[(i + 1 + k) % 10], NAMES[(i + 4 + 2 * k) % 10], a)]


def cases(tier):
    return (list(P) if tier == 'quick' else list(P) + list(DEEP)) + HISTORY


def run(ctx, case):
    words = [w.split() for w in (P.get(case) or SHORT.get(case) or DEEP[case]).split('; ')]
    rows = []
    for key, tokens, tags, deps, heads in words:
        tokens, tags, deps, heads = tokens.split('/'), tags.split('/'), deps.split('/'), heads.split('/')
        token = ctx.concrete(ctx.pick(key + '_word', tokens)) if len(tokens) > 1 else tokens[0]
        if token == '-':
            continue
        head = ctx.concrete(ctx.pick(key + '_head', heads)) if len(heads) > 1 else heads[0]
        rows.append((key, token, ctx.pick(key + '_tag', tags) if len(tags) > 1 else tags[0], ctx.pick(key + '_label', deps) if len(deps) > 1 else deps[0], head))
    for _ in range(4):
        there = [r[0] for r in rows]
        rows = [r for r in rows if r[4] == '-' or r[4] in there]
    there = {r[0]: i for i, r in enumerate(rows)}
    rows = [(token, tag, dep, there[head] if head != '-' else -1) for key, token, tag, dep, head in rows]
    # one arc of each kind per verb, other words are coordinated
    for i in range(len(rows)):
        for j in range(i):
            if rows[i][3] == rows[j][3] and rows[i][3] >= 0:
                ctx.assume(not (rows[i][2] == rows[j][2]) or rows[i][2] in ('AND', 'OR', 'CPL', 'MARK', 'CMARK', 'IMARK', 'INTJ', 'PART'))
    got = sorted([t.flatten(False) for t in pipeline(ctx).test_sample(rows)])
    want = Reading(rows).tuples()
    ctx.observe('tuples', got)
    ctx.check(got == want, 'tuples %s instead of %s' % (got, want))
    for t in got:
        ctx.cover(''.join(['n' if c in 'NPOSU' else c for c in t.split('(')[0]]))


COVER = ['nI', 'nTn', 'nCn', 'nCA', 'nCL', 'nTnI', 'nTnTn', 'nTnCn', 'nTnCA', 'nRn']
