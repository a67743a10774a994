from scrappybara_verif_lm import AnyModel

BUDGET = {'quick': 300, 'thorough': 600}
BOUNDS = 'words of up to 4 free characters in front of and inside every ending the rules know (up to 11 characters in all), with and ' \
         'without prefixes and hyphens; every tag; any language model; irregular tables with a few entries each'
ASSUMPTIONS = ['words contain no white space', 'the language model\'s answers do not contradict each other']
ALPHA = list("abcdefghijklmnopqrstuvwxyz-'A5ß")
LOW = list('abcdefghijklmnopqrstuvwxyz')
FEW = list('aeyksx')
CONS = 'bcdfghjklmnpqrstvwxz'
VOW = 'aeiouy'
PREFIXES = ('re', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand')
PRET = {'went': 'go', 'ran': 'run', 'saw': 'see'}
PP = {'gone': 'go', 'saw': 'saw', 'seen': 'see', 'built': 'build', 'reset': 'reset'}
PLUR = {'children': 'child', 'mice': 'mouse', 'hot dogs': 'hot dog', 'recons': 'recon'}
COMP = {'better': 'good', 'worse': 'bad', 'elder': 'old'}
SUP = {'best': 'good', 'worst': 'bad', 'eldest': 'old'}
ADJS = {'bitter', 'clever', 'sober', 'other', 'worse', 'eldest', 'better', 'elder', 'worst', 'went', 'mice'}
FIXED = {
    'VERB': {"'m": ('be', None), 'am': ('be', None), "'re": ('be', None), 'are': ('be', None), "'s": ('be', 'THIRD_PERSON'),
             'is': ('be', 'THIRD_PERSON'), 'being': ('be', 'PROGRESSIVE'), 'has': ('have', 'THIRD_PERSON'), 'doing': ('do', 'PROGRESSIVE'),
             'need': ('need', None)},
    'ADJ': {'better': ('good', 'COMPARATIVE'), 'best': ('good', 'SUPERLATIVE')},
    'ADV': {'better': ('well', 'COMPARATIVE'), 'best': ('well', 'SUPERLATIVE'), "'": ("'s", None)},
    'NOUN': {"'s": ('we', None), 'acumen': ('acumen', None)},
    'PROPN': {"'s": ('we', None), 'acumen': ('acumen', None)},
    'PRON': {"'s": ('we', None), 'acumen': ('acumen', None)},
    'SYM': {"'s": ('we', None), 'acumen': ('acumen', None)},
    'NUM': {"'s": ('we', None), 'acumen': ('acumen', None)},
}
SUFFIXES = {'VERB': {'THIRD_PERSON', 'PAST', 'PROGRESSIVE'}, 'NOUN': {'PLURAL'}, 'ADJ': {'COMPARATIVE', 'SUPERLATIVE'},
            'ADV': {'COMPARATIVE', 'SUPERLATIVE'}}

V = ['□', '□□', '□□□', '□□ed', '□□□ed', 'fo□□□ed', '□□ing', '□□□ing', 'fo□□□ing', '□□icked', 'p□cnicking', 'p□□icks', '□□s', '□□□s', '□□es', '□□ies', '□□ied', 'pa□□ied', 'p□□ies',
     're-□□ed', 're□□ed', 'mis□□ing', 're-fo□□□ed', '□o-□aked', 'sub□□es', 'w□nt', 'rew□nt', 'out-r□n', 're□een', 'a□', '□s', 'n□ed', 'be□ng', 'doin□', "'□", 'S□W', 'c□mming', 'cobb□ed',
     'grand□□s', '□-□s', 're-s', 're-□ed', '□□-ing', 'reset', 'm□s', 'unn□ed', 'counterrevolutionar□sed', 'm' * 30 + '□□ing', 'ed' * 10 + '□ed', 're' * 6 + '□□ed']
N = ['□', '□□', '□□□', '□□□s', '□□es', '□□□es', '□□ies', '□□ves', '□□men', '□ieves', 'th□□ves', '□□□□a', 'crit□ri□', 'nucle□', 'nu□□□i', '□□□i', '□□□□i', 'gl□s□', 'bo□ses', 'grand□□ves', 're□□men',
     'ch□ldren', 'grandch□ldren', 'step-m□ce', 'acum□n', "'□", '□ol□es', 'analys□s', 're-□□s', '□-x□es', '□□□□on', 'rec□ns', 'r□men', 'sub□□ies', 'm' * 30 + '□□ies', 'counterrevolutionar□es', 's' * 12 + '□s']
A = ['□□', '□□□', '□□er', '□□□er', 'fa□□er', 'la□□er', '□□est', '□□□est', 'fa□□est', '□□ier', '□□iest', 'ha□□ier', 'un□□ier', 'unha□□iest', 'bett□r', 'b□st', 'wor□e', 'elde□', 'bit□er', 'clev□r', 're-□□er',
     'un□□□er', '□ther', 'S□BER', 'elde□t', 'm' * 25 + '□□er', 'er' * 8 + '□est']

# tag: stem, end of the base form, end of the word (2: the last letter of the stem again), suffix; ▢ a few letters, ◆ and ● consonants, ○ vowels
REGULAR = {
    'VERB': '''▢◆ ic icking PROGRESSIVE; ▢◆ ic icked PAST; ▢◆ ic icks THIRD_PERSON; ▢○● - 2ing PROGRESSIVE; ▢○● - 2ed PAST; ▢○● 2 2ing PROGRESSIVE; ▢○● 2 2ed PAST; ▢▢◆ e ing PROGRESSIVE;
▢▢◆ - ing PROGRESSIVE; ▢◆ e ed PAST; ▢◆ - ed PAST; ▢◆ y ied PAST; ◆ y ies THIRD_PERSON; ◆ ie ies THIRD_PERSON; ▢◆ e es THIRD_PERSON; ▢x - es THIRD_PERSON; ▢ch - es THIRD_PERSON; ▢ss - es THIRD_PERSON;
▢◆ - s THIRD_PERSON; ▢◆ ee eed PAST; ▢◆ ee ees THIRD_PERSON; ▢◆ ee eeing PROGRESSIVE; ◆ ye yed PAST; ▢▢◆ e eing PROGRESSIVE; ▢◆ ay aying PROGRESSIVE; ▢◆ ay ayed PAST; ▢◆ ay ays THIRD_PERSON''',
    'NOUN': '''crit▢◆ on a PLURAL; ◆ ief ieves PLURAL; ▢▢▢◆ us i PLURAL; ▢◆ y ies PLURAL; ▢◆ ie ies PLURAL; ▢▢ f ves PLURAL; ▢▢ fe ves PLURAL; ▢▢ ve ves PLURAL; ▢▢ man men PLURAL; ▢x - es PLURAL; ▢x e es PLURAL;
▢▢ is es PLURAL; ▢◆ - s PLURAL; ▢ch - es PLURAL; ▢ay - s PLURAL; ▢◆e - s PLURAL''',
    'ADJ': '''▢○● - 2er COMPARATIVE; ▢○● - 2est SUPERLATIVE; ▢○● 2 2er COMPARATIVE; ▢○● 2 2est SUPERLATIVE; ▢◆ y ier COMPARATIVE; ▢◆ y iest SUPERLATIVE; ▢▢◆ e er COMPARATIVE; ▢▢◆ e est SUPERLATIVE;
▢▢◆ - er COMPARATIVE; ▢▢◆ - est SUPERLATIVE; ▢◆ ee eer COMPARATIVE; ▢◆ ee eest SUPERLATIVE'''}
PREFIXED = {'VERB': '▢◆ ic icked PAST; f○● - 2ing PROGRESSIVE; ▢▢◆ e ing PROGRESSIVE; ▢▢◆ e ed PAST; ▢◆ y ies THIRD_PERSON; b▢◆ - s THIRD_PERSON; ▢▢x - es THIRD_PERSON', 'NOUN': '▢◆ ief ieves PLURAL; ▢◆ y ies PLURAL; ▢▢ fe ves PLURAL; ▢◆ man men PLURAL; b▢◆ - s PLURAL; b▢s is es PLURAL',
            'ADJ': 'b○● - 2er COMPARATIVE; ▢◆ y iest SUPERLATIVE; ▢▢◆ e er COMPARATIVE'}
FORMS = ['=%s %s' % (t, f.strip()) for t in REGULAR for f in REGULAR[t].split(';')]
FORMS += ['=%s %s %s' % (t, f.strip(), p) for t in PREFIXED for i, f in enumerate(PREFIXED[t].split(';')) for p in ((PREFIXES + ('step-',))[i % 9], (PREFIXES + ('step-',))[(i + 4) % 9], 're-')]


def regular(ctx, case):
    """A regular form whose base is all the model knows"""
    tagname, stem, end, wend, want = case[1:].split()[:5]
    prefix = case.split()[5] if len(case.split()) > 5 else ''
    few = {'▢': FEW, '◆': [x for x in CONS if x not in 'shxzv'], '●': [x for x in CONS if x not in 'v'], '○': list('aeiouy')}
    parts = [ctx.text('h%d' % k, 1, few[c]) if c in few else c for k, c in enumerate(stem)]
    if len(parts) > 2 and stem[-1] in '◆':
        ctx.assume(parts[-1] != parts[-2])
    root = ''.join(parts)
    base = root + end.replace('-', '').replace('2', parts[-1])
    word = prefix + root + (parts[-1] if wend[0] == '2' else '') + wend.lstrip('2')
    T = ctx.mod('syntax.tags').Tag
    L = ctx.mod('normalization.lemmatizer').Lemmatizer(OneWord(base), set(ADJS), dict(PRET), dict(PP), dict(PLUR), dict(COMP), dict(SUP), {v: k for k, v in PP.items()})
    for t in (word, base):
        for listed in FIXED.get(tagname, {}):
            ctx.assume(not (len(t) == len(listed) and t == listed))
        ctx.assume(table(t, tagname) is None)
    pb = split_prefix(word)
    if pb is not None:
        ctx.assume(table(pb[1], tagname) is None)
    ctx.observe('word', word)
    lemma, suffix = L(word, T[tagname])
    ctx.observe('lemma', lemma)
    ctx.check(suffix is not None and suffix.name == want, 'regular form not recognised, or with another suffix')
    ctx.check(lemma == prefix + base, 'not the attested base form')
    ctx.cover('regular')

# histories: one after another in the same process, with the same objects
HISTORY = ['VERB runs >> NOUN runs', 'NOUN better >> ADJ better >> ADV better', "VERB 's >> NOUN 's >> ADV 's", 'VERB □akes >> NOUN □akes', 'NOUN taxes >> VERB taxes', 'ADJ c□ols >> VERB cools', 'VERB saw >> NOUN saw', '* saws >> * saws', 'NOUN children >> VERB children', 'VERB reset >> NOUN reset', 'VERB bak□d >> ADJ bak□r', 'VERB seen >> VERB reseen >> VERB re-seen', 'NOUN Axes >> NOUN axes', 'VERB fo□ed >> VERB fo□ing']


def cases(tier):
    return FORMS + cases_(tier) + HISTORY


def cases_(tier):
    out = ['VERB ' + x for x in V] + ['NOUN ' + x for x in N] + ['ADJ ' + x for x in A]
    out += ['ADV ' + x for x in ('□□□', 'b□st', 'bett□r', "□", '□□est', '□□er')]
    out += ['PROPN ' + x for x in ('□□s', "'□", 'acum□n', 'ch□ldren')] + ['PRON ' + x for x in ('□□s', "'□")] + ['* □□s', '* □□ed', '* ▢▢est', '* ▢▢', "* '▢", '* ', 'VERB ', 'NOUN ', 'ADJ ']
    out += ['+NOUN ▢▢◆◆ s', '+VERB ▢▢◆◆ s', '+VERB ▢▢◆◆ ed', '+VERB ▢▢◆◆ ing', '+ADJ ▢▢◆◆ er', '+ADJ ▢▢◆◆ est', '+NOUN re▢◆◆ s', '+VERB out▢◆◆ ed', '+NOUN ▢-▢◆◆ s', '+VERB re-▢◆◆ ing']
    if tier == 'thorough':
        out += ['VERB □□□□', 'VERB □□□□ed', 'VERB □□□□ing', 'VERB □□□□s', 'NOUN □□□□', 'NOUN □□□□s', 'NOUN □□□□es', 'ADJ □□□□er', 'ADJ □□□□est', 'VERB re□□□□ed', 'NOUN re-□□□□s', 'VERB □□□-□ed',
                'NOUN □□-□es', '* □□□', '* ▢▢▢▢', 'VERB re□□□□', 'NOUN sub□□□s']
    return out


def inflections(lemma, suffix):
    """Regular spellings of an inflected lemma"""
    out = [lemma + e for e in {'THIRD_PERSON': ('s', 'es'), 'PAST': ('ed',), 'PROGRESSIVE': ('ing',), 'PLURAL': ('s', 'es'),
                              'COMPARATIVE': ('er',), 'SUPERLATIVE': ('est',)}[suffix]]
    plain = {'PAST': 'ed', 'PROGRESSIVE': 'ing', 'COMPARATIVE': 'er', 'SUPERLATIVE': 'est'}.get(suffix)
    n = len(lemma)
    if n == 0:
        return out
    last = lemma[-1]
    if plain is not None:
        if last == 'e':
            out.append(lemma[:-1] + plain)
        if n > 1 and last in CONS and lemma[-2] in VOW:
            out.append(lemma + last + plain)
    if suffix in ('PAST', 'PROGRESSIVE') and lemma.endswith('ic'):
        out.append(lemma + 'k' + plain)
    if suffix == 'THIRD_PERSON' and lemma.endswith('ic'):
        out.append(lemma + 'ks')
    if last == 'y' and suffix != 'PROGRESSIVE' and n > 1:
        out.append(lemma[:-1] + {'THIRD_PERSON': 'ies', 'PLURAL': 'ies', 'PAST': 'ied', 'COMPARATIVE': 'ier', 'SUPERLATIVE': 'iest'}[suffix])
    if suffix == 'PLURAL':
        if last == 'f':
            out.append(lemma[:-1] + 'ves')
        for a, b in (('fe', 'ves'), ('man', 'men'), ('on', 'a'), ('us', 'i'), ('is', 'es')):
            if lemma.endswith(a):
                out.append(lemma[:-len(a)] + b)
    return out


def table(word, tag):
    """Entry of the irregular tables"""
    if tag == 'NOUN' and word in PLUR:
        return PLUR[word], 'PLURAL'
    if tag == 'VERB':
        if word in PP:
            return PP[word], 'PAST'
        if word in PRET:
            return PRET[word], 'PAST'
    if tag == 'ADJ':
        if word in COMP:
            return COMP[word], 'COMPARATIVE'
        if word in SUP:
            return SUP[word], 'SUPERLATIVE'
    return None


def split_prefix(word):
    """Possible (prefix, rest)"""
    els = word.split('-')
    if len(els) == 2:
        return els[0] + '-', els[1]
    for p in PREFIXES:
        if word.startswith(p):
            return p, word[len(p):]
    return None


def run(ctx, case):
    if case.startswith('='):
        return regular(ctx, case)
    tagname, _, spec = case.partition(' ')
    simple = tagname.startswith('+')
    tagname = tagname.lstrip('+')
    suffix_text = None
    if simple:
        spec, suffix_text = spec.split(' ')
    T = ctx.mod('syntax.tags').Tag
    S = ctx.mod('normalization.suffixes').Suffix
    parts = []
    for k, c in enumerate(spec):
        if c == '□':
            parts.append(ctx.text('h%d' % k, 1, ALPHA))
        elif c == '▢':
            parts.append(ctx.text('h%d' % k, 1, FEW))
        elif c == '◆':
            parts.append(ctx.text('h%d' % k, 1, [x for x in CONS if x not in 'shxz']))
        else:
            parts.append(c)
    word = ''.join(parts)
    if simple:
        base = word
        ctx.assume(parts[-1] != parts[-2])
        ctx.assume(not (parts[-2] == 'c' and parts[-1] == 'k'))
        word = base + suffix_text
    if tagname == '*':
        tag = T(ctx.concrete(ctx.pick('tag', [int(t) for t in T])))
        tagname = tag.name
    else:
        tag = T[tagname]
    def lemmatizer(lm):
        return ctx.mod('normalization.lemmatizer').Lemmatizer(lm, set(ADJS), dict(PRET), dict(PP), dict(PLUR), dict(COMP), dict(SUP), {v: k for k, v in PP.items()})
    lm = OneWord(base) if simple else ctx.keep('model', lambda: AnyModel(ctx))
    L = lemmatizer(lm) if simple else ctx.keep('lemmatizer', lambda: lemmatizer(lm))
    ctx.observe('word', word)
    res = L(word, tag)
    lemma, suffix = res
    ctx.observe('lemma', lemma)
    sname = None if suffix is None else S(suffix).name
    ctx.observe('suffix', sname)
    low = word.lower()
    # words the lemmatizer knows by heart
    for w, (l, s) in FIXED.get(tagname, {}).items():
        if len(low) == len(w) and low == w:
            ctx.check(lemma == l and sname == s, 'wrong lemma of a listed word')
            ctx.cover('by heart')
            return
    hit = table(low, tagname)
    if hit is not None:
        ctx.check(lemma == hit[0] and sname == hit[1], 'irregular form not taken from the table')
        ctx.cover('table')
        return
    pb = split_prefix(low)
    if pb is not None:
        hit = table(pb[1], tagname)
        if hit is not None:
            ctx.check(lemma == pb[0] + hit[0] and sname == hit[1], 'prefixed irregular form not taken from the table')
            ctx.cover('prefixed table')
            return
    if sname is None:
        ctx.check(lemma == low, 'lemma without suffix is not the word itself')
        if simple:
            ctx.fail('plain regular inflection not recognised')
        return
    ctx.check(tagname in SUFFIXES and sname in SUFFIXES[tagname], 'suffix of another part of speech')
    ctx.check(any([len(x) == len(low) and x == low for x in inflections(lemma, sname)]), 'the word is no inflection of the lemma')
    ctx.cover(sname)
    if simple:
        ctx.check(lemma == base, 'not the attested base form')
        ctx.check(sname == {'ed': 'PAST', 'ing': 'PROGRESSIVE', 'er': 'COMPARATIVE', 'est': 'SUPERLATIVE',
                            's': 'PLURAL' if tagname == 'NOUN' else 'THIRD_PERSON'}[suffix_text], 'wrong suffix')
        ctx.cover('plain')
        return
    rests = [lemma]
    for i in range(1, len(lemma) + 1):
        if lemma[i - 1] == '-' or lemma[:i] in PREFIXES:
            rests.append(lemma[i:])
    ok = False
    for t, known in lm.facts:
        if known:
            last = t.split(' ')[-1]
            if any([len(last) == len(r) and last == r for r in rests]):
                ok = True
                break
    ctx.check(ok, 'lemma is not attested by the language model')


class OneWord:
    """A language model that knows one word"""

    def __init__(self, word):
        self.word = word

    def has_ngram(self, g, min_count=1):
        return min_count <= 1 and len(g) == len(self.word) and g == self.word

    def __contains__(self, g):
        return self.has_ngram(g)

    def best_ngram(self, *gs):
        for g in gs:
            if self.has_ngram(g):
                return g
        return None

    def best_token(self, *gs, before=None, after=None):
        return self.best_ngram(*gs)


COVER = ['regular', 'by heart', 'table', 'prefixed table', 'plain', 'THIRD_PERSON', 'PAST', 'PROGRESSIVE', 'PLURAL', 'COMPARATIVE', 'SUPERLATIVE']
