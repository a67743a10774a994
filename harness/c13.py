from scrappybara_verif_lm import AnyModel

BUDGET = {'quick': 300, 'thorough': 400}
BOUNDS = 'tokens of up to 4 free characters (lower and upper case letters, hyphen, digit, accent) before and inside each alternation ' \
         'and ending, up to 10 characters in all; any language model'
ASSUMPTIONS = ['the language model\'s answers do not contradict each other']
ALPHA = list('abcdefghijklmnopqrstuvwxyz-5éAE')
OE = list('aeoxszyilu')
RULES = [
    (('our', 'or'), ('ing', 'ed', 's', ''), lambda s, m, e: (s + 'or', s + 'our'), lambda b, e: b + e),
    (('ys', 'yz', 'is', 'iz'), ('ations', 'ation', 'ers', 'er', 'ing', 'ed', 'es', 'e'),
     lambda s, m, e: (s + m[0] + 'ze', s + m[0] + 'se'), lambda b, e: b[:-1] + e),
    (('c', 's'), ('ives', 'ive', 'es', 'e'), lambda s, m, e: (s + 'se', s + 'ce'), lambda b, e: b[:-1] + e),
    (('og', 'ogue'), ('s', ''), lambda s, m, e: (s + 'og', s + 'ogue'), lambda b, e: b + e),
    (('el', 'ell'), ('ing', 'ers', 'ed', 'er'), lambda s, m, e: (s + 'el' + e, s + 'ell' + e), lambda b, e: b),
]

QUICK = ['□', '□□', '□□□', '□□our', '□□□our', 'col□ur', 'co□our□', '□olo□red', 'col□□ing', 'hon□□s', '□or', '□□or', 'fl□or', 'fav□□ed',
         'real□□e', '□□□ise', 'real□□ation', 'real□zations', 'real□□rs', 'rea□i□er', 'anal□□es', '□□□y□ing', 'real□zed', '□iz□', '□□ize',
         'def□n□e', '□□□ce', 'defen□iv□', 'defen□ives', 'defen□□s', 'ho□□e', 'catal□□', 'catalog□□', 'dia□og□', '□□og', '□□□og', '□ogue', 'dial□gues',
         'trav□□ed', 'trave□□ing', 'trave□lers', 'tra□eller', '□□eled', '□ello', 'le□k□emia', 'enc□clop□□dia', '□estrogen', 'oestr□□', '▢▢▢▢▢', '▢▢▢▢', '□aeoe', 'colo□r□se', 'armo□ise', 'ogue□ise', 'Col□ur', 'RE□LISE',
         'counterrevolutionar□ses', 'm' * 30 + '□our', 'm' * 30 + 'el□ing', 'aeonaeon□e', 'm□oem' + 'm' * 25 + 'aem', 'colourcolo□r', 'ise' * 8 + '□se', 'm' * 40]
THOROUGH = ['□□□□', '□□□□e', '□□□our□', '▢▢▢▢▢▢', '□□□□ed', '□□□□ing', '□□□is□□', '□□□el□□', '□□og□□']

# histories: one after another in the same process, with the same objects
HISTORY = ['colour >> color', 'color >> colour >> colors', 'realise >> Realise', '□olor >> □olour', 'travel□ed >> travelled', 'defence >> defense', 'aeon >> Aeon', 'catalogue >> catalog >> catalogues', 'c□lour >> c□loured', 'paeo□ >> poeo□']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def is_letter(c):
    return 'a' <= c <= 'z' or 'A' <= c <= 'Z'


def run(ctx, case):
    k = 0
    parts = []
    for c in case:
        if c in '□▢':
            parts.append(ctx.text('h%d' % k, 1, ALPHA if c == '□' else OE))
            k += 1
        else:
            parts.append(c)
    token = ''.join(parts)
    ctx.observe('token', token)
    lm = ctx.keep('model', lambda: AnyModel(ctx))
    got = ctx.keep('standardizer', lambda: ctx.mod('normalization.standardizer').Standardizer(lm))(token)
    ctx.observe('got', got)
    ctx.check(got == want(ctx, lm, token), 'not the spelling asked for')


def want(ctx, lm, token):
    if lm.has_ngram(token, 5):
        ctx.cover('well known')
        return token
    low = token.lower()
    for mids, ends, bases, build in RULES:
        for end in ends:
            if not low.endswith(end) and end != '':
                continue
            for mid in mids:
                n = len(mid) + len(end)
                if len(token) - n < 3:
                    continue
                if low[len(low) - n:] != mid + end:
                    continue
                start = token[:len(token) - n]
                if not all([is_letter(c) for c in start]):
                    continue
                tail = token[len(token) - len(end):] if end else ''
                a, b = bases(start, token[len(start):len(start) + len(mid)], tail)
                best = lm.best_ngram(a, b)
                if best is not None:
                    ctx.cover('variant')
                    return build(best, tail)
    for pair in ('ae', 'oe'):
        if len(token) > 4 and pair in token:
            best = lm.best_ngram(token.replace(pair, 'e'), token)
            if best is not None:
                ctx.cover('ligature')
                return best
    return token


COVER = ['well known', 'variant', 'ligature']
