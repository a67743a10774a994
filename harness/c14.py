from scrappybara_verif_lm import AnyModel

BUDGET = {'quick': 300, 'thorough': 400}
BOUNDS = 'lemmas of 1 to 4 free characters (letters, hyphen, apostrophe, blank, digits, accents) and up to 3 behind fixed beginnings; ' \
         'any language model; irregular table with 4 entries'
ASSUMPTIONS = ['lemmas are not empty']
ALPHA = list("abcdefghijklmnopqrstuvwxyz-' 5éAEY")
VOW = 'aeiouy'
CONS = 'bcdfghjklmnpqrstvwxz'
TABLE = {'make': 'made', 'go': 'gone', 'be': 'been', 'cut': 'cut', 'hit': 'hit'}

QUICK = ['□', '□□', '□□□', 'm□□□', 'trave□', 'hot d□□', 'g□', 'play □□', 'ma□e', 'pla□', 'ti□', 'c□t', 're□□e', '□□ee', '□ y', 'counterrevolutionis□□', 'run ' * 12 + 'o□□', 'm' * 45 + '□□', 'e' * 30 + '□']
THOROUGH = ['□□□□', 'tra□□□', '□□□e', '□□□y']

# histories: one after another in the same process, with the same objects
HISTORY = ['stop >> stop', 'tr□p >> tr□p', 'stop >> stops', 'make >> mak', 'go >> got >> go', 'play >> pla□', 'hot dog >> dog', 'travel >> Travel']


def cases(tier):
    return (QUICK if tier == 'quick' else QUICK + THOROUGH) + HISTORY


def run(ctx, case):
    k = 0
    parts = []
    for c in case:
        if c == '□':
            parts.append(ctx.text('h%d' % k, 1, ALPHA))
            k += 1
        else:
            parts.append(c)
    lemma = ''.join(parts)
    ctx.observe('lemma', lemma)
    lm = ctx.keep('model', lambda: AnyModel(ctx))
    inf = ctx.keep('inflector', lambda: ctx.mod('normalization.inflector').Inflector(lm, dict(TABLE)))
    got = inf.past_participle(lemma)
    ctx.observe('got', got)
    if lemma in TABLE:
        ctx.check(got == TABLE[lemma], 'irregular participle not taken from the table')
        ctx.cover('irregular')
        return
    last = lemma[-1]
    prev = lemma[-2] if len(lemma) > 1 else '#'
    if last == 'e':
        ctx.check(got == lemma + 'd', 'a lemma in e takes d')
        return
    if last == 'y' and prev in CONS:
        ctx.check(got == lemma[:-1] + 'ied', 'consonant + y becomes ied')
        ctx.cover('ied')
        return
    if prev in VOW and last in CONS:
        plain, double = lemma + 'ed', lemma + last + 'ed'
        if lm.known(double) is None and lm.known(plain) is None:
            ctx.fail('the language model is not consulted')
        if lm.known(double) is False:
            ctx.check(got == plain, 'doubled although the doubled form is unknown')
        elif lm.known(plain) is False:
            ctx.check(got == double, 'not doubled although only the doubled form is known')
        else:
            best = lm.best_ngram(plain, double)
            ctx.check(got == best, 'not the form the language model prefers')
            ctx.cover('doubling')
        return
    ctx.check(got == lemma + 'ed', 'regular participle')


COVER = ['irregular', 'ied', 'doubling']
