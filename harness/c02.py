from scrappybara_verif_text import FULL, PUNCT, align, raw_units

BUDGET = {'quick': 300, 'thorough': 700}
BOUNDS = 'addresses with up to 3 free characters (any of 150 non-blank ones), up to 2 free characters of surrounding text, ' \
         'up to 14 protected passages per text (112 in one with one free character, an address of 450 characters)'
ASSUMPTIONS = ['addresses are delimited by blanks or the ends of the text and contain no typographic quote or dash']

TYPO = '‘’′“”″–—'
PATH = [c for c in FULL if not c.isspace() and c not in TYPO]
LABEL = [c for c in PATH if c != '.']

# ⟦ ⟧ delimit what must come out as one token; inside: □ label character, ■ any path character; outside: □ any character
QUICK = [
    '⟦http://□.b⟧', '⟦https://a.□b/■⟧ x', 'x ⟦www.□.c⟧ y', '⟦www.a.b/■■⟧', '⟦a□.b/■⟧ k', '⟦x.y.z/■⟧', 'v ⟦Http://A.b?□⟧', '⟦WWW.A.□⟧ w',
    '□ ⟦www.a.com⟧ □', '□ ⟦a.b/c⟧ □', '□ ⟦http://a.b/c⟧ □', '⟦www.a.com⟧ ⟦www.a.com□⟧', '⟦www.a.com□⟧ ⟦www.a.com⟧',
    '⟦a.b/⟧ ⟦a.b/■⟧', '⟦a.b/■⟧ ⟦a.b/⟧', '⟦http://b.c/http://www.a.com/■⟧ ok', '⟦b.c/www.a.com/■⟧ ⟦www.a.com/■⟧',
    '⟦www.a.com⟧ ⟦b.c/www.a.com■⟧', "x 'n' ⟦a.b/■⟧ 'n' y", "⟦a.b/■⟧ 'n' ⟦a.b/■⟧", "x n' ⟦www.a.□⟧ 'n y",
    '⟦:)⟧', '⟦:(⟧ □', '□ ⟦;-)⟧', 'x ⟦;-(⟧ □ ⟦:-)⟧', '⟦:)⟧ ⟦:)⟧ ⟦;)⟧ □', 'ok. ⟦:)⟧ □', '⟦a.b/:)■⟧ ⟦:)⟧', '⟦:-(⟧ ⟦www.a.com/:-(■⟧',
    '>= ⟦www.a.com■⟧ = > ⟦a.b/■⟧', '( ⟦www.a.com□⟧ )', '" ⟦a.b/■⟧ "', 'Mr. ⟦www.a.com□⟧', 'A & ⟦www.a.com□⟧', '5\' ⟦www.a.com□⟧',
    '⟦a.b/1⟧ ⟦a.b/2⟧ ⟦a.b/3⟧ ⟦a.b/4⟧ ⟦a.b/5⟧ ⟦a.b/6⟧ ⟦a.b/7⟧ ⟦a.b/8⟧ ⟦a.b/9⟧ ⟦a.b/10⟧ ⟦a.b/11⟧ ⟦a.b/12⟧ ⟦a.b/1■⟧',
    '⟦www.a1.co⟧ ⟦www.a2.co⟧ ⟦www.a3.co⟧ ⟦:)⟧ ⟦:(⟧ ⟦;)⟧ ⟦;(⟧ ⟦:-)⟧ ⟦:-(⟧ ⟦;-)⟧ ⟦a.b/c⟧ ⟦www.a1.co□⟧ □',
    '- ⟦www.a.com□⟧ –□', 'e.g. ⟦a.b/■⟧ .', '⟦http://a.b/■⟧ http:□', '⟦http://a-b.c:80/■?q=■⟧', '⟦ftp://a.b/■⟧ x', '⟦me@a.b/■⟧', '⟦http://a.b.c.d.e⟧ □',
]
THOROUGH = [
    '⟦http://□□.b⟧ □', '⟦www.□.c□⟧ □', '⟦www.a.b/■■■⟧', '⟦a□.b□/■⟧ □', '□ ⟦a.b/■■⟧ □', '□□ ⟦www.a.com⟧ □', '⟦a.b/■■⟧ ⟦a.b/■⟧',
    '⟦http://b.c/http://www.a.com/■■⟧ ⟦www.a.com/■⟧', "□'n' ⟦a.b/■⟧ 'n'□", '□ ⟦:)⟧ □□', '⟦https://a.b■⟧ ⟦https://a.b⟧ ⟦https://a.b/■⟧',
]

# long texts
LONG = {
    'many 25': ' '.join(['⟦a.b/%d⟧' % i for i in range(1, 26)]) + ' ⟦a.b/1■⟧',
    'many 110': ' '.join(['⟦a.b/%d⟧' % i for i in range(1, 13)] + ['⟦:)⟧', '⟦;(⟧'] * 50) + ' ⟦a.b/1■⟧',
    'smileys 30': ' '.join(['⟦:)⟧', '⟦;-(⟧', 'a'] * 15) + ' □ ⟦:(⟧',
    'mixed 40': ' '.join(['⟦www.a%d.co⟧ ⟦b.c/%d⟧' % (i, i) for i in range(1, 21)]) + ' ⟦www.a1.co□⟧',
    'long address': 'x ⟦http://' + 'abc.' * 60 + 'd/' + 'e/f?g=h&' * 25 + '■⟧ y',
}
# the same tokenizer on one text after another
HISTORY = ['⟦www.a.com⟧ ⟦:)⟧ >> ⟦b.c/■⟧ x ⟦:(⟧', '⟦a.b/■⟧ >> ⟦a.b/⟧ x ⟦a.b/■⟧', 'see ⟦a.b/c⟧ >> ⟦A.b/c⟧ □', '⟦:)⟧ >> x >> ⟦www.a.com/■⟧ ⟦;)⟧', '⟦a.b/c⟧ ⟦a.b/d⟧ ⟦:)⟧ >> ⟦x.y/■⟧ □']


def cases(tier):
    return (QUICK if tier == 'quick' else THOROUGH + QUICK) + HISTORY + list(LONG)


def run(ctx, case):
    tk = ctx.keep('tokenizer', lambda: ctx.mod('preprocessing.tokenizer').Tokenizer())
    text = []
    spans = []
    case = LONG.get(case, case)
    k = 0
    inside = False
    for i, c in enumerate(case):
        if c == '⟦':
            inside = True
            strict = 'www.' in case[i:].split('⟧')[0].lower() or '://' in case[i:].split('⟧')[0]
            spans.append([len(text), None])
            continue
        if c == '⟧':
            inside = False
            spans[-1][1] = len(text)
            continue
        if c == '■':
            # a dot at the end of an http/www address is punctuation, as are adjacent dots
            c = ctx.text('h%d' % k, 1, LABEL if strict else PATH)
            k += 1
        elif c == '□':
            c = ctx.text('h%d' % k, 1, LABEL if inside else FULL)
            k += 1
        text.append(c)
    whole = ''.join(text)
    ctx.observe('text', whole)
    tokens = tk(whole)
    ctx.observe('tokens', tokens)
    wanted = [''.join(text[a:b]) for a, b in spans]
    # expected number of tokens equal to each address: appearance in order
    pos = 0
    for w in wanted:
        found = False
        while pos < len(tokens):
            t = tokens[pos]
            pos += 1
            if t == w:
                found = True
                break
        ctx.check(found, 'address or smiley is not a single unchanged token')
    # nothing of an address leaks into other tokens: the text is still spelled exactly
    problem, _ = align(raw_units(whole), tokens)
    ctx.check(problem is None, 'tokens do not spell the text: %s' % problem)
