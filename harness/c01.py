from scrappybara_verif_text import align, build, glue_problem, raw_units

BUDGET = {'quick': 300, 'thorough': 840}
BOUNDS = 'texts of up to 3 free characters over a 160-character alphabet in fixed contexts, 4 to 5 over reduced alphabets; ' \
         'up to 13 protected passages; the text itself contains none of the tokenizer placeholders (_NSD_, _PROTECTED_1_, ...)'
BOUNDS += '; texts of up to 5000 characters with one free character, up to 112 quotes or brackets'
ASSUMPTIONS = ['white space is what str.split and \\s treat as white space',
               'the text does not contain the tokenizer\'s own placeholders']

QUICK = [
    '□□', '◇◇◇', 'a□□b', 'abc□□de', 'A □□B', ' 5□□6 ', ' 5\'□"□', 'a.□ □', 'a □□',
    '▢d▢d▢d▢d', '▢c▢c▢c▢c', '▢a▢a▢a▢a▢a', '▢s▢s▢s▢s', '▢o▢o▢o▢o', '▢q▢q▢q',
    'Mr. □□x', 'x can□not □', 'A B □ C□', 'A □ B C□', 'ab**□□', 'abc+□bc □', '5+□ □',
    'foo:□□ b', '12:□□', 'foo/□□', 'it□s □', "don't□□", "x 'n' □□", "x n' □", "□'n□ y",
    'www.a.com□□', '□www.a.com', 'a.b/□ □', 'http://a.b/c □□', 'x.□/□ y', ':□) :□(', '□;-)□',
    'www.a.com www.a.com?□ □', 'web.archive.org/http://www.b.com/□ ok', "rock 'n' roll.com/□ ok", 'b.com/□ 'r"'n' x",
    ':) ;) :( a.b/1 a.b/2 a.b/3 a.b/4 a.b/5 a.b/6 a.b/7 a.b/8 a.b/9 a.b/10□ □',
    'wait.. □□', 'a > □ =□', 'x —□– y', 'e.g. □□', 'J. R□ □', 'U.S.□□', '3.5□□', '…□□', "'□□' a", ' *□b □', ' -□b□',
    "rock 'N' □", "rock N'□ roll", 'R & D □', 'I & □□', "the '90s □", "y'all'□□", 'x%□□', '5%□', 'a<□□', 'a->□', 'no.□No',
    'x 5\'□"□', "x 5'□ □", 'x 5□□6', 'x 6"□ □', 'AB□ & C□', 'A□ & □CD', 'A□C & D', '□AB C & D', 'AB□ C & D', 'A & B CD□', '_nsd_ □', '_nsge_□ _protected_1_ :) a.b/c', 'x A & B□□', 'A B & □□', 'x 5,□\'1.□"',
]
THOROUGH = [
    '◇◇◇◇', '□□□', 'a□□□b', ' 5□□□ ', '▢d▢d▢d▢d▢d', '▢c▢c▢c▢c▢c', '▢s▢s▢s▢s▢s', '▢o▢o▢o▢o▢o', '▢q▢q▢q▢q▢q', '▢a▢a▢a▢a▢a▢a▢a',
    '▢u▢u▢u▢u▢u', '▢p▢p▢p▢p▢p', 'www.a.com□□□', '□□www.a.com□', 'a.b/□□□', 'http://a.b/c □□□', "x 'n' □□□", 'Mr. □□□x',
    'A □ B □ C□', 'foo:□□□', 'abc□□□def', 'www.▢u▢u▢u▢u a', 'x ▢u▢u▢u▢u/ y', ':) □□□ ;-)', "▢q▢q▢q▢q▢q▢q",
]

# the same tokenizer on one text after another
HISTORY = ['It Is.  OK >> it is. □k', 'a □ >> A□', 'www.a.com/□ :) >> see b.com/c □ :(', "x 'n' y >> a.b/□ 'n' □", 'Mr. X  y >> mr. x □', 'a.b/c a.b/d >> a.b/d □ a.b/c', '□ >> □', 'A & B □ >> a & B □',
           'www.a.com >> b >> www.a.com/□', 'a >> :) □']

# long texts with one free character
LONG = {
    'long text': 'A word, he said; see b.c/d :) no. ' * 12 + 'Mr. X%s is 5 & more' ,
    'long line': 'He is so. ' * 30 + 'ok%s Yes. ' + 'She (a. b) is "c. D". ' * 8,
    'very long': 'He is. ' * 720 + '%s end. ' + 'x ' * 400,
    'long quote': 'He said "' + 'A b. C? ' * 25 + '%s D" e. F (' + 'g. H! ' * 25 + ') i.',
}
LONG = {k: v % '▢p' for k, v in LONG.items()}


def cases(tier):
    return (QUICK if tier == 'quick' else THOROUGH + QUICK) + HISTORY + list(LONG)


def run(ctx, case):
    tk = ctx.keep('tokenizer', lambda: ctx.mod('preprocessing.tokenizer').Tokenizer())
    text = build(ctx, LONG.get(case, case))
    tokens = tk(text)
    ctx.observe('text', text)
    ctx.observe('tokens', tokens)
    ctx.stable('the list of tokens', tokens)
    units = raw_units(text)
    problem, pairs = align(units, tokens)
    ctx.check(problem is None, 'tokens do not spell the text: %s' % problem)
    ctx.check(all([len(t) > 0 for t in tokens]), 'empty token')
    ctx.check(not any([c.isspace() for t in tokens for c in t]), 'white space in a token')
    ctx.check(not glue_problem(units, pairs, tokens), 'words glued together')
    ctx.cover('several tokens') if len(tokens) > 1 else None


COVER = ['several tokens']
