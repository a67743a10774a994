from scrappybara_verif_text import align, build, passages, raw_units

BUDGET = {'quick': 300, 'thorough': 840}
BOUNDS = 'texts of 2 to 6 free characters over reduced alphabets, 1 to 3 over a 160-character alphabet in fixed contexts'
BOUNDS += '; texts of up to 2500 characters with one free character, up to 112 quotes or brackets'
ASSUMPTIONS = ['the text does not contain the splitter\'s own markers (¶ ༺ ༻ ⦅ ⦆) nor the tokenizer\'s placeholders']

QUICK = [
    '▢p▢p▢p▢p▢p', '▢d▢d▢d▢d', '▢p▢p▢p\n▢p', 'Go ▢p▢p▢p Yes', 'He said "▢p▢p▢p" x', 'Ok (▢p▢p▢p) x. Y', '"a."▢p▢p▢p', '"▢p."▢p▢p', '(a "b."▢p▢p',
    'A b□ C d□', 'A b.□C□', 'A b. □□', 'A b "c□ d.□" E f.', 'A b (c□ d.□) E f.', '"Hello□world." He said "bye".', '(He said "Hi."□) ok. Done.',
    'a "b. c□" (d? "e! f□" g) h□ i', 'A "b (c. d" e) f□ G', 'Mr. □ went. Then', 'a:□b. C', 'A b?□! C', 'a□b\n"c\td□', 'A.□B. □', '"a." "b."□ "c." D',
    '(a.) (b.)□ (c.) D', '"a.□" b', '"a□" b. C', 'He is 5\'11"□ tall. "A□" b', '"a. b? c! d: e□ f" g. H', '(a. b? c! d: e□ f) g. H', 'x... □ Y', 'x □.. Y', 'e.g. □ y. Z',
    '"1." "2." "3." "4." "5." "6." "7." "8." "9." "10." "11." "12."□ □', '(1.) (2.) (3.) (4.) (5.) (6.) (7.) (8.) (9.) (10.) (11.) (12.)□ □ B. C',
    'www.a.com. □ b. C', '□ 3.5 □. A', 'A\r\n□. B', '“A. b□” c. D', 'A ; b□ c. D', 'Wow!!□ no', 'U.S. □', 'a )□( b. C', 'A . □', ': □', '"□." .', 'a.. □. B',
    'A () b□ C (d) e□', 'A "" b□ C "d" e□', '(a□) B. C (d) e', 'A (□) b. C', '"□" b. C "d. E"', 'A (b "c. D" e. F)□ g', 'A "b (c. D) e. F"□ g',
]
THOROUGH = ['▢p▢p▢p▢p▢p▢p▢p', '▢d▢d▢d▢d▢d▢d', '▢p▢p▢p▢p\n▢p▢p▢p', '"▢p▢p▢p▢p"▢p▢p', '(▢p▢p▢p▢p)▢p▢p', 'A □□□ B', 'A b.□□□', '"a."□□□', 'A □□. □', '"□□." □. B', '(□□.) □. B',
            '◇◇◇◇', 'A.◇◇◇B']

ENDERS = '.?!:'

# the same splitter on one text after another
HISTORY = ['"A b. c" (d) >> E "f. G□" (h. I) j', 'A b "c >> D e." F□ G', '(a >> b. c) □ D', 'A. >> b □', '"a. b" "c" >> "d. e□" F. "g"', 'A b >> C d. E□', 'A "b. C" d >> a "B. c" D□']

# long texts with one free character
LONG = {
    'long text': 'A word, he said; see b.c/d :) no. ' * 12 + 'Mr. X%s is 5 & more' ,
    'long line': 'He is so. ' * 30 + 'ok%s Yes. ' + 'She (a. b) is "c. D". ' * 8,
    'many quotes': ' '.join(['"q%d. r"' % i for i in range(26)]) + ' x%s "y. z" K.',
    'many brackets': ' '.join(['(b%d. c)' % i for i in range(26)]) + ' x%s (y. z) K.',
    'more quotes': ' '.join(['"%d"' % i for i in range(112)]) + '%s (y) K.',
    'more brackets': ' '.join(['(%d)' % i for i in range(112)]) + '%s "y" K.',
    'many lines': '\n'.join(['Line %d. Is "a. b"' % i for i in range(30)]) + '%s\nx (y.\nz)',
    'very long': 'He is. ' * 250 + '%s end. ' + 'x ' * 400,
    'long quote': 'He said "' + 'A b. C? ' * 25 + '%s D" e. F (' + 'g. H! ' * 25 + ') i.',
}
LONG = {k: v % '▢p' for k, v in LONG.items()}


def cases(tier):
    return (QUICK if tier == 'quick' else THOROUGH + QUICK) + HISTORY + list(LONG)


def run(ctx, case):
    sz = ctx.keep('sentencizer', lambda: ctx.mod('preprocessing.sentencizer').Sentencizer())
    text = build(ctx, LONG.get(case, case))
    ctx.observe('text', text)
    sents = sz(text)
    ctx.observe('sentences', sents)
    ctx.stable('the list of sentences', sents)
    flat = [(si, ti) for si, s in enumerate(sents) for ti in range(len(s))]
    tokens = [t for s in sents for t in s]
    units = raw_units(text, True)
    problem, pairs = align(units, tokens)
    if problem is not None:
        return   # content is property C03
    spans = passages(text)

    def inside(pos):
        for a, b in spans:
            if a <= pos < b:
                return True
        return False

    sent_of = {}
    for k, tk in pairs:
        sent_of[k] = flat[tk][0]
    # a passage stays in one sentence
    for a, b in spans:
        ss = [sent_of[k] for k, u in enumerate(units) if a <= u[3] < b]
        ctx.check(all([x == ss[0] for x in ss]), 'a quoted or bracketed passage is spread over sentences')
        if b - a > 2:
            ctx.cover('passage')
    outside_tok = {}
    for k, tk in pairs:
        if not inside(units[k][3]):
            outside_tok[tk] = k
    # enders are last
    for tk, (si, ti) in enumerate(flat):
        t = tokens[tk]
        if tk in outside_tok and len(t) > 0 and all([c in ENDERS for c in t]):
            ctx.check(ti == len(sents[si]) - 1, 'a sentence goes on after its end mark')
            ctx.cover('ender')
    # between neighbouring characters
    for k in range(1, len(units)):
        p, q = units[k - 1], units[k]
        newline = any([c in '\t\n\r' for c in text[p[3]:q[3]]])
        same = sent_of[k] == sent_of[k - 1]
        if newline:
            ctx.check(not same, 'a sentence runs over a line break')
            continue
        after_quoted_stop = text[p[3]] == '"' and p[3] > 0 and text[p[3] - 1] == '.'
        in_passage = any([a <= p[3] and q[3] < b for a, b in spans])
        if not same:
            prev_tok = [t for kk, t in pairs if kk == k - 1][0]
            t = tokens[prev_tok]
            ender = all([c in ENDERS for c in t]) and prev_tok in outside_tok
            ctx.check(ender or after_quoted_stop, 'a sentence ends without end mark')
        if after_quoted_stop and not in_passage and not any([a == p[3] for a, b in spans]):
            ctx.check(not same, 'a sentence goes on after a full stop and closing quote')
            ctx.cover('quoted stop')


COVER = ['passage', 'ender', 'quoted stop']
