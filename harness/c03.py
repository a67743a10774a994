from scrappybara_verif_text import align, build, glue_problem, raw_units

BUDGET = {'quick': 300, 'thorough': 840}
BOUNDS = 'texts of 2 to 6 free characters over reduced alphabets, 1 to 3 over a 160-character alphabet in fixed contexts; ' \
         'up to 12 quotes and 12 brackets'
BOUNDS += '; texts of up to 5000 characters with one free character, up to 112 quotes or brackets'
ASSUMPTIONS = ['the text does not contain the splitter\'s own markers (¶ ༺ ༻ ⦅ ⦆) nor the tokenizer\'s placeholders']

QUICK = [
    '□□', '◇◇◇', '▢p▢p▢p▢p▢p', '▢p▢p▢p\n▢p', 'He said "▢p▢p▢p" x', '(▢p▢p▢p) x. Y', '"a."▢p▢p▢p', '"▢p."▢p▢p', '(a "b."▢p▢p',
    'a.□"□', '"□." □', '(□) □', ' 5."□', ' 5"□6"□', '"Hello□world." He said "bye".', '(He said "Hi."□) ok. Done.', 'He said "hi."□then',
    'a "b" (c "d□" e) □', '"a (b" c)□', '((a)□ b)□', 'A.□B. □', 'Mr. □ x. Y', '“a.□” □', 'a:□ b', 'x?!□ y', '"□', '□"', '(□', '□)', ')□(', '"□" "□"',
    '"1" "2" "3" "4" "5" "6" "7" "8" "9" "10" "11" "12"□ □', '(1) (2) (3) (4) (5) (6) (7) (8) (9) (10) (11) (12)□ □',
    '"q0" (b0 "q1") "q2" (b1 "q3 (x)" y) "q□" □', '(a) "b" (c) "d" (e). "f" (g "h" i)□ □',
    'www.a.com/"x"□ (www.b.c/□) y', "x 'n' \"y\"□ 'n' (z)", 'He is 5\'11"□ tall "a□"', 'a\n□b', 'a\r\n"b□"\tc', ' □ ', '"a."\n□"b."', 'x —"y□"— z',
    '"a. b."□c "d." e□', '1) a□ 2) b', ':) (:□ ;)', 'a ( b. □', 'e.g. "x. y□" (p. 5□)', '"""□"', '()□""', 'A & "B□"', '"A" & B□', '> "=□"', 'it"s□', '…"□',
]
THOROUGH = ['□□□', '◇◇◇◇', '▢p▢p▢p▢p▢p▢p▢p', '▢p▢p▢p▢p\n▢p▢p▢p', '"▢p▢p▢p▢p"▢p▢p', '(▢p▢p▢p▢p)▢p▢p', '"□□□"', '(□□□)', 'a.□□□"', '"a."□□□', '□□."□',
            'He said "▢q▢q▢q▢q" x', '"▢d▢d▢d▢d" ▢d▢d']

# the same splitter on one text after another
HISTORY = ['"a" (b) >> "c□" (d) □', 'A "b. C" >> A (b. c□) D', '"A. □ >> b. C" d□', '(a >> b) □', 'A "b" >> a "B□"', '"a" "b" (c) >> "d□"', 'A. "b c." >> d □', '(a "b" c) >> "x (y) z□"', 'www.a.com "b" >> "c" :) □']

# long texts with one free character
LONG = {
    'long text': 'A word, he said; see b.c/d :) no. ' * 12 + 'Mr. X%s is 5 & more' ,
    'long line': 'He is so. ' * 30 + 'ok%s Yes. ' + 'She (a. b) is "c. D". ' * 8,
    'many quotes': ' '.join(['"q%d. r"' % i for i in range(26)]) + ' x%s "y. z" K.',
    'many brackets': ' '.join(['(b%d. c)' % i for i in range(26)]) + ' x%s (y. z) K.',
    'more quotes': ' '.join(['"%d"' % i for i in range(112)]) + '%s (y) K.',
    'more brackets': ' '.join(['(%d)' % i for i in range(112)]) + '%s "y" K.',
    'many lines': '\n'.join(['Line %d. Is "a. b"' % i for i in range(30)]) + '%s\nx (y.\nz)',
    'very long': 'He is. ' * 720 + '%s end. ' + 'x ' * 400,
    'long quote': 'He said "' + 'A b. C? ' * 25 + '%s D" e. F (' + 'g. H! ' * 25 + ') i.',
}
LONG = {k: v % '▢p' for k, v in LONG.items()}


def cases(tier):
    return (QUICK if tier == 'quick' else THOROUGH + QUICK) + HISTORY + list(LONG)


def run(ctx, case):
    sz = ctx.keep('sentencizer', lambda: ctx.mod('preprocessing.sentencizer').Sentencizer())
    text = build(ctx, LONG.get(case, case))
    ctx.observe('text', text)
    sents = sz(text)
    ctx.observe('sentences', sents)
    ctx.stable('the list of sentences', sents)
    tokens = [t for s in sents for t in s]
    units = raw_units(text, True)
    problem, pairs = align(units, tokens)
    ctx.check(problem is None, 'sentences do not spell the text: %s' % problem)
    ctx.check(not any([c.isspace() for t in tokens for c in t]), 'white space in a token')
    ctx.check(not glue_problem(units, pairs, tokens), 'words glued together')
    if len(sents) > 1:
        ctx.cover('several sentences')


COVER = ['several sentences']
