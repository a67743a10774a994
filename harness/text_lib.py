"""Specification of 'same text up to the documented normalisations' (shared by C01-C04)."""

SINGLE_Q = '‘’′'
DOUBLE_Q = '“”″'
DASHES = '–—'


def is_ws(c):
    return c.isspace()


def raw_units(text, blocks=False):
    """Non-blank characters of the text after typographic normalisation.
    Each unit: [char, blank_before, allowed, position] where allowed is None, 'ft', 'in' or ('stars', n).
    blocks: quotes and brackets count as white space in front of a number (they are handled apart)"""
    units = []
    n = len(text)
    i = 0
    blank = False
    num_ok = False   # the text just before is white space + number characters
    last_blank = False
    while i < n:
        c = text[i]
        start = i
        if is_ws(c):
            blank = True
            last_blank = True
            num_ok = False
            i += 1
            continue
        if c in DASHES:
            while i < n and text[i] in DASHES:
                i += 1
            units.append(['-', True, None, start])
            blank = True
            last_blank = True
            num_ok = False
            continue
        allowed = None
        if c in SINGLE_Q:
            c = "'"
        elif c in DOUBLE_Q:
            c = '"'
        if c == '*' and i > 0 and text[i - 1].isalpha():
            j = i
            while j < n and text[j] == '*':
                j += 1
            if j - i > 1 and j < n and text[j].isalpha():
                units.append(['*', blank, ('stars', j - i), start])
                blank = False
                last_blank = False
                num_ok = False
                i = j
                continue
        if c == "'" and num_ok:
            # feet (and inches: the number may go on)
            units.append([c, blank, 'ft', start])
            blank = last_blank = False
            i += 1
            continue
        if c == '"' and num_ok:
            allowed = 'in'
        if c.isdecimal():
            num_ok = num_ok or last_blank
        elif not (num_ok and c in ',.'):
            num_ok = False
        units.append([c, blank, allowed, start])
        blank = False
        last_blank = blocks and c in '"()'
        i += 1
    return units


def align(units, tokens):
    """Matches the characters of the tokens with the units. Returns (problem or None, list of (unit index, token index))"""
    out = []
    for ti, tok in enumerate(tokens):
        for c in tok:
            out.append((c, ti))
    o = 0
    pairs = []
    for k, (c, blank, allowed, _) in enumerate(units):
        if o >= len(out):
            return 'text is lost', pairs
        if allowed is not None and allowed[0] == 'stars':
            r = 0
            while o + r < len(out) and r < allowed[1] and out[o + r][0] == '*':
                r += 1
            if r != allowed[1] and r != 1:
                return 'stars are lost', pairs
            pairs.append((k, out[o][1]))
            o += r
            continue
        if out[o][0] == c:
            pairs.append((k, out[o][1]))
            o += 1
            continue
        if allowed is not None and o + 1 < len(out) and out[o][0] == allowed[0] and out[o + 1][0] == allowed[1]:
            pairs.append((k, out[o][1]))
            o += 2
            continue
        return 'text is changed or out of order', pairs
    if o < len(out):
        return 'text is invented', pairs
    return None, pairs


COMPARISONS = ('>=', '<=', '=>', '=<')


def glue_problem(units, pairs, tokens):
    """White space of the text always separates tokens, up to the documented re-attachments"""
    for x in range(1, len(pairs)):
        k, ti = pairs[x]
        if not units[k][1]:
            continue
        if pairs[x - 1][1] != ti:
            continue
        tok = tokens[ti]
        a, b = units[pairs[x - 1][0]][0], units[k][0]
        if a == '.' and b == '.':
            continue
        if tok in COMPARISONS:
            continue
        if '&' in tok and (a == '&' or a.isupper()) and (b == '&' or b.isupper()) and initials_around(tok):
            continue
        return True
    return False


def initials_around(tok):
    """One ampersand of the token stands between initials (one or two capitals that are no part of a longer word)"""
    n = len(tok)
    for i in range(n):
        if tok[i] == '&':
            l = i
            while l > 0 and is_word(tok[l - 1]):
                l -= 1
            r = i + 1
            while r < n and is_word(tok[r]):
                r += 1
            if 1 <= i - l <= 2 and 1 <= r - i - 1 <= 2 and all([is_cap(c) for c in tok[l:i] + tok[i + 1:r]]):
                return True
    return False


def is_word(c):
    return c.isalnum() or c == '_'


def is_cap(c):
    return 'A' <= c <= 'Z'


# -- input families -----------------------------------------------------------------------------

ASCII = [chr(i) for i in range(32, 127)]
OTHER = list('\t\n\r\x0b\x0c\x1c\x85\u00a0\u2009\u2028\u3000‘’′“”″–—…éßÉİıſKàñç٣²½一か€£°·×«»‹›−‐‑¿¡™א\u200b\u0301😀ǅ')
FULL = ASCII + OTHER
PUNCT = ['a', 'A', '5', ' ', '.', ',', "'", '"', '-', '&', '/', ':', '>', '=', '*', '(', '!', '%', '+', ';', ')', '\n', '?', '<', '[', '–']
THEMES = {
    'dot': ['a', 'B', '5', ' ', '.', ',', '?', "'"],
    'quote': ['a', 's', 't', '5', ' ', "'", '"', '.', 'n'],
    'cmp': ['a', '5', '>', '<', '=', ' ', '-'],
    'amp': ['A', 'b', ' ', '&'],
    'star': ['a', '*', ' ', '+', '5', '%', '-'],
    'colon': ['a', 'B', '5', ' ', ':', ')', '(', '-', ';'],
    'url': ['a', '.', '/', ' ', ':', 'w', "'"],
    'paren': ['a', '.', ' ', '(', ')', '"', '?'],
}


def build(ctx, spec, any_alphabet=None):
    """Text of a template: □ any character, ◇ a character of PUNCT, ▢x a character of theme x (one letter code)"""
    parts = []
    k = 0
    i = 0
    codes = {'d': 'dot', 'q': 'quote', 'c': 'cmp', 'a': 'amp', 's': 'star', 'o': 'colon', 'u': 'url', 'p': 'paren'}
    while i < len(spec):
        c = spec[i]
        if c == '□':
            parts.append(ctx.text('h%d' % k, 1, any_alphabet or FULL))
            k += 1
        elif c == '◇':
            parts.append(ctx.text('h%d' % k, 1, PUNCT))
            k += 1
        elif c == '▢':
            i += 1
            parts.append(ctx.text('h%d' % k, 1, THEMES[codes[spec[i]]]))
            k += 1
        else:
            parts.append(c)
        i += 1
    return ''.join(parts)


def passages(text):
    """Spans (start, end) of quoted and bracketed passages, line by line"""
    spans = []
    inq = [False] * len(text)
    # quotes pair up from left to right within a line
    open_q = None
    for i in range(len(text)):
        c = text[i]
        if c in '\t\n\r':
            open_q = None
        elif c == '"':
            if open_q is None:
                open_q = i
            else:
                spans.append((open_q, i + 1))
                for j in range(open_q, i + 1):
                    inq[j] = True
                open_q = None
    open_b = None
    for i in range(len(text)):
        c = text[i]
        if c in '\t\n\r':
            open_b = None
        elif inq[i]:
            continue
        elif c == '(' and open_b is None:
            open_b = i
        elif c == ')' and open_b is not None:
            spans.append((open_b, i + 1))
            open_b = None
    return spans
