"""Regular expressions over symbolic strings.

The real pattern is parsed by the standard library's own parser; the parse tree is interpreted by a
backtracking matcher in which every "character in class" test is a decision of the engine.  The
members of a class are computed by the standard library's own matcher, character by character.
"""
import re
import re._compiler as rc
import re._constants as C
import re._parser as rp

from sx.core import E, Fin, SymBool, Unsupported, f_or, is_sym
from sx.strs import Seg, SymStr, char_eq, char_test, chars_of, dec, is_str, mk

_csets = {}


class CSet:
    __slots__ = ('key', 'rx', 'cache')

    def __init__(self, key, rx):
        self.key = key
        self.rx = rx
        self.cache = {}

    def pred(self, ch):
        r = self.cache.get(ch)
        if r is None:
            r = self.cache[ch] = self.rx.fullmatch(ch) is not None
        return r

    def test(self, c):
        if type(c) is str:
            return self.pred(c)
        return char_test(c, self.key, self.pred)


def cset(node, flags):
    flags &= (re.I | re.A | re.S | re.U | re.L)
    key = ('cs', repr(node), int(flags))
    got = _csets.get(key)
    if got is None:
        st = rp.State()
        st.flags = int(flags)
        st.str = ''
        got = _csets[key] = CSet(key, rc.compile(rp.SubPattern(st, [node]), int(flags)))
    return got


WORD = None


def word_set(flags):
    return cset((C.IN, [(C.CATEGORY, C.CATEGORY_WORD)]), flags)


SINGLE = (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY)


def build(nodes, flags):
    ms = [build_node(op, av, flags) for op, av in nodes]
    if not ms:
        return lambda S, i, caps, k: k(i, caps)
    if len(ms) == 1:
        return ms[0]
    n = len(ms)

    def m(S, i, caps, k):
        def step(idx, i, caps):
            if idx == n - 1:
                return ms[idx](S, i, caps, k)
            return ms[idx](S, i, caps, lambda j, cp: step(idx + 1, j, cp))
        return step(0, i, caps)
    return m


def build_node(op, av, flags):
    if op in SINGLE:
        cs = cset((op, av), flags)
        test = cs.test

        def m(S, i, caps, k):
            if i < S.n and dec(test(S.c[i])):
                return k(i + 1, caps)
            return None
        return m
    if op is C.BRANCH:
        alts = [build(a, flags) for a in av[1]]

        def m(S, i, caps, k):
            for a in alts:
                r = a(S, i, caps, k)
                if r is not None:
                    return r
            return None
        return m
    if op is C.SUBPATTERN:
        group, add, dele, p = av
        body = build(p, (flags | add) & ~dele)
        if group is None:
            return body

        def m(S, i, caps, k):
            def kk(j, cp):
                cp = dict(cp)
                cp[group] = (i, j)
                return k(j, cp)
            return body(S, i, caps, kk)
        return m
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
        lo, hi, p = av
        hi = 10 ** 9 if hi is C.MAXREPEAT else hi
        lo = int(lo)
        if len(p) == 1 and p[0][0] in SINGLE:
            test = cset(p[0], flags).test
            if op is C.MAX_REPEAT:
                def m(S, i, caps, k):
                    j = i
                    c = S.c
                    lim = S.n if hi >= S.n - i else i + hi
                    while j < lim and dec(test(c[j])):
                        j += 1
                    while j >= i + lo:
                        r = k(j, caps)
                        if r is not None:
                            return r
                        j -= 1
                    return None
            elif op is C.MIN_REPEAT:
                def m(S, i, caps, k):
                    j = i
                    c = S.c
                    while j < i + lo:
                        if j < S.n and dec(test(c[j])):
                            j += 1
                        else:
                            return None
                    while True:
                        r = k(j, caps)
                        if r is not None:
                            return r
                        if j < S.n and j - i < hi and dec(test(c[j])):
                            j += 1
                        else:
                            return None
            else:
                def m(S, i, caps, k):
                    j = i
                    while j < S.n and j - i < hi and dec(test(S.c[j])):
                        j += 1
                    return k(j, caps) if j - i >= lo else None
            return m
        body = build(p, flags)
        if op is C.MAX_REPEAT:
            def m(S, i, caps, k):
                def rep(i, caps, count):
                    if count < hi:
                        r = body(S, i, caps, lambda j, cp: None if (j == i and count >= lo) else rep(j, cp, count + 1))
                        if r is not None:
                            return r
                    if count >= lo:
                        return k(i, caps)
                    return None
                return rep(i, caps, 0)
        elif op is C.MIN_REPEAT:
            def m(S, i, caps, k):
                def rep(i, caps, count):
                    if count >= lo:
                        r = k(i, caps)
                        if r is not None:
                            return r
                    if count < hi:
                        return body(S, i, caps, lambda j, cp: None if (j == i and count >= lo) else rep(j, cp, count + 1))
                    return None
                return rep(i, caps, 0)
        else:
            def m(S, i, caps, k):
                count = 0
                while count < hi:
                    r = body(S, i, caps, lambda j, cp: (j, cp))
                    if r is None or (r[0] == i and count >= lo):
                        break
                    i, caps = r
                    count += 1
                return k(i, caps) if count >= lo else None
        return m
    if op is C.ATOMIC_GROUP:
        body = build(av, flags)

        def m(S, i, caps, k):
            r = body(S, i, caps, lambda j, cp: (j, cp))
            return None if r is None else k(*r)
        return m
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, p = av
        body = build(p, flags)
        width = None
        if direction < 0:
            lo, hi = p.getwidth()
            width = lo
        positive = op is C.ASSERT

        def m(S, i, caps, k):
            st = i
            if width is not None:
                st = i - width
                if st < 0:
                    return None if positive else k(i, caps)
            r = body(S, st, caps, lambda j, cp: (j, cp) if (width is None or j == i) else None)
            if positive:
                return None if r is None else k(i, r[1])
            return k(i, caps) if r is None else None
        return m
    if op is C.AT:
        multi = bool(flags & re.M)
        ws = word_set(flags)
        nl = cset((C.LITERAL, 10), 0)

        def m(S, i, caps, k):
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (av is C.AT_BEGINNING and multi and dec(nl.test(S.c[i - 1])))
            elif av is C.AT_END_STRING:
                ok = i == S.n
            elif av is C.AT_END:
                ok = i == S.n or (multi and dec(nl.test(S.c[i]))) or \
                     (not multi and i == S.n - 1 and dec(nl.test(S.c[i])))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and dec(ws.test(S.c[i - 1]))
                b = i < S.n and dec(ws.test(S.c[i]))
                ok = (a != b) == (av is C.AT_BOUNDARY)
                if S.n == 0:
                    ok = False
            else:
                raise Unsupported('regex anchor %r' % av)
            return k(i, caps) if ok else None
        return m
    if op is C.GROUPREF:
        def m(S, i, caps, k):
            sp = caps.get(av)
            if sp is None:
                return None
            for d in range(sp[1] - sp[0]):
                if i + d >= S.n or not dec(char_eq(S.c[sp[0] + d], S.c[i + d])):
                    return None
            return k(i + sp[1] - sp[0], caps)
        return m
    raise Unsupported('regex node %r' % (op,))


def firsts(nodes, flags):
    """Character classes a match must start with, or None when it may be empty/unknown"""
    out = []
    for op, av in nodes:
        if op in SINGLE:
            out.append(cset((op, av), flags))
            return out
        if op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            continue
        if op is C.SUBPATTERN:
            r = firsts(av[3], (flags | av[1]) & ~av[2])
            if r is None:
                return None
            return out + r
        if op is C.BRANCH:
            rs = [firsts(a, flags) for a in av[1]]
            if any(r is None for r in rs):
                return None
            return out + [c for r in rs for c in r]
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            r = firsts(av[2], flags)
            if r is None:
                return None
            out = out + r
            if av[0] > 0:
                return out
            continue
        return None
    return None


def musts(nodes, flags, out):
    for op, av in nodes:
        if op in SINGLE:
            out.append(cset((op, av), flags))
        elif op is C.SUBPATTERN:
            musts(av[3], (flags | av[1]) & ~av[2], out)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT) and av[0] > 0:
            musts(av[2], flags, out)
        elif op is C.ASSERT:
            musts(av[1], flags, out)
    return out


class Subject:
    __slots__ = ('c', 'n', 's', 'conc', 'sym')

    def __init__(self, s):
        self.s = s
        self.c = chars_of(s)
        self.n = len(self.c)
        self.conc = {c for c in self.c if type(c) is str}
        self.sym = [c for c in self.c if type(c) is not str]


_pat_cache = {}


class SxPattern:
    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = real.groupindex
        self._m = None

    def _prep(self):
        if self._m is None:
            tree = rp.parse(self.pattern, self.flags & ~int(re.DEBUG))
            fl = tree.state.flags
            self._m = build(tree, fl)
            self._first = firsts(tree, fl)
            ms = {c.key: c for c in musts(tree, fl, [])}
            self._must = list(ms.values())

    def __repr__(self):
        return repr(self.real)

    def __eq__(self, o):
        return isinstance(o, SxPattern) and o.real == self.real

    def __hash__(self):
        return hash(self.real)

    # -- core
    def _possible(self, S):
        for cs in self._must:
            for c in S.conc:
                if cs.pred(c):
                    break
            else:
                for c in S.sym:
                    if cs.test(c) is not False:
                        break
                else:
                    return False
        return True

    def _at(self, S, i, full=False, nonempty=False):
        def k(j, cp):
            if full and j != S.n:
                return None
            if nonempty and j == i:
                return None
            return (j, cp)
        r = self._m(S, i, {}, k)
        if r is None:
            return None
        return SxMatch(self, S, i, r[0], r[1])

    def _search(self, S, start, nonempty_at_start=False):
        first = self._first
        for i in range(start, S.n + 1):
            if first is not None:
                if i >= S.n:
                    return None
                c = S.c[i]
                for cs in first:
                    if cs.test(c) is not False:
                        break
                else:
                    continue
            r = self._at(S, i, nonempty=(nonempty_at_start and i == start))
            if r is not None:
                return r
        return None

    def _iter(self, S):
        self._prep()
        if not self._possible(S):
            return
        pos = 0
        must_adv = False
        while pos <= S.n:
            E.tick()
            m = self._search(S, pos, must_adv)
            if m is None:
                return
            yield m
            must_adv = m._e == m._s
            pos = m._e

    @staticmethod
    def _sym(s):
        if isinstance(s, Fin):
            return s.as_symstr_or_concrete()
        return s

    # -- API
    def match(self, string, *a):
        string = self._sym(string)
        if type(string) is not SymStr:
            return self.real.match(string, *a)
        if a:
            raise Unsupported('match with pos')
        self._prep()
        S = Subject(string)
        return self._at(S, 0) if self._possible(S) else None

    def fullmatch(self, string, *a):
        string = self._sym(string)
        if type(string) is not SymStr:
            return self.real.fullmatch(string, *a)
        if a:
            raise Unsupported('fullmatch with pos')
        self._prep()
        S = Subject(string)
        return self._at(S, 0, full=True) if self._possible(S) else None

    def search(self, string, *a):
        string = self._sym(string)
        if type(string) is not SymStr:
            return self.real.search(string, *a)
        self._prep()
        S = Subject(string)
        if len(a) > 1:
            raise Unsupported('search with endpos')
        return self._search(S, a[0] if a else 0) if self._possible(S) else None

    def finditer(self, string, *a):
        string = self._sym(string)
        if type(string) is not SymStr:
            return self.real.finditer(string, *a)
        if a:
            raise Unsupported('finditer with pos')
        return self._iter(Subject(string))

    def findall(self, string, *a):
        string = self._sym(string)
        if type(string) is not SymStr:
            return self.real.findall(string, *a)
        out = []
        for m in self.finditer(string, *a):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.span(1) != (-1, -1) else '')
            else:
                out.append(m.groups(''))
        return out

    def _expander(self, repl):
        if callable(repl) and not is_str(repl):
            return repl
        if is_sym(repl):
            if any(type(c) is not str for c in chars_of(repl)) and dec(
                    f_or([char_test(c, ('=', '\\'), lambda v: v == '\\') for c in chars_of(repl)])):
                raise Unsupported('backslash in a symbolic template')
            return lambda m: repl
        if '\\' not in repl:
            return lambda m: repl
        parts = rp.parse_template(repl, self.real)

        def exp(m):
            out = []
            for p in parts:
                if isinstance(p, int):
                    g = m.group(p)
                    out.extend(chars_of(g if g is not None else ''))
                else:
                    out.extend(p)
            return mk(out)
        return exp

    def subn(self, repl, string, count=0):
        string = self._sym(string)
        if type(string) is not SymStr and (type(repl) is str):
            return self.real.subn(repl, string, count)
        if type(string) is not SymStr and not is_str(string):
            raise TypeError('expected string or bytes-like object')
        S = Subject(string)
        exp = self._expander(repl)
        out = []
        last = 0
        n = 0
        for m in self._iter(S):
            out.extend(S.c[last:m._s])
            r = exp(m)
            out.extend(chars_of(r))
            last = m._e
            n += 1
            if count and n >= count:
                break
        if n == 0:
            return string, 0
        out.extend(S.c[last:])
        return mk(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        string = self._sym(string)
        if type(string) is not SymStr:
            return self.real.split(string, maxsplit)
        S = Subject(string)
        out = []
        last = 0
        n = 0
        for m in self._iter(S):
            out.append(mk(S.c[last:m._s]))
            for g in range(1, self.groups + 1):
                out.append(m.group(g))
            last = m._e
            n += 1
            if maxsplit and n >= maxsplit:
                break
        out.append(mk(S.c[last:]))
        return out


class SxMatch:
    def __init__(self, pat, S, s, e, caps):
        self.re = pat
        self._S = S
        self._s = s
        self._e = e
        self._caps = caps
        self.string = S.s

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return self._s, self._e
        if g > self.re.groups:
            raise IndexError('no such group')
        return self._caps.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def _one(self, g, default=None):
        s, e = self._span(g)
        if s < 0:
            return default
        return mk(self._S.c[s:e])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from sx.conts import SxDict
        return SxDict([(n, self._one(g, default)) for n, g in self.re.groupindex.items()])

    @property
    def lastindex(self):
        return max(self._caps) if self._caps else None

    def expand(self, template):
        return self.re._expander(template)(self)

    def __bool__(self):
        return True


def compile(pattern, flags=0):
    if isinstance(pattern, SxPattern):
        return pattern
    if is_sym(pattern):
        pattern = str(pattern)
    key = (type(pattern), pattern, int(flags))
    got = _pat_cache.get(key)
    if got is None:
        got = _pat_cache[key] = SxPattern(re.compile(pattern, flags))
    return got


def make_module():
    import types
    m = types.ModuleType('re')
    for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE', 'L',
              'LOCALE', 'error', 'Pattern', 'Match', 'RegexFlag', 'NOFLAG'):
        setattr(m, n, getattr(re, n))
    m.compile = compile

    def wrap(name):
        def f(pattern, *a, flags=0, **k):
            return getattr(compile(pattern, flags), name)(*a, **k)
        return f
    def flagged(name):
        def f(pattern, string, flags=0):
            return getattr(compile(pattern, flags), name)(string)
        return f
    for n in ('match', 'fullmatch', 'search', 'finditer', 'findall'):
        setattr(m, n, flagged(n))
    for n in ('sub', 'subn', 'split'):
        setattr(m, n, wrap(n))

    def escape(p):
        if is_sym(p):
            p = str(p)
        return re.escape(p)
    m.escape = escape
    m.purge = lambda: None
    m.template = compile
    return m
