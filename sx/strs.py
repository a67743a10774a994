"""Strings of concrete length whose characters may be symbolic."""
from sx.core import (E, Fin, SymBool, SymNum, Unsupported, contains, deep_sym, eq, f_and, f_lit, f_not, f_or, fin_eq,
                     fin_make, fin_map, is_sym, mkbool, tab_mask, bits, groups)

NUMCHARS = '0123456789.-+e'


class Seg:
    """A printed symbolic number: digits of unknown length"""
    __slots__ = ('val', 'fmt')

    def __init__(self, val, fmt):
        self.val = val
        self.fmt = fmt


def char_test(c, key, pred):
    """Formula: pred holds of character c"""
    if type(c) is str:
        return pred(c)
    if isinstance(c, Fin):
        return f_lit(c.var, tab_mask(c.tab, key, pred))
    chars = '0123456789' if c.fmt in ('d', 's', '') and not isinstance(c.val, float) else NUMCHARS
    res = [pred(x) for x in chars]
    if not any(res):
        return False
    if all(res):
        return True
    raise Unsupported('characters of a printed number')


def is_space(c):
    return char_test(c, 'isspace', str.isspace)


def char_eq(a, b):
    if a is b:
        return True
    if type(a) is str:
        if type(b) is str:
            return a == b
        return char_test(b, ('=', a), lambda v: v == a)
    if type(b) is str:
        return char_test(a, ('=', b), lambda v: v == b)
    if isinstance(a, Fin) and isinstance(b, Fin):
        return fin_eq(a.var, a.tab, b.var, b.tab)
    if isinstance(a, Seg) and isinstance(b, Seg):
        if a.fmt == b.fmt:
            return eq(a.val, b.val)
    raise Unsupported('comparing printed numbers')


def norm_char(c):
    """Collapse a Fin whose value is known"""
    if isinstance(c, Fin):
        r = fin_make(c.var, c.tab)
        return r
    return c


def mk(chars):
    out = []
    allc = True
    for c in chars:
        if type(c) is not str:
            c = norm_char(c)
            if type(c) is not str:
                allc = False
        out.append(c)
    if allc:
        return ''.join(out)
    return SymStr(tuple(out))


def chars_of(x):
    """Tuple of characters of any string value"""
    if type(x) is str:
        return tuple(x)
    if isinstance(x, SymStr):
        return x.c
    if isinstance(x, str):
        return tuple(str.__str__(x))
    if isinstance(x, Fin):
        if isinstance(x.sample(), str):
            if all(len(v) == 1 for v in x.values()):
                return (x,)
            return chars_of(x.concrete())
    raise TypeError('expected str instance, %s found' % type(x).__name__)


def is_str(x):
    return isinstance(x, (str, SymStr)) or (isinstance(x, Fin) and isinstance(x.sample(), str))


def dec(f):
    if f is True or f is False:
        return f
    return E.decide(f)


class SymStr:
    __slots__ = ('c',)
    _sx_sym = True

    def __init__(self, c):
        self.c = c

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return x
        return SymStr(chars_of(x))

    # -- protocol
    def _nosegs(self):
        for c in self.c:
            if isinstance(c, Seg):
                raise Unsupported('length of a printed number')

    def __len__(self):
        self._nosegs()
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        self._nosegs()
        return iter([mk((c,)) for c in self.c])

    def __getitem__(self, idx):
        self._nosegs()
        if isinstance(idx, slice):
            idx = slice(*[x.__index__() if is_sym(x) else x for x in (idx.start, idx.stop, idx.step)])
            return mk(self.c[idx])
        try:
            return mk((self.c[idx],))
        except IndexError:
            raise IndexError('string index out of range')

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(self.c + chars_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(chars_of(o) + self.c)

    def __mul__(self, n):
        return mk(self.c * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        from sx.shims import sx_mod
        return sx_mod(self, args)

    def _sx_eq(self, o):
        if not is_str(o):
            return False
        if isinstance(o, Fin) and not all(len(v) == 1 for v in o.values()):
            # word-valued: one disjunct per word
            fs = []
            for v, m in groups(o.tab).items():
                l = f_lit(o.var, m)
                if l is not False:
                    fs.append(f_and([l, self._sx_eq(v)]))
            return f_or(fs)
        oc = chars_of(o)
        if len(oc) != len(self.c):
            if any(isinstance(c, Seg) for c in self.c) or any(isinstance(c, Seg) for c in oc):
                raise Unsupported('comparing printed numbers')
            return False
        fs = []
        for a, b in zip(self.c, oc):
            f = char_eq(a, b)
            if f is False:
                return False
            fs.append(f)
        return f_and(fs)

    def __eq__(self, o):
        return mkbool(self._sx_eq(o))

    def __ne__(self, o):
        return mkbool(f_not(self._sx_eq(o)))

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        n = 1
        for c in self.c:
            if isinstance(c, Fin):
                n *= len(c.values())
            elif isinstance(c, Seg):
                raise Unsupported('concretising a printed number')
        if n > 3000:
            # too many values to enumerate: keep representatives only
            E.lossy('string concretised')
            out = []
            for c in self.c:
                if isinstance(c, Fin):
                    vals = c.values()
                    if len(vals) > 4:
                        step = len(vals) / 4.0
                        keep = {vals[int(i * step)] for i in range(4)}
                        E._apply(f_lit(c.var, tab_mask(c.tab, ('keep', tuple(sorted(keep))), lambda v: v in keep)))
                    out.append(fin_make(c.var, c.tab) if len(c.values()) == 1 else c.concrete())
                else:
                    out.append(c)
            return ''.join(out)
        return ''.join(c.concrete() if isinstance(c, Fin) else c for c in self.c)

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return 'SymStr(%s)' % ''.join(c if type(c) is str else '?' for c in self.c)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    # -- ordering (code points)
    def _lt(self, o, oreq):
        a, b = self.c, chars_of(o)
        for x, y in zip(a, b):
            if dec(char_eq(x, y)):
                continue
            if type(x) is str and type(y) is str:
                return x < y
            if isinstance(x, Fin):
                return bool(x < (y if not isinstance(y, Fin) else y)) if type(y) is str else _fin_lt(x, y)
            return bool(y > x)
        return len(a) < len(b) or (oreq and len(a) == len(b))

    def __lt__(self, o):
        return self._lt(o, False) if is_str(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if is_str(o) else NotImplemented

    def __gt__(self, o):
        return (not self._lt(o, True)) if is_str(o) else NotImplemented

    def __ge__(self, o):
        return (not self._lt(o, False)) if is_str(o) else NotImplemented

    # -- search
    def _match_at(self, i, sub):
        """Decides whether sub occurs at i (char by char)"""
        if i < 0 or i + len(sub) > len(self.c):
            return False
        fs = []
        for k in range(len(sub)):
            f = char_eq(self.c[i + k], sub[k])
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        for f in fs:
            if not dec(f):
                return False
        return True

    def _f_match_at(self, i, sub):
        if i < 0 or i + len(sub) > len(self.c):
            return False
        fs = []
        for k in range(len(sub)):
            f = char_eq(self.c[i + k], sub[k])
            if f is False:
                return False
            fs.append(f)
        return f_and(fs)

    def _sx_contains(self, item):
        sub = chars_of(item)
        if not sub:
            return True
        return mkbool(f_or([self._f_match_at(i, sub) for i in range(len(self.c) - len(sub) + 1)]))

    def __contains__(self, item):
        return bool(self._sx_contains(item))

    def _range(self, start, end):
        n = len(self.c)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._range(start, end)
        if start is not None and start > len(self.c):
            return -1
        for i in range(s, e - len(sub) + 1):
            if self._match_at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._match_at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._range(start, end)
        if not sub:
            return e - s + 1
        n = 0
        i = s
        while i + len(sub) <= e:
            if self._match_at(i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        s, e = self._range(start, end)
        sl = SymStr(self.c[s:e])
        if isinstance(pre, tuple):
            return mkbool(f_or([sl._f_match_at(0, chars_of(p)) for p in pre]))
        return mkbool(sl._f_match_at(0, chars_of(pre)))

    def endswith(self, suf, start=None, end=None):
        s, e = self._range(start, end)
        sl = SymStr(self.c[s:e])
        if isinstance(suf, tuple):
            return mkbool(f_or([sl._f_match_at(len(sl.c) - len(chars_of(p)), chars_of(p)) for p in suf]))
        p = chars_of(suf)
        return mkbool(sl._f_match_at(len(sl.c) - len(p), p))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        old = chars_of(old)
        new = chars_of(new)
        out = []
        i = 0
        n = 0
        if not old:
            if count == 0:
                return self
            for k, c in enumerate(self.c):
                if count < 0 or n < count:
                    out.extend(new)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(new)
            return mk(out)
        while i < len(self.c):
            if (count < 0 or n < count) and self._match_at(i, old):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(self.c[i])
                i += 1
        return mk(out)

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out = []
            cur = []
            i = 0
            n = len(self.c)
            c = self.c
            while i < n:
                while i < n and dec(is_space(c[i])):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and dec(is_space(c[j - 1])):
                        j -= 1
                    out.append(mk(c[i:j]))
                    return out
                j = i
                while j < n and not dec(is_space(c[j])):
                    j += 1
                out.append(mk(c[i:j]))
                i = j
            return out
        sep = chars_of(sep)
        if not sep:
            raise ValueError('empty separator')
        out = []
        start = 0
        i = 0
        while i + len(sep) <= len(self.c):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(i, sep):
                out.append(mk(self.c[start:i]))
                i += len(sep)
                start = i
            else:
                i += 1
        out.append(mk(self.c[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit')
        sepc = chars_of(sep)
        out = []
        end = len(self.c)
        i = end - len(sepc)
        while i >= 0:
            if len(out) < maxsplit and self._match_at(i, sepc) and i + len(sepc) <= end:
                out.append(mk(self.c[i + len(sepc):end]))
                end = i
                i -= len(sepc)
            else:
                i -= 1
        out.append(mk(self.c[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        out = []
        start = 0
        i = 0
        c = self.c
        n = len(c)
        while i < n:
            if dec(char_test(c[i], 'linebreak', lambda v: v in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')):
                j = i + 1
                if dec(char_test(c[i], ('=', '\r'), lambda v: v == '\r')) and j < n and \
                        dec(char_test(c[j], ('=', '\n'), lambda v: v == '\n')):
                    j += 1
                out.append(mk(c[start:j] if keepends else c[start:i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(mk(c[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        n = len(chars_of(sep))
        return mk(self.c[:i]), sep, mk(self.c[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        n = len(chars_of(sep))
        return mk(self.c[:i]), sep, mk(self.c[i + n:])

    def _strip_test(self, chars):
        if chars is None:
            return is_space
        cs = chars_of(chars)
        if all(type(x) is str for x in cs):
            s = ''.join(cs)
            return lambda c: char_test(c, ('strip', s), lambda v: v in s)
        return lambda c: f_or([char_eq(c, x) for x in cs])

    def strip(self, chars=None):
        return SymStr.of(self.lstrip(chars)).rstrip(chars)

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.c) and dec(t(self.c[i])):
            i += 1
        return mk(self.c[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        j = len(self.c)
        while j > 0 and dec(t(self.c[j - 1])):
            j -= 1
        return mk(self.c[:j])

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if k:
                out.extend(self.c)
            if not is_str(it):
                raise TypeError('sequence item %d: expected str instance, %s found' % (k, type(it).__name__))
            out.extend(chars_of(it))
        return mk(out)

    # -- mapping
    def _map(self, name, fn):
        out = []
        for c in self.c:
            if type(c) is str:
                out.append(fn(c))
            elif isinstance(c, Seg):
                out.append(c)
            else:
                r = fin_map(c, ('s.' + name,), fn)
                if isinstance(r, Fin) and not all(len(v) == 1 for v in r.values()):
                    r = r.concrete()
                if type(r) is str:
                    out.extend(r)
                else:
                    out.append(r)
        return mk(out)

    def lower(self):
        return self._map('lower', str.lower)

    def upper(self):
        return self._map('upper', str.upper)

    def casefold(self):
        return self._map('casefold', str.casefold)

    def swapcase(self):
        return self._map('swapcase', str.swapcase)

    def capitalize(self):
        if not self.c:
            return ''
        a = SymStr(self.c[:1])._map('title', str.title)
        b = SymStr(self.c[1:])._map('lower', str.lower)
        return a + b if not (type(a) is str and type(b) is str) else a + b

    def translate(self, table):
        out = []
        for c in self.c:
            def f(v):
                try:
                    r = table[ord(v)]
                except LookupError:
                    return v
                if r is None:
                    return ''
                return chr(r) if isinstance(r, int) else r
            if type(c) is str:
                out.extend(f(c))
            else:
                r = fin_map(c, None, f)
                if isinstance(r, Fin) and not all(len(v) == 1 for v in r.values()):
                    r = r.concrete()
                out.extend(r if type(r) is str else (r,))
        return mk(out)

    def _allc(self, name, pred):
        if not self.c:
            return False
        return mkbool(f_and([char_test(c, name, pred) for c in self.c]))

    def isspace(self):
        return self._allc('isspace', str.isspace)

    def isalpha(self):
        return self._allc('isalpha', str.isalpha)

    def isdigit(self):
        return self._allc('isdigit', str.isdigit)

    def isdecimal(self):
        return self._allc('isdecimal', str.isdecimal)

    def isnumeric(self):
        return self._allc('isnumeric', str.isnumeric)

    def isalnum(self):
        return self._allc('isalnum', str.isalnum)

    def isascii(self):
        return self._allc('isascii', str.isascii)

    def isprintable(self):
        return self._allc('isprintable', str.isprintable)

    def islower(self):
        return mkbool(f_and([
            f_not(f_or([char_test(c, 'cased_notlower', lambda v: v.isupper() or v.istitle()) for c in self.c])),
            f_or([char_test(c, 'islower', str.islower) for c in self.c])]))

    def isupper(self):
        return mkbool(f_and([
            f_not(f_or([char_test(c, 'cased_notupper', lambda v: v.islower() or v.istitle() and not v.isupper()) for c in self.c])),
            f_or([char_test(c, 'isupper', str.isupper) for c in self.c])]))

    def istitle(self):
        return self.concrete().istitle()

    def title(self):
        raise Unsupported('title')

    def ljust(self, w, fill=' '):
        return self + fill * max(0, w - len(self.c)) if w > len(self.c) else self

    def rjust(self, w, fill=' '):
        return fill * max(0, w - len(self.c)) + self if w > len(self.c) else self

    def zfill(self, w):
        return self.concrete().zfill(w)

    def format(self, *a, **k):
        from sx.shims import sx_format
        return sx_format(self, a, k)

    def encode(self, encoding='utf-8', *a):
        import codecs
        if codecs.lookup(encoding).name == 'utf-8':
            from sx.env import TextBytes
            return TextBytes(self)
        return self.concrete().encode(encoding, *a)

    def expandtabs(self, *a):
        return self.concrete().expandtabs(*a)


def _fin_lt(x, y):
    # two different variables: compare code points through z3
    ox = fin_map(x, 'ord', ord)
    oy = fin_map(y, 'ord', ord)
    return bool(ox < oy)
