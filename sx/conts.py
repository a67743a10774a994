"""Dictionaries and sets whose keys may be symbolic (insertion ordered, equality decided by the engine)."""
from sx.core import (E, Fin, PLAIN, SymBool, SymNum, Unsupported, contains, deep_sym, eq, f_lit, f_or, fin_make, groups,
                     intern_tab, is_sym, kind_of, mkbool, neg)
from sx.strs import SymStr, dec, mk

_MISSING = object()


class _View:
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        d = self.d
        k = self.kind
        n = d._version
        for e in list(d._e):
            if e[2]:
                yield e[0] if k == 0 else e[1] if k == 1 else (e[0], e[1])
                if d._version != n:
                    raise RuntimeError('dictionary changed size during iteration')

    def _sx_contains(self, item):
        if self.kind == 0:
            return self.d._sx_contains(item)
        return mkbool(f_or([eq(x, item) for x in self]))

    def __contains__(self, item):
        return bool(self._sx_contains(item))

    def __reversed__(self):
        return reversed(list(self))

    def _set(self):
        return SxSet(list(self))

    def __or__(self, o):
        return self._set() | SxSet(o)

    def __and__(self, o):
        return self._set() & SxSet(o)

    def __sub__(self, o):
        return self._set() - SxSet(o)

    def __xor__(self, o):
        return self._set() ^ SxSet(o)

    def __ror__(self, o):
        return SxSet(o) | self._set()

    def __rand__(self, o):
        return SxSet(o) & self._set()

    def __rsub__(self, o):
        return SxSet(o) - self._set()

    def isdisjoint(self, o):
        return self._set().isdisjoint(SxSet(o))

    def __le__(self, o):
        return self._set() <= SxSet(o)

    def __lt__(self, o):
        return self._set() < SxSet(o)

    def __ge__(self, o):
        return self._set() >= SxSet(o)

    def __gt__(self, o):
        return self._set() > SxSet(o)

    def __eq__(self, o):
        return self._set() == SxSet(o)

    __hash__ = None

    def __repr__(self):
        return 'dict_view(%r)' % list(self)


def is_conc_key(k):
    return not deep_sym(k)


class SxDict:
    def __init__(self, *args, **kw):
        self._e = []  # [key, value, alive]
        self._h = {}  # concrete key -> entry
        self._ns = 0  # number of symbolic keys
        self._n = 0
        self._version = 0
        if args:
            src = args[0]
            if hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    # -- lookup
    def _find(self, key):
        if is_conc_key(key):
            e = self._h.get(key)
            if e is not None:
                if not self._ns:
                    return e
                # entries with symbolic keys are pairwise different from every other key
                return e
            if not self._ns:
                return None
            for e in self._e:
                if e[2] and e[3] and dec(eq(e[0], key)):
                    return e
            return None
        if isinstance(key, tuple):
            hash(tuple(0 if is_sym(x) else x for x in key))
        for e in self._e:
            if e[2] and dec(eq(e[0], key)):
                return e
        return None

    def _simple(self):
        """All keys and values concrete"""
        return self._ns == 0

    def _lift(self, key, default=_MISSING):
        """d[key] for a finite-domain key over plain values, as a table; None when not applicable"""
        if self._ns or not self._n:
            return None
        one = None
        if isinstance(key, Fin):
            one = key
        elif isinstance(key, SymStr) and len(key.c) == 1 and isinstance(key.c[0], Fin):
            one = key.c[0]
        if one is None:
            return None
        vals = one.values()
        got = [self._h.get(v) for v in vals]
        present = [e[1] for e in got if e is not None]
        if not all(isinstance(v, (int, float, str)) and not is_sym(v) and kind_of(v) for v in present):
            return None
        kinds = {kind_of(v) for v in present}
        if len(kinds) > 1:
            return None
        mask = 0
        for i, v in enumerate(one.tab):
            if self._h.get(v) is not None:
                mask |= 1 << i
        if not dec(f_lit(one.var, mask)):
            if default is _MISSING:
                raise KeyError(key)
            return (default,)
        fill = present[0] if present else None
        tab = intern_tab([self._h[v][1] if self._h.get(v) is not None else fill for v in one.tab])
        return (fin_make(one.var, tab),)

    def __getitem__(self, key):
        if is_sym(key):
            r = self._lift(key)
            if r is not None:
                return r[0]
        e = self._find(key)
        if e is None:
            miss = getattr(self, '__missing__', None)
            if miss is not None:
                return miss(key)
            raise KeyError(key)
        return e[1]

    def get(self, key, default=None):
        if is_sym(key) and (default is None or isinstance(default, PLAIN)):
            r = self._lift(key, default)
            if r is not None:
                return r[0]
        e = self._find(key)
        return default if e is None else e[1]

    def __setitem__(self, key, value):
        e = self._find(key)
        if e is not None:
            e[1] = value
            return
        sym = not is_conc_key(key)
        if not sym:
            hash(key)
        e = [key, value, True, sym]
        self._e.append(e)
        self._n += 1
        self._version += 1
        if sym:
            self._ns += 1
        else:
            self._h[key] = e

    def _remove(self, e):
        e[2] = False
        self._e = [x for x in self._e if x is not e]
        self._n -= 1
        self._version += 1
        if e[3]:
            self._ns -= 1
        else:
            del self._h[e[0]]

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        self._remove(e)

    def pop(self, key, default=_MISSING):
        e = self._find(key)
        if e is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        self._remove(e)
        return e[1]

    def popitem(self, last=True):
        if not self._e:
            raise KeyError('popitem(): dictionary is empty')
        e = self._e[-1 if last else 0]
        self._remove(e)
        return e[0], e[1]

    def setdefault(self, key, default=None):
        e = self._find(key)
        if e is None:
            self[key] = default
            return default
        return e[1]

    def update(self, *args, **kw):
        if args:
            src = args[0]
            if hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._e = []
        self._h = {}
        self._ns = self._n = 0
        self._version += 1

    def copy(self):
        d = type(self).__new__(type(self))
        d.__dict__.update(self.__dict__)
        d._e = [list(e) for e in self._e]
        d._h = {e[0]: e for e in d._e if not e[3]}
        return d

    __copy__ = copy

    def _sx_contains(self, key):
        if is_conc_key(key):
            if key in self._h:
                return True
            if not self._ns:
                return False
        elif isinstance(key, Fin) and not self._ns:
            mask = 0
            for i, v in enumerate(key.tab):
                if v in self._h:
                    mask |= 1 << i
            return mkbool(f_lit(key.var, mask))
        return mkbool(f_or([eq(e[0], key) for e in self._e if e[2]]))

    def __contains__(self, key):
        return bool(self._sx_contains(key))

    def __len__(self):
        return self._n

    def __iter__(self):
        return iter(self.keys())

    def __reversed__(self):
        return iter([e[0] for e in reversed(self._e)])

    def keys(self):
        return _View(self, 0)

    def values(self):
        return _View(self, 1)

    def items(self):
        return _View(self, 2)

    def __or__(self, o):
        d = SxDict(self)
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def _sx_eq(self, o):
        if not isinstance(o, (SxDict, dict)) or len(o) != len(self):
            return False
        for e in self._e:
            if not contains(o, e[0]):
                return False
            if not dec(eq(e[1], o[e[0]])):
                return False
        return True

    def __eq__(self, o):
        return self._sx_eq(o)

    def __ne__(self, o):
        return not self._sx_eq(o)

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % (e[0], e[1]) for e in self._e)

    @classmethod
    def fromkeys(cls, keys, value=None):
        return cls([(k, value) for k in keys])


class SxDefaultDict(SxDict):
    def __init__(self, factory=None, *args, **kw):
        self.default_factory = factory
        super().__init__(*args, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class SxCounter(SxDict):
    def __init__(self, src=None, **kw):
        super().__init__()
        self.update(src, **kw)

    def __missing__(self, key):
        return 0

    def get(self, key, default=None):
        e = self._find(key)
        return default if e is None else e[1]

    def __getitem__(self, key):
        e = self._find(key)
        return 0 if e is None else e[1]

    def __delitem__(self, key):
        e = self._find(key)
        if e is not None:
            self._remove(e)

    def update(self, src=None, **kw):
        if src is not None:
            if hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = self[k] + src[k]
            else:
                for k in src:
                    self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def subtract(self, src):
        if hasattr(src, 'keys'):
            for k in src.keys():
                self[k] = self[k] - src[k]
        else:
            for k in src:
                self[k] = self[k] - 1

    def elements(self):
        for k, v in self.items():
            for _ in range(v.__index__()):
                yield k

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def total(self):
        return sum(self.values())

    def __add__(self, o):
        r = SxCounter()
        for k in list(self.keys()) + [k for k in o.keys()]:
            v = self[k] + o[k]
            if v > 0:
                r[k] = v
        return r


class SxSet:
    _frozen = False

    def __init__(self, it=()):
        self._d = SxDict()
        for x in it:
            self._d[x] = True

    def _new(self, it):
        return type(self)(it)

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self._d.clear()

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def copy(self):
        return self._new(self)

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        ks = [e[0] for e in self._d._e]
        if self._d._ns == 0:
            try:
                real = set()
                for k in ks:
                    real.add(k)
                ks = list(real)
            except TypeError:
                pass
        v = self._d._version
        for k in ks:
            yield k
            if self._d._version != v:
                raise RuntimeError('Set changed size during iteration')

    def _sx_contains(self, x):
        if isinstance(x, SymStr) and len(x.c) == 1 and isinstance(x.c[0], Fin):
            return self._d._sx_contains(x.c[0])
        if isinstance(x, (list, SxDict)) or (isinstance(x, SxSet) and not x._frozen):
            raise TypeError("unhashable type")
        return self._d._sx_contains(x)

    def __contains__(self, x):
        return bool(self._sx_contains(x))

    def __or__(self, o):
        if not _is_setlike(o):
            return NotImplemented
        r = self._new(self)
        r.update2(o)
        return r

    def update2(self, o):
        for x in list(o):
            self._d[x] = True

    __ror__ = __or__

    def union(self, *os):
        r = self._new(self)
        for o in os:
            r.update2(o)
        return r

    def __ior__(self, o):
        if self._frozen:
            return self | o
        self.update2(o)
        return self

    def __and__(self, o):
        if not _is_setlike(o):
            return NotImplemented
        o = SxSet(o)
        return self._new([x for x in self if x in o])

    __rand__ = __and__

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & SxSet(o)
        return r

    def __iand__(self, o):
        r = self & o
        self._d = r._d
        return self

    def intersection_update(self, o):
        self._d = (self & SxSet(o))._d

    def __sub__(self, o):
        if not _is_setlike(o):
            return NotImplemented
        o = SxSet(o)
        return self._new([x for x in self if not (x in o)])

    def __rsub__(self, o):
        return self._new([x for x in o if not (x in self)])

    def difference(self, *os):
        r = self
        for o in os:
            r = r - SxSet(o)
        return r

    def __isub__(self, o):
        self._d = (self - o)._d
        return self

    def difference_update(self, o):
        self._d = (self - SxSet(o))._d

    def __xor__(self, o):
        return (self - o) | (SxSet(o) - self)

    def symmetric_difference(self, o):
        return self ^ SxSet(o)

    def issubset(self, o):
        o = SxSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def _sx_eq(self, o):
        if not _is_setlike(o):
            return False
        o = SxSet(o)
        return len(o) == len(self) and self.issubset(o)

    def __eq__(self, o):
        return self._sx_eq(o)

    def __ne__(self, o):
        return not self._sx_eq(o)

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join(repr(x) for x in self)


class SxFrozenSet(SxSet):
    _frozen = True

    def __hash__(self):
        return hash(frozenset(self))


def _is_setlike(o):
    return isinstance(o, (SxSet, set, frozenset, _View)) or type(o).__name__ in ('dict_keys', 'dict_items')


class SymList:
    """items[lo:hi] of an abstract list: only lengths are symbolic, items are their positions"""
    _sx_sym = False

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi

    def _sx_len(self):
        return self.hi - self.lo

    def __len__(self):
        return (self.hi - self.lo).__index__()

    def __bool__(self):
        return bool(self.hi > self.lo)

    def _clamp(self, x, n, default):
        if x is None:
            return default
        if x < 0:
            x = x + n
            if x < 0:
                return 0
            return x
        if x > n:
            return n
        return x

    def __getitem__(self, idx):
        n = self._sx_len()
        if isinstance(idx, slice):
            if idx.step is not None:
                raise Unsupported('stepped slice')
            a = self._clamp(idx.start, n, 0)
            b = self._clamp(idx.stop, n, n)
            if b < a:
                b = a
            return SymList(self.lo + a, self.lo + b)
        if idx < 0:
            idx = idx + n
        if idx < 0 or idx >= n:
            raise IndexError('list index out of range')
        return self.lo + idx

    def __iter__(self):
        n = len(self)
        for i in range(n):
            yield self.lo + i
