"""Symbolic values, path state and decisions.

Finite-domain inputs (characters, enum members, small integers, words of a vocabulary) are
variables `Var` ranging over an explicit table; every unary function of such a variable is a `Fin`
(variable + table of results), so branching on it narrows a bit mask exactly.  Everything else
(relations between variables, integers, reals) is a z3 term.  `decide` asks whether a branch
condition can be true and can be false under the current path condition and forks the execution.
"""
import enum
import fractions
import time

import z3

PLAIN = (str, int, float, bool, type(None), enum.Enum, fractions.Fraction)


class Control(BaseException):
    """Steers the exploration; never caught by the code under test."""


class PathAbort(Control):
    pass


class Unsupported(Control):
    pass


class PathTimeout(Control):
    pass


class CheckFailed(Control):
    def __init__(self, msg, formula=None):
        super().__init__(msg)
        self.msg = msg
        self.formula = formula


class Var:
    __slots__ = ('name', 'n', 'tab', 'full', 'z')

    def __init__(self, name, tab):
        self.name = name
        self.tab = tab
        self.n = len(tab)
        self.full = (1 << self.n) - 1
        self.z = z3.Int(name)


_member_cache = {}


def member_z(var, mask):
    """z3 formula: the index of var lies in mask"""
    mask &= var.full
    key = (var.name, var.n, mask)
    got = _member_cache.get(key)
    if got is None:
        if mask == 0:
            got = z3.BoolVal(False)
        else:
            parts = []
            i = 0
            m = mask
            while m:
                low = (m & -m).bit_length() - 1
                i = low
                while (mask >> i) & 1:
                    i += 1
                parts.append(var.z == low if i - 1 == low else z3.And(var.z >= low, var.z <= i - 1))
                m = mask & ~((1 << i) - 1)
            got = z3.Or(parts) if len(parts) > 1 else parts[0]
        if len(_member_cache) > 200000:
            _member_cache.clear()
        _member_cache[key] = got
    return got


# ---------------------------------------------------------------------------------------------
# Formulas: True | False | ('lit', var, mask) | ('z', expr) | ('eq', var, tab, var, tab)
#           | ('and', (f..)) | ('or', (f..)) | ('not', f)
# ---------------------------------------------------------------------------------------------

def f_lit(var, mask):
    dom = E.dom.get(var, var.full)
    mask &= dom
    if mask == 0:
        return False
    if mask == dom:
        return True
    return ('lit', var, mask)


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'lit':
        return f_lit(f[1], f[1].full & ~f[2])
    if f[0] == 'not':
        return f[1]
    if f[0] == 'and':
        return ('or', tuple(f_not(g) for g in f[1]))
    if f[0] == 'or':
        return ('and', tuple(f_not(g) for g in f[1]))
    return ('not', f)


def f_and(fs):
    out = []
    lits = {}
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == 'lit':
            if f[1] in lits:
                m = lits[f[1]] & f[2]
                if m == 0:
                    return False
                lits[f[1]] = m
            else:
                lits[f[1]] = f[2]
        elif f[0] == 'and':
            for g in f[1]:
                if g[0] == 'lit':
                    m = lits.get(g[1], g[2]) & g[2]
                    if m == 0:
                        return False
                    lits[g[1]] = m
                else:
                    out.append(g)
        else:
            out.append(f)
    ls = []
    for v, m in lits.items():
        g = f_lit(v, m)
        if g is False:
            return False
        if g is not True:
            ls.append(g)
    out = ls + out
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(fs):
    return f_not(f_and([f_not(f) for f in fs]))


def simplify(f):
    """Simplify f under the current domains"""
    if f is True or f is False:
        return f
    k = f[0]
    if k == 'lit':
        return f_lit(f[1], f[2])
    if k == 'and':
        return f_and([simplify(g) for g in f[1]])
    if k == 'or':
        return f_or([simplify(g) for g in f[1]])
    if k == 'not':
        return f_not(simplify(f[1]))
    if k == 'eq':
        return fin_eq(f[1], f[2], f[3], f[4])
    if k == 'z':
        e = f[1]
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return f
    raise AssertionError(f)


def f_vars(f, out):
    if f is True or f is False:
        return out
    k = f[0]
    if k == 'lit':
        out.add(f[1])
    elif k == 'eq':
        out.add(f[1])
        out.add(f[3])
    elif k in ('and', 'or'):
        for g in f[1]:
            f_vars(g, out)
    elif k == 'not':
        f_vars(f[1], out)
    elif k == 'z':
        out.add(None)  # arithmetic: always needs the solver
        for v in E.zvars_of(f[1]):
            out.add(v)
    return out


def f_z3(f):
    if f is True or f is False:
        return z3.BoolVal(f)
    k = f[0]
    if k == 'lit':
        return member_z(f[1], f[2])
    if k == 'and':
        return z3.And([f_z3(g) for g in f[1]])
    if k == 'or':
        return z3.Or([f_z3(g) for g in f[1]])
    if k == 'not':
        return z3.Not(f_z3(f[1]))
    if k == 'z':
        return f[1]
    if k == 'eq':
        _, v1, t1, v2, t2 = f
        if t1 is t2 and v1.n == v2.n and len(set(t1)) == len(t1):
            return v1.z == v2.z
        g1 = groups(t1)
        g2 = groups(t2)
        d1 = E.dom.get(v1, v1.full)
        d2 = E.dom.get(v2, v2.full)
        parts = []
        for val, m1 in g1.items():
            m2 = g2.get(val)
            if m2 is not None and m1 & d1 and m2 & d2:
                parts.append(z3.And(member_z(v1, m1), member_z(v2, m2)))
        return z3.Or(parts) if parts else z3.BoolVal(False)
    raise AssertionError(f)


# ---------------------------------------------------------------------------------------------
# Tables (interned per identity)
# ---------------------------------------------------------------------------------------------

_tab_intern = {}
_groups = {}
_tab_keep = []


def tkey(v):
    return (type(v), v)


def intern_tab(vals):
    key = tuple(map(tkey, vals))
    got = _tab_intern.get(key)
    if got is None:
        got = _tab_intern[key] = tuple(vals)
        _tab_keep.append(got)
    return got


def groups(tab):
    """value -> mask, in table order"""
    got = _groups.get(id(tab))
    if got is None:
        got = {}
        for i, v in enumerate(tab):
            got[v] = got.get(v, 0) | (1 << i)
        _groups[id(tab)] = got
        _tab_keep.append(tab)
    return got


_pred_cache = {}


def tab_mask(tab, key, pred):
    """mask of the indices whose value satisfies pred; cached under key"""
    k = (id(tab), key)
    got = _pred_cache.get(k)
    if got is None:
        got = 0
        for i, v in enumerate(tab):
            if pred(v):
                got |= 1 << i
        _pred_cache[k] = got
        _tab_keep.append(tab)
    return got


def fin_eq(v1, t1, v2, t2):
    if v1 is v2:
        m = 0
        for i in range(v1.n):
            if t1[i] == t2[i]:
                m |= 1 << i
        return f_lit(v1, m)
    d1 = E.dom.get(v1, v1.full)
    d2 = E.dom.get(v2, v2.full)
    g1 = groups(t1)
    g2 = groups(t2)
    s1 = [val for val, m in g1.items() if m & d1]
    s2 = [val for val, m in g2.items() if m & d2]
    if len(s1) == 1:
        return f_lit(v2, g2.get(s1[0], 0))
    if len(s2) == 1:
        return f_lit(v1, g1.get(s2[0], 0))
    if not (set(s1) & set(s2)):
        return False
    return ('eq', v1, t1, v2, t2)


# ---------------------------------------------------------------------------------------------
# Symbolic booleans
# ---------------------------------------------------------------------------------------------

def mkbool(f):
    f = simplify(f)
    if f is True or f is False:
        return f
    return SymBool(f)


def formula_of(x):
    """Formula of a truth value"""
    if isinstance(x, SymBool):
        return x.f
    if x is True or x is False:
        return x
    if isinstance(x, Fin):
        return x.truth()
    if isinstance(x, SymNum):
        return ('z', x.e != 0)
    return bool(x)


class SymBool:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return E.decide(self.f)

    def __eq__(self, other):
        if isinstance(other, SymBool):
            a, b = self.f, other.f
            return mkbool(f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])]))
        if other is True or (type(other) is int and other == 1):
            return mkbool(self.f)
        if other is False or (type(other) is int and other == 0):
            return mkbool(f_not(self.f))
        return False

    def __ne__(self, other):
        return neg(self.__eq__(other))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkbool(f_and([self.f, formula_of(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or([self.f, formula_of(o)]))

    __ror__ = __or__

    def __xor__(self, o):
        return neg(self == bool_of(o))

    __rxor__ = __xor__

    def __invert__(self):
        return ~int(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def num(self):
        return SymNum(z3.If(f_z3(self.f), z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __lt__(self, o):
        return int(self) < o

    def __le__(self, o):
        return int(self) <= o

    def __gt__(self, o):
        return int(self) > o

    def __ge__(self, o):
        return int(self) >= o

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __neg__(self):
        return -int(self)

    def __pos__(self):
        return int(self)

    def __abs__(self):
        return int(self)

    def __float__(self):
        return float(int(self))

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return 'SymBool'

    def __format__(self, spec):
        return format(bool(self), spec)


def bool_of(x):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def neg(x):
    if isinstance(x, SymBool):
        return mkbool(f_not(x.f))
    if isinstance(x, Fin):
        return mkbool(f_not(x.truth()))
    return not x


def s_and(*xs):
    return mkbool(f_and([formula_of(x) for x in xs]))


def s_or(*xs):
    return mkbool(f_or([formula_of(x) for x in xs]))


def s_implies(a, b):
    return s_or(neg(a), b)


# ---------------------------------------------------------------------------------------------
# Finite-domain values
# ---------------------------------------------------------------------------------------------

LIFT = (str, int, float, enum.Enum)


_make_cache = {}


def _make_kind(tab, dom):
    """What the values of tab over dom look like: ('one', v) | ('bool',) | ('none',) | ('conc',) | ('split', kinds) | ('fin',)"""
    vals = [tab[i] for i in bits(dom)]
    first = vals[0]
    if all(type(v) is type(first) and (v is first or v == first) for v in vals):
        return ('one', first)
    if all(isinstance(v, bool) for v in vals):
        return ('bool',)
    if any(v is None for v in vals):
        return ('none',)
    kinds = {kind_of(v) for v in vals}
    if None in kinds:
        return ('conc',)
    if len(kinds) > 1:
        return ('split', sorted(kinds, key=str))
    return ('fin',)


def fin_make(var, tab):
    """Fin or, when the current domain allows a single value, that value. Splits off None / bool."""
    dom = E.dom.get(var, var.full)
    key = (id(tab), dom)
    k = _make_cache.get(key)
    if k is None:
        k = _make_cache[key] = _make_kind(tab, dom)
        _tab_keep.append(tab)
    what = k[0]
    if what == 'fin':
        return Fin(var, tab)
    if what == 'one':
        return k[1]
    if what == 'bool':
        return mkbool(f_lit(var, tab_mask(tab, '__true__', lambda v: v is True)))
    if what == 'none':
        nm = tab_mask(tab, '__none__', lambda v: v is None)
        if E.decide(f_lit(var, nm)):
            return None
        return fin_make(var, tab)
    if what == 'conc':
        return E.concretize(var, tab)
    # values that cannot be lifted together: split per kind
    for kd in k[1][:-1]:
        km = tab_mask(tab, ('__kind__', kd), lambda v: kind_of(v) == kd)
        if E.decide(f_lit(var, km)):
            return fin_make(var, tab)
    return fin_make(var, tab)


_SENT = object()


def kind_of(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, enum.Enum):
        return 'enum:' + type(v).__name__
    if isinstance(v, str):
        return 'str'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (float, fractions.Fraction)):
        return 'float'
    return None


def bits(m):
    while m:
        low = m & -m
        yield low.bit_length() - 1
        m ^= low


_map_cache = {}


def fin_map(fin, key, fn):
    """Apply a concrete function to every table value. Exceptions fork."""
    k = (id(fin.tab), key) if key is not None else None
    got = _map_cache.get(k) if k is not None else None
    if got is None:
        vals = []
        bad = 0
        for i, v in enumerate(fin.tab):
            try:
                r = fn(v)
                if not isinstance(r, PLAIN):
                    r = _Boxed(r)
            except Exception as e:
                r = _Raise(e)
                bad |= 1 << i
            vals.append(r)
        boxed = any(isinstance(r, _Boxed) for r in vals)
        tab = tuple(vals) if (bad or boxed) else intern_tab(vals)
        got = (tab, bad, boxed)
        if k is not None:
            _map_cache[k] = got
            _tab_keep.append(fin.tab)
    tab, bad, boxed = got
    if bad:
        if E.decide(f_lit(fin.var, bad)):
            exc = E.concretize(fin.var, tab).e
            raise exc
    if boxed:
        r = E.concretize(fin.var, tab)
        if isinstance(r, _Boxed):
            return fn(E.concretize(fin.var, fin.tab))
        return r
    return fin_make(fin.var, tab)


class _Raise:
    def __init__(self, e):
        self.e = e


class _Boxed:
    def __init__(self, v):
        self.v = v


class Fin:
    """Unary function (table) of a finite-domain variable"""
    __slots__ = ('var', 'tab')

    def __init__(self, var, tab):
        self.var = var
        self.tab = tab

    # -- helpers
    def values(self):
        dom = E.dom.get(self.var, self.var.full)
        out = []
        for i in bits(dom):
            if self.tab[i] not in out:
                out.append(self.tab[i])
        return out

    def sample(self):
        return self.tab[next(bits(E.dom.get(self.var, self.var.full)))]

    def kind(self):
        return kind_of(self.sample())

    def concrete(self):
        return E.concretize(self.var, self.tab)

    def truth(self):
        return f_lit(self.var, tab_mask(self.tab, '__truth__', bool))

    def eq_const(self, c):
        if not isinstance(c, PLAIN):
            return False
        return f_lit(self.var, groups(self.tab).get(c, 0))

    def znum(self):
        """z3 integer/real term of the value"""
        dom = E.dom.get(self.var, self.var.full)
        g = groups(self.tab)
        vals = [(v, m & dom) for v, m in g.items() if m & dom]
        tab = self.tab
        if all(isinstance(v, int) for v, _ in vals):
            idx = list(bits(dom))
            off = int(tab[idx[0]]) - idx[0]
            E.link(self.var)
            if all(int(tab[i]) - i == off for i in idx):
                return self.var.z + off if off else self.var.z
            e = z3.IntVal(int(vals[-1][0]))
            for v, m in reversed(vals[:-1]):
                e = z3.If(member_z(self.var, m), z3.IntVal(int(v)), e)
            return e
        if all(isinstance(v, (int, float, fractions.Fraction)) for v, _ in vals):
            E.link(self.var)
            e = zreal(vals[-1][0])
            for v, m in reversed(vals[:-1]):
                e = z3.If(member_z(self.var, m), zreal(v), e)
            return e
        raise Unsupported('numeric use of %r' % (vals[0][0],))

    def num(self):
        return SymNum(self.znum())

    # -- protocol
    def __bool__(self):
        return E.decide(self.truth())

    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        v = self.concrete()
        return v.__index__()

    def __int__(self):
        return int(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __len__(self):
        return len(self.concrete())

    def __iter__(self):
        return iter(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return 'Fin(%s)' % self.var.name

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __contains__(self, item):
        return bool(contains(self, item))

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_sx'):
            raise AttributeError(name)
        if callable(getattr(self.sample(), name)):
            return _FinMethod(self, name)
        return fin_map(self, ('attr', name), lambda v: getattr(v, name))

    def __getitem__(self, idx):
        if is_sym(idx):
            return self.concrete()[idx]
        key = ('item', idx.start, idx.stop, idx.step) if isinstance(idx, slice) else ('item', idx)
        return fin_map(self, key, lambda v: v[idx])

    def __call__(self, *a, **k):
        return self.concrete()(*a, **k)

    def __eq__(self, other):
        return mkbool(eq(self, other))

    def __ne__(self, other):
        return mkbool(f_not(eq(self, other)))


def is_sym(x):
    return isinstance(x, (Fin, SymBool, SymNum)) or getattr(type(x), '_sx_sym', False)


def deep_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth and isinstance(x, (tuple, list)):
        return any(deep_sym(y, depth - 1) for y in x)
    return False


class _FinMethod:
    def __init__(self, fin, name):
        self.fin = fin
        self.name = name

    def __call__(self, *args, **kw):
        if deep_sym(args) or kw:
            return getattr(self.fin.concrete(), self.name)(*args, **kw)
        try:
            key = ('m', self.name, tuple(map(tkey, args)))
            hash(key)
        except TypeError:
            key = None
        return fin_map(self.fin, key, lambda v: getattr(v, self.name)(*args))


def _fin_binop(opname, op, rev=False):
    def method(self, other):
        if isinstance(other, Fin):
            if other.var is self.var:
                t2 = other.tab
                vals = []
                for i in range(self.var.n):
                    a, b = (t2[i], self.tab[i]) if rev else (self.tab[i], t2[i])
                    try:
                        vals.append(op(a, b))
                    except Exception:
                        return op(*((other.concrete(), self.concrete()) if rev else (self.concrete(), other.concrete())))
                return fin_make(self.var, intern_tab(vals))
            if all(isinstance(x.sample(), (int, float)) for x in (self, other)):
                a, b = (other.num(), self.num()) if rev else (self.num(), other.num())
                return op(a, b)
            c = self.concrete()
            return op(other, c) if rev else op(c, other)
        if isinstance(other, SymNum):
            a, b = (other, self.num()) if rev else (self.num(), other)
            return op(a, b)
        if isinstance(other, SymBool):
            a, b = (other.num(), self.num()) if rev else (self.num(), other.num())
            return op(a, b)
        if getattr(type(other), '_sx_sym', False):
            a, b = self.as_symstr_or_concrete(), other
            return op(b, a) if rev else op(a, b)
        if not isinstance(other, PLAIN):
            if isinstance(other, (list, tuple)) and opname in ('__mul__', '__rmul__'):
                c = self.concrete()
                return op(other, c) if rev else op(c, other)
            return NotImplemented
        if rev:
            return fin_map(self, (opname, tkey(other)), lambda v: op(other, v))
        return fin_map(self, (opname, tkey(other)), lambda v: op(v, other))
    return method


def _as_symstr_or_concrete(self):
    if isinstance(self.sample(), str) and all(len(v) == 1 for v in self.values()):
        from sx.strs import SymStr
        return SymStr((self,))
    return self.concrete()


Fin.as_symstr_or_concrete = _as_symstr_or_concrete

import operator as _op  # noqa: E402

for _n, _f in [('add', _op.add), ('sub', _op.sub), ('mul', _op.mul), ('truediv', _op.truediv),
               ('floordiv', _op.floordiv), ('mod', _op.mod), ('pow', _op.pow), ('and', _op.and_), ('or', _op.or_),
               ('xor', _op.xor), ('lshift', _op.lshift), ('rshift', _op.rshift)]:
    setattr(Fin, '__%s__' % _n, _fin_binop('__%s__' % _n, _f))
    setattr(Fin, '__r%s__' % _n, _fin_binop('__r%s__' % _n, _f, True))
for _n, _f in [('lt', _op.lt), ('le', _op.le), ('gt', _op.gt), ('ge', _op.ge)]:
    setattr(Fin, '__%s__' % _n, _fin_binop('__%s__' % _n, _f))
for _n, _f in [('neg', _op.neg), ('pos', _op.pos), ('abs', abs), ('invert', _op.invert)]:
    setattr(Fin, '__%s__' % _n, (lambda n, f: lambda self: fin_map(self, ('u', n), f))(_n, _f))


# ---------------------------------------------------------------------------------------------
# Numbers
# ---------------------------------------------------------------------------------------------

def zreal(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, fractions.Fraction):
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
    fr = fractions.Fraction(v)
    # decimal literals of the source mean the decimal number (reals stand in for floats)
    dec = fractions.Fraction(repr(float(v)))
    if float(dec) == float(v):
        fr = dec
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))


def to_z(x):
    """z3 arithmetic term of a number or None"""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, Fin):
        return x.znum()
    if isinstance(x, SymBool):
        return x.num().e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, fractions.Fraction):
        return zreal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return zreal(x)
    if type(x).__module__ == 'numpy':
        try:
            it = x.item()
        except Exception:
            return None
        return to_z(it)
    return None


def _inf(x):
    return isinstance(x, float) and x in (float('inf'), float('-inf'))


class SymNum:
    """z3 Int or Real term"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return self.e.is_int()

    def _bin(self, other, fn, rev=False):
        if getattr(other, 'shape', None):  # numpy array: let numpy broadcast
            return NotImplemented
        o = to_z(other)
        if o is None:
            return NotImplemented
        a, b = (o, self.e) if rev else (self.e, o)
        return mknum(fn(a, b))

    def __add__(self, o):
        if _inf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if _inf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _div(a, b):
        if E.decide(simplify(('z', z3.simplify(b == 0)))):
            raise ZeroDivisionError('division by zero')
        if a.is_int():
            a = z3.ToReal(a)
        if b.is_int():
            b = z3.ToReal(b)
        return a / b

    def __truediv__(self, o):
        if _inf(o):
            return 0.0
        return self._bin(o, self._div)

    def __rtruediv__(self, o):
        return self._bin(o, self._div, True)

    @staticmethod
    def _fdiv(a, b):
        if not (a.is_int() and b.is_int()):
            q = SymNum._div(a, b)
            return z3.ToReal(z3.ToInt(q))
        if E.decide(simplify(('z', z3.simplify(b == 0)))):
            raise ZeroDivisionError('integer division or modulo by zero')
        if E.decide(simplify(('z', z3.simplify(b > 0)))):
            return a / b
        return (-a) / (-b)

    @staticmethod
    def _mod(a, b):
        if not (a.is_int() and b.is_int()):
            raise Unsupported('real modulo')
        q = SymNum._fdiv(a, b)
        return a - b * q

    def __floordiv__(self, o):
        return self._bin(o, self._fdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, self._fdiv, True)

    def __mod__(self, o):
        return self._bin(o, self._mod)

    def __rmod__(self, o):
        return self._bin(o, self._mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('power')

    def __neg__(self):
        return mknum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, fn, inf):
        if _inf(o):
            return inf(o)
        if getattr(o, 'shape', None):
            return NotImplemented
        z = to_z(o)
        if z is None:
            return NotImplemented
        return mkbool(('z', z3.simplify(fn(self.e, z))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        r = eq(self, o)
        return mkbool(r)

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return hash(self.__index__() if self.is_int else self.concrete_real())

    def concrete_real(self):
        raise Unsupported('concretising a real')

    def __bool__(self):
        return E.decide(simplify(('z', z3.simplify(self.e != 0))))

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return E.concretize_z(self.e)

    def __int__(self):
        if self.is_int:
            return E.concretize_z(self.e)
        return E.concretize_z(self.trunc().e)

    def trunc(self):
        if self.is_int:
            return self
        return mknum(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __float__(self):
        raise Unsupported('float() of a symbolic number')

    def __round__(self, n=None):
        if self.is_int and not n:
            return self
        if n is None:
            raise Unsupported('round')
        # any number within half a unit
        r = E.fresh_real('round')
        E.assume_f(('z', z3.And(r - self.e <= zreal(fractions.Fraction(1, 2 * 10 ** n)),
                                self.e - r <= zreal(fractions.Fraction(1, 2 * 10 ** n)))))
        E.lossy('round')
        return SymNum(r)

    def __floor__(self):
        return self if self.is_int else mknum(z3.ToInt(self.e))

    def __ceil__(self):
        return self if self.is_int else mknum(-z3.ToInt(-self.e))

    def __trunc__(self):
        return self.trunc()

    def item(self):
        return self

    def __repr__(self):
        return 'SymNum'

    def __str__(self):
        return str(self.__index__()) if self.is_int else 'SymReal'

    def __format__(self, spec):
        if self.is_int:
            return format(self.__index__(), spec)
        return 'SymReal'


def mknum(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
    return SymNum(e)


# ---------------------------------------------------------------------------------------------
# Generic equality / containment
# ---------------------------------------------------------------------------------------------

def eq(a, b):
    """Formula of a == b"""
    if a is b:
        return True
    ka = getattr(type(a), '_sx_eq', None)
    if ka is not None:
        return ka(a, b)
    kb = getattr(type(b), '_sx_eq', None)
    if kb is not None:
        return kb(b, a)
    if isinstance(a, Fin):
        if isinstance(b, Fin):
            return fin_eq(a.var, a.tab, b.var, b.tab)
        if isinstance(b, (SymNum, SymBool)):
            return ('z', z3.simplify(a.znum() == to_z(b)))
        return a.eq_const(b)
    if isinstance(b, Fin):
        return eq(b, a)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return formula_of(a == b)
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        za, zb = to_z(a), to_z(b)
        if za is None or zb is None:
            return False
        return simplify(('z', z3.simplify(za == zb)))
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return f_and([eq(x, y) for x, y in zip(a, b)])
    r = (a == b)
    if isinstance(r, SymBool):
        return r.f
    if r is NotImplemented:
        return False
    return bool(r)


def contains(cont, item):
    """item in cont, as bool or SymBool"""
    f = getattr(type(cont), '_sx_contains', None)
    if f is not None:
        return f(cont, item)
    if isinstance(cont, Fin):
        if isinstance(item, str):
            return fin_map(cont, ('in', item), lambda v: item in v)
        cont = cont.concrete()
    if isinstance(cont, str):
        if is_sym(item):
            from sx.strs import SymStr
            if isinstance(item, Fin):
                return fin_map(item, ('rin', cont), lambda v: v in cont)
            return SymStr.of(cont)._sx_contains(item)
        return item in cont
    if isinstance(cont, (list, tuple)) or type(cont).__name__ in ('dict_keys', 'dict_values', 'deque', 'odict_keys'):
        if deep_sym(item) or any(deep_sym(c) for c in cont):
            return mkbool(f_or([eq(c, item) for c in cont]))
        return item in cont
    if isinstance(cont, (set, frozenset, dict)) and deep_sym(item):
        return mkbool(f_or([eq(c, item) for c in cont]))
    return item in cont


# ---------------------------------------------------------------------------------------------
# Engine
# ---------------------------------------------------------------------------------------------

class Engine:
    def __init__(self):
        self.dom = {}
        self.solver = None
        self.stats = {}
        self.reset_stats()
        self.fresh = 0
        self.active = False
        self.flags = set()
        self.varmap = {}
        self.budget_s = 20.0
        self.nstarts = 0

    def reset_stats(self):
        self.stats = {'queries': 0, 'solver_s': 0.0, 'decisions': 0, 'unknown': 0, 'sat': 0, 'unsat': 0}

    # -- path life cycle
    def start(self, prefix):
        self.dom = {}
        self.ent = set()
        self.prefix = prefix
        self.pos = 0
        self.trail = []  # [choice, [alternatives]]
        self.inputs = {}  # name -> ('fin', Var) | ('num', z3) | ('const', v)
        self.order = []
        self.synced = {}  # var -> mask told to the solver
        self.fresh = 0
        self.flags = set()
        self.nlinear = False
        if self.solver is None or self.nstarts > 3000:
            self.solver = z3.SimpleSolver()
            self.solver.set('timeout', 10000)
            self.nstarts = 0
        else:
            self.solver.pop()
        self.nstarts += 1
        self.solver.push()
        self.cons = []
        self.t0 = time.time()
        self.deadline = self.t0 + self.budget_s
        self.active = True

    def lossy(self, why):
        self.flags.add('lossy:' + why)

    # -- variables
    def new_var(self, name, tab):
        if name in self.inputs:
            raise AssertionError('duplicate input ' + name)
        key = (name, id(tab))
        v = self.varmap.get(key)
        if v is None:
            v = self.varmap[key] = Var(name, tab)
            _tab_keep.append(tab)
        self.dom[v] = v.full
        self.inputs[name] = ('fin', v)
        return v

    def new_num(self, name, sort, lo=None, hi=None):
        if name in self.inputs:
            raise AssertionError('duplicate input ' + name)
        z = z3.Int(name) if sort == 'int' else z3.Real(name)
        self.inputs[name] = ('num', z)
        if lo is not None:
            self._add(z >= (lo if sort == 'int' else zreal(lo)))
        if hi is not None:
            self._add(z <= (hi if sort == 'int' else zreal(hi)))
        return SymNum(z)

    def fresh_real(self, name):
        self.fresh += 1
        return z3.Real('%s!%d' % (name, self.fresh))

    def link(self, var):
        """var is about to occur in a z3 term"""
        self.ent.add(var)

    def zvars_of(self, e):
        """finite variables occurring in a z3 term (they were linked)"""
        return self.ent

    # -- solver
    def _add(self, z):
        self.cons.append(z)
        self.solver.add(z)

    def _sync(self, allvars=False):
        for v in (list(self.dom) if allvars else self.ent):
            m = self.dom.get(v, v.full)
            if self.synced.get(v) != m:
                self.synced[v] = m
                self.solver.add(member_z(v, m))

    def zcheck(self, *extra, allvars=False):
        self._sync(allvars)
        t = time.perf_counter()
        r = self.solver.check(*extra)
        if r == z3.unknown and time.time() < self.deadline:
            s = z3.SolverFor('QF_NIRA') if False else z3.Tactic('default').solver()
            s.set('timeout', 20000)
            for c in self.solver.assertions():
                s.add(c)
            for c in extra:
                s.add(c)
            r = s.check()
            self._last = s
        else:
            self._last = self.solver
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        elif r == z3.sat:
            self.stats['sat'] += 1
        else:
            self.stats['unsat'] += 1
        return r

    # -- applying constraints
    def _apply(self, f):
        """Assert formula f"""
        if f is True:
            return
        if f is False:
            raise PathAbort('contradiction')
        k = f[0]
        if k == 'lit':
            v = f[1]
            m = self.dom.get(v, v.full) & f[2]
            if m == 0:
                raise PathAbort('empty domain')
            self.dom[v] = m
        elif k == 'and':
            for g in f[1]:
                self._apply(simplify(g))
        elif k == 'eq':
            _, v1, t1, v2, t2 = f
            g1, g2 = groups(t1), groups(t2)
            common = {val for val, m in g1.items() if m & self.dom[v1]} & {val for val, m in g2.items() if m & self.dom[v2]}
            m1 = m2 = 0
            for val in common:
                m1 |= g1[val]
                m2 |= g2[val]
            self.ent.add(v1)
            self.ent.add(v2)
            self._add(f_z3(f))
            self._apply(f_lit(v1, m1))
            self._apply(f_lit(v2, m2))
        else:
            for v in f_vars(f, set()):
                if v is not None:
                    self.ent.add(v)
            self._add(f_z3(f))

    def assume_f(self, f):
        """Assume without forking; aborts the path when impossible"""
        f = simplify(f)
        if f is True:
            return
        if f is False:
            raise PathAbort('assumption')
        needs = self._needs_solver(f)
        self._apply(f)
        if needs and self.zcheck() == z3.unsat:
            raise PathAbort('assumption')

    def _needs_solver(self, f):
        vs = f_vars(f, set())
        if None in vs or vs & self.ent:
            return True
        k = f[0]
        if k == 'lit' or k == 'eq':
            return False
        if k == 'not' and f[1][0] == 'eq':
            return False
        if k in ('and', 'or'):
            seen = set()
            for g in f[1]:
                if g[0] != 'lit':
                    return True
                if g[1] in seen:
                    return True
                seen.add(g[1])
            return False
        return True

    # -- decisions
    def tick(self):
        if time.time() > self.deadline:
            raise PathTimeout()

    def decide(self, f):
        f = simplify(f)
        if f is True or f is False:
            return f
        if not self.active:
            raise Unsupported('decision outside a path')
        self.stats['decisions'] += 1
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trail.append((c, ()))
            if c == 1:
                self._apply(f)
                return True
            if c == 0:
                self._apply(f_not(f))
                return False
            if c not in (2, 3):
                raise Unsupported('divergence on replay')
            if f[0] == 'lit':
                self._apply(f if c == 3 else f_not(f))
            else:
                for v in f_vars(f, set()):
                    if v is not None:
                        self.ent.add(v)
            return c == 3
        if (self.stats['decisions'] & 63) == 0:
            self.tick()
        self.pos += 1
        if not self._needs_solver(f):
            self.trail.append((1, (0,)))
            self._apply(f)
            return True
        z = f_z3(f)
        for v in f_vars(f, set()):
            if v is not None:
                self.ent.add(v)
        can_t = self.zcheck(z) != z3.unsat
        can_f = self.zcheck(z3.Not(z)) != z3.unsat if can_t else True
        if can_t and can_f:
            self.trail.append((1, (0,)))
            self._apply(f)
            return True
        if can_t:
            self.trail.append((3, ()))
            if f[0] == 'lit':
                self._apply(f)
            return True
        self.trail.append((2, ()))
        if f[0] == 'lit':
            self._apply(f_not(f))
        return False

    def choose(self, n):
        """Free n-way choice"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trail.append((c, ()))
            return c
        self.pos += 1
        self.trail.append((0, tuple(range(1, n))))
        return 0

    def concretize(self, var, tab):
        """n-way fork over the values of tab reachable in the current domain; returns the value"""
        dom = self.dom.get(var, var.full)
        try:
            g = groups(tab)
        except TypeError:
            g = {}
            for i, v in enumerate(tab):
                g[_IdKey(v)] = g.get(_IdKey(v), 0) | 1 << i
        opts = [(v, m & dom) for v, m in g.items() if m & dom]
        if len(opts) > 1:
            if var in self.ent and self.pos >= len(self.prefix):
                ok = []
                for i, (v, m) in enumerate(opts):
                    if self.zcheck(member_z(var, m)) != z3.unsat:
                        ok.append(i)
                if not ok:
                    raise PathAbort('empty')
            else:
                ok = list(range(len(opts)))
            if self.pos < len(self.prefix):
                c = self.prefix[self.pos]
                self.pos += 1
                self.trail.append((c, ()))
            else:
                self.pos += 1
                c = ok[0]
                self.trail.append((c, tuple(ok[1:])))
            v, m = opts[c]
            self._apply(f_lit(var, m))
        else:
            v = opts[0][0]
        return v.v if isinstance(v, _IdKey) else v

    def concretize_z(self, e):
        """Concrete value of a z3 Int term, forking"""
        while True:
            if self.pos < len(self.prefix):
                c = self.prefix[self.pos]
                self.pos += 1
                self.trail.append((c, ()))
                op, v = c
                if op == '=':
                    self._add(e == v)
                    return v
                if op == '!':
                    return v
                self._add(e != v)
                continue
            self.tick()
            r = self.zcheck()
            if r == z3.unsat:
                raise PathAbort('empty')
            if r == z3.unknown:
                raise Unsupported('unknown')
            v = self._last.model().eval(e, model_completion=True)
            if not z3.is_int_value(v):
                v = z3.simplify(v)
            v = v.as_long()
            self.pos += 1
            if self.zcheck(e != v) == z3.unsat:
                self.trail.append((('!', v), ()))
                return v
            self.trail.append((('=', v), (('x', v),)))
            self._add(e == v)
            return v

    # -- queries about the path
    def feasible(self, f):
        """Is PC and f satisfiable? returns 'sat' | 'unsat' | 'unknown'; leaves a model in self._last"""
        f = simplify(f)
        if f is False:
            return 'unsat'
        for v in f_vars(f, set()):
            if v is not None:
                self.ent.add(v)
        r = self.zcheck(f_z3(f), allvars=True)
        return str(r)

    def model_inputs(self, salt=0):
        """Concrete inputs from the solver's last model"""
        m = self._last.model()
        out = {}
        for name, (kind, v) in self.inputs.items():
            if kind == 'fin':
                i = m.eval(v.z, model_completion=False)
                dom = self.dom.get(v, v.full)
                if z3.is_int_value(i) and (dom >> i.as_long()) & 1:
                    out[name] = i.as_long()
                else:
                    out[name] = next(bits(dom))
            elif kind == 'num':
                x = m.eval(v, model_completion=True)
                if z3.is_int_value(x):
                    out[name] = x.as_long()
                elif z3.is_rational_value(x):
                    out[name] = fractions.Fraction(x.numerator_as_long(), x.denominator_as_long())
                else:
                    out[name] = fractions.Fraction(x.approx(20).as_string())
            else:
                out[name] = v
        return out, m

    def diversify(self, inputs, salt):
        """Move unentangled variables to other members of their domain (still on the same path)"""
        if not salt:
            return inputs
        out = dict(inputs)
        k = salt
        for name, (kind, v) in self.inputs.items():
            if kind == 'fin' and v not in self.ent:
                idx = list(bits(self.dom.get(v, v.full)))
                k = (k * 1103515245 + 12345) & 0x7fffffff
                out[name] = idx[(k >> 8) % len(idx)]
        return out


class _IdKey:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return id(self.v)

    def __eq__(self, o):
        return isinstance(o, _IdKey) and o.v is self.v


E = Engine()
E.ent = set()
E.prefix = []
E.pos = 0


class SymLog:
    """log of a positive symbolic number: only ordering is used"""
    _sx_sym = True
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def _cmp(self, o, op):
        if isinstance(o, SymLog):
            return op(self.p, o.p)
        if isinstance(o, float) and o == float('-inf'):
            return op(1, 0)
        if isinstance(o, float) and o == float('inf'):
            return op(0, 1)
        if isinstance(o, (int, float)):
            import math
            E.lossy('log-compare')
            return op(self.p, math.exp(o))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, _op.lt)

    def __le__(self, o):
        return self._cmp(o, _op.le)

    def __gt__(self, o):
        return self._cmp(o, _op.gt)

    def __ge__(self, o):
        return self._cmp(o, _op.ge)

    def _sx_eq(self, o):
        if isinstance(o, SymLog):
            return eq(self.p, o.p)
        if isinstance(o, (int, float)):
            if o in (float('inf'), float('-inf')):
                return False
            import math
            E.lossy('log-compare')
            return eq(self.p, math.exp(o))
        return False

    def __eq__(self, o):
        return mkbool(self._sx_eq(o))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __add__(self, o):
        if isinstance(o, SymLog):
            return SymLog(self.p * o.p)
        if o == 0:
            return self
        raise Unsupported('log arithmetic')

    __radd__ = __add__

    def __hash__(self):
        raise Unsupported('hash of a log')

    def __float__(self):
        raise Unsupported('float of a log')

    def __repr__(self):
        return 'SymLog'
