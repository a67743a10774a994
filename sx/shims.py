"""Replacements for builtins and standard modules seen by the symbolically executed sources."""
import builtins
import collections as _collections
import enum as _enum
import functools as _functools
import math as _math
import types

import z3

from sx import rx
from sx.conts import SxCounter, SxDefaultDict, SxDict, SxFrozenSet, SxSet, SymList, _View
from sx.core import (E, Fin, PLAIN, SymBool, SymLog, SymNum, Unsupported, contains, deep_sym, eq, f_and, f_or, fin_map,
                     formula_of, is_sym, kind_of, mkbool, mknum, neg, to_z, zreal)
from sx.strs import Seg, SymStr, chars_of, is_str, mk

# ---------------------------------------------------------------------------------------------
# helpers called by the transformed sources
# ---------------------------------------------------------------------------------------------


def sx_in(item, cont):
    return contains(cont, item)


def sx_notin(item, cont):
    return neg(contains(cont, item))


def sx_not(x):
    if isinstance(x, (SymBool, Fin)):
        return neg(x)
    return not x


def sx_is(a, b):
    """Identity: equality for members of an enumeration, booleans and other finite-domain values"""
    if a is b:
        return True
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(eq(a, b))
        return False
    if isinstance(a, Fin) or isinstance(b, Fin):
        if kind_of(a.sample() if isinstance(a, Fin) else a) != kind_of(b.sample() if isinstance(b, Fin) else b):
            return False
        return mkbool(eq(a, b))
    return False


def sx_bound(obj, name):
    if isinstance(obj, str):
        return _functools.partial(sx_mcall, obj, name)
    return getattr(obj, name)


def sx_match_seq(x):
    return isinstance(x, _collections.abc.Sequence) and not isinstance(x, (str, bytes, SymStr))


def sx_match_map(x):
    return isinstance(x, (SxDict, _collections.abc.Mapping))


def sx_match_rest(x, keys):
    return SxDict([(k, v) for k, v in x.items() if not any(k == q for q in keys)])


def sx_match_pos(x, cls, i):
    if isinstance(cls, TypeShim) or cls in (bytes, bytearray, list, tuple):
        if i:
            raise TypeError('accepts 1 positional sub-pattern')
        return x
    return getattr(x, cls.__match_args__[i])


def sx_dict(pairs):
    return SxDict(pairs)


def sx_dict_parts(parts):
    d = SxDict()
    for p in parts:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def sx_set(items):
    return SxSet(items)


def sx_mod(a, b):
    if is_str(a):
        return _percent(a, b)
    return a % b


def render(x, spec=''):
    """str(x) as a string value that may be symbolic"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, Fin):
        if isinstance(x.sample(), str) and not isinstance(x.sample(), _enum.Enum):
            return x
        return fin_map(x, 'str', str)
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, SymNum):
        return SymStr((Seg(x, 's'),))
    s = _callstr(x)
    return s


def _callstr(x):
    """str(x) allowing __str__/__repr__ of user classes to return a symbolic string"""
    if isinstance(x, str) and type(x) is str:
        return x
    t = type(x)
    if isinstance(x, (list, tuple)) and deep_sym(x):
        return SymStr.of(', ').join([render_repr(y) for y in x])
    f = t.__dict__.get('__str__') or next((k.__dict__['__str__'] for k in t.__mro__ if '__str__' in k.__dict__), None)
    if f is object.__str__:
        return render_repr(x)
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.str(x)


def render_repr(x):
    if isinstance(x, (SymStr, Fin, SymBool, SymNum)):
        if is_str(x):
            return "'" + render(x) + "'" if not isinstance(x, Fin) else fin_map(x, 'repr', repr)
        return render(x)
    t = type(x)
    f = next((k.__dict__['__repr__'] for k in t.__mro__ if '__repr__' in k.__dict__), None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.repr(x)


def _percent(fmt, args):
    """fmt % args where arguments (or fmt) may be symbolic"""
    if isinstance(fmt, Fin):
        fmt = fmt.concrete()
    if isinstance(args, SxDict):
        args_map = args
        args = None
    else:
        args_map = None
        if not isinstance(args, tuple):
            args = (args,)
    if type(fmt) is str and args is not None and not any(deep_sym(a) for a in args) and \
            not any(_has_sym_str(a) for a in args):
        return fmt % args
    import re
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    out = []
    pos = 0
    ai = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])', fmt):
        out.extend(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if name is not None:
            a = args_map[name]
        else:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            a = args[ai]
            ai += 1
        spec = m.group(0)
        if name is not None:
            spec = spec.replace('(%s)' % name, '')
        if conv in 'sra' and not flags and not width and not prec:
            r = render(a) if conv == 's' else render_repr(a)
            out.extend(chars_of(r))
        elif isinstance(a, SymNum) or (isinstance(a, Fin) and not is_str(a)):
            if conv in 'di' and not flags and not width:
                if isinstance(a, Fin):
                    out.extend(chars_of(fin_map(a, ('%', spec), lambda v: spec % v)))
                else:
                    v = a.trunc() if not a.is_int else a
                    out.extend([Seg(v, 'd')] if isinstance(v, SymNum) else builtins.str(v))
            elif conv in 'feEgFG':
                if isinstance(a, Fin):
                    a = a.num()
                out.append(Seg(a, ('%' + ('.' + prec if prec else '') + conv)))
            else:
                out.extend(spec % a.__index__())
        elif isinstance(a, SymStr):
            out.extend(spec % a.concrete())
        else:
            out.extend(spec % (a,))
    out.extend(fmt[pos:])
    if args_map is None and ai < len(args) and not (len(args) == 1 and ai == 0 and hasattr(args[0], 'keys')):
        raise TypeError('not all arguments converted during string formatting')
    return mk(out)


def _has_sym_str(a):
    t = type(a)
    if isinstance(a, PLAIN):
        return False
    return any(isinstance(k.__dict__.get(n), types.FunctionType) for k in t.__mro__ for n in ('__str__', '__repr__'))


def sx_fstr(parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.extend(p)
            continue
        val, conv, spec = p
        if conv == 114:
            val = render_repr(val)
        elif conv == 115:
            val = render(val)
        out.extend(chars_of(sx_fmt1(val, spec)))
    return mk(out)


def sx_fmt1(val, spec):
    if is_sym(spec):
        spec = builtins.str(spec)
    if not spec:
        return render(val)
    if isinstance(val, SymNum):
        if spec[-1] in 'feEgFG':
            return SymStr((Seg(val, '%' + spec),))
        if spec in ('d', ',', 'n'):
            return SymStr((Seg(val, 'd' if spec == 'd' else 's'),))
    if is_sym(val):
        return builtins.format(val.concrete() if hasattr(val, 'concrete') else val, spec)
    return builtins.format(val, spec)


def sx_format(fmt, a, k):
    import string
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        else:
            import re
            m = re.match(r'\w+', field)
            head = m.group(0)
            v = a[int(head)] if head.isdigit() else k[head]
            for attr, item in re.findall(r'\.(\w+)|\[(\w+)\]', field[len(head):]):
                v = getattr(v, attr) if attr else v[int(item) if item.isdigit() else item]
        if conv == 'r':
            v = render_repr(v)
        elif conv == 's':
            v = render(v)
        out.extend(chars_of(sx_fmt1(v, spec)))
    return mk(out)


def sx_mcall(obj, name, *a, **k):
    if type(obj) is str:
        if name == 'format':
            if deep_sym(a) or deep_sym(tuple(k.values())) or any(_has_sym_str(x) for x in a):
                return sx_format(obj, a, k)
        elif name == 'join':
            it = list(a[0])
            if any(is_sym(x) for x in it):
                return SymStr.of(obj).join(it)
            return obj.join(it)
        elif deep_sym(a) or deep_sym(tuple(k.values())):
            a = tuple(x.concrete() if isinstance(x, Fin) and is_str(x) and not all(len(v) == 1 for v in x.values()) else x
                      for x in a)
            return getattr(SymStr.of(obj), name)(*a, **k)
    elif isinstance(obj, Fin) and is_str(obj) and name == 'join':
        return sx_mcall(obj.concrete(), name, *a, **k)
    return getattr(obj, name)(*a, **k)


# ---------------------------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------------------------

class TypeShim:
    """Stands for a builtin type"""

    def __init__(self, real, extra, call):
        self._real = real
        self._extra = extra
        self._call = call
        self.__name__ = real.__name__
        self.__qualname__ = real.__qualname__
        self.__module__ = 'builtins'

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __getattr__(self, name):
        r = getattr(self._real, name)
        if self._real is str and name != 'maketrans' and not name.startswith('__'):
            return lambda s, *a, **k: sx_mcall(s, name, *a, **k)
        return r

    def __eq__(self, o):
        return o is self or o is self._real

    def __hash__(self):
        return hash(self._real)

    def __or__(self, o):
        return (self, o)

    def __ror__(self, o):
        return (o, self)

    def __getitem__(self, item):
        return self

    def __repr__(self):
        return repr(self._real)


def _str(*a, **k):
    if not a:
        return ''
    if len(a) > 1 or k:
        return builtins.str(*a, **k)
    return render(a[0])


def parse_num(s):
    """Number printed by a Seg (optionally surrounded by white space), or None"""
    cs = [c for c in s.c]
    segs = [c for c in cs if isinstance(c, Seg)]
    if len(segs) != 1:
        return None
    if not all(type(c) is str and c.isspace() for c in cs if not isinstance(c, Seg)):
        return None
    return segs[0]


def seg_value(g):
    """The number read back from the text of a printed number"""
    if g.fmt in ('d', 's', ''):
        return g.val
    import re
    m = re.match(r'%[,]?(?:\.(\d+))?([feEgFG])$', g.fmt)
    if not m:
        raise Unsupported('format ' + g.fmt)
    prec = int(m.group(1)) if m.group(1) else 6
    e = to_z(g.val)
    if e.is_int():
        e = z3.ToReal(e)
    r = E.fresh_real('printed')
    import fractions
    if m.group(2) in 'fF':
        h = zreal(fractions.Fraction(1, 2 * 10 ** prec))
        step = z3.Int('unit' + str(r))
        E.assume_f(('z', z3.And(r - e <= h, e - r <= h, z3.ToReal(step) == r * (10 ** prec))))
        E.assume_f(('z', z3.Implies(e >= 0, r >= 0)))
    else:
        digits = max(prec, 1) if m.group(2) in 'gG' else prec + 1
        if digits >= 17:
            return g.val
        h = zreal(fractions.Fraction(5, 10 ** digits))
        E.assume_f(('z', z3.And(z3.Implies(e > 0, z3.And(r > 0, r - e <= h * e, e - r <= h * e)),
                                z3.Implies(e == 0, r == 0))))
    return SymNum(r)


def _int(*a, **k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, SymStr):
        g = parse_num(x)
        if g is not None:
            v = seg_value(g)
            if isinstance(v, SymNum) and not v.is_int:
                raise ValueError('invalid literal for int()')
            return v
        return builtins.int(x.concrete(), *a[1:], **k)
    if isinstance(x, SymNum):
        return x.trunc()
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, Fin):
        return fin_map(x, 'int', builtins.int)
    return builtins.int(*a, **k)


def _float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, SymStr):
        g = parse_num(x)
        if g is not None:
            v = seg_value(g)
            if isinstance(v, SymNum) and v.is_int:
                return SymNum(z3.ToReal(v.e))
            return v
        return builtins.float(x.concrete())
    if isinstance(x, SymNum):
        return SymNum(z3.ToReal(x.e)) if x.is_int else x
    if isinstance(x, Fin):
        if is_str(x):
            return builtins.float(x.concrete())
        return x.num()
    if isinstance(x, SymBool):
        return x.num()
    return builtins.float(*a)


def _bool(*a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Fin):
        return mkbool(x.truth())
    return builtins.bool(x)


def _len(x):
    f = getattr(type(x), '_sx_len', None)
    if f is not None:
        return f(x)
    if isinstance(x, Fin):
        return fin_map(x, 'len', builtins.len)
    t = type(x).__dict__.get('__len__')
    if isinstance(t, types.FunctionType):
        r = t(x)
        if is_sym(r):
            return r
    return builtins.len(x)


def _range(*a):
    return builtins.range(*[x.__index__() if is_sym(x) else x for x in a])


def _any(it):
    fs = []
    for x in it:
        if is_sym(x) and isinstance(x, (SymBool, Fin)):
            fs.append(formula_of(x))
        elif x:
            return True
    if not fs:
        return False
    return mkbool(f_or(fs))


def _all(it):
    fs = []
    for x in it:
        if is_sym(x) and isinstance(x, (SymBool, Fin)):
            fs.append(formula_of(x))
        elif not x:
            return False
    if not fs:
        return True
    return mkbool(f_and(fs))


def _unshim(t):
    if isinstance(t, tuple):
        out = []
        for x in t:
            r = _unshim(x)
            out.extend(r if isinstance(r, tuple) else (r,))
        return tuple(out)
    if isinstance(t, TypeShim):
        return (t._real,) + t._extra
    if t is _collections.abc.Mapping or t is _collections.abc.MutableMapping:
        return (t, SxDict)
    return t


def _isinstance(x, t):
    t = _unshim(t)
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Fin):
        return builtins.isinstance(x.sample(), ts) or any(k is Fin for k in ts)
    if isinstance(x, SymNum):
        return (int in ts and x.is_int) or (float in ts and not x.is_int) or SymNum in ts
    if isinstance(x, SymBool):
        return bool in ts or int in ts
    if isinstance(x, SymStr):
        return str in ts or SymStr in ts or any(getattr(k, '__name__', '') in ('Iterable', 'Sequence') for k in ts)
    return builtins.isinstance(x, ts)


def _issubclass(x, t):
    if isinstance(x, TypeShim):
        x = x._real
    return builtins.issubclass(x, _unshim(t))


def _ord(x):
    if isinstance(x, SymStr) and len(x.c) == 1:
        x = x.c[0]
    if isinstance(x, Fin):
        return fin_map(x, 'ord', builtins.ord)
    return builtins.ord(x)


def _chr(x):
    if isinstance(x, Fin):
        return fin_map(x, 'chr', builtins.chr)
    return builtins.chr(x)


def _minmax(name, real):
    def f(*a, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            raise ValueError('%s() arg is an empty sequence' % name)
        key = k.get('key')
        best = items[0]
        kb = key(best) if key else best
        for x in items[1:]:
            kx = key(x) if key else x
            if (kx > kb) if name == 'max' else (kx < kb):
                best, kb = x, kx
        return best
    return f


def _type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymStr):
            return str
        if isinstance(x, Fin):
            return builtins.type(x.sample())
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymNum):
            return int if x.is_int else float
        if isinstance(x, SxDict):
            return dict
        if isinstance(x, SxSet):
            return set
        return builtins.type(x)
    return builtins.type(*a, **k)


STR = TypeShim(str, (SymStr,), _str)
INT = TypeShim(int, (), _int)
FLOAT = TypeShim(float, (), _float)
BOOL = TypeShim(bool, (), _bool)
DICT = TypeShim(dict, (SxDict,), SxDict)
SET = TypeShim(set, (SxSet,), SxSet)
FROZENSET = TypeShim(frozenset, (SxFrozenSet,), SxFrozenSet)
DICT.__dict__['fromkeys'] = SxDict.fromkeys


def make_builtins(vfs, importer):
    b = dict(builtins.__dict__)
    b.update({
        'str': STR, 'int': INT, 'float': FLOAT, 'bool': BOOL, 'dict': DICT, 'set': SET, 'frozenset': FROZENSET,
        'len': _len, 'range': _range, 'any': _any, 'all': _all, 'isinstance': _isinstance, 'issubclass': _issubclass,
        'ord': _ord, 'chr': _chr, 'max': _minmax('max', max), 'min': _minmax('min', min),
        'repr': render_repr, 'format': lambda v, s='': sx_fmt1(v, s),
        'open': vfs.open, '__import__': importer,
        'sx_in': sx_in, 'sx_notin': sx_notin, 'sx_not': sx_not, 'sx_dict': sx_dict, 'sx_dict_parts': sx_dict_parts,
        'sx_is': sx_is, 'sx_bound': sx_bound, 'sx_match_seq': sx_match_seq, 'sx_match_map': sx_match_map,
        'sx_match_rest': sx_match_rest, 'sx_match_pos': sx_match_pos,
        'sx_set': sx_set, 'sx_mod': sx_mod, 'sx_fstr': sx_fstr, 'sx_mcall': sx_mcall,
    })
    return b


# ---------------------------------------------------------------------------------------------
# modules
# ---------------------------------------------------------------------------------------------

class SxEnumMeta(_enum.EnumMeta):
    def __call__(cls, value=_enum._EnumDict, *a, **k):
        if isinstance(value, Fin) and not a and not k:
            if isinstance(value.sample(), cls):
                return value
            return fin_map(value, ('enum', cls), lambda v: _enum.EnumMeta.__call__(cls, v))
        if isinstance(value, SymNum):
            value = value.__index__()
        if isinstance(value, SymStr):
            value = value.concrete()
        if value is _enum._EnumDict:
            return super().__call__(*a, **k)
        return super().__call__(value, *a, **k)

    def __getitem__(cls, name):
        if isinstance(name, Fin):
            return fin_map(name, ('enumname', cls), lambda v: _enum.EnumMeta.__getitem__(cls, v))
        if isinstance(name, SymStr):
            name = name.concrete()
        return super().__getitem__(name)

    def __contains__(cls, value):
        if isinstance(value, Fin):
            return bool(fin_map(value, ('enumin', cls), lambda v: _enum.EnumMeta.__contains__(cls, v)))
        return super().__contains__(value)


def make_enum():
    m = types.ModuleType('enum')
    for n in dir(_enum):
        if not n.startswith('__'):
            setattr(m, n, getattr(_enum, n))

    class Enum(_enum.Enum, metaclass=SxEnumMeta):
        pass

    class IntEnum(int, _enum.ReprEnum, metaclass=SxEnumMeta):
        pass

    class StrEnum(str, _enum.ReprEnum, metaclass=SxEnumMeta):
        pass
    m.Enum = Enum
    m.IntEnum = IntEnum
    m.StrEnum = StrEnum
    m.EnumMeta = m.EnumType = SxEnumMeta
    return m


def make_math():
    m = types.ModuleType('math')
    for n in dir(_math):
        if not n.startswith('__'):
            setattr(m, n, getattr(_math, n))

    def log(x, *base):
        if isinstance(x, Fin):
            x = x.num()
        if isinstance(x, SymNum):
            if base:
                raise Unsupported('log with base')
            if x > 0:
                return SymLog(x)
            raise ValueError('math domain error')
        return _math.log(x, *base)

    def log1(x):
        return log(x)

    def pred(name, val):
        def f(x):
            if isinstance(x, (SymNum, SymLog)):
                return val
            return getattr(_math, name)(x)
        return f

    def exp(x):
        if isinstance(x, SymLog):
            return x.p
        return _math.exp(x)

    def isclose(a, b, **k):
        if is_sym(a) or is_sym(b):
            rel = k.get('rel_tol', 1e-9)
            d = abs(a - b)
            return mkbool(f_or([formula_of(d <= abs(a) * rel), formula_of(d <= abs(b) * rel)]))
        return _math.isclose(a, b, **k)

    def ceil(x):
        return x.__ceil__() if isinstance(x, SymNum) else fin_map(x, 'ceil', _math.ceil) if isinstance(x, Fin) else _math.ceil(x)

    def floor(x):
        return x.__floor__() if isinstance(x, SymNum) else fin_map(x, 'floor', _math.floor) if isinstance(x, Fin) else _math.floor(x)

    m.log = log
    m.log2 = m.log10 = log1
    m.isnan = pred('isnan', False)
    m.isinf = pred('isinf', False)
    m.isfinite = pred('isfinite', True)
    m.exp = exp
    m.isclose = isclose
    m.ceil = ceil
    m.floor = floor
    return m


def make_collections():
    m = types.ModuleType('collections')
    for n in dir(_collections):
        if not n.startswith('__'):
            setattr(m, n, getattr(_collections, n))
    m.Counter = SxCounter
    m.defaultdict = SxDefaultDict
    m.OrderedDict = SxDict
    m.abc = _collections.abc
    return m


class _Memo:
    def __init__(self, fn):
        self.fn = fn
        self._memo = SxDict()
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, '__name__', 'memo')

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        e = self._memo._find(key)
        if e is not None:
            return e[1]
        r = self.fn(*a, **k)
        self._memo[key] = r
        return r

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return _functools.partial(self, obj)

    def cache_clear(self):
        self._memo.clear()


def make_functools():
    m = types.ModuleType('functools')
    for n in dir(_functools):
        if not n.startswith('__'):
            setattr(m, n, getattr(_functools, n))

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return _Memo(maxsize)
        return _Memo
    m.lru_cache = lru_cache
    m.cache = _Memo
    return m


def make_itertools():
    import itertools as _it
    m = types.ModuleType('itertools')
    for n in dir(_it):
        if not n.startswith('__'):
            setattr(m, n, getattr(_it, n))

    def groupby(it, key=None):
        cur = None
        group = []
        have = False
        for x in it:
            k = key(x) if key else x
            if isinstance(k, SymBool):
                k = bool(k)
            if have and E_dec(eq(cur, k)):
                group.append(x)
            else:
                if have:
                    yield cur, iter(group)
                cur, group, have = k, [x], True
        if have:
            yield cur, iter(group)
    m.groupby = groupby
    return m


def E_dec(f):
    return f if f is True or f is False else E.decide(f)


def make_operator():
    import operator as _o
    m = types.ModuleType('operator')
    for n in dir(_o):
        if not n.startswith('__'):
            setattr(m, n, getattr(_o, n))
    m.contains = lambda c, i: contains(c, i)
    m.mod = sx_mod
    m.not_ = sx_not
    return m


class NpShim(types.ModuleType):
    """numpy over Python objects: arrays have dtype object, so their cells may be symbolic"""

    def __init__(self):
        super().__init__('numpy')
        import numpy
        self._np = numpy

    def __getattr__(self, name):
        if name in ('__path__', '__spec__', '__file__'):
            raise AttributeError(name)
        return getattr(self._np, name)

    def _shape(self, s):
        if isinstance(s, (tuple, list)):
            return tuple(x.__index__() if is_sym(x) else x for x in s)
        return s.__index__() if is_sym(s) else s

    def empty(self, shape, dtype=None, **k):
        a = self._np.empty(self._shape(shape), dtype=object)
        a.fill(None)
        return a

    def zeros(self, shape, dtype=None, **k):
        a = self._np.empty(self._shape(shape), dtype=object)
        a.fill(False if _is_boolty(dtype) else 0)
        return a

    def ones(self, shape, dtype=None, **k):
        a = self._np.empty(self._shape(shape), dtype=object)
        a.fill(True if _is_boolty(dtype) else 1)
        return a

    def full(self, shape, v, dtype=None, **k):
        a = self._np.empty(self._shape(shape), dtype=object)
        a.fill(v)
        return a

    def zeros_like(self, a, **k):
        return self.zeros(self._np.shape(a))

    def array(self, x, dtype=None, **k):
        if isinstance(x, self._np.ndarray):
            return x.astype(object)
        if isinstance(x, (list, tuple)):
            if len(x) and all(isinstance(y, (list, tuple, self._np.ndarray)) for y in x):
                subs = [self.array(y) for y in x]
                if all(s.shape == subs[0].shape for s in subs):
                    out = self._np.empty((len(subs),) + subs[0].shape, dtype=object)
                    for i, s in enumerate(subs):
                        out[i] = s
                    return out
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            out = self._np.empty(len(x), dtype=object)
            isfloat = dtype is not None and (dtype is float or dtype is self.float32 or dtype is self.float64 or 'float' in str(dtype))
            for i, y in enumerate(x):
                if isfloat and isinstance(y, (str, SymStr)):
                    y = float(str(y)) if type(y) is str else _float(y)
                out[i] = y
            return out
        if isinstance(x, (builtins.range, _View, types.GeneratorType, map, zip)):
            return self.array(list(x))
        return self._np.array(x, dtype=object)

    asarray = array

    def concatenate(self, arrs, axis=0, **k):
        return self._np.concatenate([self.array(a) if not isinstance(a, self._np.ndarray) else a for a in arrs], axis=axis)

    def maximum(self, a, b):
        return self._pair(a, b, lambda x, y: x if x >= y else y)

    def minimum(self, a, b):
        return self._pair(a, b, lambda x, y: x if x <= y else y)

    def _pair(self, a, b, fn):
        np = self._np
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            return fn(a, b)
        shape = a.shape if isinstance(a, np.ndarray) else b.shape
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = fn(a[idx] if isinstance(a, np.ndarray) else a, b[idx] if isinstance(b, np.ndarray) else b)
        return out

    def clip(self, a, lo, hi, **k):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        return r

    def argmax(self, x, axis=None, **k):
        f = getattr(x, '_sx_argmax', None)
        if f is not None:
            return f(axis)
        if isinstance(x, (list, tuple)):
            x = self.array(x)
        if isinstance(x, self._np.ndarray) and x.dtype == object:
            if x.size and getattr(x.flat[0], '_sx_argmax', None):
                if axis in (-1, x.ndim):
                    out = self._np.empty(x.shape, dtype=object)
                    for idx in self._np.ndindex(*x.shape):
                        out[idx] = x[idx]._sx_argmax(None)
                    return out
                raise Unsupported('argmax axis')
            if x.ndim > 1:
                if axis in (-1, x.ndim - 1):
                    return self.array([self.argmax(y, -1 if y.ndim > 1 else None) for y in x])
                raise Unsupported('argmax axis')
            best, bi = x[0], 0
            for i in range(1, len(x)):
                if x[i] > best:
                    best, bi = x[i], i
            return bi
        return self._np.argmax(x, axis=axis, **k)

    def sum(self, x, *a, **k):
        if not a and not k:
            t = 0
            for y in (x.flat if isinstance(x, self._np.ndarray) else x):
                t = t + y
            return t
        return self._np.sum(x, *a, **k)

    def linspace(self, a, b, num=50, endpoint=True, dtype=None, **k):
        if is_sym(num):
            num = num.__index__()
        isint = dtype is not None and (dtype is INT or dtype is int or 'int' in str(dtype))
        if is_sym(a) or is_sym(b):
            if not endpoint:
                raise Unsupported('linspace without endpoint')
            # marks: non-decreasing, first and last exact, inner ones within 1e-6 of the exact value
            out = self._np.empty(num, dtype=object)
            for i in range(num):
                if i == 0:
                    v = a
                elif i == num - 1:
                    v = b
                else:
                    exact = a + (b - a) * i / (num - 1)
                    z = E.fresh_real('mark')
                    ex = to_z(exact)
                    if ex.is_int():
                        ex = z3.ToReal(ex)
                    E.assume_f(('z', z3.And(z - ex <= zreal(1e-6), ex - z <= zreal(1e-6), z <= to_z(b), z >= to_z(a))))
                    v = SymNum(z)
                if isint:
                    v = _int(v)
                out[i] = v
            return out
        if isint:
            dtype = int
        return self._np.linspace(a, b, num=num, endpoint=endpoint, dtype=dtype, **k)

    def arange(self, *a, **k):
        return self._np.arange(*[x.__index__() if is_sym(x) else x for x in a], **{})

    def divide(self, a, b, **k):
        return a / b

    def exp(self, x):
        return self._np.exp(x)

    def isclose(self, a, b, **k):
        raise Unsupported('np.isclose')


def _is_boolty(dtype):
    return dtype is bool or dtype is BOOL or 'bool' in str(dtype)


def make_modules():
    return {
        're': rx.make_module(), 'enum': make_enum(), 'math': make_math(), 'collections': make_collections(),
        'functools': make_functools(), 'itertools': make_itertools(), 'numpy': NpShim(), 'operator': make_operator(),
    }


_mods_cache = None


def make_modules_cached():
    global _mods_cache
    if _mods_cache is None:
        _mods_cache = make_modules()
    return dict(_mods_cache)
