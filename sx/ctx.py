"""The interface between a harness and the engine.

The same harness code runs in three ways: symbolically (SymCtx), concretely on a model of a path (ConcCtx),
and concretely again when a counterexample is replayed from its file.
"""
import fractions
import zlib

from sx.loader import World


class HarnessSkip(BaseException):
    """An assumption does not hold for this concrete input"""


class Failed(BaseException):
    pass


class BaseCtx:
    def __init__(self, world):
        self.world = world
        self.obs = []
        self.covered = set()
        self.nsched = 0
        self.prefix = ''
        self.pin, self.mixed = None, False
        self.kept = {}
        self.stables = []
        world.hooks.clear()
        world.vfs.files.clear()
        world.vfs.log.clear()
        world.sched.reset()

    # -- histories
    def keep(self, key, make):
        """The object made under this key by an earlier part of the case, or a new one"""
        if key not in self.kept:
            self.kept[key] = make()
        return self.kept[key]

    def stable(self, what, value):
        """The value must still be the same when all parts of the case are over"""
        self.stables.append((what, value, frozen(value)))

    def pinned(self, name, values):
        k = self.pin + (zlib.crc32(('%d%s' % (self.pin, name)).encode()) >> 7 if self.mixed else 0)
        return values[k % len(values)]

    def later(self, fn):
        """Checks to be made when all parts of the case are over"""
        self.stables.append((fn, None, None))

    def run_case(self, h, case):
        """A case 'A >> B' is a history: A, then B in the same process (and with the objects A kept);
        '~k A' stands for A with the k-th of its choices everywhere, '~~k A' with choices that depend on k"""
        parts = case.split(' >> ')
        for i, part in enumerate(parts):
            self.prefix = '%d:' % i if len(parts) > 1 else ''
            self.pin = None
            if part.startswith('~'):
                pin, _, part = part[1:].partition(' ')
                self.mixed = pin.startswith('~')
                self.pin = int(pin.lstrip('~'))
            h.run(self, part)
        self.prefix = ''
        for what, value, before in self.stables:
            if callable(what):
                what()
                continue
            self.check(self.all(unchanged(value, before)), '%s changed afterwards' % what)

    # -- environment
    def mod(self, name):
        return self.world.load('scrappybara.' + name)

    def root(self):
        return self.world.load_root()

    def file(self, key, content):
        """content: text, list of lines (each ending in newline), may be symbolic"""
        self.world.vfs.files[key] = content

    def pkl(self, key, obj):
        from sx.env import Obj
        self.world.vfs.files[key] = Obj(obj)

    def written(self, key):
        return self.world.vfs.files.get(key)

    def predict(self, fn):
        """fn(list of input arrays) -> (nested list of class codes, number of classes)"""
        self.world.hooks['predict'] = fn

    def schedule(self, start=0, length=None):
        """Thread switches become inputs; with a length, only that many decisions from the given one on"""
        def choose(n):
            self.nsched += 1
            if self.nsched <= start or (length is not None and self.nsched > start + length):
                return 0
            return self.choose('sched%d' % self.nsched, n)
        self.world.hooks['schedule'] = choose

    def preempt(self, start, length, times=3):
        """One interruption: before one of the statements start, start + 1, ... of the threads that others wait for (each place
        in the code at most `times` times), the last of those takes over and runs to its end"""
        sched = self.world.sched
        state = {'n': 0, 'at': None}
        seen = {}

        def tick(place):
            if sched.current is None or state['at'] == -1 or len(sched.threads) < 2:
                return
            seen[place] = seen.get(place, 0) + 1
            if seen[place] > times:
                return
            n = state['n']
            state['n'] = n + 1
            if n == start:
                pin, self.pin = self.pin, None
                state['at'] = start + self.choose('interrupted', length)
                self.pin = pin
            if n == state['at']:
                state['at'] = -1
                self.cover('interrupted')
                sched.switch([t for t in sched.threads if t is not sched.current][-1])
                sched.raise_pending()
        self.world.hooks['schedule'] = lambda n: 0
        self.world.hooks['tick'] = tick
        return state

    def calm(self):
        """No interruptions from here on"""
        self.world.hooks.pop('tick', None)
        self.world.hooks.pop('schedule', None)

    def randomness(self):
        """What the random module draws becomes an input"""
        def choose(n):
            self.nsched += 1
            return self.choose('random%d' % self.nsched, n) if n > 1 else 0
        self.world.hooks['random'] = choose

    def switch_point(self):
        self.world.sched.yield_point()

    def observe(self, key, value):
        self.obs.append((key, value))

    def cover(self, name):
        self.covered.add(name)

    def choose(self, name, n):
        return self.concrete(self.pick(name, list(range(n))))

    def flag(self, name):
        return self.choose(name, 2) == 1

    def call(self, fn, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e


def frozen(x):
    if isinstance(x, (list, tuple)):
        return [frozen(y) for y in x]
    if isinstance(x, dict):
        return [frozen(y) for y in x.items()]
    return x


def unchanged(x, before):
    from sx.core import eq, mkbool
    if isinstance(x, dict):
        x = list(x.items())
    if isinstance(before, list):
        if not isinstance(x, (list, tuple)) or len(x) != len(before):
            return [False]
        return [c for y, b in zip(x, before) for c in unchanged(y, b)]
    return [x is before or mkbool(eq(x, before))]


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, world, runner):
        super().__init__(world)
        self.runner = runner

    def text(self, name, n, alphabet):
        from sx.core import E, Fin, intern_tab
        from sx.strs import mk
        tab = intern_tab(list(alphabet))
        if self.pin is not None:
            return ''.join([self.pinned('%s[%d]' % (name, i), tab) for i in range(n)])
        return mk([Fin(E.new_var('%s%s[%d]' % (self.prefix, name, i), tab), tab) if len(tab) > 1 else tab[0] for i in range(n)])

    def pick(self, name, values):
        from sx.core import E, fin_make, intern_tab
        values = list(values)
        if len(values) == 1:
            return values[0]
        if self.pin is not None:
            return self.pinned(name, values)
        tab = intern_tab(values)
        return fin_make(E.new_var(self.prefix + name, tab), tab)

    def pick_word(self, name, words):
        """A word of the list, chosen symbolically (value-level table, not character level)"""
        return self.pick(name, words)

    def int(self, name, lo=None, hi=None):
        from sx.core import E
        return E.new_num(self.prefix + name, 'int', lo, hi)

    def real(self, name, lo=None, hi=None):
        from sx.core import E
        return E.new_num(self.prefix + name, 'real', lo, hi)

    def concrete(self, x):
        from sx.core import Fin, SymBool, SymNum
        from sx.strs import SymStr
        if isinstance(x, (Fin, SymStr)):
            return x.concrete()
        if isinstance(x, SymNum):
            return x.__index__()
        if isinstance(x, SymBool):
            return bool(x)
        return x

    def assume(self, cond):
        from sx.core import E, formula_of
        E.assume_f(formula_of(cond))

    def check(self, cond, msg):
        self.runner.check(cond, msg)

    def fail(self, msg):
        self.runner.check(False, msg)

    def close(self, a, b, tol=1e-9):
        """Equal up to the rounding of concrete floating-point constants"""
        import z3
        from sx.core import is_sym, mkbool, to_z, zreal
        if not is_sym(a) and not is_sym(b):
            a, b = float(a), float(b)
            return a - a == 0 and b - b == 0 and abs(a - b) <= tol * max(1.0, abs(a), abs(b)) + 1e-12
        za, zb = to_z(a), to_z(b)
        if za.is_int():
            za = z3.ToReal(za)
        if zb.is_int():
            zb = z3.ToReal(zb)
        d = z3.simplify(za - zb, som=True)
        t = zreal(tol) * (1 + z3.If(zb >= 0, zb, -zb))
        return mkbool(('z', z3.And(d <= t, -d <= t)))

    def all(self, conds):
        from sx.core import f_and, formula_of, mkbool
        return mkbool(f_and([formula_of(c) for c in conds]))

    def any(self, conds):
        from sx.core import f_or, formula_of, mkbool
        return mkbool(f_or([formula_of(c) for c in conds]))

    def eq(self, a, b):
        from sx.core import eq, mkbool
        return mkbool(eq(a, b))

    def ite(self, c, a, b):
        """a if c else b, numbers only, without forking"""
        import z3
        from sx.core import f_z3, formula_of, mknum, to_z
        f = formula_of(c)
        if f is True or f is False:
            return a if f else b
        za, zb = to_z(a), to_z(b)
        if za.is_int() != zb.is_int():
            za = z3.ToReal(za) if za.is_int() else za
            zb = z3.ToReal(zb) if zb.is_int() else zb
        return mknum(z3.If(f_z3(f), za, zb))

    def items(self, name, lo, hi):
        """The list 0, 1, ... of symbolic length"""
        from sx.conts import SymList
        return SymList(0, self.int(name, lo, hi))

    def is_partition(self, parts, items):
        """parts, put together, are the items in order"""
        from sx.conts import SymList
        from sx.core import eq, f_and
        pos = 0
        fs = []
        for p in parts:
            if isinstance(p, SymList):
                from sx.core import f_or
                fs.append(f_or([eq(p.lo, pos), eq(p._sx_len(), 0)]))
                pos = pos + p._sx_len()
            else:
                for x in p:
                    fs.append(eq(x, pos))
                    pos = pos + 1
        fs.append(eq(pos, items._sx_len()))
        from sx.core import mkbool
        return mkbool(f_and(fs))

    def size(self, part):
        from sx.conts import SymList
        return part._sx_len() if isinstance(part, SymList) else len(part)


class ConcCtx(BaseCtx):
    sym = False

    def __init__(self, world, inputs):
        super().__init__(world)
        self.inputs = inputs
        self.failures = []
        self.used = {}

    def _get(self, name, default=0):
        name = self.prefix + name
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def text(self, name, n, alphabet):
        alphabet = list(alphabet)
        if self.pin is not None:
            return ''.join([self.pinned('%s[%d]' % (name, i), alphabet) for i in range(n)])
        return ''.join(alphabet[self._get('%s[%d]' % (name, i))] if len(alphabet) > 1 else alphabet[0] for i in range(n))

    def pick(self, name, values):
        values = list(values)
        if len(values) == 1:
            return values[0]
        if self.pin is not None:
            return self.pinned(name, values)
        i = self._get(name)
        return values[i if i < len(values) else 0]

    pick_word = pick

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else 0
        return int(self._get(name, d))

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else 0))

    def concrete(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise HarnessSkip()

    def check(self, cond, msg):
        if not cond:
            self.failures.append(msg)
            raise Failed(msg)

    def fail(self, msg):
        self.check(False, msg)

    def close(self, a, b, tol=1e-9):
        a, b = float(a), float(b)
        return a - a == 0 and b - b == 0 and abs(a - b) <= tol * max(1.0, abs(a), abs(b)) + 1e-12

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def eq(self, a, b):
        return a == b

    def ite(self, c, a, b):
        return a if c else b

    def items(self, name, lo, hi):
        return list(range(self.int(name, lo, hi)))

    def is_partition(self, parts, items):
        return [x for p in parts for x in p] == items

    def size(self, part):
        return len(part)


class WorldBox:
    """Keeps one world per mode; loads a new one whenever a path left a trace in the modules"""

    def __init__(self, mode):
        self.mode = mode
        self.world = None
        self.fp = None
        self.stateful = False
        self.loads = 0
        self.ticks = None
        self.harness = {}

    def get(self, hpath):
        if self.ticks is None:
            with open(hpath, encoding='utf-8') as f:
                self.ticks = '\nTICKS = True\n' in '\n' + f.read()
        if self.world is None or self.stateful:
            self.world = World(self.mode, self.ticks)
            self.harness = {}
            self.loads += 1
            self.fp = None
        h = self.harness.get(hpath)
        if h is None:
            h = self.harness[hpath] = self.world.run_file(hpath)
            self.fp = None
        return self.world, h

    def before(self):
        if self.stateful:
            return
        if self.fp is None:
            self.fp = self.world.fingerprint()
        self.pre_mods = set(self.world.mods)

    def after(self):
        if self.stateful:
            return
        if set(self.world.mods) != self.pre_mods:
            # first use loaded modules: start from a fresh copy with the same modules to be certain
            self.world_mods = list(self.world.mods)
            names = [n for n in self.world.mods]
            w = World(self.mode, self.ticks)
            for n in names:
                w.load(n)
            if self.world.mods.get('scrappybara') is not None and self.world.mods['scrappybara'].__dict__.get('_sx_root'):
                w.load_root()
            self.world = w
            self.harness = {}
            self.loads += 1
            self.fp = None
            return
        if self.world.fingerprint() != self.fp:
            self.stateful = True


def jsonable(x):
    if isinstance(x, fractions.Fraction):
        return {'frac': [x.numerator, x.denominator]}
    return x


def unjson(x):
    if isinstance(x, dict) and 'frac' in x:
        return fractions.Fraction(*x['frac'])
    return x


def norm_obs(x, depth=0):
    """Comparable form of an observed value (concrete side)"""
    import enum
    t = type(x).__name__
    if isinstance(x, enum.Enum):
        return ('enum', x.name)
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, str)):
        return x
    if isinstance(x, (float, fractions.Fraction)):
        return float(x)
    if t in ('int32', 'int64', 'bool_', 'float32', 'float64'):
        return norm_obs(x.item())
    if t == 'ndarray':
        return [norm_obs(y) for y in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [norm_obs(y) for y in x]
    if t in ('SxDict', 'SxDefaultDict', 'SxCounter', 'dict', 'Counter', 'defaultdict', 'OrderedDict'):
        return {'d': sorted(([norm_obs(k), norm_obs(v)] for k, v in x.items()), key=repr)}
    if t in ('set', 'frozenset', 'SxSet', 'SxFrozenSet'):
        return {'s': sorted((norm_obs(k) for k in x), key=repr)}
    if isinstance(x, BaseException):
        return ('exc', t)
    if hasattr(x, '__iter__'):
        return [norm_obs(y) for y in x]
    return ('obj', t)


def same_obs(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_obs(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_obs(a[k], b[k]) for k in a)
    return a == b
