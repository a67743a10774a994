"""Stand-ins for the outside world: data files, pickle, tensorflow, threads, pools."""
import builtins
import io
import os
import sys
import threading as _rt
import types

from sx.loader import REPO

DATA = os.path.join(REPO, 'scrappybara', 'data')


class _SymFile:
    """Text file over pieces that may be symbolic strings"""

    def __init__(self, vfs, key, mode, content):
        self.vfs = vfs
        self.key = key
        self.mode = mode
        self.closed = False
        self.obj = None
        self.pieces = []
        self.lines = None
        self.pos = 0
        self.name = key
        self.content = content
        self.raw = 'b' in mode
        if 'a' in mode and content is not None:
            self.pieces.append(content)
        if 'w' in mode or 'a' in mode or 'x' in mode:
            self.vfs.files[key] = ''

    def _lines(self):
        if self.lines is None:
            c = self.content
            if isinstance(c, list):
                self.lines = list(c)
            else:
                if type(c) is bytes and not self.raw:
                    c = c.decode('utf-8')
                elif isinstance(c, TextBytes) and not self.raw:
                    c = c.text
                self.lines = c.splitlines(True) if type(c) is bytes else \
                    self.vfs.split_lines(c, self.raw) if not isinstance(c, TextBytes) else self.vfs.split_lines(c.text, True)
            if self.raw:
                self.lines = [to_bytes(l) for l in self.lines]
        return self.lines

    def __iter__(self):
        while True:
            l = self.readline()
            if type(l) in (str, bytes) and not l:
                return
            yield l

    def readline(self):
        self._open()
        ls = self._lines()
        if self.pos >= len(ls):
            return b'' if self.raw else ''
        self.pos += 1
        return ls[self.pos - 1]

    def __next__(self):
        l = self.readline()
        if type(l) in (str, bytes) and not l:
            raise StopIteration
        return l

    def readlines(self):
        self._open()
        ls = self._lines()[self.pos:]
        self.pos = len(self._lines())
        return ls

    def read(self, *a):
        if self.obj is not None and self.raw:
            self._open()
            return Pickled.of(self.obj.value)
        if a and a[0] is not None and not (type(a[0]) is int and a[0] < 0):
            from sx.core import Unsupported
            raise Unsupported('reading a given number of characters')
        return self.vfs.join(self.readlines(), self.raw)

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def write(self, s):
        self._open()
        if not ('w' in self.mode or 'a' in self.mode or 'x' in self.mode):
            raise io.UnsupportedOperation('not writable')
        if isinstance(s, (bytes, bytearray, TextBytes)) != ('b' in self.mode):
            raise TypeError('write() argument must be %s' % ('bytes' if 'b' in self.mode else 'str'))
        if isinstance(s, Pickled):
            self.obj = Obj(s.value)
        else:
            self.pieces.append(s)
        return len(s) if type(s) in (str, bytes) else 0

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        if self.closed:
            return
        if self.obj is not None:
            self.vfs.files[self.key] = self.obj
        elif 'w' in self.mode or 'a' in self.mode or 'x' in self.mode:
            self.vfs.files[self.key] = self.vfs.join(self.pieces, self.raw)

    def fileno(self):
        return 0

    def close(self):
        self.flush()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass


class Obj:
    """A pickled object in the virtual file system"""

    def __init__(self, value):
        self.value = value


class Pickled(bytes):
    """What pickle.dumps gives: bytes that stand for the object"""
    value = None

    @staticmethod
    def of(value):
        r = Pickled(b'\x80\x04.')
        r.value = value
        return r


class TextBytes:
    """The UTF-8 encoding of a text that may be symbolic"""

    def __init__(self, text):
        self.text = text

    def decode(self, encoding='utf-8', errors='strict'):
        _utf8(encoding)
        return self.text

    def __bool__(self):
        return len(self.text) > 0

    def _bytes(self):
        return (self.text if type(self.text) is str else self.text.concrete()).encode('utf-8')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self._bytes(), name)

    def __len__(self):
        return len(self._bytes())

    def __iter__(self):
        return iter(self._bytes())

    def __getitem__(self, i):
        return self._bytes()[i]

    def __eq__(self, other):
        return self._bytes() == (other._bytes() if isinstance(other, TextBytes) else other)

    def __hash__(self):
        return hash(self._bytes())

    def __add__(self, other):
        return TextBytes(self.text + (other.text if isinstance(other, TextBytes) else other.decode('utf-8')))

    def __radd__(self, other):
        return TextBytes(other.decode('utf-8') + self.text)


def _utf8(encoding):
    import codecs
    if codecs.lookup(encoding).name not in ('utf-8', 'utf-8-sig'):
        from sx.core import Unsupported
        raise Unsupported('encoding ' + encoding)


def to_bytes(x):
    if isinstance(x, (bytes, TextBytes)):
        return x
    return x.encode('utf-8') if type(x) is str else TextBytes(x)


class VFS:
    def __init__(self, world):
        self.world = world
        self.files = {}
        self.log = []
        self.writes_only = True

    def key(self, path):
        if not isinstance(path, str):
            path = str(path)
        p = os.path.normpath(path)
        if p.startswith(DATA + os.sep):
            return p[len(DATA) + 1:]
        return p

    def join(self, pieces, raw=False):
        if raw:
            if all(isinstance(p, (bytes, bytearray)) for p in pieces):
                return b''.join(pieces)
            return TextBytes(self.join([p.text if isinstance(p, TextBytes) else p.decode('utf-8') for p in pieces]))
        if self.world.mode == 'sym':
            from sx.strs import chars_of, mk
            out = []
            for p in pieces:
                out.extend(chars_of(p))
            return mk(out)
        return ''.join(pieces)

    def split_lines(self, text, raw=False):
        """Universal newlines, or newlines only when raw"""
        if isinstance(text, str):
            return text.encode('utf-8').splitlines(True) if raw and '\r' not in text else \
                [l for l in io.StringIO(text, newline='\n' if raw else None)]
        if raw:
            from sx.core import Unsupported
            raise Unsupported('lines of bytes of symbolic text')
        from sx.strs import char_test, dec, mk
        out, cur = [], []
        cs = text.c
        i = 0
        while i < len(cs):
            c = cs[i]
            if dec(char_test(c, 'eol', lambda v: v in '\r\n')):
                if dec(char_test(c, ('=', '\r'), lambda v: v == '\r')) and i + 1 < len(cs) and \
                        dec(char_test(cs[i + 1], ('=', '\n'), lambda v: v == '\n')):
                    i += 1
                out.append(mk(cur + ['\n']))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def has(self, s, chars):
        """Whether a text, maybe symbolic, has one of these characters"""
        if type(s) is str:
            return any(c in s for c in chars)
        from sx.strs import SymStr, char_test, dec
        for c in (s.c if isinstance(s, SymStr) else (s,)):
            if type(c) is str:
                if any(x in c for x in chars):
                    return True
            elif not hasattr(c, 'fmt') and dec(char_test(c, ('oneof', chars), lambda v: any(x in v for x in chars))):
                return True
        return False

    def exists(self, path):
        return self.key(path) in self.files or os.path.exists(str(path))

    def open(self, path, mode='r', *a, **k):
        key = self.key(path)
        kind = mode.replace('b', '', 1).replace('t', '', 1).replace('+', '', 1)
        if kind not in ('r', 'w', 'a', 'x') or 'b' in mode and 't' in mode:
            raise ValueError('invalid mode: %r' % mode)
        if k.get('encoding') is not None:
            import codecs
            codecs.lookup(k['encoding'])
        self.log.append((key, mode))
        if 'w' in mode or 'a' in mode or 'x' in mode or '+' in mode:
            return _SymFile(self, key, mode, self.files.get(key))
        if key in self.files:
            c = self.files[key]
            if isinstance(c, Obj):
                f = _SymFile(self, key, mode, '')
                f.obj = c
                return f
            return _SymFile(self, key, mode, c)
        return builtins.open(path, mode, *a, **k)


# ---------------------------------------------------------------------------------------------
# pickle
# ---------------------------------------------------------------------------------------------

def make_pickle(world):
    import copy
    import pickle as _p
    m = types.ModuleType('pickle')
    for n in dir(_p):
        if not n.startswith('__'):
            setattr(m, n, getattr(_p, n))

    def conv(x):
        if world.mode == 'sym' and type(x) is dict:
            from sx.conts import SxDict
            return SxDict(x)
        return x

    def load(f, *a, **k):
        if isinstance(f, _SymFile):
            if f.obj is None:
                raise EOFError('Ran out of input')
            return conv(copy.copy(f.obj.value))
        return conv(_p.load(f, *a, **k))

    def dump(obj, f, *a, **k):
        if isinstance(f, _SymFile):
            f.obj = Obj(obj)
            f.flush()
            return
        _p.dump(obj, f, *a, **k)
    def loads(data, *a, **k):
        if isinstance(data, Pickled):
            return conv(copy.copy(data.value))
        return conv(_p.loads(data, *a, **k))

    def dumps(obj, *a, **k):
        return Pickled.of(obj)

    class Pickler:
        def __init__(self, f, *a, **k):
            self.f = f

        def dump(self, obj):
            dump(obj, self.f)

    class Unpickler:
        def __init__(self, f, *a, **k):
            self.f = f

        def load(self):
            return load(self.f)
    m.load = load
    m.dump = dump
    m.loads, m.dumps, m.Pickler, m.Unpickler = loads, dumps, Pickler, Unpickler
    return m


# ---------------------------------------------------------------------------------------------
# tensorflow: the layer graph is opaque, predictions come from the harness
# ---------------------------------------------------------------------------------------------

class _T:
    """Opaque tensor / layer / anything"""

    def __call__(self, *a, **k):
        return _T()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _T()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _op(self, *a):
        return _T()
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __truediv__ = __getitem__ = _op


class Probas:
    """A sequence (of sequences) of predicted classes standing for arrays of probabilities"""

    def __init__(self, items, n):
        self.items = items
        self.n = n

    @property
    def shape(self):
        return (len(self.items),) + (self.items[0].shape if self.items else (self.n,))

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            r = self[i[0]]
            return r[i[1:] if len(i) > 2 else i[1]] if len(i) > 1 else r
        r = self.items[i]
        return Probas(r, self.n) if isinstance(i, slice) else r

    def _sx_argmax(self, axis):
        if axis is None or axis not in (-1, self.ndim - 1):
            from sx.core import Unsupported
            raise Unsupported('argmax axis')
        import numpy
        out = numpy.empty(self.shape[:-1], dtype=object)
        for i, x in enumerate(self.items):
            r = x._sx_argmax(None if isinstance(x, OneHot) else -1)
            if out.ndim == 1:
                out[i] = r
            else:
                out[i, :] = r
        return out

    def argmax(self, axis=None):
        return self._sx_argmax(axis)


class OneHot:
    def __init__(self, code, n):
        self.code = code
        self.n = n
        self.shape = (n,)

    def _sx_argmax(self, axis):
        return self.code

    def argmax(self, axis=None):
        return self.code

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter([self[i] for i in range(self.n)])

    def __getitem__(self, i):
        from sx.core import SymNum, eq, formula_of, mkbool
        b = mkbool(eq(self.code, i))
        return (1.0 if b else 0.0) if isinstance(b, bool) else b.num()

    def tolist(self):
        return list(self)


def make_tf(world):
    class Model(_T):
        def __init__(self, *a, **k):
            ins = k.get('inputs', a[0] if a else None)
            self._ins = list(ins) if isinstance(ins, (list, tuple)) else [ins]
            self.output = self.outputs = _T()
            self.input = _T()

        @property
        def inputs(self):
            return list(self._ins)

        def predict(self, inputs, *a, **k):
            return self._run(inputs)

        def predict_on_batch(self, inputs):
            return self._run(inputs)

        def __call__(self, inputs, *a, **k):
            if isinstance(inputs, (_T,)):
                return _T()
            return self._run(inputs)

        def _run(self, inputs):
            fn = world.hooks.get('predict')
            if fn is None:
                raise RuntimeError('no predictions available')
            out, n = fn(inputs)
            if world.mode == 'sym':
                def wrap(x):
                    if isinstance(x, (list, tuple)):
                        return Probas([wrap(y) for y in x], n)
                    return OneHot(x, n)
                return wrap(out)
            import numpy as np
            codes = np.array(out, dtype=int)
            return np.eye(n, dtype=np.float32)[codes]

        def compile(self, *a, **k):
            pass

        def load_weights(self, path, *a, **k):
            world.hooks.setdefault('weights', []).append(os.path.basename(str(path)))

        def save_weights(self, *a, **k):
            pass

    class _Mod(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return _T()

    tf = _Mod('tensorflow')
    tf.keras = _Mod('tensorflow.keras')
    tf.keras.Model = Model
    tf.keras.models = _Mod('tensorflow.keras.models')
    tf.keras.models.Model = Model
    tf.keras.layers = _Mod('tensorflow.keras.layers')
    tf.keras.callbacks = _Mod('tensorflow.keras.callbacks')

    class device:
        def __init__(self, name):
            self.name = name

        def __enter__(self):
            world.hooks.setdefault('devices', []).append(self.name)
            return self

        def __exit__(self, *a):
            return False
    tf.device = device
    tf.int32, tf.float32, tf.bool, tf.int64, tf.float64 = 'int32', 'float32', 'bool', 'int64', 'float64'
    return tf


# ---------------------------------------------------------------------------------------------
# threads: one runs at a time; which one continues at a switch point is an input
# ---------------------------------------------------------------------------------------------

class Sched:
    def __init__(self, world):
        self.world = world
        self.threads = []
        self.current = None
        self.pending = None
        self.nchoice = 0

    def reset(self):
        """Unwinds threads left over by an aborted path"""
        left = [t for t in self.threads if not t._done]
        if left:
            if self.pending is None:
                self.pending = SystemExit('path over')
            for t in left:
                t._sem.release()
                t._real.join(2)
        self.threads = []
        self.current = None
        self.pending = None
        self.blocked_main = False
        self.nchoice = 0
        self.main_sem = _rt.Semaphore(0)

    def choose(self, n):
        if n <= 1:
            return 0
        fn = self.world.hooks.get('schedule')
        if fn is None:
            return 0
        self.nchoice += 1
        return fn(n)

    def active(self):
        return self.world.hooks.get('schedule') is not None

    def raise_pending(self):
        if self.pending is not None:
            e = self.pending
            raise e

    def yield_point(self):
        """The running thread lets the scheduler pick who continues"""
        if not self.active() or not self.threads:
            return
        self.raise_pending()
        me = self.current
        runnable = [None] + [t for t in self.threads if not t._done]
        # the caller first: choice 0 = continue without a switch
        order = [me] + [t for t in runnable if t is not me and (t is None and not self.main_blocked() or t is not None)]
        pick = order[self.choose(len(order))]
        if pick is not me:
            self.switch(pick)
        self.raise_pending()

    def main_blocked(self):
        return self.blocked_main

    blocked_main = False

    def switch(self, to):
        """Pass the baton to `to` (None = main) and wait for it to come back"""
        me = self.current
        self.current = to
        self._wake(to)
        self._wait(me)
        self.current = me

    def _sem(self, t):
        return self.main_sem if t is None else t._sem

    main_sem = None

    def _wake(self, t):
        self._sem(t).release()

    def _wait(self, t):
        self._sem(t).acquire()

    def block_main_on(self, cond):
        """Main waits (join) until cond() holds"""
        self.raise_pending()
        while not cond():
            runnable = [t for t in self.threads if not t._done]
            if not runnable:
                raise RuntimeError('deadlock')
            self.blocked_main = True
            t = runnable[self.choose(len(runnable))]
            self.switch(t)
            self.blocked_main = False
            self.raise_pending()

    def block_on(self, cond):
        if self.current is None:
            return self.block_main_on(cond)
        n = 0
        while not cond():
            me = self.current
            others = [t for t in self.threads if not t._done and t is not me]
            if not self.blocked_main:
                others.append(None)
            if not others:
                # main is waiting for us: let it re-check
                others = [None]
            self.switch(others[self.choose(len(others))])
            self.raise_pending()
            n += 1
            if n > 1000:
                raise RuntimeError('deadlock')


def make_threading(world):
    sched = world.sched = Sched(world)
    sched.main_sem = _rt.Semaphore(0)
    m = types.ModuleType('threading')
    for n in dir(_rt):
        if not n.startswith('__'):
            setattr(m, n, getattr(_rt, n))
    counter = [0]

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            counter[0] += 1
            self._target = target
            self._args = args
            self._kwargs = kwargs or {}
            self.name = name or 'Thread-%d' % counter[0]
            self.daemon = bool(daemon)
            self._started = False
            self._done = False
            self._sem = _rt.Semaphore(0)
            self.ident = None

        def run(self):
            if self._target is not None:
                self._target(*self._args, **self._kwargs)

        def setDaemon(self, v):
            self.daemon = v

        def _body(self):
            try:
                self.run()
            except Exception as e:
                hook = m.excepthook_sx
                hook(self, e)

        def start(self):
            if self._started:
                raise RuntimeError('threads can only be started once')
            self._started = True
            self.ident = counter[0]
            if not sched.active():
                prev, sched.current = sched.current, self
                try:
                    self._body()
                finally:
                    sched.current = prev
                    self._done = True
                return
            sched.threads.append(self)

            def boot():
                self._sem.acquire()
                try:
                    if sched.pending is None:
                        self._body()
                except BaseException as e:
                    if sched.pending is None:
                        sched.pending = e
                finally:
                    self._done = True
                    if self in sched.threads:
                        sched.threads.remove(self)
                    # hand the baton over
                    runnable = [t for t in sched.threads if not t._done]
                    if sched.pending is not None:
                        nxt = None
                    elif sched.blocked_main:
                        nxt = None  # main re-checks its condition and picks
                    else:
                        try:
                            cands = [None] + runnable
                            nxt = cands[sched.choose(len(cands))]
                        except BaseException as e:
                            sched.pending = e
                            nxt = None
                    sched.current = nxt
                    sched._wake(nxt)
            t = self._real = _rt.Thread(target=boot, daemon=True)
            t.start()
            sched.yield_point()

        def join(self, timeout=None):
            if not self._started:
                raise RuntimeError('cannot join thread before it is started')
            if not sched.active():
                return
            sched.block_on(lambda: self._done)

        def is_alive(self):
            return self._started and not self._done

        isAlive = is_alive

        @property
        def native_id(self):
            return self.ident

    class Lock:
        def __init__(self):
            self._owner = None
            self._n = 0

        def acquire(self, blocking=True, timeout=-1):
            if self._n:
                if not blocking:
                    return False
                sched.block_on(lambda: not self._n)
            self._n = 1
            return True

        def release(self):
            if not self._n:
                raise RuntimeError('release unlocked lock')
            self._n = 0

        def locked(self):
            return bool(self._n)

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()
            return False

    class RLock(Lock):
        def acquire(self, blocking=True, timeout=-1):
            me = sched.current
            if self._n and self._owner is not me:
                if not blocking:
                    return False
                sched.block_on(lambda: not self._n)
            self._owner = me
            self._n += 1
            return True

        def release(self):
            self._n -= 1

    class Event:
        def __init__(self):
            self._f = False

        def set(self):
            self._f = True

        def clear(self):
            self._f = False

        def is_set(self):
            return self._f

        def wait(self, timeout=None):
            sched.block_on(lambda: self._f)
            return True

    class Semaphore:
        def __init__(self, value=1):
            self._v = value

        def acquire(self, blocking=True, timeout=None):
            if self._v <= 0:
                if not blocking:
                    return False
                sched.block_on(lambda: self._v > 0)
            self._v -= 1
            return True

        def release(self, n=1):
            self._v += n

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()
            return False

    def excepthook_sx(thread, e):
        world.hooks.setdefault('thread_errors', []).append(e)

    m.excepthook_sx = excepthook_sx
    m.Thread = Thread
    m.Lock = Lock
    m.RLock = RLock
    m.Event = Event
    m.Semaphore = m.BoundedSemaphore = Semaphore
    m.current_thread = lambda: sched.current or m._main
    m._main = types.SimpleNamespace(name='MainThread', ident=0)
    m.get_ident = lambda: 0 if sched.current is None else sched.current.ident
    return m


def make_queue(world):
    import queue as _q
    m = types.ModuleType('queue')
    m.Empty, m.Full = _q.Empty, _q.Full

    class Queue:
        def __init__(self, maxsize=0):
            self._items = []
            self._unfinished = 0

        def put(self, x, block=True, timeout=None):
            self._items.append(x)
            self._unfinished += 1

        put_nowait = put

        def get(self, block=True, timeout=None):
            if not self._items:
                if not block:
                    raise _q.Empty()
                world.sched.block_on(lambda: len(self._items) > 0)
            return self._pop()

        def _pop(self):
            return self._items.pop(0)

        def get_nowait(self):
            return self.get(False)

        def task_done(self):
            self._unfinished -= 1

        def join(self):
            world.sched.block_on(lambda: self._unfinished == 0)

        def empty(self):
            return not self._items

        def qsize(self):
            return len(self._items)

    class LifoQueue(Queue):
        def _pop(self):
            return self._items.pop()
    m.Queue = Queue
    m.SimpleQueue = Queue
    m.LifoQueue = LifoQueue
    return m


def make_futures(world, threading):
    m = types.ModuleType('concurrent.futures')

    class Future:
        def __init__(self, thread):
            self.t = thread
            self.r = None
            self.e = None

        def result(self, timeout=None):
            self.t.join()
            if self.e is not None:
                raise self.e
            return self.r

        def exception(self, timeout=None):
            self.t.join()
            return self.e

        def done(self):
            return self.t._done

        def __hash__(self):
            return id(self)

    class Executor:
        def __init__(self, max_workers=None, *a, **k):
            if max_workers is not None and max_workers <= 0:
                raise ValueError('max_workers must be greater than 0')
            self.fs = []

        def submit(self, fn, *a, **k):
            def body():
                try:
                    f.r = fn(*a, **k)
                except Exception as e:
                    f.e = e
            t = threading.Thread(target=body)
            f = Future(t)
            self.fs.append(f)
            t.start()
            return f

        def map(self, fn, *its, timeout=None, chunksize=1):
            fs = [self.submit(fn, *args) for args in zip(*its)]
            return (f.result() for f in fs)

        def shutdown(self, wait=True, **k):
            if wait:
                for f in self.fs:
                    f.t.join()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()
            return False

    def as_completed(fs, timeout=None):
        fs = list(fs)
        done = []
        while fs:
            world.sched.block_on(lambda: any(f.done() for f in fs))
            ready = [f for f in fs if f.done()]
            f = ready[world.sched.choose(len(ready))]
            fs.remove(f)
            done.append(f)
            yield f

    def wait(fs, *a, **k):
        for f in fs:
            f.t.join()
        return set(fs), set()
    m.ThreadPoolExecutor = Executor
    m.ProcessPoolExecutor = Executor
    m.as_completed = as_completed
    m.wait = wait
    m.Future = Future
    p = types.ModuleType('concurrent')
    p.futures = m
    return p, m


def make_mp(world):
    import multiprocessing as _mp
    m = types.ModuleType('multiprocessing')

    class Pool:
        def __init__(self, processes=None, *a, **k):
            if processes is not None and processes < 1:
                raise ValueError('Number of processes must be at least 1')

        def map(self, fn, items, chunksize=None):
            return [fn(x) for x in items]

        def imap(self, fn, items, chunksize=1):
            return iter([fn(x) for x in items])

        def imap_unordered(self, fn, items, chunksize=1):
            out = [fn(x) for x in items]
            res = []
            while out:
                k = world.sched.choose(len(out))
                res.append(out.pop(k))
            return iter(res)

        def starmap(self, fn, items, chunksize=None):
            return [fn(*x) for x in items]

        def apply(self, fn, a=(), k=None):
            return fn(*a, **(k or {}))

        def apply_async(self, fn, a=(), k=None):
            r = fn(*a, **(k or {}))
            return types.SimpleNamespace(get=lambda timeout=None: r)

        def map_async(self, fn, items, chunksize=None):
            r = self.map(fn, items)
            return types.SimpleNamespace(get=lambda timeout=None: r)

        def close(self):
            pass

        def join(self):
            pass

        def terminate(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    m.Pool = Pool
    m.cpu_count = lambda: 2
    m.pool = types.ModuleType('multiprocessing.pool')
    m.pool.ThreadPool = Pool
    m.pool.Pool = Pool
    m.dummy = types.ModuleType('multiprocessing.dummy')
    m.dummy.Pool = Pool
    m.get_context = lambda *a: m
    return m


def make_pathlib(world):
    import pathlib as _p
    m = types.ModuleType('pathlib')
    for n in dir(_p):
        if not n.startswith('__'):
            setattr(m, n, getattr(_p, n))

    class Path(_p.PosixPath):
        def open(self, mode='r', *a, **k):
            return world.vfs.open(str(self), mode, *a, **k)

        def read_text(self, encoding=None, errors=None, **k):
            with world.vfs.open(str(self), 'r', encoding=encoding, errors=errors) as f:
                return f.read()

        def write_text(self, data, encoding=None, errors=None, **k):
            with world.vfs.open(str(self), 'w', encoding=encoding, errors=errors) as f:
                return f.write(data)

        def read_bytes(self):
            with world.vfs.open(str(self), 'rb') as f:
                return f.read()

        def write_bytes(self, data):
            with world.vfs.open(str(self), 'wb') as f:
                return f.write(data)

        def exists(self, **k):
            return world.vfs.exists(str(self))

        def is_file(self):
            return world.vfs.exists(str(self))

        def mkdir(self, *a, **k):
            pass

        def unlink(self, *a, **k):
            world.vfs.files.pop(world.vfs.key(str(self)), None)

        def rename(self, target):
            world.vfs.files[world.vfs.key(str(target))] = world.vfs.files.pop(world.vfs.key(str(self)))

        replace = rename

        def touch(self, *a, **k):
            world.vfs.files.setdefault(world.vfs.key(str(self)), '')
    m.Path = m.PosixPath = Path
    return m


def make_print(world):
    """Terminal output is dropped; output to a file goes there"""
    def sx_print(*args, sep=' ', end='\n', file=None, flush=False):
        if file is None or file in (sys.stdout, sys.stderr):
            return
        if world.mode == 'sym':
            from sx.shims import render
            args = [render(a) for a in args]
        else:
            args = [str(a) for a in args]
        sep = ' ' if sep is None else sep
        out = []
        for i, a in enumerate(args):
            if i and sep:
                out.append(sep)
            out.append(a)
        end = '\n' if end is None else end
        if end:
            out.append(end)
        file.write(world.vfs.join(out))
        if flush and hasattr(file, 'flush'):
            file.flush()
    return sx_print


def make_csv(world):
    """csv over text that may be symbolic (no quoting is modelled for symbolic cells)"""
    import csv as _c
    if world.mode != 'sym':
        return _c
    from sx.core import Unsupported
    m = types.ModuleType('csv')
    for n in dir(_c):
        if not n.startswith('__'):
            setattr(m, n, getattr(_c, n))

    def opts(dialect, k):
        o = {'delimiter': ',', 'quotechar': '"', 'quoting': _c.QUOTE_MINIMAL, 'lineterminator': '\r\n', 'skipinitialspace': False}
        if dialect == 'excel-tab':
            o['delimiter'] = '\t'
        elif dialect == 'unix':
            o.update(quoting=_c.QUOTE_ALL, lineterminator='\n')
        elif dialect != 'excel':
            raise Unsupported('csv dialect')
        o.update(k)
        if o['skipinitialspace'] or o.get('escapechar'):
            raise Unsupported('csv option')
        return o

    def reader(lines, dialect='excel', **k):
        o = opts(dialect, k)
        for line in lines:
            if type(line) is str:
                yield next(_c.reader([line], dialect, **k), [])
                continue
            if o['quoting'] != _c.QUOTE_NONE and o['quotechar'] and world.vfs.has(line, o['quotechar']):
                raise Unsupported('csv quoting of symbolic text')
            line = line.rstrip('\r\n')
            if world.vfs.has(line, '\r\n'):
                raise Unsupported('csv line break')
            yield list(line.split(o['delimiter'])) if type(line) is not str or line else []

    class writer:
        def __init__(self, f, dialect='excel', **k):
            self.f, self.o, self.k, self.dialect = f, opts(dialect, k), k, dialect

        def writerow(self, row):
            from sx.shims import render
            cells = [('' if x is None else render(x)) for x in row]
            if all(type(c) is str for c in cells):
                _c.writer(self.f, self.dialect, **self.k).writerow(cells)
                return
            o = self.o
            special = o['delimiter'] + '\r\n' + (o['quotechar'] or '')
            if o['quoting'] not in (_c.QUOTE_NONE, _c.QUOTE_MINIMAL) or any(world.vfs.has(c, special) for c in cells):
                raise Unsupported('csv quoting of symbolic text')
            out = []
            for i, c in enumerate(cells):
                if i:
                    out.append(o['delimiter'])
                out.append(c)
            self.f.write(world.vfs.join(out + [o['lineterminator']]))

        def writerows(self, rows):
            for r in rows:
                self.writerow(r)
    m.reader, m.writer = reader, writer

    class no:
        def __init__(self, *a, **k):
            raise Unsupported('csv.DictReader / DictWriter')
    m.DictReader = m.DictWriter = no
    return m


def make_os(world):
    m = types.ModuleType('os')
    for n in dir(os):
        if not n.startswith('__'):
            setattr(m, n, getattr(os, n))
    m.environ = dict(os.environ)

    def no(name):
        def f(*a, **k):
            world.vfs.log.append((name,) + tuple(map(str, a)))
        return f
    for n in ('mkdir', 'makedirs', 'rmdir', 'removedirs', 'chmod', 'chown', 'kill', 'system', 'truncate', 'symlink', 'link',
              'fsync'):
        setattr(m, n, no(n))
    m.remove = m.unlink = lambda p: world.vfs.files.pop(world.vfs.key(p), None)

    def rename(a, b):
        world.vfs.files[world.vfs.key(b)] = world.vfs.files.pop(world.vfs.key(a))
    m.rename = m.replace = rename
    m.cpu_count = lambda: 2
    pm = types.ModuleType('posixpath')
    for n in dir(os.path):
        if not n.startswith('__'):
            setattr(pm, n, getattr(os.path, n))
    pm.exists = pm.isfile = lambda p: world.vfs.exists(p)
    m.path = pm
    return m


def make_random(world):
    """The order drawn is an input when the harness says so, otherwise nothing moves"""
    m = types.ModuleType('random')

    def draw(n):
        f = world.hooks.get('random')
        return f(n) if f is not None else 0

    def shuffle(x, *a):
        rest = list(x)
        for i in range(len(rest)):
            x[i] = rest.pop(draw(len(rest)))

    def sample(x, k, **kw):
        rest = list(x)
        return [rest.pop(draw(len(rest))) for _ in range(k)]
    m.shuffle, m.sample = shuffle, sample
    m.choice = lambda x: x[draw(len(x))]
    m.randrange = lambda a, b=None: draw(a) if b is None else a + draw(b - a)
    m.randint = lambda a, b: a + draw(b - a + 1)
    m.seed = lambda *a, **k: None
    m.Random = lambda *a, **k: m
    return m


class _Missing:
    """A part of a standard module that has no stand-in: using it makes the run inconclusive"""

    def __init__(self, name):
        self.name = name

    def _no(self, *a, **k):
        from sx.core import Unsupported
        raise Unsupported('no stand-in for ' + self.name)
    __call__ = __enter__ = __iter__ = __getitem__ = _no

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        self._no()

    def __mro_entries__(self, bases):
        self._no()


def complete(name, m):
    """Gives a stand-in the rest of the names of the module it stands for"""
    import importlib
    try:
        real = importlib.import_module(name)
    except ImportError:
        return
    for n in dir(real):
        if n.startswith('_') or hasattr(m, n):
            continue
        v = getattr(real, n)
        if isinstance(v, (int, str, bytes, float)) or isinstance(v, type) and issubclass(v, BaseException) or name == 'codecs':
            setattr(m, n, v)
        else:
            setattr(m, n, _Missing('%s.%s' % (name, n)))


def make_stringio(world):
    if world.mode != 'sym':
        return io.StringIO

    class StringIO(_SymFile):
        def __init__(self, initial_value='', newline='\n'):
            self.vfs, self.key, self.mode, self.closed, self.obj = world.vfs, None, 'r+w', False, None
            self.raw, self.name, self.content, self.pieces, self.lines, self.pos = False, None, None, [], None, 0
            self.newline = newline
            if len(initial_value):
                self.pieces.append(initial_value)

        def _lines(self):
            if self.lines is None:
                text = self.getvalue()
                if type(text) is str:
                    self.lines = list(io.StringIO(text, newline=self.newline))
                elif self.newline is None:
                    self.lines = world.vfs.split_lines(text)
                else:
                    if world.vfs.has(text, '\r'):
                        from sx.core import Unsupported
                        raise Unsupported('carriage return in StringIO')
                    self.lines = world.vfs.split_lines(text)
            return self.lines

        def getvalue(self):
            return self.vfs.join(self.pieces)

        def write(self, s):
            if self.lines is not None:
                from sx.core import Unsupported
                raise Unsupported('StringIO read and written')
            self.pieces.append(s)
            return len(s) if type(s) is str else 0

        def seek(self, pos, *a):
            if pos or a:
                from sx.core import Unsupported
                raise Unsupported('StringIO.seek')
            self.pos = 0
            return 0

        def flush(self):
            pass

        def close(self):
            self.closed = True
    return StringIO


def substitutes(world):
    th = make_threading(world)
    cc, cf = make_futures(world, th)
    iom = types.ModuleType('io')
    for n in dir(io):
        if not n.startswith('__'):
            setattr(iom, n, getattr(io, n))
    iom.open = world.vfs.open
    iom.StringIO = make_stringio(world)
    tf = make_tf(world)
    mp = make_mp(world)
    osm = make_os(world)
    codecs = types.ModuleType('codecs')
    codecs.open = lambda p, mode='r', encoding=None, *a, **k: world.vfs.open(p, mode, encoding=encoding)
    codecs.BOM_UTF8 = b'\xef\xbb\xbf'
    subs = {
        'threading': th, 'queue': make_queue(world), 'concurrent': cc, 'concurrent.futures': cf, 'io': iom,
        'tensorflow': tf, 'tensorflow.keras': tf.keras, 'keras': tf.keras, 'multiprocessing': mp,
        'multiprocessing.pool': mp.pool, 'multiprocessing.dummy': mp.dummy, 'pickle': make_pickle(world),
        'pathlib': make_pathlib(world), 'os': osm, 'os.path': osm.path, 'codecs': codecs, 'random': make_random(world),
        'csv': make_csv(world),
    }
    for n, m in subs.items():
        if 'keras' not in n and n != 'tensorflow':
            complete(n, m)
    return subs
