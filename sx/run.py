"""Explores every path of a harness, discharges its assertions with z3 and validates paths on the unmodified code."""
import collections
import fractions
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import resource
import signal
import sys
import time
import traceback
import zlib

from sx.ctx import ConcCtx, Failed, HarnessSkip, SymCtx, WorldBox, jsonable, norm_obs, same_obs, unjson

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PREFIX = os.environ.get('SX_REPO', '/repo') + '/'


class HangError(BaseException):
    pass


def _alarm(signum, frame):
    from sx.core import E, PathTimeout
    if E.active:
        raise PathTimeout()
    raise HangError()


# ---------------------------------------------------------------------------------------------
# concrete execution
# ---------------------------------------------------------------------------------------------

class Conc:
    def __init__(self, hpath):
        self.hpath = hpath
        self.box = WorldBox('conc')

    def run(self, case, inputs, limit=10.0):
        """-> (status, message, observations, covered); status ok | fail | skip | hang"""
        from sx.core import Unsupported
        world, h = self.box.get(self.hpath)
        self.box.before()
        ctx = ConcCtx(world, inputs)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            try:
                ctx.run_case(h, case)
                r = ('ok', '')
            except Failed as e:
                r = ('fail', str(e))
            except HarnessSkip:
                r = ('skip', '')
            except Unsupported as e:
                r = ('unsupported', 'unsupported: ' + str(e)[:80])
            except HangError:
                r = ('hang', 'did not finish within %.0f s' % limit)
            except MemoryError as e:
                r = ('fail', 'raised MemoryError')
            except (Exception, SystemExit) as e:
                if os.environ.get('SX_TB'):
                    traceback.print_exc()
                r = ('unsupported' if stand_in_limit(e) else 'fail',
                     'raised %s: %s%s' % (type(e).__name__, str(e)[:200], where(e)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if r[0] == 'hang':
            self.box.stateful = True
        else:
            self.box.after()
        return r + (ctx.obs, ctx.covered)


STAND_INS = os.path.dirname(os.path.abspath(__file__)) + os.sep


def stand_in_limit(e):
    """Whether the error comes from something a stand-in does not model, not from the code under test"""
    if not isinstance(e, (TypeError, AttributeError, NotImplementedError)):
        return False
    text = str(e)
    if re.search(r"\bmake_\w+\.<locals>\.|\b_?SymFile\b|\bVFS\.|\b_Missing\b|\bTextBytes\b", text):
        return True
    frames = traceback.extract_tb(e.__traceback__)
    last = frames[-1] if frames else None
    return last is not None and last.filename.startswith(STAND_INS) and not (last.line or '').strip().startswith('raise')


def where(e):
    """innermost frame of the code under test"""
    tb = e.__traceback__
    out = ''
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO_PREFIX):
            out = ' (%s in %s)' % (os.path.relpath(fr.filename, REPO_PREFIX), fr.name)
    return out


# ---------------------------------------------------------------------------------------------
# symbolic execution of one path
# ---------------------------------------------------------------------------------------------

class Evaluator:
    """Values of symbolic terms under a model"""

    def __init__(self, inputs, model):
        self.inputs = inputs
        self.model = model

    def ev(self, x, depth=0):
        import z3
        from sx.core import E, Fin, SymBool, SymLog, SymNum
        from sx.strs import Seg, SymStr
        if isinstance(x, Fin):
            return x.tab[self.inputs[x.var.name]]
        if isinstance(x, SymStr):
            out = []
            for c in x.c:
                if isinstance(c, Seg):
                    v = self.ev(c.val)
                    out.append(str(v) if c.fmt in ('d', 's', '') else c.fmt % float(v))
                else:
                    out.append(c if type(c) is str else self.ev(c))
            return ''.join(out)
        if isinstance(x, SymNum):
            v = self.model.eval(x.e, model_completion=True)
            v = z3.simplify(v)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
            return float(fractions.Fraction(v.approx(20).as_string()))
        if isinstance(x, SymLog):
            import math
            return math.log(float(self.ev(x.p)))
        if isinstance(x, SymBool):
            return self.formula(x.f)
        if depth > 8:
            return x
        t = type(x).__name__
        if isinstance(x, tuple):
            return tuple(self.ev(y, depth + 1) for y in x)
        if isinstance(x, list):
            return [self.ev(y, depth + 1) for y in x]
        if t == 'ndarray':
            return [self.ev(y, depth + 1) for y in x.tolist()]
        if t in ('SxDict', 'SxDefaultDict', 'SxCounter'):
            return {'d': sorted(([norm_obs(self.ev(k)), norm_obs(self.ev(v))] for k, v in x.items()), key=repr)}
        if t in ('SxSet', 'SxFrozenSet'):
            return {'s': sorted((norm_obs(self.ev(k)) for k in x), key=repr)}
        if isinstance(x, dict):
            return {'d': sorted(([norm_obs(self.ev(k)), norm_obs(self.ev(v))] for k, v in x.items()), key=repr)}
        return x

    def formula(self, f):
        import z3
        if f is True or f is False:
            return f
        k = f[0]
        if k == 'lit':
            return bool((f[2] >> self.inputs[f[1].name]) & 1)
        if k == 'and':
            return all(self.formula(g) for g in f[1])
        if k == 'or':
            return any(self.formula(g) for g in f[1])
        if k == 'not':
            return not self.formula(f[1])
        if k == 'eq':
            return f[2][self.inputs[f[1].name]] == f[4][self.inputs[f[3].name]]
        return z3.is_true(z3.simplify(self.model.eval(f[1], model_completion=True)))


def nobs(ev, obs):
    out = []
    for k, v in obs:
        r = ev.ev(v)
        out.append((k, r if isinstance(r, dict) and ('d' in r or 's' in r) else norm_obs(r)))
    return out


class PathRunner:
    def __init__(self, hpath, opts):
        self.hpath = hpath
        self.opts = opts
        self.box = WorldBox('sym')
        self.conc = Conc(hpath)
        self.validated = 0
        self.stats = collections.Counter()
        self.notes = collections.Counter()
        self.samples = []
        self.covered = collections.Counter()
        self.funcs = set()
        self.violations = []
        self._mon()

    def _mon(self):
        mon = sys.monitoring
        tid = 4
        try:
            mon.use_tool_id(tid, 'sx')
        except ValueError:
            return

        def on_start(code, off):
            if code.co_filename.startswith(REPO_PREFIX):
                self.funcs.add('%s:%s' % (code.co_filename[len(REPO_PREFIX):], code.co_qualname))
            return mon.DISABLE
        mon.register_callback(tid, mon.events.PY_START, on_start)
        mon.set_events(tid, mon.events.PY_START)
        self.lines = set()
        if os.environ.get('SX_LINES'):
            def on_line(code, line):
                if code.co_filename.startswith(REPO_PREFIX):
                    self.lines.add((code.co_filename[len(REPO_PREFIX):], line))
                return mon.DISABLE
            mon.register_callback(tid, mon.events.LINE, on_line)
            mon.set_events(tid, mon.events.PY_START | mon.events.LINE)

    # -- assertions
    def check(self, cond, msg):
        from sx.core import E, PathAbort, f_not, formula_of, simplify
        f = simplify(formula_of(cond))
        self.stats['asserts'] += 1
        if f is True:
            self.stats['asserts_simplified'] += 1
            return
        n = f_not(f)
        r = E.feasible(n)
        if r == 'unsat':
            self.stats['asserts_unsat'] += 1
            return
        if r == 'unknown':
            self.notes['unknown: ' + msg[:60]] += 1
            self.inconclusive = 'solver unknown'
            E.assume_f(f)
            return
        self.stats['asserts_sat'] += 1
        inputs, _ = E.model_inputs()
        self.cands.append((msg, inputs))
        if f is False:
            raise PathAbort('assertion')
        E.assume_f(f)

    # -- one path
    def path(self, case, prefix):
        """Runs one path; returns the alternatives it found"""
        from sx import core
        from sx.core import E, PathAbort, PathTimeout, Unsupported
        from sx.core import Unsupported
        world, h = self.box.get(self.hpath)
        self.box.before()
        if len(core._tab_keep) > 60000:
            for c in (core._tab_intern, core._groups, core._pred_cache, core._map_cache, core._member_cache, core._tab_keep, core._make_cache,
                      E.varmap):
                c.clear()
        E.budget_s = self.opts['path_s']
        E.start(prefix)
        self.cands = []
        self.inconclusive = None
        ctx = SymCtx(world, self)
        status = 'ok'
        err = None
        signal.setitimer(signal.ITIMER_REAL, self.opts['path_s'] + 5)
        try:
            try:
                ctx.run_case(h, case)
            except PathAbort as e:
                status = 'abort'
            except Unsupported as e:
                status = 'unsupported'
                err = 'unsupported: ' + str(e)[:80]
                if self.opts.get('debug'):
                    traceback.print_exc()
            except PathTimeout:
                status = 'timeout'
                err = 'path time limit'
            except RecursionError as e:
                status = 'raised'
                err = 'raised RecursionError' + where(e)
            except MemoryError:
                status = 'unsupported'
                err = 'memory'
            except Exception as e:
                status = 'raised'
                err = 'raised %s: %s%s' % (type(e).__name__, safe_str(e), where(e))
                if self.opts.get('debug'):
                    traceback.print_exc()
        except PathTimeout:
            status = 'timeout'
            err = 'path time limit'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        trail = E.trail
        self.stats['decisions'] += len(trail) - len(prefix)
        # alternatives
        alts = []
        base = [c for c, _ in trail]
        for i in range(len(prefix), len(trail)):
            for a in trail[i][1]:
                alts.append(base[:i] + [a])
        bad = [k for k in E.flags]
        self.last = (status, err)
        if status == 'abort' and not self.cands:
            self.stats['infeasible'] += 1
            E.active = False
            self.box.after()
            return alts
        # model of the path
        inputs = model = None
        if status != 'abort':
            E.deadline = max(E.deadline, time.time() + 2)
            E.active = False
            signal.setitimer(signal.ITIMER_REAL, 30)
            try:
                r = str(E.zcheck(allvars=True))
                if r == 'sat':
                    inputs, model = E.model_inputs()
                    salt = zlib.crc32(repr(base).encode()) & 0xffff
                    inputs = E.diversify(inputs, salt + self.opts['seed'])
            except HangError:
                r = 'unknown'
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if r == 'unsat':
                self.stats['infeasible'] += 1
                E.active = False
                self.box.after()
                return alts
            self.stats['paths'] += 1
            if r == 'unknown':
                self.inconclusive = 'solver unknown'
        E.active = False
        if bad:
            self.inconclusive = bad[0]
        if status in ('unsupported', 'timeout'):
            self.inconclusive = err
        for name in ctx.covered:
            self.covered[name] += 1
        # candidates from assertions
        for msg, inp in self.cands:
            self._candidate(case, msg, inp)
        if status == 'raised':
            if inputs is None:
                self.inconclusive = 'no model for: ' + err
            else:
                self._candidate(case, err, inputs)
        elif inputs is not None:
            exp = None
            if status == 'ok':
                try:
                    exp = nobs(Evaluator(inputs, model), ctx.obs)
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    exp = None
                    self.notes['evaluator: %r' % (e,)] += 1
            c = self.conc.run(case, inputs, self.opts['conc_s'])
            self.stats['concrete_runs'] += 1
            if c[0] in ('fail', 'hang'):
                self._violation(case, c[1], inputs, c[0])
            elif c[0] == 'ok':
                if exp is not None:
                    got = [(k, norm_obs(v)) for k, v in c[2]]
                    if same_obs(exp, got):
                        self.stats['validated'] += 1
                        if len(self.samples) < 3:
                            self.samples.append({'case': case, 'inputs': show_inputs(case, inputs, self.conc), 'observed': short(got)})
                    else:
                        self.stats['mismatch'] += 1
                        self.inconclusive = 'symbolic and concrete results differ'
                        if self.opts.get('debug'):
                            print('MISMATCH', case, inputs, '\n  sym ', exp, '\n  conc', got, flush=True)
                        self.notes['mismatch in %s: %s' % (case, short([inputs, exp, got])[:600])] += 1
            elif c[0] == 'unsupported':
                self.inconclusive = c[1]
            elif c[0] == 'skip':
                self.notes['assumption false on model (%s)' % case] += 1
        if self.inconclusive:
            self.stats['inconclusive'] += 1
            self.notes['%s: inconclusive: %s' % (case, self.inconclusive)] += 1
        self.box.after()
        return alts

    def _candidate(self, case, msg, inputs):
        self.stats['candidates'] += 1
        c = self.conc.run(case, inputs, self.opts['conc_s'])
        self.stats['concrete_runs'] += 1
        if c[0] in ('fail', 'hang'):
            self._violation(case, c[1], inputs, c[0])
        elif c[0] == 'unsupported':
            self.inconclusive = c[1]
        else:
            self.inconclusive = 'not reproduced on the real code: %s' % msg
            if self.opts.get('debug'):
                print('NOT REPRODUCED', case, msg, inputs, c[0], flush=True)

    def _violation(self, case, msg, inputs, kind):
        self.violations.append({'case': case, 'message': msg, 'inputs': {k: jsonable(v) for k, v in inputs.items()},
                                'kind': kind})


def safe_str(e):
    try:
        return str(e)[:200]
    except BaseException:
        return '?'


def short(x):
    s = repr(x)
    return s if len(s) < 900 else s[:900] + '...'


def show_inputs(case, inputs, conc):
    return {k: (str(v) if not isinstance(v, (int, str)) else v) for k, v in list(inputs.items())[:40]}


# ---------------------------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------------------------

def worker(conn, hpath, opts):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(12000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.stdout = open(os.devnull, 'w') if not opts.get('debug') else sys.stdout
    from sx.core import E
    pr = PathRunner(hpath, opts)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        case, stack, slice_s = task
        t_end = time.time() + slice_s
        E.reset_stats()
        pr.stats.clear()
        pr.notes.clear()
        pr.covered.clear()
        pr.violations = []
        pr.samples = []
        crashed = None
        while stack:
            prefix = stack.pop()
            try:
                stack.extend(pr.path(case, prefix))
            except BaseException as e:
                crashed = traceback.format_exc()
                E.active = False
                signal.setitimer(signal.ITIMER_REAL, 0)
                pr.notes['engine error: ' + crashed[-400:]] += 1
                pr.stats['inconclusive'] += 1
                if opts.get('debug'):
                    print(crashed)
                pr.box.stateful = pr.box.stateful or True
            if pr.violations or time.time() > t_end:
                break
        conn.send({'case': case, 'stack': stack, 'stats': dict(pr.stats), 'engine': dict(E.stats), 'notes': dict(pr.notes),
                   'covered': dict(pr.covered), 'violations': pr.violations, 'samples': pr.samples,
                   'funcs': sorted(pr.funcs), 'lines': sorted(getattr(pr, 'lines', ()))})


def explore(hpath, cases, opts, budget, nproc=8, stop_on_violation=True, progress=None):
    """cases: list of str. Returns a summary dict"""
    ctxm = multiprocessing.get_context('fork')
    t0 = time.time()
    nproc = max(1, nproc)
    workers = []

    def spawn():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, hpath, opts), daemon=True)
        p.start()
        b.close()
        return [p, a, None]
    for _ in range(nproc):
        workers.append(spawn())
    pend = {c: collections.deque([[[]]]) for c in cases}  # case -> deque of stacks
    running = collections.Counter()
    tot = collections.Counter()
    eng = collections.Counter()
    notes = collections.Counter()
    covered = collections.Counter()
    funcs, samples, violations = set(), [], []
    lines = set()
    percase = {c: collections.Counter() for c in cases}
    lost = set()
    order = collections.deque(cases)

    def next_task():
        for _ in range(len(order)):
            c = order[0]
            order.rotate(-1)
            if pend[c]:
                return c
        return None
    stop = False
    while True:
        now = time.time()
        if now - t0 > budget or (violations and stop_on_violation):
            break
        idle = [w for w in workers if w[2] is None]
        for w in idle:
            c = next_task()
            if c is None:
                break
            stack = pend[c].popleft()
            slice_s = 0.4 if now - t0 < 4 else 1.5
            if stack and len(stack) == 1 and not stack[0]:
                slice_s = 0.25
            try:
                w[1].send((c, stack, slice_s))
            except (BrokenPipeError, OSError):
                pend[c].append(stack)
                w[0].terminate()
                w[:] = spawn()
                continue
            w[2] = (c, stack)
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            break
        ready = multiprocessing.connection.wait([w[1] for w in busy], timeout=max(0.05, min(1.0, budget - (now - t0))))
        for w in busy:
            if w[1] in ready:
                try:
                    r = w[1].recv()
                except (EOFError, OSError, ConnectionError):
                    c = w[2][0]
                    notes['worker died in %s' % c] += 1
                    tot['inconclusive'] += 1
                    percase[c]['inconclusive'] += 1
                    lost.add(c)
                    w[0].join(1)
                    w[:] = spawn()
                    continue
                c = r['case']
                w[2] = None
                tot.update(r['stats'])
                eng.update(r['engine'])
                notes.update(r['notes'])
                covered.update(r['covered'])
                percase[c].update({k: r['stats'].get(k, 0) for k in ('paths', 'inconclusive', 'validated')})
                funcs.update(r['funcs'])
                lines.update(map(tuple, r['lines']))
                violations.extend(r['violations'])
                if len(samples) < 6 and r['samples']:
                    samples.append(r['samples'][0])
                st = r['stack']
                if st:
                    # share: several chunks, oldest (shallowest) entries first
                    k = min(len(st), 6)
                    for i in range(k):
                        pend[c].append(st[i::k])
    incomplete = [c for c in cases if pend[c] or c in lost or any(w[2] and w[2][0] == c for w in workers)]
    for w in workers:
        try:
            if w[2] is None:
                w[1].send(None)
            else:
                w[0].kill()
        except Exception:
            pass
    for w in workers:
        w[0].join(0.5)
        if w[0].is_alive():
            w[0].kill()
    return {'stats': tot, 'engine': eng, 'notes': notes, 'covered': covered, 'funcs': funcs, 'samples': samples,
            'violations': violations, 'incomplete': incomplete, 'percase': percase, 'wall': time.time() - t0, 'lines': lines}
