"""Loads the sources of /repo.

mode 'sym':  the source is parsed, its operators that Python would force to a concrete answer
             (`in`, `not`, `%`, dict/set displays, f-strings, methods of string literals) are routed to the
             symbolic runtime, and it is executed with the runtime's builtins and standard modules.
mode 'conc': the source is compiled unchanged (for harnesses with TICKS = True, both modes get a call before each
             statement, where the scheduler can interrupt a thread).
In both modes the outside world (data files, pickle, tensorflow, threads, process pools) is a stand-in.
"""
import ast
import builtins
import os
import sys
import types

REPO = os.environ.get('SX_REPO', '/repo')
PKG = 'scrappybara'

STR_METHODS = {'join', 'format', 'startswith', 'endswith', 'replace', 'split', 'find', 'rfind', 'index', 'rindex', 'count',
               'strip', 'lstrip', 'rstrip', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'rsplit', 'ljust',
               'rjust', 'center', 'zfill', 'translate'}


def _call(name, *args, **kw):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args),
                    keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()])


class Transform(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.copy_location(_call('sx_in', node.left, node.comparators[0]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(_call('sx_notin', node.left, node.comparators[0]), node)
            if isinstance(node.ops[0], (ast.Is, ast.IsNot)):
                sides = (node.left, node.comparators[0])
                if not any(isinstance(x, ast.Constant) and x.value is None for x in sides):
                    r = _call('sx_is', *sides)
                    if isinstance(node.ops[0], ast.IsNot):
                        r = _call('sx_not', r)
                    return ast.copy_location(r, node)
            return node
        if any(isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for op in node.ops):
            # a < b in c  ->  a < (t := b) and sx_in(t, c)
            parts = []
            left = node.left
            for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
                last = i == len(node.ops) - 1
                self.n_tmp = getattr(self, 'n_tmp', 0) + 1
                name = '_sx_cmp_%d' % self.n_tmp
                r = right if last else ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=right)
                parts.append(self.visit_Compare2(left, op, r))
                left = ast.Name(id=name, ctx=ast.Load())
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)
        return node

    @staticmethod
    def visit_Compare2(left, op, right):
        name = {ast.In: 'sx_in', ast.NotIn: 'sx_notin', ast.Is: 'sx_is', ast.IsNot: 'sx_is'}.get(type(op))
        if name is None:
            return ast.Compare(left=left, ops=[op], comparators=[right])
        r = _call(name, left, right)
        return _call('sx_not', r) if isinstance(op, ast.IsNot) else r

    # -- match statements whose patterns test classes, mappings or singletons
    def visit_Match(self, node):
        special = (ast.MatchClass, ast.MatchMapping, ast.MatchSingleton)
        if not any(isinstance(x, special) for c in node.cases for x in ast.walk(c.pattern)):
            self.generic_visit(node)
            return node
        self.n_tmp = getattr(self, 'n_tmp', 0) + 1
        subj = '_sx_match_%d' % self.n_tmp
        chain = []
        for c in node.cases:
            test = self._pattern(c.pattern, ast.Name(id=subj, ctx=ast.Load()))
            if c.guard is not None:
                test = ast.BoolOp(op=ast.And(), values=[test, c.guard])
            chain.append((test, c.body))
        orelse = []
        for test, body in reversed(chain):
            orelse = [ast.If(test=test, body=body, orelse=orelse)]
        out = [ast.Assign(targets=[ast.Name(id=subj, ctx=ast.Store())], value=node.subject)] + orelse
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return [self.visit(x) for x in out]

    def _pattern(self, p, subj):
        def bind(name, value):
            return ast.BoolOp(op=ast.Or(), values=[
                ast.Compare(left=ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=value),
                            ops=[ast.Is()], comparators=[ast.Constant(None)]), ast.Constant(True)])

        def every(tests):
            tests = [t for t in tests if t is not None] or [ast.Constant(True)]
            return tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests)

        def item(i):
            return ast.Subscript(value=subj, slice=i, ctx=ast.Load())

        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=subj, ops=[ast.Eq()], comparators=[p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(left=subj, ops=[ast.Is()], comparators=[ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(op=ast.Or(), values=[self._pattern(x, subj) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            tests = [self._pattern(p.pattern, subj)] if p.pattern is not None else []
            if p.name is not None:
                tests.append(bind(p.name, subj))
            return every(tests)
        if isinstance(p, ast.MatchSequence):
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            n = len(p.patterns)
            size = _call('len', subj)
            tests = [_call('sx_match_seq', subj),
                     ast.Compare(left=size, ops=[ast.GtE() if star else ast.Eq()],
                                 comparators=[ast.Constant(n - len(star))])]
            for i, x in enumerate(p.patterns):
                if isinstance(x, ast.MatchStar):
                    if x.name is not None:
                        rest = n - i - 1
                        tests.append(bind(x.name, _call('list', item(ast.Slice(
                            lower=ast.Constant(i), upper=ast.Constant(-rest) if rest else None)))))
                    continue
                at = i if not star or i < star[0] else i - n
                tests.append(self._pattern(x, item(ast.Constant(at))))
            return every(tests)
        if isinstance(p, ast.MatchMapping):
            tests = [_call('sx_match_map', subj)]
            for k, x in zip(p.keys, p.patterns):
                tests.append(ast.Compare(left=k, ops=[ast.In()], comparators=[subj]))
                tests.append(self._pattern(x, item(k)))
            if p.rest is not None:
                tests.append(bind(p.rest, _call('sx_match_rest', subj, ast.List(elts=list(p.keys), ctx=ast.Load()))))
            return every(tests)
        if isinstance(p, ast.MatchClass):
            tests = [_call('isinstance', subj, p.cls)]
            for i, x in enumerate(p.patterns):
                tests.append(self._pattern(x, _call('sx_match_pos', subj, p.cls, ast.Constant(i))))
            for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                tests.append(_call('hasattr', subj, ast.Constant(k)))
                tests.append(self._pattern(x, ast.Attribute(value=subj, attr=k, ctx=ast.Load())))
            return every(tests)
        raise SyntaxError('pattern %r' % p)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call('sx_not', node.operand), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = [ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
            r = _call('sx_dict_parts', ast.List(elts=parts, ctx=ast.Load()))
        else:
            r = _call('sx_dict', ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                                for k, v in zip(node.keys, node.values)], ctx=ast.Load()))
        return ast.copy_location(r, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('sx_set', ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        r = _call('sx_dict', ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                          generators=node.generators))
        return ast.copy_location(r, node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('sx_set', ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('sx_mod', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_call('sx_mod', ast.Name(id=node.target.id, ctx=ast.Load()), node.value)), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_call('sx_fstr', ast.List(elts=parts, ctx=ast.Load())), node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in STR_METHODS and isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call('sx_bound', node.value, ast.Constant(node.attr)), node)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            f.value = self.visit(f.value)
            node.args = [self.visit(x) for x in node.args]
            node.keywords = [self.visit(x) for x in node.keywords]
        else:
            self.generic_visit(node)
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            node = ast.copy_location(ast.Call(func=ast.Name(id='sx_mcall', ctx=ast.Load()),
                                              args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = ast.copy_location(ast.Name(id='Exception', ctx=ast.Load()), node)
        return node


class Ticks(ast.NodeTransformer):
    """A call of sx_tick() before every statement of every function: the places where a thread can be interrupted"""

    def __init__(self, path):
        self.path = path
        self.depth = 0
        self.n = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def visit_Lambda(self, node):
        return node

    def visit_AugAssign(self, node):
        # x.a += e  ->  t = x.a; t += e; tick; x.a = t
        t = node.target
        if not self.depth or not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
            return node
        self.n += 1
        name = '_sx_aug_%d' % self.n
        out = [ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=ast.Attribute(value=ast.Name(id=t.value.id, ctx=ast.Load()), attr=t.attr, ctx=ast.Load())),
               ast.AugAssign(target=ast.Name(id=name, ctx=ast.Store()), op=node.op, value=node.value),
               ast.Assign(targets=[t], value=ast.Name(id=name, ctx=ast.Load()))]
        return [ast.copy_location(x, node) for x in out]

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth:
            for field in ('body', 'orelse', 'finalbody'):
                stmts = getattr(node, field, None)
                if isinstance(stmts, list) and stmts and isinstance(stmts[0], ast.stmt):
                    out = []
                    for i, x in enumerate(stmts):
                        if not isinstance(x, (ast.Global, ast.Nonlocal)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                            self.n += 1
                            out.append(ast.copy_location(ast.Expr(value=_call('sx_tick', ast.Constant('%s:%d' % (self.path, self.n)))), x))
                        out.append(x)
                    setattr(node, field, out)
        return node


_code_cache = {}


def compile_source(path, mode, src=None, ticks=False):
    if src is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
    key = (path, mode, src, ticks)
    code = _code_cache.get(key)
    if code is None:
        tree = ast.parse(src, path)
        if ticks:
            tree = ast.fix_missing_locations(Ticks(os.path.relpath(path, REPO)).visit(tree))
        if mode == 'sym':
            tree = Transform().visit(tree)
            ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        _code_cache[key] = code
    return code


class World:
    """One loaded copy of the package plus its stand-in environment"""

    def __init__(self, mode, ticks=False):
        from sx import env
        self.mode = mode
        self.ticks = ticks
        self.mods = {}
        self.vfs = env.VFS(self)
        self.hooks = {}
        self.libs = {}
        self.subs = env.substitutes(self)
        if mode == 'sym':
            from sx import shims
            self.subs.update(shims.make_modules_cached())
            self.builtins = shims.make_builtins(self.vfs, self.imp)
        else:
            self.builtins = dict(builtins.__dict__)
            self.builtins.update({'open': self.vfs.open, '__import__': self.imp})
        self.builtins.update({'sx_world': self, 'print': env.make_print(self), 'sx_tick': self.tick})

    def tick(self, place):
        fn = self.hooks.get('tick')
        if fn is not None:
            fn(place)

    # -- import machinery
    def _path(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        """Module of the package, executed once"""
        m = self.mods.get(name)
        if m is not None:
            return m
        path, ispkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        if name != PKG and os.path.exists(path):
            try:
                exec(compile_source(path, self.mode, ticks=self.ticks), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def load_root(self):
        """Executes scrappybara/__init__.py too"""
        m = self.load(PKG)
        if not m.__dict__.get('_sx_root'):
            m._sx_root = True
            exec(compile_source(m.__file__, self.mode, ticks=self.ticks), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        root = name.partition('.')[0]
        if root == PKG:
            m = self.load(name)
            if fromlist:
                if name == PKG and any(not hasattr(m, n) and self._path(PKG + '.' + n)[0] is None for n in fromlist):
                    self.load_root()
                for n in fromlist:
                    if n != '*' and not hasattr(m, n):
                        if self._path(name + '.' + n)[0] is not None:
                            self.load(name + '.' + n)
                return m
            return self.mods[root]
        if root.startswith('scrappybara_verif_'):
            m = self.libs.get(root)
            if m is None:
                m = self.run_file(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness',
                                               root[len('scrappybara_verif_'):] + '_lib.py'))
                self.libs[root] = m
            return m
        if name in self.subs:
            if fromlist or '.' not in name:
                return self.subs[name]
            return self.subs.get(root) or builtins.__import__(name)
        if root in self.subs:
            m = self.subs[root]
            if fromlist:
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def run_file(self, path):
        """Executes a file outside the package (a harness) in this world"""
        m = types.ModuleType(os.path.basename(path)[:-3])
        m.__file__ = path
        m.__builtins__ = self.builtins
        exec(compile_source(path, self.mode), m.__dict__)
        return m

    # -- hidden state between paths
    def fingerprint(self):
        seen = set()
        out = []

        def go(x, depth):
            t = type(x)
            if isinstance(x, (str, int, float, bool, type(None), bytes)):
                out.append(x)
                return
            if id(x) in seen:
                return
            seen.add(id(x))
            out.append(id(t))
            if depth > 6:
                return
            if isinstance(x, (list, tuple)):
                out.append(len(x))
                for y in x:
                    go(y, depth + 1)
            elif isinstance(x, dict):
                out.append(len(x))
                for k, y in x.items():
                    go(k, depth + 1)
                    go(y, depth + 1)
            elif isinstance(x, (set, frozenset)):
                out.append(len(x))
            elif isinstance(x, types.FunctionType):
                if getattr(x, '__module__', None) in mods or x.__globals__.get('__name__') in mods:
                    go(x.__defaults__, depth + 1)
                    go(x.__kwdefaults__, depth + 1)
                    if x.__dict__:
                        go(x.__dict__, depth + 1)
                    for c in x.__closure__ or ():
                        try:
                            go(c.cell_contents, depth + 1)
                        except ValueError:
                            pass
            elif isinstance(x, type):
                if getattr(x, '__module__', None) in mods:
                    for k, y in list(x.__dict__.items()):
                        if k not in ('__dict__', '__weakref__', '__doc__', '__module__'):
                            go(y, depth + 1)
            elif isinstance(x, (staticmethod, classmethod)):
                go(x.__func__, depth + 1)
            elif isinstance(x, property):
                go(x.fget, depth + 1)
            elif isinstance(x, types.ModuleType) or t.__name__ in ('SxPattern', 'Pattern', 'TypeShim'):
                pass
            elif hasattr(x, 'cache_info'):
                out.append(tuple(x.cache_info()))
            else:
                d = getattr(x, '__dict__', None)
                if isinstance(d, dict):
                    for y in list(d.values()):
                        go(y, depth + 1)
        mods = set(self.mods)
        for name in sorted(self.mods):
            m = self.mods[name]
            for k in list(m.__dict__):
                if not k.startswith('__'):
                    out.append(k)
                    go(m.__dict__[k], 0)
        return hash(tuple(x if not isinstance(x, float) or x == x else 'nan' for x in out)), len(out)
