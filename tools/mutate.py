"""Systematic small changes to the code under test, to measure what the checks see.

mutate.py OUT.jsonl [--files substring,...] [--max N] [--workers N] [--budget S]
Each change is made in a scratch copy of /repo; the checks of the file's properties run against the copy; for a change
that no check reports, the repository's tests run as well. Survivors are printed for review. Not used by any check."""
import argparse
import ast
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'preprocessing/tokenizer.py': 'C01 C02 C03 C04', 'preprocessing/sanitization.py': 'C01 C03 C04',
    'preprocessing/sentencizer.py': 'C03 C04', 'langmodel/ngrams_extraction.py': 'C05 C10', 'langmodel/ngram_store.py': 'C05 C10 C07',
    'utils/text.py': 'C30 C05 C12 C14', 'langmodel/mle_smoother.py': 'C06 C10', 'langmodel/smoother.py': 'C06 C07 C10', 'langmodel/ngram.py': 'C07 C06 C05 C10',
    'langmodel/mkn_smoother.py': 'C07 C10', 'utils/multithreading.py': 'C08', 'utils/mutables.py': 'C08 C19 C09 C26 C17', 'langmodel/language_model.py': 'C09 C10',
    'langmodel/language_model_builder.py': 'C10', 'langmodel/token_context.py': 'C11 C09', 'normalization/lemmatizer.py': 'C12',
    'normalization/standardizer.py': 'C13', 'normalization/inflector.py': 'C14', 'syntax/parser.py': 'C15 C17 C16', 'syntax/labelled_data.py': 'C16 C18',
    'syntax/tagger.py': 'C17', 'syntax/training_samples.py': 'C18 C17', 'syntax/charset.py': 'C31 C18', 'syntax/wordset.py': 'C31 C18', 'utils/tree.py': 'C19',
    'syntax/nodifier.py': 'C20', 'semantics/semantic_tuple_extractor.py': 'C23 C21 C22 C29', 'syntax/arg_finder.py': 'C23 C21 C22 C29', 'syntax/node.py': 'C23 C20 C22 C26 C29',
    'syntax/fixer.py': 'C22 C26 C29', 'syntax/chunker.py': 'C26 C29', 'normalization/canonicalizer.py': 'C26 C29', 'utils/maths.py': 'C21', 'semantics/argument.py': 'C27',
    'semantics/semantic_tuple.py': 'C27', 'semantics/argument_code.py': 'C27', 'pipeline/pipeline.py': 'C24 C25', 'pipeline/logic_pipeline.py': 'C24 C22 C26 C21 C29',
    'pipeline/document.py': 'C27 C24', 'pipeline/sentence.py': 'C27 C24', 'utils/files.py': 'C31 C10 C09', 'syntax/models.py': 'C17 C18', 'syntax/dependencies.py': 'C20 C22 C26',
    'syntax/tags.py': 'C22 C26', 'syntax/transitions.py': 'C16', 'config.py': 'C25 C18 C21', 'normalization/suffixes.py': 'C12', 'exceptions.py': 'C27'}
CMP = {'Lt': ['<=', '>'], 'LtE': ['<'], 'Gt': ['>='], 'GtE': ['>'], 'Eq': ['!='], 'NotEq': ['=='], 'In': ['not in'], 'NotIn': ['in'], 'Is': ['is not'], 'IsNot': ['is']}
SWAP = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'extend': 'append', 'children_via': 'children', 'lower': 'upper', 'startswith': 'endswith', 'endswith': 'startswith',
        'has_child_via': 'has_parent_via', 'popleft': 'pop'}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def rep(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what, s, e, new))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l = b[slice(*span(n.left))].decode()
            r = b[slice(*span(n.comparators[0]))].decode()
            for op in CMP.get(type(n.ops[0]).__name__, []):
                rep(n, '%s %s %s' % (l, op, r), 'cmp')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'int+1')
                if n.value > 0:
                    rep(n, str(n.value - 1), 'int-1')
            elif isinstance(n.value, str) and n.value:
                raw = b[slice(*span(n))].decode()
                if raw.startswith('r'):
                    for a, c in (('+', '*'), ('*', '+'), (r'\b', ''), ('^', ''), ('$', ''), ('?', ''), (r'\s', ' '), ('+', ''), (r'\w', r'[a-z]'), (r'\W', r'\s'), ('(?:', '('), (r'\d', '[1-9]'), ('A-Z', 'A-Y')):
                        for m in list(re.finditer(re.escape(a), raw))[:3]:
                            rep(n, raw[:m.start()] + c + raw[m.end():], 'regex %s->%s' % (a, c))
                    for m in list(re.finditer(r'\|', raw))[:4]:
                        rep(n, raw[:m.start()] + raw[m.end():], 'regex drop |')
                else:
                    rep(n, repr(n.value + 'x'), 'str')
        elif isinstance(n, ast.BoolOp):
            vals = [b[slice(*span(v))].decode() for v in n.values]
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join(vals) + ')', 'boolop')
            for i in range(len(vals)):
                rest = vals[:i] + vals[i + 1:]
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + b[slice(*span(n.operand))].decode() + ')', 'not')
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in ('Add', 'Sub', 'Mult', 'Div', 'BitOr', 'FloorDiv'):
            l, r = b[slice(*span(n.left))].decode(), b[slice(*span(n.right))].decode()
            rep(n, '(%s %s %s)' % (l, {'Add': '-', 'Sub': '+', 'Mult': '+', 'Div': '*', 'BitOr': '-', 'FloorDiv': '*'}[type(n.op).__name__], r), 'binop')
            if type(n.op).__name__ in ('Add', 'BitOr'):
                rep(n, '(%s)' % l, 'left only')
                rep(n, '(%s)' % r, 'right only')
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if name in SWAP:
                s, e = span(f)
                t = b[s:e].decode()
                rep(f, t[:len(t) - len(name)] + SWAP[name], 'call %s->%s' % (name, SWAP[name]))
            if name in ('sorted', 'list', 'set', 'reversed') and len(n.args) == 1:
                rep(n, '(' + b[slice(*span(n.args[0]))].decode() + ')', 'drop %s' % name)
        elif isinstance(n, (ast.Set, ast.List)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            vals = [b[slice(*span(v))].decode() for v in n.elts]
            br = '{}' if isinstance(n, ast.Set) else '[]'
            for i in (range(len(vals)) if len(vals) <= 6 else [0, len(vals) // 2, len(vals) - 1]):
                rep(n, br[0] + ', '.join(vals[:i] + vals[i + 1:]) + br[1], 'drop element %s' % vals[i][:40])
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, 'True', 'comprehension condition')
        elif isinstance(n, ast.IfExp):
            rep(n, b[slice(*span(n.body))].decode(), 'ifexp')
            rep(n, b[slice(*span(n.orelse))].decode(), 'ifexp')
        if isinstance(n, (ast.If, ast.While)):
            rep(n.test, 'True' if isinstance(n, ast.If) else 'False', 'test')
            rep(n.test, 'False', 'test')
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Return, ast.Raise, ast.Continue, ast.Break)) and hasattr(n, 'lineno') and id(n) not in doc:
            rep(n, 'pass', 'drop statement')
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
            rep(n, 'return None', 'return')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            rep(n, 'pass', 'drop assignment')
    res = []
    seen = set()
    for line, what, s, e, new in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        if t in seen or t == src:
            continue
        seen.add(t)
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((path, line, what, b[s:e].decode()[:120], new[:120], t))
    return res


def work(job):
    i, (path, line, what, old, new, text), budget, base = job
    import threading
    ident = multiprocessing.current_process()._identity[0]
    d = os.path.join(base, 'w%d' % ident)
    repo, ver = os.path.join(d, 'repo'), os.path.join(d, 'verif')
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(V, ver, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
        s = open('/opt/vp/test.sh').read().replace('/repo', repo)
        open(os.path.join(d, 'test.sh'), 'w').write(s)
    f = os.path.join(repo, 'scrappybara', path)
    orig = open(os.path.join('/repo/scrappybara', path)).read()
    open(f, 'w').write(text)
    r = {'path': path, 'line': line, 'what': what, 'old': old, 'new': new, 'checks': {}}
    try:
        caught = None
        for c in CHECKS[path].split():
            env = dict(os.environ, SX_REPO=repo)
            try:
                p = subprocess.run(['python3', os.path.join(ver, 'check.py'), c, '--procs', '2', '--budget', str(budget)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, timeout=400)
                rc, o = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, o = 'timeout', ''
            r['checks'][c] = rc
            if rc == 1 and 'VIOLATION' in o:
                caught = c
                m = re.search(r'^violated: (.*)$', o, re.M)
                r['message'] = m.group(1)[:200] if m else ''
                break
        r['caught'] = caught
        if not caught:
            p = subprocess.run(['bash', os.path.join(d, 'test.sh'), os.path.join(d, 'out.json')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            base_ = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open(os.path.join(d, 'out.json')))

            def ps(x):
                for k in ('passed', 'stable', 'tests', 'pass'):  # either file
                    if k in x:
                        return set(x[k])
                return set()
            r['tests'] = not (ps(base_) - ps(got))
    finally:
        open(f, 'w').write(orig)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='')
    ap.add_argument('--max', type=int, default=0)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--budget', type=float, default=90)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--retry', default='', help='only the changes that survived according to this file')
    a = ap.parse_args()
    jobs = []
    for path in CHECKS:
        if a.files and not any(x in path for x in a.files.split(',')):
            continue
        jobs += mutants(path, open(os.path.join('/repo/scrappybara', path)).read())
    random.Random(7).shuffle(jobs)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['path'], d['line'], d['what'], d['old'], d['new']))
    jobs = [j for j in jobs if j[:5] not in done]
    if a.retry:
        again = [json.loads(l) for l in open(a.retry)]
        again = {(d['path'], d['line'], d['what'], d['old'], d['new']) for d in again if d.get('tests') and not d['caught']}
        jobs = [j for j in jobs if j[:5] in again]
    if a.max:
        jobs = jobs[:a.max]
    print(len(jobs), 'changes', flush=True)
    if a.list:
        from collections import Counter
        print(Counter(j[0] for j in jobs))
        return
    base = tempfile.mkdtemp(prefix='mut')
    try:
        with multiprocessing.Pool(a.workers) as pool, open(a.out, 'a') as out:
            for r in pool.imap_unordered(work, [(i, j, a.budget, base) for i, j in enumerate(jobs)]):
                out.write(json.dumps(r) + '\n')
                out.flush()
                if not r['caught']:
                    print(('SURVIVES ' if r.get('tests') else 'tests    ') + '%(path)s:%(line)s %(what)s | %(old)s => %(new)s | %(checks)s' % r, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
