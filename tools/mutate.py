"""Mutation testing of the checks: every small change of a function or class body is analysed by
the obligations that reach it; prints the changes no obligation reports.
tools/mutate.py [--fn REGEX] [--every N] [--out FILE]"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import signal
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
FILES = ['__init__.py', 'blech32.py', 'liquid_addr.py', 'wallet.py', 'core/__init__.py',
         'core/script.py', 'core/secp256k1.py']
SIB = [('nAsset', 'nValue', 'nNonce'), ('vin', 'vout'), ('vtxinwit', 'vtxoutwit'),
       ('surjectionproof', 'rangeproof'), ('issuanceAmountRangeproof', 'inflationKeysRangeproof'),
       ('nAmount', 'nInflationKeys'), ('assetBlindingNonce', 'assetEntropy'),
       ('is_null', 'is_explicit', 'is_commitment'), ('scriptWitness', 'pegin_witness'),
       ('blinding_factor', 'asset_blinding_factor'), ('nVersion', 'nLockTime'),
       ('verify', 'sign', 'blind'), ('scriptPubKey', 'scriptSig')]


def negate(e):
    return ast.UnaryOp(ast.Not(), e)


def muts_expr(n):
    """(description, replacement) for expression nodes"""
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        alt = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt],
               ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
               ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for o in alt.get(type(n.ops[0]), []):
            yield 'op ' + o.__name__, ast.Compare(n.left, [o()], n.comparators)
    if isinstance(n, ast.BoolOp):
        yield 'and/or', ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)
        for i in range(len(n.values)):
            v = n.values[:i] + n.values[i + 1:]
            yield 'drop operand %d' % i, v[0] if len(v) == 1 else ast.BoolOp(n.op, v)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield 'drop not', n.operand
    if isinstance(n, ast.BinOp):
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
               ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Mult: ast.Add,
               ast.BitXor: ast.BitOr, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
        if type(n.op) in alt and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or \
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, int):
            if type(n.op) in alt:
                yield 'arith', ast.BinOp(n.left, alt[type(n.op)](), n.right)
        if isinstance(n.op, ast.Add):
            yield 'drop right', n.left
            yield 'drop left', n.right
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            yield 'bool', ast.Constant(not v)
        elif isinstance(v, int):
            yield '+1', ast.Constant(v + 1)
            if v:
                yield '-1', ast.Constant(v - 1)
        elif isinstance(v, bytes) and v:
            yield 'bytes', ast.Constant(bytes([v[0] ^ 1]) + v[1:])
            yield 'bytes shorter', ast.Constant(v[:-1])
        elif isinstance(v, str) and v:
            yield 'str', ast.Constant(v[:-1] + chr(ord(v[-1]) ^ 1))
        elif v is None:
            yield 'none', ast.Constant(0)
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        for s in SIB:
            if n.attr in s:
                for x in s:
                    if x != n.attr:
                        yield 'attr ' + x, ast.Attribute(n.value, x, ast.Load())
    if isinstance(n, ast.Call):
        for i in range(len(n.args) - 1):
            if ast.dump(n.args[i]) != ast.dump(n.args[i + 1]) and \
                    not any(isinstance(a, ast.Starred) for a in n.args):
                a = list(n.args)
                a[i], a[i + 1] = a[i + 1], a[i]
                yield 'swap args %d' % i, ast.Call(n.func, a, n.keywords)
        for i in range(len(n.keywords)):
            yield 'drop kw %s' % n.keywords[i].arg, ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:])
        if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
            yield 'call -> arg', n.args[0]
    if isinstance(n, ast.IfExp):
        yield 'ifexp body', n.body
        yield 'ifexp else', n.orelse
    if isinstance(n, ast.Slice):
        for part in ('lower', 'upper'):
            if getattr(n, part) is not None:
                c = copy.copy(n)
                setattr(c, part, None)
                yield 'slice no ' + part, c
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        yield 'no slice', n.value
    if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and 1 < len(n.elts) < 9:
        e = list(n.elts)
        e[0], e[1] = e[1], e[0]
        yield 'swap elts', type(n)(e, n.ctx)
        yield 'drop elt', type(n)(n.elts[:-1], n.ctx)


def muts_stmt(s):
    if isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant):
        yield 'delete', ast.Pass()
    if isinstance(s, (ast.Assign, ast.AugAssign)):
        yield 'delete', ast.Pass()
    if isinstance(s, ast.AnnAssign) and s.value is not None:
        yield 'delete', ast.Pass()
    if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
        yield 'delete', ast.Pass()
    if isinstance(s, ast.Raise):
        if isinstance(s.exc, ast.Call) and isinstance(s.exc.func, ast.Name):
            yield 'other class', ast.Raise(ast.Call(ast.Name('KeyError', ast.Load()), s.exc.args, []), s.cause)
    if isinstance(s, ast.Continue):
        yield 'break', ast.Break()
    if isinstance(s, ast.Return) and s.value is not None:
        yield 'return none', ast.Return(ast.Constant(None))
    if isinstance(s, ast.If):
        c = copy.copy(s)
        c.test = negate(s.test)
        yield 'negate', c
        if s.orelse:
            c = copy.copy(s)
            c.orelse = []
            yield 'drop else', c
        c = copy.copy(s)
        c.test = ast.Constant(False)
        yield 'if False', c
        c = copy.copy(s)
        c.test = ast.Constant(True)
        yield 'if True', c
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add):
        yield 'aug', ast.AugAssign(s.target, ast.Sub(), s.value)
        yield 'plain', ast.Assign([s.target], s.value)
    if isinstance(s, ast.For):
        yield 'no loop', ast.Pass()
    if isinstance(s, ast.Try) and s.finalbody:
        c = copy.copy(s)
        c.finalbody = [ast.Pass()]
        yield 'no finally', c
    if isinstance(s, ast.ClassDef):
        for i in range(len(s.bases)):
            if len(s.bases) > 1:
                c = copy.copy(s)
                c.bases = s.bases[:i] + s.bases[i + 1:]
                yield 'drop base %d' % i, c
        for i in range(len(s.keywords)):
            c = copy.copy(s)
            c.keywords = s.keywords[:i] + s.keywords[i + 1:]
            yield 'drop class kw', c
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.decorator_list:
        c = copy.copy(s)
        c.decorator_list = s.decorator_list[1:]
        yield 'drop decorator', c


def sites(tree):
    """(scope name, line, description, apply) where apply() performs and returns undo"""
    out = []

    def skip_expr(n):
        return isinstance(n, (ast.JoinedStr,))

    def visit(node, scope, inmsg=False, inann=False):
        for field, val in ast.iter_fields(node):
            if field in ('annotation', 'returns', 'type_comment', 'type_params', 'ctx', 'op', 'ops'):
                continue
            lst = val if isinstance(val, list) else [val]
            for i, c in enumerate(lst):
                if not isinstance(c, ast.AST):
                    continue
                if isinstance(c, (ast.Assert, ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                sc = scope
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    sc = scope + [c.name]

                def mk(new, node=node, field=field, i=i, val=val):
                    def do():
                        if isinstance(val, list):
                            old = val[i]
                            val[i] = new

                            def undo():
                                val[i] = old
                        else:
                            setattr(node, field, new)

                            def undo():
                                setattr(node, field, val)
                        return undo
                    return do
                msg = inmsg
                if isinstance(node, ast.Call) and field == 'args':
                    f = node.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
                    if nm.endswith('Error') or nm in ('BlindingFailure', 'UnblindingFailure', 'warn'):
                        msg = True
                if isinstance(c, ast.stmt):
                    for d, new in muts_stmt(c):
                        out.append((sc, c.lineno, d, mk(new)))
                elif isinstance(c, (ast.expr, ast.Slice)) and not msg and not skip_expr(c):
                    for d, new in muts_expr(c):
                        out.append((sc, c.lineno if hasattr(c, 'lineno') else 0, d + ': ' +
                                    ast.unparse(c)[:60], mk(new)))
                if skip_expr(c):
                    continue
                visit(c, sc, msg)
    visit(tree, [])
    return out


def baseline():
    from sa.loader import World
    from sa.engine_check import decide
    import config
    w = World({'elementstx': '/repo', 'spec': V})
    helpers = {o.spec.replace(':', '.'): o.q for g in config.OBS.values() for o in g
               if '.' not in o.impl.split(':')[1]}
    reach = {}
    for g, obs in config.OBS.items():
        for j, o in enumerate(obs):
            r = decide(w, o, helpers)
            for f in r.stats.get('functions', ()):
                reach.setdefault(f, []).append((g, j))
    return w, helpers, reach


def one(args):
    k, fn, files, scope, line, desc, src, todo, tabs = args
    signal.signal(signal.SIGALRM, slow)
    from sa.loader import World
    from sa.engine_check import decide
    from sa.tables import decide_table
    from spec.tables import TABLES
    import config
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree('/repo/elementstx', d + '/elementstx', ignore=shutil.ignore_patterns('__pycache__', 'tests'))
        with open('%s/elementstx/%s' % (d, fn), 'w') as f:
            f.write(src)
        w = World({'elementstx': d, 'spec': V})
        st = {}
        signal.alarm(200)
        for t in tabs:
            try:
                r = decide_table(w, TABLES[t])
                st[t] = (r.status, r.msgs[:1])
            except Exception as e:
                st[t] = ('broken', [str(e)[:200]])
            if st[t][0] == 'violation':
                break
        if not any(v[0] == 'violation' for v in st.values()):
            for g, j in todo:
                o = config.OBS[g][j]
                try:
                    r = decide(w, o, HELP)
                    st[o.key] = (r.status, r.msgs[:2])
                except Exception as e:
                    st[o.key] = ('broken', ['%s: %s' % (type(e).__name__, str(e)[:200])])
                if st[o.key][0] == 'violation':
                    break
        signal.alarm(0)
        if any(v[0] == 'violation' for v in st.values()):
            return k, st, None
        return k, st, tests(fn, src)
    except Slow:
        return k, {'time': ('slow', [''])}, tests(fn, src)
    finally:
        signal.alarm(0)
        shutil.rmtree(d, ignore_errors=True)


class Slow(BaseException):
    pass


def slow(*a):
    raise Slow


def tests(fn, src):
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree('/repo/elementstx', d + '/elementstx', ignore=shutil.ignore_patterns('__pycache__'))
        with open('%s/elementstx/%s' % (d, fn), 'w') as f:
            f.write(src)
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1')
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                            'elementstx/tests'], cwd=d, env=env, capture_output=True, text=True, timeout=120)
        return t.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--fn', default='')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--out', default='/tmp/mutants.txt')
    a = ap.parse_args()
    global HELP
    w, HELP, reach = baseline()
    from spec.tables import TABLES
    import config
    jobs = []
    for fn in FILES:
        mod = 'elementstx' + ('.' + fn[:-3].replace('/', '.') if fn != '__init__.py' else '')
        mod = mod.replace('.__init__', '')
        src = open('/repo/elementstx/' + fn).read()
        tree = ast.parse(src)
        for sc, line, desc, do in sites(tree):
            name = '.'.join(sc)
            if a.fn and not re.search(a.fn, mod + '.' + name):
                continue
            undo = do()
            try:
                ast.fix_missing_locations(tree)
                new = ast.unparse(tree)
                ok = True
            except Exception:
                ok = False
            undo()
            if not ok:
                continue
            q = mod + '.' + name
            if q not in reach and mod + '.' + name.rpartition('.')[2] in reach:
                q = mod + '.' + name.rpartition('.')[2]     # a nested function
            todo = reach.get(q, [])
            infn = bool(todo) or any(isinstance(n, ast.FunctionDef) and n.name == (sc[-1] if sc else '')
                                     for n in ast.walk(tree))
            if not infn:
                todo = [(g, i) for g in config.OBS if g != 'blind.tx' for i in range(len(config.OBS[g]))]
            todo = sorted(todo, key=lambda t: t[0] == 'blind.tx')
            jobs.append([len(jobs), fn, None, mod + '.' + name, line, desc, new, todo,
                         [t for t in TABLES] if not infn else ['rule.setattr']])
    if a.every > 1:
        random.seed(1)
        random.shuffle(jobs)
        jobs = jobs[::a.every]
    by = {j[0]: j for j in jobs}
    print(len(jobs), 'mutants', flush=True)
    res = {}
    t0 = time.time()
    left = n = 0
    random.shuffle(jobs)
    with mp.get_context('fork').Pool(8, maxtasksperchild=20) as pool, open(a.out, 'w') as f:
        for k, st, passed in pool.imap_unordered(one, jobs, chunksize=1):
            res[k] = st
            if len(res) % 100 == 0:
                print(len(res), round(time.time() - t0), flush=True)
            if passed is not None:
                left += 1
            if not passed:
                continue
            n += 1
            j = by[k]
            st = {x: v for x, v in st.items() if v[0] != 'ok'}
            f.write('%s:%d %s | %s | %s\n' % (j[1], j[4], j[3], j[5],
                                             'NOT REACHED' if not res[k] or not j[7] else
                                             '; '.join('%s %s %s' % (x, v[0], str(v[1])[:200]) for x, v in st.items())
                                             or 'ALL OK'))
            f.flush()
    print('%d mutants, %d reported, %d fail only the tests, %d left: %s' % (
        len(jobs), len(jobs) - left, left - n, n, a.out))


if __name__ == '__main__':
    threading.stack_size(1024 * 1024 * 1024)
    th = threading.Thread(target=main)
    th.start()
    th.join()
