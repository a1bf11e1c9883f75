"""Does the analysis agree with Python?  Random programs in the style of the package are changed
at random; where the analysis calls program and changed program equal, or different, they are run
on many inputs to see whether that is so.  A test of the machinery, not a check of the package.
tools/selftest.py [--n N] [--seed S] [--jobs J] [--refactor] [--show]"""
import argparse
import ast
import copy
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import pickle
import resource

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)

HEAD = "import struct\nfrom io import BytesIO\n\n\n"


class Gen:
    def __init__(self, rnd):
        self.r = rnd
        self.n = 0
        self.helpers = []

    def pick(self, *opts):
        return self.r.choice(opts)

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- expressions; env: {'int': [...], 'bytes': [...], 'bool': [...], 'list': [...], 'rec': [...]}
    def int(self, env, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            c = list(env['int'])
            if c and r.random() < 0.75:
                return r.choice(c)
            return str(r.choice([0, 1, 2, 3, 5, 8, 255, 256]))
        opts = ['+', '-', '*', '&', '>>', 'len', 'len', 'ifexp', 'min', 'attr', 'attr', '|', 'mod', 'unpack', 'sum']
        o = r.choice(opts)
        if o in '+-':
            return '(%s %s %s)' % (self.int(env, d - 1), o, self.int(env, d - 1))
        if o == '*':
            return '(%s * %d)' % (self.int(env, d - 1), r.choice([2, 3, 8]))
        if o == '&':
            return '(%s & %s)' % (self.int(env, d - 1), r.choice(['0xff', '1', '0x3fffffff', '7']))
        if o == '|':
            return '((%s & 7) | %s)' % (self.int(env, d - 1), r.choice(['8', '16', '0x80']))
        if o == '>>':
            return '((%s & 0xffff) >> %d)' % (self.int(env, d - 1), r.choice([1, 4, 8]))
        if o == 'mod':
            return '(%s %% %d)' % (self.int(env, d - 1), r.choice([2, 3, 256]))
        if o == 'len':
            return 'len(%s)' % (self.bytes(env, d - 1) if r.random() < 0.5 else r.choice(env['list']))
        if o == 'ifexp':
            return '(%s if %s else %s)' % (self.int(env, d - 1), self.bool(env, d - 1), self.int(env, d - 1))
        if o == 'min':
            return '%s(%s, %s)' % (r.choice(['min', 'max']), self.int(env, d - 1), self.int(env, d - 1))
        if o == 'unpack':
            return "struct.unpack('<H', struct.pack('<I', %s & 0xffffffff)[:2])[0]" % self.int(env, d - 1)
        if o == 'sum':
            v = self.fresh('e')
            return 'sum(%s for %s in %s%s)' % (
                r.choice(['1', v + '.amount', 'len(%s.data)' % v]), v, r.choice(env['rlist']),
                r.choice(['', ' if %s.is_pegin' % v, ' if %s.amount > 2' % v]))
        rec = r.choice(env['rec'])
        return rec + '.amount'

    def bytes(self, env, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            if r.random() < 0.75:
                return r.choice(env['bytes'])
            return r.choice(["b''", "b'\\x00'", "b'ab'", "b'\\x00' * 4"])
        o = r.choice(['slice', 'cat', 'pack', 'bytes', 'ifexp', 'attr', 'or', 'join'])
        if o == 'slice':
            a = r.choice(['', '1', '2'])
            b = r.choice(['', '3', '4', '-1'])
            return '%s[%s:%s]' % (self.bytes(env, 0), a, b)
        if o == 'cat':
            return '(%s + %s)' % (self.bytes(env, d - 1), self.bytes(env, d - 1))
        if o == 'pack':
            f = r.choice([('<I', '0xffffffff'), ('<H', '0xffff'), ('>Q', '0xffffffff'), ('B', '0xff')])
            return "struct.pack('%s', %s & %s)" % (f[0], self.int(env, d - 1), f[1])
        if o == 'bytes':
            return 'bytes([%s & 0xff])' % self.int(env, d - 1)
        if o == 'ifexp':
            return '(%s if %s else %s)' % (self.bytes(env, d - 1), self.bool(env, d - 1), self.bytes(env, d - 1))
        if o == 'or':
            return '(%s or %s)' % (self.bytes(env, 0), self.bytes(env, d - 1))
        if o == 'join':
            v = self.fresh('e')
            return "b''.join(%s for %s in %s%s)" % (
                r.choice([v + '.data', "struct.pack('<I', %s.amount & 0xff)" % v]), v,
                r.choice(env['rlist']), r.choice(['', '', ' if %s.is_pegin' % v]))
        return r.choice(env['rec']) + '.data'

    def bool(self, env, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return r.choice(env['bool'] + [r.choice(env['rec']) + '.is_pegin'])
        o = r.choice(['cmp', 'cmp', 'cmp', 'beq', 'and', 'or', 'not', 'in', 'tlist', 'tbytes', 'tint',
                      'any', 'all', 'chain', 'none'])
        if o == 'cmp':
            return '%s %s %s' % (self.int(env, d - 1), r.choice(['<', '<=', '==', '!=', '>', '>=']),
                                 self.int(env, d - 1))
        if o == 'chain':
            return '%d <= %s < %d' % (r.choice([0, 1]), self.int(env, d - 1), r.choice([3, 17, 256]))
        if o == 'beq':
            return '%s %s %s' % (self.bytes(env, d - 1), r.choice(['==', '!=']), self.bytes(env, 0))
        if o in ('and', 'or'):
            return '(%s %s %s)' % (self.bool(env, d - 1), o, self.bool(env, d - 1))
        if o == 'not':
            return '(not %s)' % self.bool(env, d - 1)
        if o == 'in':
            return '%s %s (%s)' % (self.int(env, d - 1), r.choice(['in', 'not in']),
                                   ', '.join(str(x) for x in r.sample([0, 1, 2, 3, 8, 10], 3)))
        if o == 'tlist':
            return r.choice(['bool(%s)', '(not %s)']) % r.choice(env['list'])
        if o == 'tbytes':
            return '(not %s)' % self.bytes(env, 0)
        if o == 'tint':
            return '(not %s)' % self.int(env, 0)
        if o == 'none':
            return '%s is %sNone' % (r.choice(env['opt']), r.choice(['', 'not ']))
        v = self.fresh('e')
        return '%s(%s for %s in %s)' % (o, r.choice([v + '.is_pegin', v + '.amount > 1', 'not %s.data' % v]),
                                        v, r.choice(env['rlist']))

    # ---- statements
    def block(self, env, d, loop, n=None):
        out = []
        env = {k: list(v) for k, v in env.items()}
        for _ in range(n or self.r.randint(1, 3)):
            out += self.stmt(env, d, loop)
        return out

    def ind(self, ls):
        return ['    ' + x for x in ls]

    def stmt(self, env, d, loop):
        r = self.r
        o = r.choice(['iassign'] * 3 + ['bassign'] * 2 + ['aug'] * 2 + ['append'] * 3 + ['if'] * 4 +
                     ['for'] * 3 + ['raise', 'store', 'store', 'comp', 'try', 'while', 'write', 'helper',
                                    'newlist', 'ret', 'flag', 'setitem', 'elif', 'closure', 'extend', 'dict'])
        if loop and r.random() < 0.12:
            return ['if %s:' % self.bool(env, 1), '    ' + r.choice(['continue', 'break'])]
        if o == 'iassign':
            v = self.fresh('i')
            e = self.int(env)
            env['int'].append(v)
            return ['%s = %s' % (v, e)]
        if o == 'bassign':
            v = self.fresh('p')
            e = self.bytes(env)
            env['bytes'].append(v)
            return ['%s = %s' % (v, e)]
        if o == 'flag':
            v = self.fresh('c')
            e = self.bool(env)
            env['bool'].append(v)
            return ['%s = %s' % (v, e)]
        if o == 'aug':
            if r.random() < 0.6:
                c = [x for x in env['int'] if x[0] == 'i']
                if c:
                    return ['%s %s= %s' % (r.choice(c), r.choice('+-'), self.int(env, 1))]
            c = [x for x in env['bytes'] if x[0] == 'p']
            if c:
                return ['%s += %s' % (r.choice(c), self.bytes(env, 1))]
            return self.stmt(env, d, loop)
        if o == 'append':
            c = [x for x in env['list'] if x[0] == 'l']
            if not c:
                v = self.fresh('l')
                env['list'].append(v)
                return ['%s = []' % v]
            return ['%s.append(%s)' % (r.choice(c), self.int(env, 1) if r.random() < 0.6 else self.bytes(env, 1))]
        if o == 'newlist':
            v = self.fresh('l')
            e = r.choice(['[]', '[%s]' % self.int(env, 1), '[%s, %s]' % (self.int(env, 1), self.int(env, 1))])
            env['list'].append(v)
            return ['%s = %s' % (v, e)]
        if o == 'extend':
            c = [x for x in env['list'] if x[0] == 'l']
            if not c:
                return self.stmt(env, d, loop)
            v = self.fresh('e')
            return ['%s.extend(%s for %s in %s)' % (r.choice(c), v + '.amount', v, r.choice(env['rlist']))]
        if o == 'setitem':
            v = self.fresh('l')
            lst = r.choice(env['rlist'])
            i = self.fresh('k')
            rec = '%s[%s]' % (lst, i)
            e2 = dict(env, rec=env['rec'] + [rec], int=env['int'] + [i])
            env['list'].append(v)
            return ['%s = [0] * len(%s)' % (v, lst), 'for %s in range(len(%s)):' % (i, lst)] + self.ind(
                (['if %s:' % self.bool(e2, 1)] + self.ind(['%s[%s] = %s' % (v, i, self.int(e2, 1))]))
                if r.random() < 0.6 else ['%s[%s] = %s' % (v, i, self.int(e2, 1))])
        if o == 'comp':
            v, x = self.fresh('l'), self.fresh('e')
            e2 = dict(env, rec=env['rec'] + [x])
            c = ' if %s' % self.bool(e2, 1) if r.random() < 0.5 else ''
            ls = '%s = [%s for %s in %s%s]' % (v, self.int(e2, 1) if r.random() < 0.6 else self.bytes(e2, 1),
                                              x, r.choice(env['rlist']), c)
            env['list'].append(v)
            return [ls]
        if o == 'if' and d > 0:
            out = ['if %s:' % self.bool(env)] + self.ind(self.block(env, d - 1, loop))
            if r.random() < 0.5:
                out += ['else:'] + self.ind(self.block(env, d - 1, loop))
            return out
        if o == 'elif' and d > 0:
            v = self.fresh('i')
            out = []
            x = r.choice(env['int'])
            for i, kw in enumerate(('if', 'elif')):
                out += ['%s %s:' % (kw, self.bool(env, 1))] + self.ind(['%s = %s' % (v, self.int(env, 1))])
            out += ['else:'] + self.ind(['%s = %s' % (v, x)])
            env['int'].append(v)
            return out
        if o == 'for' and d > 0:
            lst = r.choice(env['rlist'])
            k = r.random()
            if k < 0.35:
                x = self.fresh('e')
                e2 = dict(env, rec=env['rec'] + [x])
                h = 'for %s in %s:' % (x, lst)
            elif k < 0.7:
                i = self.fresh('k')
                e2 = dict(env, rec=env['rec'] + ['%s[%s]' % (lst, i)], int=env['int'] + [i])
                h = 'for %s in range(len(%s)):' % (i, lst)
            elif k < 0.85:
                i, x = self.fresh('k'), self.fresh('e')
                e2 = dict(env, rec=env['rec'] + [x], int=env['int'] + [i])
                h = 'for %s, %s in enumerate(%s):' % (i, x, lst)
            elif k < 0.93:
                i = self.fresh('k')
                e2 = dict(env, int=env['int'] + [i])
                h = 'for %s in range(%s):' % (i, r.choice(['2', '3', '(a & 3)']))
            else:
                i = self.fresh('k')
                e2 = dict(env, int=env['int'] + [i])
                h = 'for %s in %s:' % (i, r.choice(env['bytes']))
            return [h] + self.ind(self.block(e2, d - 1, True))
        if o == 'while' and d > 0:
            i = self.fresh('w')
            e2 = dict(env, int=env['int'] + [i])
            body = [x for x in self.block(e2, d - 1, False)]
            return ['%s = 0' % i, 'while %s < %s:' % (i, r.choice(['len(xs)', 'len(o.vin)', '(b & 3)']))] + \
                self.ind(['%s += 1' % i] + body if r.random() < 0.3 else body + ['%s += 1' % i])
        if o == 'raise':
            return ['if %s:' % self.bool(env), '    raise %s' % r.choice(['ValueError', 'TypeError'])]
        if o == 'ret' and r.random() < 0.5:
            return ['if %s:' % self.bool(env), '    return %s' % self.retval(env)]
        if o == 'store':
            rec = r.choice(env['rec'])
            k = r.random()
            if k < 0.5:
                return ['%s.amount = %s' % (rec, self.int(env, 1))]
            if k < 0.8:
                return ['%s.data = %s' % (rec, self.bytes(env, 1))]
            return ['%s.is_pegin = %s' % (rec, self.bool(env, 1))]
        if o == 'try' and d > 0:
            c = self.fresh('i')
            env['int'].append(c)
            body = self.block(env, d - 1, False, 1)
            return ['%s = %s' % (c, self.int(env, 0)) if False else '%s = 1' % c, 'try:'] + self.ind(
                body + ['if %s:' % self.bool(env, 1), '    raise ValueError',
                        '%s = %s' % (c, self.int(env, 1))]) + [
                'except %s:' % r.choice(['ValueError', '(ValueError, TypeError)', 'TypeError'])] + \
                self.ind(['%s = %s' % (c, self.int(env, 1))])
        if o == 'write':
            if 'f' not in env:
                env['f'] = []
            if not env['f']:
                v = self.fresh('f')
                env['f'].append(v)
                return ['%s = BytesIO()' % v]
            return ['%s.write(%s)' % (r.choice(env['f']), self.bytes(env, 1))]
        if o == 'helper' and self.helpers:
            v = self.fresh('i')
            ls = '%s = %s(%s, %s, %s)' % (v, r.choice(self.helpers), r.choice(env['rec']),
                                          self.int(env, 1), self.bytes(env, 1))
            env['int'].append(v)
            return [ls]
        if o == 'closure' and d > 0 and not loop:
            fn, x, v = self.fresh('fn'), self.fresh('i'), self.fresh('i')
            e2 = dict(env, int=env['int'] + [x])
            out = ['def %s(%s):' % (fn, x), '    return %s' % self.int(e2, 2),
                   '%s = %s(%s)' % (v, fn, self.int(env, 1))]
            env['int'].append(v)
            return out
        if o == 'dict':
            v, w = self.fresh('d'), self.fresh('i')
            out = ["%s = {1: %s, 2: %s}" % (v, self.int(env, 1), self.int(env, 1)),
                   '%s = %s.get(%s, %s)' % (w, v, self.int(env, 1), self.int(env, 0))]
            env['int'].append(w)
            return out
        return self.stmt(env, d, loop) if d > 0 else ['pass']

    def retval(self, env):
        r = self.r
        c = ['(%s, %s)' % (self.int(env, 1), self.bytes(env, 1)), self.int(env), self.bytes(env)]
        loc = [x for x in env['list'] if x[0] == 'l']
        if loc:
            c += [r.choice(loc), '(%s, len(%s))' % (r.choice(loc), r.choice(loc))]
        if env.get('f'):
            c += [r.choice(env['f']) + '.getvalue()'] * 3
        if r.random() < 0.1:
            c = [self.bool(env)]
        return r.choice(c)

    def program(self):
        r = self.r
        out = []
        if r.random() < 0.4:
            env = {'int': ['x', 'r.amount'], 'bytes': ['y', 'r.data'], 'bool': ['r.is_pegin'],
                   'list': ['y'], 'rlist': ['[r]'], 'rec': ['r'], 'opt': ['y']}
            env['list'] = ['[x]']
            b = []
            for _ in range(r.randint(0, 2)):
                b += self.stmt(env, 1, False)
            out += ['def g(r, x, y):'] + self.ind(b + ['return %s' % self.int(env)]) + ['', '']
            self.helpers = ['g']
        env = {'int': ['a', 'b', 'o.amount'], 'bytes': ['s', 't', 'o.data'], 'bool': ['flag'],
               'list': ['xs', 'o.vin'], 'rlist': ['xs', 'o.vin', 'xs'], 'rec': ['o'], 'opt': ['q']}
        b = []
        for _ in range(r.randint(3, 7)):
            b += self.stmt(env, 2, False)
        out += ['def f(o, xs, s, t, a, b, flag, q):'] + self.ind(b + ['return ' + self.retval(env)])
        return '\n'.join(out) + '\n'


class Rec:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def snap(self):
        return tuple(sorted((k, snap(v)) for k, v in self.__dict__.items()))


def snap(v):
    if isinstance(v, Rec):
        return v.snap()
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(snap(x) for x in v)
    return (type(v).__name__, v if type(v) in (int, bytes, bool, type(None)) else repr(v)[:20])


def inputs(rnd, n, consts=()):
    pool = [c + d for c in consts for d in (-1, 0, 1)] or [0]

    def by():
        return bytes(rnd.choice([0, 1, 2, 97, 98, 255]) for _ in range(rnd.choice([0, 0, 1, 2, 3, 4, 6])))

    def num():
        return rnd.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 255, 256, -1, -2, rnd.randrange(0, 70000),
                           rnd.choice(pool), rnd.choice(pool), rnd.choice(pool)])

    def rec():
        return dict(amount=num(), data=by(), is_pegin=rnd.random() < 0.5)

    for _ in range(n):
        o = dict(rec(), vin=[rec() for _ in range(rnd.choice([0, 1, 2, 3]))])
        yield (o, [rec() for _ in range(rnd.choice([0, 1, 1, 2, 3]))], by(), by(), num(), num(),
               rnd.random() < 0.5, None if rnd.random() < 0.5 else by())


def build(x):
    o, xs, s, t, a, b, flag, q = x
    oo = Rec(**{k: v for k, v in o.items() if k != 'vin'})
    oo.vin = [Rec(**r) for r in o['vin']]
    return oo, [Rec(**r) for r in xs], s, t, a, b, flag, q


class Timeout(BaseException):
    pass


def outcome(fn, x):
    args = build(x)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 2)
    try:
        r = fn(*args)
        return ('ret', snap(r), snap(args[0]), snap(args[1]))
    except (ValueError, TypeError) as e:
        if e.args:
            return ('implicit',)       # not one of the program's own
        return ('raise',)
    except NameError:
        return ('raise',)
    except Timeout:
        return ('implicit',)
    except Exception as e:
        return ('implicit', type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _alarm(*a):
    raise Timeout


def load(src):
    ns = {}
    exec(compile(src, '<gen>', 'exec'), ns)
    return ns['f']


def differ(src1, src2, rnd, n=3000):
    f1, f2 = load(src1), load(src2)
    imp = 0
    some = False
    consts = sorted({c.value for t in (src1, src2) for c in ast.walk(ast.parse(t))
                     if isinstance(c, ast.Constant) and type(c.value) is int and c.value < 1 << 33})
    for x in inputs(rnd, n, consts):
        a, b = outcome(f1, x), outcome(f2, x)
        if a[0] == 'implicit':
            imp += 1
            continue
        if b[0] == 'implicit':
            some = True
            continue
        if a != b:
            return x, a, b
    return 'implicit' if some or imp > n / 2 else None


def mutants(src, rnd, k):
    from tools import mutate
    out = []
    tree = ast.parse(src)
    nodes = [n for n in ast.walk(tree)]
    cands = []
    for i, n in enumerate(nodes):
        if isinstance(n, ast.expr):
            for j, (d, _) in enumerate(mutate.muts_expr(n)):
                cands.append(('e', i, j, d))
        elif isinstance(n, ast.stmt) and not isinstance(n, ast.FunctionDef):
            for j, (d, _) in enumerate(mutate.muts_stmt(n)):
                cands.append(('s', i, j, d))
    rnd.shuffle(cands)
    for c in cands[:k]:
        t2 = ast.parse(src)
        n = [x for x in ast.walk(t2)][c[1]]
        _, rep = list((mutate.muts_expr if c[0] == 'e' else mutate.muts_stmt)(n))[c[2]]

        class Sub(ast.NodeTransformer):
            def visit(self, x):
                if x is n:
                    return rep
                return self.generic_visit(x)
        t2 = Sub().visit(t2)
        ast.fix_missing_locations(t2)
        try:
            s2 = ast.unparse(t2)
            compile(s2, 'x', 'exec')
        except Exception:
            continue
        out.append((c[3], s2))
    return out


def refactors(src, rnd, k):
    from tools import refactor
    out = []
    names = list(refactor.REG)
    rnd.shuffle(names)
    for nm in names:
        t = ast.parse(src)
        try:
            t2 = refactor.REG[nm]().visit(t)
            ast.fix_missing_locations(t2)
            s2 = ast.unparse(t2)
            compile(s2, 'x', 'exec')
        except Exception:
            continue
        if s2 != ast.unparse(ast.parse(src)):
            out.append((nm, s2))
        if len(out) >= k:
            break
    return out


SIG = "def f(o, xs, s, t, a, b, flag, q):"
SPECSIG = ("def f(o: 'obj', xs: 'list', s: 'bytes', t: 'bytes', a: 'int', b: 'int', flag: 'bool', "
           "q: 'bytes?'):")


def verdict(d, src1, src2, full=True):
    from sa.loader import World
    from sa.engine_check import decide, decide_symbolic, Ob
    from sa import terms
    for x in ('elementstx', 'spec'):
        os.makedirs('%s/%s' % (d, x), exist_ok=True)
        open('%s/%s/__init__.py' % (d, x), 'w').close()
    s1 = ast.unparse(ast.parse(src1)).replace(SIG, SPECSIG)
    assert SPECSIG in s1
    open(d + '/spec/gen.py', 'w').write(HEAD + s1)
    open(d + '/elementstx/gen.py', 'w').write(HEAD + src2)
    w = World({'elementstx': d, 'spec': d})
    ob = Ob('elementstx.gen:f', 'spec.gen:f')
    r = decide_symbolic(w, ob, {})
    if r.status == 'violation' and full:
        os.environ['VERIF_REPO'] = os.environ['VERIF_SPEC'] = d
        r = decide(w, ob, {})
    return r


def work(args):
    res = []
    try:
        _work(*args[:3], args[3], res)
    finally:
        with open('%s/%d.out' % (args[3], args[0]), 'wb') as f:
            pickle.dump(res, f)
    os._exit(0)


def run_all(tasks, jobs, limit=120):
    live = {}
    tasks = list(tasks)
    while tasks or live:
        while tasks and len(live) < jobs:
            t = tasks.pop(0)
            pr = mp.Process(target=work, args=(t,))
            pr.start()
            live[pr] = (t, time.time())
        time.sleep(0.05)
        for pr, (t, t0) in list(live.items()):
            if pr.is_alive() and time.time() - t0 < limit:
                continue
            if pr.is_alive():
                pr.kill()
            pr.join()
            del live[pr]
            try:
                with open('%s/%d.out' % (t[3], t[0]), 'rb') as f:
                    yield pickle.load(f)
            except Exception:
                yield [(t[0], '-', 'died', None, 'pass', 'pass', [])]


def _work(seed, refac, k, tmp, res):
    rnd = random.Random(seed)
    src = None
    for _ in range(20):
        g = Gen(rnd)
        src = g.program()
        try:
            load(HEAD + src)
        except SyntaxError:
            continue
        break
    muts = (refactors if refac else mutants)(src, rnd, k)
    for d, s2 in muts:
        try:
            df = differ(HEAD + src, HEAD + s2, random.Random(seed))
        except Exception as e:
            continue
        if df == 'implicit':
            continue
        wd = tempfile.mkdtemp(dir=tmp)
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, 60)
            try:
                r = verdict(wd, src, s2)
                st = r.status
                msgs = r.msgs
            except Timeout:
                st, msgs = 'timeout', []
            except RecursionError:
                st, msgs = 'recursion', []
            except Exception as e:
                import traceback
                st, msgs = 'crash', [traceback.format_exc()[-1500:]]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        res.append((seed, d, st, df, src, s2, msgs))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--k', type=int, default=6)
    ap.add_argument('--refactor', action='store_true')
    ap.add_argument('--show', type=int, default=3)
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix='selftest.', dir='/tmp')
    cnt = {}
    shown = {}
    try:
        if True:
            for res in run_all([(s, a.refactor, a.k, tmp) for s in range(a.seed, a.seed + a.n)], a.jobs):
                for seed, d, st, df, src, s2, msgs in res:
                    real = 'differ' if df else 'same'
                    cnt[st, real] = cnt.get((st, real), 0) + 1
                    bad = (st, real) in (('ok', 'differ'), ('violation', 'same')) or st == 'crash'
                    if bad:
                        key = (st, real, msgs[0][-60:] if st == 'crash' else '')
                        shown[key] = shown.get(key, 0) + 1
                        if shown[key] <= a.show:
                            print('=' * 30, st, real, 'seed', seed, d)
                            import difflib
                            A, B = ast.unparse(ast.parse(src)), ast.unparse(ast.parse(s2))
                            print(A)
                            print('\n'.join(difflib.unified_diff(A.split('\n'), B.split('\n'), n=0, lineterm='')))
                            if df:
                                print('INPUT', df[0], '\n', df[1], '\n', df[2])
                            for m in msgs[:3]:
                                print('   ', m[:1500])
                            sys.stdout.flush()
        print(cnt)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if resource.getrlimit(resource.RLIMIT_STACK)[0] != 1 << 30:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    main()
