"""Behaviour-preserving rewrites of the package, each applied everywhere it fits to a scratch
copy; every check has to stay quiet on each.  tools/refactor.py [name...]"""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['__init__.py', 'blech32.py', 'liquid_addr.py', 'wallet.py', 'core/__init__.py',
         'core/script.py', 'core/secp256k1.py']
REG = {}


def reg(c):
    REG[c.__name__] = c
    return c


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        inv = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
               ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.GtE, ast.GtE: ast.Lt,
               ast.Gt: ast.LtE, ast.LtE: ast.Gt}
        if type(e.ops[0]) in inv:
            return ast.Compare(e.left, [inv[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = []

    def fresh(self):
        self.n += 1
        return '_t%d' % self.n

    def visit_FunctionDef(self, node):
        self.fn.append(node)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        return node

    def infn(self):
        return bool(self.fn)


@reg
class FlipIf(Base):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, node):
        self.generic_visit(node)
        if self.infn() and node.orelse:
            return ast.If(neg(node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(neg(node.test), node.orelse, node.body)


@reg
class ReturnTemp(Base):
    """return e -> t = e; return t"""

    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        t = self.fresh()
        return [ast.Assign([name(t, ast.Store())], node.value), ast.Return(name(t))]


@reg
class ArgTemp(Base):
    """f(a, b) as a statement or assigned -> t = a; u = b; f(t, u)"""

    def pre(self, call):
        out = []
        if not isinstance(call, ast.Call) or any(isinstance(a, ast.Starred) for a in call.args):
            return out
        if isinstance(call.func, ast.Name) and call.func.id in ('super', 'isinstance'):
            return out
        # the callee is read first: leave receivers that are not plain names
        f = call.func
        while isinstance(f, ast.Attribute):
            f = f.value
        if not isinstance(f, ast.Name):
            return out
        for i, a in enumerate(call.args):
            if not isinstance(a, (ast.Name, ast.Constant)):
                t = self.fresh()
                out.append(ast.Assign([name(t, ast.Store())], a))
                call.args[i] = name(t)
        for k in call.keywords:
            if k.arg and not isinstance(k.value, (ast.Name, ast.Constant)):
                t = self.fresh()
                out.append(ast.Assign([name(t, ast.Store())], k.value))
                k.value = name(t)
        return out

    def visit_Expr(self, node):
        return (self.pre(node.value) if self.infn() else []) + [node]

    def visit_Assign(self, node):
        return (self.pre(node.value) if self.infn() else []) + [node]

    def visit_Return(self, node):
        return (self.pre(node.value) if self.infn() and node.value is not None else []) + [node]


@reg
class Rename(Base):
    """local variables get new names"""

    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.Nonlocal, ast.FunctionDef, ast.Lambda)) for b in node.body
               for x in ast.walk(b)):
            return node
        stored = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and
                  isinstance(x.ctx, ast.Store)}
        glob = {g for x in ast.walk(node) if isinstance(x, ast.Global) for g in x.names}
        params = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        m = {n: n + '_x' for n in stored - glob - params}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
            elif isinstance(x, ast.ExceptHandler) and x.name in m:
                x.name = m[x.name]
        return node


@reg
class DeMorgan(Base):
    """a or b -> not (not a and not b), inside conditions"""

    def dm(self, e):
        if isinstance(e, ast.BoolOp):
            op = ast.And() if isinstance(e.op, ast.Or) else ast.Or()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(self.dm(v)) for v in e.values]))
        return e

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self.dm(node.test)
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.test = self.dm(node.test)
        return node


@reg
class NestIf(Base):
    """if a and b: X -> if a: if b: X ; if a or b: raise -> two ifs"""

    def visit_If(self, node):
        self.generic_visit(node)
        if not self.infn() or node.orelse or not isinstance(node.test, ast.BoolOp):
            return node
        if isinstance(node.test.op, ast.And):
            r = node.body
            for v in reversed(node.test.values):
                r = [ast.If(v, r, [])]
            return r[0]
        if isinstance(node.body[-1], (ast.Raise, ast.Return, ast.Continue)):
            return [ast.If(v, copy.deepcopy(node.body), []) for v in node.test.values]
        return node


@reg
class CondTemp(Base):
    """if c: -> t = c; if t:"""

    def visit_If(self, node):
        self.generic_visit(node)
        if not self.infn() or isinstance(node.test, ast.Name):
            return node
        t = self.fresh()
        return [ast.Assign([name(t, ast.Store())], node.test), ast.If(name(t), node.body, node.orelse)]


class ElifSafe(ast.NodeTransformer):
    pass


@reg
class GuardToElse(Base):
    """if c: raise/return X; rest -> if c: raise X else: rest"""

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and body[i + 1:] and \
                    isinstance(s.body[-1], (ast.Raise, ast.Return)):
                return body[:i] + [ast.If(s.test, s.body, self.block(body[i + 1:]))]
        return body

    def visit_FunctionDef(self, node):
        node.body = self.block(node.body)
        return node


@reg
class ElseToGuard(Base):
    """if c: ...return/raise else: B -> if c: ...; B"""

    def visit_If(self, node):
        self.generic_visit(node)
        if self.infn() and node.orelse and isinstance(node.body[-1], (ast.Raise, ast.Return, ast.Continue)):
            return [ast.If(node.test, node.body, [])] + node.orelse
        return node


@reg
class AugPlain(Base):
    """x += e -> x = x + e for names"""

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name) and not isinstance(node.value, (ast.List, ast.ListComp)):
            return ast.Assign([node.target], ast.BinOp(name(node.target.id), node.op, node.value))
        return node


@reg
class IfExpStmt(Base):
    """x = a if c else b -> if c: x = a else: x = b"""

    def visit_Assign(self, node):
        if self.infn() and isinstance(node.value, ast.IfExp) and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name):
            v = node.value
            return ast.If(v.test, [ast.Assign(node.targets, v.body)],
                          [ast.Assign(copy.deepcopy(node.targets), v.orelse)])
        return node

    def visit_Return(self, node):
        if isinstance(node.value, ast.IfExp):
            v = node.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return node


@reg
class IfStmtExp(Base):
    """if c: x = a else: x = b -> x = a if c else b"""

    def visit_If(self, node):
        self.generic_visit(node)
        if self.infn() and len(node.body) == len(node.orelse) == 1:
            a, b = node.body[0], node.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and len(a.targets) == 1:
                return ast.Assign(a.targets, ast.IfExp(node.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(node.test, a.value, b.value))
        return node


def has_ctl(body, kinds):
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While)) and ast.Continue in kinds and ast.Return not in kinds:
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


@reg
class CompToLoop(Base):
    """x = [e for v in it if c] -> explicit loop (assignments and returns)"""

    def loop(self, comp):
        t = self.fresh()
        g = comp.generators[0]
        ren = {}
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                ren[x.id] = self.fresh()
        for part in [g.target, comp.elt] + g.ifs:
            for x in ast.walk(part):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
        body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [comp.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return t, [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())),
                   ast.For(g.target, g.iter, body, [])]

    def find(self, stmt):
        # only comprehensions evaluated first and unconditionally
        e = stmt.value
        if isinstance(e, ast.ListComp) and len(e.generators) == 1:
            t, pre = self.loop(e)
            stmt.value = name(t)
            return pre + [stmt]
        if isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.func, ast.Name) and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                e.func.id in ('tuple', 'list', 'bytes', 'sum', 'set') and len(e.args[0].generators) == 1:
            t, pre = self.loop(e.args[0])
            e.args[0] = name(t)
            return pre + [stmt]
        return [stmt]

    def visit_Assign(self, node):
        return self.find(node) if self.infn() else node

    def visit_Return(self, node):
        return self.find(node) if node.value is not None else node


@reg
class ForToIndex(Base):
    """for x in xs: -> for i in range(len(xs)): x = xs[i], when xs is a plain list expression"""

    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if node.orelse:
            return node
        listy = ('vin', 'vout', 'vtxinwit', 'vtxoutwit', 'input_descriptors')
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' \
                and len(it.args) == 1 and isinstance(node.target, ast.Tuple):
            seq, idx, var = it.args[0], node.target.elts[0], node.target.elts[1]
        else:
            seq, idx, var = it, name(self.fresh(), ast.Store()), node.target
        if not ((isinstance(seq, ast.Attribute) and seq.attr in listy) or
                (isinstance(seq, ast.Name) and seq.id in listy)):
            return node
        ld = copy.deepcopy(idx)
        ld.ctx = ast.Load()
        return ast.For(idx, ast.Call(name('range'), [ast.Call(name('len'), [copy.deepcopy(seq)], [])], []),
                       [ast.Assign([var], ast.Subscript(copy.deepcopy(seq), ld, ast.Load()))] + node.body, [])


@reg
class ForToWhile(Base):
    """for i in range(n): B -> i = 0; while i < n: B; i += 1 (no continue, i not stored)"""

    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if node.orelse or has_ctl(node.body, (ast.Continue,)):
            return node
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range'
                and len(it.args) == 1 and isinstance(node.target, ast.Name)):
            return node
        n = self.fresh()
        i = self.fresh()
        return [ast.Assign([name(n, ast.Store())], it.args[0]),
                ast.Assign([name(i, ast.Store())], ast.Constant(0)),
                ast.While(ast.Compare(name(i), [ast.Lt()], [name(n)]),
                          [ast.Assign([node.target], name(i))] + node.body +
                          [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]


@reg
class LoopContinue(Base):
    """for ..: if c: B (last statement) -> if not c: continue; B"""

    def visit_For(self, node):
        self.generic_visit(node)
        last = node.body[-1]
        if isinstance(last, ast.If) and not last.orelse:
            node.body[-1:] = [ast.If(neg(last.test), [ast.Continue()], [])] + last.body
        return node


@reg
class ContinueNest(Base):
    """if c: continue; rest -> if not c: rest"""

    def visit_For(self, node):
        self.generic_visit(node)

        def f(body):
            for i, s in enumerate(body):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
                        isinstance(s.body[0], ast.Continue) and body[i + 1:]:
                    return body[:i] + [ast.If(neg(s.test), f(body[i + 1:]), [])]
            return body
        node.body = f(node.body)
        return node


@reg
class Noop(Base):
    """a statement that does nothing at the start and end of every function"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        doc = 1 if ast.get_docstring(node) is not None else 0
        node.body.insert(doc, ast.Assign([name('_unused', ast.Store())], ast.Constant(0)))
        if not isinstance(node.body[-1], (ast.Return, ast.Raise)):
            node.body.append(ast.Pass())
        else:
            node.body.insert(len(node.body) - 1, ast.Expr(ast.Constant(None)))
        return node


def exprs_to_consts(tree):
    """integer, bytes and string literals in functions become module constants"""


@reg
class ConstHoist(Base):
    """literals used in functions become module-level constants"""

    def visit_Module(self, node):
        self.c = {}
        self.generic_visit(node)
        i = 0
        while i < len(node.body) and (isinstance(node.body[i], (ast.Import, ast.ImportFrom)) or
                                      isinstance(node.body[i], ast.Expr)):
            i += 1
        node.body[i:i] = [ast.Assign([name(v, ast.Store())], ast.Constant(k[1]))
                          for k, v in self.c.items()]
        return node

    def visit_arguments(self, node):
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Expr(self, node):
        return node if isinstance(node.value, ast.Constant) else self.generic_visit(node)

    def visit_Constant(self, node):
        if not self.infn() or isinstance(node.value, (bool, type(None), type(...))):
            return node
        if not isinstance(node.value, (int, bytes)) or node.value in (0, 1, b''):
            return node
        k = (type(node.value), node.value)
        return name(self.c.setdefault(k, '_K%d' % len(self.c)))


def helpers_first(self, node):
    out = []
    self.new = []
    for s in node.body:
        n = len(self.new)
        s = self.visit(s)
        out += self.new[n:] + [s]
    node.body = out
    return node


@reg
class ExtractTail(Base):
    """the second half of every plain function moves into a module-level helper taking the
    locals it needs"""

    def visit_Module(self, node):
        return helpers_first(self, node)

    def visit_FunctionDef(self, node):
        body = node.body
        if len(body) < 3 or len(self.fn) or \
                any(isinstance(x, (ast.Yield, ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda))
                    for b in body for x in ast.walk(b)):
            return node
        if any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for b in body for x in ast.walk(b)):
            return node
        if ast.unparse(node.decorator_list).find('overload') >= 0 if False else False:
            return node
        cut = max(1, len(body) // 2)
        head, tail = body[:cut], body[cut:]
        if len(tail) < 2 or isinstance(tail[0], (ast.Import, ast.ImportFrom)):
            return node
        if any(isinstance(x, (ast.Import, ast.ImportFrom)) for b in body for x in ast.walk(b)):
            return node
        params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        if node.args.vararg:
            params.append(node.args.vararg.arg)
        if node.args.kwarg:
            params.append(node.args.kwarg.arg)
        # names surely bound by the head: top-level assignments only
        bound = list(params)
        for s in head:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if isinstance(s, ast.AnnAssign) and s.value is None:
                    continue
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            bound.append(x.id)
        maybe = {x.id for s in head for x in ast.walk(s) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, ast.Store)} - set(bound)
        used = [x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)]
        if set(used) & maybe:
            return node
        args = [n for n in dict.fromkeys(bound) if n in used]
        h = '_part_%d_%s' % (len(self.new), node.name.strip('_'))
        if any(isinstance(x, ast.Name) and x.id.startswith('__') for s in tail for x in ast.walk(s)):
            return node
        self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []),
                                        tail, [], None, type_params=[]))
        node.body = head + [ast.Return(ast.Call(name(h), [name(a) for a in args], []))]
        return node


@reg
class ExtractConds(Base):
    """conditions of ifs in functions move into helper functions"""

    def visit_Module(self, node):
        return helpers_first(self, node)

    def visit_If(self, node):
        self.generic_visit(node)
        if not self.fn or not isinstance(node.test, (ast.BoolOp, ast.Compare)):
            return node
        f = self.fn[-1]
        if len(self.fn) > 1 or any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.ListComp, ast.GeneratorExp))
                                   for x in ast.walk(node.test)):
            return node
        loc = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | \
            {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
            {(a.asname or a.name) for x in ast.walk(f) if isinstance(x, ast.ImportFrom) for a in x.names}
        args = list(dict.fromkeys(x.id for x in ast.walk(node.test)
                                  if isinstance(x, ast.Name) and x.id in loc))
        if any(a.startswith('__') for a in args):
            return node
        if any(isinstance(x, ast.Name) and x.id == '__class__' for x in ast.walk(node.test)):
            return node
        h = '_cond_%d' % len(self.new)
        self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []),
                                        [ast.Return(node.test)], [], None, type_params=[]))
        node.test = ast.Call(name(h), [name(a) for a in args], [])
        return node


@reg
class FmtMsgs(Base):
    """messages of exceptions change"""

    def visit_Raise(self, node):
        if isinstance(node.exc, ast.Call) and len(node.exc.args) == 1 and \
                isinstance(node.exc.args[0], ast.Constant) and isinstance(node.exc.args[0].value, str):
            node.exc.args[0] = ast.Constant('error: ' + node.exc.args[0].value)
        return node


@reg
class AttrAlias(Base):
    """tx.wit, tx.vin, tx.vout read through a local alias taken at the start of each loop body"""

    def visit_For(self, node):
        self.generic_visit(node)
        names = {}
        for s in node.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                        x.value.id in ('tx', 'txTo', 'self') and x.attr in ('vin', 'vout', 'wit'):
                    names.setdefault((x.value.id, x.attr), self.fresh())

        class R(ast.NodeTransformer):
            def visit_Attribute(s, x):
                s.generic_visit(x)
                if isinstance(x.value, ast.Name) and (x.value.id, x.attr) in names:
                    return name(names[(x.value.id, x.attr)])
                return x
        node.body = [R().visit(s) for s in node.body]
        node.body[0:0] = [ast.Assign([name(t, ast.Store())], ast.Attribute(name(a), b, ast.Load()))
                          for (a, b), t in names.items()]
        return node


@reg
class LenTruth(Base):
    """len(x) == 0 -> not len(x); len(x) > 0 -> len(x) != 0; x == 0 -> 0 == x"""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.comparators[0], ast.Constant) and \
                node.comparators[0].value == 0 and isinstance(node.left, ast.Call) and \
                isinstance(node.left.func, ast.Name) and node.left.func.id == 'len':
            if isinstance(node.ops[0], ast.Eq):
                return ast.UnaryOp(ast.Not(), node.left)
            if isinstance(node.ops[0], ast.Gt):
                return ast.Compare(node.left, [ast.NotEq()], node.comparators)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            return ast.Compare(node.comparators[0], node.ops, [node.left])
        if len(node.ops) == 1:
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if type(node.ops[0]) in sw and isinstance(node.comparators[0], (ast.Name, ast.Constant)):
                return ast.Compare(node.comparators[0], [sw[type(node.ops[0])]()], [node.left])
        return node


@reg
class ChainSplit(Base):
    """a < b < c -> a < b and b < c for simple operands"""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 2 and isinstance(node.comparators[0], (ast.Name, ast.Call)) and \
                not any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)):
            return ast.BoolOp(ast.And(), [
                ast.Compare(node.left, [node.ops[0]], [node.comparators[0]]),
                ast.Compare(copy.deepcopy(node.comparators[0]), [node.ops[1]], [node.comparators[1]])])
        return node


@reg
class KwToPos(Base):
    """struct.pack result written through a temporary; f.write(a + b) split in two writes"""

    def visit_Expr(self, node):
        v = node.value
        if self.infn() and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                v.func.attr == 'write' and len(v.args) == 1 and isinstance(v.args[0], ast.BinOp) and \
                isinstance(v.args[0].op, ast.Add):
            b = v.args[0]
            return [ast.Expr(ast.Call(v.func, [b.left], [])),
                    ast.Expr(ast.Call(copy.deepcopy(v.func), [b.right], []))]
        return node


def build(name_, dest):
    """-> number of files changed"""
    shutil.copytree('/repo/elementstx', dest + '/elementstx',
                    ignore=shutil.ignore_patterns('__pycache__'))
    ch = 0
    for f in FILES:
        p = '%s/elementstx/%s' % (dest, f)
        src = open(p).read()
        t = ast.parse(src)
        base = ast.unparse(t)
        t = REG[name_]().visit(t)
        ast.fix_missing_locations(t)
        new = ast.unparse(t)
        if new != base:
            ch += 1
        open(p, 'w').write(new + '\n')
    return ch


def main():
    names = [a for a in sys.argv[1:] if a in REG] or list(REG)
    for n in names:
        d = tempfile.mkdtemp(prefix='refactor.', dir='/tmp')
        try:
            ch = build(n, d)
            env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=d)
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                                'elementstx/tests'], cwd=d, env=env, capture_output=True, text=True)
            last = (t.stdout.strip().split('\n') or [''])[-1]
            c = subprocess.run([V + '/tools/all.sh'], env=env, capture_output=True, text=True)
            print('==== %-14s files %d | tests %s | %s' % (n, ch, last, 'QUIET' if not c.stdout.strip() else ''),
                  flush=True)
            if 'failed' in last or 'error' in last:
                print(t.stdout[-1500:])
            if c.stdout.strip():
                print(c.stdout)
            if os.environ.get('KEEP'):
                shutil.copytree(d, '/tmp/keep_' + n, dirs_exist_ok=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
