"""Facts about classes and module constants, decided by abstract evaluation of class
bodies and module-level statements (never by text): the value a class attribute has
through the MRO, which classes a class derives from, which virtual subclasses are
registered, which metaclass keywords a class is created with, where a method comes from."""
import ast
from .interp import Interp
from .loader import AnalysisBroken, ClassInfo
from .terms import T, C, Term, is_const, cval, show
from .engine_check import Result


class TableOb:
    helper = False

    def __init__(self, key, facts):
        self.key = key
        self.facts = facts


def cls_of(world, q):
    mn, _, cn = q.partition(':')
    if world.module(mn) is None:
        raise AnalysisBroken('module %s not found' % mn)
    r = world.resolve(mn, cn)
    if r is None or r[0] != 'class':
        raise AnalysisBroken('class %s not found in %s' % (cn, mn))
    return r[1]


def lit(v):
    """literal of a value term, or a description"""
    if isinstance(v, Term):
        if is_const(v):
            return cval(v)
        if v.op == 'ref':
            return 'ref:' + v.args[0]
        if v.op == 'seq' and v.args[0] in 'lt':
            out = []
            for it in v.args[1:]:
                if it.op != 'el':
                    return ('?', show(v, 6))
                out.append(lit(it.args[0]))
            return tuple(out)
        if v.op in ('new', 'call') and isinstance(v.args[0], Term) and v.args[0].op == 'ref':
            return (v.args[0].args[0].rpartition('.')[2],) + tuple(lit(x) for _, x in v.args[1])
        if v.op == 'thasher':
            return ('tagged', lit(v.args[0]))
    return ('?', show(v, 6) if v is not None else 'missing')


def keyword_value(world, it, ci, name):
    for k in ci.node.keywords:
        if k.arg == name:
            return lit(it.default_value(ci.mod, k.value, name, None, ci.node)
                       if not isinstance(k.value, (ast.List,)) else
                       it.default_value(ci.mod, ast.Tuple(elts=k.value.elts, ctx=ast.Load()),
                                        name, None, ci.node))
    return None


def metaclass_of(world, ci):
    for c in world.mro(ci):
        for k in c.node.keywords:
            if k.arg == 'metaclass':
                r = world.resolve_expr_class(c.mod, k.value)
                return r.qual if isinstance(r, ClassInfo) else str(r)
    return None


def registrations(world, modname):
    """X.register(Y) statements executed when the module is loaded"""
    m = world.module(modname)
    out = set()
    odd = []

    def value(e, env):
        r = world.resolve_expr_class(m, e)
        return r.qual if isinstance(r, ClassInfo) else None

    def run(body, env):
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'register' \
                    and len(s.value.args) == 1:
                a, b = sub(s.value.func.value, env), sub(s.value.args[0], env)
                qa, qb = value(a, env), value(b, env)
                if qa and qb:
                    out.add((qa, qb))
                else:
                    odd.append(s.lineno)
            elif isinstance(s, ast.For) and not s.orelse:
                it = s.iter
                if isinstance(it, ast.Name) and it.id in m.bind and len(m.bind[it.id]) == 1 and \
                        isinstance(m.bind[it.id][0], ast.Assign):
                    it = m.bind[it.id][0].value
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and \
                        it.func.attr == 'items' and isinstance(it.func.value, (ast.Dict, ast.Name)):
                    d = it.func.value
                    if isinstance(d, ast.Name) and d.id in m.bind and len(m.bind[d.id]) == 1:
                        d = getattr(m.bind[d.id][0], 'value', None)
                    it = ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                        for k, v in zip(d.keys, d.values)], ctx=ast.Load()) \
                        if isinstance(d, ast.Dict) else it
                if isinstance(it, (ast.Tuple, ast.List)):
                    for x in it.elts:
                        e2 = dict(env)
                        if isinstance(s.target, ast.Name):
                            e2[s.target.id] = x
                        elif isinstance(s.target, ast.Tuple) and isinstance(
                                x, (ast.Tuple, ast.List)) and len(x.elts) == len(s.target.elts):
                            for t, y in zip(s.target.elts, x.elts):
                                e2[t.id] = y
                        run(s.body, e2)
                elif any(isinstance(n, ast.Attribute) and n.attr == 'register'
                         for n in ast.walk(s)):
                    odd.append(s.lineno)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                run(s.body, env)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Name) and s.value.func.id in m.bind:
                fn = m.bind[s.value.func.id][-1]
                if isinstance(fn, ast.FunctionDef) and len(fn.args.args) == len(s.value.args):
                    e2 = {a.arg: sub(v, env) for a, v in zip(fn.args.args, s.value.args)}
                    run(fn.body, e2)
            elif isinstance(s, ast.ClassDef):
                # @X.register decorator
                for d in s.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == 'register':
                        qa = value(d.value, env)
                        if qa:
                            out.add((qa, m.name + '.' + s.name))

    def sub(e, env):
        # X.attr of a class: evaluate a class attribute naming a class
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = env.get(e.value.id, e.value)
            r = world.resolve_expr_class(m, b)
            if isinstance(r, ClassInfo):
                v = Interp(world).class_attr(r, e.attr)
                if isinstance(v, Term) and v.op == 'ref':
                    return ast.parse(v.args[0].rpartition('.')[2], mode='eval').body
        return e

    run(m.tree.body, {})
    return out, odd


def decide_table(world, ob):
    res = Result(ob)
    it = Interp(world)
    msgs, und = [], []
    n = 0
    for f in ob.facts:
        n += 1
        k = f[0]
        if k == 'const':
            _, mod, name, want = f
            if world.resolve(mod, name) is None:
                raise AnalysisBroken('%s.%s not found' % (mod, name))
            got = lit(it.module_value(mod, name))
            check(got, want, '%s.%s' % (mod, name), msgs, und)
        elif k == 'attr':
            _, cq, name, want = f
            ci = cls_of(world, cq)
            v = it.class_attr(ci, name)
            if v is None:
                r = world.lookup(ci, name)
                if r is None:
                    msgs.append('%s has no class attribute %s, expected %r' % (cq, name, want))
                elif not world.is_repo(r[0].mod.name):
                    if want != 'lib:' + r[0].qual:
                        msgs.append('%s.%s is inherited from %s, expected %r' % (
                            cq, name, r[0].qual, want))
                else:
                    und.append('%s.%s is not a constant' % (cq, name))
                continue
            check(lit(v), want, '%s.%s' % (cq, name), msgs, und)
        elif k == 'isa':
            _, cq, others, want = f
            ci = cls_of(world, cq)
            have = {c.qual for c in world.mro(ci)} | set(world.ext_bases(ci))
            got = {o for o in others if o in have}
            for x in sorted(set(want) - got):
                msgs.append('%s does not derive from %s' % (cq, x))
            for x in sorted(got - set(want)):
                msgs.append('%s derives from %s' % (cq, x))
        elif k == 'registered':
            _, mod, want = f
            got, odd = registrations(world, mod)
            for a, b in sorted(set(want) - got):
                (und if odd else msgs).append('%s is not registered as a subclass of %s' % (b, a))
            for a, b in sorted(got - set(want)):
                msgs.append('%s is registered as a subclass of %s' % (b, a))
        elif k == 'metaclass':
            _, cq, want = f
            got = metaclass_of(world, cls_of(world, cq))
            if got != want:
                msgs.append('metaclass of %s is %s, expected %s' % (cq, got, want))
        elif k == 'keyword':
            _, cq, name, want = f
            got = keyword_value(world, it, cls_of(world, cq), name)
            check(got, want, 'class keyword %s of %s' % (name, cq), msgs, und)
        elif k == 'comes_from':
            _, cq, name, want = f
            ci = cls_of(world, cq)
            r = world.lookup(ci, name)
            got = r[0].qual if r else None
            if got != want:
                if got is not None and world.is_repo(r[0].mod.name):
                    und.append('%s.%s is defined by %s' % (cq, name, got))
                else:
                    msgs.append('%s.%s comes from %s, expected %s' % (cq, name, got, want))
        elif k == 'fields':
            _, cq, want = f
            mod, _, name = cq.partition(':')
            r = world.resolve(mod, name)
            if r is None:
                raise AnalysisBroken('%s not found' % cq)
            from . import libmodel
            got = libmodel.named_fields(it, r[1]) if r[0] == 'class' else \
                libmodel.functional_fields(it, cq.replace(':', '.'))
            if got is None:
                odd = r[0] != 'class' or any(
                    b not in ('abc.ABC', 'object') for b in world.ext_bases(r[1]))
                (und if odd else msgs).append('%s is not a named tuple' % cq)
            elif tuple(got) != tuple(want):
                msgs.append('fields of %s are %s, expected %s' % (cq, ', '.join(got), ', '.join(want)))
        elif k == 'distinct_ops':
            _, mod, prefix = f
            seen = {}
            for name in sorted(world.module(mod).bind):
                if not name.startswith(prefix):
                    continue
                v = lit(it.module_value(mod, name))
                if isinstance(v, tuple) and len(v) == 2 and v[0] == 'CScriptOp':
                    n += 1
                    if v[1] in seen:
                        msgs.append('opcodes %s and %s have the same value %#x' % (
                            seen[v[1]], name, v[1]))
                    seen[v[1]] = name
        elif k == 'custom':
            for kind, m in f[1](world, it):
                n += 1
                if kind == 'bad':
                    msgs.append(m)
                elif kind == 'und':
                    und.append(m)
        else:
            raise ValueError(k)
    res.stats = {'facts': n}
    if msgs:
        res.status, res.msgs = 'violation', msgs
    elif und:
        res.status, res.msgs = 'undecided', und
    return res


def check(got, want, what, msgs, und):
    if got == want and type(got) is type(want):
        return
    if isinstance(got, tuple) and got and got[0] == '?':
        und.append('%s is %s' % (what, got[1]))
        return
    msgs.append('%s is %r, expected %r' % (what, got, want))
