"""Run the data-flow pass on one entry point and collect what it does:
abort conditions, result, events, attribute stores, output streams."""
import ast
from .terms import (T, C, TRUE, FALSE, NONE, UNDEF, Term, Node, is_const, cval, apply, ite,
                    b_and, b_or, b_not, bvar, leaf_terms, leaves, constrain, subterms)
from . import values as V
from .values import EMPTY, mk_exists, free_idx, norm_bool, kind
from .interp import Interp, MEM0, St
from .loader import AnalysisBroken


class Summary:
    pass


KINDS = {'int', 'bytes', 'str', 'bool', 'list', 'tuple', 'stream', 'obj', 'cls',
         'list?', 'int?', 'bytes?', 'obj?', 'none'}


def find(world, qual):
    """'mod:func' or 'mod:Class.method' -> (Module, ClassInfo|None, FunctionDef)"""
    mn, _, rest = qual.partition(':')
    m = world.module(mn)
    if m is None:
        raise AnalysisBroken('module %s not found' % mn)
    if '.' in rest:
        cn, fn = rest.split('.')
        r = world.resolve(mn, cn)
        if r is None or r[0] != 'class':
            raise AnalysisBroken('class %s not found in %s' % (cn, mn))
        x = world.lookup(r[1], fn)
        if x is not None and isinstance(x[1], ast.Assign) and isinstance(x[1].value, ast.Name):
            # name = other_function
            n = x[1].value.id
            if n in x[0].members and isinstance(x[0].members[n][-1], ast.FunctionDef):
                x = x[0], x[0].members[n][-1]
            else:
                f = world.resolve(x[0].mod.name, n)
                if f is not None and f[0] == 'func':
                    return f[1], x[0], f[2]
        if x is None or not isinstance(x[1], ast.FunctionDef):
            return (m, r[1], None)
        owner, node = x
        return owner.mod, owner, node
    r = world.resolve(mn, rest)
    if r is None or r[0] != 'func':
        raise AnalysisBroken('function %s not found in %s' % (rest, mn))
    return r[1], None, r[2]


def ann_kind(a):
    if a is None:
        return None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value
    return None


def spec_kinds(node):
    a = node.args
    return {x.arg: ann_kind(x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs}


def mk_param(name, k):
    if k is None or k == '?':
        return T('param', name)
    if k.endswith('!'):
        k = k[:-1]
        return T('param', name, k if k in KINDS else None, 'nonnull')
    if k == 'bool':
        return bvar(T('param', name, 'bool'))
    return T('param', name, k)


def analyse(world, qual, kinds, self_class=None, opaque=(), fixed=False, consts=None, setup=None,
            varkw=None, before=None):
    """kinds: param name -> kind (from the reference model)"""
    mod, owner, node = find(world, qual)
    if node is None:
        raise AnalysisBroken('%s not found' % qual)
    it = Interp(world, opaque)
    it.fixed_cls = fixed
    ci = None
    if self_class:
        mn, _, cn = self_class.partition(':')
        r = world.resolve(mn, cn)
        if r is None or r[0] != 'class':
            raise AnalysisBroken('class %s not found' % self_class)
        ci = r[1]
    a = node.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    vals = {}
    selfv = None
    is_cm = it.has_deco(node, 'classmethod')
    is_sm = it.has_deco(node, 'staticmethod')
    first = params[0] if params else None
    for i, p in enumerate(params):
        if i == 0 and ci is not None and not is_sm and (owner is not None or is_cm or first in ('self', 'cls')):
            if is_cm or first == 'cls':
                selfv = it.the_cls
            else:
                selfv = T('param', 'self')
            it.self_cls[selfv.id] = ci
            it.self_cls[it.the_cls.id] = ci
            vals[p] = selfv
            continue
        vals[p] = (consts or {}).get(p) if consts and p in consts else mk_param(p, kinds.get(p))
    if a.vararg:
        vals[a.vararg.arg] = T('param', a.vararg.arg, 'tuple')
    if a.kwarg:
        vals[a.kwarg.arg] = T('param', '**kwargs')
    f = it.new_frame(mod, node, owner if owner is not None else ci, selfv, None)
    f.selfv = selfv
    f.is_entry = True
    it.frames.append(f)
    for q in sorted(world.memos()):
        it.memo[q] = it.addr('memo', (before or {}).get(q, T('memo')))
    for p, v in vals.items():
        if type(v) is Term and v.op == 'sharedstate' and '%s#%s' % v.args in it.memo:
            vals[p] = it.memo['%s#%s' % v.args]
    for k, v in vals.items():
        it.st.d[('v', f.fid, k)] = v
    if setup:
        setup(it)
    it.funcs_seen[mod.name + '.' + (owner.node.name + '.' if owner is not None else '') +
                  node.name] = (mod.path, node.lineno)
    it.exec_block(node.body)
    if it.st.pc is not FALSE:
        f.returns.append((it.st.pc, NONE, it.st))
    s = Summary()
    s.qual = qual
    s.it = it
    s.node = node
    s.mod = mod
    s.params = params
    s.fid = f.fid
    if f.returns:
        st, v = it.merge_outs(f.returns, TRUE)
        it.st = st
    else:
        st, v = St({}, FALSE), UNDEF
    s.pc = st.pc
    s.memo = {q: st.d[('h', a.id)] for q, a in it.memo.items() if ('h', a.id) in st.d}
    s.frames_mod = mod
    s.obs = {}
    s.obs['returns'] = it.deref(v) if st.pc is not FALSE else UNDEF
    for k, val in sorted(st.d.items(), key=lambda p: str(p[0])):
        if k[0] == 'm':
            s.obs['stores to .%s' % k[1]] = it.deref(val)
        elif k[0] == 'ev':
            s.obs['effects'] = it.deref(val)
        elif k[0] == 'g' and '#' not in k[1]:
            s.obs['global %s' % k[1]] = it.deref(val)
        elif k[0] == 'h':
            ad = it.addr_terms.get(k[1])
            if ad is not None and ad.op != 'addr':
                if val is ad:
                    continue
                s.obs['contents of %r' % ad] = it.deref(val)
    if s.obs.get('effects') is EMPTY['l']:
        del s.obs['effects']
    # aborts
    s.aborts = it.aborts
    s.byclass = {}
    s.rawclass = {}
    s.cleanups = {}
    before = FALSE
    union = {}
    classes = {}
    for ab in it.aborts:
        union.setdefault(ab.chain, []).append(ab.guard)
        classes.setdefault((ab.cls, ab.chain), []).append(ab.guard)
        g = lift_chain(ab.guard, ab.chain)
        raw = constrain(ab.guard, b_not(before))
        s.rawclass[ab.cls] = b_or(s.rawclass.get(ab.cls, FALSE), lift_chain(raw, ab.chain))
        before = b_or(before, g)
    # conditions met in loops over the same range are one condition
    for (cls, chain), gs in classes.items():
        s.byclass[cls] = b_or(s.byclass.get(cls, FALSE), lift_chain(b_or(*gs), chain))
    before = FALSE
    for chain, gs in union.items():
        before = b_or(before, lift_chain(b_or(*gs), chain))
    s.U = before
    # effects that have taken place when the function gives up, cleanup of finally blocks included
    ev = EMPTY['l']
    for ab in reversed(it.aborts):
        if ab.chain:
            continue
        done = ab.state.d.get(('ev',), EMPTY['l'])
        parts = [done]
        for b, a in ab.cleanup:
            parts.append(tail_of(b, a))
        ev = ite(ab.guard, apply(lambda *ps: releases(ps), *parts), ev)
    s.failing = ev
    it.frames.pop()
    s.notes = list(it.notes)
    return s


def releases(parts):
    return T('seq', 'l', *[x for p in parts for x in (p.args[1:] if p.op == 'seq' else ())
                           if x.op == 'el' and x.args[0].op == 'ffido'])


def tail_of(before, after):
    """what was appended"""
    def f(b, a):
        if a.op == 'seq' and b.op == 'seq' and a.args[:len(b.args)] == b.args:
            return T('seq', 'l', *a.args[len(b.args):])
        return T('appended', b, a)
    return apply(f, before, after)


def lift_chain(g, chain):
    for idx in reversed(chain):
        g = mk_exists(idx.args[0], g)
    return g
