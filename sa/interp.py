"""Gated value-graph construction: a forward dataflow pass over the syntax tree
of a function and everything it calls inside the repository.  States are merged
at every join (nothing is enumerated path by path, nothing is executed, no
solver is asked); loops are summarised by closed forms or by canonical
recurrences."""
import ast
import builtins
from .terms import (T, C, TRUE, FALSE, NONE, UNDEF, Term, Node, is_const, cval, apply, ite,
                    b_and, b_or, b_not, bvar, leaf_terms, leaves, constrain, TooBig,
                    contains, subterms, support, mk_node)
from . import values as V
from .values import (kind, norm_bool, truth, eq, lt, le, mkseq, items_of, concat, EMPTY,
                     length, mk_index, mk_slice, idx_of, subst, mentions_idx, mk_exists,
                     free_idx, SEQK, icval, as_int, nonnull)
from .loader import ClassInfo, Module, AnalysisBroken
from . import libmodel as LM

MEM0 = T('mem0')
MISSING = object()
NF = ('nf',)      # number of random values drawn so far, along each path


class Abort:
    __slots__ = ('chain', 'guard', 'cls', 'loc', 'cleanup', 'seq', 'state', 'implicit', 'depth')


class St:
    __slots__ = ('d', 'pc')

    def __init__(self, d, pc):
        self.d = d
        self.pc = pc

    def copy(self):
        return St(dict(self.d), self.pc)


class Frame:
    def __init__(self, fid, mod, func, cls, selfv, parent):
        self.fid = fid
        self.mod = mod
        self.func = func
        self.cls = cls
        self.selfv = selfv
        self.parent = parent
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.locals = None
        self.is_entry = False


class Bound(tuple):
    """bound arguments of a call which is not inlined"""
    dfl = None
    cache = {}

    @classmethod
    def defaults(cls, it, node):
        r = cls.cache.get(id(node))
        if r is not None and r[0] is node:
            return r[1]
        a = node.args
        ps = a.posonlyargs + a.args
        d = {}
        mod = getattr(node, '_module', None)
        cls.cache[id(node)] = (node, d)
        notes = list(it.notes)
        for x, dn in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + \
                [(x, dn) for x, dn in zip(a.kwonlyargs, a.kw_defaults) if dn is not None]:
            if isinstance(dn, ast.Constant):
                d[x.arg] = C(dn.value)
            elif mod is not None and not isinstance(dn, (ast.List, ast.Dict, ast.Set)):
                d[x.arg] = it.default_value(mod, dn, x.arg, None, node)
        it.notes[:] = notes
        return d


def assigned_names(body):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            tgt(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return out


MODULE_NAMES = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__'}


class Interp:
    MAXDEPTH = 40

    alias = {}

    follow = frozenset()        # library methods that are analysed when called by super()

    def __init__(self, world, opaque=()):
        self.w = world
        self.opaque = set(opaque)       # qualified functions kept opaque
        self.st = St({}, TRUE)
        self.aborts = []
        self.chain = ()
        self.frames = []
        self.nfid = 0
        self.naddr = 0
        self.nseq = 0
        self.nfstack = []       # draws of random values before each enclosing loop
        self.nuid = 0
        self.tries = []
        self.notes = []
        self.loc = {}
        self.modcache = {}
        self.memo = {}
        self.modstack = set()
        self.funcs_seen = {}
        self.calls_seen = 0
        self.loops_seen = 0
        self.joins_seen = 0
        self.asserts = []
        self.self_cls = {}          # id of term -> ClassInfo (self / cls params)
        self.ffi_sites = []
        self.cur_node = None
        self.mut_log = []

    # -------------------------------------------------------------- utilities

    def note(self, msg, node=None):
        if self.st.pc is FALSE:
            return          # unreachable
        self.notes.append((msg, self.where(node)))

    def where(self, node=None):
        node = node if node is not None else self.cur_node
        f = self.frames[-1] if self.frames else None
        path = f.mod.path if f else '?'
        fn = getattr(f.func, 'name', '<module>') if f and f.func is not None else '<module>'
        return (path, getattr(node, 'lineno', 0), fn)

    def unknown(self, what, node=None):
        self.note(what, node)
        return T('unknown', what)

    def mark(self, v, node):
        w = None
        for l in leaf_terms(v):
            if l.id not in self.loc:
                w = w or self.where(node)
                self.loc[l.id] = w
        return v

    def addr(self, knd, content, tag=None):
        self.naddr += 1
        a = T('addr', self.naddr, knd)
        self.st.d[('h', a.id)] = content
        self.addr_terms[a.id] = a
        return a

    def new_list(self, v):
        """a fresh list with the given content: one object, also when the content
        depends on a condition"""
        if all(kind(l) == 'list' for l in leaf_terms(v)):
            return self.addr('list', v)
        return self.split(v, lambda l: self.addr('list', l))

    addr_terms = {}

    def content(self, a):
        k = ('h', a.id)
        if k in self.st.d:
            return self.st.d[k]
        return a            # external object: contents are its own name

    def setcontent(self, a, v):
        self.addr_terms[a.id] = a
        self.st.d[('h', a.id)] = v

    def default(self, k, other):
        if k[0] == 'v':
            return UNDEF
        if k[0] == 'h':
            a = self.addr_terms.get(k[1])
            if a is not None and a.op != 'addr':
                if a.op == 'param' and a.args[1:2] == ('stream',):
                    return T('stream0', a)
                return a
            return other
        if k[0] == 'm':
            return MEM0
        if k[0] == 'ev':
            return EMPTY['l']
        if k[0] == 'nf':
            return C(0)
        if k[0] == 'g':
            if '#' in k[1]:
                return C(0)
            return T('global', k[1])
        return UNDEF

    def merge(self, c, a, b):
        if a.pc is FALSE:
            return b
        if b.pc is FALSE:
            return a
        self.joins_seen += 1
        pc = b_or(a.pc, b.pc)
        if a.d is b.d:
            return St(a.d, pc)
        d = dict(a.d)
        for k, vb in b.d.items():
            va = d.get(k, MISSING)
            if va is vb:
                continue
            if va is MISSING:
                va = self.default(k, vb)
            d[k] = self.gate(c, va, vb)
        for k, va in a.d.items():
            if k not in b.d:
                vb = self.default(k, va)
                if vb is not va:
                    d[k] = self.gate(c, va, vb)
        return St(d, pc)

    def gate(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        try:
            return ite(c, a, b)
        except TooBig:
            return self.unknown('value too large at join')

    def branch(self, c, fa, fb):
        """run fa under c, fb under not c; returns gated result"""
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        base = self.st
        pa = b_and(base.pc, c)
        pb = b_and(base.pc, b_not(c))
        if pa is FALSE:
            return fb()
        if pb is FALSE:
            return fa()
        sa = St(dict(base.d), pa)
        self.st = sa
        ra = fa()
        sa = self.st
        self.st = St(dict(base.d), pb)
        rb = fb()
        sb = self.st
        self.st = self.merge(c, sa, sb)
        if ra is None and rb is None:
            return None
        ra = UNDEF if ra is None or sa.pc is FALSE else ra
        rb = UNDEF if rb is None or sb.pc is FALSE else rb
        return self.gate(c, ra, rb)

    def split(self, v, fn):
        """run fn(leaf) for every leaf of v in its own gated state"""
        if type(v) is not Node:
            return fn(v)
        v = constrain(v, self.st.pc)
        if type(v) is not Node:
            return fn(v)
        ls = leaves(v)

        def go(i):
            l, g = ls[i]
            if i == len(ls) - 1:
                return fn(l)
            return self.branch(g, lambda: fn(l), lambda: go(i + 1))
        return go(0)

    def splitn(self, vs, fn):
        """split over several values"""
        def go(i, acc):
            if i == len(vs):
                return fn(acc)
            return self.split(vs[i], lambda l: go(i + 1, acc + [l]))
        return go(0, [])

    def deref(self, v, depth=8):
        if type(v) is Node:
            return apply(lambda l: self.deref(l, depth), v)
        if isinstance(v, tuple):
            return v
        if not isinstance(v, Term) or depth <= 0:
            return v
        if v.op == 'addr' or ('h', v.id) in self.st.d:
            c = self.st.d.get(('h', v.id))
            if c is None:
                return v
            if v.op == 'addr' and v.args[1] == 'dict':
                return self.deref_dict(c, depth)
            if v.op == 'addr' and v.args[1] == 'hash':
                return apply(lambda l: T('hashobj', l), c)
            if c is v:
                return v
            return self.deref(c, depth - 1)
        if v.op in ('const', 'param', 'ref', 'idx', 'attr', 'car', 'mu', 'fold', 'new'):
            return v
        if v.op == 'seq' and v.args[0] in 'lt':
            if not any(i.op == 'el' and self.has_addr(i.args[0]) for i in v.args[1:]):
                return v
            parts = []
            for i in v.args[1:]:
                if i.op == 'el':
                    parts.append(self.deref(i.args[0], depth - 1))
                else:
                    parts.append(i)
            fl = [p for p in parts]

            def f(*ls):
                out = []
                for it, l in zip(v.args[1:], ls):
                    out.append(T('el', l) if it.op == 'el' else it)
                return mkseq(v.args[0], out)
            return apply(f, *fl)
        if self.has_addr(v):
            m = {}
            for x in subterms(v):
                if type(x) is Term and x.op == 'addr' and ('h', x.id) in self.st.d:
                    m[x.id] = self.deref(x, depth - 1)
            if m:
                return subst(v, m)
        return v

    def truth(self, v):
        """truth value; that of a live list or dict is whether it has contents"""
        def f(l):
            if l.op == 'addr' and ('h', l.id) in self.st.d:
                c = self.content(l)
                if l.args[1] == 'dict':
                    return V.lt(C(0), self.iter_dict(c, 'k')[0])
                if l.args[1] in ('list', 'bytearray') and c is not l:
                    return self.truth(c)
                return TRUE
            return truth(l)
        return apply(f, v)

    def deref_dict(self, c, depth):
        return c

    def has_addr(self, v):
        return any(type(x) is Term and x.op == 'addr' for x in subterms(v))

    def event(self, term):
        k = ('ev',)
        cur = self.st.d.get(k, EMPTY['l'])
        self.st.d[k] = apply(lambda s, t: concat('l', [s, mkseq('l', [T('el', t)])]), cur, term)

    # -------------------------------------------------------------- aborts

    def abort(self, cls, node=None, implicit=False):
        a = Abort()
        a.chain = self.chain
        a.guard = self.st.pc
        a.cls = cls
        a.loc = self.where(node)
        a.cleanup = []
        self.nseq += 1
        a.seq = self.nseq
        a.implicit = implicit
        a.state = self.st.copy()
        a.depth = len(self.frames)
        # innermost try that handles it
        for t in reversed(self.tries):
            if t['kind'] == 'finally':
                t['aborts'].append(a)
                continue
            h = self.match_handler(t, cls)
            if h is not None:
                t['caught'].append((a, h))
                self.st = St(self.st.d, FALSE)
                return
        self.aborts.append(a)
        self.st = St(self.st.d, FALSE)

    def abort_if(self, c, cls, node=None):
        if c is FALSE:
            return
        self.branch(c, lambda: self.abort(cls, node), lambda: None)

    def match_handler(self, t, cls):
        for i, names in enumerate(t['handlers']):
            if names is None:
                return i
            for nm in names:
                if self.exc_sub(cls, nm):
                    return i
        return None

    def exc_sub(self, cls, sup):
        if cls == sup or sup in ('builtins.Exception', 'builtins.BaseException'):
            return True
        r = self.find_class(cls)
        if r is not None:
            return self.w.is_subclass(r, sup)
        H = {'builtins.KeyError': ['builtins.LookupError'],
             'builtins.IndexError': ['builtins.LookupError'],
             'builtins.UnicodeDecodeError': ['builtins.ValueError'],
             'struct.error': []}
        return sup in H.get(cls, [])

    def find_class(self, qual):
        m, _, n = qual.rpartition('.')
        if not m:
            return None
        r = self.w.resolve(m, n)
        return r[1] if r is not None and r[0] == 'class' else None

    # -------------------------------------------------------------- names

    def lookup(self, name, node=None):
        f = self.frames[-1]
        g = f
        if name not in f.globals:
            while g is not None:
                k = ('v', g.fid, name)
                if name not in g.nonlocals and (g.locals is None or name in g.locals):
                    if k in self.st.d:
                        return self.st.d[k]
                    if g.locals is not None and name in g.locals:
                        return UNDEF
                g = g.parent
        gk = ('g', f.mod.name + '.' + name)
        if gk in self.st.d:
            return self.st.d[gk]
        return self.module_value(f.mod.name, name)

    def setvar(self, name, v):
        f = self.frames[-1]
        if name in f.globals:
            self.st.d[('g', f.mod.name + '.' + name)] = v
            return
        g = f
        if name in f.nonlocals:
            g = f.parent
            while g is not None and not (g.locals is not None and name in g.locals):
                g = g.parent
            g = g or f
        self.st.d[('v', g.fid, name)] = v

    def mutable_globals(self, m):
        r = getattr(m, '_mutglobals', None)
        if r is None:
            r = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    r.update(n.names)
            m._mutglobals = r
        return r

    def module_value(self, modname, name):
        key = (modname, name)
        if key in self.modcache:
            return self.modcache[key]
        r = self.w.resolve(modname, name)
        v = self._module_value(r, modname, name)
        self.modcache[key] = v
        return v

    def _module_value(self, r, modname, name):
        if r is None:
            return T('ref', 'builtins.' + name)
        if r[0] == 'func':
            return T('ref', r[1].name + '.' + r[2].name)
        if r[0] == 'class':
            return T('ref', r[1].qual)
        if r[0] == 'module':
            return T('ref', r[1])
        if r[0] == 'ext':
            return T('ref', r[1])
        mod, nodes = r[1], r[2]
        last = nodes[-1]
        nm = name
        # the name as bound in its own module
        for s in nodes:
            pass
        real = self._bound_name(mod, last, name, modname)
        q = mod.name + '.' + real
        if not self.w.is_repo(mod.name):
            return T('ref', q)
        if q in self.memo:
            return self.memo[q]
        if real in self.mutable_globals(mod):
            return T('global', q)
        if LM.functional_fields(self, q) is not None:
            return T('ref', q)
        if q in self.w.state_vars():
            return T('global', q)
        if q in self.modstack:
            return T('ref', q)
        self.modstack.add(q)
        try:
            return self.eval_module_assign(mod, nodes, real)
        finally:
            self.modstack.discard(q)

    def _bound_name(self, mod, node, name, modname):
        if mod.name == modname:
            return name
        # follow the import chain to find the original name
        m = self.w.module(modname)
        seen = 0
        cur = name
        while m is not None and m is not mod and seen < 10:
            imp = m.imports.get(cur)
            if imp and imp[0] == 'from':
                cur = imp[2]
                m = self.w.module(imp[1])
            else:
                nxt = None
                for st in m.star:
                    rr = self.w.resolve(st, cur)
                    if rr is not None:
                        nxt = self.w.module(st)
                        break
                m = nxt
            seen += 1
        return cur

    def eval_module_assign(self, mod, nodes, name):
        saved = (self.st, self.frames, self.tries, self.chain)
        self.st = St({}, TRUE)
        self.tries = []
        self.chain = ()
        fr = self.new_frame(mod, None, None, None, None)
        self.frames = [fr]
        na = len(self.aborts)
        try:
            for s in nodes:
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    self.exec_stmt(s)
                elif isinstance(s, (ast.For, ast.With, ast.If, ast.Try)):
                    self.exec_stmt(s)
            v = self.st.d.get(('v', fr.fid, name), UNDEF)
            v = self.freeze(v)
        finally:
            self.st, self.frames, self.tries, self.chain = saved
            del self.aborts[na:]
        return v

    def freeze(self, v):
        """module-level containers become pure values"""
        return self.deref(v)

    def new_frame(self, mod, func, cls, selfv, parent):
        self.nfid += 1
        f = Frame(self.nfid, mod, func, cls, selfv, parent)
        if func is not None:
            body = func.body if isinstance(func.body, list) else []
            f.locals = assigned_names(body)
            for n in self.walk_own(body):
                if isinstance(n, ast.Global):
                    f.globals.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    f.nonlocals.update(n.names)
            f.locals -= f.globals
            f.locals -= f.nonlocals
            a = func.args
            for x in a.args + a.kwonlyargs + a.posonlyargs:
                f.locals.add(x.arg)
            if a.vararg:
                f.locals.add(a.vararg.arg)
            if a.kwarg:
                f.locals.add(a.kwarg.arg)
        return f

    def walk_own(self, body):
        stack = list(body)
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))

    # -------------------------------------------------------------- statements

    def exec_block(self, body):
        for s in body:
            if self.st.pc is FALSE:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.cur_node = s
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.unknown('statement ' + type(s).__name__, s)
            return
        m(s)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            if a.asname:
                self.setvar(a.asname, T('ref', a.name))
            else:
                self.setvar(a.name.split('.')[0], T('ref', a.name.split('.')[0]))

    def x_ImportFrom(self, s):
        base = s.module or ''
        if s.level:
            m = self.frames[-1].mod
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if self.w.module(base) is not None:
                v = self.module_value(base, a.name)
            else:
                v = T('ref', base + '.' + a.name)
            self.setvar(a.asname or a.name, v)

    def x_Global(self, s):
        pass

    x_Nonlocal = x_Global

    def x_ClassDef(self, s):
        self.setvar(s.name, self.unknown('local class', s))

    def x_FunctionDef(self, s):
        f = self.frames[-1]
        if f.func is None:
            self.setvar(s.name, T('ref', f.mod.name + '.' + s.name))
            return
        self.nuid += 1
        t = T('closure', s.name, self.nuid)
        self.closures[t.id] = (s, f)
        for d in s.decorator_list:
            self.unknown('decorated local function', d)
        self.setvar(s.name, t)

    closures = {}

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value)
        for l in leaf_terms(v):
            if l.op in ('call', 'mcall', 'ret', 'new') and not LM.is_pure_call(l):
                pass
        # a discarded result: the call is there for its effect
        def ef(l):
            if l.op in ('call', 'mcall') and not LM.is_pure_call(l):
                self.event(T('do', l))
            elif l.op == 'ret' and LM.ffi_effect(l):
                pass
            return NONE
        if any(l.op in ('call', 'mcall') for l in leaf_terms(v)):
            self.split(v, ef)

    def x_Assert(self, s):
        v = self.truth(self.pure_ev(s.test))
        self.asserts.append((self.chain, b_and(self.st.pc, b_not(v)), self.where(s)))
        if self.st.pc is not FALSE and b_and(self.st.pc, v) is FALSE:
            self.abort('builtins.AssertionError', s)    # fails whenever it is reached

    def pure_ev(self, e):
        saved = self.st.copy()
        na = len(self.aborts)
        v = self.ev(e)
        del self.aborts[na:]
        self.st = saved
        return v

    def x_Assign(self, s):
        v = self.ev(s.value)
        if self.st.pc is FALSE:
            return
        for t in s.targets:
            self.assign(t, v, s)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def x_AugAssign(self, s):
        t = s.target
        rhs_first = None
        if isinstance(t, ast.Name):
            cur = self.e_Name(t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            cur = self.getitem(o, i, t)
        else:
            self.unknown('augassign', s)
            return
        r = self.ev(s.value)
        if isinstance(s.op, ast.Add):
            lst = [l for l in leaf_terms(cur) if l.op == 'addr' and l.args[1] in ('list', 'bytearray')]
            if lst:
                self.split(cur, lambda l: self.list_extend(l, r))
                return
        v = self.binop(s.op, cur, r, s)
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, v, t)
        else:
            self.setitem(o, i, v, t)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.setvar(t.id, self.mark(v, s))
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                dv = self.deref(v)
                for i, e in enumerate(t.elts):
                    if i < k:
                        self.assign(e, mk_index(dv, C(i)), s)
                    elif i == k:
                        tail = n - 1 - k
                        x = mk_slice(dv, C(k), NONE if tail == 0 else C(-tail))
                        self.assign(e.value, self.to_list(x), s)
                    else:
                        self.assign(e, mk_index(dv, C(i - n)), s)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, C(i), s), s)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            self.setitem(o, i, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)
        else:
            self.unknown('assignment target', s)

    def x_Delete(self, s):
        self.unknown('del', s)

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        if self.st.pc is FALSE:
            return
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if self.st.pc is FALSE:
            return
        f = self.frames[-1]
        v = self.mark(v, s)
        if f.is_entry:
            # failure results end the operation: handled like exceptions
            v = constrain(v, self.st.pc)
            for l, g in leaves(v):
                if l.op == 'new' and LM.is_failure(self, l):
                    self.branch(g, lambda l=l: self.abort('fail:' + l.args[0].args[0], s),
                                lambda: None)
                    if self.st.pc is FALSE:
                        return
            v = constrain(v, self.st.pc)
        f.returns.append((self.st.pc, v, self.st))
        self.st = St(self.st.d, FALSE)

    def x_Raise(self, s):
        if s.exc is None:
            cls = self.handling[-1] if self.handling else 'builtins.RuntimeError'
            self.abort(cls, s)
            return
        e = s.exc
        fn = e.func if isinstance(e, ast.Call) else e
        v = self.pure_ev(fn)
        if isinstance(e, ast.Name) and type(v) is Term and v.op == 'excval':
            self.abort(v.args[0], s)
            return

        def go(l):
            if l.op == 'ref':
                self.abort(l.args[0], s)
            elif l.op == 'new' and l.args[0].op == 'ref':
                self.abort(l.args[0].args[0], s)
            elif l.op in ('call',) and l.args[0].op == 'ref':
                self.abort(l.args[0].args[0], s)
            else:
                vv = self.pure_ev(e)
                if type(vv) is Term and vv.op in ('new', 'call') and vv.args[0].op == 'ref':
                    self.abort(vv.args[0].args[0], s)
                else:
                    self.abort('?', s)
            return None
        self.split(v, go)

    handling = []

    def x_Break(self, s):
        lp = self.frames[-1].loops[-1]
        lp['breaks'].append((self.st.pc, NONE, self.st))
        self.st = St(self.st.d, FALSE)

    def x_Continue(self, s):
        lp = self.frames[-1].loops[-1]
        lp['continues'].append((self.st.pc, NONE, self.st))
        self.st = St(self.st.d, FALSE)

    def x_With(self, s):
        self.unknown('with', s)
        self.exec_block(s.body)

    def x_Try(self, s):
        entry_pc = self.st.pc
        fin = None
        f = self.frames[-1]
        nret = len(f.returns)
        if s.finalbody:
            fin = {'kind': 'finally', 'aborts': [], 'handlers': []}
            self.tries.append(fin)
        if s.handlers:
            hs = []
            for h in s.handlers:
                if h.type is None:
                    hs.append(None)
                else:
                    v = self.pure_ev(h.type)
                    names = []
                    for l in leaf_terms(v):
                        if l.op == 'ref':
                            names.append(l.args[0])
                        elif l.op == 'seq':
                            names.extend(i.args[0].args[0] for i in l.args[1:]
                                         if i.op == 'el' and i.args[0].op == 'ref')
                    hs.append(names)
            t = {'kind': 'except', 'handlers': hs, 'caught': [], 'chain': self.chain}
            self.tries.append(t)
            self.exec_block(s.body)
            self.tries.pop()
            self.exec_block(s.orelse)
            outs = []
            if self.st.pc is not FALSE:
                outs.append((self.st.pc, NONE, self.st))
            for hi, h in enumerate(s.handlers):
                ent = []
                for a, k in t['caught']:
                    if k == hi:
                        if a.chain != t['chain']:
                            self.note('exception caught across a loop', h)
                        ent.append((a.guard, NONE, a.state))
                if not ent:
                    continue
                st, _ = self.merge_outs(ent, entry_pc)
                self.st = st
                if h.name:
                    cl = sorted({a.cls for a, k in t['caught'] if k == hi})
                    self.setvar(h.name, T('excval', cl[0] if len(cl) == 1 else '?'))
                cl = sorted({a.cls for a, k in t['caught'] if k == hi})
                self.handling = self.handling + [cl[0]]
                self.exec_block(h.body)
                self.handling = self.handling[:-1]
                if self.st.pc is not FALSE:
                    outs.append((self.st.pc, NONE, self.st))
            if outs:
                self.st, _ = self.merge_outs(outs, entry_pc)
            else:
                self.st = St(self.st.d, FALSE)
        else:
            self.exec_block(s.body)
            self.exec_block(s.orelse)
        if fin is not None:
            self.tries.pop()
            normal = self.st
            for i in range(nret, len(f.returns)):
                pc, v, st = f.returns[i]
                self.st = st.copy()
                self.st.pc = pc
                self.exec_block(s.finalbody)
                f.returns[i] = (pc, v, self.st)
            for a in fin['aborts']:
                self.st = a.state.copy()
                self.st.pc = a.guard
                before = self.st.d.get(('ev',), EMPTY['l'])
                sa = self.aborts
                self.aborts = []
                self.exec_block(s.finalbody)
                self.aborts = sa
                after = self.st.d.get(('ev',), EMPTY['l'])
                a.cleanup.append((before, after))
            self.st = normal
            if self.st.pc is not FALSE:
                self.exec_block(s.finalbody)

    def merge_outs(self, outs, entry_pc):
        st, v = None, None
        total = FALSE
        for pc, val, s in outs:
            total = b_or(total, pc)
        for pc, val, s in reversed(outs):
            s = St(s.d, pc)
            if st is None:
                st, v = s, val
                continue
            c = constrain(pc, total)
            v = self.gate(c, val, v)
            st = self.merge(c, s, st)
        return st, v

    # -------------------------------------------------------------- loops

    def x_For(self, s):
        it = self.ev(s.iter)
        if self.st.pc is FALSE:
            return

        def run(l):
            self.for_leaf(l, lambda e: self.assign(s.target, e, s),
                          lambda: self.exec_block(s.body),
                          lambda: self.exec_block(s.orelse), s)
            return None
        self.split(it, run)

    def iter_of(self, l, node=None):
        """-> (n V, elem fn)"""
        if l.op == 'addr' or ('h', l.id) in self.st.d:
            knd = l.args[1] if l.op == 'addr' else None
            if knd == 'dict':
                c = self.content(l)
                return self.iter_dict(c, 'k')
            c = self.content(l)
            if type(c) is Node:
                return length(c), lambda i: mk_index(c, i)
            if c is not l:
                return self.iter_of(c, node)
        if l.op == 'range':
            a, b, stp = l.args
            cs = icval(stp)
            if cs == 1:
                return V.sub(b, a), lambda i: V.add(a, i)
            if cs == -1:
                return V.sub(a, b), lambda i: V.sub(a, i)
            ca, cb = icval(a), icval(b)
            if None not in (ca, cb, cs):
                r = list(range(ca, cb, cs))
                return C(len(r)), lambda i: C(r[icval(i)])
            self.note('range with a step', node)
            return T('rangelen', a, b, stp), lambda i: V.add(a, V.mul(i, stp))
        if l.op == 'enum':
            n, e = self.iter_of(l.args[0], node)
            return n, lambda i: apply(lambda x, y: mkseq('t', [T('el', x), T('el', y)]),
                                      V.add(l.args[1], i), e(i))
        if l.op == 'reversed':
            n, e = self.iter_of(l.args[0], node)
            return n, lambda i: e(V.sub(V.sub(n, C(1)), i))
        if l.op == 'zip':
            ps = [self.iter_of(x, node) for x in l.args]
            ns = []
            for n, _ in ps:
                if n not in ns:
                    ns.append(n)
            n = ns[0]
            for m in ns[1:]:
                n = LM.v_min(n, m)
            return n, lambda i: apply(lambda *ls: mkseq('t', [T('el', x) for x in ls]),
                                      *[e(i) for _, e in ps])
        if l.op == 'dict':
            return self.iter_dict(l, 'k')
        if l.op == 'slice' and l.args[2] is NONE and V.bounds(l.args[1])[0] is not None and \
                V.bounds(l.args[1])[0] >= 0 and type(length(l.args[0])) is Term:
            # tail of a sequence: a negative count means no iterations
            a, lo = l.args[0], l.args[1]
            return V.sub(length(a), lo), lambda i: mk_index(a, V.add(lo, i))
        return length(l), lambda i: mk_index(l, i)

    def iter_dict(self, c, what):
        if type(c) is Term and c.op == 'dict':
            ents = c.args
            def el(i):
                k, v = ents[icval(i)].args
                if what == 'k':
                    return k
                if what == 'v':
                    return v
                return apply(lambda x, y: mkseq('t', [T('el', x), T('el', y)]), k, v)
            return C(len(ents)), el
        return T('len', T('dictview', c, what)), \
            lambda i: apply(lambda ii: T('index', T('dictview', c, what), ii), i)

    def segments(self, l, node):
        """the parts of a concatenation, when going through it is going through one after the other"""
        if l.op == 'addr' or ('h', l.id) in self.st.d:
            l = self.content(l)
        if type(l) is not Term or l.op != 'seq' or l.args[0] not in 'lt' or len(l.args) < 3 or \
                not any(i.op == 'splat' for i in l.args[1:]) or \
                not all(i.op in ('el', 'splat') for i in l.args[1:]):
            return None
        if isinstance(node, ast.For) and any(isinstance(x, ast.Break) for y in node.body for x in ast.walk(y)):
            return None
        return [i.args[0] if i.op == 'splat' else mkseq('l', [i]) for i in l.args[1:]]

    def for_leaf(self, l, bind, body, orelse, node):
        if l.op in ('unknown', 'undef'):
            self.note('loop over unknown value', node)
        parts = self.segments(l, node)
        if parts is not None:
            for x in parts:
                if self.st.pc is FALSE:
                    return
                self.for_leaf(x, bind, body, lambda: None, node)
            if self.st.pc is not FALSE:
                orelse()
            return
        n, elem0 = self.iter_of(l, node)
        elem = elem0
        if type(n) is Node:
            def elem(i):
                return constrain(elem0(i), self.st.pc)

        def go(nl):
            c = icval(nl)
            if c is not None and c <= 64:
                self.loop_unroll(max(c, 0), elem, bind, body, orelse)
            else:
                self.loop_symbolic(nl, elem, bind, body, orelse, node)
            return None
        self.split(n, go)

    def counter(self, s):
        """while i < E: ..; i += 1  ->  (name, bound, step, add to bound)"""
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        op = type(t.ops[0])
        a, b = t.left, t.comparators[0]
        mirror = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if op not in mirror:
            return None
        for x, y, o in ((a, b, op), (b, a, mirror[op])):
            if not isinstance(x, ast.Name):
                continue
            step = 1 if o in (ast.Lt, ast.LtE) else -1
            sets = [n for n in ast.walk(ast.Module(s.body, [])) if isinstance(n, ast.Name) and n.id == x.id and
                    not isinstance(n.ctx, ast.Load)]
            scopes = [n for n in ast.walk(ast.Module(s.body, [])) if isinstance(
                n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.NamedExpr))]
            if len(sets) != 1 or scopes:
                continue
            for k, st in enumerate(s.body):
                d = None
                if isinstance(st, ast.AugAssign) and st.target is sets[0] and isinstance(st.value, ast.Constant) and \
                        type(st.value.value) is int and isinstance(st.op, (ast.Add, ast.Sub)):
                    d = st.value.value if isinstance(st.op, ast.Add) else -st.value.value
                elif isinstance(st, ast.Assign) and st.targets == [sets[0]] and isinstance(st.value, ast.BinOp) and \
                        isinstance(st.value.op, (ast.Add, ast.Sub)):
                    l, r = st.value.left, st.value.right
                    if isinstance(st.value.op, ast.Add) and isinstance(l, ast.Constant):
                        l, r = r, l
                    if isinstance(l, ast.Name) and l.id == x.id and isinstance(r, ast.Constant) and \
                            type(r.value) is int:
                        d = r.value if isinstance(st.value.op, ast.Add) else -r.value
                if d != step or any(self.continues(z) for z in s.body[:k]):
                    continue
                return x, y, step, (0 if o in (ast.Lt, ast.Gt) else step)
        return None

    def continues(self, st):
        if isinstance(st, ast.Continue):
            return True
        if isinstance(st, (ast.For, ast.While)):
            return any(self.continues(z) for z in st.orelse)
        return any(self.continues(z) for z in ast.iter_child_nodes(st) if isinstance(z, (ast.stmt, ast.ExceptHandler)))

    def while_counted(self, s, x, bound, step, more):
        """the loop as one over a range; False (and nothing done) when its bound moves"""
        if self.st.pc is FALSE:
            return True
        f = self.frames[-1]
        i0, N = self.ev(x), self.ev(bound)
        if any(l.op != 'const' and kind(l) != 'int' or l.op == 'const' and icval(l) is None
               for v in (i0, N) for l in leaf_terms(v)):
            return False
        lists = [self.aborts, self.asserts, self.ffi_sites, self.notes, f.returns] + \
            [t['caught' if 'caught' in t else 'aborts'] for t in self.tries] + [lp[k] for lp in f.loops for k in lp]
        marks = [len(l) for l in lists]
        st0 = St(dict(self.st.d), self.st.pc)
        seen = []
        bounds = {}
        n = V.mul(C(step), V.sub(V.add(N, C(more)), i0))

        def bind(e):
            self.assign(x, e, s)
            k = [len(l) for l in lists]
            bounds[0] = self.ev(bound)
            for l, m in zip(lists, k):
                del l[m:]

        def go(nl):
            c = icval(nl)
            if c is not None and c <= 64:
                self.loop_unroll(max(c, 0), lambda i: V.add(i0, V.mul(C(step), i)),
                                 lambda e: (bind(e), seen.append(bounds[0])),
                                 lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))
            else:
                self.loop_symbolic(nl, lambda i: V.add(i0, V.mul(C(step), i)), bind,
                                   lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse), s)
                if 0 in bounds:
                    seen.append(bounds[0])
            return None
        self.split(n, go)
        if all(constrain(v, st0.pc) is constrain(N, st0.pc) for v in seen):
            return True
        for l, m in zip(lists, marks):
            del l[m:]
        self.st = st0
        return False

    def while_unroll(self, s, most=12):
        f = self.frames[-1]
        entry_pc = self.st.pc
        breaks, done = [], []
        for k in range(most + 1):
            c = self.truth(self.ev(s.test))
            out = b_and(self.st.pc, b_not(c))
            if out is not FALSE:
                done.append((out, NONE, St(dict(self.st.d), out)))
            go = b_and(self.st.pc, c)
            if go is FALSE:
                break
            if k == most:
                self.note('more than %d iterations' % most, s)
                break
            self.st = St(dict(self.st.d), go)
            lp = {'breaks': breaks, 'continues': []}
            f.loops.append(lp)
            self.exec_block(s.body)
            f.loops.pop()
            outs = list(lp['continues'])
            if self.st.pc is not FALSE:
                outs.append((self.st.pc, NONE, self.st))
            if not outs:
                self.st = St(self.st.d, FALSE)
                break
            self.st, _ = self.merge_outs(outs, entry_pc)
        if done:
            self.st, _ = self.merge_outs(done, entry_pc)
            self.exec_block(s.orelse)
        else:
            self.st = St(self.st.d, FALSE)
        outs = list(breaks)
        if self.st.pc is not FALSE:
            outs.append((self.st.pc, NONE, self.st))
        if outs:
            self.st, _ = self.merge_outs(outs, entry_pc)
        else:
            self.st = St(self.st.d, FALSE)

    def loop_unroll(self, n, elem, bind, body, orelse):
        f = self.frames[-1]
        entry_pc = self.st.pc
        breaks = []
        for k in range(n):
            lp = {'breaks': breaks, 'continues': []}
            f.loops.append(lp)
            bind(elem(C(k)))
            body()
            f.loops.pop()
            outs = list(lp['continues'])
            if self.st.pc is not FALSE:
                outs.append((self.st.pc, NONE, self.st))
            if not outs:
                self.st = St(self.st.d, FALSE)
                break
            self.st, _ = self.merge_outs(outs, entry_pc)
        if self.st.pc is not FALSE:
            orelse()
        outs = list(breaks)
        if self.st.pc is not FALSE:
            outs.append((self.st.pc, NONE, self.st))
        if outs:
            self.st, _ = self.merge_outs(outs, entry_pc)
        else:
            self.st = St(self.st.d, FALSE)

    def loop_symbolic(self, n, elem, bind, body, orelse, node, cond=None):
        """cond None: counted loop over range(n); else while-loop"""
        self.loops_seen += 1
        f = self.frames[-1]
        entry = self.st
        entry_pc = entry.pc
        if cond is None:
            n = self.same_length(n)
            rng = T('rng', n)
            d = 0
            while idx_of(rng) in self.chain:
                d += 1
                rng = T('rng', n, d)
        else:
            self.nuid += 1
            rng = T('rng', T('while', len(self.chain)))
        idx = idx_of(rng)
        savechain = self.chain
        self.chain = self.chain + (idx,)
        nret = len(f.returns)
        retmarks = [len(fr.returns) for fr in self.frames]
        changed = []
        self.nuid += 1
        uid = self.nuid
        snap = (len(self.aborts), None, len(self.asserts), len(self.ffi_sites),
                [len(t.get('caught', t.get('aborts'))) for t in self.tries])
        condv = TRUE
        init = {}
        nf0 = entry.d.get(NF, C(0))
        self.nfstack.append(nf0)
        for _ in range(8):
            d = dict(entry.d)
            mus = {}
            for k in changed:
                iv = init[k]
                hint = self.mu_kind(k, iv)
                mu = T('mu', uid, str(k), hint)
                if hint == 'bool':
                    mus[k] = mu
                    d[k] = bvar(mu)
                else:
                    mus[k] = mu
                    d[k] = mu
                if k[0] == 'm':
                    self.mem_mu[mu.id] = (iv, rng)
            d[NF] = C(0)
            self.st = St(d, entry_pc)
            start = d = dict(d)
            lp = {'breaks': [], 'continues': []}
            f.loops.append(lp)
            if cond is not None:
                condv = self.truth(cond())
                self.st = St(self.st.d, b_and(self.st.pc, condv))
            else:
                bind(elem(idx))
            body()
            f.loops.pop()
            outs = list(lp['continues'])
            if self.st.pc is not FALSE:
                outs.append((self.st.pc, NONE, self.st))
            base_pc = entry_pc if cond is None else b_and(entry_pc, condv)
            if outs:
                end, _ = self.merge_outs(outs, base_pc)
            else:
                end = None
            rets = f.returns[nret:]
            allst = ([end] if end else []) + [s for _, _, s in lp['breaks']] + \
                [s for _, _, s in rets]
            new = []
            for s in allst:
                for k, v in s.d.items():
                    o = start.get(k, MISSING)
                    if o is v or k in changed or k in new or k == NF:
                        continue
                    if o is MISSING:
                        if k[0] == 'v' and (k[1] == f.fid or True) and k not in entry.d:
                            # first assigned inside the body
                            if k[1] in [fr.fid for fr in self.frames]:
                                new.append(k)
                                init[k] = UNDEF
                            continue
                        if k[0] == 'h':
                            a = self.addr_terms.get(k[1])
                            if a is None or a.op == 'addr':
                                continue      # body-local object
                            new.append(k)
                            init[k] = self.default(k, v)
                            continue
                        if k[0] in ('m', 'ev', 'g'):
                            new.append(k)
                            init[k] = self.default(k, v)
                            continue
                        continue
                    new.append(k)
                    init[k] = o
            if not new:
                break
            changed.extend(new)
            # roll back and repeat with the larger carried set
            del self.aborts[snap[0]:]
            del self.asserts[snap[2]:]
            del self.ffi_sites[snap[3]:]
            for t, m in zip(self.tries, snap[4]):
                del t['caught' if 'caught' in t else 'aborts'][m:]
            del f.returns[nret:]
        else:
            self.note('loop-carried state did not settle', node)
        self.chain = savechain
        self.nfstack.pop()
        nf1 = V.add(nf0, C(1)) if any(s.d.get(NF, C(0)) is not C(0) for s in allst) else nf0

        R = FALSE
        rets = f.returns[nret:]
        del f.returns[nret:]
        for pc, v, s in rets:
            R = b_or(R, constrain(pc, entry_pc))
        B = FALSE
        for pc, v, s in lp['breaks']:
            B = b_or(B, constrain(pc, entry_pc))
        endd = end.d if end is not None else {}
        U = {}
        for k in changed:
            if end is None:
                U[k] = start[k]
            else:
                U[k] = self.deref_new(endd.get(k, start[k]), entry, endd)
            U[k] = constrain(U[k], b_not(b_or(R, B)), True) if end is not None else U[k]
        if lp['breaks']:
            bst, _ = self.merge_outs(lp['breaks'], base_pc)
            BU = {k: self.deref_new(bst.d.get(k, start[k]), entry, bst.d) for k in changed}
        else:
            BU = None
        if rets:
            rst, rval = self.merge_outs(rets, base_pc)
            self.st = rst
            rval = self.deref(rval)
            RU = {k: self.deref_new(rst.d.get(k, start[k]), entry, rst.d) for k in changed}
        else:
            rst = rval = RU = None

        inside, final = self.solve(rng, mus, init, U, cond, condv, BU, B)

        sub = {mus[k].id: inside[k] for k in changed if k in inside}
        for a in self.aborts[snap[0]:]:
            a.guard = subst(a.guard, sub)
        for t, m in zip(self.tries, snap[4]):
            for x in t['caught' if 'caught' in t else 'aborts'][m:]:
                (x[0] if isinstance(x, tuple) else x).guard = subst(
                    (x[0] if isinstance(x, tuple) else x).guard, sub)
        for i in range(snap[2], len(self.asserts)):
            c, g, w = self.asserts[i]
            self.asserts[i] = (c, subst(g, sub), w)
        for i in range(snap[3], len(self.ffi_sites)):
            self.ffi_sites[i] = dict(self.ffi_sites[i], call=subst(self.ffi_sites[i]['call'], sub),
                                     guard=subst(self.ffi_sites[i]['guard'], sub))
        R = subst(R, sub)
        B = subst(B, sub)
        if B is not FALSE:
            for a in [a for a in self.aborts[snap[0]:]] + [
                    x[0] if isinstance(x, tuple) else x for t, m in zip(self.tries, snap[4])
                    for x in t['caught' if 'caught' in t else 'aborts'][m:]]:
                a.guard = self.no_earlier(rng, a.guard, B, node)
        if R is not FALSE and B is not FALSE:
            R, B = self.no_earlier(rng, R, B, node), self.no_earlier(rng, B, R, node)
        E_B = mk_exists(rng, B) if B is not FALSE else FALSE
        E_R = mk_exists(rng, R) if R is not FALSE else FALSE

        d = dict(entry.d)
        d[NF] = nf1
        for k in changed:
            fv = final[k]
            if BU is not None:
                bv = subst(BU[k], sub)
                if U[k] is mus[k] or U[k] is bvar(mus[k]):
                    iv = init[k]
                    bb = bv
                    bb = self.at_first(rng, B, bb)
                    fv = self.gate(E_B, bb, iv)
                else:
                    bb = self.at_first(rng, B, bv) if cond is None else None
                    if bb is not None and not self.weak(bb) and not self.weak(fv):
                        fv = self.gate(E_B, bb, fv)
                    else:
                        self.note('loop with break and carried state', node)
                        fv = norm_bool(T('brk', rng, B, bv, fv))
            d[k] = fv
        if rets:
            rv = subst(rval, sub)
            rv = self.at_first(rng, R, rv)
            rd = dict(entry.d)
            rd[NF] = nf1
            for k in changed:
                x = subst(RU[k], sub)
                if x is not init[k]:
                    rd[k] = self.at_first(rng, R, x)
            f.returns.append((b_and(entry_pc, E_R), rv, St(rd, b_and(entry_pc, E_R))))
        self.st = St(d, b_and(entry_pc, b_not(E_R)))
        if E_B is not FALSE:
            self.branch(b_not(E_B), lambda: orelse(), lambda: None)
        else:
            orelse()

    def no_earlier(self, rng, p, q, node):
        """p, and q in no iteration before"""
        i = idx_of(rng)
        if rng.args[0].op == 'while':
            self.note('loop left in two ways', node)
            return p
        before = T('rng', i, *rng.args[1:])
        return b_and(p, b_not(mk_exists(before, subst(q, {i.id: idx_of(before)}))))

    def same_length(self, n):
        """one name for lengths the path condition makes equal"""
        if type(n) is Term and n.op == 'min' and type(self.st.pc) is Node:
            a, b = n.args[:2]
            if as_int(a) is not None and as_int(b) is not None and len(n.args) == 2:
                for p, q in ((a, b), (b, a)):
                    if b_and(self.st.pc, lt(q, p)) is FALSE:
                        return self.same_length(p)
        if type(n) is not Term or n.op != 'len' or type(self.st.pc) is not Node:
            return n
        best = n
        for (vid, mode), var in support(self.st.pc).items():
            if mode != 'i' or var.op != 'lin' or len(var.args[0]) != 2:
                continue
            (p, a), (q, b) = var.args[0]
            if {a, b} != {1, -1} or n not in (p, q):
                continue
            o = q if p is n else p
            if o.op != 'len' or o.id >= best.id:
                continue
            k = -var.args[1]
            if k:
                continue
            ne = b_not(mk_node(var, 'i', (0, 1), (FALSE, TRUE, FALSE)))
            if b_and(self.st.pc, ne) is FALSE:
                best = o
        return best

    def at_first(self, rng, R, v):
        """value v of the first iteration in which R holds"""
        i = idx_of(rng).id
        if i not in free_idx(v):
            return v
        x = ite(R, v, UNDEF)
        ls = [l for l in leaf_terms(x) if l is not UNDEF]
        if len(ls) == 1 and i not in free_idx(ls[0]):
            return ls[0]
        if i not in free_idx(constrain(v, R)):
            return constrain(v, R)
        return norm_bool(T('first', rng, R, x, kind(v) or '?'))

    def weak(self, v):
        """no closed form"""
        return any(type(x) is Term and x.op in ('first', 'fold', 'car', 'recv', 'col', 'last', 'brk')
                   for x in subterms(v))

    mem_mu = {}

    def mu_kind(self, k, iv):
        if k[0] == 'm':
            return 'mem'
        if k[0] == 'ev':
            return 'list'
        if iv is UNDEF:
            return '?'
        if type(iv) is Term and iv.op == 'fill':
            return 'fill'
        if k[0] == 'h':
            a = self.addr_terms.get(k[1])
            if a is not None and a.op == 'addr' and a.args[1] in ('list', 'bio', 'bytearray', 'hash'):
                return {'list': 'list', 'bio': 'bytes', 'bytearray': 'bytes', 'hash': 'bytes'}[a.args[1]]
            if a is not None and a.op == 'param' and a.args[1:2] == ('stream',):
                return 'stream'
            if a is not None and a.op != 'addr':
                return kind(a) or 'list'
        return kind(iv) or '?'

    def deref_new(self, v, entry, d):
        """objects allocated inside the body lose their identity outside it"""
        if not any(type(x) is Term and x.op == 'addr' for x in subterms(v)):
            return v
        m = {}
        save = self.st
        self.st = St(d, save.pc)
        for x in subterms(v):
            if type(x) is Term and x.op == 'addr' and ('h', x.id) not in entry.d:
                m[x.id] = self.deref(x)
        self.st = save
        return subst(v, m) if m else v

    def has_mu(self, v, mus):
        ids = {m.id for m in mus}
        for x in subterms(v):
            if type(x) is Term and x.id in ids:
                return True
        return False

    def solve(self, rng, mus, init, U, cond, condv, BU, B):
        """closed forms for loop-carried values"""
        inside, final = {}, {}
        todo = [k for k in U]
        idx = idx_of(rng)
        counted = cond is None
        U = dict(U)
        self.ctrs = []
        # list padding loop:  while len(L) < N: L.append(E)
        if not counted and todo and type(condv) is Node:
            every = list(mus.values())
            free = [k for k in todo if not self.has_mu(U[k], every) and
                    not self.has_mu(condv, [mus[k]])]
            rest = [k for k in todo if k not in free]
            r = self.solve_pad(rest[0], mus, init, U, condv) if len(rest) == 1 else None
            if r is not None:
                c0 = subst(condv, {mus[rest[0]].id: init[rest[0]]})
                return {}, {**{k: self.gate(c0, U[k], init[k]) for k in free}, rest[0]: r}
        while todo:
            r = None
            if counted:
                for k in list(todo):
                    others = [mus[j] for j in todo]
                    r = self.solve_one(rng, idx, k, mus, init, U, others, todo)
                    if r is not None:
                        break
            if r is None:
                r = self.solve_rec(rng, todo, mus, init, U, cond, condv, BU)
            ins, fin, ks = r
            for kk in ks:
                todo.remove(kk)
            sub = {}
            for kk in ks:
                inside[kk], final[kk] = ins[kk], fin[kk]
                if ins[kk] is not None:
                    sub[mus[kk].id] = ins[kk]
            for j in list(U):
                U[j] = subst(U[j], sub)
            for j in inside:
                if inside[j] is not None:
                    inside[j] = subst(inside[j], sub)
                final[j] = subst(final[j], sub)
            condv = subst(condv, sub)
            if BU is not None:
                BU = {j: subst(BU[j], sub) for j in BU}
        return {k: v for k, v in inside.items() if v is not None}, final

    def mus_in(self, v, mus, todo):
        ids = {mus[k].id: k for k in todo}
        return [ids[x.id] for x in subterms(v) if type(x) is Term and x.id in ids]

    def solve_rec(self, rng, todo, mus, init, U, cond, condv, BU):
        """canonical recurrences for a smallest closed group of carried values"""
        best = None
        extra = set(self.mus_in(condv, mus, todo)) if cond is not None else set()
        for k in todo:
            S = {k} | extra
            work = list(S)
            while work:
                x = work.pop()
                for y in self.mus_in(U[x], mus, todo) + (
                        self.mus_in(BU[x], mus, todo) if BU is not None else []):
                    if y not in S:
                        S.add(y)
                        work.append(y)
            if best is None or len(S) < len(best):
                best = S
        ks = [k for k in todo if k in best]
        depth = len(self.chain)
        ins, fin = {}, {}
        for k in ks:
            # order the members by discovery from k
            order = [k]
            q = 0
            while q < len(order):
                for y in self.ordered_mus(U[order[q]], mus, ks):
                    if y not in order:
                        order.append(y)
                q += 1
            for y in ks:
                if y not in order:
                    order.append(y)
            sub = {}
            for n, y in enumerate(order):
                r = norm_bool(T('recv', depth, n, mus[y].args[2]))
                sub[mus[y].id] = r
            col = T('col', rng, tuple(init[y] for y in order),
                    tuple(subst(U[y], sub) for y in order),
                    subst(condv, sub) if cond is not None else NONE,
                    tuple(subst(BU[y], sub) for y in order) if BU is not None else NONE)
            ins[k] = self._car(col, k, mus)
            fin[k] = norm_bool(T('fold', col, mus[k].args[2]))
        return ins, fin, ks

    def ordered_mus(self, v, mus, ks):
        ids = {mus[k].id: k for k in ks}
        out = []
        seen = set()

        def rec(x):
            if isinstance(x, tuple):
                for y in x:
                    rec(y)
            elif type(x) is Node:
                if ('n', x.id) in seen:
                    return
                seen.add(('n', x.id))
                rec(x.var)
                for y in x.kids:
                    rec(y)
            elif type(x) is Term:
                if x.id in ids:
                    if ids[x.id] not in out:
                        out.append(ids[x.id])
                    return
                if x.id in seen:
                    return
                seen.add(x.id)
                for y in x.args:
                    if isinstance(y, (tuple, Term, Node)):
                        rec(y)
        rec(v)
        return out

    def _car(self, col, k, mus):
        return norm_bool(T('car', col, idx_of(col.args[0]), mus[k].args[2]))

    def solve_pad(self, k, mus, init, U, condv):
        mu = mus[k]
        u = U[k]
        if mu.args[2] not in ('list',) or type(u) is not Term or u.op != 'seq':
            return None
        its = u.args[1:]
        if not (len(its) == 2 and its[0].op == 'splat' and its[0].args[0] is mu and
                its[1].op == 'el'):
            return None
        if type(condv) is not Node or condv.mode != 'i' or len(condv.cuts) != 1:
            return None
        co = as_int(condv.var)
        ln = V.length_leaf(mu)
        c = dict((t.id, c) for t, c in co[0]).get(ln.id)
        if c not in (1, -1):
            return None
        rest = V.add_leaf(condv.var, V.scale_leaf(ln, c), -1)
        cut = condv.cuts[0]
        if c == 1 and condv.kids == (TRUE, FALSE):
            # len + rest < cut  ->  N = cut - rest
            N = V.add_leaf(C(cut), rest, -1)
        elif c == -1 and condv.kids == (FALSE, TRUE):
            # rest - len >= cut -> len <= rest-cut -> N = rest - cut + 1
            N = V.add_leaf(rest, C(cut - 1), -1)
        else:
            return None
        if contains(N, mu) or contains(its[1], mu):
            return None
        iv = init[k]
        return apply(lambda s: concat('l', [s, mkseq('l', [T('each', T('rng', V.add_leaf(
            N, V.length_leaf(s), -1)), mkseq('l', [its[1]]))])]), iv)

    def solve_one(self, rng, idx, k, mus, init, U, open_mus, todo):
        mu = mus[k]
        u = U[k]
        iv = init[k]
        others = [m for m in open_mus if m is not mu]
        hint = mu.args[2]
        ls = leaf_terms(u)
        # guards must not depend on open recurrences
        if hint == 'fill':
            return self.solve_fill(rng, idx, k, mus, init, U, todo)
        # unchanged
        if u is mu or (hint == 'bool' and u is bvar(mu)):
            return {k: iv}, {k: iv}, [k]
        if not self.has_mu(u, open_mus):
            fin = norm_bool(T('last', rng, iv, u, kind(u) or '?'))
            if iv is UNDEF:
                fin = norm_bool(T('last', rng, NONE, u, kind(u) or '?'))
            ins = norm_bool(T('prev', rng, idx, iv, u, kind(u) or '?'))
            if u is iv:
                ins = fin = iv
            return {k: ins}, {k: fin}, [k]
        # int counters
        if hint in ('int', '?') and all(l is not UNDEF for l in ls):
            def delta(l):
                x = as_int(l)
                if x is None:
                    return None
                for t, c in x[0]:
                    if t is mu:
                        if c != 1:
                            return None
                        return V.add_leaf(l, mu, -1)
                return None
            ok = hint == 'int'
            if ok:
                for l in ls:
                    dl = delta(l)
                    if dl is None or self.has_mu(dl, open_mus):
                        ok = False
                        break
            if ok:
                dv = apply(delta, u)
                if not self.has_mu(dv, open_mus):
                    fin = V.add(iv, self.vsum(rng, dv))
                    ins = V.add(iv, self.vpsum(rng, idx, dv))
                    self.ctrs.append((ins, iv, dv))
                    return {k: ins}, {k: fin}, [k]
        # flags
        if hint == 'bool':
            c1 = constrain(u, bvar(mu))
            c0 = constrain(u, b_not(bvar(mu)))
            if not self.has_mu(c1, open_mus) and not self.has_mu(c0, open_mus):
                if c1 is TRUE:      # or-accumulate
                    return {k: b_or(iv, norm_bool(T('pexists', rng, idx, c0)))}, \
                        {k: b_or(iv, mk_exists(rng, c0))}, [k]
                if c0 is FALSE:     # and-accumulate
                    return {k: b_and(iv, b_not(norm_bool(T('pexists', rng, idx, b_not(c1)))))}, \
                        {k: b_and(iv, b_not(mk_exists(rng, b_not(c1))))}, [k]
        # appended sequences
        if hint in ('list', 'bytes', 'str', 'tuple', 'stream'):
            kk = SEQK['bytes' if hint == 'stream' else hint]
            head = 'splat' if kk in 'lt' else 'raw'

            def strip(l):
                if l is mu:
                    return EMPTY[kk]
                if l.op == 'seq' and len(l.args) > 1 and l.args[1].op == head and \
                        l.args[1].args[0] is mu:
                    return mkseq(kk, l.args[2:])
                return None
            if all(strip(l) is not None for l in ls):
                bv = apply(strip, u)
                if not self.has_mu(bv, open_mus):
                    its, vals = V.mk_each(kk, rng, bv)
                    add = mkseq(kk, its) if its is not None else None
                    if add is None:
                        return None
                    fin = apply(lambda s: concat(kk, [s, add]), iv)
                    pe = mkseq(kk, [T('peach', rng, idx, bv)])
                    ins = apply(lambda s: concat(kk, [s, pe]), iv)
                    return {k: ins}, {k: fin}, [k]
            # element writes at the running index:  L[i] = v
            def sidx(l):
                if l is mu:
                    return True
                return l.op == 'setitem' and l.args[0] is mu and l.args[1] is idx
            if kk == 'l' and all(sidx(l) for l in ls):
                bv = apply(lambda l: mkseq('l', []) if l is mu else
                           mkseq('l', [T('el', l.args[2])]), u)
                if not self.has_mu(bv, open_mus):
                    ivt = iv
                    fin = apply(lambda s: self.setall(s, rng, idx, bv), iv)
                    ins = T('psetall', rng, idx, iv, bv)
                    return {k: ins}, {k: fin}, [k]
            if kk == 'l':
                r = self.solve_fill(rng, idx, k, mus, init, U, todo)
                if r is not None:
                    return r
        # stores to attributes of external objects
        if hint == 'mem':
            def stores(l):
                out = []
                while l.op == 'store':
                    out.append((l.args[1], l.args[2]))
                    l = l.args[0]
                if l is not mu:
                    return None
                return list(reversed(out))
            if all(stores(l) is not None for l in ls):
                bv = apply(lambda l: mkseq('l', [T('el', T('st', o, v)) for o, v in stores(l)]), u)
                if not self.has_mu(bv, open_mus):
                    fin = apply(lambda s: T('stores', rng, s, bv), iv)
                    # objects written must be the iteration's own element
                    for l in leaf_terms(bv):
                        for it in l.args[1:]:
                            o = it.args[0].args[0]
                            if not self.own_elem(o, idx):
                                self.note('store to an object that is not the element of this '
                                          'iteration', None)
                    return {k: T('pstores', rng, idx, iv, bv)}, {k: fin}, [k]
        return None

    def own_elem(self, o, idx):
        while o.op == 'attr':
            o = o.args[0]
        return o.op == 'index' and o.args[1] is idx

    def setall(self, s, rng, idx, bv):
        """s[i] = e(i) for the iterations that write"""
        if V.length_leaf(s) is rng.args[0] or s.op == 'seq' and len(s.args) == 2 and \
                s.args[1].op == 'each' and s.args[1].args[0].args[0] is rng.args[0]:
            old = mk_index(s, idx)

            def pick(l):
                if len(l.args) == 1:
                    return apply(lambda o: mkseq('l', [T('el', o)]), old)
                return l
            nb = apply(pick, bv)
            its, _ = V.mk_each('l', rng, nb)
            return mkseq('l', its)
        return T('setall', rng, s, bv)

    def solve_fill(self, rng, idx, k, mus, init, U, todo):
        """L[cnt] = v; cnt += 1 on a preallocated list: the written prefix is
        an append-only list"""
        mu = mus[k]
        u = U[k]
        iv = init[k]
        if any(l.op != 'fill' and kind(l) != 'list' for l in leaf_terms(iv)):
            return None
        ls = leaf_terms(u)
        if all(l is mu for l in ls):
            return {k: iv}, {k: iv}, [k]

        def parts(l):
            return l.args if l.op == 'fill' else (EMPTY['l'], V.length_leaf(l), l)

        def filled(tail):
            def f(l):
                pre, n, base = parts(l)
                if type(n) is Node:
                    return T('fill', concat('l', [pre, tail]), T('len', base), base)
                return T('fill', concat('l', [pre, tail]), n, base)
            return apply(f, iv)

        def chainw(l):
            out = []
            while l.op == 'setitem':
                out.append((l.args[1], l.args[2]))
                l = l.args[0]
            return list(reversed(out)) if l is mu else None
        if any(chainw(l) is None for l in ls):
            return None
        # which counter?
        om = [mus[j] for j in todo]
        cand = [(mus[c], init[c], U[c], None) for c in todo if mus[c].args[2] == 'int']
        cand += [(i, ic, None, dv) for i, ic, dv in self.ctrs if type(i) is Term]
        for mc, c0, uc, dv in cand:
            if apply(lambda l, m: TRUE if V.length_leaf(parts(l)[0]) is m else FALSE,
                     iv, c0) is not TRUE:
                continue
            if uc is not None:
                if any(as_int(m) is None for m in leaf_terms(uc)):
                    continue
                dv = apply(lambda m: V.add_leaf(m, mc, -1), uc)
            if self.has_mu(dv, om):
                continue
            good = [True]

            def chk(l, dl):
                w = chainw(l)
                if icval(dl) != len(w):
                    good[0] = False
                    return TRUE
                for n, (i, v) in enumerate(w):
                    if as_int(i) is None or V.add_leaf(i, mc, -1) is not C(n):
                        good[0] = False
                return TRUE
            apply(chk, u, dv)
            if not good[0]:
                continue
            bv = apply(lambda l: mkseq('l', [T('el', v) for _, v in chainw(l)]), u)
            if self.has_mu(bv, om):
                return None
            its, _ = V.mk_each('l', rng, bv)
            fin = filled(mkseq('l', its))
            ins = filled(mkseq('l', [T('peach', rng, idx, bv)]))
            return {k: ins}, {k: fin}, [k]
        return None

    def vsum(self, rng, dv):
        return V.sum_over(rng, dv)

    def vpsum(self, rng, idx, dv):
        return V.psum_over(rng, idx, dv)

    def x_While(self, s):
        if V.BOUND is not None:
            return self.while_unroll(s)
        c = self.counter(s)
        if c is not None and self.while_counted(s, *c):
            return
        self.loop_symbolic(None, None, None, lambda: self.exec_block(s.body),
                           lambda: self.exec_block(s.orelse), s,
                           cond=lambda: self.ev(s.test))

    # -------------------------------------------------------------- expressions

    def ev(self, e):
        self.cur_node = e
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unknown('expression ' + type(e).__name__, e)
        try:
            v = m(e)
        except TooBig:
            return self.unknown('value too large', e)
        return self.mark(v, e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return T('ref', 'Ellipsis')
        return C(e.value)

    def e_Name(self, e):
        v = self.lookup(e.id, e)
        if v is UNDEF and self.st.pc is not FALSE or type(v) is Term and v.op == 'ref' and \
                v.args[0] == 'builtins.' + e.id and not hasattr(builtins, e.id) and \
                not self.frames[-1].mod.star and e.id not in MODULE_NAMES:
            self.abort('builtins.NameError', e)     # nothing binds the name
        return v

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.setvar(e.target.id, v)
        return v

    def e_Tuple(self, e):
        return self.e_seq(e, 't')

    def e_seq(self, e, k):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(('s', self.deref(self.ev(x.value))))
            else:
                parts.append(('e', self.ev(x)))

        def f(*ls):
            out = []
            for (t, _), l in zip(parts, ls):
                if t == 'e':
                    out.append(T('el', l))
                else:
                    out.extend(items_of(k, l))
            return mkseq(k, out)
        if not parts:
            return EMPTY[k]
        return apply(f, *[v for _, v in parts])

    def e_List(self, e):
        return self.addr('list', self.e_seq(e, 'l'))

    def e_Set(self, e):
        return self.e_seq(e, 't')

    def e_Dict(self, e):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.note('dict unpacking', e)
                continue
            ents.append((self.ev(k), self.ev(v)))
        if any(type(k) is Node for k, _ in ents):
            self.note('dict with conditional keys', e)
        return self.addr('dict', T('dict', *[T('ent', k, v) for k, v in ents]))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.deref(self.ev(v.value))
                spec = self.ev(v.format_spec) if v.format_spec is not None else C('')
                conv = {114: 'r', 115: 's', 97: 'a'}.get(v.conversion, '')
                if is_const(spec) and conv != 'a':
                    sp = cval(spec)
                    parts.append(apply(lambda l: V.piece(conv, sp, l), x))
                else:
                    parts.append(apply(lambda l, q: T('str', 'format' + conv, l, q), x, spec))
        return V.concat_v('s', *parts) if parts else C('')

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def e_Lambda(self, e):
        self.nuid += 1
        t = T('closure', '<lambda>', self.nuid)
        self.closures[t.id] = (e, self.frames[-1])
        return t

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if is_and:
                return self.branch(c, lambda: go(i + 1), lambda: self.restrict(v, c, False))
            return self.branch(c, lambda: self.restrict(v, c, True), lambda: go(i + 1))
        return go(0)

    def restrict(self, v, c, val):
        return constrain(v, c if val else b_not(c))

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v))
        if isinstance(e.op, ast.USub):
            return apply(lambda l: V.scale_leaf(l, -1) if as_int(l) is not None
                         else T('neg', l), v)
        if isinstance(e.op, ast.Invert):
            return V.invert(v)
        return v

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, e):
        n = type(op).__name__
        if n in ('Add', 'Mult'):
            la = [l for l in leaf_terms(a) + leaf_terms(b) if l.op == 'addr' and
                  l.args[1] in ('list', 'bytearray', 'buf')]
            if la:
                da, db = self.deref(a), self.deref(b)
                r = V.add(da, db) if n == 'Add' else V.mul(da, db)
                if la[0].args[1] == 'list':
                    return self.new_list(r)
                return r
            # ctypes array type:  ctype * n
            if n == 'Mult':
                for x, y in ((a, b), (b, a)):
                    if type(x) is Term and x.op == 'ref' and x.args[0].startswith('ctypes.'):
                        return apply(lambda l: T('ctarr', x, l), y)
            return V.add(a, b) if n == 'Add' else V.mul(a, b)
        if n == 'Mod' and kind(a) == 'str':
            def pf(x, y):
                r = None
                if is_const(x):
                    if y.op == 'seq' and y.args[0] == 't':
                        if all(i.op == 'el' for i in y.args[1:]):
                            r = V.percent_format(cval(x), [self.deref(i.args[0])
                                                           for i in y.args[1:]])
                    elif kind(y) not in (None, 'tuple', 'dict') and y.op != 'seq' or is_const(y) \
                            or V.single_arg(y):
                        r = V.percent_format(cval(x), [y])
                return r if r is not None else T('fstr', x, y)
            return apply(pf, a, self.deref(b))
        if n == 'Pow':
            return apply(lambda x, y: C(icval(x) ** icval(y)) if icval(x) is not None and
                         icval(y) is not None and 0 <= icval(y) < 300 else T('pow', x, y), a, b)
        fn = {'Sub': V.sub, 'BitAnd': V.bitand, 'BitOr': V.bitor, 'BitXor': V.bitxor,
              'LShift': V.shl, 'RShift': V.shr, 'FloorDiv': V.floordiv, 'Mod': V.mod}.get(n)
        if fn is None:
            return apply(lambda x, y: T('binop', n, x, y), a, b)
        if n in ('BitAnd', 'BitOr', 'BitXor') and kind(a) == 'bool' and kind(b) == 'bool':
            ta, tb = self.truth(a), self.truth(b)
            return {'BitAnd': b_and, 'BitOr': b_or,
                    'BitXor': lambda x, y: ite(x, b_not(y), y)}[n](ta, tb)
        if n == 'BitOr' and any(l.op == 'ref' and l.args[0] not in V.INT_REFS
                                for l in leaf_terms(a) + leaf_terms(b)):
            return apply(lambda x, y: T('refor', *sorted((x, y), key=lambda t: t.id)), a, b)
        return fn(a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        r = TRUE
        res = None
        for i, (op, rhs) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(rhs)
            c = self.compare(op, left, right, e)
            res = c if res is None else b_and(res, c)
            left = right
        return res

    def compare(self, op, a, b, e):
        n = type(op).__name__
        if n in ('Is', 'IsNot', 'Eq', 'NotEq'):
            da, db = self.cmpval(a, n), self.cmpval(b, n)
            r = eq(da, db)
            return b_not(r) if n in ('IsNot', 'NotEq') else r
        if n in ('In', 'NotIn'):
            if type(b) is Term and b.op == 'addr' and b.args[1] == 'memo':
                r = self.memo_has(b, a)
            else:
                r = self.contains_op(a, self.deref(b))
            return b_not(r) if n == 'NotIn' else r
        if n == 'Lt':
            return lt(a, b)
        if n == 'Gt':
            return lt(b, a)
        if n == 'LtE':
            return le(a, b)
        if n == 'GtE':
            return le(b, a)
        return norm_bool(self.unknown('comparison ' + n, e))

    def cmpval(self, v, n):
        if n in ('Eq', 'NotEq'):
            return self.deref(v)
        return v

    def contains_op(self, a, coll):
        def f(x, c):
            if c.op == 'seq' and all(i.op == 'el' for i in c.args[1:]):
                return b_or(*[V.eq_leaf(x, i.args[0]) for i in c.args[1:]])
            if c.op == 'dict':
                return b_or(*[eq(x, i.args[0]) for i in c.args])
            if c.op == 'const' and isinstance(c.args[0], bytes):
                if kind(x) == 'int' or kind(x) is None:
                    return b_or(*[V.eq_leaf(x, C(b)) for b in sorted(set(c.args[0]))])
            if c.op == 'const' and isinstance(c.args[0], tuple):
                return b_or(*[V.eq_leaf(x, C(b)) for b in c.args[0]])
            if c.op == 'range' and icval(c.args[2]) == 1:
                return b_and(le(c.args[0], x), lt(x, c.args[1]))
            if c.op == 'const' and is_const(x):
                return C(cval(x) in cval(c))
            return bvar(T('in', x, c))
        return apply(f, a, coll)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr(o, e.attr, e)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo = self.ev(s.lower) if s.lower is not None else NONE
            hi = self.ev(s.upper) if s.upper is not None else NONE
            if s.step is not None:
                st = self.ev(s.step)
                if st is not C(1):
                    d = self.deref(o)
                    if st is C(-1) and lo is NONE and hi is NONE:
                        return apply(lambda l: T('rev', l) if l.op != 'const' else
                                     C(l.args[0][::-1]), d)
                    return apply(lambda l, a, b, c: T('slice3', l, a, b, c), d, lo, hi, st)
            islist = [l for l in leaf_terms(o) if l.op == 'addr' and l.args[1] == 'list']
            r = mk_slice(self.deref(o), lo, hi)
            if islist:
                return self.new_list(r)
            return r
        i = self.ev(e.slice)
        if type(o) is Term and o.op == 'ref' and o.args[0].startswith('typing.'):
            return o
        return self.getitem(o, i, e)

    def getitem(self, o, i, e):
        def f(l):
            if l.op == 'addr' and l.args[1] == 'memo':
                return self.split(self.memo_get(l, i, T('keyerror')), lambda x: self.abort(
                    'builtins.KeyError', e) or UNDEF if x.op == 'keyerror' else x)
            if l.op == 'addr' and l.args[1] == 'dict':
                return self.dict_get(self.content(l), i, None, e)
            if l.op == 'dict':
                return self.dict_get(l, i, None, e)
            if l.op == 'addr' or ('h', l.id) in self.st.d:
                return mk_index(self.content(l), i)
            return mk_index(l, i)
        if type(o) is not Node:
            return f(o)
        return apply(f, o)

    def memo_get(self, l, i, dflt):
        """a cache: entries of other keys are not found"""
        def f(d, x, z):
            for en in reversed(d.args if d.op == 'memo' else ()):
                if en.args[0] is x:
                    return en.args[1]
            if d.op != 'memo':
                return T('dictget', d, x, z)
            return z
        return apply(f, self.content(l), self.deref(i), dflt)

    def memo_has(self, l, i):
        return apply(lambda x: FALSE if x.op == 'keyerror' else TRUE, self.memo_get(l, i, T('keyerror')))

    def memo_set(self, l, i, v):
        def g(d, k):
            if d.op != 'memo':
                return T('dictset', d, k, v)
            return T('memo', *([en for en in d.args if en.args[0] is not k] + [T('ent', k, v)]))
        v = self.deref(v)
        self.setcontent(l, apply(g, self.content(l), self.deref(i)))

    def dict_get(self, c, i, dflt, e):
        def f(d, x):
            if d.op == 'dict':
                r = dflt
                hit = []
                for en in d.args:
                    k = en.args[0]
                    q = eq(k, x)
                    if q is TRUE:
                        return en.args[1]
                    if q is not FALSE:
                        hit.append((q, en.args[1]))
                if r is None:
                    if hit:
                        r = T('keyerror')
                    else:
                        return T('keyerror')
                for q, v in reversed(hit):
                    r = self.gate(q, v, r)
                return r
            return T('dictget', d, x) if dflt is None else apply(
                lambda q: T('dictget', d, x, q), dflt)
        return apply(f, c, i)

    def setitem(self, o, i, v, e):
        def f(l):
            if l.op == 'addr' and l.args[1] == 'memo':
                self.memo_set(l, i, v)
                return None
            if l.op == 'addr' and l.args[1] == 'dict':
                c = self.content(l)

                def g(d, k):
                    if d.op == 'dict':
                        ents = [en for en in d.args if en.args[0] is not k]
                        return T('dict', *(ents + [T('ent', k, v)]))
                    return T('dictset', d, k, v)
                self.setcontent(l, apply(g, c, i))
                return None
            if l.op in ('global',) or (l.op in ('dict', 'seq', 'ref') and l.op != 'addr'):
                self.note('write into a module-level object', e)
                self.event(T('globalwrite', l, self.deref(i), self.deref(v)))
                return None
            c = self.content(l)
            if i.op == 'const' and isinstance(i.args[0], tuple):
                self.note('slice assignment', e)
            self.setcontent(l, apply(V.setitem_leaf, c, i, v) if True else None)
            return None

        def g(l, ii):
            nonlocal i
            return f(l)
        if type(i) is Node:
            return self.split(i, lambda ii: self.setitem(o, ii, v, e))
        return self.split(o, f)

    # ---------------------------------------------------------- attributes

    def getattr(self, o, name, e):
        def f(l):
            return self.getattr_leaf(l, name, e)
        if type(o) is not Node:
            return f(o)
        return self.split(o, f)

    def getattr_leaf(self, l, name, e):
        if l.op == 'ref':
            return self.ref_attr(l, name, e)
        if l.op == 'addr':
            r = LM.addr_attr(self, l, name)
            if r is not None:
                return r
            return T('bm', l, name)
        if l.op == 'ctobj':
            return T('attr', l, name)
        if name == '__class__':
            return self.class_of(l)
        ci = self.self_cls.get(l.id)
        if ci is not None:
            r = self.w.lookup(ci, name)
            if r is not None:
                owner, node = r
                if isinstance(node, ast.FunctionDef):
                    if self.has_deco(node, 'property') or self.has_deco(node, 'cached_property'):
                        if self.w.is_repo(owner.mod.name):
                            return self.call_func(owner.mod, node, owner, [l], {}, e, None)
                        return norm_bool(T('attr', l, name))
                    return T('bm', l, name)
                mv = self.mem_read(l, name)
                if mv is not None:
                    return mv
                if self.is_clsval(l) or True:
                    # class attribute: stays symbolic on cls/self unless fixed by the class
                    v = self.class_attr(ci, name)
                    if v is not None and self.fixed_cls:
                        return v
                    return norm_bool(T('attr', self.as_cls(l), name))
        mv = self.mem_read(l, name)
        if mv is not None:
            return mv
        if l.op == 'new':
            ci = self.find_class(l.args[0].args[0]) if l.args[0].op == 'ref' else None
            if ci is not None and name in LM.record_fields(self, ci):
                for k, v in l.args[1]:
                    if k == name:
                        return v
        r = LM.term_attr(self, l, name)
        if r is not None:
            return r
        return norm_bool(T('attr', l, name))

    fixed_cls = False

    def is_clsval(self, l):
        return l.op == 'clsof' or (l.op == 'param' and l.args[0] == 'cls')

    def as_cls(self, l):
        if self.is_clsval(l):
            return self.the_cls
        return T('clsof', l) if False else self.the_cls

    the_cls = T('param', 'cls', 'cls')

    def class_of(self, l):
        if l.id in self.self_cls and not self.is_clsval(l):
            self.self_cls[self.the_cls.id] = self.self_cls[l.id]
            return self.the_cls
        if l.op == 'new':
            return l.args[0]
        return T('clsof', l)

    def mem_read(self, o, name):
        """None when nothing was ever stored to that attribute"""
        m = self.st.d.get(('m', name))
        if m is None:
            return None

        def f(t):
            while True:
                if t is MEM0:
                    return norm_bool(T('attr', o, name))
                if t.op == 'store':
                    if t.args[1] is o:
                        return t.args[2]
                    if self.distinct(t.args[1], o):
                        t = t.args[0]
                        continue
                    return norm_bool(T('select', t, o, name))
                if t.op == 'mu' and t.id in self.mem_mu:
                    iv, rng = self.mem_mu[t.id]
                    if self.own_elem(o, idx_of(rng)):
                        # earlier iterations wrote only their own elements
                        return apply(f, iv)
                    return norm_bool(T('select', t, o, name))
                if t.op == 'stores':
                    return norm_bool(T('select', t, o, name))
                return norm_bool(T('select', t, o, name))
        return apply(f, m)

    def distinct(self, a, b):
        if a.op == 'index' and b.op == 'index' and a.args[0] is b.args[0]:
            d = V.add_leaf(a.args[1], b.args[1], -1) if as_int(a.args[1]) and as_int(b.args[1]) else None
            if d is not None:
                lo, hi = V.bounds(d)
                return (lo is not None and lo > 0) or (hi is not None and hi < 0)
            return False
        if a.op == 'index' and b.op == 'index':
            ra, rb = a.args[0], b.args[0]
            if ra.op == 'attr' and rb.op == 'attr' and ra.args[1] != rb.args[1]:
                return True
        if self.c_functions(a, b):
            return True
        if (a.op == 'param') != (b.op == 'param') and {a.op, b.op} <= {'param', 'index', 'attr'}:
            return a.op != b.op
        return False

    def setattr(self, o, name, v, e):
        def f(l):
            if l.op == 'addr':
                if LM.addr_setattr(self, l, name, v):
                    return None
            if l.op == 'ref' or l.op == 'global':
                q = (l.args[0] + '.' + name)
                self.st.d[('g', q)] = v
                return None
            k = ('m', name)
            self.nseq += 1
            self.mut_log.append((self.nseq, name, l, self.st.pc, self.chain, self.where(e)))
            m = self.st.d.get(k, MEM0)
            cur = self.mem_read(l, name) if k in self.st.d else norm_bool(T('attr', l, name))
            if cur is v:
                return None         # what is there already
            self.st.d[k] = apply(lambda mm, vv: self.put(mm, l, vv), m, v)
            return None
        self.split(o, f)

    def put(self, m, l, v):
        if m.op == 'store':
            o = m.args[1]
            if o is l:
                return T('store', m.args[0], l, v)
            if self.c_functions(o, l) and l.args[1] < o.args[1]:
                # stores to different C function objects commute: kept ordered by name
                return T('store', self.put(m.args[0], l, v), o, m.args[2])
        return T('store', m, l, v)

    def c_functions(self, a, b):
        return a.op == 'attr' and b.op == 'attr' and a.args[0] is b.args[0] and \
            a.args[1] != b.args[1] and str(a.args[1]).startswith('secp256k1_') and \
            str(b.args[1]).startswith('secp256k1_')

    def ref_attr(self, l, name, e):
        q = l.args[0]
        m = self.w.module(q) if not self._is_classref(q) else None
        if m is not None:
            gk = ('g', q + '.' + name)
            if gk in self.st.d:
                return self.st.d[gk]
            if name in m.bind or name in m.imports or m.star:
                return self.module_value(q, name)
            if self.w.module(q + '.' + name) is not None:
                return T('ref', q + '.' + name)
            return T('ref', q + '.' + name)
        ci = self.find_class(q)
        if ci is not None:
            if name == '__name__':
                return C(ci.node.name)
            if name == '__class__':
                return T('metaclass', l)
            r = self.w.lookup(ci, name)
            if r is not None:
                owner, node = r
                if isinstance(node, ast.FunctionDef):
                    return T('cm', l, name)
                v = self.class_attr(ci, name)
                if v is not None:
                    return v
                return T('ref', owner.qual + '.' + name)
            return norm_bool(T('attr', l, name))
        r = LM.ext_attr(self, q, name)
        if r is not None:
            return r
        return T('ref', q + '.' + name)

    def _is_classref(self, q):
        m, _, n = q.rpartition('.')
        if not m:
            return False
        r = self.w.resolve(m, n)
        return r is not None and r[0] == 'class'

    def class_attr(self, ci, name):
        """value of a class-level constant through the MRO (repo classes and
        plain constants of library classes)"""
        r = self.w.lookup(ci, name)
        if r is None or isinstance(r[1], ast.FunctionDef):
            return None
        owner, node = r
        if any('enum.Enum' in str(b) or str(b).endswith('.Enum') for b in self.w.bases(owner)):
            return T('ref', owner.qual + '.' + name)
        key = ('cls', owner.qual, name)
        if key in self.modcache:
            return self.modcache[key]
        if not self.w.is_repo(owner.mod.name):
            return None
        saved = (self.st, self.frames, self.tries, self.chain)
        self.st = St({}, TRUE)
        self.tries = []
        self.chain = ()
        fr = self.new_frame(owner.mod, None, None, None, None)
        self.frames = [fr]
        na = len(self.aborts)
        try:
            for s in owner.members[name]:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    # earlier members of the class body are in scope
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and n.id in owner.members and n.id != name \
                                and not isinstance(owner.members[n.id][-1], ast.FunctionDef):
                            v = self.class_attr(owner, n.id)
                            if v is not None:
                                self.st.d[('v', fr.fid, n.id)] = v
                    self.exec_stmt(s)
            v = self.st.d.get(('v', fr.fid, name))
            if v is not None:
                v = self.freeze(v)
        finally:
            self.st, self.frames, self.tries, self.chain = saved
            del self.aborts[na:]
        self.modcache[key] = v
        return v

    def has_deco(self, node, name):
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)
            if n == name:
                return True
        return False

    # ---------------------------------------------------------- comprehensions

    def e_ListComp(self, e):
        s = self.comp(e, 'l')
        return self.new_list(s)

    def e_GeneratorExp(self, e):
        return self.comp(e, 'l')

    def e_SetComp(self, e):
        return apply(lambda l: T('set', l), self.comp(e, 'l'))

    def e_DictComp(self, e):
        return self.unknown('dict comprehension', e)

    def comp(self, e, k):
        """comprehension as an append loop over a hidden list"""
        f = self.frames[-1]
        fr = Frame(None, f.mod, f.func, f.cls, f.selfv, f)
        self.nfid += 1
        fr.fid = self.nfid
        fr.locals = set()
        for g in e.generators:
            fr.locals |= assigned_names([ast.For(target=g.target, iter=g.iter, body=[], orelse=[])])
        acc = self.addr('list', EMPTY['l'])
        first = self.ev(e.generators[0].iter)
        self.frames.append(fr)

        def level(i):
            if i == len(e.generators):
                v = self.ev(e.elt)
                self.list_append(acc, v)
                return
            g = e.generators[i]
            it = first if i == 0 else self.ev(g.iter)

            def body():
                def rest(j):
                    if j == len(g.ifs):
                        level(i + 1)
                        return
                    c = self.truth(self.ev(g.ifs[j]))
                    self.branch(c, lambda: rest(j + 1), lambda: None)
                rest(0)

            def run(l):
                self.for_leaf(l, lambda el: self.assign(g.target, el, e), body, lambda: None, e)
                return None
            self.split(it, run)
        level(0)
        self.frames.pop()
        c = self.content(acc)
        self.st.d = {kk: v for kk, v in self.st.d.items() if not (kk[0] == 'v' and kk[1] == fr.fid)}
        return c

    # ---------------------------------------------------------- lists

    def list_append(self, l, v):
        c = self.content(l)
        # only fresh addresses keep identity inside containers
        def app(s, x):
            if s.op == 'fill':
                return T('appended', s, x)
            return concat('l', [s, mkseq('l', [T('el', x)])])
        self.setcontent(l, apply(app, c, v))

    def list_extend(self, l, v):
        v = self.iterable_seq(v)
        c = self.content(l)
        k = 'b' if l.op == 'addr' and l.args[1] == 'bytearray' else 'l'
        self.setcontent(l, apply(lambda s, x: concat(k, [s, x]), c, v))

    def iterable_seq(self, v):
        def f(l):
            if l.op == 'addr':
                return self.content(l)
            if l.op in ('range', 'enum', 'zip', 'reversed'):
                n, el = self.iter_of(l)
                return self.build_seq(n, el)
            return l
        return apply(f, v)

    def build_seq(self, n, el):
        def g(nl):
            c = icval(nl)
            if c is not None and 0 <= c <= 64:
                return apply(lambda *ls: mkseq('l', [T('el', x) for x in ls]),
                             *[el(C(i)) for i in range(c)]) if c else EMPTY['l']
            rng = T('rng', nl)
            bv = apply(lambda x: mkseq('l', [T('el', x)]), el(idx_of(rng)))
            its, _ = V.mk_each('l', rng, bv)
            return mkseq('l', its)
        return apply(g, n)

    def to_list(self, v):
        d = self.iterable_seq(v)
        d = apply(lambda l: l if l.op == 'seq' and l.args[0] == 'l' else
                  mkseq('l', items_of('l', l)) if l.op != 'const' else
                  mkseq('l', [T('el', C(x)) for x in l.args[0]]), d)
        return self.new_list(d)

    # ---------------------------------------------------------- calls

    def eval_args(self, e):
        pos, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.ev(a.value))
                if type(v) is Term and v.op == 'seq' and all(i.op == 'el' for i in v.args[1:]):
                    pos.extend(i.args[0] for i in v.args[1:])
                else:
                    pos.append(apply(lambda l: T('star', l), v))
            else:
                pos.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                d = v
                if type(v) is Term and v.op == 'addr':
                    d = self.content(v)
                if type(d) is Term and d.op == 'dict' and all(is_const(x.args[0]) for x in d.args):
                    for x in d.args:
                        kw[cval(x.args[0])] = x.args[1]
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = v
        return pos, kw

    def e_Call(self, e):
        self.calls_seen += 1
        fn = e.func
        # super().m(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and \
                isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
            return self.super_call(e)
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value)
            if self.st.pc is FALSE:
                return UNDEF
            pos, kw = self.eval_args(e)
            return self.split(recv, lambda l: self.call_method(l, fn.attr, pos, kw, e))
        f = self.ev(fn)
        # modules' short circuits that must see the syntax
        pos, kw = self.eval_args(e)
        return self.split(f, lambda l: self.call_value(l, pos, kw, e))

    def super_call(self, e):
        f = self.frames[-1]
        g = f
        while g is not None and g.cls is None:
            g = g.parent
        pos, kw = self.eval_args(e)
        name = e.func.attr
        if g is None:
            return self.unknown('super() outside a class', e)
        selfv = g.selfv
        ci = self.self_cls.get(selfv.id) if isinstance(selfv, Term) else None
        mro = self.w.mro(ci) if ci is not None else self.w.mro(g.cls)
        try:
            i = [c.qual for c in mro].index(g.cls.qual)
        except ValueError:
            i, mro = 0, self.w.mro(g.cls)
        for c in mro[i + 1:]:
            if name in c.members and isinstance(c.members[name][-1], ast.FunctionDef):
                node = c.members[name][-1]
                if self.w.is_repo(c.mod.name) or \
                        '%s:%s.%s' % (c.mod.name, c.node.name, name) in self.follow:
                    return self.call_func(c.mod, node, c, [selfv] + pos, kw, e, None)
                pos = [self.deref(p) for p in pos]
                bound = self.bind_opaque(node, pos, kw, True)
                r = LM.super_ext(self, c, name, selfv, bound, e)
                if r is not None:
                    return r
                t = self.lift(lambda b: T('supercall', T('ref', c.qual), name, selfv, b), bound)
                return t
        r = LM.super_ext(self, None, name, selfv, tuple((str(i), p) for i, p in enumerate(pos)), e)
        if r is not None:
            return r
        return self.lift(lambda b: T('supercall', T('ref', 'object'), name, selfv, b),
                         tuple((str(i), self.deref(p)) for i, p in enumerate(pos)))

    def lift(self, fn, bound):
        """bound: tuple of (name, V); lift gates out of the arguments"""
        if not bound:
            return norm_bool(fn(()))
        names = [k for k, _ in bound]
        dfl = getattr(bound, 'dfl', None) or {}

        def g(*ls):
            return norm_bool(fn(tuple((n, x) for n, x in zip(names, ls) if dfl.get(n) is not x)))
        return apply(g, *[v for _, v in bound])

    def bind_opaque(self, node, pos, kw, method):
        """-> tuple((param, V)) sorted by parameter order, defaults elided"""
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        static = self.has_deco(node, 'staticmethod')
        if method and params and not static:
            params = params[1:]
        out = {}
        extra = []
        for i, v in enumerate(pos):
            if i < len(params):
                out[params[i]] = v
            else:
                extra.append(v)
        for k, v in kw.items():
            out[k] = v
        order = params + [x.arg for x in a.kwonlyargs]
        # arguments equal to the default are elided (in lift, below the gates)
        dfl = Bound.defaults(self, node)
        res = []
        for p in order:
            if p in out:
                res.append((p, self.deref(out.pop(p))))
        for k in sorted(out):
            res.append((k, self.deref(out[k])))
        for i, v in enumerate(extra):
            res.append(('*%d' % i, self.deref(v)))
        res = Bound((k, v) for k, v in res if dfl.get(k) is not v)
        res.dfl = dfl
        return res

    def call_value(self, l, pos, kw, e):
        if l.op == 'closure':
            node, fr = self.closures[l.id]
            return self.call_closure(node, fr, pos, kw, e)
        if l.op == 'bm':
            return self.call_method(l.args[0], l.args[1], pos, kw, e)
        if l.op == 'cm':
            return self.call_classmember(l.args[0], l.args[1], pos, kw, e)
        if l.op == 'ref':
            return self.call_ref(l, pos, kw, e)
        if l.op == 'partial':
            return self.call_value(l.args[0], list(l.args[1]) + pos, kw, e)
        if l.op == 'attr' and type(l.args[0]) is Term and str(l.args[1]).startswith('secp256k1_'):
            return self.call_method(l.args[0], l.args[1], pos, kw, e)
        r = LM.call_term(self, l, pos, kw, e)
        if r is not None:
            return r
        ci = self.self_cls.get(l.id)
        if ci is not None and self.is_clsval(l):
            return self.construct(l, ci, pos, kw, e)
        return self.opaque_call(l, pos, kw, e)

    def opaque_call(self, l, pos, kw, e):
        bound = tuple((str(i), self.deref(p)) for i, p in enumerate(pos)) + \
            tuple((k, self.deref(kw[k])) for k in sorted(kw))
        r = self.lift(lambda b: T('call', l, b), bound)
        return self.implicit(r, e)

    def implicit(self, r, e):
        """calls that may raise something an enclosing handler catches"""
        if not any(t['kind'] == 'except' for t in self.tries):
            return r
        for l in leaf_terms(r):
            if l.op == 'node':
                continue
            for cls in LM.may_raise(self, l, [t['handlers'] for t in self.tries
                                              if t['kind'] == 'except']):
                c = bvar(T('exc', cls, l))
                self.branch(c, lambda: self.abort(cls, e, True), lambda: None)
        return r

    def call_closure(self, node, fr, pos, kw, e):
        if isinstance(node, ast.Lambda):
            nf = Frame(None, fr.mod, fr.func, fr.cls, fr.selfv, fr)
            self.nfid += 1
            nf.fid = self.nfid
            a = node.args
            nf.locals = {x.arg for x in a.args}
            self.frames.append(nf)
            for x, v in zip(a.args, pos):
                self.st.d[('v', nf.fid, x.arg)] = v
            for k, v in kw.items():
                self.st.d[('v', nf.fid, k)] = v
            r = self.ev(node.body)
            self.frames.pop()
            return r
        return self.call_func(fr.mod, node, None, pos, kw, e, fr)

    def call_func(self, mod, node, cls, pos, kw, e, parent, entry=False):
        """inline a function of the analysed sources"""
        if len(self.frames) > self.MAXDEPTH or sum(1 for f in self.frames if f.func is node) >= 2:
            self.note('recursion: %s' % node.name, e)
            return T('call', T('ref', mod.name + '.' + node.name),
                     tuple((str(i), self.deref(p)) for i, p in enumerate(pos)
                           if type(p) is Term))
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)
            if n not in ('classmethod', 'staticmethod', 'property', 'no_bool_use_as_property',
                         'abstractmethod', 'setter'):
                self.note('decorator %s on %s' % (ast.unparse(d), node.name), node)
                self.event(T('decorated', mod.name + '.' + node.name, ast.unparse(d)))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in self.walk_own(node.body)):
            return self.unknown('generator function ' + node.name, e)
        self.funcs_seen[mod.name + '.' + (cls.node.name + '.' if cls else '') + node.name] = \
            (mod.path, node.lineno)
        selfv = pos[0] if cls is not None and pos else None
        f = self.new_frame(mod, node, cls, selfv, parent)
        f.is_entry = entry
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        extra = []
        for i, v in enumerate(pos):
            if i < len(params):
                vals[params[i]] = v
            else:
                extra.append(v)
        rest = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in kwo:
                vals[k] = v
            else:
                rest[k] = v
        dn = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for x, d in zip(kwo, a.kw_defaults):
            if d is not None:
                dn[x] = d
        self.frames.append(f)
        save_node = self.cur_node
        try:
            for p in params + kwo:
                if p in vals:
                    continue
                if p in dn:
                    vals[p] = self.default_value(mod, dn[p], p, parent, node)
                else:
                    self.note('missing argument %s of %s' % (p, node.name), e)
                    vals[p] = T('missing', node.name, p)
            if a.vararg:
                vals[a.vararg.arg] = apply(lambda *ls: mkseq('t', [T('el', x) for x in ls]),
                                           *extra) if extra else EMPTY['t']
            elif extra:
                self.note('too many arguments for %s' % node.name, e)
            if a.kwarg:
                if set(rest) == {'**'}:
                    vals[a.kwarg.arg] = rest['**']
                else:
                    vals[a.kwarg.arg] = self.addr('dict', T('dict', *[
                        T('ent', C(k), v) for k, v in sorted(rest.items())]))
            elif rest and set(rest) != {'**'}:
                self.note('unexpected keyword %s for %s' % (sorted(rest), node.name), e)
            for k, v in vals.items():
                self.st.d[('v', f.fid, k)] = v
            entry_pc = self.st.pc
            self.exec_block(node.body)
            if self.st.pc is not FALSE:
                f.returns.append((self.st.pc, NONE, self.st))
            if not f.returns:
                self.st = St(self.st.d, FALSE)
                return UNDEF
            st, v = self.merge_outs(f.returns, entry_pc)
            self.st = st
            # drop dead locals of the callee (closures keep theirs)
            if not any(fr is f for (_, fr) in self.closures.values()):
                st.d = {k: x for k, x in st.d.items() if not (k[0] == 'v' and k[1] == f.fid)}
            return v
        finally:
            self.frames.pop()
            self.cur_node = save_node

    def default_value(self, mod, dnode, pname, parent, fnode):
        if isinstance(dnode, (ast.List, ast.Dict, ast.Set)) or (
                isinstance(dnode, ast.Call) and isinstance(dnode.func, ast.Name) and
                dnode.func.id in ('list', 'dict', 'set', 'bytearray', 'OrderedDict', 'defaultdict')):
            q = '%s#%s' % (fnode.name, pname)
            if q in self.memo:
                return self.memo[q]
            if q in self.w.memos():
                return T('sharedstate', fnode.name, pname)
            self.note('mutable default argument %s' % pname, dnode)
            return T('sharedstate', fnode.name, pname)
        saved = (self.st, self.frames, self.tries)
        self.st = St({}, TRUE)
        self.tries = []
        self.frames = [self.new_frame(mod, None, None, None, None)]
        na = len(self.aborts)
        v = self.ev(dnode)
        v = self.deref(v)
        self.st, self.frames, self.tries = saved
        del self.aborts[na:]
        return v

    def call_ref(self, l, pos, kw, e):
        q = l.args[0]
        r = LM.call_ref(self, q, pos, kw, e)
        if r is not None:
            return r
        m, _, n = q.rpartition('.')
        rr = self.w.resolve(m, n) if m else None
        if rr is not None and rr[0] == 'func':
            mod, node = rr[1], rr[2]
            al = self.alias.get(mod.name + '.' + node.name)
            if al is not None:
                # reference model of an obligation decided on its own
                if al in self.opaque:
                    bound = self.bind_opaque(node, pos, kw, False)
                    return self.implicit(self.lift(
                        lambda b: T('call', T('ref', al), b), bound), e)
                return self.call_func(mod, node, None, pos, kw, e, None)
            if self.w.is_repo(mod.name) and q not in self.opaque:
                return self.call_func(mod, node, None, pos, kw, e, None)
            bound = self.bind_opaque(node, pos, kw, False)
            return self.implicit(self.lift(lambda b: T('call', l, b), bound), e)
        if rr is not None and rr[0] == 'class':
            return self.construct(l, rr[1], pos, kw, e)
        return self.opaque_call(l, pos, kw, e)

    def construct(self, l, ci, pos, kw, e):
        """instance creation: a record of constructor parameters"""
        bound = LM.bind_ctor(self, ci, pos, kw, e)
        if LM.is_failure_cls(self, ci):
            return T('new', l, ())
        r = LM.construct(self, l, ci, bound, e)
        if r is not None:
            return r
        return self.implicit(self.lift(lambda b: T('new', l, b), bound), e)

    def call_classmember(self, cref, name, pos, kw, e):
        """C.name(...) for a class C"""
        ci = self.find_class(cref.args[0])
        owner, node = self.w.lookup(ci, name)
        r = LM.class_call(self, cref, ci, name, pos, kw, e)
        if r is not None:
            return r
        is_cm = self.has_deco(node, 'classmethod')
        is_sm = self.has_deco(node, 'staticmethod')
        if self.w.is_repo(owner.mod.name) and not LM.keep_opaque(self, owner, name):
            if is_cm:
                self.self_cls.setdefault(cref.id, ci)
                return self.call_func(owner.mod, node, owner, [cref] + pos, kw, e, None)
            return self.call_func(owner.mod, node, owner, pos, kw, e, None)
        if is_cm or is_sm:
            bound = self.bind_opaque(node, pos, kw, not is_sm)
            return self.implicit(self.lift(lambda b: T('mcall', cref, name, b), bound), e)
        # unbound method call
        if pos:
            return self.split(pos[0], lambda l: self.call_method(l, name, pos[1:], kw, e, owner))
        return self.unknown('unbound call', e)

    def call_method(self, l, name, pos, kw, e, unbound=None):
        if l.op == 'ref':
            f = self.ref_attr(l, name, e)
            return self.split(f, lambda x: self.call_value(x, pos, kw, e))
        r = LM.call_method(self, l, name, pos, kw, e)
        if r is not None:
            return r
        ci = self.self_cls.get(l.id)
        if ci is not None:
            rr = self.w.lookup(ci, name)
            if rr is not None and isinstance(rr[1], ast.FunctionDef):
                owner, node = rr
                if self.w.is_repo(owner.mod.name):
                    first = l
                    if self.has_deco(node, 'staticmethod'):
                        return self.call_func(owner.mod, node, owner, pos, kw, e, None)
                    if self.has_deco(node, 'classmethod') and not self.is_clsval(l):
                        first = self.class_of(l)
                    return self.call_func(owner.mod, node, owner, [first] + pos, kw, e, None)
                bound = self.bind_opaque(node, pos, kw, True)
                rcv = self.class_of(l) if self.has_deco(node, 'classmethod') and \
                    not self.is_clsval(l) else l
                return self.implicit(self.lift(lambda b: T('mcall', rcv, name, b), bound), e)
            v = self.getattr_leaf(l, name, e)
            if not (type(v) is Term and v.op == 'attr'):
                return self.split(v, lambda x: self.call_value(x, pos, kw, e))
        nm = LM.newhelper(self, name)
        if nm is not None:
            owner, node = nm
            return self.call_func(owner.mod, node, owner, [l] + pos, kw, e, None)
        sig = LM.method_sig(self, name)
        if sig is not None:
            bound = self.bind_opaque(sig, pos, kw, True)
        else:
            bound = tuple((str(i), self.deref(p)) for i, p in enumerate(pos)) + \
                tuple((k, self.deref(kw[k])) for k in sorted(kw))
        l2 = self.deref(l) if l.op == 'addr' else l

        def mk(rl):
            return self.lift(lambda b: T('mcall', rl, name, b), bound)
        r = apply(mk, l2) if type(l2) is Node else mk(l2)
        return self.implicit(r, e)
