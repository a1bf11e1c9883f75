"""Decide one obligation: a function of the code against its reference model."""
import ast
import copy
import json
import os
import time
from .loader import World, AnalysisBroken
from .summary import analyse, find, spec_kinds
from . import values as V, bounded, memo
from .compare import compare, diff_terms
from .interp import Interp
from .terms import T, C, TRUE, FALSE, Term, Node, show, show_bool, TooBig, leaf_terms, b_and, \
    subterms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DECOS = ('property', 'classmethod', 'staticmethod', 'no_bool_use_as_property', 'abstractmethod')


class Ob:
    """impl 'mod:func'; spec 'spec.mod:func'; cls: class the method is analysed on"""

    def __init__(self, impl, spec, cls=None, helper=False, consts=None, expand=True, classmap=None,
                 what='', fixed=None, opaque=()):
        self.impl = impl
        self.spec = spec
        self.cls = cls
        self.helper = helper
        self.consts = consts
        self.expand = expand
        self.classmap = classmap
        self.what = what
        self.opaque = set(opaque)
        self.fixed = (cls is not None) if fixed is None else fixed

    @property
    def q(self):
        return self.impl.replace(':', '.')

    @property
    def key(self):
        return self.impl + ('@' + self.cls.split(':')[1] if self.cls else '')


class Result:
    def __init__(self, ob):
        self.ob = ob
        self.status = 'ok'      # ok | violation | undecided | absent
        self.msgs = []
        self.stats = {}
        self.loc = None


def decos(node, it=None):
    out = []
    for d in node.decorator_list:
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else \
            ast.unparse(d)
        out.append(n)
    return out


def default_values(world, mod, node, cls=None):
    it = Interp(world)
    a = node.args
    ps = a.posonlyargs + a.args
    r = {}
    for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + \
            [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        r[x.arg] = it.default_value(mod, d, x.arg, None, node)
    return r


def compare_signature(world, ob, im, inode, icls, sm, snode):
    """-> (messages, extra impl params with their default values)"""
    msgs = []
    ip = [x.arg for x in inode.args.posonlyargs + inode.args.args]
    sp = [x.arg for x in snode.args.posonlyargs + snode.args.args]
    ik = [x.arg for x in inode.args.kwonlyargs]
    sk = [x.arg for x in snode.args.kwonlyargs]
    di = default_values(world, im, inode, icls)
    ds = default_values(world, sm, snode)
    if ip[:len(sp)] != sp:
        # keyword-only parameters of the model may stay positional in the code
        msgs.append('parameters are (%s), expected (%s)' % (', '.join(ip), ', '.join(sp)))
    extra = [p for p in ip[len(sp):] + ik if p not in sk]
    for p in sk:
        if p not in ik and p not in ip:
            msgs.append('keyword parameter %s is missing' % p)
    ev = {}
    for p in extra:
        if p in di:
            ev[p] = di[p]
        else:
            msgs.append('additional required parameter %s' % p)
    for p in sp + sk:
        a, b = di.get(p), ds.get(p)
        if a is not b and p in ip + ik:
            msgs.append('default of parameter %s is %s, expected %s' % (
                p, show(a, 6) if a is not None else 'none', show(b, 6) if b is not None else 'none'))
    if snode.args.kwarg is not None and inode.args.kwarg is None:
        msgs.append('additional keyword arguments are not accepted')
    d1, d2 = set(decos(inode)), set(decos(snode))
    for d in sorted((d1 ^ d2) & set(DECOS)):
        msgs.append('decorator %s %s' % (d, 'is missing' if d in d2 else 'is not expected'))
    unk = sorted(d for d in d1 - d2 if d not in DECOS)
    return msgs, ev, unk


_vocab = None


def vocab():
    global _vocab
    if _vocab is None:
        p = os.path.join(VERIF, 'spec', 'vocab.json')
        if os.path.exists(p):
            with open(p) as f:
                _vocab = set(json.load(f)['names'])
        else:
            _vocab = set()
    return _vocab


# parts of values that have more than one equal form: a difference made of these alone,
# where the model has none, is not called a violation
FRAIL = {'fold', 'car', 'recv', 'col', 'while', 'refor', 'first', 'last', 'brk', 'iter', 'closure',
         'partial', 'find', 'binop', 'truth', 'listop', 'dictview', 'dictget', 'ent', 'prev',
         'sharedstate', 'globalwrite', 'metaclass', 'do', 'appended', 'st', 'obj', 'excval', 'somefill'}


def names_of(v, out, seen):
    """names of called library functions/methods/unmodelled things in a value"""
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if type(x) is Node:
            if ('n', x.id) in seen:
                continue
            seen.add(('n', x.id))
            st.append(x.var)
            st.extend(c for c in x.cuts if isinstance(c, (Term, Node)))
            st.extend(x.kids)
            continue
        if type(x) is not Term:
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('call', 'new', 'callv'):
            f = x.args[0]
            out.add('call:' + (f.args[0] if isinstance(f, Term) and f.op == 'ref' else '?'))
        elif x.op in ('mcall', 'supercall'):
            out.add('method:' + str(x.args[1]))
        elif x.op == 'ffi':
            out.add('ffi:' + x.args[0])
        elif x.op in ('unknown', 'decorated', 'undef', 'missing', 'havoc'):
            out.add('unknown:' + x.op)
        elif x.op == 'attr':
            out.add('attr:' + str(x.args[1]))
        if x.op in FRAIL:
            # an unresolved truth value counts only where the model has one of the same sort
            out.add('op:truth ' + sort_of(x.args[0]) if x.op == 'truth' else 'op:' + x.op)
        st.extend(x.args)


def sort_of(t, n=3):
    out = []
    while isinstance(t, Term) and len(out) < n:
        out.append(t.op)
        t = next((a for a in t.args if isinstance(a, Term)), None)
    return '.'.join(out)


def overrides(world, obs, every):
    """obligations for subclasses in the package on which a decided method is another function
    than one that has an obligation of its own"""
    decided = {}
    for o in every:
        if o.cls:
            mod, _, cn = o.cls.partition(':')
            r = world.resolve(mod, cn)
            meth = o.impl.split(':')[1].rpartition('.')[2]
            x = world.lookup(r[1], meth) if r is not None and r[0] == 'class' else None
            if x is not None:
                decided.setdefault(meth, set()).add(id(x[1]))
    out = []
    n = 0
    for o in obs:
        if not o.cls:
            continue
        mod, _, cn = o.cls.partition(':')
        meth = o.impl.split(':')[1].rpartition('.')[2]
        r = world.resolve(mod, cn)
        if r is None or r[0] != 'class':
            continue
        for d in world.all_classes():
            if d is r[1] or not world.is_subclass(d, r[1].qual):
                continue
            n += 1
            x = world.lookup(d, meth)
            if x is None or id(x[1]) in decided[meth]:
                continue
            if any(b is not r[1] and world.is_subclass(b, r[1].qual) and
                   world.lookup(b, meth) == x for b in world.mro(d)[1:]):
                continue        # inherited from a subclass that is looked at itself
            q = '%s:%s' % (d.mod.name, d.node.name)
            c = copy.copy(o)
            c.impl, c.cls = '%s.%s' % (q, meth), q
            out.append(c)
    return out, n


def summarise(world, ob, opaque, alias, kinds, consts, before=None):
    Interp.alias = alias
    return analyse(world, ob.impl, kinds, ob.cls, opaque, fixed=ob.fixed, consts=consts,
                   before=before)


LOOPOPS = {'rng', 'each', 'exists', 'sum', 'first', 'last', 'stores', 'setall', 'brk', 'col', 'psum',
           'peach', 'pexists', 'prev', 'psetall', 'pstores', 'fold', 'car', 'recv', 'while',
           'refor', 'somefill', 'fill', 'find'}


def decide(world, ob, all_helpers, time_limit=400, only=None):
    try:
        res = decide_symbolic(world, ob, all_helpers, time_limit, only)
    except (AnalysisBroken, NotImplementedError):
        raise
    except Exception as e:      # a construct the engine cannot follow
        if os.environ.get('VERIF_DEBUG'):
            raise
        res = Result(ob)
        res.status = 'undecided'
        res.msgs = ['the analysis stopped: %s: %s' % (type(e).__name__, str(e)[:200])]
        res.loops = True
    if V.BOUND is not None or res.status not in ('violation', 'undecided') or \
            not getattr(res, 'loops', False):
        return res
    # loops are involved: what do code and model do for sequences of given small lengths?
    ss = getattr(res, 'ss', None)
    if ss is None:
        try:
            ss = summarise(world, Ob(ob.spec, ob.spec, ob.cls, fixed=ob.fixed), set(), {},
                           spec_kinds(find(world, ob.spec)[2]), ob.consts)
        except Exception:
            return res
    sums = [x for x in (getattr(res, 'si', None), ss) if x is not None]
    good, found = bounded.second_opinion(ob, res, sums, all_helpers, only)
    res.instances = len(good)
    if found is not None:
        res.status, res.msgs = 'violation', found + res.msgs
    elif res.status == 'violation' and bounded.enough(ob, good):
        res.status = 'undecided'
        res.msgs = ['equal for all sequences of up to %d elements' % max(
            max(p.values()) for p in good)] + res.msgs
    return res


def chosen(ds, only):
    if only == 'refusals':
        return [d for d in ds if d[0].startswith('refusal')]
    if only == 'values':
        return [d for d in ds if not d[0].startswith('refusal')]
    if only:
        return [d for d in ds if any(w in d[0] for w in only.split(','))]
    return ds


def decide_symbolic(world, ob, all_helpers, time_limit=400, only=None):
    """all_helpers: {spec 'mod.func' : impl qualified name} for opaque treatment"""
    res = Result(ob)
    t0 = time.time()
    sm, sowner, snode = find(world, ob.spec)
    try:
        im, icls, inode = find(world, ob.impl)
        if inode is None:
            raise AnalysisBroken('%s not found' % ob.impl)
    except AnalysisBroken as e:
        if ob.helper:
            res.status = 'absent'
            res.msgs.append('%s; its uses are analysed inlined' % e)
            return res
        raise
    res.loc = (im.path, inode.lineno, inode.name)
    kinds = spec_kinds(snode)
    msgs, extra, unk = compare_signature(world, ob, im, inode, icls, sm, snode)
    if msgs:
        if ob.helper and any('param' in m or 'keyword' in m for m in msgs):
            # an internal helper with another interface: decided where it is used
            res.status = 'absent'
            res.msgs = ['interface changed (%s); its uses are analysed inlined' % '; '.join(msgs)]
            return res
        res.status = 'violation'
        res.msgs = msgs
        return res
    self_spec = ob.spec.replace(':', '.')
    levels = [True, False] if ob.expand else [True]
    first = None
    for opaque_level in levels:
        alias = {k: v for k, v in all_helpers.items()}
        opaque = (set(v for v in all_helpers.values()) if opaque_level else set()) | ob.opaque
        opaque.discard(ob.q)
        opaque -= {v for k, v in all_helpers.items() if v == ob.q}
        try:
            si = summarise(world, ob, opaque, alias, kinds, dict(extra, **(ob.consts or {})))
            so = Ob(ob.spec, ob.spec, ob.cls, fixed=ob.fixed)
            ss = summarise(world, so, opaque, alias, kinds, ob.consts)
        except (TooBig, RecursionError, MemoryError) as e:
            if first is None:
                res.status = 'undecided'
                res.msgs = ['analysis limit reached: %s' % type(e).__name__]
                res.loops = True
            break
        if opaque_level:
            res.stats = stats_of(si)
            res.si, res.ss = si, ss
        ds = chosen(compare(si, ss, ob.classmap), only)
        if not ds and memo.used(si):
            before, differs = memo.earlier(si)
            s2 = summarise(world, ob, opaque, alias, kinds, dict(extra, **(ob.consts or {})), before)
            ds = [('%s, after a call with the same cache key%s' % (
                d[0], ' and another ' + ', '.join(differs) if differs else ''),) + d[1:]
                for d in chosen(compare(s2, ss, ob.classmap), only)]
            si.notes.extend(s2.notes)
            why = memo.unsure(world, si)
            if why and not ds:
                res.status, res.msgs = 'undecided', [why]
                return finish(res, t0)
        if not ds and unk:
            # the body agrees, what the decorators make of it is not known
            res.status, res.msgs = 'undecided', ['unknown decorators: ' + ', '.join(unk)]
            return finish(res, t0)
        if not ds:
            res.status = 'ok'
            res.msgs = []
            res.level = 'modular' if opaque_level else 'expanded'
            return finish(res, t0)
        cl = classify(ob, si, ss, ds, unk)
        res.loops = getattr(res, 'loops', False) or loopy(ds)
        if first is None or cl[0] == 'undecided':
            first = cl
        if time.time() - t0 > time_limit / 2:
            break
    if first is not None:
        res.status, res.msgs = first
    return finish(res, t0)


def loopy(ds):
    """do loops take part in the differences?"""
    seen = set()
    for what, a, b, x, y in ds:
        for pq in ([(x, y)] if x is not None else diff_terms(a, b)):
            for v in pq[:2]:
                if v is not None and any(type(t) is Term and t.op in LOOPOPS
                                         for t in subterms(v, seen)):
                    return True
    return False


def finish(res, t0):
    res.stats['seconds'] = round(time.time() - t0, 3)
    return res


def stats_of(s):
    it = s.it
    return {'functions': sorted(it.funcs_seen), 'calls': it.calls_seen, 'loops': it.loops_seen,
            'joins': it.joins_seen, 'refusal_sites': len(it.aborts), 'ffi_calls': len(it.ffi_sites),
            'observables': sorted(s.obs), 'refusal_classes': sorted(s.byclass)}


def classify(ob, si, ss, ds, unk):
    msgs = []
    names = set()
    seen = set()
    allowed = set()
    s2 = set()
    for v in list(ss.obs.values()) + list(ss.byclass.values()):
        names_of(v, allowed, s2)
    for d in ds:
        what, a, b, x, y = d
        if x is not None:
            parts = []
            if x is not FALSE:
                parts.append('refuses when %s' % show_bool(x, 3))
                names_of(x, names, seen)
            if y is not None and y is not FALSE:
                parts.append('does not refuse when %s' % show_bool(y, 3))
            names_of(a, names, seen) if x is None else None
            names_of(y, names, set())
            msgs.append('%s: code %s' % (what, '; '.join(parts)))
        else:
            for t in diff_terms(a, b)[:3]:
                names_of(t[0], names, seen)
                msgs.append('%s: code gives %s, expected %s' % (
                    what, clip(show_any(t[0])), clip(show_any(t[1]))))
    unknown = {n for n in names if n not in allowed and n not in vocab() and
               not n.startswith('attr:')}
    notes = [n for n in si.notes if not n[0].startswith('argument count of secp256k1')]
    if unknown or notes or unk:
        why = []
        if unknown:
            why.append('unmodelled: ' + ', '.join(sorted(unknown)))
        if notes:
            why.append('unmodelled constructs: ' + '; '.join(
                '%s at %s:%d' % (n[0], os.path.basename(n[1][0]), n[1][1]) for n in notes[:4]))
        if unk:
            why.append('unknown decorators: ' + ', '.join(unk))
        return 'undecided', why + msgs
    return 'violation', msgs


def clip(s, n=400):
    return s if len(s) <= n else s[:n] + '...'


def show_any(x):
    if isinstance(x, tuple):
        return '(' + ', '.join(show_any(y) for y in x) + ')'
    return show(x, 6)
