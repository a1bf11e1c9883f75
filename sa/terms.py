"""Hash-consed value terms and multi-terminal decision diagrams.

A *term* is a gate-free symbolic value.  A *node* is a reduced ordered decision
diagram whose variables are terms tested against integer intervals (or against
discrete labels) and whose leaves are terms.  A *value* V is a term or a node;
booleans are values whose leaves are the constants True/False.  Both are
interned, so equality of canonical forms is identity."""
import sys
import bisect

sys.setrecursionlimit(20000)


class Term:
    __slots__ = ('op', 'args', 'id', '_kind', '_free')

    def __repr__(self):
        return show(self)


class Node:
    """mode 'i': cuts are integers, len(kids)==len(cuts)+1 (interval tree)
    mode 'l': cuts are label terms, kids[i] for label i, kids[-1] default"""
    __slots__ = ('var', 'mode', 'cuts', 'kids', 'id')

    def __repr__(self):
        return show(self)


_terms = {}
_nodes = {}
_tlist = []
_nlist = []


def _key(a):
    if isinstance(a, (Term,)):
        return ('T', a.id)
    if isinstance(a, Node):
        return ('N', a.id)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def T(op, *args):
    k = (op, _key(args))
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_tlist)
        t._kind = None
        t._free = None
        _terms[k] = t
        _tlist.append(t)
    return t


def C(v):
    return T('const', v)


TRUE = C(True)
FALSE = C(False)
NONE = C(None)
UNDEF = T('undef')


def is_const(t):
    return isinstance(t, Term) and t.op == 'const'


def cval(t):
    return t.args[0]


def is_int_const(t):
    return is_const(t) and isinstance(t.args[0], int)


def mk_node(var, mode, cuts, kids):
    if mode == 'i':
        nc, nk = [], [kids[0]]
        for c, k in zip(cuts, kids[1:]):
            if k is nk[-1]:
                continue
            nc.append(c)
            nk.append(k)
        if not nc:
            return nk[0]
        cuts, kids = tuple(nc), tuple(nk)
    else:
        dflt = kids[-1]
        ps = [(c, k) for c, k in zip(cuts, kids) if k is not dflt]
        if not ps:
            return dflt
        ps.sort(key=lambda p: p[0].id)
        cuts = tuple(p[0] for p in ps)
        kids = tuple(p[1] for p in ps) + (dflt,)
    key = (var.id, mode, tuple(c if mode == 'i' else c.id for c in cuts),
           tuple((type(k) is Node, k.id) for k in kids))
    n = _nodes.get(key)
    if n is None:
        n = Node()
        n.var = var
        n.mode = mode
        n.cuts = cuts
        n.kids = kids
        n.id = len(_nlist)
        _nodes[key] = n
        _nlist.append(n)
    return n


def _vkey(n):
    return (n.var.id, n.mode)


class TooBig(Exception):
    pass


LIMIT = 4000


def apply(fn, *vals):
    """Lift fn over the leaves of vals."""
    memo = {}
    count = [0]

    def rec(vs):
        key = tuple((type(v) is Node, v.id) for v in vs)
        r = memo.get(key)
        if r is not None:
            return r
        top = None
        for v in vs:
            if type(v) is Node:
                k = _vkey(v)
                if top is None or k < top[0]:
                    top = (k, v.var, v.mode)
        if top is None:
            count[0] += 1
            if count[0] > LIMIT:
                raise TooBig()
            r = fn(*vs)
            if type(r) is Node:
                # fn itself introduced gates: fine, but order must be restored
                pass
            memo[key] = r
            return r
        k, var, mode = top
        if mode == 'i':
            cuts = sorted({c for v in vs if type(v) is Node and _vkey(v) == k
                           for c in v.cuts})
            kids = []
            for i in range(len(cuts) + 1):
                sub = []
                for v in vs:
                    if type(v) is Node and _vkey(v) == k:
                        probe = cuts[i] if i < len(cuts) else None
                        if probe is None:
                            sub.append(v.kids[-1])
                        else:
                            # interval strictly below cuts[i]
                            sub.append(v.kids[bisect.bisect_left(v.cuts, probe)])
                    else:
                        sub.append(v)
                kids.append(rec(tuple(sub)))
        else:
            cs = {}
            for v in vs:
                if type(v) is Node and _vkey(v) == k:
                    for c in v.cuts:
                        cs[c.id] = c
            cuts = [cs[i] for i in sorted(cs)]
            kids = []
            for c in cuts + [None]:
                sub = []
                for v in vs:
                    if type(v) is Node and _vkey(v) == k:
                        if c is not None and c in v.cuts:
                            sub.append(v.kids[v.cuts.index(c)])
                        else:
                            sub.append(v.kids[-1])
                    else:
                        sub.append(v)
                kids.append(rec(tuple(sub)))
        if any(type(x) is Node and _vkey(x) <= k for x in kids):
            # a leaf function introduced a gate ordered above: rebuild by ite
            r = _rebuild(var, mode, tuple(cuts), kids)
        else:
            r = mk_node(var, mode, tuple(cuts), tuple(kids))
        memo[key] = r
        return r
    return rec(tuple(vals))


def _rebuild(var, mode, cuts, kids):
    r = kids[-1]
    if mode == 'i':
        for c, k in zip(reversed(cuts), reversed(kids[:-1])):
            r = ite(mk_node(var, 'i', (c,), (TRUE, FALSE)), k, r)
    else:
        for c, k in zip(cuts, kids[:-1]):
            r = ite(mk_node(var, 'l', (c,), (TRUE, FALSE)), k, r)
    return r


_ite_cache = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    tc = type(c) is Node
    if not tc:
        return b
    ta = type(a) is Node
    tb = type(b) is Node
    key = (c.id, a.id if ta else -1 - a.id, b.id if tb else -1 - b.id)
    r = _ite_cache.get(key)
    if r is not None:
        return r
    v, m = c.var, c.mode
    k = (v.id, m)
    if ta:
        ka = (a.var.id, a.mode)
        if ka < k:
            k, v, m = ka, a.var, a.mode
    if tb:
        kb = (b.var.id, b.mode)
        if kb < k:
            k, v, m = kb, b.var, b.mode
    c_on = c.var is v and c.mode == m
    a_on = ta and a.var is v and a.mode == m
    b_on = tb and b.var is v and b.mode == m
    if m == 'i':
        if c_on + a_on + b_on == 1:
            cuts = c.cuts if c_on else a.cuts if a_on else b.cuts
            n = len(cuts) + 1
            ck = c.kids if c_on else (c,) * n
            ak = a.kids if a_on else (a,) * n
            bk = b.kids if b_on else (b,) * n
            kids = [ite(x, y, z) for x, y, z in zip(ck, ak, bk)]
        else:
            cs = set()
            if c_on:
                cs.update(c.cuts)
            if a_on:
                cs.update(a.cuts)
            if b_on:
                cs.update(b.cuts)
            cuts = tuple(sorted(cs))
            kids = []
            for cut in cuts:
                kids.append(ite(
                    c.kids[bisect.bisect_left(c.cuts, cut)] if c_on else c,
                    a.kids[bisect.bisect_left(a.cuts, cut)] if a_on else a,
                    b.kids[bisect.bisect_left(b.cuts, cut)] if b_on else b))
            kids.append(ite(c.kids[-1] if c_on else c, a.kids[-1] if a_on else a,
                            b.kids[-1] if b_on else b))
    else:
        cs = {}
        for on, x in ((c_on, c), (a_on, a), (b_on, b)):
            if on:
                for q in x.cuts:
                    cs[q.id] = q
        cuts = tuple(cs[i] for i in sorted(cs))
        kids = []

        def pick(x, q):
            return x.kids[x.cuts.index(q)] if q in x.cuts else x.kids[-1]
        for q in cuts:
            kids.append(ite(pick(c, q) if c_on else c, pick(a, q) if a_on else a,
                            pick(b, q) if b_on else b))
        kids.append(ite(c.kids[-1] if c_on else c, a.kids[-1] if a_on else a,
                        b.kids[-1] if b_on else b))
    r = mk_node(v, m, cuts, tuple(kids))
    _ite_cache[key] = r
    return r


def b_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    return ite(a, FALSE, TRUE)


def b_and(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
        if r is FALSE:
            break
    return r


def b_or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
        if r is TRUE:
            break
    return r


def constrain(f, c, canon=False):
    """Generalised cofactor: agrees with f wherever c holds, simplified
    canonically in terms of (f restricted to c, c)."""
    if c is TRUE or type(f) is not Node:
        return f
    if c is FALSE:
        return f
    memo = {}

    def rec(f, c):
        if c is TRUE or type(f) is not Node:
            return f
        key = (f.id, c.id)
        r = memo.get(key)
        if r is not None:
            return r
        kf = _vkey(f)
        kc = _vkey(c) if type(c) is Node else None
        if kc is not None and kc < kf and canon:
            # depends on nothing but the values of f on c
            kids = []
            for k in c.kids:
                kids.append(None if k is FALSE else rec(f, k))
            live = [x for x in kids if x is not None]
            if c.mode == 'i':
                last = live[0]
                for i, x in enumerate(kids):
                    if x is None:
                        kids[i] = last
                    last = kids[i]
            else:
                d = kids[-1] if kids[-1] is not None else live[-1]
                kids = [d if x is None else x for x in kids]
            r = _rb(c.var, c.mode, c.cuts, kids)
        elif kc is not None and kc < kf:
            # var not in f: merge the care set's cofactors
            cc = FALSE
            for k in c.kids:
                cc = b_or(cc, k)
            r = rec(f, cc)
        elif kc is None or kf < kc:
            r = _rb(f.var, f.mode, f.cuts, [rec(k, c) for k in f.kids])
        else:
            if f.mode == 'i':
                cuts = sorted(set(f.cuts) | set(c.cuts))
                pairs = []
                for i in range(len(cuts) + 1):
                    if i < len(cuts):
                        pf = f.kids[bisect.bisect_left(f.cuts, cuts[i])]
                        pc = c.kids[bisect.bisect_left(c.cuts, cuts[i])]
                    else:
                        pf, pc = f.kids[-1], c.kids[-1]
                    pairs.append((pf, pc))
            else:
                cs = {x.id: x for x in f.cuts + c.cuts}
                cuts = [cs[i] for i in sorted(cs)]
                pairs = []
                for x in cuts + [None]:
                    pf = f.kids[f.cuts.index(x)] if x in f.cuts else f.kids[-1]
                    pc = c.kids[c.cuts.index(x)] if x in c.cuts else c.kids[-1]
                    pairs.append((pf, pc))
            live = [i for i, (_, pc) in enumerate(pairs) if pc is not FALSE]
            if not live:
                r = f
            else:
                kids = [None] * len(pairs)
                for i in live:
                    kids[i] = rec(*pairs[i])
                # infeasible intervals take the nearest feasible neighbour
                if f.mode == 'i':
                    for i in range(len(kids)):
                        if kids[i] is None:
                            j = min(live, key=lambda q: (abs(q - i), q))
                            kids[i] = kids[j]
                    # prefer extending so that the number of cuts is minimal
                    last = None
                    for i in range(len(kids)):
                        if i in live:
                            last = kids[i]
                        elif last is not None:
                            kids[i] = last
                        else:
                            kids[i] = kids[live[0]]
                else:
                    dfl = kids[-1] if kids[-1] is not None else kids[live[-1]]
                    kids = [k if k is not None else dfl for k in kids]
                    kids[-1] = dfl
                r = _rb(f.var, f.mode, tuple(cuts), kids)
        memo[key] = r
        return r

    return rec(f, c)


def _rb(var, mode, cuts, kids):
    k = (var.id, mode)
    if any(type(x) is Node and _vkey(x) <= k for x in kids):
        return _rebuild(var, mode, tuple(cuts), list(kids))
    return mk_node(var, mode, tuple(cuts), tuple(kids))


def leaves(v):
    """[(leaf, guard)]"""
    if type(v) is not Node:
        return [(v, TRUE)]
    seen = {}
    order = []

    def rec(n):
        if type(n) is not Node:
            if n.id not in seen:
                seen[n.id] = n
                order.append(n)
            return
        if ('n', n.id) in seen:
            return
        seen[('n', n.id)] = True
        for k in n.kids:
            rec(k)
    rec(v)
    return [(l, apply(lambda x, l=l: TRUE if x is l else FALSE, v)) for l in order]


def leaf_terms(v):
    if type(v) is not Node:
        return [v]
    seen = set()
    out = []

    def rec(n):
        if type(n) is not Node:
            if ('t', n.id) not in seen:
                seen.add(('t', n.id))
                out.append(n)
            return
        if n.id in seen:
            return
        seen.add(n.id)
        for k in n.kids:
            rec(k)
    rec(v)
    return out


def support(v):
    out = {}

    seen = set()

    def rec(n):
        if type(n) is not Node or n.id in seen:
            return
        seen.add(n.id)
        out[(n.var.id, n.mode)] = n.var
        for k in n.kids:
            rec(k)
    rec(v)
    return out


def cofactor_bool(f, var, val):
    """f with boolean variable `var` (cut at 1) fixed."""
    def rec(n, memo={}):
        if type(n) is not Node:
            return n
        r = memo.get(n.id)
        if r is None:
            if n.var is var and n.mode == 'i':
                r = n.kids[-1] if val else n.kids[0]
            elif n.var.id > var.id:
                r = n
            else:
                r = mk_node(n.var, n.mode, n.cuts, tuple(rec(k, memo) for k in n.kids))
            memo[n.id] = r
        return r
    return rec(f, {})


def bvar(t):
    """Boolean variable for atom t"""
    return mk_node(t, 'i', (1,), (FALSE, TRUE))


# ---------------------------------------------------------------- sub-terms

def subterms(v, seen=None):
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif type(x) is Node:
            if ('n', x.id) in seen:
                continue
            seen.add(('n', x.id))
            yield x
            stack.append(x.var)
            stack.extend(x.kids)
            if x.mode == 'l':
                stack.extend(x.cuts)
        elif type(x) is Term:
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.args)


def free_ops(v, ops):
    """terms with op in ops occurring in v"""
    return [x for x in subterms(v) if type(x) is Term and x.op in ops]


_contains_memo = {}


def contains(v, t):
    key = (type(v) is Node, v.id if not isinstance(v, tuple) else None, t.id)
    if isinstance(v, tuple):
        return any(contains(x, t) for x in v if isinstance(x, (Term, Node, tuple)))
    r = _contains_memo.get(key)
    if r is None:
        if v is t:
            r = True
        elif type(v) is Node:
            r = contains(v.var, t) or any(contains(k, t) for k in v.kids) or (
                v.mode == 'l' and any(contains(k, t) for k in v.cuts))
        elif type(v) is Term:
            r = any(contains(x, t) for x in v.args if isinstance(x, (Term, Node, tuple)))
        else:
            r = False
        _contains_memo[key] = r
    return r


# ---------------------------------------------------------------- printing

def show(v, d=6):
    if d <= 0:
        return '..'
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, d) for x in v) + ')'
    if type(v) is Node:
        if set(leaf_terms(v)) <= {TRUE, FALSE}:
            return show_bool(v, d)
        ls = leaves(v)
        return '{' + ' ; '.join('%s when %s' % (show(l, d - 1), show_bool(g, d - 1))
                                for l, g in ls[:8]) + (' ; ...' if len(ls) > 8 else '') + '}'
    if type(v) is not Term:
        return repr(v)
    o, a = v.op, v.args
    if o == 'const':
        r = repr(a[0])
        if isinstance(a[0], int) and not isinstance(a[0], bool) and abs(a[0]) > 255:
            r = hex(a[0])
        return r if len(r) < 80 else r[:77] + '...'
    if o == 'param':
        return str(a[0])
    if o == 'ref':
        return a[0].split('.')[-1] if a[0].count('.') else a[0]
    if o == 'attr':
        return show(a[0], d) + '.' + a[1]
    if o == 'attrv':
        return show(a[0], d) + '.' + a[1] + "'"
    if o == 'index':
        return show(a[0], d - 1) + '[' + show(a[1], d - 1) + ']'
    if o == 'slice':
        f = lambda x: '' if x is NONE else show(x, d - 1)
        return show(a[0], d - 1) + '[' + f(a[1]) + ':' + f(a[2]) + ']'
    if o == 'idx':
        return '#' + show(a[0], d - 2)
    if o == 'len':
        return 'len(' + show(a[0], d - 1) + ')'
    if o == 'rng':
        return 'range(' + show(a[0], d - 1) + ')'
    if o == 'lin':
        s = ' + '.join(('%s' % show(t, d - 1)) if c == 1 else '%d*%s' % (c, show(t, d - 1))
                       for t, c in a[0])
        return s + (' + %d' % a[1] if a[1] else '')
    if o == 'seq':
        br = {'b': 'bytes<%s>', 's': 'str<%s>', 'l': '[%s]', 't': '(%s)'}[a[0]]
        return br % ' | '.join(show(x, d - 1) for x in a[1:])
    if o == 'call':
        return show(a[0], d - 1) + '(' + _showargs(a[1], d) + ')'
    if o == 'mcall':
        return show(a[0], d - 1) + '.' + a[1] + '(' + _showargs(a[2], d) + ')'
    if o == 'ser':
        return 'ser(' + show(a[0], d - 1) + (', ' + _showargs(a[1], d) if a[1] else '') + ')'
    if o == 'new':
        return show(a[0], d - 1) + '(' + ', '.join('%s=%s' % (k, show(x, d - 1)) for k, x in a[1]) + ')'
    return o + '(' + ', '.join(show(x, d - 1) if isinstance(x, (Term, Node, tuple)) else str(x)
                               for x in a) + ')'


def _showargs(b, d):
    return ', '.join((show(x, d - 1) if k.isdigit() else '%s=%s' % (k, show(x, d - 1)))
                     for k, x in b)


def show_bool(v, d=4):
    if v is TRUE:
        return 'always'
    if v is FALSE:
        return 'never'
    out = []

    def rec(n, path):
        if len(out) > 5:
            return
        if n is FALSE:
            return
        if n is TRUE:
            out.append(' & '.join(path) or 'always')
            return
        if type(n) is not Node:
            out.append(' & '.join(path + [show(n, d)]))
            return
        if n.mode == 'i':
            for i, k in enumerate(n.kids):
                vs = show(n.var, d)
                if n.cuts == (1,):
                    lbl = ('not ' if i == 0 else '') + vs if not _intlike(n.var) else (
                        vs + (' < 1' if i == 0 else ' >= 1'))
                else:
                    lo = None if i == 0 else n.cuts[i - 1]
                    hi = None if i == len(n.cuts) else n.cuts[i]
                    if lo is not None and hi is not None and hi == lo + 1:
                        lbl = '%s == %s' % (vs, lo)
                    else:
                        lbl = ('%s <= ' % lo if lo is not None else '') + vs + (
                            ' < %s' % hi if hi is not None else '')
                rec(k, path + [lbl])
        else:
            for i, k in enumerate(n.kids):
                vs = show(n.var, d)
                if i < len(n.cuts):
                    lbl = '%s == %s' % (vs, show(n.cuts[i], d))
                else:
                    lbl = '%s not in {%s}' % (vs, ', '.join(show(c, d) for c in n.cuts))
                rec(k, path + [lbl])
    rec(v, [])
    return ' OR '.join(out[:5]) + (' OR ...' if len(out) > 5 else '')


def _intlike(t):
    return t.op in ('lin', 'len', 'bitand')
