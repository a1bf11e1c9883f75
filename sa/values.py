"""Smart constructors over terms/nodes: every constructor returns a canonical
value, so that expressions which mean the same thing by the identities listed
here are the same object."""
from math import gcd
from .terms import (subterms, T, C, TRUE, FALSE, NONE, UNDEF, Term, Node, is_const, cval,
                    mk_node, apply, ite, b_and, b_or, b_not, bvar, leaf_terms,
                    constrain, leaves, _vkey)

# --------------------------------------------------------------------- kinds

ATTR_KIND = {'_error_message': 'str', '__name__': 'str', }          # attribute name -> kind, from class annotations
UNSIGNED_ATTRS = set()
CALL_KIND = {}          # qualified function -> kind
CALL_TUPLE = {}         # qualified function -> length of the tuple it returns
NONNULL_CALLS = set()   # functions that never return None
METH_KIND = {}          # method name -> kind
INT_REFS = {}           # qualified constant -> int value
DISTINCT_REF_PREFIX = []  # enum-like label groups: refs below it are distinct

_param_kind = {}

INT_OPS = {'lin', 'len', 'bitand', 'bitor', 'xor', 'shr', 'mul', 'floordiv', 'mod',
           'pow', 'idx', 'sum', 'psum', 'dec', 'ord', 'ret', 'min', 'max', 'neg', 'find',
           'toint', 'shl', 'iout', 'abs'}
BYTES_OPS = {'digest', 'tobytes', 'out', 'vbytes', 'rdb', 'utf8', 'ser', 'fresh', 'cstr',
             'padded', 'rdshort'}


def kind(t):
    if type(t) is Node:
        ks = {kind(l) for l in leaf_terms(t) if l is not UNDEF}
        return ks.pop() if len(ks) == 1 else None
    o = t.op
    if o == 'const':
        v = t.args[0]
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return 'bool'
        return {int: 'int', bytes: 'bytes', str: 'str', tuple: 'tuple'}.get(type(v), 'obj')
    if o == 'seq':
        return {'b': 'bytes', 's': 'str', 'l': 'list', 't': 'tuple'}[t.args[0]]
    if o in INT_OPS:
        return 'int'
    if o in BYTES_OPS:
        return 'bytes'
    if o == 'fill':
        return 'list'
    if o in ('isinst', 'exists', 'eq', 'in', 'truth', 'exc', 'issub', 'strle'):
        return 'bool'
    if o == 'param':
        return t.args[1] if len(t.args) > 1 else None
    if o == 'attr':
        return ATTR_KIND.get(t.args[1])
    if o == 'ref':
        if t.args[0] in INT_REFS:
            return 'int'
        return CALL_KIND.get('ref:' + t.args[0], 'obj')
    if o in ('call', 'callv'):
        f = t.args[0]
        if type(f) is Term and f.op == 'param' and f.args[1:] == ('strfn',):
            return 'str'
        if type(f) is Term and f.op == 'ref':
            return CALL_KIND.get(f.args[0])
        return None
    if o == 'mcall':
        return METH_KIND.get(t.args[1])
    if o == 'rd':
        return t.args[2] if isinstance(t.args[2], str) else None
    if o in ('slice',):
        return kind(t.args[0])
    if o == 'index':
        k = kind(t.args[0])
        return 'int' if k == 'bytes' else ('str' if k == 'str' else None)
    if o == 'new':
        return 'bytes' if NEW_BYTES(t) else 'obj'
    if o in ('fstr', 'str', 'joinstr', 'lower', 'upper'):
        return 'str'
    if o in ('car', 'mu', 'fold', 'last', 'first', 'recv', 'prev'):
        return t.args[-1] if isinstance(t.args[-1], str) else None
    if o == 'binop':
        return None
    return None


def NEW_BYTES(t):
    return False


def norm_bool(t):
    return bvar(t) if kind(t) == 'bool' and not is_const(t) else t


# ------------------------------------------------------------------- integers

def as_int(t):
    """leaf -> (tuple of (term, coef) sorted, const) or None"""
    if t.op == 'const':
        v = t.args[0]
        if isinstance(v, int):
            return (), int(v)
        return None
    if t.op == 'ref' and t.args[0] in INT_REFS:
        return (), INT_REFS[t.args[0]]
    if t.op == 'lin':
        return t.args[0], t.args[1]
    return ((t, 1),), 0


def mk_lin(coefs, k):
    items = tuple((t, c) for t, c in coefs if c)
    if not items:
        return C(k)
    items = tuple(sorted(items, key=lambda p: p[0].id))
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return T('lin', items, k)


def _lin2(fn):
    return fn


def add_leaf(a, b, sb=1):
    x, y = as_int(a), as_int(b)
    if x is None or y is None:
        return T('binop', '+' if sb == 1 else '-', a, b)
    d = {t.id: [t, c] for t, c in x[0]}
    for t, c in y[0]:
        if t.id in d:
            d[t.id][1] += sb * c
        else:
            d[t.id] = [t, sb * c]
    return mk_lin([(t, c) for t, c in d.values()], x[1] + sb * y[1])


def scale_leaf(a, k):
    x = as_int(a)
    return mk_lin([(t, c * k) for t, c in x[0]], x[1] * k)


SEQK = {'bytes': 'b', 'str': 's', 'list': 'l', 'tuple': 't'}


def add(a, b):
    def f(x, y):
        kx, ky = kind(x), kind(y)
        if kx in SEQK or ky in SEQK:
            k = SEQK[kx] if kx in SEQK else SEQK[ky]
            return concat(k, [x, y])
        if (kx in ('int', 'bool') or ky in ('int', 'bool')):
            return add_leaf(x, y)
        if kx is None and ky is None:
            return T('binop', '+', x, y)
        return T('binop', '+', x, y)
    return apply(f, a, b)


def sub(a, b):
    def f(x, y):
        return add_leaf(x, y, -1)
    return apply(f, a, b)


def mul(a, b):
    def f(x, y):
        kx, ky = kind(x), kind(y)
        for p, q, kp in ((x, y, kx), (y, x, ky)):
            if kp in SEQK:
                return repeat(p, q)
        if is_const(x) and isinstance(cval(x), int):
            return scale_leaf(y, int(cval(x)))
        if is_const(y) and isinstance(cval(y), int):
            return scale_leaf(x, int(cval(y)))
        s = sorted((x, y), key=lambda t: t.id)
        return T('mul', *s)
    return apply(f, a, b)


def icval(t):
    """python int of a constant leaf or None"""
    if t.op == 'const' and isinstance(t.args[0], int):
        return int(t.args[0])
    if t.op == 'ref' and t.args[0] in INT_REFS:
        return INT_REFS[t.args[0]]
    return None


def bitand(a, b):
    def f(x, y):
        cx, cy = icval(x), icval(y)
        if cx is not None and cy is not None:
            return C(cx & cy)
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None:
            if cy == 0:
                return C(0)
            if cy == -1:
                return x
            if x.op == 'bitand' and icval(x.args[1]) is not None:
                return f(x.args[0], C(icval(x.args[1]) & cy))
            if x.op == 'bitor':
                parts = [f(p, C(cy)) for p in x.args]
                return bitor_leaf(parts)
            if x.op == 'index' and kind(x.args[0]) == 'bytes' and cy == 255:
                return x
            m = cy if cy > 0 else ~cy
            if m >= 1 << 24 and m & (m + 1) == 0 and x.op in ('attr', 'dec') and \
                    (bounds(x)[0] or -1 if bounds(x)[0] != 0 else 0) >= 0:
                # small values are not changed / have no high bits
                r = T('bitand', x, C(cy))
                return icase_leaf(x, (m + 1,), (x, r) if cy > 0 else (C(0), r))
            return T('bitand', x, C(cy))
        s = sorted((x, y), key=lambda t: t.id)
        return T('bitand', *s)
    return apply(f, a, b)


def bitor_leaf(parts):
    k = 0
    ts = []
    for p in parts:
        c = icval(p)
        if c is not None:
            k |= c
        elif p.op == 'bitor':
            for q in p.args:
                c = icval(q)
                if c is not None:
                    k |= c
                else:
                    ts.append(q)
        else:
            ts.append(p)
    u = {}
    for t in ts:
        u[t.id] = t
    ts = [u[i] for i in sorted(u)]
    if not ts:
        return C(k)
    if k:
        ts.append(C(k))
    if len(ts) == 1:
        return ts[0]
    return T('bitor', *ts)


def bitor(a, b):
    return apply(lambda x, y: bitor_leaf([x, y]), a, b)


def bitxor(a, b):
    def f(x, y):
        k = 0
        cnt = {}
        for p in (x, y):
            for q in (p.args if p.op == 'xor' else (p,)):
                c = icval(q)
                if c is not None:
                    k ^= c
                elif q.id in cnt:
                    del cnt[q.id]
                else:
                    cnt[q.id] = q
        ts = [cnt[i] for i in sorted(cnt)]
        if not ts:
            return C(k)
        if k:
            ts.append(C(k))
        return ts[0] if len(ts) == 1 else T('xor', *ts)
    return apply(f, a, b)


def invert(a):
    def f(x):
        c = icval(x)
        if c is not None:
            return C(~c)
        return add_leaf(scale_leaf(x, -1), C(-1))
    return apply(f, a)


def shl(a, b):
    def f(x, y):
        c = icval(y)
        if c is not None and c >= 0:
            return scale_leaf(x, 1 << c)
        return T('shl', x, y)
    return apply(f, a, b)


def shr(a, b):
    def f(x, y):
        cx, cy = icval(x), icval(y)
        if cx is not None and cy is not None and cy >= 0:
            return C(cx >> cy)
        if cy == 0:
            return x
        if cy is not None and x.op == 'shr' and icval(x.args[1]) is not None:
            return T('shr', x.args[0], C(cy + icval(x.args[1])))
        if cy is not None and cy > 0 and x.op == 'bitand' and (icval(x.args[1]) or -1) >= 0:
            return bitand(shr(x.args[0], C(cy)), C(icval(x.args[1]) >> cy))
        return T('shr', x, y)
    return apply(f, a, b)


def floordiv(a, b):
    def f(x, y):
        cx, cy = icval(x), icval(y)
        if cx is not None and cy:
            return C(cx // cy)
        if cy and cy > 0 and cy & (cy - 1) == 0:
            return shr(x, C(cy.bit_length() - 1))
        return T('floordiv', x, y)
    return apply(f, a, b)


def mod(a, b):
    def f(x, y):
        cx, cy = icval(x), icval(y)
        if cx is not None and cy:
            return C(cx % cy)
        if cy and cy > 0 and cy & (cy - 1) == 0:
            return bitand(x, C(cy - 1))
        return T('mod', x, y)
    return apply(f, a, b)


def bounds(t):
    """known [lo, hi] of an int leaf term (None: unbounded)"""
    c = icval(t)
    if c is not None:
        return c, c
    o = t.op
    if o == 'len' or o == 'sum' and False:
        return 0, None
    if o == 'idx':
        return 0, None
    if o == 'find':
        n = cval(t.args[1]) if t.args[1].op == 'const' else None
        return -1, len(n) - 1 if n else None
    if o == 'ret':
        # library contract: 1 on success, 0 on failure; counts are not negative
        if t.args[0].args[0] in ('secp256k1_surjectionproof_allocate_initialized',
                                 'secp256k1_surjectionproof_serialized_size'):
            return 0, None
        return 0, 1
    if o == 'bitand':
        m = icval(t.args[1])
        if m is not None and m >= 0:
            return 0, m
        return None, None
    if o == 'bitor':
        bs = [bounds(p) for p in t.args]
        los = [lo for lo, _ in bs]
        if any(lo is None or lo < 0 for lo in los):
            return None, None
        his = [hi for _, hi in bs]
        hi = None if None in his else (1 << max(his).bit_length()) - 1
        return max(los), hi
    if o == 'shr':
        lo, hi = bounds(t.args[0])
        k = icval(t.args[1])
        if k is None or k < 0:
            return (0, hi) if lo is not None and lo >= 0 else (None, None)
        return None if lo is None else lo >> k, None if hi is None else hi >> k
    if o == 'mod':
        m = icval(t.args[1])
        return (0, m - 1) if m is not None and m > 0 else (None, None)
    if o == 'index' and kind(t.args[0]) == 'bytes':
        return 0, 255
    if o == 'attr' and t.args[1] in UNSIGNED_ATTRS:
        return 0, None
    if o == 'ord':
        return 0, None
    if o == 'dec':
        fmt = t.args[0]
        if fmt[-1] in 'BHIQ' and len(fmt) <= 2:
            n = {'B': 8, 'H': 16, 'I': 32, 'Q': 64}[fmt[-1]]
            return 0, (1 << n) - 1
        return None, None
    if o == 'psum' or o == 'sum':
        return 0, None
    if o == 'lin':
        lo, hi = t.args[1], t.args[1]
        its = list(t.args[0])
        # idx(rng(n)) - n  <=  -1
        if len(its) >= 2:
            for p, c in its:
                if p.op == 'idx' and abs(c) == 1:
                    n = p.args[0].args[0]
                    ln = as_int(n)
                    if ln is None:
                        continue
                    d = {q.id: cc for q, cc in its}
                    want = {q.id: -c * cc for q, cc in ln[0]}
                    rest = {k: v for k, v in d.items() if k != p.id}
                    if rest == want and want:
                        # value = c*(idx - n) + (const + c*nconst)
                        base = t.args[1] + c * ln[1]
                        if c > 0:
                            return None, base - 1
                        return base + 1, None
        for p, c in its:
            l, h = bounds(p)
            a, b = (l, h) if c > 0 else (h, l)
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        return lo, hi
    return None, None


def icase_leaf(x, cuts, kids):
    """value kids[i] where x falls in the i-th interval"""
    c = icval(x)
    if c is not None:
        i = 0
        while i < len(cuts) and c >= cuts[i]:
            i += 1
        return kids[i]
    coefs, k = as_int(x)
    if x.op == 'bitor':
        m = [icval(q) for q in x.args if icval(q) is not None]
    g = 0
    for _, cc in coefs:
        g = gcd(g, abs(cc))
    neg = coefs[0][1] < 0
    s = -1 if neg else 1
    y = mk_lin([(t, s * cc // g) for t, cc in coefs], 0)
    if neg:
        # x = -g*y + k ;  x < c  <=>  y > (k-c)/g  <=> y >= floor((k-c)/g)+1
        ncuts = [((k - cc) // g) + 1 for cc in reversed(cuts)]
        nkids = list(reversed(kids))
    else:
        ncuts = [-((k - cc) // g) for cc in cuts]
        nkids = list(kids)
    lo, hi = bounds(y)
    fc, fk = [], [nkids[0]]
    for cc, kd in zip(ncuts, nkids[1:]):
        if fc and cc <= fc[-1]:
            fk[-1] = kd
            continue
        if lo is not None and cc <= lo:
            fk[-1] = kd
            continue
        if hi is not None and cc > hi:
            break
        fc.append(cc)
        fk.append(kd)
    if not fc:
        return fk[0]
    # single-bit / power-of-two masks: only two values exist
    if y.op == 'bitand':
        m = icval(y.args[1])
        if m is not None and m > 0 and m & (m - 1) == 0:
            v0 = 0
            while v0 < len(fc) and 0 >= fc[v0]:
                v0 += 1
            v1 = 0
            while v1 < len(fc) and m >= fc[v1]:
                v1 += 1
            fc, fk = [1], [fk[v0], fk[v1]]
        elif m is not None and m < 0 and (-m) & (-m - 1) == 0:
            b0 = bounds(y.args[0])[0]
            if b0 is not None and b0 >= 0:
                # x & -(2^k), x >= 0: multiple of 2^k
                p = -m
                nf, nk = [], [fk[0]]
                for cc, kd in zip(fc, fk[1:]):
                    cc2 = -((-cc) // p) * p
                    if nf and cc2 <= nf[-1]:
                        nk[-1] = kd
                    else:
                        nf.append(cc2)
                        nk.append(kd)
                return icase_leaf(y.args[0], tuple(nf), tuple(nk))
    if y.op == 'shr' and icval(y.args[1]) is not None:
        p = 1 << icval(y.args[1])
        return icase_leaf(y.args[0], tuple(cc * p for cc in fc), tuple(fk))
    if y.op == 'find' and y.args[0] == 'find' and fc == [0]:
        # s.find(x) < 0  ->  x not in s
        return ite(bvar(T('in', y.args[2], y.args[1])), fk[1], fk[0])
    if y.op == 'shr' and all(cc in (0, 1) for cc in fc):
        # x >> k < c  ->  x < c << k
        r = fk[-1]
        for cc, kd in zip(reversed(fc), reversed(fk[:-1])):
            r = ite(lt(y.args[0], mul(C(cc), shl(C(1), y.args[1]))), kd, r)
        return r
    if any(type(q) is Node for q in fk):
        r = fk[-1]
        for cc, kd in zip(reversed(fc), reversed(fk[:-1])):
            r = ite(mk_node(y, 'i', (cc,), (TRUE, FALSE)), kd, r)
        return r
    return mk_node(y, 'i', tuple(fc), tuple(fk))


def icase(x, cuts, kids):
    return apply(lambda l: icase_leaf(l, cuts, kids), x)


def lt(a, b):
    def f(x, y):
        if (is_const(x) and isinstance(cval(x), (str, bytes))) or \
                (is_const(y) and isinstance(cval(y), (str, bytes))) or kind(x) in SEQK:
            if is_const(x) and is_const(y):
                return C(cval(x) < cval(y))
            return bvar(T('strle', x, y))
        return icase_leaf(add_leaf(x, y, -1), (0,), (TRUE, FALSE)) \
            if as_int(x) is not None and as_int(y) is not None else bvar(T('strle', x, y))
    return apply(f, a, b)


def le(a, b):
    return b_not(lt(b, a))


NONNULL_OPS = {'seq', 'fill', 'addr', 'new', 'len', 'lin', 'isinst', 'ref', 'lambda',
               'digest', 'out', 'idx', 'tobytes', 'fresh', 'ffi', 'ret', 'el', 'closure',
               'self', 'fstr', 'dec', 'rdb', 'ser', 'iout', 'thasher', 'ctarr', 'bitand', 'bitor', 'sum', 'psum', 'vbytes'}


def nonnull(t):
    if t.op == 'const':
        return t.args[0] is not None
    if t.op in NONNULL_OPS:
        return True
    if t.op == 'param' and len(t.args) > 2 and t.args[2] == 'nonnull':
        return True
    if t.op == 'call' and t.args[0].op == 'ref' and \
            (CALL_KIND.get(t.args[0].args[0]) is not None or t.args[0].args[0] in NONNULL_CALLS):
        return True
    return False


def is_label(t):
    return t.op == 'const' or t.op == 'ref' or (
        t.op == 'new' and not t.args[1])


def distinct_labels(a, b):
    if a is b:
        return False
    if a.op == 'const' and b.op == 'const':
        return a.args[0] != b.args[0]
    if a.op == 'const' or b.op == 'const':
        o = b if a.op == 'const' else a
        c = a if a.op == 'const' else b
        if c.args[0] is None:
            return True
        return o.op == 'ref' and o.args[0] not in INT_REFS
    if a.op == 'ref' and b.op == 'ref':
        pa, pb = a.args[0].rpartition('.')[0], b.args[0].rpartition('.')[0]
        return pa == pb
    return None


def eq(a, b):
    return apply(eq_leaf, a, b)


def eq_leaf(x, y):
    if x is y:
        return TRUE
    cx, cy = icval(x), icval(y)
    if cx is not None and cy is not None:
        return C(cx == cy)
    if x.op == 'const' and y.op == 'const':
        return C(x.args[0] == y.args[0])
    for p, q in ((x, y), (y, x)):
        if p is NONE:
            if nonnull(q):
                return FALSE
            return mk_node(q, 'l', (NONE,), (TRUE, FALSE))
        if p.op == 'const' and p.args[0] is True or p is FALSE:
            if kind(q) == 'bool':
                return bvar(q) if p is TRUE else b_not(bvar(q))
    kx, ky = kind(x), kind(y)
    if x.op == 'seq' and y.op == 'seq' and x.args[0] == y.args[0] == 't' and \
            all(i.op == 'el' for i in x.args[1:]) and all(i.op == 'el' for i in y.args[1:]):
        if len(x.args) != len(y.args):
            return FALSE
        return b_and(*[eq(i.args[0], j.args[0]) for i, j in zip(x.args[1:], y.args[1:])])
    for p, q in ((x, y), (y, x)):
        if p.op == 'call' and p.args[0].op == 'ref' and p.args[0].args[0] in CALL_TUPLE and \
                q.op == 'seq' and q.args[0] == 't' and all(i.op == 'el' for i in q.args[1:]) and \
                len(q.args) - 1 == CALL_TUPLE[p.args[0].args[0]]:
            return b_and(*[eq(T('index', p, C(n)), i.args[0]) for n, i in enumerate(q.args[1:])])
    for p, q, kq in ((x, y, ky), (y, x, kx)):
        if p.op == 'const' and isinstance(p.args[0], (bytes, str)) and len(p.args[0]) == 0 \
                and kq in SEQK:
            return icase(length(q), (1,), (TRUE, FALSE))
    if kx == 'int' or ky == 'int' or cx is not None or cy is not None:
        if as_int(x) is not None and as_int(y) is not None:
            d = add_leaf(x, y, -1)
            return icase_leaf(d, (0, 1), (FALSE, TRUE, FALSE))
        return FALSE if (kx == 'int' and ky in SEQK or ky == 'int' and kx in SEQK) \
            else bvar(T('eq', *sorted((x, y), key=lambda t: t.id)))
    if x.op == 'seq' and y.op == 'seq' and x.args[0] == y.args[0]:
        # cancel common prefix / suffix
        xi, yi = list(x.args[1:]), list(y.args[1:])
        while xi and yi and xi[0] is yi[0]:
            xi.pop(0)
            yi.pop(0)
        while xi and yi and xi[-1] is yi[-1]:
            xi.pop()
            yi.pop()
        nx, ny = mkseq(x.args[0], xi), mkseq(y.args[0], yi)
        if nx is ny:
            return TRUE
        if nx is not x:
            return eq(nx, ny)
    if is_label(x) or is_label(y):
        if is_label(x) and is_label(y):
            d = distinct_labels(x, y)
            if d is True:
                return FALSE
            return bvar(T('eq', *sorted((x, y), key=lambda t: t.id)))
        p, q = (x, y) if is_label(y) else (y, x)
        return mk_node(p, 'l', (q,), (TRUE, FALSE))
    return bvar(T('eq', *sorted((x, y), key=lambda t: t.id)))


def truth(a):
    def f(x):
        if x.op == 'const':
            return C(bool(x.args[0]))
        if x.op == 'attr' and isinstance(x.args[1], str) and x.args[1].startswith('secp256k1_'):
            return TRUE
        k = kind(x)
        if k == 'bool':
            return bvar(x)
        if k == 'int':
            return icase_leaf(x, (0, 1), (TRUE, FALSE, TRUE))
        if k == 'int?':
            return b_and(b_not(eq_leaf(x, NONE)), icase_leaf(x, (0, 1), (TRUE, FALSE, TRUE)))
        if k in SEQK:
            return icase(length(x), (1,), (FALSE, TRUE))
        if k == 'list?' or k == 'bytes?':
            return b_and(b_not(eq_leaf(x, NONE)), icase(length(x), (1,), (FALSE, TRUE)))
        if k == 'obj?':
            return b_not(eq_leaf(x, NONE))
        if x.op == 'new' or x.op in ('addr', 'closure', 'lambda'):
            return TRUE if x.op != 'new' else bvar(T('truth', x))
        if x is UNDEF:
            return FALSE
        return bvar(T('truth', x))
    return apply(f, a)


# ------------------------------------------------------------------ sequences

EMPTY = {'b': C(b''), 's': C(''), 'l': T('seq', 'l'), 't': T('seq', 't')}


def items_of(k, t):
    """items of a sequence-valued leaf when used inside a sequence of kind k"""
    if t.op == 'seq':
        return list(t.args[1:])
    if t.op == 'const' and isinstance(t.args[0], (bytes, str)):
        return [t] if t.args[0] else []
    if k in ('b', 's'):
        return [T('raw', t)]
    return [T('splat', t)]


def mkseq(k, items):
    out = []
    for it in items:
        if it.op == 'const':
            if out and out[-1].op == 'const':
                out[-1] = C(out[-1].args[0] + it.args[0])
                continue
            if not it.args[0]:
                continue
        elif it.op == 'enc' and is_const(it.args[1]):
            import struct
            try:
                c = C(struct.pack(it.args[0], cval(it.args[1])))
            except struct.error:
                c = it
            if c.op == 'const' and out and out[-1].op == 'const':
                out[-1] = C(out[-1].args[0] + c.args[0])
                continue
            it = c
        elif it.op == 'enc' and it.args[0] == 'B' and type(it.args[1]) is Term and \
                it.args[1].op == 'index' and it.args[1].args[1] is C(0) and \
                kind(it.args[1].args[0]) == 'bytes' and \
                length_leaf(it.args[1].args[0]) is C(1):
            it = T('raw', it.args[1].args[0])
        elif it.op == 'raw' and it.args[0].op in ('seq', 'const'):
            for q in items_of(k, it.args[0]):
                if q.op == 'const' and out and out[-1].op == 'const':
                    out[-1] = C(out[-1].args[0] + q.args[0])
                else:
                    out.append(q)
            continue
        elif it.op == 'splat' and it.args[0].op == 'seq':
            out.extend(it.args[0].args[1:])
            continue
        elif it.op == 'each' and is_empty_bv(it.args[1]):
            continue
        out.append(it)
    if k == 'l' and len(out) == 1 and out[0].op == 'splat' and \
            out[0].args[0].op in ('setall', 'psetall', 'setitem'):
        return out[0].args[0]
    if k in ('b', 's'):
        if not out:
            return EMPTY[k]
        if len(out) == 1:
            if out[0].op == 'const':
                return out[0]
            if out[0].op == 'raw':
                return out[0].args[0]
    return T('seq', k, *out)


def is_empty_bv(bv):
    return type(bv) is Term and (bv is EMPTY['l'] or bv is EMPTY['b'] or bv is EMPTY['s']
                                 or bv is EMPTY['t'])


def concat(k, parts):
    items = []
    for p in parts:
        items.extend(items_of(k, p))
    return mkseq(k, items)


def concat_v(k, *vs):
    return apply(lambda *ls: concat(k, ls), *vs)


def item_len(it, k):
    o = it.op
    if o == 'const':
        return C(len(it.args[0]))
    if o == 'enc':
        import struct
        return C(struct.calcsize(it.args[0]))
    if o == 'el':
        return C(1)
    if o in ('splat', 'raw'):
        return length_leaf(it.args[0])
    if o == 'each':
        return sum_over(it.args[0], length_bv(it.args[1], k))
    return T('len', it)


def length_bv(bv, k):
    return apply(lambda s: length_leaf(s), bv)


def sum_over(rng, dv):
    """Sum over the range of the per-iteration value dv"""
    if type(dv) is Term and not mentions_idx(dv, rng):
        c = icval(dv)
        n = rng.args[0]
        if c is not None:
            return scale_leaf(n, c)
        return mul(n, dv)
    return T('sum', rng, dv)


def psum_over(rng, i, dv):
    if type(dv) is Term and not mentions_idx(dv, rng):
        return mul(i, dv)
    return T('psum', rng, i, dv)


# lengths of given sequences while a bounded instance is analysed (sa/bounded.py)
BOUND = None


def path_of(t):
    """tx.vin[0].x as text, for values named by a path from a parameter"""
    if t.op == 'param':
        return str(t.args[0])
    if t.op == 'self':
        return 'self'
    if t.op == 'attr' and type(t.args[0]) is Term:
        p = path_of(t.args[0])
        return None if p is None else p + '.' + t.args[1]
    if t.op == 'index' and is_const(t.args[1]):
        p = path_of(t.args[0])
        return None if p is None else '%s[%s]' % (p, cval(t.args[1]))
    if t.op == 'index' and t.args[1].op == 'idx':
        p = path_of(t.args[0])
        return None if p is None else p + '[#]'
    return None


def length_leaf(t):
    if t.op == 'const':
        try:
            return C(len(t.args[0]))
        except TypeError:
            return T('len', t)
    if t.op == 'seq':
        r = C(0)
        for it in t.args[1:]:
            r = add(r, item_len(it, t.args[0]))
        return r
    if t.op == 'fill':
        return t.args[1]
    if t.op == 'slice':
        ln = length_leaf(t.args[0])
        a, b = t.args[1], t.args[2]
        return T('len', t)
    if t.op == 'digest':
        return C(32)
    if t.op == 'rdb' and type(t.args[1]) is Term:
        return t.args[1]
    if t.op == 'tobytes' or t.op in ('lower', 'upper', 'sorted', 'rev'):
        return length_leaf(t.args[0])
    if t.op == 'new' and NEW_BYTES(t):
        if not t.args[1]:
            return C(0)
        if len(t.args[1]) == 1 and type(t.args[1][0][1]) is Term and \
                kind(t.args[1][0][1]) == 'bytes':
            return length_leaf(t.args[1][0][1])
    if t.op == 'fresh':
        return t.args[1]
    if t.op == 'out' and type(t.args[0]) is Term and t.args[0].op == 'ffi' and \
            type(t.args[1]) is int and t.args[1] + 1 < len(t.args[0].args):
        # a buffer a call wrote: the size it was created with; the blinding
        # factors of the sum are 32 bytes each
        o = t.args[0].args[t.args[1] + 1]
        if type(o) is Term and o.op == 'obuf' and type(o.args[0]) is Term:
            return o.args[0]
        if t.args[0].args[0] == 'secp256k1_pedersen_blind_generator_blind_sum':
            return C(32)
    if t.op in ('setitem', 'setall', 'psetall'):
        # element writes keep the length
        base = t.args[{'setitem': 0, 'setall': 1, 'psetall': 2}[t.op]]
        if type(base) is Term:
            return length_leaf(base)
    if BOUND is not None:
        n = BOUND(t)
        if n is not None:
            return C(n)
    return T('len', t)


def length(v):
    return apply(length_leaf, v)


def repeat(p, n):
    """sequence * int"""
    c = icval(n)
    k = SEQK[kind(p)]
    if c is not None and 0 <= c <= 64 and p.op == 'seq':
        return mkseq(k, list(p.args[1:]) * c)
    if c is not None and p.op == 'const' and 0 <= c * max(1, len(p.args[0])) <= 100000:
        return C(p.args[0] * c)
    if c is not None and 0 <= c <= 4:
        return mkseq(k, items_of(k, p) * c)
    rng = T('rng', n)
    return mkseq(k, [T('each', rng, p if p.op in ('seq', 'const') else
                       mkseq(k, items_of(k, p)))])


def mk_each(k, rng, bv):
    """items: one per iteration of rng, BV has leaves seq(k)"""
    n = icval(rng.args[0]) if rng.op == 'rng' else None
    if n is not None and 0 <= n <= 32:
        out = []
        vals = [subst_idx(bv, rng, C(i)) for i in range(n)]
        return None, vals
    if is_empty_bv(bv):
        return [], None
    if type(bv) is Term and bv.op == 'seq' and bv.args[0] in 'lt' and len(bv.args) == 2 \
            and bv.args[1].op == 'el' and type(bv.args[1].args[0]) is Term:
        e = bv.args[1].args[0]
        if e.op == 'index' and e.args[1].op == 'idx' and e.args[1].args[0] is rng and \
                rng.op == 'rng' and length_leaf(e.args[0]) is rng.args[0] and \
                not mentions_idx(e.args[0], rng):
            return [T('splat', e.args[0])], None
    if k == 'l' and type(bv) is Node and rng.op == 'rng':
        r = filled_part(rng, bv)
        if r is not None:
            return [T('splat', r)] if r.op != 'seq' else list(r.args[1:]), None
    if k == 'l' and type(bv) is Node and rng.op == 'rng':
        r = map_written(rng, bv)
        if r is not None:
            return r
    return [T('each', rng, bv)], None


def map_written(rng, bv):
    """every element x of a list replaced with g(x), the list being `base` with some
    elements written: g of base, with g of what was written"""
    idx = idx_of(rng)
    old = None
    for l in leaf_terms(bv):
        if l.op != 'seq' or l.args[0] != 'l' or len(l.args) != 2 or l.args[1].op != 'el':
            return None
    for x in subterms(bv):
        if type(x) is Term and x.op == 'index' and x.args[1] is idx and x.args[0].op in ('setall', 'psetall') and \
                length_leaf(x.args[0]) is rng.args[0]:
            old = x
    if old is None or mentions_idx(subst(bv, {old.id: T('new', 'elementstx.some', ())}), rng):
        return None
    bad = []

    def gl(l):
        if l.op != 'seq' or l.args[0] != 'l':
            bad.append(l)
            return l
        out = EMPTY['l']
        for i in l.args[1:]:
            if i.op == 'el':
                x = subst(bv, {old.id: i.args[0]})
            elif i.op == 'each':
                its, vals = mk_each('l', i.args[0], apply(gl, i.args[1]))
                if its is None:
                    bad.append(i)
                    return l
                x = mkseq('l', its)
            else:
                bad.append(i)
                return l
            out = apply(lambda a, b: concat('l', [a, b]), out, x)
        return out
    s = old.args[0]
    base, body = apply(gl, s.args[-2]), apply(gl, s.args[-1])
    if bad or type(base) is not Term:
        return None
    return [T('splat', T(s.op, *s.args[:-2], base, body))], None


def filled_part(rng, bv):
    """[x for x in L if x is not None], L preallocated with None and its start
    written with things that are not None -> the written part"""
    for l in leaf_terms(bv):
        if l.op != 'seq' or l.args[0] != 'l' or len(l.args) > 2:
            return None
        if len(l.args) == 2:
            e = l.args[1]
            if e.op != 'el' or type(e.args[0]) is not Term or e.args[0].op != 'index' or \
                    e.args[0].args[0].op != 'fill' or e.args[0].args[1] is not idx_of(rng):
                return None
            f, at = e.args[0].args[0], e.args[0]
    if f.args[1] is not rng.args[0] or mentions_idx(f, rng):
        return None
    if subst(bv, {at.id: NONE}) is not EMPTY['l'] or \
            not same_when_nonnull(bv, at):
        return None
    pre, base = f.args[0], f.args[2]
    if type(pre) is not Term or type(base) is not Term or pre.op != 'seq' or base.op != 'seq':
        return T('somefill', rng, bv)

    def every(items, ok):
        for i in items:
            if i.op == 'el':
                vs = leaf_terms(i.args[0])
            elif i.op in ('each', 'peach'):
                b = i.args[-1]
                for q in leaf_terms(b):
                    if q.op != 'seq' or not every(q.args[1:], ok):
                        return False
                continue
            else:
                return False
            if not all(ok(x) for x in vs):
                return False
        return True
    if every(pre.args[1:], nonnull) and every(base.args[1:], lambda x: x is NONE):
        return pre
    return T('somefill', rng, bv)


def same_when_nonnull(bv, at):
    """bv is [at] whenever `at` is not None"""
    w = T('new', 'elementstx.some', ())
    return subst(bv, {at.id: w}) is mkseq('l', [T('el', w)])


def mk_index(a, i):
    return apply(index_leaf, a, i)


def each_single(it):
    """each item whose body is always exactly one element -> body element V"""
    bv = it.args[1]
    for l in leaf_terms(bv):
        if not (l.op == 'seq' and len(l.args) == 2 and l.args[1].op == 'el'):
            return None
    return apply(lambda l: l.args[1].args[0], bv)


def index_leaf(a, i):
    ci = icval(i)
    if a.op == 'const' and ci is not None:
        try:
            return C(a.args[0][ci])
        except (IndexError, TypeError):
            return T('index', a, i)
    if a.op == 'fill':
        return T('index', a, i)
    if a.op == 'setitem' and a.args[1] is i:
        return a.args[2]
    if a.op == 'seq':
        its = a.args[1:]
        if ci is not None and ci >= 0 and a.args[0] in 'lt':
            pos = 0
            for it in its:
                if it.op != 'el':
                    break
                if pos == ci:
                    return it.args[0]
                pos += 1
            else:
                return T('index', a, i)
        if ci is not None and ci >= 0 and a.args[0] == 'b':
            off = 0
            for it in its:
                ln = icval(item_len(it, 'b'))
                if ln is None:
                    if it.op == 'raw' and off == 0 and len(its) == 1:
                        return index_leaf(it.args[0], i)
                    break
                if off <= ci < off + ln:
                    if it.op == 'const':
                        return C(it.args[0][ci - off])
                    if it.op == 'enc' and it.args[0] in ('B', '<B', '>B'):
                        return it.args[1]
                    if it.op == 'raw':
                        return index_leaf(it.args[0], C(ci - off))
                    break
                off += ln
        if ci is not None and ci < 0 and a.args[0] in 'lt':
            pos = -1
            for it in reversed(its):
                if it.op != 'el':
                    break
                if pos == ci:
                    return it.args[0]
                pos -= 1
        if ci is not None and ci < 0 and a.args[0] in 'lt' and len(its) == 1 and \
                its[0].op == 'splat':
            return T('index', its[0].args[0], i)
        if its and its[0].op == 'splat' and (
                len(its) == 1 or (i.op == 'idx' and i.args[0].args[0] is
                                  length_leaf(its[0].args[0]))):
            return index_leaf(its[0].args[0], i)
        if its and its[0].op == 'each':
            e = each_single(its[0])
            rng = its[0].args[0]
            if e is not None and (len(its) == 1 and (ci is None or ci >= 0) or (
                    i.op == 'idx' and i.args[0].args[0] is rng.args[0])):
                if rng.op == 'rng':
                    return subst_idx(e, rng, i)
        if ci is None and len(its) > 1 and its[0].op == 'el' and a.args[0] in 'lt':
            # constant-shifted index: seq(el..., each/splat)[i]
            lead = 0
            while lead < len(its) and its[lead].op == 'el':
                lead += 1
            x = as_int(i)
            if x and x[1] >= lead and all(bounds(t)[0] is not None and c > 0 and
                                          bounds(t)[0] >= 0 for t, c in x[0]):
                return index_leaf(mkseq(a.args[0], its[lead:]), add_leaf(i, C(-lead)))
    return norm_bool(T('index', a, i))


def mk_slice(a, lo, hi):
    return apply(slice_leaf, a, lo, hi)


def slice_leaf(a, lo, hi):
    if lo is NONE or icval(lo) == 0:
        lo = NONE
    if hi is not NONE and hi is length_leaf(a):
        hi = NONE
    if lo is NONE and hi is NONE:
        return a
    cl = 0 if lo is NONE else icval(lo)
    ch = None if hi is NONE else icval(hi)
    if a.op == 'const' and cl is not None and (hi is NONE or ch is not None):
        if not isinstance(a.args[0], (str, bytes, tuple)):
            return UNDEF
        return C(a.args[0][cl:ch])
    if a.op == 'fill':
        if lo is NONE and hi is not NONE and length_leaf(a.args[0]) is hi:
            return a.args[0]
    if a.op == 'seq' and hi is not NONE and lo is NONE and ch is not None and ch < 0:
        its = list(a.args[1:])
        if a.args[0] in 'lt':
            n = -ch
            ok = len(its) >= n and all(i.op == 'el' for i in its[len(its) - n:])
            if ok:
                return mkseq(a.args[0], its[:len(its) - n])
    if a.op == 'seq' and cl is not None and cl >= 0 and (hi is NONE or (ch or -1) >= 0):
        out = []
        off = 0
        good = True
        its = list(a.args[1:])
        for j, it in enumerate(its):
            if ch is not None and off >= ch:
                break
            ln = icval(item_len(it, a.args[0]))
            if ln is None:
                if off >= cl and hi is NONE:
                    out.extend(its[j:])
                    break
                good = False
                break
            s, e = max(cl, off), off + ln if ch is None else min(ch, off + ln)
            if e <= s:
                off += ln
                continue
            if s == off and e == off + ln:
                out.append(it)
            elif it.op == 'const':
                out.append(C(it.args[0][s - off:e - off]))
            elif it.op == 'raw':
                out.append(T('raw', slice_leaf(it.args[0], C(s - off), C(e - off))))
            else:
                good = False
                break
            off += ln
        if good:
            return mkseq(a.args[0], out)
    if a.op == 'slice' and hi is NONE and cl is not None and cl >= 0:
        l2 = 0 if a.args[1] is NONE else icval(a.args[1])
        if l2 is not None and l2 >= 0:
            return slice_leaf(a.args[0], C(cl + l2), a.args[2])
    if a.op == 'slice' and hi is not NONE and cl is not None and cl >= 0 and ch is not None and ch >= 0:
        l2 = 0 if a.args[1] is NONE else icval(a.args[1])
        h2 = None if a.args[2] is NONE else icval(a.args[2])
        if l2 is not None and l2 >= 0 and (a.args[2] is NONE or h2 is not None and h2 >= 0):
            e = l2 + ch if h2 is None else min(h2, l2 + ch)
            return slice_leaf(a.args[0], C(l2 + cl), C(e))
    # seq split at a boundary by symbolic length
    if a.op == 'seq' and (lo is NONE) != (hi is NONE):
        cut = hi if lo is NONE else lo
        acc = C(0)
        its = list(a.args[1:])
        for j in range(len(its) + 1):
            if acc is cut:
                return mkseq(a.args[0], its[:j] if lo is NONE else its[j:])
            if j < len(its):
                acc = add(acc, item_len(its[j], a.args[0]))
                if type(acc) is Node:
                    break
    return T('slice', a, lo, hi)


def setitem_leaf(a, i, v):
    """list content after a[i] = v"""
    ci = icval(i)
    if a.op == 'seq' and ci is not None:
        its = list(a.args[1:])
        if ci >= 0:
            if all(it.op == 'el' for it in its[:ci + 1]) and len(its) > ci:
                its[ci] = T('el', v)
                return mkseq(a.args[0], its)
        else:
            n = -ci
            if len(its) >= n and all(it.op == 'el' for it in its[len(its) - n:]):
                its[len(its) - n] = T('el', v)
                return mkseq(a.args[0], its)
            if n == 1 and its and its[-1].op == 'each' and False:
                pass
    if a.op == 'setitem' and a.args[1] is i:
        return T('setitem', a.args[0], i, v)
    return T('setitem', a, i, v)


# ---------------------------------------------------------------- binders

# terms T(op, range, ...) which bind the loop index of their range; the value
# lists the argument positions which are evaluated outside the loop body
BINDERS = {'each': (), 'exists': (), 'sum': (), 'first': (), 'last': (1,),
           'stores': (1,), 'setall': (1,), 'brk': (3,), 'col': (1,),
           'psum': (1,), 'peach': (1,), 'pexists': (1,), 'prev': (1, 2),
           'somefill': (), 'psetall': (1, 2), 'pstores': (1, 2)}


def idx_of(rng):
    return T('idx', rng)


_free_memo = {}


def free_idx(v):
    """frozenset of ids of free idx terms"""
    key = (type(v) is Node, v.id)
    r = _free_memo.get(key)
    if r is not None:
        return r
    if type(v) is Node:
        r = free_idx(v.var)
        for k in v.kids:
            r = r | free_idx(k)
        if v.mode == 'l':
            for k in v.cuts:
                r = r | free_idx(k)
    elif v.op == 'idx':
        r = frozenset([v.id]) | free_idx(v.args[0])
    else:
        r = frozenset()
        if v.op in BINDERS:
            rng = v.args[0]
            bound = idx_of(rng).id
            inner = frozenset()
            outer = free_idx(rng)
            for j, a in enumerate(v.args[1:], 1):
                if j in BINDERS[v.op]:
                    outer = outer | _fi(a)
                else:
                    inner = inner | _fi(a)
            r = outer | (inner - {bound})
        else:
            r = _fi(v.args)
    _free_memo[key] = r
    return r


def _fi(a):
    if isinstance(a, (Term, Node)):
        return free_idx(a)
    if isinstance(a, tuple):
        r = frozenset()
        for x in a:
            r = r | _fi(x)
        return r
    return frozenset()


def mentions_idx(v, rng):
    return idx_of(rng).id in free_idx(v)


def subst_idx(v, rng, i):
    return subst(v, {idx_of(rng).id: i})


def subst(v, m, memo=None):
    """substitute terms (by id) with values, re-normalising"""
    if not m:
        return v
    memo = {} if memo is None else memo

    def rec(v):
        if isinstance(v, tuple):
            return tuple(rec(x) for x in v)
        if not isinstance(v, (Term, Node)):
            return v
        key = (type(v) is Node, v.id)
        r = memo.get(key)
        if r is not None:
            return r
        if type(v) is Node:
            var = rec(v.var)
            if var is v.var:
                r = case(v.var, v.mode, v.cuts, [rec(k) for k in v.kids]) \
                    if any(rec(k) is not k for k in v.kids) or v.mode == 'l' else v
            else:
                r = case(var, v.mode, v.cuts, [rec(k) for k in v.kids])
        elif v.id in m:
            r = m[v.id]
        elif v.op in ('const', 'param', 'ref', 'undef'):
            r = v
        elif v.op in BINDERS and idx_of(v.args[0]).id in m:
            m2 = {k: x for k, x in m.items() if k != idx_of(v.args[0]).id}
            na = [rec(v.args[0])]
            for j, a in enumerate(v.args[1:], 1):
                if j in BINDERS[v.op]:
                    na.append(rec(a))
                else:
                    na.append(subst(a, m2) if isinstance(a, (Term, Node)) else
                              _subst_tuple(a, m2))
            r = rebuild(v.op, na)
        else:
            na = [rec(a) for a in v.args]
            if all(x is y for x, y in zip(na, v.args)):
                r = v
            else:
                # renaming of binder when its own range changes
                if v.op in BINDERS and na[0] is not v.args[0] and type(na[0]) is Term:
                    m3 = dict(m)
                    m3[idx_of(v.args[0]).id] = idx_of(na[0])
                    for j in range(1, len(na)):
                        if j in BINDERS[v.op]:
                            continue
                        na[j] = _subst_any(v.args[j], m3)
                r = rebuild(v.op, na)
        memo[key] = r
        return r
    return rec(v)


def _subst_any(a, m):
    if isinstance(a, (Term, Node)):
        return subst(a, m)
    if isinstance(a, tuple):
        return tuple(_subst_any(x, m) for x in a)
    return a


_subst_tuple = _subst_any


def case(var, mode, cuts, kids):
    """rebuild a decision on value var"""
    def f(x):
        if mode == 'i':
            if tuple(cuts) == (1,) and kind(x) == 'bool':
                if x.op == 'const':
                    return kids[1] if x.args[0] else kids[0]
                return ite(bvar(x), kids[1], kids[0])
            return icase_leaf(x, tuple(cuts), tuple(kids))
        r = kids[-1]
        for c, k in zip(reversed(cuts), reversed(kids[:-1])):
            r = ite(eq_leaf(x, c), k, r)
        return r
    if type(var) is Node and mode == 'i' and tuple(cuts) == (1,) and \
            all(l in (TRUE, FALSE) for l in leaf_terms(var)):
        return ite(var, kids[1], kids[0])
    if mode == 'i' and type(var) is Term and kind(var) != 'bool' and any(
            type(k) is Node for k in kids):
        return icase_leaf(var, tuple(cuts), tuple(kids))
    return apply(f, var)


def rebuild(op, args):
    """re-normalise term op(args); args may be nodes -> lifted (not into
    binder bodies)"""
    if op in BINDERS:
        return _lift_binder(op, args)
    if op in ('call', 'mcall', 'new', 'ffi', 'deser'):
        return _lift_call(op, args)
    fn = SMART.get(op)
    vals, shape = [], []
    flat = []

    def walk(a):
        if isinstance(a, (Term, Node)):
            flat.append(a)
            return len(flat) - 1
        if isinstance(a, tuple):
            return tuple(walk(x) for x in a)
        return ('lit', a)

    # keep literal tuples distinguishable
    def walk2(a):
        if isinstance(a, (Term, Node)):
            flat.append(a)
            return ('v', len(flat) - 1)
        if isinstance(a, tuple):
            return ('t', [walk2(x) for x in a])
        return ('l', a)
    shape = [walk2(a) for a in args]

    def unwalk(s, ls):
        if s[0] == 'v':
            return ls[s[1]]
        if s[0] == 't':
            return tuple(unwalk(x, ls) for x in s[1])
        return s[1]

    def f(*ls):
        a = [unwalk(s, ls) for s in shape]
        if fn is not None:
            return fn(*a)
        return norm_bool(T(op, *a))
    if not flat:
        return f()
    if not any(type(x) is Node for x in flat):
        return f(*flat)
    return apply(f, *flat)


def _lift_call(op, args):
    flat = []

    def walk2(a):
        if isinstance(a, (Term, Node)):
            flat.append(a)
            return ('v', len(flat) - 1)
        if isinstance(a, tuple):
            return ('t', [walk2(x) for x in a])
        return ('l', a)
    shape = [walk2(a) for a in args]

    def unwalk(s, ls):
        if s[0] == 'v':
            return ls[s[1]]
        if s[0] == 't':
            return tuple(unwalk(x, ls) for x in s[1])
        return s[1]
    if not any(type(x) is Node for x in flat):
        return norm_bool(T(op, *[unwalk(s, flat) for s in shape]))
    return apply(lambda *ls: norm_bool(T(op, *[unwalk(s, ls) for s in shape])), *flat)


def _lift_binder(op, args):
    rng = args[0]
    rest = args[1:]

    def f(r):
        if op == 'sum':
            return sum_over(r, rest[0])
        if op == 'psum':
            return apply(lambda i: psum_over(r, i, rest[1]), rest[0])
        if op in ('peach', 'pexists', 'stores', 'setall'):
            return apply(lambda i: norm_bool(T(op, r, i, *rest[1:])), rest[0])
        if op == 'exists':
            return mk_exists(r, rest[0])
        if op == 'each':
            if type(rest[0]) is Node and r.op == 'rng':
                m = map_written(r, rest[0])
                if m is not None:
                    return m[0][0]
            return T('each', r, rest[0])
        return norm_bool(T(op, r, *rest))
    return apply(f, rng)


_ex_memo = {}


def mk_exists(rng, p):
    """boolean value: some iteration satisfies p"""
    key = (rng.id, type(p) is Node, p.id)
    r = _ex_memo.get(key)
    if r is None:
        r = _ex_memo[key] = _mk_exists(rng, p)
    return r


def _mk_exists(rng, p):
    if p is FALSE:
        return FALSE
    if type(p) is Node and not mentions_idx(p, rng):
        if rng.op == 'rng':
            return b_and(p, lt(C(0), rng.args[0]))
    if p is TRUE and rng.op == 'rng':
        return lt(C(0), rng.args[0])
    if rng.op == 'rng':
        n = icval(rng.args[0])
        if n is not None and n <= 32:
            return b_or(*[subst_idx(p, rng, C(i)) for i in range(n)])
    if type(p) is Node:
        # conditions which do not depend on the iteration are kept outside
        inv = {}
        n = 0
        seen = set()
        st = [p]
        while st:
            x = st.pop()
            if type(x) is not Node or x.id in seen:
                continue
            seen.add(x.id)
            st.extend(x.kids)
            if idx_of(rng).id not in free_idx(x.var):
                k = _vkey(x)
                v = inv.setdefault(k, (x.var, x.mode, {}))
                for c in x.cuts:
                    v[2][c.id if isinstance(c, Term) else c] = c
            else:
                n += 1
        if inv and n and len(inv) <= 24:
            var, mode, cuts = inv[min(inv)]
            cuts = tuple(cuts[k] for k in sorted(cuts))
            out = FALSE
            for i in range(len(cuts) + 1):
                lit = mk_node(var, mode, cuts, [TRUE if j == i else FALSE
                                                for j in range(len(cuts) + 1)])
                out = b_or(out, b_and(lit, mk_exists(rng, constrain(p, lit))))
            return out
    return bvar(T('exists', rng, p))


def _seq_rebuild(k, *items):
    # items may have become sequences of themselves (each lifted etc.)
    return mkseq(k, list(items))


def _lin_rebuild(items, k):
    r = C(k)
    for t, c in items:
        r = add(r, mul(t, C(c)))
    return r


def _attr_leaf(o, n):
    return norm_bool(T('attr', o, n))


SMART = {
    'lin': _lin_rebuild,
    'bitand': bitand,
    'bitor': lambda *a: bitor_leaf(list(a)),
    'xor': lambda *a: _fold(bitxor, a),
    'shr': shr, 'shl': shl,
    'mul': mul, 'floordiv': floordiv, 'mod': mod,
    'len': length_leaf,
    'index': index_leaf,
    'slice': slice_leaf,
    'seq': _seq_rebuild,
    'setitem': setitem_leaf,
    'eq': eq_leaf,
    'truth': truth,
}


def _fold(fn, a):
    r = a[0]
    for x in a[1:]:
        r = fn(r, x)
    return r


# ------------------------------------------------------------------ string formatting

def piece(conv, spec, x):
    """item of one formatted value"""
    if conv == 'r':
        x = T('str', 'repr', x)
    elif conv in ('s', '') and not spec and kind(x) != 'str':
        x = C(str(cval(x))) if is_const(x) and isinstance(cval(x), (int, str)) else \
            T('str', 'str', x)
    if spec:
        x = T('str', 'format', x, C(spec))
    return x


def single_arg(y):
    return y.op in ('call', 'callv', 'mcall', 'attr', 'str', 'param', 'new')


def percent_format(tpl, args):
    """'...' % args for simple conversions; None when not handled"""
    import re
    out, pos, i = [], 0, 0
    for mt in re.finditer(r'%(%|([0-9#+ -]*)([a-zA-Z])|.)', tpl):
        if mt.start() > pos:
            out.append(C(tpl[pos:mt.start()]))
        pos = mt.end()
        if mt.group(1) == '%':
            out.append(C('%'))
            continue
        if mt.group(3) is None or i >= len(args):
            return None
        c, flags = mt.group(3), mt.group(2)
        x = args[i]
        i += 1
        if c == 'r' and not flags:
            out.append(piece('r', '', x))
        elif c == 's' and not flags:
            out.append(piece('s', '', x))
        elif c in 'di' and not flags:
            out.append(piece('', 'd', x))
        elif c in 'xX' and '-' not in flags and ' ' not in flags and '+' not in flags:
            out.append(piece('', flags + c, x))
        else:
            return None
    if pos < len(tpl):
        out.append(C(tpl[pos:]))
    if i != len(args):
        return None
    return concat('s', out)


def brace_format(tpl, args, kw):
    import string
    out, auto = [], 0
    try:
        parts = list(string.Formatter().parse(tpl))
    except ValueError:
        return None
    for text, field, spec, conv in parts:
        if text:
            out.append(C(text))
        if field is None:
            continue
        if '{' in (spec or '') or conv == 'a':
            return None
        if field == '':
            field = str(auto)
            auto += 1
        if field.isdigit():
            if int(field) >= len(args):
                return None
            x = args[int(field)]
        elif field in kw:
            x = kw[field]
        else:
            return None
        out.append(piece(conv or '', spec or '', x))
    return concat('s', out)
