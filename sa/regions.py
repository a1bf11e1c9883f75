"""Are the points where code and model differ all empty, or the values equal there?

The summaries are decision diagrams whose guards are treated as independent; here the region of a
difference is taken apart into conjunctions of guards.  A conjunction that is empty for linear
integer reasons (x < y, y < z, x >= z), or on which both values are the same because of an
equality among its guards (x == 1: x and 1), is no difference."""
import time
from math import gcd

from .terms import (T, C, TRUE, FALSE, NONE, UNDEF, Term, Node, is_const, cval, apply, ite, bvar, b_and,
                    b_or, b_not, subterms, contains, leaf_terms)
from . import values as V
from .values import as_int, mk_lin

PATHS = 400
SECONDS = 5


class GiveUp(Exception):
    pass


class Budget:
    def __init__(self):
        self.paths = PATHS
        self.end = time.time() + SECONDS

    def spend(self):
        self.paths -= 1
        if self.paths < 0 or time.time() > self.end:
            raise GiveUp


def walk(d, budget):
    """guard conjunctions leading to a leaf other than FALSE: ([guard], leaf)"""
    st = [(d, ())]
    while st:
        n, path = st.pop()
        if n is FALSE:
            continue
        if type(n) is not Node:
            budget.spend()
            yield path, n
            continue
        for i, k in enumerate(n.kids):
            if n.mode == 'i':
                lo = None if i == 0 else n.cuts[i - 1]
                hi = None if i == len(n.cuts) else n.cuts[i] - 1
                g = ('i', n.var, lo, hi)
            elif i < len(n.cuts):
                g = ('=', n.var, n.cuts[i])
            else:
                g = ('!', n.var, n.cuts)
            st.append((k, path + (g,)))


def is_num(t):
    return V.kind(t) == 'int' or t.op in V.INT_OPS


def lin(t):
    """{atom id: coef}, const, {id: atom}"""
    r = as_int(t)
    if r is None:
        return None
    return {p.id: c for p, c in r[0]}, r[1], {p.id: p for p, c in r[0]}


def inequalities(guards):
    """rows (coefs, k) meaning sum coefs*atom + k >= 0"""
    rows, atoms = [], {}

    def add(t, s, k):
        l = lin(t)
        if l is None:
            return
        atoms.update(l[2])
        rows.append(({a: s * c for a, c in l[0].items()}, s * l[1] + k))
    for g in guards:
        if g[0] == 'i' and is_num(g[1]):
            if g[2] is not None:
                add(g[1], 1, -g[2])
            if g[3] is not None:
                add(g[1], -1, g[3])
        elif g[0] == '=' and is_const(g[2]) and type(cval(g[2])) is int:
            add(g[1], 1, -cval(g[2]))
            add(g[1], -1, cval(g[2]))
        elif g[0] == '=' and is_const(g[2]) and isinstance(cval(g[2]), (bytes, str)):
            add(T('len', g[1]), 1, -len(cval(g[2])))
            add(T('len', g[1]), -1, len(cval(g[2])))
    todo, seen = list(atoms.values()), set()
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        lo, hi = V.bounds(t)
        if lo is not None:
            rows.append(({t.id: 1}, -lo))
        if hi is not None:
            rows.append(({t.id: -1}, hi))
        if t.op == 'idx' and type(t.args[0].args[0]) is Term:
            l = lin(t.args[0].args[0])
            if l is not None:
                row = dict(l[0])
                row[t.id] = row.get(t.id, 0) - 1
                rows.append((row, l[1] - 1))
                todo.extend(l[2].values())
    return rows


def norm(row, k):
    row = {a: c for a, c in row.items() if c}
    g = 0
    for c in row.values():
        g = gcd(g, abs(c))
    if g > 1:
        row = {a: c // g for a, c in row.items()}
        k = k // g
    return tuple(sorted(row.items())), k


def empty(rows):
    """no integers satisfy the rows (elimination; False: not shown)"""
    cur = {}
    for r, k in rows:
        r, k = norm(r, k)
        if not r:
            if k < 0:
                return True
            continue
        if r not in cur or cur[r] > k:
            cur[r] = k
    while cur:
        cnt = {}
        for r in cur:
            for a, c in r:
                p = cnt.setdefault(a, [0, 0])
                p[c < 0] += 1
        a = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [(dict(r), k) for r, k in cur.items() if dict(r).get(a, 0) > 0]
        neg = [(dict(r), k) for r, k in cur.items() if dict(r).get(a, 0) < 0]
        nxt = {r: k for r, k in cur.items() if a not in dict(r)}
        if len(pos) * len(neg) > 400 or len(nxt) > 400:
            return False
        for r, k in pos:
            for q, m in neg:
                c, d = r[a], -q[a]
                row = {}
                for x, v in r.items():
                    row[x] = row.get(x, 0) + d * v
                for x, v in q.items():
                    row[x] = row.get(x, 0) + c * v
                row, kk = norm(row, d * k + c * m)
                if not row:
                    if kk < 0:
                        return True
                    continue
                if row not in nxt or nxt[row] > kk:
                    nxt[row] = kk
        cur = nxt
    return False


def equalities(guards):
    """{term id: value} that holds under the guards"""
    m = {}
    for g in guards:
        if g[0] == 'i' and g[2] is not None and g[2] == g[3] and is_num(g[1]):
            l = as_int(g[1])
            if l is None:
                continue
            for p, c in sorted(l[0], key=lambda x: -x[0].id):
                if abs(c) == 1 and p.id not in m and p.op != 'const':
                    rest = [(q, -c * d) for q, d in l[0] if q is not p]
                    if any(contains(q, p) for q, _ in rest):
                        continue
                    m[p.id] = mk_lin(rest, c * (g[2] - l[1]))
                    break
        elif g[0] == '=' and g[1].id not in m:
            m[g[1].id] = g[2]
        elif g[0] == 'i' and g[1].op == 'len' and (g[3] is not None and g[3] <= 0) and \
                type(g[1].args[0]) is Term and V.kind(g[1].args[0]) in ('bytes', 'str'):
            m[g[1].args[0].id] = C(b'' if V.kind(g[1].args[0]) == 'bytes' else '')
            m[g[1].id] = C(0)
    return m


def fires(g, v):
    """is guard g false when its subject is the constant v?"""
    if g[0] == 'i':
        x = as_int(v)
        if x is None or x[0]:
            return False
        return g[2] is not None and x[1] < g[2] or g[3] is not None and x[1] > g[3]
    if not is_const(v):
        return False
    if g[0] == '=':
        return is_const(g[2]) and cval(v) != cval(g[2])
    return any(is_const(c) and cval(c) == cval(v) and type(cval(c)) is type(cval(v)) for c in g[2])


def clash(guards, m):
    """do the guards exclude each other once equal things are written the same way?"""
    out, changed = TRUE, False
    for g in guards:
        mm = {k: v for k, v in m.items() if k != g[1].id}
        v = V.subst(g[1], mm) if mm else g[1]
        changed = changed or v is not g[1]
        if type(v) is Node:
            if g[0] != 'i' or (g[2], g[3]) not in ((1, None), (None, 0)) or \
                    not all(l is TRUE or l is FALSE for l in leaf_terms(v)):
                continue
            c = v if g[2] == 1 else b_not(v)
        elif g[0] == 'i':
            c = mk_range(v, g[2], g[3])
        elif g[0] == '=':
            c = V.eq_leaf(v, g[2])
        else:
            c = b_and(*[b_not(V.eq_leaf(v, x)) for x in g[2]])
        out = b_and(out, c)
        if out is FALSE:
            return changed
    return False


def mk_range(v, lo, hi):
    if V.kind(v) == 'bool' or lo is None and hi == 0 or hi is None and lo == 1:
        if (lo, hi) in ((1, None), (None, 0)) and not is_num(v):
            b = V.norm_bool(v)
            b = b if type(b) is Node or b in (TRUE, FALSE) else bvar(b)
            return b if lo == 1 else b_not(b)
    out = TRUE
    if lo is not None:
        out = b_and(out, V.le(C(lo), v))
    if hi is not None:
        out = b_and(out, V.le(v, C(hi)))
    return out


# nothing is an instance, and no class is a subclass, of two classes of a group
DISJOINT = [
    {'elementstx.wallet.%sCoinConfidentialAddress' % k for k in ('P2PKH', 'P2SH', 'P2WPKH', 'P2WSH', 'P2TR')},
    {'bitcointx.wallet.%sCoinAddress' % k for k in ('P2PKH', 'P2SH', 'P2WPKH', 'P2WSH', 'P2TR')},
]


def two_kinds(guards):
    """is something below two classes that share no instances?"""
    up = {}
    todo = []

    def edge(x, c):
        up.setdefault(x.id, set()).add(c.id)
        todo.extend((x, c))
    for g in guards:
        if g[0] == 'i' and g[2] == 1 and g[1].op in ('isinst', 'issub') and type(g[1].args[0]) is Term and \
                type(g[1].args[1]) is Term:
            edge(g[1].args[0], g[1].args[1])
    if not todo:
        return False
    names = {}
    seen = set()
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'ref':
            names[t.id] = t.args[0]
        # the classes a dispatcher maps to are below it
        if t.op == 'index' and t.args[0].op == 'call' and t.args[0].args[0].op == 'ref' and \
                t.args[0].args[0].args[0] == 'bitcointx.util.dispatcher_mapped_list':
            for a in subterms(t.args[0]):
                if type(a) is Term and a.op == 'ref' and a.args[0] != t.args[0].args[0].args[0]:
                    edge(t, a)
    for x in up:
        above, st = set(), [x]
        while st:
            y = st.pop()
            if y not in above:
                above.add(y)
                st.extend(up.get(y, ()))
        ns = {names[y] for y in above if y in names}
        if any(len(ns & d) > 1 for d in DISJOINT):
            return True
    return False


def contradictory(guards, budget):
    if empty(inequalities(guards)) or two_kinds(guards):
        return True
    m = equalities(guards)
    if m:
        for g in guards:
            if g[1].id in m and len(m) == 1:
                continue
            mm = {k: v for k, v in m.items() if k != g[1].id} if g[0] == '=' else m
            v = V.subst(g[1], mm)
            if type(v) is Term and v is not g[1] and fires(g, v):
                return True
        if clash(guards, m):
            return True
    pos = [g[1] for g in guards if g[0] == 'i' and g[1].op == 'exists' and g[2] == 1]
    neg = [g[1] for g in guards if g[0] == 'i' and g[1].op == 'exists' and g[3] == 0]
    for p in pos:
        for n in neg:
            if p.args[0] is n.args[0] and len(p.args) == len(n.args) == 2 and \
                    not mentions(guards, V.idx_of(p.args[0])) and \
                    nowhere(b_and(p.args[1], b_not(n.args[1])), budget, guards):
                return True
    return False


def mentions(guards, idx):
    for g in guards:
        if any(t is idx for t in subterms(g[1])) and g[1].op not in V.BINDERS:
            return True
    return False


def nowhere(d, budget, cons=()):
    """is the condition false everywhere (under cons)?"""
    for path, leaf in walk(d, budget):
        if leaf is not TRUE:
            return False
        if not contradictory(tuple(cons) + path, budget):
            return False
    return True


def or_as_sum(t, cons):
    """x | k is x + k where x has no bit of k or above"""
    if t.op == 'bitor' and len(t.args) == 2:
        x, k = t.args
        k = V.icval(k)
        if k is not None and k > 0 and type(x) is Term and lin(x):
            l = lin(x)
            rows = inequalities(tuple(cons) + (('i', x, None, None),))
            if empty(rows + [(dict(l[0]), l[1] - (k & -k))]) and \
                    empty(rows + [({a: -c for a, c in l[0].items()}, -l[1] - 1)]):
                return V.add(x, C(k))
    return t


def same(a, b, budget, cons=()):
    """equal values under cons?"""
    if a is b:
        return True
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and \
            all(same(x, y, budget, cons) for x, y in zip(a, b))
    if type(a) is Node or type(b) is Node:
        pairs = {}

        def f(x, y):
            if x is y:
                return FALSE
            t = T('pair', x, y)
            pairs[t.id] = (x, y)
            return t
        d = apply(f, a, b)
        for path, leaf in walk(d, budget):
            g = tuple(cons) + path
            if contradictory(g, budget):
                continue
            if not same(*pairs[leaf.id], budget, g):
                return False
        return True
    if not (type(a) is Term and type(b) is Term):
        return a == b and type(a) is type(b)
    m = equalities(cons)
    if m:
        x, y = V.subst(a, m), V.subst(b, m)
        if x is y:
            return True
        if type(x) is Node or type(y) is Node:
            return same(x, y, budget, cons) if (x, y) != (a, b) and budget.paths > 0 else False
        a, b = x, y
    if is_num(a) and is_num(b) and cons:
        a, b = or_as_sum(a, cons), or_as_sum(b, cons)
        la, lb = lin(a), lin(b)
        if la and lb:
            row = dict(la[0])
            for k, c in lb[0].items():
                row[k] = row.get(k, 0) - c
            rows = inequalities(cons)
            k = la[1] - lb[1]
            if empty(rows + [(row, k - 1)]) and empty(rows + [({x: -c for x, c in row.items()}, -k - 1)]):
                return True
    if a.op != b.op or len(a.args) != len(b.args) or a.op in ('const', 'param', 'ref', 'lin', 'pair'):
        return False
    if a.op in V.BINDERS:
        if a.args[0] is not b.args[0] or mentions(cons, V.idx_of(a.args[0])):
            return False
    return all(x is y or same(x, y, budget, cons) for x, y in zip(a.args, b.args))


def no_refusal_difference(d):
    try:
        return nowhere(d, Budget())
    except Exception:      # not shown
        return False


def no_value_difference(care, a, b):
    try:
        return same(ite(care, a, UNDEF), ite(care, b, UNDEF), Budget())
    except Exception:      # not shown
        return False
