"""Compare the summary of the code with the summary of the reference model."""
from .terms import (T, C, bvar, support, TRUE, FALSE, NONE, UNDEF, Term, Node, is_const, apply, ite,
                    b_and, b_or, b_not, leaf_terms, leaves, constrain, subterms, show, show_bool)
from . import values as V
from .values import EMPTY
from .regions import no_refusal_difference, no_value_difference
from .lemmas import apply_facts


def compare(si, ss, classmap=None, ignore=()):
    ds = compare_plain(si, ss, classmap, ignore)
    if ds:
        try:
            both = apply_facts(si, ss)
        except RecursionError:
            both = None
        if both is not None:
            less = compare_plain(*both, classmap, ignore)
            if len(less) < len(ds):
                return less
    return ds


def compare_plain(si, ss, classmap=None, ignore=()):
    """-> list of (what, impl value, spec value)"""
    cm = classmap or {}
    out = []
    bi = norm_classes(si.byclass, cm)
    bs = norm_classes(ss.byclass, cm)
    ri = norm_classes(si.rawclass, cm)
    x = y = FALSE
    if si.U is not ss.U:
        x = b_and(si.U, b_not(ss.U))
        y = b_and(ss.U, b_not(si.U))
        no = impossible(x, y)
        if no is not FALSE:
            x, y = b_and(x, b_not(no)), b_and(y, b_not(no))
        if x is not FALSE and no_refusal_difference(x):
            x = FALSE
        if y is not FALSE and no_refusal_difference(y):
            y = FALSE
    if x is not FALSE or y is not FALSE:
        out.append(('refusal', si.U, ss.U, x, y))
    else:
        for c in sorted(set(bi) | set(bs)):
            a, b = bi.get(c, FALSE), bs.get(c, FALSE)
            if a is not b:
                miss = b_and(b, b_not(a))
                if b_and(miss, b_not(ri.get(c, FALSE))) is FALSE and any(
                        True for _ in [0]) and order_only(a, b, c, bi, bs, ri):
                    continue
                no = impossible(a, b)
                if no is not FALSE and b_and(b_or(miss, b_and(a, b_not(b))), b_not(no)) is FALSE:
                    continue
                if no_refusal_difference(b_or(miss, b_and(a, b_not(b)))):
                    continue
                out.append(('refusal as %s' % c, a, b, b_and(a, b_not(b)), miss))
    both = b_and(si.U, ss.U)
    if si.failing is not ss.failing and both is not FALSE:
        a, b = constrain(si.failing, both), constrain(ss.failing, both)
        if a is not b and ite(both, a, UNDEF) is not ite(both, b, UNDEF) and not no_value_difference(both, a, b):
            out.append(('effects when giving up', a, b, None, None))
    care = b_not(b_or(si.U, ss.U))
    keys = sorted(set(si.obs) | set(ss.obs))
    for k in keys:
        if k in ignore:
            continue
        a = si.obs.get(k, default_obs(k))
        b = ss.obs.get(k, default_obs(k))
        if a is b:
            continue
        ca, cb = constrain(a, care), constrain(b, care)
        if ca is cb:
            continue
        if care is FALSE:
            continue
        if ite(care, a, UNDEF) is ite(care, b, UNDEF):
            continue
        no = impossible(care, a, b)
        if no is not FALSE:
            some = b_and(care, b_not(no))
            if some is FALSE or ite(some, a, UNDEF) is ite(some, b, UNDEF):
                continue
        if no_value_difference(b_and(care, b_not(no)), a, b):
            continue
        out.append((k, ca, cb, None, None))
    return out


def impossible(*vals):
    """points no execution reaches: an instance of a class that is None"""
    inst, none = {}, {}
    for v in vals:
        for t in support(v).values():
            if t.op == 'isinst':
                inst.setdefault(t.args[0].id, []).append(bvar(t))
        st, seen = [v], set()
        while st:
            n = st.pop()
            if type(n) is not Node or n.id in seen:
                continue
            seen.add(n.id)
            st.extend(n.kids)
            if n.mode != 'i' and NONE in n.cuts:
                none[n.var.id] = V.eq_leaf(n.var, NONE)
    out = FALSE
    for k in inst:
        if k in none:
            for x in inst[k]:
                out = b_or(out, b_and(x, none[k]))
    return out


def order_only(a, b, c, bi, bs, ri):
    miss = b_and(b, b_not(a))
    extra = b_and(a, b_not(b))
    # every point the model refuses as c is refused by the code as another class
    # whose own condition also holds there
    ok = b_and(miss, b_not(ri.get(c, FALSE))) is FALSE
    return ok


def default_obs(k):
    if k.startswith('stores to'):
        return T('mem0')
    if k == 'effects':
        return EMPTY['l']
    if k == 'returns':
        return UNDEF
    return UNDEF


def norm_classes(d, cm):
    out = {}
    for k, v in d.items():
        k = cm.get(k, k)
        out[k] = b_or(out.get(k, FALSE), v)
    return out


def diff_terms(a, b, depth=0, out=None, limit=6):
    """smallest differing parts"""
    out = [] if out is None else out
    if a is b or len(out) >= limit:
        return out
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b):
            for x, y in zip(a, b):
                diff_terms(x, y, depth + 1, out, limit)
        else:
            out.append((a, b))
        return out
    if type(a) is Term and type(b) is Term and a.op == b.op and len(a.args) == len(b.args) and \
            a.op not in ('const', 'param', 'ref', 'lin'):
        n = len(out)
        for x, y in zip(a.args, b.args):
            if x is not y and x != y:
                diff_terms(x, y, depth + 1, out, limit)
        if len(out) == n:
            out.append((a, b))
        return out
    if type(a) is Term and type(b) is Term and a.op == b.op == 'seq' and a.args[0] == b.args[0]:
        xs, ys = list(a.args[1:]), list(b.args[1:])
        while xs and ys and xs[0] is ys[0]:
            xs.pop(0)
            ys.pop(0)
        while xs and ys and xs[-1] is ys[-1]:
            xs.pop()
            ys.pop()
        if len(xs) == len(ys):
            for x, y in zip(xs, ys):
                diff_terms(x, y, depth + 1, out, limit)
        else:
            out.append((T('seq', a.args[0], *xs), T('seq', b.args[0], *ys)))
        return out
    if type(a) is Node or type(b) is Node:
        # pairs of leaves under which guards they differ
        pairs = {}

        def f(x, y):
            if x is not y:
                pairs[(x.id, y.id)] = (x, y)
            return TRUE if x is not y else FALSE
        try:
            g = apply(f, a, b)
        except Exception:
            g = None
        if pairs and len(pairs) <= 3 and all(x not in (TRUE, FALSE) for x, y in pairs.values()):
            n = len(out)
            for x, y in pairs.values():
                diff_terms(x, y, depth + 1, out, limit)
            if len(out) > n:
                return out
        out.append((a, b, g))
        return out
    out.append((a, b))
    return out
