"""Facts that relate atoms which the summaries treat as independent.

Each is stated of names the models have too, and what it says of the repository's own classes is
compared on its own (is_null of commitments and of issuances, the class tables).  When code and
model differ, both are rewritten by the facts that apply and compared again."""
import copy

from .terms import T, C, FALSE, NONE, Term, Node, b_and, b_not, b_or, bvar, subterms
from . import values as V

# is_null() of the record means is_null() of all the parts
NULL_PARTS = {'assetIssuance': ('nAmount', 'nInflationKeys')}

# what instances of the classes are instances of as well
IS_A = {'CElementsScript': ('CScript', 'bytes'), 'CScript': ('bytes',), 'CPubKey': ('bytes',),
        'CAsset': ('Uint256',), 'bool': ('int',), 'CElementsOutPoint': ('COutPoint',),
        'CElementsTxOut': ('CTxOut',), 'CElementsTxIn': ('CTxIn',),
        'CElementsTransaction': ('CTransaction',),
        'CElementsMutableTransaction': ('CElementsTransaction', 'CTransaction')}

LIMIT = 150000


def is_null_call(t):
    return t.op == 'mcall' and t.args[1] == 'is_null' and type(t.args[0]) is Term


def parts_of(s):
    return [s.U, s.failing] + list(s.byclass.values()) + list(s.rawclass.values()) + \
        list(s.obs.values())


def atoms(vals):
    out, seen, n = {}, set(), 0
    for v in vals:
        for x in subterms(v, seen):
            n += 1
            if n > LIMIT:
                return None
            if type(x) is Term:
                out[x.id] = x
    return out


def facts(ts):
    """{atom id: what it is the same as}"""
    m = {}
    kinds = {}
    for t in ts.values():
        if is_null_call(t):
            x = t.args[0]
            c = T('len', T('attr', x, 'commitment'))
            if c.id in ts:
                m[t.id] = V.lt(c, C(1))
            elif x.op == 'attr' and x.args[1] in NULL_PARTS:
                ps = [T('mcall', T('attr', x, p), 'is_null', t.args[2]) for p in NULL_PARTS[x.args[1]]]
                if any(p.id in ts for p in ps):
                    m[t.id] = b_and(*[bvar(p) for p in ps])
        elif t.op == 'truth' and type(t.args[0]) is Term:
            c = T('len', t.args[0])
            if c.id in ts:
                m[t.id] = b_and(b_not(V.eq_leaf(t.args[0], NONE)), V.lt(C(0), c))
        elif t.op == 'isinst' and type(t.args[0]) is Term and t.args[1].op == 'ref':
            kinds.setdefault(t.args[0].id, {})[t.args[1].args[0].rpartition('.')[2]] = t
    for k in kinds.values():
        for n, t in k.items():
            more = [k[b] for b in IS_A.get(n, ()) if b in k]
            if more:
                m[t.id] = b_and(bvar(t), *[bvar(b) for b in more])
    # facts about what facts mention
    for _ in range(3):
        for i in list(m):
            v = V.subst(m[i], {k: x for k, x in m.items() if k != i})
            if i not in {y.id for y in subterms(v) if type(y) is Term} or i in self_ok(m[i]):
                m[i] = v
    return m


def self_ok(v):
    return {x.id for x in subterms(v) if type(x) is Term}


def rewritten(s, m):
    r = copy.copy(s)
    memo = {}
    sub = lambda v: V.subst(v, m, memo)
    r.U, r.failing = sub(s.U), sub(s.failing)
    r.byclass = {k: sub(v) for k, v in s.byclass.items()}
    r.rawclass = {k: sub(v) for k, v in s.rawclass.items()}
    r.obs = {k: sub(v) for k, v in s.obs.items()}
    return r


def apply_facts(si, ss):
    """the two summaries, rewritten; None when no fact applies"""
    ts = atoms(parts_of(si) + parts_of(ss))
    if ts is None:
        return None
    m = facts(ts)
    if not m:
        return None
    return rewritten(si, m), rewritten(ss, m)
