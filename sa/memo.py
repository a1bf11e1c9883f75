"""Caches: dictionaries at module level (or as a default argument) that start empty and that a
function fills.  A function with a cache is analysed twice: on the empty cache, and on the cache
as an earlier call left it that had the same key and differed in everything the key does not
say.  A cache whose key says what its values depend on gives the same result both times."""
from .terms import T, Term, Node, subterms, leaf_terms
from . import values as V

LOSSY = {'slice', 'index', 'len', 'slice3', 'sum'}


def used(s):
    return any(type(x) is Term and x.op == 'ent' for c in s.memo.values() for x in subterms(c))


def unsure(world, s):
    """why equal results of both runs do not settle it"""
    for q, c in sorted(s.memo.items()):
        ents = [x for x in subterms(c) if type(x) is Term and x.op == 'ent']
        if ents and len(world.memos()[q]) > 1:
            return 'cache %s is written by %s' % (q, ', '.join(sorted(world.memos()[q])))
        for en in ents:
            for l in leaf_terms(en.args[1]):
                if l.op == 'addr' or V.kind(l) == 'list' or l.op in ('dict', 'out', 'obuf'):
                    return 'cache %s keeps mutable values' % q
    return None


def said(v, out):
    """parameters and global state a key tells apart"""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif type(x) is Node:
            st.append(x.var)
            st.extend(x.kids)
        elif type(x) is Term and x.id not in seen:
            seen.add(x.id)
            if x.op in ('param', 'global'):
                out.add(x.args[0])
            elif x.op in LOSSY or x.op == 'call' and type(x.args[0]) is Term and \
                    x.args[0].args[:1] in (('builtins.id',), ('builtins.len',), ('builtins.type',)):
                continue
            else:
                st.extend(x.args)
    return out


def components(k):
    if type(k) is Node:
        return [k.var] + [c for x in k.kids for c in components(x)]
    if type(k) is Term and k.op == 'seq' and all(i.op == 'el' for i in k.args[1:]):
        return [c for i in k.args[1:] for c in components(i.args[0])]
    return [k] if type(k) is Term and k.op != 'const' else []


def keys(c):
    return {x.args[0] for l in leaf_terms(c) if l.op == 'memo' for x in l.args}


def earlier(s):
    """-> ({cache: content an earlier call may have left}, names of what differed)"""
    diff = set()

    def rename(v, told):
        ren = {}
        for x in subterms(v):
            if type(x) is Term and x.op in ('param', 'global') and x.args[0] not in told and \
                    not str(x.args[0]).startswith('#'):
                diff.add(str(x.args[0]))
                ren[x.id] = T(x.op, str(x.args[0]) + '@earlier', *x.args[1:])
        return V.subst(v, ren)

    def entry(en, told):
        k, v = en.args
        hide, show = {}, {}
        for i, c in enumerate(components(k) + list(told)):
            h = T('param', '#%d' % i, V.kind(c))
            hide[c.id] = h
            show[h.id] = c
        return T('ent', k, V.subst(rename(V.subst(v, hide), said(k, set())), show))

    def content(c, told):
        if type(c) is Node:
            ks = [keys(x) for x in c.kids]
            if all(ks) and all(not (a & b) for i, a in enumerate(ks) for b in ks[:i]):
                # the keys of the branches differ: they tell which one was taken
                told = told + (c.var,)
                var = c.var
            else:
                below = [said(k, set()) for k in set().union(*ks)]
                var = rename(c.var, set.intersection(*below) if below else set())
            return V.case(var, c.mode, c.cuts, [content(x, told) for x in c.kids])
        if c.op == 'memo':
            return T('memo', *[entry(en, told) for en in c.args])
        return c
    return {q: content(c, ()) for q, c in s.memo.items()}, sorted(diff)
