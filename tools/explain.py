"""Where do code and model differ?  tools/explain.py GROUP [R=/tmp/ro]: descends into the smallest
pair of differing loop conditions and prints the difference found there."""
import os
import sys
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(200000)
threading.stack_size(1 << 29)
W = int(os.environ.get('W', '600'))


def main():
    from sa.loader import World
    from sa.engine_check import decide
    from sa.compare import compare
    from sa.terms import show, show_bool, Node, Term, support, b_and, b_not, subterms, leaf_terms, TRUE, FALSE
    import config
    w = World({'elementstx': os.environ.get('R', '/tmp/ro'), 'spec': V})
    helpers = {o.spec.replace(':', '.'): o.q for g in config.OBS.values() for o in g
               if '.' not in o.impl.split(':')[1]}
    sz = {}

    def size(t):
        k = (type(t) is Node, t.id)
        if k not in sz:
            sz[k] = sum(1 for _ in subterms(t))
        return sz[k]

    def tup(x, y, ind):
        p = '  ' * ind
        if len(x) != len(y):
            print(p + ' code ', show(x, 6)[:W])
            print(p + ' model', show(y, 6)[:W])
            return
        for q, r in zip(x, y):
            if q is r or q == r:
                continue
            if isinstance(q, tuple):
                tup(q, r, ind)
            elif isinstance(q, (Term, Node)):
                descend(q, r, ind + 1)
            else:
                print(p, q, r)

    def descend(a, b, ind=0):
        p = '  ' * ind
        if a is b:
            print(p + 'same')
            return
        if ind > 40:
            return
        if type(a) is Node and type(b) is Node or (type(a) is Node) != (type(b) is Node):
            A = {k: v for k, v in support(a).items()}
            B = {k: v for k, v in support(b).items()}
            ao = sorted([v for k, v in A.items() if k not in B], key=size)
            bo = sorted([v for k, v in B.items() if k not in A], key=size)
            print(p + 'code-only atoms %d, model-only %d' % (len(ao), len(bo)))
            if ao and bo:
                # best pair: same op and range
                best = None
                for x in ao[:6]:
                    for y in bo[:6]:
                        s = (x.op != y.op, x.args[0] is not y.args[0] if x.args and y.args else True,
                             size(x) + size(y))
                        if best is None or s < best[0]:
                            best = (s, x, y)
                descend(best[1], best[2], ind + 1)
                return
            if ao or bo:
                for x in ao[:3]:
                    print(p + ' code-only', show(x, 8)[:W])
                for x in bo[:3]:
                    print(p + ' model-only', show(x, 8)[:W])
                if set(leaf_terms(a)) | set(leaf_terms(b)) <= {TRUE, FALSE}:
                    print(p + ' code&!model', show_bool(b_and(a, b_not(b)), 5)[:W])
                    print(p + ' model&!code', show_bool(b_and(b, b_not(a)), 5)[:W])
                return
            if set(leaf_terms(a)) | set(leaf_terms(b)) <= {TRUE, FALSE}:
                print(p + ' code&!model', show_bool(b_and(a, b_not(b)), 5)[:W])
                print(p + ' model&!code', show_bool(b_and(b, b_not(a)), 5)[:W])
                return
            la = sorted([x for x in leaf_terms(a) if x not in leaf_terms(b)], key=size)
            lb = sorted([x for x in leaf_terms(b) if x not in leaf_terms(a)], key=size)
            if la and lb:
                print(p + 'leaf')
                descend(la[0], lb[0], ind + 1)
                return
            from sa.terms import apply, leaves, constrain
            g = apply(lambda x, y: FALSE if x is y else TRUE, a, b)
            print(p + 'differ when', show_bool(g, 5)[:W])
            print(p + 'code ', show(constrain(a, g), 6)[:W])
            print(p + 'model', show(constrain(b, g), 6)[:W])
            return
        if type(a) is Term and type(b) is Term and a.op == b.op and a.op not in ('const', 'param', 'ref') \
                and len(a.args) == len(b.args):
            n = 0
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                if x is not y and x != y:
                    print(p + '%s arg %d' % (a.op, i))
                    n += 1
                    if isinstance(x, tuple):
                        tup(x, y, ind)
                    elif isinstance(x, (Term, Node)):
                        descend(x, y, ind + 1)
                    else:
                        print(p, x, y)
            return
        print(p + 'code ', show(a, 8)[:W])
        print(p + 'model', show(b, 8)[:W])

    for o in config.OBS[sys.argv[1]]:
        r = decide(w, o, helpers)
        print(o.key, r.status)
        if r.status == 'ok' or not hasattr(r, 'si'):
            continue
        for d in compare(r.si, r.ss)[:int(os.environ.get('N', '2'))]:
            print('--', d[0])
            descend(d[1], d[2])


t = threading.Thread(target=main)
t.start()
t.join()
