"""Second opinion on a difference that involves loops.

A loop without an exact closed form leaves an operator in the symbolic result that has more than
one equal form.  Here code and model are analysed again with the lengths of the sequences they
iterate over fixed to small numbers, so that every loop is unrolled and both sides are loop free.
A difference found then is a difference of the functions; if none is found for any of the
lengths, the symbolic difference is not reported as a violation.
"""
import base64
import json
import os
import pickle
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = int(os.environ.get('VERIF_BOUND_SECONDS', '60'))
MEM = 5


def iterated(sums):
    """paths of the sequences whose lengths bound loops in the summaries"""
    from .terms import subterms, Term
    from . import values as V
    out = set()
    for s in sums:
        seen = set()
        for v in list(s.obs.values()) + list(s.byclass.values()) + [s.U, s.failing]:
            st = [v]
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                    continue
                if not hasattr(x, 'id'):
                    continue
                for y in subterms(x, seen):
                    if type(y) is Term and y.op in ('rng', 'len') and type(y.args[0]) is Term:
                        for z in subterms(y) if y.op == 'rng' else [y]:
                            if type(z) is Term and z.op == 'len' and type(z.args[0]) is Term and (
                                    y.op == 'rng' or (V.kind(z.args[0]) or '').rstrip('?') not in ('bytes', 'str')):
                                p = V.path_of(z.args[0])
                                if p is not None and '[' not in p:
                                    out.add(p)
    return sorted(out)


def patterns(paths, spec):
    if spec == 'spec.blindtx:blind':
        # with two outputs the balancing arrays depend on which of them are blinded
        base = dict.fromkeys(paths, 0)
        for vin, vout, keys, aux, wi, wo in ((1, 1, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1), (2, 1, 0, 0, 1, 1),
                                             (2, 0, 2, 0, 2, 0), (2, 1, 0, 2, 2, 1), (0, 0, 0, 0, 0, 0),
                                             (0, 1, 0, 0, 0, 0), (1, 0, 1, 0, 0, 0)):
            d = dict(base)
            d.update({'tx.vin': vin, 'input_descriptors': vin, 'tx.vout': vout,
                      'output_pubkeys': vout, 'blind_issuance_asset_keys': keys,
                      'blind_issuance_token_keys': keys, 'auxiliary_generators': aux,
                      'tx.wit.vtxinwit': wi, 'tx.wit.vtxoutwit': wo})
            yield d
        return
    for k in (0, 1, 2, 3):
        yield dict.fromkeys(paths, k)
    if len(paths) > 1:
        for j, p in enumerate(paths):
            d = dict.fromkeys(paths, 1)
            d[p] = 2
            yield d
            d = dict.fromkeys(paths, 2)
            d[p] = 1
            yield d


def enough(ob, good):
    """no difference for the lengths tried: is that reason to doubt a symbolic one?"""
    return ob.spec != 'spec.blindtx:blind' and \
        {0, 1, 2} <= {p[k] for p in good for k in p if len(set(p.values())) == 1}


def second_opinion(ob, res, sums, helpers, only):
    """-> (instances decided, violation messages or None)"""
    paths = iterated(sums)
    if not paths:
        return [], None
    jobs = []
    t0 = time.time()
    env = dict(os.environ)
    pend = list(patterns(paths, ob.spec))
    run = []
    good = []
    found = None
    while pend or run:
        while pend and len(run) < 4 and found is None and time.time() - t0 < 2 * LIMIT:
            p = pend.pop(0)
            arg = base64.b64encode(pickle.dumps((vars(ob), p, helpers, only))).decode()
            run.append((p, subprocess.Popen(
                [sys.executable, os.path.join(HERE, 'bounded.py')], stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env), time.time()))
            run[-1][1].stdin.write(arg.encode())
            run[-1][1].stdin.close()
        if found is not None or time.time() - t0 >= 2 * LIMIT:
            pend = []
        left = []
        for p, pr, t in run:
            if pr.poll() is None:
                if time.time() - t > LIMIT or found is not None:
                    pr.kill()
                    pr.wait()
                else:
                    left.append((p, pr, t))
                continue
            try:
                st, msgs = json.loads(pr.stdout.read().decode())
            except ValueError:
                continue
            finally:
                pr.stdout.close()
            if st == 'ok':
                good.append(p)
            elif st == 'violation' and found is None:
                found = ['with %s: %s' % (', '.join('len(%s)=%d' % x for x in sorted(p.items())), m)
                         for m in msgs]
        run = left
        time.sleep(0.02)
    return good, found


def child(out):
    from sa.loader import World
    from sa.engine_check import decide, Ob
    from sa import values as V
    d, p, helpers, only = pickle.loads(base64.b64decode(sys.stdin.read()))
    V.BOUND = lambda t: p.get(V.path_of(t))
    ob = Ob.__new__(Ob)
    vars(ob).update(d)
    w = World({'elementstx': os.environ.get('VERIF_REPO', '/repo'),
               'spec': os.environ.get('VERIF_SPEC', os.path.dirname(HERE))})
    r = decide(w, ob, helpers, only=only)
    out.append((r.status, r.msgs[:4]))


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(HERE))
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(200000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM << 30, MEM << 30))
    threading.stack_size(1 << 29)
    res = []
    th = threading.Thread(target=child, args=(res,))
    th.start()
    th.join()
    if not res:
        sys.exit(3)
    print(json.dumps(res[0]))
