"""Decide one property by static analysis of /repo's current source.

python3 check.py --property Cxx      exit 0 held, 1 with a VIOLATION line, 2 analysis broken
"""
import argparse
import fnmatch
import json
import os
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
REPO = os.environ.get('VERIF_REPO', '/repo')


def limit_memory(gb):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass


def known_findings():
    """lines 'known: property=<id> obligation=<key> match=<text>' suppress only that message"""
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known:'):
                    d = {}
                    for part in line[6:].split(' | '):
                        k, _, v = part.strip().partition('=')
                        d[k] = v
                    out.append(d)
    return out


def run(pid, tier, seed):
    from sa.loader import World, AnalysisBroken
    from sa.engine_check import decide, names_of, overrides, Result
    from sa.tables import decide_table
    import config
    import props
    from spec.tables import TABLES
    t0 = time.time()
    p = props.BY[pid]
    world = World({'elementstx': REPO, 'spec': V})
    helpers = {o.spec.replace(':', '.'): o.q for g in config.OBS.values() for o in g
               if '.' not in o.impl.split(':')[1]}
    by_impl = {o.q: o for g in config.OBS.values() for o in g if o.helper}
    every = [o for g in config.OBS.values() for o in g]
    subclasses = 0
    todo = []
    for entry in p['groups']:
        # 'group', 'group/method,method' and '#refusals', '#values' or '#observable,observable'
        g, _, only = entry.partition('#')
        g, _, pick = g.partition('/')
        picked = [o for o in config.OBS[g]
                  if not pick or o.impl.split(':')[1].rpartition('.')[2] in pick.split(',')]
        if not picked:
            raise AnalysisBroken('no obligation in %s' % entry)
        more, n = overrides(world, picked, every)
        subclasses += n
        todo += [(entry, o, only or None) for o in picked + more]
    seen = set()
    results = []
    broken = []
    while todo:
        g, o, only = todo.pop(0)
        if (o.key, o.spec, only) in seen or (o.key, o.spec, None) in seen:
            continue
        seen.add((o.key, o.spec, only))
        try:
            r = decide(world, o, helpers, only=only)
        except AnalysisBroken as e:
            broken.append('%s: %s' % (o.key, e))
            continue
        except RecursionError as e:
            r = Result(o)
            r.status, r.msgs = 'undecided', ['analysis limit: %s' % e]
        except Exception as e:      # a construct the engine cannot follow
            if os.environ.get('VERIF_DEBUG'):
                raise
            r = Result(o)
            r.status = 'undecided'
            r.msgs = ['the analysis stopped: %s: %s' % (type(e).__name__, str(e)[:200])]
        r.group = g
        results.append(r)
        # internal helpers kept as calls in this function are decided on their own
        si = getattr(r, 'si', None)
        if si is not None:
            names = set()
            ns = set()
            for v in list(si.obs.values()) + list(si.byclass.values()):
                names_of(v, names, ns)
            for n in sorted(names):
                q = n.partition(':')[2]
                if q in by_impl:
                    todo.append(('dependency', by_impl[q], only))
    for tname in p['tables']:
        try:
            r = decide_table(world, TABLES[tname])
        except AnalysisBroken as e:
            broken.append('%s: %s' % (tname, e))
            continue
        r.group = tname
        results.append(r)
    return p, world, results, broken, t0, subclasses


def report(pid, tier, seed, p, world, results, broken, t0, subclasses):
    known = known_findings()
    viol = []
    nknown = 0
    for r in results:
        if r.status != 'violation':
            continue
        left = []
        for msg in r.msgs:
            k = [d for d in known if d.get('property') == pid and d.get('obligation') == r.ob.key
                 and fnmatch.fnmatch(msg, d.get('match', ''))]
            if k:
                nknown += 1
                print('KNOWN-FINDING: property=%s %s' % (pid, k[0].get('what', msg)))
            else:
                left.append(msg)
        if left:
            viol.append((r, left))
    n = {s: sum(1 for r in results if r.status == s)
         for s in ('ok', 'violation', 'undecided', 'absent')}
    funcs, calls, loops, ref, ffi, facts = set(), 0, 0, 0, 0, 0
    items = []
    for r in results:
        st = r.stats
        funcs |= set(st.get('functions', ()))
        calls += st.get('calls', 0)
        loops += st.get('loops', 0)
        ref += st.get('refusal_sites', 0)
        ffi += st.get('ffi_calls', 0)
        facts += st.get('facts', 0)
        items.append({'obligation': r.ob.key, 'model': getattr(r.ob, 'spec', r.group),
                      'status': r.status, 'where': '%s:%d %s' % r.loc if r.loc else None,
                      'observables': st.get('observables'),
                      'refusal_classes': st.get('refusal_classes'),
                      'facts': st.get('facts'), 'seconds': st.get('seconds'),
                      'notes': r.msgs[:5] if r.status != 'ok' else []})
    for r in results:
        if r.status in ('undecided', 'absent'):
            print('%s %s: %s' % (r.status.upper(), r.ob.key, '; '.join(r.msgs)[:600]))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Gated value-graph dataflow analysis of the listed functions (with '
                           'everything they call inlined or decided as its own obligation), '
                           'compared with an independently written reference model analysed by '
                           'the same engine; each obligation compares the result, every store '
                           'and stream effect, and the condition of every refusal class. Table '
                           'obligations compare abstractly evaluated class attributes, class '
                           'relations and constants with reference values.',
            'obligations': len(results), 'discharged': n['ok'], 'undecided': n['undecided'],
            'helpers_inlined_instead': n['absent'], 'functions_analysed': len(funcs),
            'call_sites_analysed': calls, 'loops_analysed': loops, 'refusal_sites': ref,
            'library_call_sites': ffi, 'table_facts': facts,
            'subclass_methods_resolved': subclasses,
            'modules_parsed': len([m for m in world.mods.values() if m is not None]),
            'function_list': sorted(funcs), 'items': items},
        'assumptions': [
            'models of Python builtins, ctypes and python-bitcointx library calls in '
            'sa/libmodel.py are right',
            'assert statements and texts of error messages are not part of the behaviour'],
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if broken:
        for b in broken:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, b))
    if viol:
        path = os.path.join(V, 'evidence', pid + '.violation.txt')
        with open(path, 'w') as f:
            for r, msgs in viol:
                loc = '%s:%d %s' % r.loc if r.loc else ''
                f.write('%s %s (model %s)\n' % (loc, r.ob.key, getattr(r.ob, 'spec', r.group)))
                for m in msgs:
                    f.write('    %s\n' % m)
        for r, msgs in viol:
            print('%s %s' % ('%s:%d' % r.loc[:2] if r.loc else r.group, r.ob.key))
            for m in msgs[:6]:
                print('    ' + m[:1200])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if broken:
        return 2
    if not results:
        print('ANALYSIS-BROKEN property=%s nothing was analysed' % pid)
        return 2
    print('property=%s held: %d obligations, %d discharged, %d undecided, %d functions, %.1fs' % (
        pid, len(results), n['ok'], n['undecided'], len(funcs), time.time() - t0))
    return 0


def main(out):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    limit_memory(24)
    out.append(report(a.property, tier, seed, *run(a.property, tier, seed)))


if __name__ == '__main__':
    threading.stack_size(1024 * 1024 * 1024)
    rc = []
    th = threading.Thread(target=main, args=(rc,))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
