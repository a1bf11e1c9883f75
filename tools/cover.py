"""Which functions of the package no obligation analyses (as a root or inlined)."""
import ast, os, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def main():
    from sa.loader import World
    from sa.engine_check import decide
    import config
    repo = os.environ.get('REPO', '/repo')
    w = World({'elementstx': repo, 'spec': V})
    helpers = {o.spec.replace(':', '.'): o.q for g in config.OBS.values() for o in g if '.' not in o.impl.split(':')[1]}
    roots, inl = set(), set()
    for g, obs in config.OBS.items():
        if g == 'blind.tx' and not os.environ.get('ALL'):
            continue
        for o in obs:
            roots.add(o.q)
            r = decide(w, o, helpers)
            if r.loc:
                roots.add('%s:%d' % r.loc[:2])
            inl |= set(r.stats.get('functions', ()))
    for dp, dn, fn in os.walk(repo + '/elementstx'):
        if 'tests' in dp: continue
        for f in sorted(fn):
            if not f.endswith('.py'): continue
            p = os.path.join(dp, f)
            mod = os.path.relpath(p, repo)[:-3].replace('/', '.').replace('.__init__', '')
            t = ast.parse(open(p).read())
            def walk(n, pre):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.FunctionDef):
                        q = pre + '.' + c.name
                        if '%s:%d' % (p, c.lineno) not in roots and q not in roots:
                            print('inlined' if q in inl else 'NONE   ', q, c.lineno, c.end_lineno - c.lineno + 1)
                    elif isinstance(c, ast.ClassDef):
                        walk(c, pre + '.' + c.name)
                    elif isinstance(c, (ast.If, ast.Try)):
                        walk(c, pre)
            walk(t, mod)
t = threading.Thread(target=main); t.start(); t.join()
