"""Run all (or named) obligation groups and print the outcome. tools/obs.py [group-prefix...]"""
import os
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    from sa.loader import World
    from sa.engine_check import decide
    import config
    repo = os.environ.get('REPO', '/repo')
    w = World({'elementstx': repo, 'spec': V})
    helpers = {o.spec.replace(':', '.'): o.q for g in config.OBS.values() for o in g if '.' not in o.impl.split(':')[1]}
    for g, obs in config.OBS.items():
        if sys.argv[1:] and not any(g.startswith(a) for a in sys.argv[1:]):
            continue
        for o in obs:
            t = time.time()
            try:
                r = decide(w, o, helpers)
            except Exception as e:
                if os.environ.get('TB'):
                    raise
                print('CRASH', g, o.key, type(e).__name__, str(e)[:200])
                continue
            if r.status == 'ok' and not os.environ.get('ALL'):
                if time.time() - t > 5:
                    print('ok  ', g, o.key, round(time.time() - t, 1))
                continue
            print(r.status.upper(), g, o.key, getattr(r, 'level', ''), round(time.time() - t, 1))
            for x in r.msgs[:6]:
                print('     ', x[:int(os.environ.get('W', 400))])
            if getattr(r, 'si', None) and r.si.notes:
                print('      notes', r.si.notes[:3])


t = threading.Thread(target=main)
t.start()
t.join()
