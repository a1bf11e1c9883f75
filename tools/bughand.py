"""Apply each hand-written bug of tools/bugbank to a scratch copy; some
check has to stay quiet.  tools/bughand.py [module[:name]...]"""
import importlib
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True


def one(f, n, edits):
    """the text reported for one edit"""
    d = tempfile.mkdtemp(prefix='bughand.', dir='/tmp')
    out = []
    try:
        shutil.copytree('/repo/elementstx', d + '/elementstx', ignore=shutil.ignore_patterns('__pycache__'))
        for fn, old, new in edits:
            p = '%s/elementstx/%s' % (d, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return '==== %s:%s EDIT DOES NOT APPLY (%d): %r' % (f, n, s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=d)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                            'elementstx/tests'], cwd=d, env=env, capture_output=True, text=True)
        last = (t.stdout.strip().split('\n') or [''])[-1]
        c = subprocess.run([V + '/tools/all.sh'] + os.environ.get('IDS', '').split(), env=env,
                           capture_output=True, text=True)
        import re
        hit = re.findall(r'VIOLATION property=(C\d+)', c.stdout)
        out.append('==== %-30s tests %s | %s' % (f + ':' + n, last, 'caught by ' + ' '.join(sorted(hit)) if hit else
                                                 'UNDECIDED' if c.stdout.strip() else 'MISSED'))
        if 'failed' in last or 'error' in last:
            out.append(t.stdout[-400:])
        if c.stdout.strip() and not hit:
            out.append(c.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return '\n'.join(out)


def main():
    want = sys.argv[1:]
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as pool:
        for f in sorted(os.listdir(V + '/tools/bugbank')):
            if not f.endswith('.py') or f.startswith('__'):
                continue
            m = importlib.import_module('tools.bugbank.' + f[:-3])
            for n, edits in m.R.items():
                if not want or f[:-3] in want or '%s:%s' % (f[:-3], n) in want:
                    jobs.append(pool.submit(one, f[:-3], n, edits))
        for j in jobs:
            print(j.result(), flush=True)


main()
