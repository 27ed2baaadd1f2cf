"""Mutation test of the contracts (development only): every mutant below is a
small change of one function; some obligation of the named contract must fail
on it.  `python3-vt selftest/run.py [substr]`."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

ONE = '''
import sys
sys.path.insert(0, %r)
from pyvc import source, verify, registry
db = source.SourceDB()
db.consts = verify.dump_consts(db, source.REPO)
reg = registry.load()
r = verify.verify(db, reg, %r, 8.0)
bad = [o[0].split('/', 1)[-1] for o in r.obls if o[2] != 'proved']
print('RESULT', r.status, len(r.obls), ' '.join(bad) or '-', r.reason)
'''


def run(m):
    con, path, old, new = m
    tmp = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(os.path.join(REPO, 'nxt'), os.path.join(tmp, 'nxt'))
        p = os.path.join(tmp, 'nxt', path)
        text = open(p).read()
        if text.count(old) < 1:
            return m, 'STALE'
        open(p, 'w').write(text.replace(old, new, 1))
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                            ONE % (ROOT, con)], capture_output=True,
                           text=True, env=dict(os.environ, VERIF_REPO=tmp),
                           timeout=900)
        out = [x for x in r.stdout.split('\n') if x.startswith('RESULT')]
        return m, out[0][7:] if out else 'CRASH ' + r.stderr[-300:]
    finally:
        shutil.rmtree(tmp)


def main():
    sys.path.insert(0, HERE)
    import mutants
    todo = [m for m in mutants.MUTANTS
            if not sys.argv[1:] or any(s in m[0] for s in sys.argv[1:])]
    n = 0
    with ThreadPoolExecutor(7) as ex:
        for m, r in ex.map(run, todo):
            w = r.split()
            hit = w[0] == 'ok' and len(w) > 2 and w[2] != '-'
            n += hit
            print('%-7s %-45s %r -> %r: %s' % (
                'caught' if hit else 'MISSED', m[0], m[2][:40], m[3][:40],
                r[:160]))
    print('%d of %d mutants fail an obligation' % (n, len(todo)))
    return 0 if n == len(todo) else 1


if __name__ == '__main__':
    sys.exit(main())
