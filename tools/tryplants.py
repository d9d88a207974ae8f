#!/usr/bin/env python3
"""Run the check of each planted bug's property on a scratch copy with the bug: tools/tryplants.py [-j N] [-p PROP] [ID...]"""
import os, sys, json, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
S = os.path.join(V, 'seeded')


def one(a):
    pid, prop = a
    W = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '--shared', '/repo', W + '/r'], check=True)
        subprocess.run(['git', '-C', W + '/r', 'apply', os.path.join(S, pid, 'patch.diff')], check=True)
        shutil.copytree(V, W + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        os.mkdir(W + '/v/evidence')
        t = time.time()
        prop = prop or json.load(open(os.path.join(S, pid, 'meta.json')))['property']
        env = dict(os.environ, VT_REPO=W + '/r', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
        p = subprocess.run(['timeout', '900', 'python3', 'check.py', prop], cwd=W + '/v', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors='replace')
        v = [l for l in out.split('\n') if l.startswith('VIOLATION')]
        return pid, prop, p.returncode, len(v), int(time.time() - t), out
    finally:
        shutil.rmtree(W, ignore_errors=True)


def main():
    args, j, prop = sys.argv[1:], 2, None
    while args and args[0].startswith('-'):
        if args[0] == '-j':
            j = int(args[1])
        if args[0] == '-p':
            prop = args[1]
        args = args[2:]
    ids = args or sorted(os.listdir(S))
    with ThreadPoolExecutor(j) as ex:
        for pid, pr, rc, n, t, out in ex.map(one, [(i, prop) for i in ids]):
            print('%-24s %s rc=%d violations=%d %ds' % (pid, pr, rc, n, t), '' if rc == 1 and n else 'MISSED', flush=True)
            if not (rc == 1 and n):
                open('/tmp/try-%s.log' % pid, 'w').write(out)


main()
