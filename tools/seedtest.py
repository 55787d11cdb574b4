#!/usr/bin/env python3-vt
"""Run the checks against planted bugs in scratch copies: seedtest.py [-j N] [ID...]"""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
a = sys.argv[1:]
j = 2
if a[:1] == ['-j']:
    j = int(a[1]); a = a[2:]
ids = a or sorted(os.listdir(V + '/seeded'))


def one(i):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + t, shell=True)
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + t, '%s/seeded/%s/patch.diff' % (V, i)], capture_output=True, text=True, cwd='/')
        if r.returncode:
            r = subprocess.run(['patch', '-p1', '-d', t, '-i', '%s/seeded/%s/patch.diff' % (V, i)], capture_output=True, text=True)
            if r.returncode:
                return i, m['property'], 'PATCH FAILED ' + r.stdout + r.stderr
        p = subprocess.run(['python3-vt', V + '/check.py', m['property']], capture_output=True, text=True, env=dict(os.environ, HFV_REPO=t))
        l = [x for x in p.stdout.splitlines() if x.startswith(('VIOLATION', 'failing', 'failed', 'note', m['property'] + ':'))]
        return i, m['property'], 'rc=%d ' % p.returncode + ' || '.join(x[:260] for x in l) + p.stderr[-300:]
    finally:
        shutil.rmtree(t)


with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
