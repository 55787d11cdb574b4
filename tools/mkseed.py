#!/usr/bin/env python3-vt
"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text)
or DEMOSH; creates /verif/seeded/ID, and verifies build, stable tests, demo in a scratch use of /repo."""
import sys, os, json, subprocess, re
ns = {}
exec(open(sys.argv[1]).read(), ns)
V = '/verif/seeded/' + ns['ID']
os.makedirs(V, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--short']).strip(), 'repo dirty'


def sh(c, t=1200):
    p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


try:
    for f, old, new in ns['EDITS']:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.check_output(['git', '-C', '/repo', 'diff']).decode()
    open(V + '/patch.diff', 'w').write(d)
    if 'DEMOSH' in ns:
        open(V + '/demo.sh', 'w').write(ns['DEMOSH'])
    else:
        open(V + '/demo.sh', 'w').write(open('/verif/tools/demo.sh.tmpl').read())
    if 'DEMO' in ns:
        open(V + '/demo.cpp', 'w').write(ns['DEMO'])
    for n, t in ns.get('FILES', {}).items():
        open(V + '/' + n, 'w').write(t)
    os.chmod(V + '/demo.sh', 0o755)
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(V + '/meta.json', 'w'), indent=1)
    rc, o = sh('bash /opt/vp/build.sh')
    print('build with patch', rc, o[-600:] if rc else '')
    rc, o = sh('bash /opt/vp/test.sh /tmp/w/t.json')
    j = json.load(open('/tmp/w/t.json'))
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    txt = json.dumps(j)
    print('tests rc', rc, {k: (len(v) if hasattr(v, '__len__') else v) for k, v in j.items()} if isinstance(j, dict) else len(j))
    if isinstance(j, dict) and 'passed' in j:
        print('  stable not passing:', [x for x in st if x not in j['passed']])
    rc, o = sh('cd /repo && bash %s/demo.sh' % V)
    print('demo with patch rc', rc, o[-400:])
finally:
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
    rc, o = sh('bash /opt/vp/build.sh')
    print('rebuild', rc)
rc, o = sh('cd /repo && bash %s/demo.sh' % V)
print('demo without patch rc', rc, o[-400:])
