#!/usr/bin/env python3-vt
"""Decide one property of /repo's current tree.

    check.py PID        (VERIF_SEED, VERIF_TIER=quick|thorough from the environment)

1. extract the functions under contract from /repo's sources (clang AST -> IR),
2. discharge every contract obligation (hfv),
3. compile the property's run-time contract harness from the same sources and
   run it: it audits the assumptions and, when an obligation fails, searches a
   failing input to replay.
Exit 0: held.  Exit 1: "VIOLATION property=PID replay=FILE[ no-failing-input-found]".
Exit 2: nothing could be decided (neither obligations nor harness could be built)."""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib, re, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'hfv'))
sys.path.insert(0, V)
import config as C

REPO = os.environ.get('HFV_REPO', '/repo')
PY = 'python3-vt'


def sh(cmd, timeout=None, env=None, cwd=None):
    """(rc, output); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, _ = p.communicate()
        return None, o.decode('utf8', 'replace')


def tool():
    """the extractor, rebuilt when its source changed"""
    src = os.path.join(V, 'hfv', 'hfx.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    d = os.path.join(V, '.build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'hfx-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        rc, o = sh(['bash', os.path.join(V, 'hfv', 'build_hfx.sh'), tmp], 600)
        if rc != 0:
            raise SystemExit('cannot build the extractor:\n' + o)
        os.rename(tmp, out)
    return out


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.cfg = C.PROPS[pid]
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='hfv-%s-' % pid)
        self.inc = os.path.join(self.tmp, 'inc')
        os.makedirs(self.inc)
        self.pool = ThreadPoolExecutor(8)
        t = open(os.path.join(REPO, 'libhelfem/include/helfem.source.h')).read()
        open(os.path.join(self.inc, 'helfem.h'), 'w').write(t.replace('${LIBHELFEM_VERSION}', '0'))
        self.incs = ['-I' + self.inc] + ['-I' + os.path.join(REPO, x) for x in ('libhelfem/include', 'libhelfem/src', 'libhelfemqc/include', 'src', 'src/general')] + \
            ['-I/usr/include/hdf5/serial', '-isystem', '/usr/include/eigen3']
        self.hw = float(os.environ.get('HFV_HARNESS_WALL', '300'))

    # ---------------------------------------------------------------- proofs
    def extract(self, tool, tu):
        src = os.path.join(V, tu[2:]) if tu.startswith('V:') else os.path.join(REPO, tu)
        out = os.path.join(self.tmp, hashlib.sha1(tu.encode()).hexdigest()[:12] + '.json')
        rc, o = sh([tool, out, REPO, src, '--', '-std=gnu++20', '-w', '-DEIGEN_USE_BLAS', '-DNDEBUG'] + self.incs + ['-I' + os.path.join(V, 'harness'), '-I' + os.path.join(V, 'harness', 'stub')], 300)
        if rc != 0 or not os.path.exists(out):
            return tu, None, o[-1500:]
        return tu, out, ''

    def prove(self, job, irs, scale):
        props, label, tus, f = job
        out = os.path.join(self.tmp, 'pf-%s-%s.json' % (f.__module__, f.__name__))
        if os.path.exists(out):
            os.remove(out)
        miss = [t for t in tus if irs.get(t) is None]
        if miss:
            return dict(proof=f.__name__, label=label, status='unsupported', detail='cannot extract ' + ', '.join(miss), obligations=[], functions=[], secs=0)
        env = dict(os.environ, HFV_TSCALE=str(scale))
        rc, o = sh([PY, os.path.join(V, 'hfv', 'runproof.py'), out, f.__module__, f.__name__] + [irs[t] for t in tus], self.plimit, env)
        if os.path.exists(out):
            d = json.load(open(out))
        else:
            d = dict(status='unsupported', detail='time limit %ds' % self.plimit if rc is None else 'engine died: ' + o[-800:], obligations=[], functions=[], secs=self.plimit)
        d['label'] = label
        d['proof'] = f.__name__
        return d

    def proofs(self):
        import importlib
        import fw
        for m in self.cfg['modules']:
            importlib.import_module(m)
        jobs = [p for p in fw.PROOFS if self.pid in p[0]]
        tus = sorted(set(t for p in jobs for t in p[2]))
        if not jobs:
            return []
        tl = tool()
        self.plimit = 330 if self.tier == 'quick' else 900
        irs = {}
        self.exlog = []
        for tu, out, log in self.pool.map(lambda t: self.extract(tl, t), tus):
            irs[tu] = out
            if log:
                self.exlog.append('%s: %s' % (tu, log))
        rs = list(self.pool.map(lambda j: self.prove(j, irs, 1), jobs))
        # an obligation that fails is retried with four times the solver time before it counts
        again = [i for i, r in enumerate(rs) if r['status'] == 'done' and any(not o['ok'] for o in r['obligations'])]
        if again and self.hf and any(f.done() and f.result()['fails'] for f in self.hf):
            again = []          # a failing input is already known
        if again and time.time() - self.t0 < 300:
            self.plimit = max(60, min(self.plimit, 700 - (time.time() - self.t0)))
            for i, r in zip(again, self.pool.map(lambda i: self.prove(jobs[i], irs, 4), again)):
                if r['status'] == 'done':
                    rs[i] = r
        return rs

    # --------------------------------------------------------------- harness
    def compile(self, hn):
        """build the harness from /repo's sources; returns binary or (None, log)"""
        srcs = [os.path.join(V, 'harness', hn['src'])]
        for g in hn['repo']:
            fs = sorted(glob.glob(os.path.join(REPO, g)))
            srcs += fs
        srcs = [s for s in srcs if not any(s.endswith(x) for x in hn.get('skip', ()))]
        fl = ['-std=gnu++23', '-O1', '-w', '-DEIGEN_USE_BLAS', '-D_GLIBCXX_ASSERTIONS'] + hn.get('flags', []) + self.incs + ['-I' + os.path.join(V, 'harness'), '-I' + os.path.join(V, 'harness', 'stub')]
        od = os.path.join(self.tmp, 'o-' + hn['src'])
        os.makedirs(od, exist_ok=True)

        def one(s):
            o = os.path.join(od, hashlib.sha1(s.encode()).hexdigest()[:10] + '.o')
            rc, log = sh(['g++'] + fl + ['-c', s, '-o', o], 400)
            return s, o, rc, log
        with ThreadPoolExecutor(6) as ex:
            rs = list(ex.map(one, srcs))
        bad = [(s, log) for s, o, rc, log in rs if rc != 0]
        if bad:
            return None, 'compile failed: ' + '\n'.join(s + '\n' + l[-1500:] for s, l in bad[:3])
        b = os.path.join(od, 'h')
        # library objects go in an archive so that only what is needed is linked
        ar = os.path.join(od, 'l.a')
        if len(rs) > 1:
            sh(['ar', 'rcs', ar] + [o for s, o, rc, l in rs[1:]], 60)
        rc, log = sh(['g++', rs[0][1]] + ([ar] if len(rs) > 1 else []) + ['-o', b] + hn.get('libs', []) + ['-llapack', '-lblas'], 200)
        if rc != 0:
            return None, 'link failed: ' + log[-1500:]
        return b, ''

    def harness(self, hn):
        d = dict(src=hn['src'], arg=hn.get('arg', ''), status='', fails=[], known=[], evals=0, nontrivial=0, samples=[], detail='')
        b, log = self.compile(hn)
        if b is None:
            d['status'], d['detail'] = 'unavailable', log
            return d
        wd = os.path.join(self.tmp, 'run-' + hn['src'] + hn.get('arg', ''))
        os.makedirs(wd, exist_ok=True)
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='1', HFV_DATA=os.path.join(V, 'harness'))
        lim = self.hw if self.tier == 'quick' else 6 * self.hw
        rc, o = sh([b, hn.get('arg', self.pid)], lim, env, wd)
        for l in o.splitlines():
            if l.startswith('FAIL '):
                d['fails'].append(l[5:])
            elif l.startswith('EVALS '):
                w = l.split()
                d['evals'], d['nontrivial'] = int(w[1]), int(w[3])
            elif l.startswith('SAMPLE '):
                d['samples'].append(l[7:][:400])
        if rc is None:
            d['status'], d['detail'] = 'timeout', 'time limit'
            if not d['fails'] and hn.get('hang_is_fail'):
                d['fails'].append('terminates | whole run')
        elif rc != 0 and not d['fails']:
            d['fails'].append('harness died with status %d | %s' % (rc, o[-600:]))
            d['status'] = 'died'
        else:
            d['status'] = 'ran'
        return d

    # ------------------------------------------------------------------ main
    def main(self):
        try:
            return self.main2()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def main2(self):
        hx = ThreadPoolExecutor(2)
        hf = [hx.submit(self.harness, h) for h in self.cfg.get('harness', [])]
        self.hf = hf
        pr = self.proofs()
        hs = [f.result() for f in hf]
        obl = [dict(o, of=r['proof']) for r in pr for o in r['obligations']]
        failed = [o for o in obl if not o['ok']]
        unsup = [r for r in pr if r['status'] != 'done' or not r['obligations']]
        kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
        kf = [k for k in kf if k['property'] == self.pid and k['status'] == 'known']
        known = []

        def split(items, text, key):
            out = []
            for it in items:
                for k in kf:
                    if k.get(key) and re.search(k[key], text(it)):
                        known.append(k)
                        break
                else:
                    out.append(it)
            return out
        fails = [(h['src'], f) for h in hs for f in h['fails']]
        fails = split(fails, lambda x: x[1], 'input')
        failed = split(failed, lambda o: '%s %s %s' % (o['of'], o['proof'], o['name']), 'obligation')
        usable = [r for r in pr if r['status'] == 'done' and r['obligations']]
        ran = [h for h in hs if h['status'] in ('ran', 'died')]
        viol = []
        replay = os.path.join(V, 'evidence', self.pid + '.replay.txt')
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        if os.path.exists(replay):
            os.remove(replay)
        if fails or failed:
            with open(replay, 'w') as f:
                f.write('property %s\n' % self.pid)
                if fails:
                    f.write('\nFAILING INPUTS on the real code (harness compiled from /repo; replay: VERIF_SEED=%d VERIF_TIER=%s)\n' % (self.seed, self.tier))
                    for s, t in fails:
                        f.write('  [%s] %s\n' % (s, t))
                if failed:
                    f.write('\nFAILED OBLIGATIONS\n')
                    for o in failed:
                        f.write('  %s / %s / %s\n' % (o['of'], o['proof'], o['name']))
                        for k in ('kind', 'detail', 'goal', 'refutation'):
                            if o.get(k):
                                f.write('      %s: %s\n' % (k, o[k]))
                        for c in o.get('context', [])[:40]:
                            f.write('      under: %s\n' % c)
            viol = fails or failed
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        self.evidence(pr, hs, obl, failed, unsup, fails, known)
        for r in unsup:
            print('note: proof %s not decided on this tree (%s); the bounded harness decides' % (r['proof'], r['detail'][:300].replace('\n', ' ')))
        for h in hs:
            if h['status'] not in ('ran', 'died'):
                print('note: harness %s %s: %s' % (h['src'], h['status'], h['detail'][:1500]))
        for l in self.exlog[:3] if hasattr(self, 'exlog') else []:
            print('note: extraction: ' + l[:500])
        print('%s: %d/%d obligations discharged, harness %d evaluations on %d cases, %.0f s' % (
            self.pid, sum(o['ok'] for o in obl), len(obl), sum(h['evals'] for h in hs), sum(h['nontrivial'] for h in hs), time.time() - self.t0))
        if fails:
            print('failing input: %s' % fails[0][1][:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        if failed:
            print('failed obligation: %s / %s / %s' % (failed[0]['of'], failed[0]['proof'], failed[0]['name']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, replay))
            return 1
        if not usable and not ran:
            print('undecided: no obligation could be generated and no harness could be built')
            return 2
        return 0

    def evidence(self, pr, hs, obl, failed, unsup, fails, known):
        okn = sum(o['ok'] for o in obl)
        proved = not unsup and obl and okn == len(obl)
        be = {}
        for o in obl:
            if o['ok']:
                be[o['backend']] = be.get(o['backend'], 0) + 1
        cov = dict(
            obligations=len(obl), discharged=okn,
            checker_cmd='python3-vt check.py %s' % self.pid,
            trusted_base=C.TRUSTED,
            backends=be,
            solver_seconds=round(sum(r.get('stats', {}).get('time', 0) for r in pr), 2),
            functions_under_contract=sorted(set(f for r in pr for f in r.get('functions', []))),
            functions_inlined=sorted(set(f for r in pr for f in r.get('inlined', []))),
            callee_contracts_used=sorted(set(f for r in pr for f in r.get('contracts_used', []))),
            proofs=[dict(name=r['proof'], label=r['label'], status=r['status'], obligations=len(r['obligations']), discharged=sum(o['ok'] for o in r['obligations']), seconds=r.get('secs', 0)) for r in pr],
            undecided_proofs=[dict(name=r['proof'], why=r['detail'][:400]) for r in unsup],
            obligation_kinds={k: sum(1 for o in obl if o['kind'] == k) for k in sorted(set(o['kind'] for o in obl))},
            evaluations=sum(h['evals'] for h in hs), distinct_nontrivial=sum(h['nontrivial'] for h in hs),
            rule='bounded stand-in / audit, not counted as proved: ' + self.cfg.get('rule', 'seeded random concrete inputs, contracts evaluated at run time on the real code'),
            samples=[s for h in hs for s in h['samples']][:6] or [o['name'] for o in obl[:3]],
            bounded_only=self.cfg.get('bounded', []),
        )
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level='proof' if proved else 'exploration', coverage=cov,
                  assumptions=C.ASSUME + self.cfg.get('assume', []) + sorted(set(a for r in pr for a in r.get('assumed', []))),
                  wall_s=round(time.time() - self.t0, 2), violations=len(fails) or len(failed))
        p = os.path.join(V, 'evidence', self.pid + '.json')
        json.dump(ev, open(p + '.tmp', 'w'), indent=1)
        os.rename(p + '.tmp', p)


if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        print(tool())
        sys.exit(0)
    sys.exit(Run(sys.argv[1]).main())
