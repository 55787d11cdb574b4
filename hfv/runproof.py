"""Run one registered proof in its own process and write its obligations as JSON.
usage: runproof.py OUT.json MODULE FUNCNAME IR.json..."""
import sys, os, json, time, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    out, mod, fname = sys.argv[1:4]
    irs = sys.argv[4:]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    d = dict(module=mod, proof=fname, status='error', obligations=[], functions=[], detail='')
    try:
        import importlib
        import fw
        importlib.import_module(mod)
        from exec import Program
        from values import Unsupported
        from terms import TooBig
        import prover as P
        import vc
        f = [x for x in fw.PROOFS if x[3].__name__ == fname and x[3].__module__ == mod][0]
        d['label'] = f[1]
        try:
            prog = Program(irs)
            ps = f[3](prog)
            ps = ps if isinstance(ps, list) else [ps]
            d['status'] = 'done'
            for p in ps:
                d['functions'] += sorted(p.funcs)
                d.setdefault('inlined', [])
                d['inlined'] = sorted(set(d['inlined']) | set(p.ex.inlined))
                for r in p.res:
                    e = dict(proof=p.label, name=r.name, kind=r.kind, ok=bool(r.ok), backend=r.backend or '', secs=round(r.secs, 3))
                    if not r.ok:
                        e['detail'] = str(r.detail)[:2000]
                        if r.goal is not None:
                            e['goal'] = str(r.goal)[:4000]
                            e['context'] = [str(c)[:600] for c in (r.ctx or [])][:60]
                            e['refutation'] = vc.refute(r)
                    d['obligations'].append(e)
            d['functions'] = sorted(set(d['functions']))
            d['assumed'] = sorted(set(a for p in ps for a in getattr(p, 'assumed', [])))
            d['contracts_used'] = sorted(set(str(c) for p in ps for c in getattr(p.ex, 'used', [])))
        except (Unsupported, TooBig, RecursionError, MemoryError) as e:
            d['status'] = 'unsupported'
            d['detail'] = '%s: %s' % (type(e).__name__, str(e)[:1500])
        d['stats'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in P.STATS.items()}
    except BaseException as e:
        d['status'] = 'error'
        d['detail'] = traceback.format_exc()[-3000:]
    d['secs'] = round(time.time() - t0, 2)
    json.dump(d, open(out + '.tmp', 'w'))
    os.rename(out + '.tmp', out)


main()
