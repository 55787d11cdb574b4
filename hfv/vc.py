"""Verification driver: runs a function of the extracted program against a contract."""
import os, time, random, traceback
from terms import *
import terms as T
from values import *
import values as V
import prover as P
from exec import Exec, Program, Dead, Obl, syms, fsubst
import lib


def symval(ex, shape, name, facts, idx=()):
    """arbitrary value of a C++ type; size fields are non-negative"""
    k = shape[0]
    if k == 'sc':
        return app(name, idx, shape[1]) if idx else var(name, shape[1])
    if k == 'mat':
        r = app(name + '.rows', idx, 'I') if idx else var(name + '.rows', 'I')
        c = app(name + '.cols', idx, 'I') if idx else var(name + '.cols', 'I')
        if shape[2]:
            c = K(1)
        if len(shape) > 3 and shape[3] not in ('-1',):
            r = K(int(shape[3]))
        if not idx:
            for t in (r, c):
                if t.op != 'k':
                    facts.append(le(K(0), t))
        so = shape[1]
        if shape[2]:
            return Mat(r, c, lambda i, j: app(name, idx + (i,), so), so, True, shape[4])
        return Mat(r, c, lambda i, j: app(name, idx + (i, j), so), so, False, shape[4])
    if k == 'vec':
        n = app(name + '.size', idx, 'I') if idx else var(name + '.size', 'I')
        if not idx:
            facts.append(le(K(0), n))
        return SVec(n, lambda i: symval(ex, shape[1], name + '.e', facts, idx + (i,)), shape[1])
    if k == 'tup':
        return Tup([symval(ex, s, '%s.%d' % (name, i), facts, idx) for i, s in enumerate(shape[1])])
    if k == 'obj':
        if ex is not None and shape[1] in ex.records:
            return symobj(ex, shape[1], name, facts, idx)
        return Opaque(shape[1])
    if k == 'str':
        return Str(None)
    if k == 'ptr':
        return Ptr(None)
    if k == 'fun':
        nm = name

        def call(ex, st, args):
            vs = tuple(ex.rv(a, st) for a in args)
            return app(nm, idx + vs, 'R')
        return Fun(call, FALSE, nm, nm)
    raise Unsupported('symval %s' % (shape,))


def symobj(ex, rec, name, facts, idx=()):
    fs = {}
    for f, ty in ex.rec_fields(rec):
        t = ty[f['t']]
        fs[f['n']] = symval(ex, ex.shape(t), name + '.' + f['n'], facts, idx)
    return Obj(rec, fs)


class R:
    """one obligation's outcome"""

    def __init__(self, name, kind, ok, backend, secs, detail='', goal=None, ctx=None):
        self.name, self.kind, self.ok, self.backend, self.secs, self.detail = name, kind, ok, backend, secs, detail
        self.goal, self.ctx = goal, ctx


class Proof:
    """contract check of one function; collects obligations"""

    def __init__(self, prog, label, contracts=None, candidates=None, invs=None, timeout=10.0):
        timeout *= float(os.environ.get("HFV_TSCALE", "1"))
        self.prog, self.label = prog, label
        self.ex = Exec(prog, contracts, candidates, invs)
        self.res = []
        self.nfail = 0
        self.facts = []
        self.timeout = timeout
        self.unsupported = None
        self.t0 = time.time()
        self.funcs = set()
        self.st = State(self.ex)

    # -- building inputs
    def sym(self, shape, name):
        return symval(self.ex, shape, name, self.facts)

    def obj(self, rec, name='self'):
        return symobj(self.ex, rec, name, self.facts)

    def param(self, fn, i, name=None):
        p = fn['params'][i]
        t = fn['_ty'][p['t']]
        sh = shape_of(t['s']) if t['c'] not in 'biur' else self.ex.shape(t)
        if t['c'] == 'u':
            v = var(name or p['n'], 'I')
            self.facts.append(le(K(0), v))
            return v
        return symval(self.ex, sh, name or p['n'], self.facts)

    def require(self, *cs):
        for c in cs:
            self.facts.append(lift(c))

    def check(self, name, goal, ctx, kind='ensures', timeout=None):
        t0 = time.time()
        detail = ''
        try:
            b = P.prove(lift(goal), ctx, (timeout or self.timeout) if self.nfail < 3 else 2.0)
        except TooBig:
            b = None
            detail = 'normal form too large'
        self.nfail += not b
        self.res.append(R(name, kind, bool(b), b, time.time() - t0, detail, goal, list(ctx)))
        return bool(b)

    def check_any(self, name, goals, ctx, kind='ensures', timeout=None):
        """goals are equivalent statements of the same fact written differently; any proof will do"""
        t0 = time.time()
        for g in goals:
            try:
                b = P.prove(lift(g), ctx, (timeout or self.timeout) if self.nfail < 3 else 2.0)
            except TooBig:
                b = None
            if b:
                break
        self.nfail += not b
        self.res.append(R(name, kind, bool(b), b, time.time() - t0, '', goals[0], list(ctx)))
        return bool(b)

    def run(self, fn, this=None, args=(), vacuity=True):
        """execute; returns (result value, state) or (None,None) when every path throws"""
        ex, st = self.ex, self.st
        self.funcs.add(fn['q'])
        st.pc = list(self.facts)
        if vacuity:
            ok = P.sat(st.pc)
            self.res.append(R('requires-satisfiable', 'vacuity', ok is not False, 'z3', 0.0))
        ex.obls, ex.throws = [], []
        if fn.get('ctor') or (fn.get('rec') and fn['n'] == fn.get('rec', '').split('<')[0].split('::')[-1]):
            ex.run_ctor(fn, this, list(args), st)
            r = None
        else:
            r = ex.call_fn(fn, this, list(args), st)
        for o in ex.obls:
            self.check('%s: %s @%s' % (o.fn.split('::')[-1], o.desc, short(o.loc)), o.goal, o.ctx, o.kind)
        self.throws = list(ex.throws)
        return (None if st.dead else r), st

    def check_throws(self, name, cond, what=None):
        """the function throws only when cond holds, and returns only when it does not"""
        for pcs, w, loc in self.throws:
            self.check('%s: throws only if specified @%s' % (name, short(loc)), cond, pcs, 'throws')
            if what is not None:
                self.res.append(R('%s: exception type %s' % (name, what), 'throws', what in (w or ''), 'nf', 0.0, w))
        if not self.st.dead:
            self.check('%s: normal return only if not specified to throw' % name, not_(cond), self.st.pc, 'throws')


def short(loc):
    return loc.split('/')[-1]


def refute(r, tries=200):
    """best effort: a concrete interpretation of the symbols under which the context
    holds and the goal does not (values are exact rationals)"""
    from fractions import Fraction
    goal, ctx = lift(r.goal), list(r.ctx or [])
    rnd = random.Random(12345)
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 10:
            break
        tab = {}
        seed = rnd.random()

        def interp(f, args):
            key = (f, args)
            if key in tab:
                return tab[key]
            so = args[-1] if f.startswith('var:') else args[-1][1]
            g = random.Random('%s%s' % (seed, key))
            if so == 'I':
                v = Fraction(g.randint(0, 4))
            elif so == 'B':
                v = g.random() < 0.5
            else:
                v = Fraction(g.randint(-9, 9), g.randint(1, 4))
            tab[key] = v
            return v
        try:
            memo = {}
            if all(evaluate(c, {}, interp, memo) for c in ctx) and not evaluate(goal, {}, interp, memo):
                return 'interpretation: ' + ', '.join('%s%s=%s' % (f.replace('var:', ''), '' if f.startswith('var:') else '(%s)' % ','.join(str(x) for x in a[:-1]), v) for (f, a), v in list(tab.items())[:60])
        except (EvalErr, ZeroDivisionError, TypeError, OverflowError, KeyError, RecursionError):
            continue
    try:
        m = P.z3check(goal, ctx, 5.0, want_model=True)
        if isinstance(m, tuple):
            return 'z3 model: ' + m[1]
    except Exception:
        pass
    return ''
