"""Radial one-electron operators and confinement potentials (FEMRadialBasisT<double>).

The finite-element layer is used through its contracts (proved under C01/C02/C08/C06):
eval_dnf = n-th derivative of the element functions, eval_over_r = n-th derivative of B/r,
eval_coord = physical radius, matrix_element_auto = integral of lhs*rhs*weight over the
element (or basis), split at the given breakpoints.  Each operator is then checked by
comparing its integrand, at an arbitrary point and for an arbitrary pair of functions,
with the stated one; the form in which the code writes the integrand does not matter."""
from vc import *
from fw import proof
from exec import PI_DIGITS
from fractions import Fraction

TU = ['libhelfem/src/RadialBasis.cpp']
RB = 'helfem::atomic::basis::FEMRadialBasisT<double>'
FEC = 'FiniteElementBasisT::'
UL = 'unsigned long'
VEC = 'Eigen::Matrix<double, -1, 1,'
MAT = 'Eigen::Matrix<double, -1, -1,'

P.declare('B', 'I', 'I', 'I', 'R')       # derivative order, element, function, point
P.declare('coord', 'I', 'R')
X0 = var('x0', 'R')
PI = var('pi', 'R')


def B(n, iel, j, x):
    return app('B', (lift(n), iel, j, x), 'R')


def coord(iel, x):
    if x.op == 'a' and x.args[0] == 'primx' and x.args[2] is iel:
        return x.args[1]        # eval_coord inverts eval_prim (proved under C02)
    return app('coord', (iel, x), 'R')


def nfun(iel):
    return app('nfun', (iel,), 'I')


def c_dnf(ex, st, this, args, e):
    x, n, iel = [ex.rv(a, st) for a in args]
    return Mat(x.size, nfun(iel), lambda q, j: B(n, iel, j, x.get(q)))


def over_r(n, iel, j, x):
    r = coord(iel, x)
    b = [B(k, iel, j, x) for k in range(3)]
    return [b[0] / r, b[1] / r - b[0] / (r * r), b[2] / r - 2 * b[1] / (r * r) + 2 * b[0] / (r * r * r)][n]


def c_over_r(ex, st, this, args, e):
    x, n, iel = [ex.rv(a, st) for a in args]
    n = lift(n)
    if n.op != 'k' or int(n.args[0]) not in (0, 1, 2):
        raise Unsupported('eval_over_r: derivative order')
    n = int(n.args[0])
    return Mat(x.size, nfun(iel), lambda q, j: over_r(n, iel, j, x.get(q)))


def c_coord(ex, st, this, args, e):
    x, iel = [ex.rv(a, st) for a in args]
    if isinstance(x, Mat):
        return Mat(x.size, K(1), lambda q, j: coord(iel, x.get(q)), 'R', True)
    return coord(iel, lift(x))


def c_app1(name, sort):
    return lambda ex, st, this, args, e: app(name, tuple(lift(ex.rv(a, st)) for a in args), sort) if args else var(name, sort)


def c_idx(ex, st, this, args, e):
    iel = ex.rv(args[0], st)
    args[1].write(st, app('first', (iel,), 'I'))
    args[2].write(st, app('last', (iel,), 'I'))


def c_bval(ex, st, this, args, e):
    n = var('nbval', 'I')
    st.pc = st.pc + [n >= 2]
    return Mat(n, K(1), lambda i, j: app('bval', (i,), 'R'), 'R', True)


P.declare('primx', 'R', 'I')


def c_prim(ex, st, this, args, e):
    x, iel = ex.rv(args[0], st), ex.rv(args[1], st)
    if not isinstance(x, Mat):
        return app('primx', (lift(x), iel), 'R')
    return Mat(x.size, K(1), lambda q, j: app('primx', (x.get(q), iel), 'R'), 'R', True)


class Rec:
    """records every integral requested from the finite-element layer"""

    def __init__(self):
        self.calls = []

    def __call__(self, ex, st, this, args, e):
        a = [ex.rv(v, st) for v in args]
        whole = isinstance(a[0], Fun)
        iel = fresh('el', 'I') if whole else lift(a[0])
        if not whole:
            a = a[1:]
        lhs, rhs, w, bp = a[0], a[1], a[2], a[3]
        k = len(self.calls)
        nm = 'INT%d' % k
        P.declare(nm, 'I', 'I')
        rng = (lift(a[5]), lift(a[6])) if len(a) > 6 else (K(-1, 'R'), K(1, 'R'))
        self.calls.append(dict(nm=nm, whole=whole, iel=iel, lhs=lhs, rhs=rhs, w=w, bp=bp, rng=rng))
        n = var('nbf', 'I') if whole else nfun(iel)
        return Mat(n, n, lambda i, j: app(nm, (i, j), 'R'))


def base(prog, label, facts=(), extra=None, candidates=None):
    rec = Rec()
    con = {FEC + 'eval_dnf': c_dnf, FEC + 'eval_over_r': c_over_r, FEC + 'eval_coord': c_coord,
           FEC + 'matrix_element_auto': rec, FEC + 'element_begin': c_app1('ebeg', 'R'), FEC + 'element_end': c_app1('eend', 'R'),
           FEC + 'scaling_factor': c_app1('scal', 'R'), FEC + 'get_nelem': c_app1('nelem', 'I'), FEC + 'get_nbf': c_app1('nbf', 'I'),
           FEC + 'get_idx': c_idx, FEC + 'get_bval': c_bval, FEC + 'get_nprim': c_app1('nfun', 'I'),
           FEC + 'find_element': c_app1('findel', 'I'), FEC + 'eval_prim': c_prim,
           'helfem::utils::pi': lambda ex, st, this, args, e: PI,
           'helfem::io::fmt_sci': lambda ex, st, this, args, e: Str(None)}
    con.update(extra or {})
    p = Proof(prog, label, contracts=con, candidates=candidates)
    p.require(PI > 3, PI < 4, var('nelem', 'I') >= 1, var('nbf', 'I') >= 0)
    t = fresh('t', 'I')
    p.require(forall([t], and_(app('ebeg', (t,), 'R') < app('eend', (t,), 'R'), app('first', (t,), 'I') >= 0,
                               eq(nfun(t), app('last', (t,), 'I') - app('first', (t,), 'I') + 1), nfun(t) >= 1, app('last', (t,), 'I') < var('nbf', 'I'))))
    p.require(*facts)
    p.o = p.obj(RB, 'rb')
    p.lv = p.st.new(p.o, 'rb')
    p.rec = rec
    return p


def rbf(prog, name, *pt):
    c = []
    for f in prog.funcs.values():
        if f.get('rec') != RB or f['n'] != name:
            continue
        ts = [f['_ty'][q['t']]['s'] for q in f['params']]
        if len(ts) == len(pt) and all((a == t) if a in ('double', 'int', 'bool') else a in t for a, t in zip(pt, ts)):
            c.append(f)
    if len(c) != 1:
        raise Unsupported('method %s%s: %d candidates' % (name, pt, len(c)))
    return c[0]


def integrand(p, st, k=0):
    """integrand of recorded call k for functions (i,j) at the arbitrary point x0"""
    c = p.rec.calls[k]
    i, j = var('i0', 'I'), var('j0', 'I')
    xv = Mat(K(1), K(1), lambda a, b: X0, 'R', True)
    o0 = len(p.ex.obls)
    L = p.ex.rv(c['lhs'].call(p.ex, st, [xv, c['iel']]), st)
    Rr = p.ex.rv(c['rhs'].call(p.ex, st, [xv, c['iel']]), st)
    v = L.get(K(0), i) * Rr.get(K(0), j)
    if lift(c['w'].null) is not TRUE:
        v = v * lift(p.ex.rv(c['w'].call(p.ex, st, [coord(c['iel'], X0)]), st))
    for o in p.ex.obls[o0:]:
        p.check('integrand: %s @%s' % (o.desc, short(o.loc)), o.goal, o.ctx, o.kind)
    return c, i, j, v


def subst_atom(t, a, v):
    memo = {}

    def go(u):
        if u is a:
            return v
        if not getattr(u, 'args', None) or u.op in ('k', 'v'):
            return u
        if u.uid in memo:
            return memo[u.uid]
        na = tuple(go(x) if hasattr(x, 'uid') else x for x in u.args)
        r = u if all(x is y for x, y in zip(na, u.args)) else rebuild(u, na)
        memo[u.uid] = r
        return r
    return go(t)


def operator(p, fn, args, spec, iel, rng=None, bps=(), pre=()):
    """run the operator on element iel; its value is sum_k c_k * INT_k, and the total integrand
    sum_k c_k * (integrand of INT_k, zero outside its range) equals spec(i, j, iel, r) inside rng"""
    v, st = p.run(fn, p.lv, args)
    if v is None:
        p.check('operator returns', FALSE, p.facts)
        return
    n = nfun(iel)
    p.check('matrix dimensions', and_(eq(v.rows, n), eq(v.cols, n)), st.pc)
    i, j = var('i0', 'I'), var('j0', 'I')
    e = v.get(i, j)
    inb = st.pc + [i >= 0, i < n, j >= 0, j < n]
    at = [app(c['nm'], (i, j), 'R') for c in p.rec.calls]
    f = e
    tot = lin = K(0, 'R')
    for a in at:
        f = subst_atom(f, a, K(0, 'R'))
    p.check('no contribution besides the integrals', eq(f, K(0, 'R')), inb)
    eb, ee = app('ebeg', (iel,), 'R'), app('eend', (iel,), 'R')
    for k, c in enumerate(p.rec.calls):
        _, _, _, g = integrand(p, st, k)
        p.check('integral over the requested element', lift(not c['whole']) if c['whole'] else eq(c['iel'], iel), st.pc)
        f = e
        for m, a in enumerate(at):
            f = subst_atom(f, a, K(1 if m == k else 0, 'R'))
        lin = lin + f * at[k]
        inr = and_(c['rng'][0] <= X0, X0 <= c['rng'][1])
        d = p.ex.decide(inr, st)
        tot = tot + f * (ite(inr, g, K(0, 'R')) if d is None else g if d else K(0, 'R'))
        p.check('integration range inside the element', and_(K(-1, 'R') <= c['rng'][0], c['rng'][1] <= 1), st.pc)
        for b in bps:
            bp = c['bp']
            q = fresh('q', 'I')
            nn = lift(bp.size)
            if nn.op == 'k':
                gg = or_(*[eq(bp.get(K(m)), b) for m in range(int(nn.args[0]))])
            else:
                gg = exists([q], and_(q >= 0, q < nn, eq(bp.get(q), b)))
            px = app('primx', (b, iel), 'R')
            p.check('the kink is a breakpoint', or_(gg, b <= eb, b >= ee, c['rng'][0] >= px, c['rng'][1] <= px), st.pc)
    p.check('value is a combination of the integrals', eq(e, lin), inb)
    r = coord(iel, X0)
    sp = spec(i, j, iel, r)
    if rng:
        sp = ite(and_(rng[0] <= X0, X0 <= rng[1]), sp, K(0, 'R'))
    p.check('integrand', eq(tot, sp), inb + [r > 0, X0 > -1, X0 < 1] + list(pre))
    p.check_throws('operator', FALSE)


def b(n, i, iel):
    return B(n, iel, i, X0)


def el(p):
    v = var('iel', 'I')
    p.require(v >= 0, v < var('nelem', 'I'))
    return v


CASES = [('element 0', lambda v: eq(v, K(0))), ('other elements', lambda v: v >= 1)]


def op_family(name, spec):
    """both the per-element and the full-basis variant of a one-electron operator"""
    @proof('C09', '%s: integrand for every element, pair of functions and radius' % name, TU)
    def t(prog):
        out = []
        for lab, cnd in CASES:
            p = base(prog, '%s(iel), %s' % (name, lab))
            v = el(p)
            p.require(cnd(v))
            operator(p, rbf(prog, name, UL), [v], spec, iel=v)
            out.append(p)
            p = base(prog, '%s(), %s' % (name, lab))
            fn = rbf(prog, name)
            w, st = p.run(fn, p.lv, [])
            c = p.rec.calls[0]
            st.pc = st.pc + [cnd(c['iel']), c['iel'] >= 0]
            c, i, j, g = integrand(p, st)
            I = app(c['nm'], (i, j), 'R')
            f = subst_atom(w.get(i, j), I, K(1, 'R'))
            p.check('one integral over the whole basis', lift(len(p.rec.calls) == 1 and c['whole']), st.pc)
            p.check('value is a multiple of the integral', eq(w.get(i, j), f * I), st.pc)
            r = coord(c['iel'], X0)
            nf_ = nfun(c['iel'])
            p.check('integrand', eq(f * g, spec(i, j, c['iel'], r)), st.pc + [r > 0, i >= 0, i < nf_, j >= 0, j < nf_])
            p.check_throws('operator', FALSE)
            out.append(p)
        return out
    t.__name__ = 't_' + name
    return t


h = Fraction(1, 2)
op_family('overlap', lambda i, j, e, r: b(0, i, e) * b(0, j, e))
op_family('kinetic', lambda i, j, e, r: K(h, 'R') * b(1, i, e) * b(1, j, e))
op_family('kinetic_l', lambda i, j, e, r: K(h, 'R') * b(0, i, e) * b(0, j, e) / (r * r))
op_family('nuclear', lambda i, j, e, r: -b(0, i, e) * b(0, j, e) / r)


@proof('C09', 'radial moments, Bessel and model-potential integrals', TU)
def t_elem(prog):
    out = []
    for lab, cnd in CASES:
        p = base(prog, 'radial_integral, ' + lab)
        v = el(p)
        n, xl, xr = var('n', 'I'), var('xl', 'R'), var('xr', 'R')
        p.require(cnd(v), xl >= -1, xl < xr, xr <= 1)
        operator(p, rbf(prog, 'radial_integral', 'int', UL, 'double', 'double'), [n, v, xl, xr],
                 lambda i, j, e, r: b(0, i, e) * b(0, j, e) * mk('powi', (r, n), 'R'), iel=v, rng=(xl, xr))
        out.append(p)
    for nm, fn in (('bessel_il', 'bessel_il_integral'), ('bessel_kl', 'bessel_kl_integral')):
        P.declare(nm, 'R', 'I')
        p = base(prog, fn, extra={'helfem::utils::' + nm: c_app1(nm, 'R')})
        v = el(p)
        L, lam = var('L', 'I'), var('lambda', 'R')
        p.require(L >= 0, lam > 0)
        operator(p, rbf(prog, fn, 'int', 'double', UL), [L, lam, v],
                 lambda i, j, e, r: b(0, i, e) * b(0, j, e) * app(nm, (r * lam, L), 'R'), iel=v)
        out.append(p)
    MPT = 'helfem::modelpotential::ModelPotentialT<double>'
    bpn = fresh('nbp', 'I')
    P.declare('V', 'R')
    P.declare('kink', 'R', 'R', 'I')

    def c_bp(ex, st, this, args, e):
        lo, hi = [lift(ex.rv(a, st)) for a in args]
        n = app('nkink', (lo, hi), 'I')
        st.pc = st.pc + [n >= 0]
        return SVec(n, lambda i: app('kink', (lo, hi, i), 'R'), ('sc', 'R'))
    p = base(prog, 'model_potential', extra={('virt', MPT, 'V'): c_app1('V', 'R'), ('virt', MPT, 'breakpoints'): c_bp})
    v = el(p)
    m = p.st.new(Obj(MPT, {}), 'model')
    operator(p, rbf(prog, 'model_potential', 'ModelPotentialT', UL), [Ptr(m), v], lambda i, j, e, r: b(0, i, e) * b(0, j, e) * app('V', (r,), 'R'), iel=v)
    if len(p.rec.calls) == 1:
        bp = p.rec.calls[0]['bp']
        lo, hi = app('ebeg', (v,), 'R'), app('eend', (v,), 'R')
        k, q = fresh('k', 'I'), fresh('q', 'I')
        n = app('nkink', (lo, hi), 'I')
        p.check('every kink the model reports inside the element is a breakpoint', and_(eq(bp.size, n), eq(bp.get(k), app('kink', (lo, hi, k), 'R'))), p.st.pc + [k >= 0, k < n])
    out.append(p)
    return out


def pw(x, n):
    return mk('powi', (x, lift(n)), 'R')


@proof('C09', 'off-centre nucleus: multipole term for elements inside and outside, rejected when the nucleus is inside an element', TU)
def t_offcenter(prog):
    out = []
    Rh, L = var('Rhalf', 'R'), var('L', 'I')
    fn = rbf(prog, 'nuclear_offcenter', UL, 'double', 'int')
    for lab0, cnd in CASES:
        for lab in ('outside', 'inside'):
            p = base(prog, 'nuclear_offcenter %s, %s' % (lab, lab0))
            v = el(p)
            eb, ee = app('ebeg', (v,), 'R'), app('eend', (v,), 'R')
            p.require(cnd(v), Rh > 0, L >= 0, eb < ee, (eb >= Rh) if lab == 'outside' else (ee <= Rh))
            pre = app('sqrt', (4 * PI / (2 * L + 1),), 'R')
            if lab == 'outside':
                spec = lambda i, j, e, r: -pre * pw(Rh, L) * pw(r, -L - 1) * b(0, i, e) * b(0, j, e)
            else:
                spec = lambda i, j, e, r: -pre * pw(r, L) * pw(Rh, -L - 1) * b(0, i, e) * b(0, j, e)
            operator(p, fn, [v, Rh, L], spec, iel=v)
            out.append(p)
    p = base(prog, 'nuclear_offcenter within element')
    v = el(p)
    eb, ee = app('ebeg', (v,), 'R'), app('eend', (v,), 'R')
    p.require(Rh > 0, L >= 0, eb < Rh, ee > Rh)
    p.run(fn, p.lv, [v, Rh, L])
    p.check_throws('nucleus inside the element', TRUE)
    out.append(p)
    return out


@proof('C09', 'point values: R = B/r, dR/dr and d2R/dr2 for every element and every point', TU)
def t_points(prog):
    out = []
    for nm, n in (('get_bf', 0), ('get_df', 1), ('get_lf', 2)):
        for lab, cnd in CASES:
            for given in (True, False):
                p = base(prog, '%s %s, %s' % (nm, 'at given points' if given else 'at the quadrature points', lab))
                v = el(p)
                p.require(cnd(v))
                if given:
                    x = p.sym(('mat', 'R', True, '-1', False), 'x')
                    r, st = p.run(rbf(prog, nm, VEC, UL), p.lv, [x, v])
                else:
                    x = p.o.fields['xq']
                    # no cached values: the cache invariant is a separate obligation
                    for k in ('bfq_cache', 'dfq_cache', 'lfq_cache'):
                        p.require(eq(p.o.fields[k].size, K(0)))
                    r, st = p.run(rbf(prog, nm, UL), p.lv, [v])
                q, j = fresh('q', 'I'), fresh('j', 'I')
                p.check('one row per point, one column per function', and_(eq(r.rows, x.size), eq(r.cols, nfun(v))), st.pc)
                p.check('value', eq(r.get(q, j), over_r(n, v, j, x.get(q))), st.pc + [q >= 0, q < x.size, j >= 0, j < nfun(v), ne(coord(v, x.get(q)), K(0, 'R'))])
                p.check_throws(nm, FALSE)
                out.append(p)
    for nm in ('get_r', 'get_wrad'):
        for given in (True, False):
            p = base(prog, '%s %s' % (nm, given))
            v = el(p)
            x = p.sym(('mat', 'R', True, '-1', False), 'x') if given else p.o.fields['xq' if nm == 'get_r' else 'wq']
            r, st = p.run(rbf(prog, nm, VEC, UL) if given else rbf(prog, nm, UL), p.lv, [x, v] if given else [v])
            q = fresh('q', 'I')
            s = coord(v, x.get(q)) if nm == 'get_r' else app('scal', (v,), 'R') * x.get(q)
            p.check('value', and_(eq(r.size, x.size), eq(r.get(q), s)), st.pc + [q >= 0, q < x.size])
            out.append(p)
    return out


@proof('C09', 'cached point values equal the values computed afresh', TU)
def t_cache(prog):
    out = []
    for nm, n, cn in (('get_bf', 0, 'bfq_cache'), ('get_df', 1, 'dfq_cache'), ('get_lf', 2, 'lfq_cache')):
        p = base(prog, 'cache lookup ' + nm)
        v = el(p)
        p.require(v >= 1)
        c = p.o.fields[cn]
        t, q, j = fresh('t', 'I'), fresh('q', 'I'), fresh('j', 'I')
        xq = p.o.fields['xq']
        full = lambda m: ne(mul(m.rows, m.cols), K(0))
        p.require(v < c.size, full(c.get(v)), eq(c.get(v).rows, xq.size), eq(c.get(v).cols, nfun(v)))
        p.require(forall([q, j], eq(c.get(v).get(q, j), over_r(n, v, j, xq.get(q)))))
        r, st = p.run(rbf(prog, nm, UL), p.lv, [v])
        q, j = fresh('q', 'I'), fresh('j', 'I')
        p.check('value', eq(r.get(q, j), over_r(n, v, j, xq.get(q))), st.pc + [q >= 0, q < xq.size, j >= 0, j < nfun(v)])
        out.append(p)
    return out


@proof('C09', 'values at the nucleus: density, density slope and orbitals from the derivatives at r=0', TU)
def t_nucleus(prog):
    out = []
    N = var('nbf', 'I')
    fi = app('first', (K(0),), 'I')
    n0 = nfun(K(0))
    m1 = K(-1, 'R')
    for nm, d in (('nuclear_density', 1), ('nuclear_density_gradient', 2)):
        fn = rbf(prog, nm, MAT)
        p = base(prog, nm)
        Pm = p.sym(('mat', 'R', False, '-1', False), 'P')
        p.require(eq(Pm.rows, N), eq(Pm.cols, N))
        r, st = p.run(fn, p.lv, [Pm])
        spec = Sum(K(0), n0, lambda u: Sum(K(0), n0, lambda w: Pm.get(fi + u, fi + w) * B(1, K(0), u, m1) * B(d, K(0), w, m1)))
        p.check('value at the nucleus', eq(r, spec), st.pc)
        p.check_throws(nm, FALSE)
        out.append(p)
        p = base(prog, nm + ' wrong size')
        Pm = p.sym(('mat', 'R', False, '-1', False), 'P')
        p.require(or_(ne(Pm.rows, N), ne(Pm.cols, N)))
        p.run(fn, p.lv, [Pm])
        p.check_throws(nm + ' of a matrix of the wrong size', TRUE)
        out.append(p)
    p = base(prog, 'nuclear_orbital')
    C = p.sym(('mat', 'R', False, '-1', False), 'C')
    p.require(eq(C.rows, N))
    r, st = p.run(rbf(prog, 'nuclear_orbital', MAT), p.lv, [C])
    k = fresh('k', 'I')
    p.check('one value per orbital', eq(mul(r.rows, r.cols), C.cols), st.pc + [C.cols >= 0])
    p.check('value at the nucleus', eq(r.get(K(0), k), Sum(K(0), n0, lambda u: C.get(fi + u, k) * B(1, K(0), u, m1))), st.pc + [k >= 0, k < C.cols])
    out.append(p)
    return out


@proof('C09', 'orbital values at any radius; zero beyond the last boundary', TU)
def t_orbs(prog):
    out = []
    N, ne_ = var('nbf', 'I'), var('nelem', 'I')
    fn = rbf(prog, 'eval_orbs', MAT, 'double')
    rr = var('r', 'R')
    rmax = app('eend', (ne_ - 1,), 'R')
    p = base(prog, 'eval_orbs beyond the grid')
    C = p.sym(('mat', 'R', False, '-1', False), 'C')
    p.require(eq(C.rows, N), rr > rmax)
    v, st = p.run(fn, p.lv, [C, rr])
    k = fresh('k', 'I')
    p.check('zero', and_(eq(mul(v.rows, v.cols), C.cols), eq(v.get(k), K(0, 'R'))), st.pc + [k >= 0, k < C.cols])
    out.append(p)
    for lab, cnd in CASES:
        p = base(prog, 'eval_orbs inside the grid, ' + lab)
        C = p.sym(('mat', 'R', False, '-1', False), 'C')
        e = app('findel', (rr,), 'I')
        p.require(eq(C.rows, N), rr > 0, rr <= rmax, e >= 0, e < ne_, cnd(e))
        v, st = p.run(fn, p.lv, [C, rr])
        k = fresh('k', 'I')
        fi = app('first', (e,), 'I')
        p.check('value: sum of coefficients times B/r', eq(v.get(k), Sum(K(0), nfun(e), lambda u: C.get(fi + u, k) * B(0, e, u, app('primx', (rr, e), 'R')) / rr)), st.pc + [k >= 0, k < C.cols])
        out.append(p)
    return out


# ------------------------------------------------------------------ C10 confinement
s, V0, r0 = var('shift', 'R'), var('V', 'R'), var('r0', 'R')
Nn = var('N', 'I')
CF = ('confinement_potential', UL, 'int', 'double', 'int', 'double', 'double')


WHERE = [('before the element', lambda s, eb, ee: [s <= eb]), ('within the element', lambda s, eb, ee: [s > eb, s < ee]), ('after the element', lambda s, eb, ee: [s >= ee])]


def conf(prog, label, iconf, req, spec, cand=None, kink=True):
    out = []
    for lab, cnd in CASES:
      for wl, where in WHERE:
        for zone in ('inside the onset', 'beyond the onset'):
            p = base(prog, '%s, %s, onset %s, %s' % (label, lab, wl, zone), candidates=cand)
            v = el(p)
            rx = coord(v, X0)
            p.require(cnd(v), rx > 0, *req(rx))
            p.require(rx < s if zone == 'inside the onset' else rx >= s)
            # the affine map of the element is increasing and eval_prim inverts it (C02)
            px = app('primx', (s, v), 'R')
            eb, ee = app('ebeg', (v,), 'R'), app('eend', (v,), 'R')
            p.require(X0 > -1, X0 < 1, eb < ee, rx > eb, rx < ee, (X0 < px) if zone == 'inside the onset' else (X0 >= px),
                      implies(s > eb, px > -1), implies(s < ee, px < 1), *where(s, eb, ee))
            sp = (lambda i, j, e, r: K(0, 'R')) if zone == 'inside the onset' else (lambda i, j, e, r: b(0, i, e) * b(0, j, e) * spec(r))
            if P.sat(p.facts) is False:
                continue
            operator(p, rbf(prog, *CF), [v, Nn, r0, K(iconf), V0, s], sp, iel=v, bps=[s] if kink else [])
            out.append(p)
    return out


def rejects(prog, label, iconf, req):
    p = base(prog, label)
    v = el(p)
    p.require(*req)
    p.run(rbf(prog, *CF), p.lv, [v, Nn, r0, iconf, V0, s])
    p.check_throws(label, TRUE)
    return p


@proof('C10', 'polynomial confinement: +-((r-s)/|r0|)^N beyond the onset, zero inside', TU)
def t_poly(prog):
    out = []
    for sg, lab in ((1, 'repulsive'), (-1, 'attractive')):
        a0 = r0 if sg > 0 else -r0
        q = [r0 > 0] if sg > 0 else [r0 < 0]
        out += conf(prog, 'polynomial N>=0 without shift, ' + lab, 1, lambda r: q + [Nn >= 0, eq(s, K(0, 'R'))], lambda r: sg * pw(r, Nn) * pw(a0, -Nn))
        out += conf(prog, 'polynomial N>=0 with shift, ' + lab, 1, lambda r: q + [Nn >= 0, s > 0], lambda r: sg * pw(r - s, Nn) * pw(a0, -Nn))
        out += conf(prog, 'polynomial N<0, ' + lab, 1, lambda r: q + [Nn < 0, eq(s, K(0, 'R'))], lambda r: sg * pw(r, Nn) * pw(a0, Nn))
    out.append(rejects(prog, 'divergent potential with a shift', K(1), [Nn < 0, ne(s, K(0, 'R')), ne(r0, K(0, 'R'))]))
    return out


@proof('C10', 'barrier: V beyond the onset, zero inside; attractive barriers rejected', TU)
def t_barrier(prog):
    out = conf(prog, 'barrier', 3, lambda r: [V0 >= 0], lambda r: V0)
    out.append(rejects(prog, 'attractive barrier', K(3), [V0 < 0]))
    return out


@proof('C10', 'Junquera: V exp(-(rc-s)/(r-s))/(rc-r)^N beyond the onset with rc the last boundary', TU)
def t_junquera(prog):
    rc = app('bval', (var('nbval', 'I') - 1,), 'R')
    t = fresh('t', 'I')
    inc = lambda r: [Nn >= 1, V0 > 0, s >= 0, r < rc, var('nbval', 'I') >= 2,
                     forall([t], implies(and_(t >= 0, t < var('nbval', 'I')), app('bval', (t,), 'R') <= rc))]
    out = conf(prog, 'Junquera', 4, lambda r: inc(r) + [ne(r, s)], lambda r: V0 * app('exp', (-(rc - s) / (r - s),), 'R') * pw(rc - r, -Nn))
    out.append(rejects(prog, 'Junquera with N<=0', K(4), [Nn <= 0]))
    out.append(rejects(prog, 'Junquera with V<=0', K(4), [V0 <= 0]))
    return out


@proof('C10', 'exponential: N! (exp(x) - sum_{k<N} x^k/k!) with x=(r-s)/|r0|', TU)
def t_exponential(prog):
    fact = lambda n: Prod(K(1), n + 1, lambda k: k)
    out = []
    for sg, lab in ((1, 'positive r0'), (-1, 'negative r0')):
        a0 = r0 if sg > 0 else -r0
        x = lambda r: (r - s) / a0
        out += conf(prog, 'exponential, ' + lab, 2, lambda r: ([r0 > 0] if sg > 0 else [r0 < 0]) + [Nn >= 1],
                    lambda r: fact(Nn) * (app('exp', (x(r),), 'R') - Sum(K(0), Nn, lambda k: Prod(K(0), k, lambda m: x(r)) / fact(k))))
    out.append(rejects(prog, 'exponential with N<=0', K(2), [Nn <= 0]))
    return out


@proof('C10', 'unknown confinement types are rejected', TU)
def t_unknown(prog):
    ic = var('iconf', 'I')
    return rejects(prog, 'unknown type', ic, [or_(ic < 1, ic > 4)])
