"""Element quadratures of the two-electron integrals (quadrature.cpp)."""
from vc import *
from fw import proof
from febasis import PB

TU = ['libhelfem/src/quadrature.cpp']
Q = 'helfem::quadrature::'
P.declare('QB', 'R', 'I', 'R')
P.declare('fsb', 'R', 'R')
P.declare('fbg', 'R')
NB, NX = var('nbf', 'I'), var('nx', 'I')
X = Mat(NX, K(1), lambda i, j: app('x', (i,), 'R'), 'R', True)
W = Mat(NX, K(1), lambda i, j: app('w', (i,), 'R'), 'R', True)
RMIN, RMAX = var('rmin', 'R'), var('rmax', 'R')


def B(x, i, L): return app('QB', (x, lift(i), L), 'R')


def c_eval(ex, st, this, args, e):
    x = ex.rv(args[0], st)
    n, L = ex.rv(args[2], st), ex.rv(args[3], st)
    ex.need(eq(n, 0), st, 'contract-req', 'function values (no derivative) are evaluated')
    args[1].write(st, Mat(x.size, NB, lambda i, j: B(x.get(i), j, L)))


CON = {'PolynomialBasisT::eval_dnf': c_eval, 'PolynomialBasisT::get_nbf': lambda ex, st, this, args, e: NB}


def fsb(r, R): return app('fsb', (r, R), 'R')
def fbg(r): return app('fbg', (r,), 'R')


def fun(nm):
    def call(ex, st, args):
        return app(nm, tuple(ex.rv(a, st) for a in args), 'R')
    return Fun(call, FALSE, nm, nm)


def pick(prog, name, last=None):
    c = [f for f in prog.funcs.values() if f['q'] == Q + name and (last is None or last in f['_ty'][f['params'][-1]['t']]['s'])]
    c = [f for f in c if not any('long double' in f['_ty'][q['t']]['s'] for q in f['params'])]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]


def half(a, b): return (b - a) * K(Fraction(1, 2), 'R')
def mid(a, b): return (b + a) * K(Fraction(1, 2), 'R')


def rpt(i): return mid(RMIN, RMAX) + half(RMIN, RMAX) * X.get(i)


def seg(lo, hi, i, k, f):
    """quadrature of f(r, hi) B_i B_k over [lo, hi], functions those of the element [rmin, rmax]"""
    p = fresh('p', 'I')
    r = mid(lo, hi) + half(lo, hi) * X.get(p)
    L0 = half(RMIN, RMAX)
    xp = (r - mid(RMIN, RMAX)) / L0
    return sum_(p, K(0), NX, W.get(p) * f(r, hi) * half(lo, hi) * B(xp, i, L0) * B(xp, k, L0))


def poly(p):
    return Ptr(p.st.new(Obj(PB, {}), 'poly'))


def base(p):
    p.require(NB >= 1, NX >= 1, RMAX > RMIN)


@proof('C12', 'inner integral of one segment is the weighted sum over its points, all pairs of functions', TU)
def t_wrk(prog):
    f = pick(prog, 'twoe_inner_integral_wrk')
    p = Proof(prog, 'twoe_inner_integral_wrk', contracts=CON)
    base(p)
    lo, hi = var('lo', 'R'), var('hi', 'R')
    r, st = p.run(f, None, [lo, hi, RMIN, RMAX, X, W, poly(p), fun('fsb'), fun('fbg')])
    i, k = fresh('i', 'I'), fresh('k', 'I')
    p.check('one entry per pair of functions', eq(r.size, NB * NB), st.pc)
    p.check('entry (i,k) is the segment quadrature of f B_i B_k', eq(r.get(k * NB + i), seg(lo, hi, i, k, fsb)), st.pc + [i >= 0, i < NB, k >= 0, k < NB])
    return p


P.declare('SEG', 'R', 'R', 'I')


def SEG(lo, hi, c): return app('SEG', (lo, hi, lift(c)), 'R')


def same_fun(ex, st, f, spec, n, what):
    v = [fresh('r', 'R') for _ in range(n)]
    s = st.copy()
    s.pc = s.pc + [x > 0 for x in v]
    ex.need(eq(f.call(ex, s, v), spec(*v)), s, 'contract-req', what)


def same_vec(ex, st, a, b, what):
    i = fresh('i', 'I')
    s = st.copy()
    s.pc = s.pc + [i >= 0, i < b.size]
    ex.need(eq(a.size, b.size), st, 'contract-req', what + ': size')
    ex.need(eq(a.get(i), b.get(i)), s, 'contract-req', what)


def c_wrk(spec_sb):
    def c(ex, st, this, args, e):
        a = [ex.rv(x, st) for x in args]
        ex.need(and_(eq(a[2], RMIN), eq(a[3], RMAX)), st, 'contract-req', 'segment belongs to the element [rmin, rmax]')
        same_vec(ex, st, a[4], X, 'quadrature points handed on')
        same_vec(ex, st, a[5], W, 'quadrature weights handed on')
        same_fun(ex, st, a[7], spec_sb, 2, 'kernel handed on')
        lo, hi = a[0], a[1]
        return Mat(NB * NB, K(1), lambda i, j: SEG(lo, hi, i), 'R', True)
    return c


def seg0(c): return ite(eq(rpt(K(0)), RMIN), K(0, 'R'), SEG(RMIN, rpt(K(0)), c))


def inner_spec(ip, c, fb, s0=seg0):
    """sum of the segments up to the point, each carried to it by the ratio of the outer factors"""
    j = fresh('j', 'I')
    return s0(c) * fb(rpt(ip)) / fb(rpt(K(0))) + sum_(j, K(1), ip + 1, SEG(rpt(j - 1), rpt(j), c) * fb(rpt(ip)) / fb(rpt(j)))


def rec(s0):
    def g(k, a, init):
        i, c = a
        return ite(and_(i >= 0, i < k), inner_spec(i, c, fbg, s0), init((i, c)))
    g.ar = 2
    return g


@proof('C12', 'inner integral up to each quadrature point is the sum of its segments, rescaled to the point', TU)
def t_inner(prog):
    f = pick(prog, 'twoe_inner_integral', 'function')
    con = dict(CON)
    con[Q + 'twoe_inner_integral_wrk'] = c_wrk(fsb)
    out = []
    for lab, c0, s0 in (('first point inside', ne(rpt(K(0)), RMIN), lambda c: SEG(RMIN, rpt(K(0)), c)), ('first point at the start', eq(rpt(K(0)), RMIN), lambda c: K(0, 'R'))):
        p = Proof(prog, 'twoe_inner_integral, ' + lab, contracts=con, candidates=[[rec(s0)]])
        base(p)
        p.require(c0)
        r, st = p.run(f, None, [RMIN, RMAX, X, W, poly(p), fun('fsb'), fun('fbg')])
        i, c = fresh('i', 'I'), fresh('c', 'I')
        p.check('one row per point, one column per pair', and_(eq(r.rows, NX), eq(r.cols, NB * NB)), st.pc)
        p.check('row ip is the integral from rmin to r(ip)', eq(r.get(i, c), inner_spec(i, c, fbg, s0)), st.pc + [i >= 0, i < NX, c >= 0, c < NB * NB])
        out.append(p)
    return out


P.declare('INNER', 'I', 'I')
LL, LAM, MU = var('L', 'I'), var('lambda', 'R'), var('mu', 'R')


def INNER(i, c): return app('INNER', (lift(i), lift(c)), 'R')


def c_inner_fun(spec_sb, spec_b):
    """contract proved by t_inner, for the kernel the caller hands over"""
    def c(ex, st, this, args, e):
        a = [ex.rv(x, st) for x in args]
        if len(a) != 7:
            return NotImplemented
        ex.need(and_(eq(a[0], RMIN), eq(a[1], RMAX)), st, 'contract-req', 'element handed on')
        same_vec(ex, st, a[2], X, 'quadrature points handed on')
        same_vec(ex, st, a[3], W, 'quadrature weights handed on')
        same_fun(ex, st, a[5], spec_sb, 2, 'kernel is the one of the operator')
        same_fun(ex, st, a[6], spec_b, 1, 'outer factor is the one of the operator')
        return Mat(NX, NB * NB, lambda i, j: INNER(i, j))
    return c


def bess(nm):
    def c(ex, st, this, args, e):
        x, L = [ex.rv(a, st) for a in args]
        return app(nm, (x, L), 'R')
    return c


P.declare('IL', 'R', 'I')
P.declare('KL', 'R', 'I')
BES = {'helfem::utils::bessel_il': bess('IL'), 'helfem::utils::bessel_kl': bess('KL')}
KER = {'twoe': (lambda r, R: lib.mathpow(r / R, LL) / R, lambda r: lib.mathpow(r, -LL - 1), ()),
       'yukawa': (lambda r, R: app('IL', (r * LAM, LL), 'R') * app('KL', (R * LAM, LL), 'R'), lambda r: app('KL', (r * LAM, LL), 'R'), (LAM,))}


@proof('C12', 'bare and screened inner integrals use the kernel r<^L/r>^(L+1) and i_L k_L', TU)
def t_kernel(prog):
    out = []
    for nm, (sb, b, ex_) in KER.items():
        f = pick(prog, nm + '_inner_integral', 'int' if nm == 'twoe' else 'double')
        con = dict(CON)
        con.update(BES)
        con[Q + 'twoe_inner_integral'] = c_inner_fun(sb, b)
        p = Proof(prog, nm + '_inner_integral', contracts=con)
        base(p)
        p.require(LL >= 0, LAM > 0)
        r, st = p.run(f, None, [RMIN, RMAX, X, W, poly(p), LL] + list(ex_))
        i, c = fresh('i', 'I'), fresh('c', 'I')
        p.check('result is that of the general inner integral', and_(eq(r.rows, NX), eq(r.cols, NB * NB), eq(r.get(i, c), INNER(i, c))), st.pc + [i >= 0, i < NX, c >= 0, c < NB * NB])
        out.append(p)
    return out


def c_inner_L(extra):
    def c(ex, st, this, args, e):
        a = [ex.rv(x, st) for x in args]
        ex.need(and_(eq(a[0], RMIN), eq(a[1], RMAX), eq(a[5], LL), *[eq(x, y) for x, y in zip(a[6:], extra)]), st, 'contract-req', 'element, multipole and screening handed on')
        same_vec(ex, st, a[2], X, 'quadrature points handed on')
        same_vec(ex, st, a[3], W, 'quadrature weights handed on')
        return Mat(NX, NB * NB, lambda i, j: INNER(i, j))
    return c


@proof('C12', 'in-element two-electron integrals: outer quadrature of the pair product times the inner integral, both orders added', TU)
def t_twoe(prog):
    out = []
    for nm, (sb, b, ex_) in KER.items():
        f = pick(prog, nm + '_integral')
        con = dict(CON)
        con[Q + nm + '_inner_integral'] = c_inner_L(ex_)
        p = Proof(prog, nm + '_integral', contracts=con)
        base(p)
        p.require(LL >= 0)
        r, st = p.run(f, None, [RMIN, RMAX, X, W, poly(p), LL] + list(ex_))
        p.check_throws(nm + '_integral', FALSE)
        i, j, k, l, q = [fresh(x, 'I') for x in 'ijklq']
        rl = half(RMIN, RMAX)

        def oi(i, j, c):
            return sum_(q, K(0), NX, W.get(q) * rl * B(X.get(q), i, rl) * B(X.get(q), j, rl) * INNER(q, c))
        p.check('one row and column per pair', and_(eq(r.rows, NB * NB), eq(r.cols, NB * NB)), st.pc)
        rg = [and_(x >= 0, x < NB) for x in (i, j, k, l)]
        p.check('(ij|kl) = sum_q w B_i B_j inner_kl + sum_q w B_k B_l inner_ij', eq(r.get(i * NB + j, k * NB + l), oi(i, j, k * NB + l) + oi(k, l, i * NB + j)), st.pc + rg)
        out.append(p)
        # point and weight vectors of different length are rejected
        p2 = Proof(prog, nm + '_integral, mismatched rule', contracts=con)
        base(p2)
        W2 = Mat(var('nw', 'I'), K(1), lambda i, j: app('w', (i,), 'R'), 'R', True)
        p2.require(var('nw', 'I') >= 0, ne(var('nw', 'I'), NX))
        p2.run(f, None, [RMIN, RMAX, X, W2, poly(p2), LL] + list(ex_))
        p2.check_throws(nm + '_integral', TRUE, 'logic_error')
        out.append(p2)
    return out


P.declare('PHI', 'I', 'R', 'R')


@proof(['C12', 'C18'], 'range-separated integrals: double quadrature of the pair products with the kernel Phi_L(mu r1, mu r2)', TU)
def t_erfc(prog):
    f = pick(prog, 'erfc_integral')
    con = {'helfem::erfc_expn::Phi': lambda ex, st, this, args, e: app('PHI', tuple(ex.rv(a, st) for a in args), 'R')}
    p = Proof(prog, 'erfc_integral', contracts=con)
    ni, nk, qi, qk = [var(x, 'I') for x in ('ni', 'nk', 'qi', 'qk')]
    a = [var(x, 'R') for x in ('rmini', 'rmaxi', 'rmink', 'rmaxk')]
    p.require(ni >= 1, nk >= 1, qi >= 1, qk >= 1, LL >= 0)
    V1 = lambda n, nm: Mat(n, K(1), lambda i, j: app(nm, (i,), 'R'), 'R', True)
    M1 = lambda n, m, nm: Mat(n, m, lambda i, j: app(nm, (i, j), 'R'))
    bi, bk = M1(qi, ni, 'bi'), M1(qk, nk, 'bk')
    xi, wi, xk, wk = V1(qi, 'xi'), V1(qi, 'wi'), V1(qk, 'xk'), V1(qk, 'wk')
    r, st = p.run(f, None, [a[0], a[1], bi, xi, wi, a[2], a[3], bk, xk, wk, LL, MU])
    p.check_throws('erfc_integral', FALSE)
    i, j, k, l, q, s = [fresh(x, 'I') for x in 'ijklqs']
    p.check('one row per pair of the first, one column per pair of the second element', and_(eq(r.rows, ni * ni), eq(r.cols, nk * nk)), st.pc)
    hi, hk = half(a[0], a[1]), half(a[2], a[3])
    pt = lambda m, h, x: m + h * x
    spec = sum_(q, K(0), qi, sum_(s, K(0), qk, wi.get(q) * hi * bi.get(q, i) * bi.get(q, j) * wk.get(s) * hk * bk.get(s, k) * bk.get(s, l)
                                  * app('PHI', (LL, MU * pt(mid(a[0], a[1]), hi, xi.get(q)), MU * pt(mid(a[2], a[3]), hk, xk.get(s))), 'R')))
    p.check('(ij|kl) is the double quadrature with Phi_L(mu r1, mu r2)', eq(r.get(i * ni + j, k * nk + l), spec),
            st.pc + [and_(x >= 0, x < ni) for x in (i, j)] + [and_(x >= 0, x < nk) for x in (k, l)])
    return p


@proof('C12', 'in-element potential: inner part divided by r plus outer part, every segment once', TU)
def t_sph(prog):
    f = pick(prog, 'spherical_potential')
    P.declare('SG2', 'I', 'R', 'R', 'I')

    def c(ex, st, this, args, e):
        a = [ex.rv(x, st) for x in args]
        ex.need(and_(eq(a[2], RMIN), eq(a[3], RMAX)), st, 'contract-req', 'segment belongs to the element [rmin, rmax]')
        same_vec(ex, st, a[4], X, 'quadrature points handed on')
        same_vec(ex, st, a[5], W, 'quadrature weights handed on')
        s = st.copy()
        u, v = fresh('u', 'R'), fresh('v', 'R')
        s.pc = s.pc + [u > 0, v > 0]
        g = a[7].call(ex, s, [u, v])
        kind = [k for k, t in ((0, K(1, 'R') / v), (1, K(1, 'R') / u)) if P.prove(eq(g, t), s.pc, 2.0)]
        ex.need(TRUE if kind else FALSE, st, 'contract-req', 'kernel is 1/R or 1/r')
        k = K(kind[0] if kind else 7)
        lo, hi = a[0], a[1]
        return Mat(NB * NB, K(1), lambda i, j: app('SG2', (k, lo, hi, i), 'R'), 'R', True)
    con = dict(CON)
    con[Q + 'twoe_inner_integral_wrk'] = c

    def spec(i, cc):
        j = fresh('j', 'I')
        S = lambda k, lo, hi: app('SG2', (K(k), lo, hi, cc), 'R')
        inn = sum_(j, K(0), i + 1, S(0, ite(eq(j, 0), RMIN, rpt(j - 1)), rpt(j)) * rpt(j)) / rpt(i)
        return inn + sum_(j, i, NX, S(1, rpt(j), ite(eq(j, NX - 1), RMAX, rpt(j + 1))))

    def inv(k, a, init):
        return ite(and_(a[1] >= 0, a[1] < k), spec(a[1], a[0]), init(a))
    inv.ar = 2
    p = Proof(prog, 'spherical_potential', contracts=con, candidates=[[inv]])
    base(p)
    r, st = p.run(f, None, [RMIN, RMAX, X, W, poly(p)])
    i, cc, j = [fresh(x, 'I') for x in 'icj']
    p.check('one row per point, one column per pair', and_(eq(r.rows, NX), eq(r.cols, NB * NB)), st.pc)
    p.check('V(r) = 1/r int_0^r B B + int_r B B / r', eq(r.get(i, cc), spec(i, cc)), st.pc + [i >= 0, i < NX, cc >= 0, cc < NB * NB])
    return p
