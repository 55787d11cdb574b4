"""Diatomic two-electron element integrals and Neumann prefactors (C27)."""
from vc import *
from exec import PI_DIGITS
from fw import proof
from febasis import PB
from pf_quad import NB, NX, X, W, B, poly, base, half, mid, same_vec

TU = ['src/diatomic/quadrature.cpp']
TB = ['src/diatomic/basis.cpp']
Q = 'helfem::diatomic::quadrature::'
MIN, MAX = var('rmin', 'R'), var('rmax', 'R')
PI = K(PI_DIGITS, 'R')
LL, MM, KK, LP = var('L', 'I'), var('M', 'I'), var('k', 'I'), var('l', 'I')
P.declare('LEGP', 'I', 'R', 'R')
P.declare('LEGQ', 'I', 'R', 'R')


def leg(n):
    return lambda ex, st, this, a, e: app(n, (ex.rv(a[0], st), ex.rv(a[1], st)), 'R')


def c_eval(ex, st, this, args, e):
    x = ex.rv(args[0], st)
    if len(args) != 3:
        return NotImplemented
    n, L = ex.rv(args[1], st), ex.rv(args[2], st)
    ex.need(eq(n, 0), st, 'contract-req', 'function values (no derivative) are evaluated')
    return Mat(x.size, NB, lambda i, j: B(x.get(i), j, L))


CON = {'PolynomialBasisT::eval_dnf': c_eval, 'PolynomialBasisT::get_nbf': lambda ex, st, this, args, e: NB,
       'MLegendreCache::P': leg('LEGP'), 'MLegendreCache::Q': leg('LEGQ')}


def pick(prog, name, first=None):
    c = [f for f in prog.funcs.values() if f['q'] == Q + name and (first is None or first in f['_ty'][f['params'][0]['t']]['s'])]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]


def tab(p): return p.st.new(Obj(Q + 'MLegendreCache', {}), 'tab')
def sh(x): return app('sinh', (x,), 'R')
def ch(x): return app('cosh', (x,), 'R')
def PL(x): return app('LEGP', (LL, ch(x)), 'R')
def QL(x): return app('LEGQ', (LL, ch(x)), 'R')
def chp(x, l): return lib.mathpow(ch(x), l)


def seg(lo, hi, i, k, l):
    """quadrature of sinh cosh^l P_L B_i B_k over [lo, hi]; the functions are those of the element [rmin, rmax]"""
    q = fresh('q', 'I')
    mu = mid(lo, hi) + half(lo, hi) * X.get(q)
    L0 = half(MIN, MAX)
    xp = (mu - mid(MIN, MAX)) / L0
    return sum_(q, K(0), NX, W.get(q) * half(lo, hi) * sh(mu) * chp(mu, l) * PL(mu) * B(xp, i, L0) * B(xp, k, L0))


def req(p, l):
    base(p)
    if l is not None:
        p.require(eq(LP, 0) if l == 0 else LP >= 1)
    return K(0) if l == 0 else LP


@proof('C27', 'inner integral of one segment: quadrature of sinh cosh^l P_L B_i B_k, all pairs of functions', TU)
def t_wrk(prog):
    out = []
    for lab, l in (('l = 0', 0), ('l > 0', 1)):
        p = Proof(prog, 'twoe_inner_integral_wrk, ' + lab, contracts=CON)
        l = req(p, l)
        lo, hi = var('lo', 'R'), var('hi', 'R')
        r, st = p.run(pick(prog, 'twoe_inner_integral_wrk'), None, [lo, hi, MIN, MAX, l, X, W, poly(p), LL, MM, tab(p)])
        i, k = fresh('i', 'I'), fresh('k', 'I')
        p.check('one entry per pair of functions', eq(r.size, NB * NB), st.pc)
        p.check('entry (i,k) is the segment quadrature', eq(r.get(k * NB + i), seg(lo, hi, i, k, l)), st.pc + [i >= 0, i < NB, k >= 0, k < NB])
        out.append(p)
    return out


P.declare('SEGD', 'R', 'R', 'I', 'I')


def SEG(lo, hi, l, c): return app('SEGD', (lo, hi, lift(l), lift(c)), 'R')
def mu(i): return mid(MIN, MAX) + half(MIN, MAX) * X.get(i)


def handed(ex, st, a, x, L, M):
    same_vec(ex, st, a[x], X, 'quadrature points handed on')
    same_vec(ex, st, a[x + 1], W, 'quadrature weights handed on')
    ex.need(and_(eq(a[L], LL), eq(a[L + 1], MM)), st, 'contract-req', 'L and M handed on')


def rvs(ex, st, args):
    return [ex.rv(x, st) for x in args[:-1]]


def c_wrk(ex, st, this, args, e):
    a = rvs(ex, st, args)
    ex.need(and_(eq(a[2], MIN), eq(a[3], MAX)), st, 'contract-req', 'segment belongs to the element')
    handed(ex, st, a, 5, 8, 9)
    lo, hi, l = a[0], a[1], a[4]
    return Mat(NB * NB, K(1), lambda i, j: SEG(lo, hi, l, i), 'R', True)


def inner(ip, c, l):
    """integral from the start of the element up to the point: sum of all segments"""
    j = fresh('j', 'I')
    return SEG(MIN, mu(K(0)), l, c) + sum_(j, K(1), ip + 1, SEG(mu(j - 1), mu(j), l, c))


def row_inv(k, a, init):
    i, c = a
    return ite(and_(i >= 0, i < k), inner(i, c, LP), init((i, c)))


row_inv.ar = 2


@proof('C27', 'inner integral up to each quadrature point is the sum of all segments before it', TU)
def t_inner(prog):
    con = dict(CON)
    con[Q + 'twoe_inner_integral_wrk'] = c_wrk
    p = Proof(prog, 'twoe_inner_integral', contracts=con, candidates=[[row_inv]])
    base(p)
    r, st = p.run(pick(prog, 'twoe_inner_integral'), None, [MIN, MAX, LP, X, W, poly(p), LL, MM, tab(p)])
    i, c = fresh('i', 'I'), fresh('c', 'I')
    p.check('one row per point, one column per pair', and_(eq(r.rows, NX), eq(r.cols, NB * NB)), st.pc)
    p.check('row ip is the integral from the start of the element to point ip', eq(r.get(i, c), inner(i, c, LP)), st.pc + [i >= 0, i < NX, c >= 0, c < NB * NB])
    return p


P.declare('INND', 'I', 'I', 'I')


def INN(l, i, c): return app('INND', (lift(l), lift(i), lift(c)), 'R')


def c_inner(ex, st, this, args, e):
    a = rvs(ex, st, args)
    ex.need(and_(eq(a[0], MIN), eq(a[1], MAX)), st, 'contract-req', 'element handed on')
    handed(ex, st, a, 3, 6, 7)
    l = a[2]
    return Mat(NX, NB * NB, lambda i, j: INN(l, i, j))


def outer(i, j, k, c, F):
    q = fresh('q', 'I')
    h = half(MIN, MAX)
    return sum_(q, K(0), NX, W.get(q) * h * sh(mu(q)) * chp(mu(q), k) * QL(mu(q)) * B(X.get(q), i, h) * B(X.get(q), j, h) * F(q, c))


@proof('C27', 'half of the in-element integral: outer quadrature of sinh cosh^k Q_L B_i B_j times the inner integral', TU)
def t_half(prog):
    out = []
    f = pick(prog, 'twoe_integral_wrk')
    con = dict(CON)
    con[Q + 'twoe_inner_integral'] = c_inner
    for lab, c0, kk in (('k = 0', None, K(0)), ('k > 0', KK >= 1, KK)):
        p = Proof(prog, 'twoe_integral_wrk, ' + lab, contracts=con)
        base(p)
        if c0 is not None:
            p.require(c0)
        r, st = p.run(f, None, [MIN, MAX, kk, LP, X, W, poly(p), LL, MM, tab(p)])
        p.check_throws('twoe_integral_wrk', FALSE)
        i, j, c = fresh('i', 'I'), fresh('j', 'I'), fresh('c', 'I')
        p.check('one row and column per pair', and_(eq(r.rows, NB * NB), eq(r.cols, NB * NB)), st.pc)
        p.check('entry is the outer quadrature of the inner integral', eq(r.get(i * NB + j, c), outer(i, j, kk, c, lambda q, c: INN(LP, q, c))),
                st.pc + [i >= 0, i < NB, j >= 0, j < NB, c >= 0, c < NB * NB])
        out.append(p)
    p = Proof(prog, 'twoe_integral_wrk, mismatched rule', contracts=con)
    base(p)
    W2 = Mat(var('nw', 'I'), K(1), lambda i, j: app('w', (i,), 'R'), 'R', True)
    p.require(var('nw', 'I') >= 0, ne(var('nw', 'I'), NX))
    p.run(f, None, [MIN, MAX, KK, LP, X, W2, poly(p), LL, MM, tab(p)])
    p.check_throws('twoe_integral_wrk', TRUE, 'logic_error')
    return out + [p]


P.declare('HALFD', 'I', 'I', 'I', 'I')


def c_half(ex, st, this, args, e):
    a = rvs(ex, st, args)
    ex.need(and_(eq(a[0], MIN), eq(a[1], MAX)), st, 'contract-req', 'element handed on')
    handed(ex, st, a, 4, 7, 8)
    k, l = a[2], a[3]
    return Mat(NB * NB, NB * NB, lambda i, j: app('HALFD', (k, l, i, j), 'R'))


@proof('C27', 'in-element integral is the half for (k,l) plus the transposed half for (l,k)', TU)
def t_sum(prog):
    con = dict(CON)
    con[Q + 'twoe_integral_wrk'] = c_half
    p = Proof(prog, 'twoe_integral', contracts=con)
    base(p)
    r, st = p.run(pick(prog, 'twoe_integral', 'double'), None, [MIN, MAX, KK, LP, X, W, poly(p), LL, MM, tab(p)])
    i, j = fresh('i', 'I'), fresh('j', 'I')
    H = lambda k, l, i, j: app('HALFD', (k, l, i, j), 'R')
    p.check('one row and column per pair', and_(eq(r.rows, NB * NB), eq(r.cols, NB * NB)), st.pc)
    p.check('both orders of the electrons are added', eq(r.get(i, j), H(KK, LP, i, j) + H(LP, KK, j, i)), st.pc + [i >= 0, i < NB * NB, j >= 0, j < NB * NB])
    return p


@proof('C27', 'element tables: points, volume factors, functions, products and one entry per segment', TU)
def t_element(prog):
    p = Proof(prog, 'twoe_element', contracts=CON)
    base(p)
    f = pick(prog, 'twoe_element')
    el, st = p.run(f, None, [MIN, MAX, X, W, poly(p)])
    p.check_throws('twoe_element', FALSE)
    F = el.fields
    q, i, j, s = [fresh(n, 'I') for n in 'qijs']
    rq, ri, rj, rs = [and_(v >= 0, v < n) for v, n in ((q, NX), (i, NB), (j, NB), (s, NX))]
    h = half(MIN, MAX)
    p.check('rule kept', and_(eq(F['x'].size, NX), eq(F['x'].get(q), X.get(q)), eq(F['wx'].size, NX), eq(F['wx'].get(q), W.get(q))), st.pc + [rq])
    p.check('half-length of the element', eq(F['mulen'], h), st.pc)
    p.check('points and volume factors', and_(*[eq(F[n].size, NX) for n in ('mu', 'chmu', 'shmu')], eq(F['mu'].get(q), mu(q)), eq(F['chmu'].get(q), ch(mu(q))), eq(F['shmu'].get(q), sh(mu(q)))), st.pc + [rq])
    p.check('functions at the points', and_(eq(F['bf'].rows, NX), eq(F['bf'].cols, NB), eq(F['bf'].get(q, i), B(X.get(q), i, h))), st.pc + [rq, ri])
    p.check('products of functions, pair (i,j) in column i nbf + j', and_(eq(F['bfprod'].rows, NX), eq(F['bfprod'].cols, NB * NB),
            eq(F['bfprod'].get(q, i * NB + j), B(X.get(q), i, h) * B(X.get(q), j, h))), st.pc + [rq, ri, rj])
    sub = F['sub']
    p.check('one segment per point', eq(sub.size, NX), st.pc)
    for lab, c, lo, hi in (('first segment starts at the element', eq(s, 0), MIN, mu(K(0))), ('later segments start at the previous point', s >= 1, mu(s - 1), mu(s))):
        S = sub.get(s).fields
        m = mid(lo, hi) + half(lo, hi) * X.get(q)
        pc = st.pc + [rq, rs, ri, c]
        p.check(lab + ': half-length', eq(S['mulen'], half(lo, hi)), pc)
        p.check(lab + ': volume factors', and_(eq(S['chmu'].size, NX), eq(S['shmu'].size, NX), eq(S['chmu'].get(q), ch(m)), eq(S['shmu'].get(q), sh(m))), pc)
        p.check(lab + ': functions of the element at its points', and_(eq(S['bf'].rows, NX), eq(S['bf'].cols, NB), eq(S['bf'].get(q, i), B((m - mid(MIN, MAX)) / h, i, h))), pc)
    p2 = Proof(prog, 'twoe_element, mismatched rule', contracts=CON)
    base(p2)
    W2 = Mat(var('nw', 'I'), K(1), lambda i, j: app('w', (i,), 'R'), 'R', True)
    p2.require(var('nw', 'I') >= 0, ne(var('nw', 'I'), NX))
    p2.run(f, None, [MIN, MAX, X, W2, poly(p2)])
    p2.check_throws('twoe_element', TRUE, 'logic_error')
    return [p, p2]


P.declare('ML', 'R')
P.declare('SLEN', 'I', 'R')
for n_ in ('OC', 'OS'):
    P.declare(n_, 'I', 'R')
for n_ in ('SC', 'SS', 'OB', 'OBP'):
    P.declare(n_, 'I', 'I', 'R')
P.declare('SB', 'I', 'I', 'I', 'R')
SUBREC = Q + 'TwoElectronElement::Subinterval'


def vec(nm, *pre):
    return Mat(NX, K(1), lambda i, j: app(nm, pre + (i,), 'R'), 'R', True)


def fill_el(o):
    o.fields.update(x=X, wx=W, mulen=var('ML', 'R'), mu=vec('OM'), chmu=vec('OC'), shmu=vec('OS'), bf=Mat(NX, NB, lambda q, i: app('OB', (q, i), 'R')),
                    bfprod=Mat(NX, NB * NB, lambda q, c: app('OBP', (q, c), 'R')),
                    sub=SVec(NX, lambda s: Obj(SUBREC, dict(mulen=app('SLEN', (s,), 'R'), chmu=vec('SC', s), shmu=vec('SS', s), bf=Mat(NX, NB, lambda q, i: app('SB', (s, q, i), 'R')))), ('obj', SUBREC)))


def esub(s, i, k, l):
    """quadrature over segment s of sinh cosh^l P_L B_i B_k, from the tables"""
    q = fresh('q', 'I')
    A = lambda n, *a: app(n, a, 'R')
    return sum_(q, K(0), NX, A('SLEN', s) * W.get(q) * A('SS', s, q) * lib.mathpow(A('SC', s, q), l) * app('LEGP', (LL, A('SC', s, q)), 'R') * A('SB', s, q, i) * A('SB', s, q, k))



@proof('C27', 'in-element integral from the tables: the same double quadrature, both orders of the electrons', TU)
def t_tables(prog):
    out = []
    f = pick(prog, 'twoe_integral', 'TwoElectronElement')
    for lab, cs, kk, ll in (('k = l = 0', (), K(0), K(0)), ('k = 0 < l', (LP >= 1,), K(0), LP), ('l = 0 < k', (KK >= 1,), KK, K(0)), ('k, l > 0', (KK >= 1, LP >= 1), KK, LP)):
        p = Proof(prog, 'twoe_integral, ' + lab, contracts=CON)
        base(p)
        p.require(*cs)
        o = p.obj(Q + 'TwoElectronElement', 'el')
        fill_el(o)
        lv = p.st.new(o, 'el')
        r, st = p.run(f, None, [lv, kk, ll, LL, MM, tab(p)])
        i, j, k, l = [fresh(x, 'I') for x in 'ijkl']
        p.check('one row and column per pair', and_(eq(r.rows, NB * NB), eq(r.cols, NB * NB)), st.pc)
        A = lambda n, *a: app(n, a, 'R')

        def half_(c, a, b, kv, lv_):
            q, s = fresh('q', 'I'), fresh('s', 'I')
            return sum_(q, K(0), NX, var('ML', 'R') * W.get(q) * A('OS', q) * lib.mathpow(A('OC', q), kv) * A('LEGQ', LL, A('OC', q)) * A('OBP', q, c)
                        * (sum_(s, K(0), q, esub(s, a, b, lv_)) + esub(q, a, b, lv_)))
        a, b = fresh('a', 'I'), fresh('b', 'I')
        rg = [and_(x >= 0, x < NB * NB) for x in (a, b)]
        md = lambda x: (imod(x, NB), idiv(x, NB))
        mr = [and_(md(x)[0] >= 0, md(x)[0] < NB) for x in (a, b)]
        p.check('pair indices split into two function indices', and_(*mr), st.pc + rg)
        # inner pairs are stored column-major (symmetric in the pair)
        p.check('(a|b) from the tables', eq(r.get(a, b), half_(a, *md(b), kk, ll) + half_(b, *md(a), ll, kk)), st.pc + rg + mr)
        out.append(p)
    return out


RH, NLM = var('Rhalf', 'R'), var('nlm', 'I')
BR = 'helfem::diatomic::basis::TwoDBasis'
P.declare('lmL', 'I', 'I')
P.declare('lmM', 'I', 'I')


def fact_ratio(hi, lo):
    """hi! / lo!"""
    p = fresh('p', 'I')
    return prod_(p, lo + 1, hi + 1, p * K(1, 'R'))


@proof('C27', 'Neumann prefactors: 4 pi Rhalf^5 (L-|M|)!/(L+|M|)! for every stored (L,|M|)', TB)
def t_factor(prog):
    from pf_ang import meth
    p = Proof(prog, 'build_LMfac_abs')
    o = p.obj(BR, 'tb')
    o.fields['Rhalf'] = RH
    o.fields['lm_map'] = SVec(NLM, lambda i: Tup([app('lmL', (i,), 'I'), app('lmM', (i,), 'I')]), ('tup', (('sc', 'I'), ('sc', 'I'))))
    p.require(NLM >= 0)
    r, st = p.run(meth(prog, BR, 'build_LMfac_abs'), p.st.new(o, 'tb'), [])
    i = fresh('i', 'I')
    L, M = app('lmL', (i,), 'I'), app('lmM', (i,), 'I')
    p.check('one factor per stored pair', eq(r.size, NLM), st.pc)
    lo = ite(lt(L - M, L + M), L - M, L + M)
    p.check('factor of pair i', eq(r.get(i), 4 * PI * power(RH, 5) / fact_ratio(L + M, lo)), st.pc + [i >= 0, i < NLM])
    p.check('for M >= 0 the ratio is (L+M)!/(L-M)!', eq(lo, L - M), st.pc + [M >= 0])
    return p


@proof('C27', 'ratio of factorials, both orders of the arguments', TB)
def t_ratio(prog):
    f = [x for x in prog.funcs.values() if x['q'].startswith('helfem::diatomic') and x['n'] == 'factorial_ratio']
    a, b = var('pmax', 'I'), var('pmin', 'I')
    out = []
    for lab, c in (('pmax >= pmin', a >= b), ('pmax < pmin', a < b)):
        p = Proof(prog, 'factorial_ratio, ' + lab)
        p.require(c, a >= 0, b >= 0)
        r, st = p.run(f[0], None, [a, b])
        p.check('value', eq(r, fact_ratio(a, b) if c is not None and lab.startswith('pmax >=') else 1 / fact_ratio(b, a)), st.pc)
        out.append(p)
    return out
