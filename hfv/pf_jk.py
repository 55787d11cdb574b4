"""Coulomb/exchange assembly (CoulombExchangeFE.h) and contracted bases (NAORadialBasis.h)."""
from vc import *
from fw import proof

DRV = ['V:hfv/drv/jk.cpp']
NS = 'helfem::atomic::basis::'
FRB = 'FEMRadialBasisT::'
NEL, NBF = var('nel', 'I'), var('nbf', 'I')
P.declare('rsm', 'I', 'I', 'I')
P.declare('rbg', 'I', 'I', 'I')


def first(i): return app('first', (lift(i),), 'I')
def last(i): return app('last', (lift(i),), 'I')
def nf_(i): return last(i) - first(i) + 1


def symm(name, key):
    """arbitrary symmetric element matrix, written as F + F^T so that its symmetry is built in"""
    def g(i):
        i = lift(i)
        return Mat(nf_(i), nf_(i), lambda a, b: app(name, (*key, i, a, b), 'R') + app(name, (*key, i, b, a), 'R'))
    return g


def tens(name, key, rank=None):
    def g(i):
        i = lift(i)
        return Mat(nf_(i) * nf_(i), nf_(i) * nf_(i) if rank is None else rank(i), lambda a, b: app(name, (*key, i, a, b), 'R'))
    return g


def c_idx(ex, st, this, args, e):
    iel = ex.rv(args[0], st)
    ex.need(and_(iel >= 0, iel < NEL), st, 'contract-req', 'element index in range')
    args[1].write(st, first(iel))
    args[2].write(st, last(iel))


def el(fn, check=True):
    def c(ex, st, this, args, e):
        iel = ex.rv(args[-1] if len(args) else None, st)
        return fn(iel)
    return c


def fem_contracts():
    k = {FRB + 'Nel': lambda ex, st, this, args, e: NEL, FRB + 'Nbf': lambda ex, st, this, args, e: NBF,
         FRB + 'get_idx': c_idx, FRB + 'Nprim': lambda ex, st, this, args, e: nf_(ex.rv(args[0], st))}
    return k


def facts(p):
    t = fresh('t', 'I')
    p.require(NEL >= 1, NBF >= 1, forall([t], implies(and_(t >= 0, t < NEL), and_(first(t) >= 0, last(t) >= first(t), last(t) < NBF))))


SM, BG = symm('rsm', ()), symm('rbg', ())


def acc(fn, lo=0):
    def call(ex, st, args):
        i = ex.rv(args[0], st)
        ex.need(and_(i >= lo, i < NEL), st, 'contract-req', 'accessor called with an element index it is defined for')
        return fn(i)
    return Fun(call, FALSE, 'acc', 'acc')


def drv(prog, name, need=''):
    c = [f for f in prog.funcs.values() if f['q'] == NS + name and (not need or any(need in f['_ty'][q['t']]['s'] for q in f['params']))]
    if len(c) != 1:
        raise Unsupported('%s: %d instantiations' % (name, len(c)))
    return c[0]


def run(prog, label, accs, extra=(), need='hfvdrv::', pre=None):
    con = dict(fem_contracts())
    con.update(dict(extra))
    p = Proof(prog, label, contracts=con)
    facts(p)
    if pre:
        pre(p)
    f = drv(prog, label, need)
    this = None
    args = []
    for i, q in enumerate(f['params']):
        s = f['_ty'][q['t']]['s']
        if 'FEMRadialBasisT' in s:
            args.append(p.st.new(Obj(NS + 'FEMRadialBasisT<double>', {}), 'radial'))
        elif 'hfvdrv' in s:
            args.append(accs.pop(0))
        else:
            args.append(p.param(f, i))
    Pm = args[-1]
    p.require(eq(Pm.rows, NBF), eq(Pm.cols, NBF))
    r, st = p.run(f, None, args)
    p.check_throws(label, FALSE)
    return p, r, st, Pm


def dsum(i, f):
    """sum over pairs of functions of element i"""
    c, d = fresh('c', 'I'), fresh('d', 'I')
    return sum_(d, K(0), nf_(i), sum_(c, K(0), nf_(i), f(c, d)))


def J_spec(Pm, tei):
    def s(x, y):
        i, j = fresh('i', 'I'), fresh('j', 'I')
        a, b = x - first(i), y - first(i)
        inn = and_(x >= first(i), x <= last(i), y >= first(i), y <= last(i))
        pj = lambda M: dsum(j, lambda c, d: M(j).get(c, d) * Pm.get(first(j) + c, first(j) + d))
        same = tei(i, a, b, lambda c, d: Pm.get(first(i) + c, first(i) + d))
        lo = sum_(i, K(0), NEL, ite(inn, sum_(j, i + 1, NEL, SM(i).get(a, b) * pj(BG)), K(0, 'R')))
        hi = sum_(i, K(0), NEL, ite(inn, sum_(j, K(0), i, BG(i).get(a, b) * pj(SM)), K(0, 'R')))
        return lo + hi + sum_(i, K(0), NEL, ite(inn, same, K(0, 'R')))
    return s


def K_spec(Pm, tei):
    def s(x, y, form=0):
        i, j = fresh('i', 'I'), fresh('j', 'I')
        inn = and_(x >= first(i), x <= last(i), y >= first(j), y <= last(j))
        a, b = x - first(i), y - first(j)

        def cross(A, B):
            c, d = fresh('c', 'I'), fresh('d', 'I')
            return sum_(c, K(0), nf_(i), sum_(d, K(0), nf_(j), A(i).get(a, c) * B(j).get(b, d) * Pm.get(first(i) + c, first(j) + d)))
        lo = sum_(i, K(0), NEL, sum_(j, K(0), NEL, ite(and_(inn, i < j), cross(SM, BG), K(0, 'R'))))
        hi = sum_(i, K(0), NEL, sum_(j, K(0), NEL, ite(and_(inn, j < i), cross(BG, SM), K(0, 'R'))))
        if form == 1:
            tt = tei(i, a, b, lambda c, d: Pm.get(first(i) + c, first(j) + d))
            return sum_(i, K(0), NEL, sum_(j, K(0), NEL, ite(inn, ite(eq(i, j), tt, ite(j < i, cross(BG, SM), cross(SM, BG))), K(0, 'R'))))
        in2 = and_(x >= first(i), x <= last(i), y >= first(i), y <= last(i))
        dg = sum_(i, K(0), NEL, ite(in2, tei(i, a, y - first(i), lambda c, d: Pm.get(first(i) + c, first(i) + d)), K(0, 'R')))
        return lo + hi + dg
    return s


def xy(p):
    x, y = fresh('x', 'I'), fresh('y', 'I')
    return x, y, [x >= 0, x < NBF, y >= 0, y < NBF]


P.declare('tei', 'I', 'I', 'I')


def finish(p, r, st, spec, label, forms=None):
    x, y, c = xy(p)
    p.check('one row per basis function', eq(r.rows, NBF), st.pc)
    p.check('one column per basis function', eq(r.cols, NBF), st.pc)
    g = r.get(x, y)
    p.check_any(label, [eq(g, spec(x, y, k)) for k in forms] if forms else [eq(g, spec(x, y))], st.pc + c, timeout=20.0)
    return p


@proof('C12', 'Coulomb assembly: J_ij = sum_kl P_kl (ij|kl) with in-element and disjoint pairs', DRV)
def t_J(prog):
    T = tens('tei', ())
    p, r, st, Pm = run(prog, 'assemble_J_FE_one_multipole_cached', [acc(SM), acc(BG, 1), acc(T)])
    tei = lambda i, a, b, D: dsum(i, lambda c, d: T(i).get(a + b * nf_(i), c + d * nf_(i)) * D(c, d))
    return finish(p, r, st, J_spec(Pm, tei), 'J_ij = sum_kl P_kl (ij|kl)')


@proof('C12', 'exchange assembly: K_ij = sum_kl P_kl (ik|jl) with in-element and disjoint pairs', DRV)
def t_K(prog):
    T = tens('tei', ())
    p, r, st, Pm = run(prog, 'assemble_K_FE_one_multipole_cached', [acc(SM), acc(BG, 1), acc(T)])
    tei = lambda i, a, b, D: dsum(i, lambda c, d: T(i).get(a + b * nf_(i), c + d * nf_(i)) * D(c, d))
    return finish(p, r, st, K_spec(Pm, tei), 'K_ij = sum_kl P_kl (ik|jl)', (1, 0))


def rank(i): return app('rank', (lift(i),), 'I')


P.declare('chol', 'I', 'I', 'I')


def chol_facts(p):
    t = fresh('t', 'I')
    p.require(forall([t], rank(t) >= 0))


@proof('C12', 'factorised Coulomb assembly equals the assembly with sum_p L(ab,p) L(cd,p)', DRV)
def t_Jc(prog):
    L = tens('chol', (), rank)
    p, r, st, Pm = run(prog, 'assemble_J_FE_one_multipole_cached_chol', [acc(SM), acc(BG, 1), acc(L)], pre=chol_facts)

    def tei(i, a, b, D):
        q = fresh('q', 'I')
        return dsum(i, lambda c, d: sum_(q, K(0), rank(i), L(i).get(a + b * nf_(i), q) * L(i).get(c + d * nf_(i), q)) * D(c, d))
    return finish(p, r, st, J_spec(Pm, tei), 'J_ij = sum_kl P_kl (ij|kl) with the factorised in-element integrals')


@proof('C12', 'factorised exchange assembly equals the assembly with sum_p L(ac,p) L(bd,p)', DRV)
def t_Kc(prog):
    L = tens('chol', (), rank)
    p, r, st, Pm = run(prog, 'assemble_K_FE_one_multipole_cached_chol', [acc(SM), acc(BG, 1), acc(L)], pre=chol_facts)

    def tei(i, a, b, D):
        q = fresh('q', 'I')
        return dsum(i, lambda c, d: sum_(q, K(0), rank(i), L(i).get(a + c * nf_(i), q) * L(i).get(b + d * nf_(i), q)) * D(c, d))
    return finish(p, r, st, K_spec(Pm, tei), 'K_ij = sum_kl P_kl (ik|jl) with the factorised in-element integrals', (1, 0))


@proof('C12', 'pairwise exchange assembly: every pair of elements contributes its own table', DRV)
def t_Kp(prog):
    P.declare('ptei', 'I', 'I', 'I', 'I')

    def T(i, j):
        return Mat(nf_(i) * nf_(j), nf_(i) * nf_(j), lambda a, b: app('ptei', (i, j, a, b), 'R'))

    def call(ex, st, args):
        i, j = [ex.rv(a, st) for a in args]
        ex.need(and_(i >= 0, i < NEL, j >= 0, j < NEL), st, 'contract-req', 'accessor called with element indices')
        return T(i, j)
    p, r, st, Pm = run(prog, 'assemble_K_FE_one_multipole_cached_pairwise', [Fun(call, FALSE, 'acc', 'acc')])

    def spec(x, y):
        i, j, c, d = [fresh(n, 'I') for n in 'ijcd']
        inn = and_(x >= first(i), x <= last(i), y >= first(j), y <= last(j))
        v = sum_(d, K(0), nf_(j), sum_(c, K(0), nf_(i), T(i, j).get(x - first(i) + (y - first(j)) * nf_(i), c + d * nf_(i)) * Pm.get(first(i) + c, first(j) + d)))
        return sum_(i, K(0), NEL, sum_(j, K(0), NEL, ite(inn, v, K(0, 'R'))))
    return finish(p, r, st, spec, 'K_ij = sum_kl P_kl (ik|jl), table of each pair of elements')


# ---- entry points that compute the element integrals on demand
def ri(L, ex_=None):
    return symm('RI', (lift(L),))


for _n, _a in (('RI', 'IIII'), ('IL', 'IRIII'), ('KL', 'IRIII'), ('TWOE', 'IIII'), ('YUK', 'IRIII'), ('ERFC', 'IRIIII')):
    P.declare(_n, *_a)


def elements():
    """contracts of the element integrals: arbitrary tables, keyed by every argument they depend on"""
    def two(nm, sym):
        def c(ex, st, this, args, e):
            a = [lift(ex.rv(x, st)) for x in args]
            if nm == 'RI' and len(a) == 4:
                ex.need(and_(eq(a[2], -1), eq(a[3], 1)), st, 'contract-req', 'radial integral over the whole element')
                a = a[:2]
            if len(a) > (3 if nm in ('IL', 'KL', 'YUK') else 2):
                raise Unsupported('extra arguments of ' + nm)
            i = a[-1]
            ex.need(and_(i >= 0, i < NEL), st, 'contract-req', 'element index in range')
            return (symm if sym else tens)(nm, tuple(a[:-1]))(i)
        return c

    def erfc(ex, st, this, args, e):
        L, mu, i, j = [lift(ex.rv(x, st)) for x in args[:4]]
        return Mat(nf_(i) * nf_(i), nf_(j) * nf_(j), lambda a, b: app('ERFC', (L, mu, i, j, a, b), 'R'))
    return {FRB + 'radial_integral': two('RI', True), FRB + 'bessel_il_integral': two('IL', True), FRB + 'bessel_kl_integral': two('KL', True),
            FRB + 'twoe_integral': two('TWOE', False), FRB + 'yukawa_integral': two('YUK', False), FRB + 'erfc_integral': erfc,
            'helfem::utils::exchange_tei': c_exch}


def c_exch(ex, st, this, args, e):
    """contract proved under C11: (ij|kl) table reordered to (jk|il)"""
    t, ni, nj, nk, nl = [ex.rv(x, st) for x in args]
    ex.need(and_(eq(t.rows, ni * nj), eq(t.cols, nk * nl)), st, 'contract-req', 'exchange_tei: table size is Ni*Nj x Nk*Nl')
    return Mat(nj * nk, ni * nl, lambda r, c: t.get(imod(r, nj) * ni + imod(c, ni), idiv(c, ni) * nk + idiv(r, nj)))


def exch(T):
    def g(i):
        t, n = T(i), nf_(i)
        return Mat(n * n, n * n, lambda r, c: t.get(imod(r, n) * n + imod(c, n), idiv(c, n) * n + idiv(r, n)))
    return g


def same_mat(p, ex, st, what, got, want):
    a, b = fresh('a', 'I'), fresh('b', 'I')
    ex.need(and_(eq(got.rows, want.rows), eq(got.cols, want.cols)), st, 'accessor', what + ': size')
    s = st.copy()
    s.pc = s.pc + [a >= 0, a < want.rows, b >= 0, b < want.cols]
    ex.need(eq(got.get(a, b), want.get(a, b)), s, 'accessor', what + ': every entry')


def uncached(prog, name, cached, specs, yuk):
    """specs: expected element matrices of the three accessors handed to the shared assembly"""
    seen = []

    def c(ex, st, this, args, e):
        fs = [ex.rv(a, st) for a in args[1:4]]
        Pm = ex.rv(args[4], st)
        seen.append(Pm)
        cells = [lv for lv in ex.fr.env.values() if isinstance(lv, LV) and isinstance(lv.read(st), SVec)]
        for k, (f, (S, lo, what)) in enumerate(zip(fs, specs)):
            i, j = fresh('i', 'I'), fresh('j', 'I')
            base = st.copy()
            base.pc = base.pc + [i >= lo, i < NEL, j >= 0, j < NEL]
            s1 = base.copy()
            v = ex.rv(f.call(ex, s1, [i]), s1)
            same_mat(p, ex, s1, what + ' (first request)', v, S(i))
            # memo tables: an entry is empty or holds the requested matrix; each request keeps that
            mine = [lv for lv in cells if lv.read(s1) is not lv.read(base)]
            s2 = base.copy()
            for q, lv in enumerate(mine):
                fl = lambda t, q=q: app('filled%d' % q, (lift(t),), 'B')
                old = lv.read(s2)

                def entry(t, fl=fl):
                    M = S(t)
                    return Mat(ite(fl(t), M.rows, K(0)), ite(fl(t), M.cols, K(0)), M.get)
                lv.write(s2, SVec(old.size, entry, old.eshape))
            v = ex.rv(f.call(ex, s2, [i]), s2)
            same_mat(p, ex, s2, what + ' (any later request)', v, S(i))
            for lv in mine:
                m = lv.read(s2).get(j)
                a, b = fresh('a', 'I'), fresh('b', 'I')
                M = S(j)
                emp = or_(eq(m.rows, 0), eq(m.cols, 0))
                ok = and_(eq(m.rows, M.rows), eq(m.cols, M.cols), implies(and_(a >= 0, a < M.rows, b >= 0, b < M.cols), eq(m.get(a, b), M.get(a, b))))
                ex.need(or_(emp, ok), s2, 'invariant', what + ': memo table keeps its invariant')
        return Mat(NBF, NBF, lambda x, y: app('ASSEMBLED', (x, y), 'R'))
    con = dict(fem_contracts())
    con.update(elements())
    con[NS + cached] = c
    p = Proof(prog, name, contracts=con)
    facts(p)
    f = drv(prog, name)
    args = []
    for i, q in enumerate(f['params']):
        s = f['_ty'][q['t']]['s']
        args.append(p.st.new(Obj(NS + 'FEMRadialBasisT<double>', {}), 'radial') if 'FEMRadialBasisT' in s else p.param(f, i))
    p.require(eq(args[-1].rows, NBF), eq(args[-1].cols, NBF), args[1] >= 0)
    r, st = p.run(f, None, args)
    p.check_throws(name, FALSE)
    x, y, cc = xy(p)
    p.check('the shared assembly is used for the density', eq(seen[0].get(x, y), args[-1].get(x, y)) if len(seen) == 1 else FALSE, st.pc + cc)
    p.check('its result is returned', eq(r.get(x, y), app('ASSEMBLED', (x, y), 'R')), st.pc + cc)
    return p


def uspec(yuk, exchange):
    L, lam = var('L', 'I'), var('lambda', 'R')
    s, b = (symm('IL', (L, lam)), symm('KL', (L, lam))) if yuk else (symm('RI', (L,)), symm('RI', (-L - 1,)))
    t = tens('YUK', (L, lam)) if yuk else tens('TWOE', (L,))
    return [(s, 0, 'inner radial factor'), (b, 1, 'outer radial factor'), (exch(t) if exchange else t, 0, 'in-element integrals')]


@proof('C12', 'Coulomb and exchange at one multipole use r^L, r^(-L-1) and the in-element integrals of that multipole', DRV)
def t_uncached(prog):
    return [uncached(prog, 'assemble_%s_FE_one_multipole%s' % (k, '_yukawa' if y else ''), 'assemble_%s_FE_one_multipole_cached' % k, uspec(y, k == 'K'), y)
            for k in 'JK' for y in (False, True)]


def builder(prog, name, need='', yuk=None, pre=None):
    con = dict(fem_contracts())
    con.update(elements())
    p = Proof(prog, name + ('' if yuk is None else ' (Yukawa)' if yuk else ' (bare)'), contracts=con)
    facts(p)
    f = drv(prog, name)
    args, outs = [], {}
    for i, q in enumerate(f['params']):
        t = f['_ty'][q['t']]
        s = t['s']
        if 'FEMRadialBasisT' in s:
            args.append(p.st.new(Obj(NS + 'FEMRadialBasisT<double>', {}), 'radial'))
        elif q['n'] == 'yukawa':
            args.append(TRUE if yuk else FALSE)
        elif s.startswith('std::vector'):
            outs[q['n']] = p.st.new(SVec(K(0), V._nogets, shape_of('Eigen::Matrix<double, -1, -1>')), q['n'])
            args.append(outs[q['n']])
        elif 'std::vector' in s:
            args.append(pre(p))
        else:
            args.append(p.param(f, i))
    NL = args[1]
    p.require(NL >= 0)
    p.run(f, None, args)
    p.check_throws(name, FALSE)
    return p, outs, args


def entry(p, st, vec, idx, want, what, ctx):
    v = vec.read(st)
    m = v.get(idx)
    a, b = fresh('a', 'I'), fresh('b', 'I')
    p.check(what + ': index inside the table', and_(idx >= 0, idx < v.size), st.pc + ctx)
    p.check(what + ': size', and_(eq(m.rows, want.rows), eq(m.cols, want.cols)), st.pc + ctx)
    p.check(what + ': every entry', eq(m.get(a, b), want.get(a, b)), st.pc + ctx + [a >= 0, a < want.rows, b >= 0, b < want.cols])


def LI(p, NL):
    L, i = fresh('Lq', 'I'), fresh('iq', 'I')
    return L, i, [L >= 0, L < NL, i >= 0, i < NEL]


@proof('C12', 'cached radial factors: entry (L, element) is the integral of r^L or r^(-L-1), or of the screened functions', DRV)
def t_disjoint(prog):
    out = []
    for y in (False, True):
        p, o, args = builder(prog, 'compute_disjoint_radial_integrals', yuk=y)
        st = p.st
        lam = args[-1]
        L, i, ctx = LI(p, args[1])
        small = symm('IL', (L, lam)) if y else symm('RI', (L,))
        big = symm('KL', (L, lam)) if y else symm('RI', (-L - 1,))
        entry(p, st, o['disjoint_small'], L * NEL + i, small(i), 'inner factor', ctx)
        entry(p, st, o['disjoint_big'], L * NEL + i, big(i), 'outer factor', ctx + [i >= 1])
        out.append(p)
    return out


@proof('C12', 'cached in-element integrals: entry (L, element) is the two-electron table of that multipole', DRV)
def t_prim_tei(prog):
    out = []
    for y in (False, True):
        p, o, args = builder(prog, 'compute_in_element_tei', yuk=y)
        L, i, ctx = LI(p, args[1])
        entry(p, p.st, o['prim_tei'], NEL * NEL * L + i * NEL + i, (tens('YUK', (L, args[-1])) if y else tens('TWOE', (L,)))(i), 'in-element table', ctx)
        out.append(p)
    return out


@proof('C12', 'cached exchange tables are the reordered in-element integrals', DRV)
def t_prim_ktei(prog):
    def pre(p):
        t = fresh('t', 'I')
        N = lambda t: nf_(imod(t, NEL))
        return SVec(var('N_L', 'I') * NEL * NEL, lambda t: Mat(N(t) * N(t), N(t) * N(t), lambda a, b: app('ptab', (t, a, b), 'R')), shape_of('Eigen::Matrix<double, -1, -1>'))
    p, o, args = builder(prog, 'compute_in_element_ktei_from_tei', pre=pre)
    L, i, ctx = LI(p, args[1])
    idx = NEL * NEL * L + i * NEL + i
    T = lambda i: Mat(nf_(i) * nf_(i), nf_(i) * nf_(i), lambda a, b: app('ptab', (idx, a, b), 'R'))
    entry(p, p.st, o['prim_ktei'], idx, exch(T)(i), 'exchange table', ctx)
    return p


@proof('C12', 'cached range-separated tables: entry (L, pair of elements) is the reordered error-function integral of that pair', DRV)
def t_erfc_ktei(prog):
    p, o, args = builder(prog, 'compute_erfc_ktei')
    L, i, ctx = LI(p, args[1])
    j = fresh('jq', 'I')
    ctx = ctx + [j >= 0, j < NEL]
    n, m = nf_(i), nf_(j)
    W = Mat(n * m, n * m, lambda r, c: app('ERFC', (L, args[2], i, j, imod(r, n) * n + imod(c, n), idiv(c, n) * m + idiv(r, n)), 'R'))
    entry(p, p.st, o['rs_ktei'], NEL * NEL * L + i * NEL + j, W, 'pair table', ctx)
    return p


# ---------------------------------------------------------------- contracted (numerical atomic orbital) bases
NAO = NS + 'NAORadialBasis'
FEM = NS + 'FEMRadialBasisT<double>'
UNB = var('unbf', 'I')


def umat(name):
    return lambda ex, st, this, args, e: Mat(UNB, UNB, lambda a, b: app(name, (this.read(st).fields['id'], a, b), 'R'))


def c_uorbs(ex, st, this, args, e):
    M, r = ex.rv(args[0], st), ex.rv(args[1], st)
    u = this.read(st).fields['id']
    ex.need(eq(M.rows, UNB), st, 'contract-req', 'coefficients have one row per underlying function')

    def g(i, j):
        a = fresh('a', 'I')
        return sum_(a, K(0), UNB, app('chi', (u, a, r), 'R') * M.get(a, i))
    return Mat(M.cols, K(1), g, 'R', True)


def c_asm(name, yuk):
    """the assembly proved in t_J/t_K/t_uncached is linear in the density; only its kernel matters here"""
    def c(ex, st, this, args, e):
        v = [ex.rv(a, st) for a in args]
        u, k, D = v[0].fields['id'], v[1], v[-1]
        lam = v[2] if yuk else K(0, 'R')
        ex.need(and_(eq(D.rows, UNB), eq(D.cols, UNB)), st, 'contract-req', 'density is in the underlying basis')

        def g(x, y):
            a, b = fresh('a', 'I'), fresh('b', 'I')
            return sum_(a, K(0), UNB, sum_(b, K(0), UNB, app(name, (u, k, lam, x, y, a, b), 'R') * D.get(a, b)))
        return Mat(UNB, UNB, g)
    return c


def nao_contracts():
    k = {}
    for n in ('overlap', 'kinetic', 'kinetic_l', 'nuclear'):
        k[('virt', FEM, n)] = umat('u_' + n)
        k[('virt', 'RB', n)] = umat('u_' + n)
    for R_ in (FEM, 'RB'):
        k[('virt', R_, 'Nbf')] = lambda ex, st, this, args, e: UNB
        k[('virt', R_, 'eval_orbs')] = c_uorbs
    for a in 'JK':
        k[NS + 'assemble_%s_FE_one_multipole' % a] = c_asm('asm' + a, False)
        k[NS + 'assemble_%s_FE_one_multipole_yukawa' % a] = c_asm('asmY' + a, True)
    return k


def nao_setup(prog, label, fem=True):
    p = Proof(prog, 'NAORadialBasis::' + label, contracts=nao_contracts())
    p.require(UNB >= 1)
    u = p.st.new(Obj(FEM if fem else 'RB', {'id': var('uid', 'I')}), 'underlying')
    return p, u


def nao(p, u, name):
    N = var('n_' + name, 'I')
    p.require(N >= 1)
    C = Mat(UNB, N, lambda i, j: app('C_' + name, (i, j), 'R'))
    return p.st.new(Obj(NAO, {'underlying_': Ptr(u), 'C_': C}), name), C, N


def nf(prog, n):
    c = [f for f in prog.funcs.values() if f['q'] == NAO + '::' + n]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (n, len(c)))
    return c[0]


def cmc(C, f):
    def g(i, j):
        a, b = fresh('a', 'I'), fresh('b', 'I')
        return sum_(a, K(0), UNB, sum_(b, K(0), UNB, C.get(a, i) * f(a, b) * C.get(b, j)))
    return g


@proof('C20', 'construction: rejects a missing underlying basis, a coefficient row count other than its size, and zero columns; keeps the coefficients otherwise', DRV)
def t_nao_ctor(prog):
    out = []
    for null in (True, False):
        p, u = nao_setup(prog, 'NAORadialBasis')
        f = nf(prog, 'NAORadialBasis')
        C = p.param(f, 1, 'C')
        this = p.st.new(Obj(NAO, {'underlying_': Ptr(None), 'C_': Mat(K(0), K(0), lambda i, j: K(0, 'R'))}), 'self')
        r, st = p.run(f, this, [Ptr(None) if null else Ptr(u), C])
        p.check_throws('constructor', TRUE if null else or_(ne(C.rows, UNB), eq(C.cols, 0)), 'logic_error')
        if not st.dead:
            o = this.read(st)
            a, b = fresh('a', 'I'), fresh('b', 'I')
            M = o.fields['C_']
            p.check('coefficients kept', and_(eq(M.rows, C.rows), eq(M.cols, C.cols), eq(M.get(a, b), C.get(a, b))), st.pc + [a >= 0, a < C.rows, b >= 0, b < C.cols])
            p.check('underlying basis kept', lift(o.fields['underlying_'].lv.same(u)), st.pc)
        out.append(p)
    return out


@proof('C20', 'one-electron matrices are C^T M C of the underlying basis, one row and column per contracted function', DRV)
def t_nao_one(prog):
    out = []
    for n in ('overlap', 'kinetic', 'kinetic_l', 'nuclear'):
        p, u = nao_setup(prog, n)
        s, C, N = nao(p, u, 'self')
        r, st = p.run(nf(prog, n), s, [])
        p.check_throws(n, FALSE)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        p.check(n + ': size', and_(eq(r.rows, N), eq(r.cols, N)), st.pc)
        p.check(n + ': every entry', eq(r.get(i, j), cmc(C, lambda a, b: app('u_' + n, (var('uid', 'I'), a, b), 'R'))(i, j)), st.pc + [i >= 0, i < N, j >= 0, j < N])
        out.append(p)
    p, u = nao_setup(prog, 'Nbf')
    s, C, N = nao(p, u, 'self')
    r, st = p.run(nf(prog, 'Nbf'), s, [])
    p.check('number of functions', eq(r, N), st.pc)
    out.append(p)
    return out


@proof('C20', 'orbital values are those of the promoted coefficients C C_orb in the underlying basis; a wrong row count is rejected', DRV)
def t_nao_orbs(prog):
    p, u = nao_setup(prog, 'eval_orbs')
    s, C, N = nao(p, u, 'self')
    f = nf(prog, 'eval_orbs')
    M, r0 = p.param(f, 0, 'C_orb'), p.param(f, 1)
    r, st = p.run(f, s, [M, r0])
    p.check_throws('eval_orbs', ne(M.rows, N), 'logic_error')
    i = fresh('i', 'I')
    a, b = fresh('a', 'I'), fresh('b', 'I')
    p.check('one value per orbital', eq(r.rows, M.cols), st.pc)
    p.check('every value', eq(r.get(i, 0), sum_(a, K(0), UNB, sum_(b, K(0), N, app('chi', (var('uid', 'I'), a, r0), 'R') * C.get(a, b) * M.get(b, i)))), st.pc + [i >= 0, i < M.cols])
    return p


@proof('C20', 'two-electron matrices are C^T A(C_o D C_o^T) C with A the assembly of that multipole in the shared underlying basis; other requests are rejected', DRV)
def t_nao_two(prog):
    out = []
    for n, kern in (('coulomb_radial', 'asmJ'), ('exchange_radial', 'asmK'), ('coulomb_radial_yukawa', 'asmYJ'), ('exchange_radial_yukawa', 'asmYK')):
        yuk = 'yukawa' in n
        for case in ('shared', 'itself', 'different', 'not-fem'):
            p, u = nao_setup(prog, '%s [%s]' % (n, case), case != 'not-fem')
            s, C, N = nao(p, u, 'self')
            u2 = p.st.new(Obj(FEM, {'id': var('uid2', 'I')}), 'underlying2') if case == 'different' else u
            o, Co, No = (s, C, N) if case == 'itself' else nao(p, u2, 'other')
            f = nf(prog, n)
            k = p.param(f, 0)
            lam = p.param(f, 1) if yuk else K(0, 'R')
            D = p.param(f, len(f['params']) - 1, 'D')
            r, st = p.run(f, s, [k] + ([lam] if yuk else []) + [o, D])
            bad = TRUE if case in ('different', 'not-fem') else or_(ne(D.rows, No), ne(D.cols, No), (lam <= 0) if yuk else FALSE)
            p.check_throws(n, bad, 'logic_error')
            if case in ('shared', 'itself') and not st.dead:
                i, j, c, d, a, b = (fresh(x, 'I') for x in 'ijcdab')
                inner = lambda x, y: sum_(a, K(0), UNB, sum_(b, K(0), UNB, app(kern, (var('uid', 'I'), k, lam, x, y, a, b), 'R') * sum_(c, K(0), No, sum_(d, K(0), No, Co.get(a, c) * D.get(c, d) * Co.get(b, d)))))
                p.check('%s: size' % n, and_(eq(r.rows, N), eq(r.cols, N)), st.pc)
                p.check('%s: every entry' % n, eq(r.get(i, j), cmc(C, inner)(i, j)), st.pc + [i >= 0, i < N, j >= 0, j < N])
            out.append(p)
    return out
