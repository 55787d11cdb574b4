"""Two-electron element integrals of the radial basis: which element, points, weights and kernel
the quadratures are asked for (RadialBasis.cpp)."""
from vc import *
from fw import proof
import pf_radial as R

TU = R.TU
UL = 'unsigned long'
BN = 'helfem::atomic::basis::'
QN = 'helfem::quadrature::'
for _n, _s in (('LX', 'II'), ('LW', 'II'), ('CX', 'II'), ('CW', 'II'), ('TW', 'IIII'), ('YW', 'IIRIII'), ('EW', 'II'), ('SW', 'II')):
    P.declare(_n, *_s)


def vec(n, nm):
    return Mat(n, K(1), lambda i, j: app(nm, (n, i), 'R'), 'R', True)


def same(ex, st, v, w, what):
    i = fresh('i', 'I')
    ex.need(and_(eq(v.size, w.size), or_(i < 0, i >= w.size, eq(v.get(i), w.get(i)))), st, 'contract-req', what)


def rule(nx, nw):
    def c(ex, st, this, args, e):
        n = ex.rv(args[0], st)
        ex.need(n >= 2, st, 'contract-req', 'rule has at least two points')
        args[1].write(st, vec(n, nx))
        args[2].write(st, vec(n, nw))
    return c


def c_converge(log):
    """converge_rule: the value is eval(n) for some order n >= max(nstart, 2) (proved in t_converge)"""
    def c(ex, st, this, args, e):
        n = var('norder', 'I')
        st.pc = st.pc + [n >= 2, n >= ex.rv(args[1], st)]
        f = ex.rv(args[0], st)
        r = f.call(ex, st, [n])
        log.append(n)
        return r
    return c


def q_int(nm):
    """contract of an in-element quadrature: element ends, a Lobatto rule, the element's functions"""
    def c(ex, st, this, args, e):
        a = [ex.rv(x, st) for x in args]
        v = var('iel', 'I')
        ex.need(and_(eq(a[0], app('ebeg', (v,), 'R')), eq(a[1], app('eend', (v,), 'R'))), st, 'contract-req', 'ends of the element')
        n = a[2].size
        same(ex, st, a[2], vec(n, 'LX'), 'Lobatto points')
        same(ex, st, a[3], vec(n, 'LW'), 'Lobatto weights')
        o = ptr_obj(ex, st, a[4])
        ex.need(eq(o, v), st, 'contract-req', 'functions of the element')
        k = tuple(lift(x) for x in a[5:])
        nn = R.nfun(v) * R.nfun(v)
        return Mat(nn, nn, lambda i, j: app(nm, (n,) + k + (v, i, j), 'R'))
    return c


def ptr_obj(ex, st, q):
    return q.lv.read(st).fields['iel']


@proof('C12', 'two-electron element integrals use the element ends, its functions and a converged Lobatto rule', TU)
def t_wrap(prog):
    out = []
    L, lam = var('L', 'I'), var('lambda', 'R')
    for name, sig, args, q in (('twoe_integral', ('int', UL), [L], 'TW'), ('yukawa_integral', ('int', 'double', UL), [L, lam], 'YW')):
        log = []
        con = {BN + 'converge_rule': c_converge(log), 'helfem::lobatto::lobatto_compute': rule('LX', 'LW'),
               QN + name: q_int(q),
               R.FEC + 'get_basis': lambda ex, st, this, a, e: Ptr(st.new(Obj('Elem', {'iel': ex.rv(a[0], st)}), 'elem'))}
        p = R.base(prog, name, extra=con)
        v = R.el(p)
        p.require(L >= 0)
        r, st = p.run(R.rbf(prog, name, *sig), p.lv, args + [v])
        p.check_throws(name, FALSE)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        nn = R.nfun(v) * R.nfun(v)
        p.check('size', and_(eq(r.rows, nn), eq(r.cols, nn)), st.pc)
        p.check('order-L integrals of this element', eq(r.get(i, j), app(q, (var('norder', 'I'),) + tuple(args) + (v, i, j), 'R')),
                st.pc + [i >= 0, i < nn, j >= 0, j < nn])
        out.append(p)
    return out


@proof('C12', 'range-separated element integrals: Gauss-Chebyshev on the first element, the same rule on every sub-interval of the second', TU)
def t_erfcw(prog):
    out = []
    L, mu = var('L', 'I'), var('mu', 'R')
    for lab in ('same element', 'two elements'):
        v, w = var('iel', 'I'), var('kel', 'I')
        nq = var('rb.xq.rows', 'I')

        def c_erfc(ex, st, this, args, e):
            a = [ex.rv(x, st) for x in args]
            g = lambda n, x: app(n, (x,), 'R')
            ex.need(and_(eq(a[0], g('ebeg', v)), eq(a[1], g('eend', v)), eq(a[5], g('ebeg', w)), eq(a[6], g('eend', w))), st, 'contract-req', 'ends of both elements')
            same(ex, st, a[3], vec(nq, 'CX'), 'points of the first element')
            same(ex, st, a[4], vec(nq, 'CW'), 'weights of the first element')
            n = nq if lab == 'same element' else K(1)
            s, q, j = fresh('s', 'I'), fresh('q', 'I'), fresh('j', 'I')
            rg = and_(s >= 0, s < n, q >= 0, q < nq)
            one = K(1, 'R')
            lo = 2 * (s * one) / (n * one) - 1
            hi = 2 * ((s + 1) * one) / (n * one) - 1
            x = (lo + hi) / 2 + (hi - lo) / 2 * vec(nq, 'CX').get(q)
            k = s * nq + q
            ex.need(and_(eq(a[8].size, n * nq), eq(a[9].size, n * nq)), st, 'contract-req', 'every sub-interval carries one copy of the rule')
            st2 = st.copy()
            st2.pc = st2.pc + [rg]
            ex.need(eq(a[8].get(k), x), st2, 'contract-req', 'points of the sub-interval')
            ex.need(eq(a[9].get(k), (hi - lo) / 2 * vec(nq, 'CW').get(q)), st2, 'contract-req', 'weights of the sub-interval')
            st2.pc = st2.pc + [j >= 0, j < R.nfun(v)]
            ex.need(and_(eq(a[2].cols, R.nfun(v)), eq(a[7].cols, R.nfun(w)), eq(a[2].rows, nq), eq(a[7].rows, n * nq)), st, 'contract-req', 'one column per function')
            ex.need(eq(a[2].get(q, j), R.B(0, v, j, a[3].get(q))), st2, 'contract-req', 'functions of the first element at its points')
            st3 = st.copy()
            st3.pc = st3.pc + [k >= 0, k < n * nq, j >= 0, j < R.nfun(w)]
            kk = fresh('kk', 'I')
            st3.pc = st.pc + [kk >= 0, kk < n * nq, j >= 0, j < R.nfun(w)]
            ex.need(eq(a[7].get(kk, j), R.B(0, w, j, a[8].get(kk))), st3, 'contract-req', 'functions of the second element at its points')
            ex.need(and_(eq(a[10], L), eq(a[11], mu)), st, 'contract-req', 'order and range parameter')
            return Mat(R.nfun(v) * R.nfun(v), R.nfun(w) * R.nfun(w), lambda i, j: app('EW', (i, j), 'R'))
        con = {'helfem::chebyshev::chebyshev': rule('CX', 'CW'), QN + 'erfc_integral': c_erfc}
        p = R.base(prog, 'erfc_integral, ' + lab, extra=con)
        p.require(v >= 0, w >= 0, v < var('nelem', 'I'), w < var('nelem', 'I'), L >= 0, nq >= 2)
        p.require(eq(v, w) if lab == 'same element' else ne(v, w))
        r, st = p.run(R.rbf(prog, 'erfc_integral', 'int', 'double', UL, UL), p.lv, [L, mu, v, w])
        p.check_throws('erfc_integral', FALSE)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        g = lambda i, j: app('EW', (i, j), 'R')
        spec = (g(i, j) + g(j, i)) / 2 if lab == 'same element' else g(i, j)
        p.check('the quadrature (averaged with its transpose inside one element)', eq(r.get(i, j), spec),
                st.pc + [i >= 0, i < R.nfun(v) * R.nfun(v), j >= 0, j < R.nfun(w) * R.nfun(w)])
        out.append(p)
    return out


@proof('C12', 'in-element potential uses the element and its stored rule', TU)
def t_sphw(prog):
    def c(ex, st, this, args, e):
        a = [ex.rv(x, st) for x in args]
        v = var('iel', 'I')
        ex.need(and_(eq(a[0], app('ebeg', (v,), 'R')), eq(a[1], app('eend', (v,), 'R')), eq(ptr_obj(ex, st, a[4]), v)), st, 'contract-req', 'element and its functions')
        same(ex, st, a[2], p.o.fields['xq'], 'stored points')
        same(ex, st, a[3], p.o.fields['wq'], 'stored weights')
        return Mat(a[2].size, R.nfun(v) * R.nfun(v), lambda i, j: app('SW', (i, j), 'R'))
    con = {QN + 'spherical_potential': c, R.FEC + 'get_basis': lambda ex, st, this, a, e: Ptr(st.new(Obj('Elem', {'iel': ex.rv(a[0], st)}), 'elem'))}
    p = R.base(prog, 'spherical_potential', extra=con)
    v = R.el(p)
    r, st = p.run(R.rbf(prog, 'spherical_potential', UL), p.lv, [v])
    i, j = fresh('i', 'I'), fresh('j', 'I')
    p.check('the quadrature', eq(r.get(i, j), app('SW', (i, j), 'R')), st.pc)
    return p


@proof('C12', 'refinement of a quadrature returns the value of the quadrature at some order >= 2', TU)
def t_converge(prog):
    out = []
    for f in prog.funcs.values():
        if f['q'] != BN + 'converge_rule':
            continue
        P.declare('EVL', 'I', 'I', 'I')
        P.declare('ISVAL', 'R', 'I', 'I')
        nr, nc, i0, j0 = [var(x, 'I') for x in ('nr', 'nc', 'i0', 'j0')]

        def ev(ex, st, args):
            n = ex.rv(args[0], st)
            ex.need(n >= 2, st, 'contract-req', 'order at least two')
            st.pc = st.pc + [app('ISVAL', (app('EVL', (n, i0, j0), 'R'), i0, j0), 'B')]
            return Mat(nr, nc, lambda i, j: app('EVL', (n, i, j), 'R'))
        def invs(ex, S0, roots):
            out = []
            val = {r: ex.rd(S0, r) for r in roots}
            mats = [r for r in roots if isinstance(val[r], Mat)]
            for r in roots:
                if isinstance(val[r], Term) and val[r].sort == 'I':
                    out.append(lambda s, r=r: ex.rd(s, r) >= 2)
                if isinstance(val[r], Term) and val[r].sort == 'B':
                    for m in mats:
                        for pol in (True, False):
                            g = lambda s, r=r, pol=pol: ex.rd(s, r) if pol else not_(ex.rd(s, r))
                            out.append(lambda s, g=g, m=m: implies(g(s), and_(eq(ex.rd(s, m).rows, nr), eq(ex.rd(s, m).cols, nc))))
                            out.append(lambda s, g=g, m=m: implies(g(s), app('ISVAL', (ex.rd(s, m).get(i0, j0), i0, j0), 'B')))
            return out
        lam = f['_ty'][f['params'][0]['t']]['s'].replace('const ', '').rstrip(' &')
        con = {lam + '::operator()': lambda ex, st, this, args, e: ev(ex, st, args)}
        p = Proof(prog, 'converge_rule %d' % len(out), contracts=con, invs=invs)
        p.require(nr >= 1, nc >= 1, i0 >= 0, i0 < nr, j0 >= 0, j0 < nc)
        r, st = p.run(f, None, [Fun(ev, FALSE, 'eval', 'eval'), var('nstart', 'I'), Str(None)])
        p.check_throws('converge_rule', FALSE)
        p.check('size', and_(eq(r.rows, nr), eq(r.cols, nc)), st.pc)
        p.check('every entry comes from one evaluation', app('ISVAL', (r.get(i0, j0), i0, j0), 'B'), st.pc)
        out.append(p)
    if not out:
        raise Unsupported('converge_rule not found')
    return out


@proof('C12', 'factorised element tables are factors of the same integrals', TU)
def t_cholw(prog):
    out = []
    P.declare('TEI0', 'I', 'I')
    P.declare('CHOL0', 'I', 'I')
    L, lam, tol = var('L', 'I'), var('lambda', 'R'), var('tol', 'R')
    for nm, sig, a, base in (('twoe_integral_cholesky', ('int', UL, 'double'), [L], 'twoe_integral'), ('yukawa_integral_cholesky', ('int', 'double', UL, 'double'), [L, lam], 'yukawa_integral')):
        nn = R.nfun(var('iel', 'I')) * R.nfun(var('iel', 'I'))

        def c_t(ex, st, this, args, e, a=a):
            for x, y in zip(args, a + [var('iel', 'I')]):
                ex.need(eq(ex.rv(x, st), y), st, 'contract-req', 'order, screening and element handed on')
            return Mat(nn, nn, lambda i, j: app('TEI0', (i, j), 'R'))

        def c_c(ex, st, this, args, e):
            m = ex.rv(args[0], st)
            i, j = fresh('i', 'I'), fresh('j', 'I')
            ex.need(and_(eq(m.get(i, j), app('TEI0', (i, j), 'R')), eq(m.rows, nn), eq(m.cols, nn)), st, 'contract-req', 'factorises the integrals')
            ex.need(eq(ex.rv(args[1], st), tol), st, 'contract-req', 'tolerance handed on')
            return Mat(nn, var('rank', 'I'), lambda i, j: app('CHOL0', (i, j), 'R'))
        p = R.base(prog, nm, extra={'FEMRadialBasisT::' + base: c_t, BN + 'pivoted_cholesky_': c_c})
        v = R.el(p)
        r, st = p.run(R.rbf(prog, nm, *sig), p.lv, a + [v, tol])
        i, j = fresh('i', 'I'), fresh('j', 'I')
        p.check('the factor', eq(r.get(i, j), app('CHOL0', (i, j), 'R')), st.pc)
        out.append(p)
    return out
