"""Contracts for the finite-element basis layer (FiniteElementBasis, abstract primitive polynomials)."""
from vc import *
from exec import *

PB = 'helfem::polynomial_basis::PolynomialBasisT<double>'
FE = 'helfem::polynomial_basis::FiniteElementBasisT<double>'

P.declare('prim', 'I', 'I', 'R', 'R')
P.declare('primr', 'I', 'I', 'R', 'R')


# ---- abstract primitive basis: the contract every family is verified against separately (C05/C03/C06)
def dl(zf, zd): return app('dropL', (zf, zd), 'I')
def dr(zf, zd): return app('dropR', (zf, zd), 'I')


def c_copy(ex, st, this, args, e):
    return Ptr(st.new(this.read(st), 'copy'))


def mk_drop(cnt, tag):
    def c(ex, st, this, args, e):
        zf, zd = (ex.tobool(ex.rv(a, st)) for a in args)
        o = this.read(st)
        d = cnt(zf, zd)
        nov = o.fields['noverlap']
        en = o.fields['enabled']
        st.assume(and_(le(K(0), d), le(d, nov)))
        ex.need(le(nov, en.size), st, 'contract-req', 'drop_%s: at least noverlap functions enabled' % tag)
        i0, i1 = zf, zd
        nsz = sub(en.size, d)
        new = Mat(nsz, K(1), lambda i, j: en.get(app('drop%si' % tag, (i, i0, i1), 'I')) if tag == 'F' else en.get(app('drop%si' % tag, (i, i0, i1, en.size), 'I')), 'I', True)
        q = fresh('q', 'I')
        ix = app('drop%si' % tag, (q, i0, i1) if tag == 'F' else (q, i0, i1, en.size), 'I')
        st.assume(forall([q], implies(and_(le(K(0), q), lt(q, nsz)), and_(le(K(0), ix), lt(ix, en.size)))))
        LField(this, 'enabled').write(st, new)
        return None
    return c


def c_prim(ex, st, this, args, e):
    x = ex.rv(args[0], st)
    n, L = ex.rv(args[2], st), ex.rv(args[3], st)
    o = this.read(st)
    m = Mat(x.size, o.fields['nprim'], lambda i, j: app('prim', (j, n, x.get(i), L), 'R'))
    args[1].write(st, m)


def c_overr(ex, st, this, args, e):
    x = ex.rv(args[0], st)
    n, L = ex.rv(args[2], st), ex.rv(args[3], st)
    o = this.read(st)
    en = o.fields['enabled']
    m = Mat(x.size, en.size, lambda i, j: app('primr', (en.get(j), n, x.get(i), L), 'R'))
    args[1].write(st, m)


POLY = {
    ('virt', PB, 'copy'): c_copy,
    ('virt', PB, 'drop_first'): mk_drop(dl, 'F'),
    ('virt', PB, 'drop_last'): mk_drop(dr, 'L'),
    ('virt', PB, 'eval_prim_dnf'): c_prim,
}


def over_r_dispatch(ex, st, this, args, e):
    if len(args) == 4:
        return c_overr(ex, st, this, args, e)
    return NotImplemented


POLY[('virt', PB, 'eval_over_r')] = c_overr


def bstr(v, n):
    """v strictly increasing on [0,n)"""
    i, j = fresh('q', 'I'), fresh('q', 'I')
    return forall([i, j], implies(and_(le(K(0), i), lt(i, j), lt(j, n)), lt(v.get(i), v.get(j))))


class FEObj:
    """a symbolic well-formed FE basis object living in p.st"""

    def __init__(self, p, wf=True, minelem=1, abstract=False):
        self.p = p
        self.abstract = abstract
        f = p.facts
        poly = symobj(p.ex, PB, 'poly', f)
        np_, nov, nn = poly.fields['nprim'], poly.fields['noverlap'], poly.fields['nnodes']
        f += [nov >= 1, nn >= 2, eq(np_, nov * nn)]
        f.append(np_ >= nov * 2)
        # enabled = 0..nprim-1 for a pristine primitive basis
        poly.fields['enabled'] = Mat(np_, K(1), lambda i, j: i, 'I', True)
        self.poly = poly
        self.np, self.nov, self.nn = np_, nov, nn
        self.plv = p.st.new(poly, 'poly')
        o = symobj(p.ex, FE, 'fe', f)
        o.fields['poly'] = Ptr(self.plv)
        self.bval = o.fields['bval']
        self.N = sub(self.bval.rows, K(1))
        zf = [o.fields[k] for k in ('zero_func_left', 'zero_deriv_left', 'zero_func_right', 'zero_deriv_right')]
        self.dL, self.dR = dl(*zf[:2]), dr(*zf[2:])
        f += [self.dL >= 0, self.dL <= nov, self.dR >= 0, self.dR <= nov]
        self.o = o
        f.append(self.bval.rows >= 1 + minelem)
        f.append(bstr(self.bval, self.bval.rows))
        # every element keeps at least one function
        f.append(self.np - self.dL - self.dR >= 1)
        if abstract:
            # lemmas proved under C01 ('range lemma'): ranges are non-empty and inside [0,nbf)
            t = fresh('t', 'I')
            f.append(forall([t], implies(and_(t >= 0, t < self.N), and_(self.first(t) >= 0, self.first(t) <= self.last(t), self.last(t) < self.nbf))))
            f.append(self.nbf >= 1)
        if wf:
            o.fields['first_func_in_element'] = Mat(self.N, K(1), lambda i, j: self.first(i), 'I', True)
            o.fields['last_func_in_element'] = Mat(self.N, K(1), lambda i, j: self.last(i), 'I', True)
        self.lv = p.st.new(o, 'fe')

    def nfun(self, t):
        if self.abstract:
            return self.last(t) - self.first(t) + 1
        return self.np - ite(eq(t, K(0)), self.dL, K(0)) - ite(eq(t, self.N - 1), self.dR, K(0))

    def first(self, t):
        if self.abstract:
            return app('first', (t,), 'I')
        return t * (self.np - self.nov) - ite(eq(t, K(0)), K(0), self.dL)

    def last(self, t):
        if self.abstract:
            return app('last', (t,), 'I')
        return self.first(t) + self.nfun(t) - 1

    @property
    def nbf(self):
        return self.last(self.N - 1) + 1

    # global basis function g on element t as primitive index (spec of the numbering)
    def getbfi(self, t):
        pass
