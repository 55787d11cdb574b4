"""Spherically averaged atoms (C28) and their Coulomb matrices (C25)."""
from vc import *
from exec import PI_DIGITS
from fw import proof
from pf_ang import NR
from pf_atom import NE, first, last, asm, blk, c_idx, c_blk

SA = ['src/sadatom/basis.cpp']
SR = 'helfem::sadatom::basis::TwoDBasis'
UL = 'unsigned long'
NQ = var('nq', 'I')
PI = K(PI_DIGITS, 'R')


def meth(prog, name, *pt):
    c = []
    for f in prog.funcs.values():
        if f.get('rec') != SR or f['n'] != name:
            continue
        ts = [f['_ty'][q['t']]['s'] for q in f['params']]
        if len(ts) == len(pt) and all((a == t.replace('const ', '')) if a in ('double', 'int', 'bool') else a in t for a, t in zip(pt, ts)):
            c.append(f)
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]


def c_tab(name, rows=None, extra=1):
    """values of the element's functions at the points (rows) / at the quadrature points"""
    def f(ex, st, this, a, e):
        v = [x if isinstance(x, (Mat, SVec)) else x for x in [ex.rv(x, st) for x in a]]
        t = v[-1]
        ex.need(and_(t >= 0, t < NE), st, 'bounds', 'element index')
        n = last(t) - first(t) + 1
        if len(v) == 2:
            x = v[0]
            return Mat(x.size, n, lambda q, b: app(name + 'x', (x.get(q), t, b), 'R'))
        return Mat(NQ, n, lambda q, b: app(name, (t, q, b), 'R'))
    return f


def c_vec(name):
    def f(ex, st, this, a, e):
        v = [ex.rv(x, st) for x in a]
        t = v[-1]
        ex.need(and_(t >= 0, t < NE), st, 'bounds', 'element index')
        if len(v) == 2:
            x = v[0]
            return Mat(x.size, K(1), lambda q, b: app(name + 'x', (x.get(q), t), 'R'), vec=True)
        return Mat(NQ, K(1), lambda q, b: app(name, (t, q), 'R'), vec=True)
    return f


def sobj(prog, label, extra=None, **kw):
    con = {'FEMRadialBasisT::Nbf': lambda ex, st, this, a, e: NR, 'FEMRadialBasisT::Nel': lambda ex, st, this, a, e: NE, 'FEMRadialBasisT::get_idx': c_idx,
           'FEMRadialBasisT::radial_integral': c_blk('rint', 1), 'FEMRadialBasisT::kinetic': c_blk('kin', 0), 'FEMRadialBasisT::kinetic_l': c_blk('kinl', 0),
           'FEMRadialBasisT::get_bf': c_tab('bf'), 'FEMRadialBasisT::get_df': c_tab('df'), 'FEMRadialBasisT::get_lf': c_tab('lf'),
           'FEMRadialBasisT::get_r': c_vec('rq'), 'FEMRadialBasisT::get_wrad': c_vec('wq'),
           'FEMRadialBasisT::get_xq': lambda ex, st, this, a, e: Mat(NQ, K(1), lambda q, b: app('xq', (q,), 'R'), vec=True)}
    con.update(extra or {})
    p = Proof(prog, label, contracts=con, **kw)
    p.o = p.obj(SR, 'tb')
    p.require(NR >= 1, NE >= 1, NQ >= 1)
    t = fresh('t', 'I')
    p.require(forall([t], implies(and_(t >= 0, t < NE), and_(first(t) >= 0, first(t) <= last(t), last(t) < NR))))
    p.lv = p.st.new(p.o, 'tb')
    return p


def op(name, spec, sig=(), args=(), extra=None, model=None):
    def t(prog):
        p = sobj(prog, name, extra)
        r, st = p.run(meth(prog, name, *sig), p.lv, list(args))
        p.check_throws(name, FALSE)
        p.check('one row and column per radial function', and_(eq(r.rows, NR), eq(r.cols, NR)), st.pc)
        k, l = fresh('k', 'I'), fresh('l', 'I')
        p.check(name, eq(r.get(k, l), spec(k, l)), st.pc + [k >= 0, k < NR, l >= 0, l < NR])
        return p
    return t


CF = [var(n, s) for n, s in (('cN', 'I'), ('cr0', 'R'), ('iconf', 'I'), ('cV', 'R'), ('cshift', 'R'))]
for name_, lab_, spec_, sig_, args_, ex_ in (
        ('overlap', 'overlap of the radial functions', asm('rint', 0), (), (), {}),
        ('kinetic', 'radial kinetic energy', asm('kin'), (), (), {}),
        ('kinetic_l', 'centrifugal kinetic energy', asm('kinl'), (), (), {}),
        ('confinement', 'confinement potential, zero if switched off', lambda k, l: ite(eq(CF[2], K(0)), K(0, 'R'), asm('conf', *CF)(k, l)), ('int', 'double', 'int', 'double', 'double'), tuple(CF),
         {'FEMRadialBasisT::confinement_potential': c_blk('conf', 5, False)})):
    f_ = op(name_, spec_, sig_, args_, ex_)
    f_.__name__ = 't_' + name_
    proof('C28', 'assembled from the elements: ' + lab_, SA)(f_)


P0 = Mat(NR, NR, lambda a, b: app('dens', (a, b), 'R'))


def rho(tab, t, q, *x):
    n = last(t) - first(t) + 1
    f = lambda a: app(tab, x + (t, a) if x else (t, q, a), 'R')
    return Sum(K(0), n, lambda a: Sum(K(0), n, lambda b: f(b) * P0.get(first(t) + b, first(t) + a) * f(a)))


@proof('C28', 'electron density at points of an element = sum over pairs of its functions of density matrix times function values (times r^2 on request)', SA)
def t_density(prog):
    out = []
    for sq in (False, True):
        p = sobj(prog, 'electron_density (r^2 weight %s)' % sq)
        iel = var('iel', 'I')
        p.require(iel >= 0, iel < NE)
        x = p.sym(('mat', 'R', True, '-1', False), 'x')
        r, st = p.run(meth(prog, 'electron_density', 'Matrix', UL, 'Matrix', 'bool'), p.lv, [x, iel, P0, TRUE if sq else FALSE])
        p.check_throws('electron_density', FALSE)
        q = fresh('q', 'I')
        p.check('one value per point', eq(r.size, x.size), st.pc)
        d = rho('bfx', iel, q, x.get(q))
        if sq:
            rr = app('rqx', (x.get(q), iel), 'R')
            d = d * rr * rr
        p.check('density', eq(r.get(q), d), st.pc + [q >= 0, q < x.size])
        out.append(p)
        p = sobj(prog, 'electron_density at the quadrature points (r^2 weight %s)' % sq)
        p.require(iel >= 0, iel < NE)
        r, st = p.run(meth(prog, 'electron_density', UL, 'Matrix', 'bool'), p.lv, [iel, P0, TRUE if sq else FALSE])
        d = rho('bfx', iel, q, app('xq', (q,), 'R'))
        if sq:
            rr = app('rqx', (app('xq', (q,), 'R'), iel), 'R')
            d = d * rr * rr
        p.check('density', and_(eq(r.size, NQ), eq(r.get(q), d)), st.pc + [q >= 0, q < NQ])
        out.append(p)
    return out


@proof('C28', 'tables over the whole grid: one entry for the nucleus, then the quadrature points element by element', SA)
def t_tables(prog):
    out = []
    for name, f in (('radii', 'rq'), ('quadrature_weights', 'wq')):
        p = sobj(prog, name)
        r, st = p.run(meth(prog, name), p.lv, [])
        p.check_throws(name, FALSE)
        t, q = fresh('t', 'I'), fresh('q', 'I')
        c = st.pc + [t >= 0, t < NE, q >= 0, q < NQ]
        p.check('size', eq(r.size, NE * NQ + 1), st.pc)
        p.check(name, eq(r.get(1 + t * NQ + q), app(f, (t, q), 'R')), c)
        p.check('zero at the nucleus', eq(r.get(K(0)), K(0, 'R')), st.pc)
        out.append(p)
    NC = var('norb', 'I')
    C = Mat(NR, NC, lambda a, b: app('orbc', (a, b), 'R'))
    for name, f in (('orbitals', 'bf'), ('orbitals_derivative', 'df'), ('orbitals_second_derivative', 'lf')):
        p = sobj(prog, name, {'FEMRadialBasisT::nuclear_orbital': lambda ex, st, this, a, e: Mat(K(1), NC, lambda i, j: app('nucorb', (j,), 'R'))})
        p.require(NC >= 1)
        r, st = p.run(meth(prog, name, 'Matrix'), p.lv, [C])
        p.check_throws(name, FALSE)
        t, q, o = fresh('t', 'I'), fresh('q', 'I'), fresh('o', 'I')
        c = st.pc + [t >= 0, t < NE, q >= 0, q < NQ, o >= 0, o < NC]
        p.check('size', and_(eq(r.rows, NE * NQ + 1), eq(r.cols, NC)), st.pc)
        p.check(name, eq(r.get(1 + t * NQ + q, o), Sum(K(0), last(t) - first(t) + 1, lambda a: app(f, (t, q, a), 'R') * app('orbc', (first(t) + a, o), 'R'))), c)
        p.check('value at the nucleus', eq(r.get(K(0), o), app('nucorb', (o,), 'R') if f == 'bf' else K(0, 'R')), c)
        out.append(p)
    return out


def cube(name, n):
    return SVec(n, lambda t: Mat(app('n_' + name, (t,), 'I'), app('n_' + name, (t,), 'I'), lambda a, b: app(name, (t, a, b), 'R')), ('mat', 'R', False))


T_, A_, B_ = var('any_element', 'I'), var('any_row', 'I'), var('any_col', 'I')


def c_jk(tag, name):
    """assembly from per-element tables (proved under C12): a function of the tables passed and of the density"""
    def f(ex, st, this, a, e):
        tabs = []
        for x in a[1:4]:
            v = ex.rv(x, st)
            m = v.call(ex, st, [T_])
            m = m.read(st) if hasattr(m, 'read') else m
            tabs.append(m.get(A_, B_))
        d = ex.rv(a[4], st)
        return Mat(NR, NR, lambda i, j: app(name, (i, j) + tuple(tabs) + (d.get(A_, B_),), 'R'))
    return f


@proof('C25', 'Coulomb matrix of a spherically averaged density = 4 pi times the monopole assembly from the monopole tables', SA)
def t_coulomb(prog):
    p = sobj(prog, 'coulomb', {'helfem::atomic::basis::assemble_J_FE_one_multipole_cached_chol': c_jk('J', 'jasm')})
    n = var('ntab', 'I')
    p.require(T_ >= 0, T_ < NE, n >= NE)
    for f in ('disjoint_L', 'disjoint_m1L', 'prim_chol'):
        p.o.fields[f] = cube(f, n)
    p.lv = p.st.new(p.o, 'tb')
    r, st = p.run(meth(prog, 'coulomb', 'Matrix'), p.lv, [P0])
    p.check_throws('coulomb', FALSE)
    i, j = fresh('i', 'I'), fresh('j', 'I')
    tab = lambda f: app(f, (T_, A_, B_), 'R')
    p.check('coulomb', eq(r.get(i, j), 4 * PI * app('jasm', (i, j, tab('disjoint_L'), tab('disjoint_m1L'), tab('prim_chol'), P0.get(A_, B_)), 'R')), st.pc + [i >= 0, i < NR, j >= 0, j < NR])
    return p


@proof('C25', 'Slater-Condon integral of an orbital = trace of its density with the Coulomb matrix of that density; wrong lengths are rejected', SA)
def t_slater(prog):
    kk = var('kmult', 'I')
    con = {'helfem::atomic::basis::assemble_J_FE_one_multipole': lambda ex, st, this, a, e: (lambda k, d: Mat(NR, NR, lambda i, j: app('jfull', (i, j, k, d.get(A_, B_)), 'R')))(ex.rv(a[1], st), ex.rv(a[2], st))}
    p = sobj(prog, 'slater_F', con)
    c = p.sym(('mat', 'R', True, '-1', False), 'c')
    r, st = p.run(meth(prog, 'slater_F', 'int', 'Matrix'), p.lv, [kk, c])
    p.check_throws('slater_F', not_(eq(c.size, NR)))
    g = lambda a: c.get(a)
    p.check('slater_F', eq(r, Sum(K(0), NR, lambda i: Sum(K(0), NR, lambda j: g(i) * g(j) * app('jfull', (j, i, kk, g(A_) * g(B_)), 'R')))), st.pc)
    return p
