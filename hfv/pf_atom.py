"""Atomic one-electron operators (C24)."""
from vc import *
from fw import proof
from pf_ang import cls, meth, AR, AT, NA, NR, LV, MV
from exec import PI_DIGITS
from pf_diat import cpl, gaunt, pw

NE = var('nelem', 'I')
PI = K(PI_DIGITS, 'R')


def first(t): return app('first', (t,), 'I')
def last(t): return app('last', (t,), 'I')


def blk(name, extra, t):
    n = last(t) - first(t) + 1
    return Mat(n, n, lambda a, b: app(name, tuple(lift(x) for x in extra) + (t, a, b), 'R'))


def c_idx(ex, st, this, a, e):
    t = ex.rv(a[0], st)
    ex.need(and_(t >= 0, t < NE), st, 'bounds', 'element index')
    a[1].write(st, first(t))
    a[2].write(st, last(t))
    return None


def c_blk(name, nextra, before=True):
    def f(ex, st, this, a, e):
        v = [ex.rv(x, st) for x in a]
        t = v[nextra] if before else v[0]
        x = v[:nextra] if before else v[1:1 + nextra]
        ex.need(and_(t >= 0, t < NE), st, 'bounds', 'element index')
        return blk(name, x, t)
    return f


def asm(name, *extra):
    """sum over elements of the element block at its global position"""
    return lambda i, j: Sum(K(0), NE, lambda t: ite(and_(first(t) <= i, i <= last(t), first(t) <= j, j <= last(t)), app(name, tuple(lift(x) for x in extra) + (t, i - first(t), j - first(t)), 'R'), K(0)))


COUP = (('cosine_coupling', 'cos', 1), ('sine2_coupling', 'sin2', 2))
ml, mm = var('max_l', 'I'), var('max_abs_m', 'I')


def c_table(ex, st, this, a, e):
    """table of angular couplings: the three angular momentum windows; the m window is the largest of them"""
    v = [ex.rv(x, st) for x in a]
    return Obj('helfem::gaunt::GauntT<double>', dict(Lmax=v[0], lmax=v[1], lpmax=v[2], mcap=ite(v[3] < 0, v[0], ite(v[3] < v[0], v[3], v[0]))))


def window(ex, st, this, L, M, l, m, lp):
    """requires: the coefficient lies inside the table (outside, the code returns zero or throws; C23)"""
    f = this.read(st).fields
    ex.need(and_(L <= f['Lmax'], l <= f['lmax'], lp <= f['lpmax'], M <= f['mcap'], -M <= f['mcap'], m <= f['mcap'], -m <= f['mcap']), st, 'pre', 'coupling table covers the coefficient')


def c_coeff(ex, st, this, a, e):
    v = [ex.rv(x, st) for x in a]
    window(ex, st, this, *v)
    return app('gcoeff', tuple(v), 'R')


def c_coup(n, L):
    def f(ex, st, this, a, e):
        lj, mj, li, mi = [ex.rv(x, st) for x in a]
        window(ex, st, this, lj, mj, K(L), K(0), li)
        return app('cpl_' + n, (lj, mj, li, mi), 'R')
    return f


def aobj(prog, label, extra=None, **kw):
    con = gaunt()
    con[('ctor', 'GauntT')] = con[('ctor', 'helfem::gaunt::GauntT')] = con[('ctor', 'helfem::gaunt::GauntT<double>')] = c_table
    con['GauntT::coeff'] = c_coeff
    for m_, n_, L_ in COUP:
        con['GauntT::' + m_] = c_coup(n_, L_)
    con['FEMRadialBasisT::Nel'] = lambda ex, st, this, a, e: NE
    con['FEMRadialBasisT::get_idx'] = c_idx
    con['FEMRadialBasisT::radial_integral'] = c_blk('rint', 1)
    con['FEMRadialBasisT::kinetic'] = c_blk('kin', 0)
    con['FEMRadialBasisT::kinetic_l'] = c_blk('kinl', 0)
    con.update(extra or {})
    p = cls(prog, AR, label, con, **kw)
    t = fresh('t', 'I')
    p.require(NE >= 1, forall([t], implies(and_(t >= 0, t < NE), and_(first(t) >= 0, first(t) <= last(t), last(t) < NR))))
    p.require(NA >= 1, forall([t], implies(and_(t >= 0, t < NA), and_(LV.get(t) >= 0, MV.get(t) <= LV.get(t), -MV.get(t) <= LV.get(t)))))
    p.lv = p.st.new(p.o, 'tb')
    return p


def entry(p, r, st, spec, label, split=()):
    p.check('one row and column per function', and_(eq(r.rows, NA * NR), eq(r.cols, NA * NR)), st.pc)
    i, j, k, l = [fresh(n, 'I') for n in 'ijkl']
    c = [i >= 0, i < NA, j >= 0, j < NA, k >= 0, k < NR, l >= 0, l < NR]
    cs = [[]]
    for f in split:
        x = f(i, j)
        cs = [y + [z] for y in cs for z in (x, not_(x))]
    for n, y in enumerate(cs):
        p.check(label + (' (case %d)' % n if len(cs) > 1 else ''), eq(r.get(i * NR + k, j * NR + l), spec(i, j, k, l)), st.pc + c + y, timeout=20.0)


Z = K(0, 'R')
one = K(1, 'R')


def op(name, spec, sig=(), args=(), extra=None, require=()):
    def t(prog):
        p = aobj(prog, name, extra)
        p.require(*require)
        r, st = p.run(meth(prog, AR, name, *sig), p.lv, list(args))
        p.check_throws(name, FALSE)
        entry(p, r, st, spec, name)
        return p
    return t


def S_spec(i, j, k, l):
    return ite(eq(i, j), asm('rint', 0)(k, l), Z)


def T_spec(i, j, k, l):
    li = LV.get(i)
    return ite(eq(i, j), asm('kin')(k, l) + ite(li > 0, li * (li + 1) * one * asm('kinl')(k, l), Z), Z)


def times(c, x):
    return ite(eq(c, K(0, 'R')), K(0, 'R'), c * x)


def D_spec(i, j, k, l):
    return times(cpl('cos', i, j), asm('rint', 1)(k, l))


def gc(j, L, i):
    return app('gcoeff', (LV.get(j), MV.get(j), L, K(0), LV.get(i)), 'R')


def Q_spec(i, j, k, l):
    c = K(2, 'R') / 5 * app('sqrt', (5 * PI,), 'R')
    return ite(eq(MV.get(i), MV.get(j)), c * times(gc(j, K(2), i), asm('rint', 2)(k, l)), Z)


BF = var('B', 'R')


def B_spec(i, j, k, l):
    return BF * BF / 8 * times(cpl('sin2', i, j), asm('rint', 2)(k, l)) - ite(and_(eq(LV.get(i), LV.get(j)), eq(MV.get(i), MV.get(j))), K(1, 'R') / 2 * BF * MV.get(j) * asm('rint', 0)(k, l), Z)


def MP_spec(i, j, k, l):
    return ite(eq(i, j), asm('mpot')(k, l), Z)


CF = [var(n, s) for n, s in (('cN', 'I'), ('cr0', 'R'), ('iconf', 'I'), ('cV', 'R'), ('cshift', 'R'))]


def C_spec(i, j, k, l):
    return ite(and_(eq(i, j), ne(CF[2], K(0))), asm('conf', *CF)(k, l), Z)


con_mp = {'FEMRadialBasisT::model_potential': lambda ex, st, this, a, e: blk('mpot', (), ex.rv(a[1], st))}
con_cf = {'FEMRadialBasisT::confinement_potential': c_blk('conf', 5, False)}

for name_, lab_, spec_, sig_, args_, con_ in (
        ('overlap', 'overlap: assembled radial overlap in every channel, zero between channels', S_spec, (), (), {}),
        ('kinetic', 'kinetic energy: radial term plus l(l+1) centrifugal term in every channel', T_spec, (), (), {}),
        ('dipole_z', 'dipole: angular cosine coupling times assembled radial r', D_spec, (), (), {}),
        ('quadrupole_zz', 'quadrupole: angular P2 coupling times assembled radial r^2', Q_spec, (), (), {}),
        ('Bz_field', 'magnetic field: B^2 r^2 sin^2/8 - m B/2', B_spec, ('double',), (BF,), {}),
        ('confinement', 'confinement: assembled confinement potential in every channel', C_spec, ('const int', 'const double', 'const int', 'const double', 'const double'), tuple(CF), con_cf),
        ):
    f_ = op(name_, spec_, sig_, args_, con_)
    f_.__name__ = 't_' + name_
    proof('C24', lab_, AT)(f_)


@proof('C24', 'model potential: assembled radial matrix elements of the potential in every channel', AT)
def t_model(prog):
    p = aobj(prog, 'model_potential', con_mp)
    pot = Ptr(p.st.new(Opaque('pot'), 'pot'))
    r, st = p.run(meth(prog, AR, 'model_potential', 'ModelPotential'), p.lv, [pot])
    p.check_throws('model_potential', FALSE)
    entry(p, r, st, MP_spec, 'model_potential')
    return p


@proof('C24', 'nuclear attraction: central point charge plus the multipole expansion of the two off-centre charges', AT)
def t_nuclear(prog):
    p = aobj(prog, 'nuclear', {'FEMRadialBasisT::nuclear_offcenter': lambda ex, st, this, a, e: (lambda v: blk('noff', (v[1], v[2]), v[0]))([ex.rv(x, st) for x in a])})
    p.o.fields['model'] = K(prog.enum('POINT_NUCLEUS'))
    p.lv = p.st.new(p.o, 'tb')
    r, st = p.run(meth(prog, AR, 'nuclear'), p.lv, [])
    p.check_throws('nuclear', FALSE)
    f = p.o.fields
    Zc, Zl, Zr, Rh = f['Z'], f['Zl'], f['Zr'], f['Rhalf']

    def spec(i, j, k, l):
        li, lj = LV.get(i), LV.get(j)
        off = Sum(ite(li >= lj, li - lj, lj - li), li + lj + 1, lambda L: times(gc(i, L, j), (ite(eq(imod(L, K(2)), K(0)), one, -one) * Zl + Zr * one) * asm('noff', Rh, L)(k, l)))
        return ite(eq(i, j), -(Zc * one) * asm('rint', -1)(k, l), Z) + ite(and_(eq(MV.get(i), MV.get(j)), or_(ne(Zl, K(0)), ne(Zr, K(0)))), off, Z)
    p.ex.wrap64 = False
    entry(p, r, st, spec, 'nuclear', (lambda i, j: eq(i, j), lambda i, j: eq(Zc, K(0)), lambda i, j: and_(eq(MV.get(i), MV.get(j)), or_(ne(Zl, K(0)), ne(Zr, K(0))))))
    return p


@proof('C24', 'overlap between two bases: radial cross overlap between channels of equal angular momentum', AT)
def t_cross(prog):
    p = aobj(prog, 'overlap (two bases)', {'FEMRadialBasisT::overlap': lambda ex, st, this, a, e: Mat(NR, NR2, lambda x, y: app('cross', (x, y), 'R'))})
    NR2, NA2 = var('nrad2', 'I'), var('nang2', 'I')
    p.require(NR2 >= 1, NA2 >= 1)
    q = p.obj(AR, 'rh')
    L2 = Mat(NA2, K(1), lambda i, j: app('lval2', (i,), 'I'), 'I', True)
    M2 = Mat(NA2, K(1), lambda i, j: app('mval2', (i,), 'I'), 'I', True)
    q.fields['lval'], q.fields['mval'] = L2, M2
    q.fields['radial'] = Obj('helfem::atomic::basis::FEMRadialBasisT<double>', dict(tag=K(2)))
    p.o.fields['radial'] = Obj('helfem::atomic::basis::FEMRadialBasisT<double>', dict(tag=K(1)))
    p.lv = p.st.new(p.o, 'tb')
    p.ex.contracts['FEMRadialBasisT::Nbf'] = lambda ex, st, this, a, e: NR if eq(this.read(st).fields['tag'], K(1)).op == 'true' else NR2
    r, st = p.run(meth(prog, AR, 'overlap', 'TwoDBasisT'), p.lv, [p.st.new(q, 'rh')])
    p.check_throws('overlap', FALSE)
    p.check('rows of this basis, columns of the other', and_(eq(r.rows, NA * NR), eq(r.cols, NA2 * NR2)), st.pc)
    i, j, k, l = [fresh(n, 'I') for n in 'ijkl']
    c = [i >= 0, i < NA, j >= 0, j < NA2, k >= 0, k < NR, l >= 0, l < NR2]
    p.check('overlap', eq(r.get(i * NR + k, j * NR2 + l), ite(and_(eq(LV.get(i), L2.get(j)), eq(MV.get(i), M2.get(j))), app('cross', (k, l), 'R'), Z)), st.pc + c, timeout=20.0)
    return p
