"""Diatomic one-electron operators in prolate spheroidal coordinates (C26)."""
from vc import *
from fw import proof
from pf_ang import cls, meth, DR, DI, NA, NR, LV, MV

RH = var('Rhalf', 'R')
NP = var('npure', 'I')
for n_ in ('cos', 'cos2', 'cos3', 'cos4', 'sin2', 'cos2sin2'):
    P.declare('cpl_' + n_, 'I', 'I', 'I', 'I')


def cpl(n, i, j):
    """integral of Y_j* f Y_i over the sphere"""
    return app('cpl_' + n, (LV.get(j), MV.get(j), LV.get(i), MV.get(i)), 'R')


def gaunt():
    k = {}
    for meth_, n in (('cosine_coupling', 'cos'), ('cosine2_coupling', 'cos2'), ('cosine3_coupling', 'cos3'), ('cosine4_coupling', 'cos4'), ('sine2_coupling', 'sin2'), ('cosine2_sine2_coupling', 'cos2sin2')):
        def f(ex, st, this, a, e, n=n):
            return app('cpl_' + n, tuple(ex.rv(x, st) for x in a), 'R')
        k['GauntT::' + meth_] = f
    return k


def RI(m, n):
    return Mat(NR, NR, lambda a, b: app('ri', (lift(m), lift(n), a, b), 'R'))


KR = Mat(NR, NR, lambda a, b: app('kr', (a, b), 'R'))


def dobj(prog, label, extra=None, **kw):
    con = gaunt()
    con['RadialBasis::radial_integral'] = lambda ex, st, this, a, e: RI(ex.rv(a[0], st), ex.rv(a[1], st))
    con['RadialBasis::kinetic'] = lambda ex, st, this, a, e: KR
    con.update(extra or {})
    p = cls(prog, DR, label, con, **kw)
    p.o.fields['Rhalf'] = RH
    p.pi = lambda a: app('pure', (a,), 'I')
    p.o.fields['pure_idx'] = SVec(NP, p.pi, ('sc', 'I'))
    t = fresh('t', 'I')
    p.require(NP >= 0, forall([t], implies(and_(t >= 0, t < NP), and_(p.pi(t) >= 0, p.pi(t) < NA * NR))))
    p.lv = p.st.new(p.o, 'tb')
    return p


def entry(p, r, st, spec, label, rows=None):
    """r(a,b) is entry (k,l) of the block of channels (i,j), scaled as spec says"""
    p.check('one row and column per kept function', and_(eq(r.rows, NP), eq(r.cols, NP)), st.pc)
    a, b, i, j, k, l = [fresh(n, 'I') for n in 'abijkl']
    c = [a >= 0, a < NP, b >= 0, b < NP, i >= 0, i < NA, j >= 0, j < NA, k >= 0, k < NR, l >= 0, l < NR, eq(p.pi(a), i * NR + k), eq(p.pi(b), j * NR + l)]
    p.check(label, eq(r.get(a, b), spec(i, j, k, l)), st.pc + c, timeout=20.0)


def same_m(i, j): return eq(MV.get(i), MV.get(j))
def same(i, j): return and_(same_m(i, j), eq(LV.get(i), LV.get(j)))


Z = K(0, 'R')


def pw(x, n): return mk('powi', (x, lift(n)), 'R')


def op(name, spec, sig=(), args=()):
    def t(prog):
        p = dobj(prog, name)
        r, st = p.run(meth(prog, DR, name, *sig), p.lv, list(args))
        p.check_throws(name, FALSE)
        entry(p, r, st, spec, name)
        return p
    return t


def I(m, n): return lambda k, l: RI(m, n).get(k, l)


def S_spec(i, j, k, l):
    return pw(RH, 3) * (ite(same(i, j), I(1, 2)(k, l), Z) - ite(same_m(i, j), cpl('cos2', i, j) * I(1, 0)(k, l), Z))


def T_spec(i, j, k, l):
    li, mi = LV.get(i), MV.get(i)
    one = K(1, 'R')
    return RH / 2 * ite(eq(i, j), KR.get(k, l) + li * (li + 1) * one * I(1, 0)(k, l) + mi * mi * one * I(-1, 0)(k, l), Z)


def V_spec(i, j, k, l):
    one = K(1, 'R')
    z1, z2 = var('tb.Z1', 'I') * one, var('tb.Z2', 'I') * one
    return -pw(RH, 2) * (ite(same(i, j), (z1 + z2) * I(1, 1)(k, l), Z) + ite(same_m(i, j), (z2 - z1) * cpl('cos', i, j) * I(1, 0)(k, l), Z))


def D_spec(i, j, k, l):
    return pw(RH, 4) * ite(same_m(i, j), cpl('cos', i, j) * I(1, 3)(k, l) - cpl('cos3', i, j) * I(1, 1)(k, l), Z)


def Q_spec(i, j, k, l):
    x = cpl('cos4', i, j) * (I(1, 0)(k, l) - 3 * I(1, 2)(k, l)) + cpl('cos2', i, j) * (3 * I(1, 4)(k, l) - I(1, 0)(k, l)) + ite(eq(LV.get(i), LV.get(j)), I(1, 2)(k, l) - I(1, 4)(k, l), Z)
    return pw(RH, 5) / 2 * ite(same_m(i, j), x, Z)


BF = var('B', 'R')


def B_spec(i, j, k, l):
    quad = BF * BF / 8 * pw(RH, 5) * (cpl('sin2', i, j) * I(3, 2)(k, l) - cpl('cos2sin2', i, j) * I(3, 0)(k, l))
    lin = -BF * (MV.get(j) * K(1, 'R')) / 2 * pw(RH, 3) * (ite(eq(LV.get(i), LV.get(j)), I(1, 2)(k, l), Z) - cpl('cos2', i, j) * I(1, 0)(k, l))
    return ite(same_m(i, j), quad + lin, Z)


for name_, lab_, spec_, sig_, args_ in (
        ('overlap', 'overlap: Rhalf^3 (delta cosh^2 - cos^2) between channels of equal m', S_spec, (), ()),
        ('kinetic', 'kinetic energy: Rhalf/2 (B\'B\' sinh + l(l+1) sinh + m^2/sinh) in every channel', T_spec, (), ()),
        ('nuclear', 'nuclear attraction: -Rhalf^2 ((Z1+Z2) cosh + (Z2-Z1) cos) sinh', V_spec, (), ()),
        ('dipole_z', 'dipole: Rhalf cosh cos with the volume element', D_spec, (), ()),
        ('quadrupole_zz', 'quadrupole: (3z^2-r^2)/2 with the volume element', Q_spec, (), ()),
        ('Bz_field', 'magnetic field: -B m/2 + B^2 rho^2/8 with the volume element', B_spec, ('double',), (BF,))):
    f_ = op(name_, spec_, sig_, args_)
    f_.__name__ = 't_' + name_
    proof('C26', lab_, DI)(f_)
