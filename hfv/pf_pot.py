"""Nuclear models and screened model potentials."""
from vc import *
from fw import proof
from exec import PI_DIGITS
from fractions import Fraction

Q = 'libhelfemqc/src/'
MP = 'helfem::modelpotential::'
TUG = ['src/general/gsz.cpp']
TUM = ['src/general/model_potential.cpp', 'src/general/gsz.cpp']


def fnq(prog, q, npar=None, pred=None):
    c = [f for f in prog.funcs.values() if f['q'] == q and (npar is None or len(f['params']) == npar) and (pred is None or pred(f))]
    if len(c) != 1:
        raise Unsupported('function %s: %d candidates' % (q, len(c)))
    return c[0]


def A(f, *x):
    return app(f, tuple(lift(y) for y in x), 'R')


def q(a, b=1):
    return K(Fraction(a, b), 'R')


PI = var('pi', 'R')


def c_const(v):
    return lambda ex, st, this, args, e: v


# M_2_SQRTPI and pi are given by their defining relation; their digits are a separate obligation below
CC = {'helfem::utils::pi': c_const(PI), 'helfem::utils::two_over_sqrtpi': c_const(div(q(2), A('sqrt', PI)))}


def model(prog, rec, label, **kw):
    p = Proof(prog, label, contracts=dict(CC))
    p.require(PI > 3, PI < 4)
    o = p.obj(MP + rec + 'T<double>', 'nuc')
    return p, o


def on(p, o):
    return p.st.new(o, 'nuc')


def simple(name, cls, build):
    @proof('C13', '%s: potential of the model for every radius' % cls, [Q + name])
    def t(prog):
        out = []
        for label, req, spec in build:
            p, o = model(prog, cls, cls + ' ' + label)
            r = var('r', 'R')
            p.require(*req(o, r))
            v, st = p.run(fnq(prog, MP + cls + 'T<double>::V'), on(p, o), [r])
            p.check('V is the stated potential', eq(v, spec(o, r)), st.pc)
            p.check_throws('V', FALSE)
            out.append(p)
        return out
    t.__name__ = 't_' + cls
    return t


Zf = lambda o: o.fields['Z']
simple('PointNucleus.cpp', 'PointNucleus', [('r>0', lambda o, r: [r > 0], lambda o, r: -Zf(o) / r)])
simple('HollowNucleus.cpp', 'HollowNucleus', [
    ('outside', lambda o, r: [o.fields['R'] > 0, r >= o.fields['R']], lambda o, r: -Zf(o) / r),
    ('inside', lambda o, r: [o.fields['R'] > 0, r >= 0, r < o.fields['R']], lambda o, r: -Zf(o) / o.fields['R'])])
R0 = lambda o: o.fields['R0']
sph = lambda o, r: -Zf(o) / (2 * R0(o)) * (3 - (r / R0(o)) * (r / R0(o)))
simple('SphericalNucleus.cpp', 'SphericalNucleus', [
    ('outside', lambda o, r: [R0(o) > 0, r >= R0(o)], lambda o, r: -Zf(o) / r),
    ('inside', lambda o, r: [R0(o) > 0, r >= 0, r < R0(o)], sph)])
mu = lambda o: o.fields['mu']
Rc = lambda o: o.fields['Rcut']
g2 = lambda o, r: mu(o) * r * mu(o) * r
simple('GaussianNucleus.cpp', 'GaussianNucleus', [
    ('beyond the series radius', lambda o, r: [mu(o) > 0, Rc(o) > 0, r > Rc(o)], lambda o, r: -Zf(o) * A('erf', mu(o) * r) / r),
    ('series', lambda o, r: [mu(o) > 0, Rc(o) > 0, r >= 0, r <= Rc(o)], lambda o, r: -Zf(o) * 2 / A('sqrt', PI) * mu(o) * (
        1 - g2(o, r) / 3 + g2(o, r) * g2(o, r) / 10 - g2(o, r) * g2(o, r) * g2(o, r) / 42))])


@proof('C13', 'potentials are continuous at the nuclear radius and finite at the origin', [Q + 'SphericalNucleus.cpp'])
def t_continuity(prog):
    p, o = model(prog, 'SphericalNucleus', 'continuity lemmas')
    p.require(R0(o) > 0)
    p.check('sphere: inside formula meets -Z/r at R0', eq(sph(o, R0(o)), -Zf(o) / R0(o)), p.facts)
    p.check('sphere: value at the origin', eq(sph(o, q(0)), -3 * Zf(o) / (2 * R0(o))), p.facts)
    return p


def ctor(name, cls, args, checks):
    @proof('C13', '%s: parameters set from charge and rms radius' % cls, [Q + name])
    def t(prog):
        p, o = model(prog, cls, cls + ' constructor')
        Z, Rr = var('Zin', 'I'), var('Rrms', 'R')
        p.require(Rr > 0)
        f = fnq(prog, MP + cls + 'T<double>::' + cls + 'T')
        th = p.st.new(p.ex.default_obj(MP + cls + 'T<double>'), 'nuc')
        p.run(f, th, [Z, Rr][:args])
        checks(p, p.st, th.read(p.st), Z, Rr)
        p.check_throws('constructor', FALSE)
        return p
    t.__name__ = 't_ctor_' + cls
    return t


ctor('PointNucleus.cpp', 'PointNucleus', 1, lambda p, st, o, Z, R: p.check('charge', eq(o.fields['Z'], Z), st.pc))
ctor('HollowNucleus.cpp', 'HollowNucleus', 2, lambda p, st, o, Z, R: p.check('charge and radius', and_(eq(o.fields['Z'], Z), eq(o.fields['R'], R)), st.pc))
ctor('SphericalNucleus.cpp', 'SphericalNucleus', 2, lambda p, st, o, Z, R: p.check('charge and radius', and_(eq(o.fields['Z'], Z), eq(o.fields['R0'], A('sqrt', q(5, 3)) * R)), st.pc))


def gctor(p, st, o, Z, R):
    m = A('sqrt', q(3, 2)) / R
    p.check('charge and exponent', and_(eq(o.fields['Z'], Z), eq(o.fields['mu'], m)), st.pc)
    p.check('series radius: sixth-order term at machine precision', eq(o.fields['Rcut'], A('pow', 42 * q(1, 2 ** 52), q(1, 6)) / m), st.pc)


ctor('GaussianNucleus.cpp', 'GaussianNucleus', 2, gctor)


def breakpoints(name, cls, fld):
    @proof('C13', '%s: the kink radius is reported exactly when it lies inside the interval' % cls, [Q + name])
    def t(prog):
        out = []
        for inside in (True, False):
            p, o = model(prog, cls, '%s breakpoints %s' % (cls, 'inside' if inside else 'outside'))
            a, b = var('a', 'R'), var('b', 'R')
            c = and_(o.fields[fld] > a, o.fields[fld] < b)
            p.require(a < b, c if inside else not_(c))
            v, st = p.run(fnq(prog, MP + cls + 'T<double>::breakpoints'), on(p, o), [a, b])
            p.check('number of breakpoints', eq(v.size, K(1 if inside else 0)), st.pc)
            if inside:
                p.check('the breakpoint is the radius', eq(v.get(K(0)), o.fields[fld]), st.pc)
            out.append(p)
        return out
    t.__name__ = 't_breakpoints_' + cls
    return t


breakpoints('SphericalNucleus.cpp', 'SphericalNucleus', 'R0')
breakpoints('HollowNucleus.cpp', 'HollowNucleus', 'R')

# -- regularized nucleus (Gygi): phi = exp(h)/sqrt(pi), h = -r erf(ar) - b exp(-a^2 r^2),
#    V = -1/2 + (r phi)''/(2 r phi) = -1/2 + h'/r + (h'' + h'^2)/2
a_, b_, r_ = [var(n, 'R') for n in ('a', 'b', 'r')]


def reg_spec(a, b, r):
    E = 1 / A('exp', r * r * a * a)
    F = A('erf', a * r)
    dF = 2 * a / A('sqrt', PI) * E
    dE = -2 * a * a * r * E
    h1 = -F - r * dF - b * dE
    ddF = 2 * a / A('sqrt', PI) * dE
    ddE = -2 * a * a * E - 2 * a * a * r * dE
    h2 = -2 * dF - r * ddF - b * ddE
    return -q(1, 2) + h1 / r + (h2 + h1 * h1) / 2


@proof('C13', 'regularized nucleus: V = -1/2 + (r phi)\'\'/(2 r phi)', [Q + 'RegularizedNucleus.cpp'])
def t_regularized(prog):
    p = Proof(prog, 'V_analytic', contracts=dict(CC))
    p.require(PI > 3, PI < 4, a_ > 0, b_ > 0, r_ > 0)
    v, st = p.run(fnq(prog, MP + 'V_analytic'), None, [a_, b_, r_])
    p.check('analytic expression', eq(v, reg_spec(a_, b_, r_)), st.pc)
    # series: coefficients of the Taylor expansion of the same expression about r = 0
    import sympy as S
    a, b, r, s = S.symbols('a b r s', positive=True)     # s = sqrt(pi)
    erf = sum(2 * (-1) ** k * (a * r) ** (2 * k + 1) / (s * S.factorial(k) * (2 * k + 1)) for k in range(6))
    ex = sum((-1) ** k * (a * r) ** (2 * k) / S.factorial(k) for k in range(7))
    h = -r * erf - b * ex
    h1 = S.diff(h, r)
    V = S.expand(-S.Rational(1, 2) + S.expand(h1 / r) + (S.diff(h, r, 2) + S.expand(h1 ** 2)) / 2)
    P2 = Proof(prog, 'V_taylor', contracts=dict(CC))
    P2.require(PI > 3, PI < 4, a_ > 0, b_ > 0, r_ >= 0)
    v, st = P2.run(fnq(prog, MP + 'V_taylor'), None, [a_, b_, r_])
    sp = A('sqrt', PI)
    m = {'a': a_, 'b': b_, 's': sp, 'r': r_}
    tot = q(0)
    for k in range(0, 8):
        ck = S.expand(V.coeff(r, k))
        for term in S.Add.make_args(ck):
            c, syms = term.as_coeff_Mul()
            t = q(Fraction(int(S.Rational(c).p), int(S.Rational(c).q)))
            for base, e in syms.as_powers_dict().items():
                if base == 1:
                    continue
                for _ in range(abs(int(e))):
                    t = t * m[str(base)] if e > 0 else t / m[str(base)]
            for _ in range(k):
                t = t * r_
            tot = tot + t
    P2.check('series through r^6', eq(v, tot), st.pc)
    return [p, P2]


@proof('C13', 'regularized nucleus: charge scaling and branch choice', [Q + 'RegularizedNucleus.cpp'])
def t_reg_scale(prog):
    out = []
    ev = lambda n: (lambda ex, st, this, args, e: app(n, tuple(ex.rv(x, st) for x in args), 'R'))
    cc = dict(CC)
    cc[MP + 'V_analytic'] = ev('Van')
    cc[MP + 'V_taylor'] = ev('Vta')
    for lab, small in (('series', True), ('analytic', False)):
        p = Proof(prog, 'RegularizedNucleus::V ' + lab, contracts=cc)
        o = p.obj(MP + 'RegularizedNucleusT<double>', 'nuc')
        Z, r = o.fields['Z'], var('r', 'R')
        lim = A('cbrt', q(1, 2 ** 52))
        p.require(Z >= 0, r >= 0, (Z * r <= lim) if small else (Z * r > lim))
        v, st = p.run(fnq(prog, MP + 'RegularizedNucleusT<double>::V'), on(p, o), [r])
        p.check('V(Z,r) = Z^2 V(1,Zr)', eq(v, Z * Z * app('Vta' if small else 'Van', (o.fields['a'], o.fields['b'], Z * r), 'R')), st.pc)
        p.check_throws('V', FALSE)
        out.append(p)
    return out


@proof('C13', 'pi and 2/sqrt(pi) digits', [Q + 'RegularizedNucleus.cpp', Q + 'GaussianNucleus.cpp'])
def t_pi(prog):
    import sympy as S
    p = Proof(prog, 'mathematical constants')
    for n, val in (('pi', S.pi), ('two_over_sqrtpi', 2 / S.sqrt(S.pi))):
        v, st = p.run(fnq(prog, 'helfem::utils::' + n), None, [])
        ref = Fraction(str(S.N(val, 40)))
        lo = K(ref - Fraction(1, 2 * 10 ** 16), 'R')
        hi = K(ref + Fraction(1, 2 * 10 ** 16), 'R')
        p.check('%s to double precision' % n, and_(v > lo, v < hi), st.pc)
    return p


# -- screened atoms
def gsz(r, Z, d, H):
    return 1 + (Z - 1) / (1 + (A('exp', r / d) - 1) * H)


@proof('C13', 'GSZ effective charge: formula, bare charge at the nucleus, unit charge tail, vector form', TUG)
def t_gsz(prog):
    r, Z, d, H = [var(n, 'R') for n in ('r', 'Z', 'd', 'H')]
    sc = lambda f: f['_ty'][f['params'][0]['t']]['s'] == 'double' and len(f['params']) == 4
    p = Proof(prog, 'Z_GSZ')
    p.require(r >= 0, d > 0, H >= 0)
    v, st = p.run(fnq(prog, 'helfem::GSZ::Z_GSZ', 4, sc), None, [r, Z, d, H])
    p.check('published formula', eq(v, gsz(r, Z, d, H)), st.pc)
    p.check('lemma: full nuclear charge at the origin', eq(gsz(q(0), Z, d, H), Z), st.pc + [eq(A('exp', q(0)), q(1))])
    X = var('X', 'R')
    g = lambda x: 1 + (Z - 1) / (1 + (x - 1) * H)
    p.check('lemma: never below one nor above the nuclear charge', and_(g(X) >= 1, g(X) <= Z), [X >= 1, H >= 0, Z >= 1], timeout=20)
    out = [p]
    f = fnq(prog, 'helfem::GSZ::Z_GSZ', 4, lambda f: not sc(f))
    p = Proof(prog, 'Z_GSZ vector', contracts=None)
    rv = p.param(f, 0)
    v, st = p.run(f, None, [rv, Z, d, H])
    i = var('qi', 'I')
    p.check('one value per radius', eq(v.size, rv.size), st.pc)
    p.check('pointwise', eq(v.get(i), gsz(rv.get(i), Z, d, H)), st.pc + [i >= 0, i < rv.size])
    out.append(p)
    return out


TFA, TFB, TFG = [q(Fraction(s)) for s in ('0.7280642371', '-0.5430794693', '0.3612163121')]


def tf(r, Z):
    pi2 = q(PI_DIGITS)
    x = r * A('cbrt', 128 * Z / (9 * pi2 * pi2))
    s = A('sqrt', x)
    b = 1 + TFA * s + TFB * x * A('exp', -TFG * s)
    return Z * b * b * A('exp', -2 * TFA * s)



@proof('C13', 'Thomas-Fermi effective charge: formula and vector form', TUG)
def t_tf(prog):
    import math
    sc = lambda f: f['_ty'][f['params'][0]['t']]['s'] == 'double'
    r, Z = var('r', 'R'), var('Z', 'I')
    p = Proof(prog, 'Z_thomasfermi')
    p.require(r >= 0, Z >= 0)
    v, st = p.run(fnq(prog, 'helfem::GSZ::Z_thomasfermi', 2, sc), None, [r, Z])
    p.check('published formula', eq(v, tf(r, Z)), st.pc)
    p.check_throws('Z_thomasfermi', FALSE)
    f = fnq(prog, 'helfem::GSZ::Z_thomasfermi', 2, lambda f: not sc(f))
    p2 = Proof(prog, 'Z_thomasfermi vector')
    rv = p2.param(f, 0)
    v, st = p2.run(f, None, [rv, Z])
    i = var('qi', 'I')
    p2.check('one value per radius', eq(v.size, rv.size), st.pc)
    p2.check('pointwise', eq(v.get(i), tf(rv.get(i), Z)), st.pc + [i >= 0, i < rv.size])
    return [p, p2]


# Green, Sellin, Zachor 1969: d of H, He, Li, ...
GREEN = '''1.00 0.215 0.563 0.858 0.979 0.880 0.776 0.708 0.575 0.500 0.561 0.621 0.729 0.817 0.868 0.885 0.881 0.862 1.006 1.154 1.116 1.060 0.996 0.837 0.866 0.807 0.751 0.700 0.606 0.612 0.631 0.649 0.663 0.675 0.684 0.689 0.744 0.798 0.855 0.866 0.831 0.825 0.855 0.803 0.788 0.737 0.754 0.775 0.810 0.841 0.870 0.896 0.919 0.940 1.022 1.108 1.150 1.081 0.970 0.938 0.905 0.873 0.842 0.862 0.830 0.754 0.728 0.702 0.677 0.654 0.665 0.672 0.676 0.679 0.680 0.680 0.679 0.661 0.657 0.671 0.690 0.708 0.726 0.744 0.761 0.777 0.818 0.859 0.899 0.927 0.887 0.880 0.872 0.832 0.822 0.842 0.830 0.790 0.778 0.766 0.754 0.742 0.755'''.split()


@proof('C15', 'GSZ_parameters: rejects charges outside the table, never reads outside it', TUG)
def t_gszpar(prog):
    f = fnq(prog, 'helfem::GSZ::GSZ_parameters')
    p = Proof(prog, 'GSZ_parameters bounds')
    p.ex.wrap64 = True
    Z = var('Z', 'I')
    d, H = p.st.new(var('d0', 'R'), 'd'), p.st.new(var('H0', 'R'), 'H')
    p.require(Z >= -2 ** 31, Z < 2 ** 31)
    p.run(f, None, [Z, d, H])
    p.check_throws('GSZ_parameters', or_(Z < 0, Z > 103))
    return p


@proof('C13', 'GSZ parameters: H = d (Z-1)^0.4 with a positive table value d; a dummy centre is not screened', TUG)
def t_gszpar2(prog):
    out = []
    f = fnq(prog, 'helfem::GSZ::GSZ_parameters')
    for z in range(0, 104):
        p = Proof(prog, 'GSZ_parameters Z=%d' % z)
        d, H = p.st.new(var('d0', 'R'), 'd'), p.st.new(var('H0', 'R'), 'H')
        p.run(f, None, [K(z), d, H])
        if p.st.dead:
            p.res.append(R('parameters for Z=%d' % z, 'ensures', False, 'exec', 0.0))
            out.append(p)
            continue
        dv, Hv = d.read(p.st), H.read(p.st)
        if z:
            p.check('tabulated value of the element', eq(dv, q(Fraction(GREEN[z - 1]))), p.st.pc)
        else:
            p.check('positive length for a dummy centre', dv > 0, p.st.pc)
        p.check('H', eq(Hv, dv * A('pow', q(z - 1), q(2, 5)) if z > 1 else q(0)), p.st.pc + [eq(A('pow', q(0), q(2, 5)), q(0))])
        out.append(p)
    return out


@proof('C13', 'screened atoms: V = -Zeff(r)/r with the stored parameters', TUM)
def t_atoms(prog):
    out = []
    ev = lambda n: (lambda ex, st, this, args, e: app(n, tuple(ex.rv(x, st) for x in args), 'R'))
    cc = {'helfem::GSZ::Z_thomasfermi': ev('ZTF'), 'helfem::GSZ::Z_GSZ': ev('ZGSZ'), 'sap_effective_charge': ev('ZSAP')}
    r = var('r', 'R')
    for cls, sp in (('TFAtom', lambda o: app('ZTF', (r, o['Z']), 'R')), ('GSZAtom', lambda o: app('ZGSZ', (r, o['Z'], o['dz'], o['Hz']), 'R')),
                    ('SAPAtom', lambda o: app('ZSAP', (o['Z'], r), 'R'))):
        p = Proof(prog, cls + '::V', contracts=cc)
        o = p.obj(MP + cls, 'nuc')
        p.require(r > 0)
        v, st = p.run(fnq(prog, MP + cls + '::V'), on(p, o), [r])
        p.check('V = -Zeff/r', eq(v, -sp(o.fields) / r), st.pc)
        p.check_throws('V', FALSE)
        out.append(p)
    return out
