"""Angular couplings (C23)."""
import itertools
from fractions import Fraction
from vc import *
from exec import PI_DIGITS
from fw import proof

GT = ['src/general/gaunt.cpp']
GR = 'helfem::gaunt::GauntT<double>'
PI = K(PI_DIGITS, 'R')


def meth(prog, name, n):
    c = [f for f in prog.funcs.values() if f.get('rec') == GR and f['n'] == name and len(f['params']) == n]
    if len(c) != 1:
        raise Unsupported('GauntT::%s: %d candidates' % (name, len(c)))
    return c[0]


def legendre(n):
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [Fraction(0)] + [Fraction(2 * k + 1, k + 1) * x for x in b]
        for i, x in enumerate(a):
            c[i] -= Fraction(k, k + 1) * x
        a, b = b, c
    return b


def expand(poly):
    """coefficients a_k of a polynomial in cos(theta) over the Legendre polynomials"""
    poly = [Fraction(x) for x in poly]
    out = [Fraction(0)] * len(poly)
    for k in range(len(poly) - 1, -1, -1):
        p = legendre(k)
        out[k] = poly[k] / p[k]
        for i in range(k + 1):
            poly[i] -= out[k] * p[i]
    assert not any(poly)
    return out


def srt(x): return app('sqrt', (x,), 'R')


def G(L, M, l, m, lp): return app('gaunt', (L, M, l, m, lp), 'R')


def proof_obj(prog, label, con, **kw):
    p = Proof(prog, label, contracts=con, **kw)
    o = symobj(p.ex, GR, 'g', p.facts)
    p.o = o
    p.lv = p.st.new(o, 'g')
    return p


def c_coeff(ex, st, this, a, e):
    return G(*[ex.rv(x, st) for x in a])


COUP = (('cosine_coupling', [0, 1]), ('cosine2_coupling', [0, 0, 1]), ('cosine3_coupling', [0, 0, 0, 1]), ('cosine4_coupling', [0, 0, 0, 0, 1]),
        ('cosine5_coupling', [0, 0, 0, 0, 0, 1]), ('sine2_coupling', [1, 0, -1]), ('cosine2_sine2_coupling', [0, 0, 1, 0, -1]))
SQ = [implies(x >= 0, and_(srt(x) >= 0, eq(srt(x) * srt(x), x))) for x in (PI, 3 * PI, PI / 3, 9 * PI)]


@proof('C23', 'coupling through a power of cos and sin = expansion of that power in Legendre polynomials times the table coefficients', GT)
def t_coup(prog):
    out = []
    lj, mj, li, mi = [var(n, 'I') for n in ('lj', 'mj', 'li', 'mi')]
    for name, poly in COUP:
        p = proof_obj(prog, name, {'GauntT::coeff': c_coeff})
        r, st = p.run(meth(prog, name, 4), p.lv, [lj, mj, li, mi])
        p.check_throws(name, FALSE)
        s = K(0, 'R')
        for k, a in enumerate(expand(poly)):
            if a:
                # a_k P_k = a_k sqrt(4 pi/(2k+1)) Y_k0
                s = s + K(2 * a / (2 * k + 1), 'R') * (3 * srt(PI) if k == 4 else srt((2 * k + 1) * PI)) * G(lj, mj, K(k), K(0), li)
        hyp = [eq(srt(PI / 3) * 3, srt(3 * PI))] if name == 'cosine_coupling' else []
        if hyp:
            p.check('lemma: 3 sqrt(pi/3) = sqrt(3 pi)', hyp[0], SQ)
        p.check(name, eq(r, ite(eq(mi, mj), s, K(0, 'R'))), st.pc + hyp)
        out.append(p)
    return out


@proof('C23', 'modified coefficient: coupling of three spherical harmonics through cos^2', GT)
def t_mod(prog):
    out = []
    for case in (0, 1, 2, 3, 5, 6, 7, 8):   # case 4 (M<0, L<2, 0>=-M) is empty
        p = proof_obj(prog, 'mod_coeff (case %d)' % case, {'GauntT::coeff': c_coeff})
        lj, mj, L, M, li, mi = [var(n, 'I') for n in ('lj', 'mj', 'L', 'M', 'li', 'mi')]
        p.require(L >= 0)
        if case == 8:
            p.require(not_(eq(mj, M + mi)))
        else:
            p.require(eq(mj, M + mi), M >= 0 if case & 1 else M < 0, L >= 2 if case & 2 else L < 2)
            am = M if case & 1 else -M
            l2 = L - 2 if case & 2 else K(0)
            p.require(l2 >= am if case & 4 else l2 < am)
        r, st = p.run(meth(prog, 'mod_coeff', 6), p.lv, [lj, mj, L, M, li, mi])
        p.check_throws('mod_coeff', FALSE)
        if case == 8:
            p.check('mod_coeff', eq(r, K(0, 'R')), st.pc)
        else:
            a = expand([0, 0, 1])
            s = K(2 * a[0], 'R') * srt(PI) * (G(L, M, K(0), K(0), L) * G(lj, mj, li, mi, L)) + K(2 * a[2] / 5, 'R') * srt(5 * PI) * Sum(l2 if case & 4 else am, L + 3, lambda q: G(q, M, K(2), K(0), L) * G(lj, mj, li, mi, q))
            p.check('mod_coeff', eq(r, s), st.pc)
        out.append(p)
    return out


def G6(*a): return app('ggg', tuple(a), 'R')


def NPOS(p): return lift((1 << 64) - 1)


@proof('C23', 'table look-up: stored coefficient up to the sign (-1)^M, zero outside the angular windows, exception outside the m window', GT)
def t_coeff(prog):
    out = [coeff_case(prog, c) for c in range(12)]
    p = Proof(prog, 'coeff (cases)')
    t = [(var(n, 'I'),) for n in ('L', 'l', 'lp')]
    p.check('every order of the three angular momenta is one of the cases', or_(*[order(t, o) for o in PERM]), [])
    return out + [p]


def order(t, o):
    """ties in the order of the arguments"""
    gt = lambda i, j: t[i][0] >= t[j][0] if i < j else t[i][0] > t[j][0]
    return and_(gt(o[0], o[1]), gt(o[1], o[2]), gt(o[0], o[2]))


PERM = list(itertools.permutations(range(3)))


def coeff_case(prog, case):
    L, M, l, m, lp = [var(n, 'I') for n in ('L', 'M', 'l', 'm', 'lp')]
    mp = M - m
    facts = []

    def slot(ex, st, this, a, e):
        """slot of (l1 m1, l2 m2, l3 m3), l1>=l2>=l3, m3>=0: position holding the integral of the three
        harmonics, or NPOS if selection rules make it vanish or it is outside the stored window"""
        l1, l2, l3, m3, m2 = [ex.rv(x, st) for x in a]
        f = this.read(st).fields
        lall, ms = f['lall'], f['mstore']
        m2lo = ite(-l2 >= -ms, -l2, -ms)
        h = ite(l1 - m3 <= l2, l1 - m3, l2)
        m2hi = ite(h <= ms, h, ms)
        tri = and_(l1 >= l2, l2 >= l3, l3 >= l1 - l2, eq(imod(l1 + l2 + l3, K(2)), K(0)))
        ok = and_(l1 >= 0, l1 <= lall, l2 >= 0, l3 >= 0, tri, m3 >= 0, m3 <= l3, m3 <= ms, m2 >= m2lo, m2 <= m2hi)
        at = app('slot', (l1, l2, l3, m3, m2), 'I')
        st.pc = st.pc + [implies(ok, and_(at >= 0, at < f['coeffs'].size, eq(f['coeffs'].get(at), G6(l1, -m2 - m3, l2, m2, l3, m3))))]
        # orthogonality / selection rules of the integral, and its symmetries, at this point
        st.pc = st.pc + [implies(not_(and_(l3 >= l1 - l2, eq(imod(l1 + l2 + l3, K(2)), K(0)))), eq(G6(l1, -m2 - m3, l2, m2, l3, m3), K(0, 'R')))]
        st.pc = st.pc + [implies(or_(-m2 - m3 > l1, -m2 - m3 < -l1), eq(G6(l1, -m2 - m3, l2, m2, l3, m3), K(0, 'R')))]
        return ite(ok, at, lift((1 << 64) - 1))
    p = proof_obj(prog, 'coeff (case %d)' % case, {'GauntT::slot': slot})
    f = p.o.fields
    f['coeffs'] = SVec(var('ncoef', 'I'), lambda i: app('cf', (i,), 'R'), ('sc', 'R'))
    big = ite(ite(f['Lmax'] >= f['lmax'], f['Lmax'], f['lmax']) >= f['lpmax'], ite(f['Lmax'] >= f['lmax'], f['Lmax'], f['lmax']), f['lpmax'])
    p.require(eq(f['lall'], big), f['mcap'] >= 0, f['mcap'] <= f['lall'], eq(f['mstore'], ite(2 * f['mcap'] <= f['lall'], 2 * f['mcap'], f['lall'])))
    p.require(var('ncoef', 'I') < lift((1 << 62)))
    # the integral of three harmonics is symmetric in its three factors and under negation of all m
    t = [(L, -M), (l, m), (lp, mp)]
    g0 = G6(L, -M, l, m, lp, mp)
    for q in itertools.permutations(t):
        for s in (1, -1):
            p.require(eq(G6(*[x for (a, b) in q for x in (a, b if s == 1 else -b)]), g0))
    o = PERM[case // 2]
    x, y, z = [t[i] for i in o]
    # case split on the order of the three angular momenta and the sign of the last m
    p.require(order(t, o), z[1] >= 0 if case % 2 == 0 else z[1] < 0)
    p.lv = p.st.new(p.o, 'g')
    r, st = p.run(meth(prog, 'coeff', 5), p.lv, [L, M, l, m, lp])
    inwin = and_(L >= 0, L <= f['Lmax'], l >= 0, l <= f['lmax'], lp >= 0, lp <= f['lpmax'], M <= L, -M <= L, m <= l, -m <= l)
    cap = and_(M <= f['mcap'], -M <= f['mcap'], m <= f['mcap'], -m <= f['mcap'])
    p.check_throws('coeff', and_(inwin, not_(cap)))
    sg = ite(eq(imod(M, K(2)), K(0)), K(1, 'R'), K(-1, 'R'))
    val = ite(and_(inwin, mp <= lp, -mp <= lp), sg * g0, K(0, 'R'))
    p.check('coeff', eq(r, val), st.pc)
    return p


@proof('C23', 'slot of a coefficient: start of its run plus the m2 ranges of smaller m3 plus the offset in m2; NPOS outside', GT)
def t_slot(prog):
    p = proof_obj(prog, 'slot', {})
    l1, l2, l3, m3, m2 = a = [var(n, 'I') for n in ('l1', 'l2', 'l3', 'm3', 'm2')]
    f = p.o.fields
    TB = lambda i: app('tbase', (i,), 'I')
    n = f['lall'] + 1
    f['triple_base'] = SVec(n * n * n, TB, ('sc', 'I'))
    big = lift((1 << 64) - 1)
    t = fresh('t', 'I')
    p.require(f['lall'] >= 0, f['mstore'] >= 0, f['mstore'] <= f['lall'], l2 <= f['lall'], l3 <= f['lall'])
    p.require(forall([t], implies(and_(t >= 0, t < n * n * n), and_(TB(t) >= 0, TB(t) <= big))))
    p.lv = p.st.new(p.o, 'g')
    r, st = p.run(meth(prog, 'slot', 5), p.lv, a)
    p.check_throws('slot', FALSE)
    ms = f['mstore']
    lo = ite(-l2 >= -ms, -l2, -ms)
    def hi(q):
        h = ite(l1 - q <= l2, l1 - q, l2)
        return ite(h <= ms, h, ms)
    cnt = lambda q: ite(hi(q) >= lo, hi(q) - lo + 1, K(0))
    b = TB((l1 * n + l2) * n + l3)
    ok = and_(l1 >= 0, l1 <= f['lall'], l2 >= 0, l3 >= 0, ne(b, big), m3 >= 0, m3 <= l3, m3 <= ms, m2 >= lo, m2 <= hi(m3))
    p.check('slot', eq(r, ite(ok, b + Sum(K(0), m3, cnt) + m2 - lo, big)), st.pc)
    return p
