"""Exchange permutation, electron counting, element tables."""
from vc import *
from fw import proof

TUU = ['libhelfem/src/utils.cpp']
TUS = ['src/general/scf_helpers.cpp']
TUE = ['src/general/elements.cpp']


def fnq(prog, q, npar=None, pred=None):
    c = [f for f in prog.funcs.values() if f['q'] == q and (npar is None or len(f['params']) == npar) and (pred is None or pred(f))]
    if len(c) != 1:
        raise Unsupported('function %s: %d candidates' % (q, len(c)))
    return c[0]


@proof('C11', 'exchange_tei: (jk|il) entry is the (ij|kl) entry for all index ranges; sizes; accesses in bounds', TUU)
def t_exchange(prog):
    f = fnq(prog, 'helfem::utils::exchange_tei')
    p = Proof(prog, 'exchange_tei')
    args = [p.param(f, i) for i in range(5)]
    tei, Ni, Nj, Nk, Nl = args
    p.require(eq(tei.rows, Ni * Nj), eq(tei.cols, Nk * Nl), Ni > 0, Nj > 0, Nk > 0, Nl > 0)
    r, st = p.run(f, None, args)
    i, j, k, l = [fresh(x, 'I') for x in 'ijkl']
    ctx = st.pc + [i >= 0, i < Ni, j >= 0, j < Nj, k >= 0, k < Nk, l >= 0, l < Nl]
    p.check('rows are the (j,k) pairs', eq(r.rows, Nj * Nk), st.pc)
    p.check('columns are the (i,l) pairs', eq(r.cols, Ni * Nl), st.pc)
    p.check('every (jk|il) entry is the (ij|kl) entry', eq(r.get(k * Nj + j, l * Ni + i), tei.get(j * Ni + i, l * Nk + k)), ctx)
    # the compound indices are a bijection, so no entry is lost or duplicated and the swapped call inverts
    i2, j2 = fresh('i2', 'I'), fresh('j2', 'I')
    p.check('lemma: compound index determines both indices', and_(eq(i, i2), eq(j, j2)),
            [i >= 0, i < Ni, i2 >= 0, i2 < Ni, j >= 0, j2 >= 0, eq(j * Ni + i, j2 * Ni + i2), Ni > 0])
    p.check('lemma: compound index stays in range', and_(j * Ni + i >= 0, j * Ni + i < Ni * Nj), ctx)
    p.check_throws('exchange_tei', FALSE)
    return p


@proof('C11', 'exchange_tei: tables of the wrong size are rejected', TUU)
def t_exchange_rej(prog):
    f = fnq(prog, 'helfem::utils::exchange_tei')
    p = Proof(prog, 'exchange_tei rejects')
    args = [p.param(f, i) for i in range(5)]
    tei, Ni, Nj, Nk, Nl = args
    p.require(or_(ne(tei.rows, Ni * Nj), ne(tei.cols, Nk * Nl)), Ni > 0, Nj > 0, Nk > 0, Nl > 0)
    p.run(f, None, args)
    p.check_throws('exchange_tei', TRUE)
    p.res.append(R('no normal return', 'throws', p.st.dead, 'exec', 0.0))
    return p


def refs(p, names):
    vs = [var(n, 'I') for n in names]
    return vs, [p.st.new(v, n) for v, n in zip(vs, names)]


@proof('C14', 'parse_nela_nelb from charge and multiplicity', TUS)
def t_parse_qm(prog):
    f = fnq(prog, 'helfem::scf::parse_nela_nelb')
    p = Proof(prog, 'parse_nela_nelb (charge, multiplicity)')
    (Q, M), (rq, rm) = refs(p, ['Q', 'M'])
    a, b = p.st.new(K(0), 'nela'), p.st.new(K(0), 'nelb')
    Z = var('Z', 'I')
    n = Z - Q
    st = None
    p.run(f, None, [a, b, rq, rm, Z])
    st = p.st
    par = lambda x: app('parity', (x,), 'I')
    h = var('h', 'I')
    # possible iff some h >= 0 beta electrons satisfies n = 2h + M - 1, M >= 1
    for pcs, w, loc in p.throws:
        p.check('rejected only if impossible @%s' % short(loc), not_(and_(M >= 1, h >= 0, eq(n, 2 * h + M - 1))), pcs, 'throws')
        p.res.append(R('error type @%s' % short(loc), 'throws', 'runtime_error' in (w or ''), 'exec', 0.0))
    p.res.append(R('some request is accepted', 'ensures', not st.dead, 'exec', 0.0))
    if not st.dead:
        na, nb = a.read(st), b.read(st)
        p.check('counts add up to the number of electrons', eq(na + nb, n), st.pc)
        p.check('counts differ by multiplicity minus one', eq(na - nb, M - 1), st.pc)
        p.check('counts are non-negative, alpha at least beta', and_(nb >= 0, na >= nb), st.pc)
        p.check('charge and multiplicity unchanged', and_(eq(rq.read(st), Q), eq(rm.read(st), M)), st.pc)
    return p


@proof('C14', 'parse_nela_nelb from explicit counts', TUS)
def t_parse_ab(prog):
    f = fnq(prog, 'helfem::scf::parse_nela_nelb')
    p = Proof(prog, 'parse_nela_nelb (explicit counts)')
    (A, B, Q, M), (a, b, rq, rm) = refs(p, ['nela', 'nelb', 'Q', 'M'])
    Z = var('Z', 'I')
    p.require(or_(ne(A, K(0)), ne(B, K(0))))
    p.run(f, None, [a, b, rq, rm, Z])
    st = p.st
    bad = or_(A < B, A < 0, B < 0)
    p.check_throws('parse_nela_nelb', bad)
    p.res.append(R('some request is accepted', 'ensures', not st.dead, 'exec', 0.0))
    if not st.dead:
        p.check('counts unchanged', and_(eq(a.read(st), A), eq(b.read(st), B)), st.pc)
        p.check('charge follows from the counts', eq(rq.read(st), Z - A - B), st.pc)
        p.check('multiplicity follows from the counts', eq(rm.read(st), A - B + 1), st.pc)
    return p


SHELL = [(1, 0), (3, 0), (5, 1), (11, 0), (13, 1), (19, 0), (21, 2), (31, 1), (37, 0), (39, 2), (49, 1), (55, 0), (57, 3), (71, 2), (81, 1), (87, 0), (89, 3), (103, 2), (113, 1)]


@proof('C15', 'num_orbs: every shell started by the atom adds its orbitals (one per |m|<=l)', TUE)
def t_norbs1(prog):
    f = fnq(prog, 'num_orbs', 5)
    out = []
    zs = [z for z, l in SHELL]
    for lo, hi in zip([None] + zs, zs + [None]):
        p = Proof(prog, 'num_orbs %s<=Z<%s' % (lo, hi))
        Z = var('Z', 'I')
        p.require(*([Z >= lo] if lo is not None else []), *([Z < hi] if hi is not None else []))
        v, cells = refs(p, ['s', 'p', 'd', 'f'])
        p.run(f, None, [Z] + cells)
        for m in range(4):
            n = sum(1 for z, l in SHELL if l >= m and lo is not None and z <= lo)
            p.check('orbitals with |m|=%d' % m, eq(cells[m].read(p.st), v[m] + n), p.st.pc)
        p.check_throws('num_orbs', FALSE)
        out.append(p)
    return out


def c_norbs(ex, st, this, args, e):
    Z = ex.rv(args[0], st)
    for m in range(4):
        args[m + 1].write(st, ex.rv(args[m + 1], st) + app('norb', (Z, K(m)), 'I'))
    return None


@proof('C15', 'num_orbs: a diatomic has the orbitals of both atoms, starting from zero', TUE)
def t_norbs2(prog):
    f = fnq(prog, 'num_orbs', 6)
    p = Proof(prog, 'num_orbs of two atoms', contracts={'num_orbs': c_norbs})
    Z1, Z2 = var('Z1', 'I'), var('Z2', 'I')
    v, cells = refs(p, ['s', 'p', 'd', 'f'])
    p.run(f, None, [Z1, Z2] + cells)
    for m in range(4):
        p.check('orbitals with |m|=%d' % m, eq(cells[m].read(p.st), app('norb', (Z1, K(m)), 'I') + app('norb', (Z2, K(m)), 'I')), p.st.pc)
    p.check_throws('num_orbs', FALSE)
    return p


def c_stricmp(ex, st, this, args, e):
    """case-insensitive comparison of the searched symbol with a literal table entry"""
    a, b = [ex.rv(x, st) for x in args]
    lit = b.s if b.s is not None else a.s
    if lit is None:
        raise Unsupported('stricmp of two unknown strings')
    return var('cmp_' + lit.lower(), 'I')


SYM = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe '
       'Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr '
       'Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()


def getz(prog, label, *req):
    f = fnq(prog, 'get_Z')
    cc = {'helfem::utils::stricmp': c_stricmp, 'isalpha': lambda ex, st, this, args, e: var('alpha', 'I'), 'atoi': lambda ex, st, this, args, e: var('number', 'I')}
    p = Proof(prog, 'get_Z ' + label, contracts=cc)
    L, al = var('len_el', 'I'), var('alpha', 'I')
    p.require(L >= 0, *req)
    r, st = p.run(f, None, [Str(None, 'el')])
    return p, r, st


CMP = lambda z: var('cmp_' + SYM[z - 1].lower(), 'I')


@proof('C15', 'get_Z: the number of every element symbol, in either case; other words are rejected; numbers are themselves', TUE)
def t_getz(prog):
    L, al, num = var('len_el', 'I'), var('alpha', 'I'), var('number', 'I')
    out = []
    p, r, st = getz(prog, 'empty', eq(L, K(0)))
    p.check('no nucleus', eq(r, K(0)), st.pc)
    p.check_throws('get_Z', FALSE)
    out.append(p)
    p, r, st = getz(prog, 'number', L > 0, eq(al, K(0)))
    p.check('a number stands for itself', eq(r, num), st.pc)
    p.check_throws('get_Z', FALSE)
    out.append(p)
    for z in range(1, 119):
        p, r, st = getz(prog, SYM[z - 1], L > 0, ne(al, K(0)), eq(CMP(z), K(0)), *[ne(CMP(y), K(0)) for y in range(1, 119) if y != z])
        p.check('the element\'s number', eq(r, K(z)) if r is not None else FALSE, st.pc)
        p.check_throws('get_Z', FALSE)
        out.append(p)
    p, r, st = getz(prog, 'unknown', L > 0, ne(al, K(0)), *[ne(CMP(y), K(0)) for y in range(1, 119)])
    p.check_throws('get_Z', TRUE)
    p.res.append(R('no normal return', 'throws', p.st.dead, 'exec', 0.0))
    out.append(p)
    return out
