"""Angular channels, basis-function index lists and radial blocks (C16)."""
from vc import *
from fw import proof

AT = ['src/atomic/TwoDBasis.cpp']
DI = ['src/diatomic/basis.cpp']
AB = ['src/atomic/basis.cpp']
AR = 'helfem::atomic::basis::TwoDBasisT<double>'
DR = 'helfem::diatomic::basis::TwoDBasis'
UL = 'unsigned long'
NA, NR = var('nang', 'I'), var('nrad', 'I')
LV = Mat(NA, K(1), lambda i, j: app('lval', (i,), 'I'), 'I', True)
MV = Mat(NA, K(1), lambda i, j: app('mval', (i,), 'I'), 'I', True)


def meth(prog, rec, name, *pt):
    c = []
    for f in prog.funcs.values():
        if f.get('rec') != rec or f['n'] != name:
            continue
        ts = [f['_ty'][q['t']]['s'] for q in f['params']]
        if len(ts) == len(pt) and all((a == t) if a in ('double', 'int', 'bool') else a in t for a, t in zip(pt, ts)):
            c.append(f)
    if len(c) != 1:
        raise Unsupported('method %s::%s: %d candidates' % (rec, name, len(c)))
    return c[0]


def cls(prog, rec, label, extra=None, candidates=None):
    con = {'FEMRadialBasisT::Nbf': lambda ex, st, this, a, e: NR, 'RadialBasis::Nbf': lambda ex, st, this, a, e: NR}
    con.update(extra or {})
    p = Proof(prog, label, contracts=con, candidates=candidates)
    p.o = p.obj(rec, 'tb')
    p.o.fields['lval'] = LV
    p.o.fields['mval'] = MV
    p.lv = p.st.new(p.o, 'tb')
    p.require(NA >= 0, NR >= 1)
    return p


def b2i(c): return ite(c, K(1), K(0))


def kinds(rec):
    if rec == AR:
        return lambda i: NR, lambda i: i * NR
    sz = lambda i: ite(eq(MV.get(i), 0), NR, NR - 1)

    def start(i):
        t = fresh('t', 'I')
        return sum_(t, K(0), i, sz(t))
    return sz, start


def indices(p, f, args, match, size, start):
    r, st = p.run(f, p.lv, args)
    p.check_throws(f['n'], FALSE)
    t, i, k = fresh('t', 'I'), fresh('i', 'I'), fresh('k', 'I')

    def off(i):
        t = fresh('t', 'I')
        return sum_(t, K(0), i, ite(match(t), size(t), K(0)))
    p.check('one entry per function of the matching shells', eq(r.size, off(NA)), st.pc)
    rg = [i >= 0, i < NA, match(i), k >= 0, k < size(i)]
    p.check('entries are the functions of the matching shells, in order', eq(r.get(off(i) + k), start(i) + k), st.pc + rg)


@proof('C16', 'index lists of one m, of one (l,m): the functions of the matching shells, each once', AT)
def t_at_indices(prog):
    out = []
    m, l = var('m', 'I'), var('l', 'I')
    size, start = kinds(AR)
    p = cls(prog, AR, 'm_indices(m)')
    indices(p, meth(prog, AR, 'm_indices', 'int'), [m], lambda i: eq(MV.get(i), m), size, start)
    out.append(p)
    p = cls(prog, AR, 'lm_indices(l,m)')
    indices(p, meth(prog, AR, 'lm_indices', 'int', 'int'), [l, m], lambda i: and_(eq(MV.get(i), m), eq(LV.get(i), l)), size, start)
    out.append(p)
    return out


@proof('C16', 'diatomic index lists of one m, of one m and parity: the functions of the matching shells, each once', DI)
def t_di_indices(prog):
    out = []
    m, odd = var('m', 'I'), var('odd', 'B')
    size, start = kinds(DR)
    p = cls(prog, DR, 'm_indices(m)')
    indices(p, meth(prog, DR, 'm_indices', 'int'), [m], lambda i: eq(MV.get(i), m), size, start)
    out.append(p)
    return out


@proof('C16', 'angular channels: every (l,m) with |m| <= min(l, mmax), l <= lmax once', AB)
def t_channels(prog):
    fs = [f for f in prog.funcs.values() if f['q'] == 'helfem::atomic::basis::angular_basis']
    if len(fs) != 1:
        raise Unsupported('angular_basis')
    lmax, mmax = var('lmax', 'I'), var('mmax', 'I')
    p = Proof(prog, 'angular_basis')
    p.require(mmax >= 0, mmax <= lmax)
    lv = p.st.new(Mat(K(0), K(1), lambda i, j: K(0), 'I', True), 'lval')
    mv = p.st.new(Mat(K(0), K(1), lambda i, j: K(0), 'I', True), 'mval')
    r, st = p.run(fs[0], None, [lmax, mmax, lv, mv])
    p.check_throws('angular_basis', FALSE)
    lval, mval = lv.read(st), mv.read(st)

    def off(m):
        t = fresh('t', 'I')
        return sum_(t, K(0), m, (lmax + 1 - t) * ite(t >= 1, K(2), K(1)))
    p.check('as many channels as pairs (l,m)', and_(eq(lval.size, off(mmax + 1)), eq(mval.size, off(mmax + 1))), st.pc)
    m, l = fresh('m', 'I'), fresh('l', 'I')
    rg = [m >= 1, m <= mmax, l >= m, l <= lmax]
    x = off(m) + 2 * (l - m)
    p.check('l of channel (l,m), m>0', eq(lval.get(x), l), st.pc + rg)
    p.check('m of channel (l,m), m>0', eq(mval.get(x), m), st.pc + rg)
    p.check('l of channel (l,-m), m>0', eq(lval.get(x + 1), l), st.pc + rg)
    p.check('m of channel (l,-m), m>0', eq(mval.get(x + 1), -m), st.pc + rg)
    p.check('l of channel (l,0)', eq(lval.get(l), l), st.pc + [l >= 0, l <= lmax])
    p.check('m of channel (l,0)', eq(mval.get(l), 0), st.pc + [l >= 0, l <= lmax])
    return p


@proof('C16', 'diatomic index lists of one m and parity', DI)
def t_di_parity(prog):
    out = []
    size, start = kinds(DR)
    m = var('m', 'I')
    for odd in (0, 1):
        p = cls(prog, DR, 'm_indices(m, %s)' % ('odd' if odd else 'even'))
        t = fresh('t', 'I')
        p.require(forall([t], LV.get(t) >= 0))
        indices(p, meth(prog, DR, 'm_indices', 'int', 'bool'), [m, lift(bool(odd))], lambda i: and_(eq(MV.get(i), m), eq(imod(LV.get(i), K(2)), odd)), size, start)
        out.append(p)
    return out


@proof('C16', 'real functions of the diatomic basis: the first radial function is dropped for m != 0 and nothing else', DI)
def t_di_pure(prog):
    size, start = kinds(DR)
    out = []
    p = cls(prog, DR, 'Nbf')
    r, st = p.run(meth(prog, DR, 'Nbf'), p.lv, [])
    p.check('sum of the shell sizes', eq(r, start(NA)), st.pc)
    out.append(p)
    p = cls(prog, DR, 'Ndummy')
    r, st = p.run(meth(prog, DR, 'Ndummy'), p.lv, [])
    p.check('all radial functions of all shells', eq(r, NA * NR), st.pc)
    out.append(p)
    p = cls(prog, DR, 'pure_indices', extra={DR + '::Nbf': lambda ex, st, this, a, e: start(NA)})
    r, st = p.run(meth(prog, DR, 'pure_indices'), p.lv, [])
    p.check_throws('pure_indices', FALSE)
    p.check('one entry per real function', eq(r.size, start(NA)), st.pc)
    i, k = fresh('i', 'I'), fresh('k', 'I')
    rg = [i >= 0, i < NA, k >= 0, k < size(i)]
    p.check('function k of shell i', eq(r.get(start(i) + k), i * NR + k + ite(eq(MV.get(i), 0), K(0), K(1))), st.pc + rg)
    out.append(p)
    return out


def c_idx(ex, st, this, args, e):
    iel = ex.rv(args[0], st)
    ex.need(eq(iel, var('iel', 'I')), st, 'pre', 'the index range asked for is that of the element given')
    a, n = var('first', 'I'), var('count', 'I')
    st.pc = st.pc + [a >= 0, n >= 1, a + n <= NR]
    b = a + n - 1
    args[1].write(st, a)
    args[2].write(st, b)


def bflist(prog, rec, name):
    p = cls(prog, rec, name, extra={'FEMRadialBasisT::get_idx': c_idx, 'RadialBasis::get_idx': c_idx})
    v = var('iel', 'I')
    p.require(v >= 0)
    r, st = p.run(meth(prog, rec, name, UL), p.lv, [v])
    p.check_throws(name, FALSE)
    n = var('count', 'I')
    i, k = fresh('i', 'I'), fresh('k', 'I')
    p.check('one entry per shell and radial function of the element', eq(r.size, NA * n), st.pc)
    p.check('radial function k of the element in shell i', eq(r.get(i * n + k), i * NR + var('first', 'I') + k), st.pc + [i >= 0, i < NA, k >= 0, k < n])
    return p


@proof('C16', 'functions of one element: every shell, every radial function of the element', AT)
def t_at_bflist(prog):
    p = cls(prog, AR, 'Ndummy')
    r, st = p.run(meth(prog, AR, 'Ndummy'), p.lv, [])
    p.check('all radial functions of all shells', eq(r, NA * NR), st.pc)
    q = cls(prog, AR, 'Nbf')
    r, st = q.run(meth(prog, AR, 'Nbf'), q.lv, [])
    q.check('all radial functions of all shells', eq(r, NA * NR), st.pc)
    return [p, q, bflist(prog, AR, 'bf_list')]


@proof('C16', 'functions of one element (diatomic, before the boundary functions are dropped)', DI)
def t_di_bflist(prog):
    out = [bflist(prog, DR, 'bf_list_dummy')]
    return out


def subs(prog, rec):
    out = []
    for nm in ('set_sub', 'add_sub'):
        p = cls(prog, rec, nm)
        ia, ja = var('iang', 'I'), var('jang', 'I')
        p.require(ia >= 0, ia < NA, ja >= 0, ja < NA)
        n = NA * NR
        P.declare('M0', 'I', 'I')
        P.declare('MR', 'I', 'I')
        m = p.st.new(Mat(n, n, lambda i, j: app('M0', (i, j), 'R')), 'M')
        mr = Mat(NR, NR, lambda i, j: app('MR', (i, j), 'R'))
        r, st = p.run(meth(prog, rec, nm, 'Matrix', UL, UL, 'Matrix'), p.lv, [m, ia, ja, mr])
        p.check_throws(nm, FALSE)
        o = m.read(st)
        i, j, k, l = [fresh(x, 'I') for x in 'ijkl']
        rg = [and_(k >= 0, k < NR, l >= 0, l < NR, i >= 0, j >= 0, i < NA, j < NA)]
        x, y = i * NR + k, j * NR + l
        new = app('MR', (k, l), 'R') + (app('M0', (x, y), 'R') if nm == 'add_sub' else 0)
        same = and_(eq(i, ia), eq(j, ja))
        p.check('the block of the two shells is %s' % ('replaced' if nm == 'set_sub' else 'increased'), eq(o.get(x, y), new), st.pc + rg + [same])
        p.check('other blocks keep their values', eq(o.get(x, y), app('M0', (x, y), 'R')), st.pc + rg + [not_(same)])
        p.check('size unchanged', and_(eq(o.rows, n), eq(o.cols, n)), st.pc)
        out.append(p)
    return out


@proof('C16', 'radial blocks of two shells are written to their own rows and columns only', AT)
def t_at_sub(prog):
    return subs(prog, AR)


@proof('C16', 'radial blocks of two shells are written to their own rows and columns only (diatomic)', DI)
def t_di_sub(prog):
    return subs(prog, DR)


@proof('C16', 'boundary functions are removed from and restored to matrices at the positions of the real functions', DI)
def t_di_boundaries(prog):
    out = []
    P.declare('M0', 'I', 'I')
    n = var('npure', 'I')
    pure = lambda i: app('pure', (i,), 'I')

    def setup(label):
        p = cls(prog, DR, label)
        p.o.fields['pure_idx'] = SVec(n, pure, ('int',))
        p.lv.write(p.st, p.o)
        t, s = fresh('t', 'I'), fresh('s', 'I')
        p.require(n >= 0, forall([t], implies(and_(t >= 0, t < n), and_(pure(t) >= 0, pure(t) < NA * NR))),
                  forall([t, s], implies(and_(t >= 0, t < n, s >= 0, s < n, ne(t, s)), ne(pure(t), pure(s)))))
        return p
    N = NA * NR
    p = setup('remove_boundaries')
    M0 = lambda a, b: Mat(a, b, lambda i, j: app('M0', (i, j), 'R'))
    r, st = p.run(meth(prog, DR, 'remove_boundaries', 'Matrix'), p.lv, [M0(N, N)])
    p.check_throws('remove_boundaries', FALSE)
    i, j = fresh('i', 'I'), fresh('j', 'I')
    rg = [i >= 0, j >= 0, i < n, j < n]
    p.check('entry of the two real functions', eq(r.get(i, j), app('M0', (pure(i), pure(j)), 'R')), st.pc + rg)
    p.check('size', and_(eq(r.rows, n), eq(r.cols, n)), st.pc)
    out.append(p)
    p = setup('expand_boundaries')
    r, st = p.run(meth(prog, DR, 'expand_boundaries', 'Matrix'), p.lv, [M0(n, n)])
    p.check_throws('expand_boundaries', FALSE)
    p.check('size', and_(eq(r.rows, N), eq(r.cols, N)), st.pc)
    p.check('entry of the two real functions', eq(r.get(pure(i), pure(j)), app('M0', (i, j), 'R')), st.pc + rg)
    t = fresh('t', 'I')
    nb = forall([t], implies(and_(t >= 0, t < n), ne(pure(t), i)))
    p.check('zero for boundary functions (rows)', eq(r.get(i, j), 0), st.pc + [i >= 0, i < N, j >= 0, j < N, nb])
    p.check('zero for boundary functions (columns)', eq(r.get(j, i), 0), st.pc + [i >= 0, i < N, j >= 0, j < N, nb])
    out.append(p)
    for nm, ok in (('remove_boundaries', N), ('expand_boundaries', n)):
        p = setup(nm + ' of a wrong size')
        a, b = var('rows', 'I'), var('cols', 'I')
        p.require(a >= 0, b >= 0, or_(ne(a, ok), ne(b, ok)))
        p.run(meth(prog, DR, nm, 'Matrix'), p.lv, [M0(a, b)])
        p.check_throws(nm, TRUE, 'logic_error')
        out.append(p)
    return out


def lists_contract(tag, nargs):
    """contract of the per-channel index lists (proved above): an abstract list per argument tuple"""
    def c(ex, st, this, a, e):
        xs = tuple(ex.rv(x, st) for x in a)
        n = app('N' + tag, xs, 'I')
        st.pc = st.pc + [n >= 0]
        return SVec(n, lambda i: app('L' + tag, xs + (i,), 'I'), ('sc', 'I'))
    return c


def blocks(prog, rec):
    out = []
    nb = var('nbf', 'I')
    con = {rec + '::Nbf': lambda ex, st, this, a, e: nb, 'TwoDBasisT::Nbf': lambda ex, st, this, a, e: nb, 'TwoDBasis::Nbf': lambda ex, st, this, a, e: nb}
    f = meth(prog, rec, 'get_sym_idx', 'int')
    p = cls(prog, rec, 'get_sym_idx(0)', extra=con)
    p.require(nb >= 0)
    r, st = p.run(f, p.lv, [K(0)])
    p.check_throws('get_sym_idx', FALSE)
    i = fresh('i', 'I')
    b = r.get(K(0))
    p.check('one block', eq(r.size, 1), st.pc)
    p.check('as long as the basis', eq(b.size, nb), st.pc)
    p.check('holding every function in order', eq(b.get(i), i), st.pc + [i >= 0, i < nb])
    out.append(p)
    return out


@proof('C16', 'without symmetry there is one block holding every function once; (l,m) symmetry has one block per channel', AT)
def t_at_blocks(prog):
    out = blocks(prog, AR)
    p = cls(prog, AR, 'get_sym_idx(2)', extra={'TwoDBasisT::lm_indices': lists_contract('lm', 2)})
    r, st = p.run(meth(prog, AR, 'get_sym_idx', 'int'), p.lv, [K(2)])
    p.check_throws('get_sym_idx', FALSE)
    i, k = fresh('i', 'I'), fresh('k', 'I')
    xs = (LV.get(i), MV.get(i))
    rg = [i >= 0, i < NA]
    p.check('one block per channel', eq(r.size, NA), st.pc)
    p.check('block i has as many functions as the channel', eq(r.get(i).size, app('Nlm', xs, 'I')), st.pc + rg)
    p.check('block i holds the functions of channel i', eq(r.get(i).get(k), app('Llm', xs + (k,), 'I')), st.pc + rg + [k >= 0, k < app('Nlm', xs, 'I')])
    out.append(p)
    return out


@proof('C16', 'diatomic blocks: one for everything, or one per |m| with its mirror of opposite m', DI)
def t_di_blocks(prog):
    out = blocks(prog, DR)
    am = var('absm', 'I')
    con = {'TwoDBasis::m_indices': lists_contract('m', 1), 'TwoDBasis::absm_max': lambda ex, st, this, a, e: am}
    for nm, sg in (('get_sym_idx', 1), ('get_sym_mirror_idx', -1)):
        p = cls(prog, DR, nm + '(3)', extra=con)
        p.require(am >= 0)
        r, st = p.run(meth(prog, DR, nm, 'int'), p.lv, [K(3)])
        p.check_throws(nm, FALSE)
        i, k = fresh('i', 'I'), fresh('k', 'I')
        rg = [i >= (0 if sg > 0 else 1), i <= am]
        n = app('Nm', (i * sg,), 'I')
        p.check('one list per |m|', eq(r.size, am + 1), st.pc)
        p.check('list of |m| is as long as the functions with that %s' % ('m' if sg > 0 else 'negative m'), eq(r.get(i).size, n), st.pc + rg)
        p.check('list of |m| holds those functions', eq(r.get(i).get(k), app('Lm', (i * sg, k), 'I')), st.pc + rg + [k >= 0, k < n])
        if sg < 0:
            p.check('m = 0 has no mirror', eq(r.get(K(0)).size, 0), st.pc)
        out.append(p)
    return out


@proof('C16', 'largest |m| of the diatomic channels', DI)
def t_absm(prog):
    p = cls(prog, DR, 'absm_max')
    p.require(NA >= 1)
    r, st = p.run(meth(prog, DR, 'absm_max'), p.lv, [])
    p.check_throws('absm_max', FALSE)
    i, k = fresh('i', 'I'), fresh('k', 'I')
    a = lambda x: ite(x < 0, -x, x)
    m = lambda i: MV.get(i)
    p.check('no channel has a larger |m|', a(m(i)) <= r, st.pc + [i >= 0, i < NA])
    p.check('some channel has it', exists([k], and_(k >= 0, k < NA, eq(a(m(k)), r))), st.pc)
    return p
