"""Radial grid builders."""
from vc import *
from fw import proof

TU = ['libhelfem/src/grid.cpp']
TUB = ['src/atomic/basis.cpp']
G = 'helfem::grid::get_grid'


def fnq(prog, q, npar=None):
    c = [f for f in prog.funcs.values() if f['q'] == q and (npar is None or len(f['params']) == npar)]
    if len(c) != 1:
        raise Unsupported('function %s: %d candidates' % (q, len(c)))
    return c[0]


def grid_run(prog, kind, extra=()):
    f = fnq(prog, G, 5)
    p = Proof(prog, 'get_grid kind %s' % kind)
    rmax, N, z = var('rmax', 'R'), var('num_el', 'I'), var('zexp', 'R')
    p.require(rmax > 0, N >= 1, *[e(rmax, N, z) for e in extra])
    r, st = p.run(f, None, [rmax, N, K(kind), z, var('verbose', 'B')])
    return p, r, st, rmax, N, z


def mk_kind(kind, formula, extra, mono):
    @proof('C07', 'get_grid kind %d: size, end points, formula, strictly increasing' % kind, TU)
    def t(prog):
        p, r, st, rmax, N, z = grid_run(prog, kind, extra)
        i = var('qi', 'I')
        p.check('one more boundary than elements', eq(r.size, N + 1), st.pc)
        p.check('starts exactly at zero', eq(r.get(K(0)), K(0, 'R')), st.pc)
        p.check('ends exactly at rmax', eq(r.get(N), rmax), st.pc)
        p.check('stated formula', eq(r.get(i), formula(i, rmax, N, z)), st.pc + [i >= 0, i <= N])
        mono(p, r, st, i, rmax, N, z)
        p.check_throws('get_grid', FALSE)
        return p
    t.__name__ = 't_grid_%d' % kind
    return t


def inc(formula):
    def f(p, r, st, i, rmax, N, z):
        p.check('lemma: the formula is strictly increasing', formula(i, rmax, N, z) < formula(i + 1, rmax, N, z), st.pc + [i >= 0, i < N])
    return f


def pw(b, e):
    return app('pow', (b, e), 'R')


f1 = lambda i, rm, N, z: rm * i / N
f2 = lambda i, rm, N, z: rm * i * i / (N * N)
f3 = lambda i, rm, N, z: rm * pw(i * div(K(1, 'R'), N), z)
f4 = lambda i, rm, N, z: app('exp', (pw(mul(i, div(pw(app('log', (rm + 1,), 'R'), div(K(1, 'R'), z)), N)), z),), 'R') - 1
zpos = (lambda rm, N, z: z > 0,)
mk_kind(1, f1, (), inc(f1))
mk_kind(2, f2, (), inc(f2))
mk_kind(3, f3, zpos, inc(f3))
mk_kind(4, f4, zpos, inc(f4))


def ip(b, n):
    return mk('powi', (b, lift(n)), 'R')


@proof('C07', 'get_grid kind 5: geometric element lengths, end points, strictly increasing', TU)
def t_grid_5(prog):
    f = fnq(prog, G, 5)
    rmax, N, z = var('rmax', 'R'), var('num_el', 'I'), var('zexp', 'R')
    hN = div(mul(K(1) - z, rmax), K(1) - ip(z, N))

    def hk(k, a, init):
        return ite(and_(a[0] > k, a[0] <= N - 1), mul(hN, ip(z, N - 1 - a[0])), init(a))

    def bv(k, a, init):
        return ite(and_(a[0] >= 0, a[0] <= k), mul(hN, div(sub(ip(z, N - a[0]), ip(z, N)), K(1) - z)), init(a))
    hk.ar = bv.ar = 1
    p = Proof(prog, 'get_grid kind 5', candidates=[[hk], [bv]])
    p.require(rmax > 0, N >= 1, z > 0, z < 1)
    r, st = p.run(f, None, [rmax, N, K(5), z, var('verbose', 'B')])
    i = var('qi', 'I')
    form = lambda i: div(mul(rmax, sub(ip(z, N - i), ip(z, N))), K(1) - ip(z, N))
    p.check('one more boundary than elements', eq(r.size, N + 1), st.pc)
    p.check('starts exactly at zero', eq(r.get(K(0)), K(0, 'R')), st.pc)
    p.check('ends exactly at rmax', eq(r.get(N), rmax), st.pc)
    p.check('boundary i is the geometric sum', eq(r.get(i), form(i)), st.pc + [i >= 0, i <= N])
    c = st.pc + [i >= 0, i < N]
    d = div(mul(rmax, ip(z, N - i - 1), K(1) - z), K(1) - ip(z, N))
    p.check('element i has length z^(N-1-i) times the last one', eq(form(i + 1) - form(i), d), c)
    p.check('lemma: z^N < 1', K(1) - ip(z, N) > 0, c)
    p.check('lemma: z^(N-1-i) > 0', ip(z, N - i - 1) > 0, c)
    a, b, e = [var(n, 'R') for n in 'abe']
    p.check('lemma: quotient of positive factors is positive', div(mul(rmax, a, b), e) > 0, [rmax > 0, a > 0, b > 0, e > 0])
    p.check_throws('get_grid', FALSE)
    return p


def mk_reject(label, cond):
    @proof('C07', 'get_grid rejects ' + label, TU)
    def t(prog):
        f = fnq(prog, G, 5)
        p = Proof(prog, 'get_grid rejects ' + label)
        rmax, N, z, g = var('rmax', 'R'), var('num_el', 'I'), var('zexp', 'R'), var('igrid', 'I')
        p.require(rmax > 0, N >= 1, cond(g, z))
        p.run(f, None, [rmax, N, g, z, var('verbose', 'B')])
        p.check_throws('get_grid', TRUE)
        p.res.append(R('no normal return', 'throws', p.st.dead, 'exec', 0.0))
        return p
    t.__name__ = 't_grid_rej_' + label.split()[0]
    return t


mk_reject('unknown kinds', lambda g, z: or_(g < 1, g > 5))
mk_reject('geometric ratio outside (0,1)', lambda g, z: and_(eq(g, K(5)), or_(z <= 0, z >= 1)))


def c_grid(ex, st, this, args, e):
    """get_grid, as proved above: N+1 boundaries from exactly 0 to exactly rmax, strictly increasing"""
    rmax, N, g, z = [ex.rv(a, st) for a in args[:4]]
    ex.need(N >= 1, st, 'contract-req', 'get_grid: at least one element')
    ex.need(rmax > 0, st, 'contract-req', 'get_grid: positive end')
    st.pc = st.pc + grid_facts(rmax, N, g, z)
    return Mat(N + 1, K(1), lambda i, j: gridv(rmax, N, g, z, i), 'R', True, '')


def gridv(rmax, N, g, z, i):
    return app('grid', (rmax, N, g, z, i), 'R')


def grid_facts(rmax, N, g, z):
    q = fresh('q', 'I')
    return [eq(gridv(rmax, N, g, z, K(0)), K(0, 'R')), eq(gridv(rmax, N, g, z, N), rmax),
            forall([q], implies(and_(q >= 0, q < N), gridv(rmax, N, g, z, q) < gridv(rmax, N, g, z, q + 1)))]


GC = {'helfem::utils::get_grid': c_grid, G: c_grid}
B = 'helfem::atomic::basis::'


def veca(p, name, n):
    return Mat(n, K(1), lambda i, j: app(name, (i,), 'R'), 'R', True, '')


@proof('C07', 'concatenate_grid: the second grid continues where the first one ends', TUB)
def t_concat(prog):
    f = fnq(prog, B + 'concatenate_grid', 2)
    p = Proof(prog, 'concatenate_grid')
    n, m = var('n', 'I'), var('m', 'I')
    a, b = veca(p, 'left', n), veca(p, 'right', m)
    p.require(n >= 1, m >= 1, eq(a.get(K(0)), K(0, 'R')), eq(b.get(K(0)), K(0, 'R')))
    r, st = p.run(f, None, [a, b])
    i = var('qi', 'I')
    p.check('no repeated boundary', eq(r.size, n + m - 1), st.pc)
    p.check('left part unchanged', eq(r.get(i), a.get(i)), st.pc + [i >= 0, i < n])
    p.check('right part shifted by the end of the left one', eq(r.get(n - 1 + i), b.get(i) + a.get(n - 1)), st.pc + [i >= 0, i < m])
    p.check_throws('concatenate_grid', FALSE)
    return p


def shape_checks(p, r, st, N, rmax, parts, name):
    """parts: list of (offset index, offset value, number of elements, grid value function)"""
    i = var('qi', 'I')
    p.check('%s: boundary count' % name, eq(r.size, N + 1), st.pc)
    p.check('%s: starts exactly at zero' % name, eq(r.get(K(0)), K(0, 'R')), st.pc)
    p.check('%s: ends at rmax' % name, eq(r.get(N), rmax), st.pc)
    for k, (oi, ov, n, g) in enumerate(parts):
        p.check('%s: part %d is its own grid, shifted' % (name, k), eq(r.get(oi + i), ov + g(i)), st.pc + [i >= 0, i <= n])
    p.check_throws(name, FALSE)


@proof('C07', 'finite_nuclear_grid: nuclear grid twice, then the electron grid, ending at rmax', TUB)
def t_finite(prog):
    f = fnq(prog, B + 'finite_nuclear_grid', 8)
    out = []
    rmax, rn, z, zn = [var(n, 'R') for n in ('rmax', 'rnuc', 'zexp', 'zexp_nuc')]
    N, Nn, g, gn = [var(n, 'I') for n in ('num_el', 'num_el_nuc', 'igrid', 'igrid_nuc')]
    p = Proof(prog, 'finite_nuclear_grid with nuclear elements', GC)
    p.require(rn > 0, rmax > 2 * rn, N >= 1, Nn >= 1)
    r, st = p.run(f, None, [N, rmax, g, z, Nn, rn, gn, zn])
    i = var('qi', 'I')
    p.check('starts exactly at zero', eq(r.get(K(0)), K(0, 'R')), st.pc)
    p.check('ends at rmax', eq(r.get(r.size - 1), rmax), st.pc)
    p.check('strictly increasing', r.get(i) < r.get(i + 1), st.pc + [i >= 0, i + 1 < r.size])
    p.check('nuclear elements come first, as requested', eq(r.get(i), gridv(rn, Nn, gn, zn, i)), st.pc + [i >= 0, i <= Nn])
    p.check_throws('finite_nuclear_grid', FALSE)
    out.append(p)
    p = Proof(prog, 'finite_nuclear_grid without nuclear elements', GC)
    p.require(rmax > 0, N >= 1)
    r, st = p.run(f, None, [N, rmax, g, z, K(0), rn, gn, zn])
    shape_checks(p, r, st, N, rmax, [(K(0), K(0), N, lambda i: gridv(rmax, N, g, z, i))], 'finite_nuclear_grid')
    out.append(p)
    return out


@proof('C07', 'offcenter_nuclear_grid: boundary at every charge, ending at rmax', TUB)
def t_off(prog):
    f = fnq(prog, B + 'offcenter_nuclear_grid', 8)
    out = []
    rmax, Rh, z = [var(n, 'R') for n in ('rmax', 'Rhalf', 'zexp')]
    N, N0, g, Zm, Zl = [var(n, 'I') for n in ('num_el', 'num_el0', 'igrid', 'Zm', 'Zlr')]
    for lab, cond in (('central and off-centre charges', [Zm >= 1, Zl >= 1]), ('off-centre charges only', [eq(Zm, K(0)), Zl >= 1])):
        p = Proof(prog, 'offcenter_nuclear_grid: ' + lab, GC)
        p.require(Rh > 0, rmax > Rh, N >= 1, N0 >= 1, *cond)
        r, st = p.run(f, None, [N0, Zm, Zl, Rh, N, rmax, g, z])
        i = var('qi', 'I')
        p.check('starts exactly at zero', eq(r.get(K(0)), K(0, 'R')), st.pc)
        p.check('ends at rmax', eq(r.get(r.size - 1), rmax), st.pc)
        n0 = 2 * N0 if 'central' in lab else N0
        p.check('boundary at the off-centre charge', eq(r.get(n0 if isinstance(n0, Term) else lift(n0)), Rh), st.pc)
        p.check('boundary count', eq(r.size, n0 + N + 1), st.pc)
        p.check_throws('offcenter_nuclear_grid', FALSE)
        out.append(p)
    return out


def c_abs(tag, size):
    def c(ex, st, this, args, e):
        vs = tuple(ex.rv(a, st) for a in args)
        n = app('n.' + tag, vs, 'I')
        q, u = fresh('q', 'I'), fresh('u', 'I')
        g = lambda i: app(tag, vs + (i,), 'R')
        st.pc = st.pc + [n >= 2, eq(g(K(0)), K(0, 'R')), forall([q, u], implies(and_(q >= 0, q < u, u < n), g(q) < g(u)))]
        return Mat(n, K(1), lambda i, j: g(i), 'R', True, '')
    return c


FGC = {B + 'finite_nuclear_grid': c_abs('fin', 8), B + 'offcenter_nuclear_grid': c_abs('off', 8), B + 'normal_grid': c_abs('nor', 4),
       'helfem::io::print_matrix': lambda ex, st, this, args, e: None}
FARGS = [('model', 'I'), ('Rrms', 'R'), ('Nelem', 'I'), ('Rmax', 'R'), ('igrid', 'I'), ('zexp', 'R'), ('Nelem0', 'I'), ('igrid0', 'I'), ('zexp0', 'R'),
         ('Z', 'I'), ('Zl', 'I'), ('Zr', 'I'), ('Rhalf', 'R'), ('add_el', 'B'), ('shift_conf', 'R')]
FIXED = {'GAUSSIAN_NUCLEUS': lambda R: 3 * R, 'SPHERICAL_NUCLEUS': lambda R: mul(app('sqrt', (K(Fraction(5, 3), 'R'),), 'R'), R), 'HOLLOW_NUCLEUS': lambda R: R}


def enumval(prog, name):
    v = prog.enum(name)
    if v is None:
        raise Unsupported('enumerator ' + name)
    return K(v)


def fg(prog, label, model, cond, add_el, full=True):
    f = fnq(prog, B + 'form_grid', 15 if full else 13)
    p = Proof(prog, 'form_grid: ' + label, FGC)
    v = {n: var(n, s) for n, s in FARGS}
    v['model'] = lift(model)
    v['add_el'] = TRUE if add_el else FALSE
    for c in cond(v):
        p.require(c)
    r, st = p.run(f, None, [v[n] for n, s in FARGS][:15 if full else 13])
    return p, v, r, st


def same(p, r, st, tag, vs):
    i = var('qi', 'I')
    n = app('n.' + tag, vs, 'I')
    p.check('size of the underlying grid', eq(r.size, n), st.pc)
    p.check('is the underlying grid', eq(r.get(i), app(tag, vs + (i,), 'R')), st.pc + [i >= 0, i < n])
    p.check_throws('form_grid', FALSE)


@proof('C07', 'form_grid dispatch and nuclear radii', TUB)
def t_form(prog):
    out = []
    nor = lambda v: (v['Nelem'], v['Rmax'], v['igrid'], v['zexp'])
    nz = lambda v: [eq(v['Zl'], K(0)), eq(v['Zr'], K(0))]
    for full in (True, False):
        for m in ('POINT_NUCLEUS', 'REGULARIZED_NUCLEUS'):
            p, v, r, st = fg(prog, m + ' on centre', enumval(prog, m), nz, False, full)
            same(p, r, st, 'nor', nor(v))
            out.append(p)
            p, v, r, st = fg(prog, m + ' off centre', enumval(prog, m), lambda v: [or_(ne(v['Zl'], K(0)), ne(v['Zr'], K(0)))], False, full)
            mx = ite(v['Zl'] < v['Zr'], v['Zr'], v['Zl'])
            same(p, r, st, 'off', (v['Nelem0'], v['Z'], mx, v['Rhalf'], v['Nelem'], v['Rmax'], v['igrid'], v['zexp']))
            out.append(p)
        for m, rn in FIXED.items():
            p, v, r, st = fg(prog, m, enumval(prog, m), nz, False, full)
            same(p, r, st, 'fin', (v['Nelem'], v['Rmax'], v['igrid'], v['zexp'], v['Nelem0'], rn(v['Rrms']), v['igrid0'], v['zexp0']))
            out.append(p)
            p, v, r, st = fg(prog, m + ' off centre', enumval(prog, m), lambda v: [or_(ne(v['Zl'], K(0)), ne(v['Zr'], K(0)))], False, full)
            p.res.append(R('rejected', 'throws', p.st.dead, 'exec', 0.0))
            out.append(p)
    return out


@proof('C07', 'form_grid inserts the confinement radius as a boundary', TUB)
def t_form_add(prog):
    p, v, nb, st = fg(prog, 'with confinement radius', enumval(prog, 'POINT_NUCLEUS'), lambda v: [eq(v['Zl'], K(0)), eq(v['Zr'], K(0))], True)
    vs = (v['Nelem'], v['Rmax'], v['igrid'], v['zexp'])
    r0 = v['shift_conf']
    n0, g = app('n.nor', vs, 'I'), lambda i: app('nor', vs + (i,), 'R')
    i, j, k, t = [fresh(x, 'I') for x in 'ijkt']
    present = exists([t], and_(t >= 0, t < n0, eq(g(t), r0)))
    p.check('size grows by one exactly when the radius is new', eq(nb.size, ite(present, n0, n0 + 1)), st.pc)
    p.check('strictly increasing', nb.get(i) < nb.get(j), st.pc + [i >= 0, i < j, j < nb.size])
    p.check('old boundaries kept', exists([t], and_(t >= 0, t < nb.size, eq(nb.get(t), g(i)))), st.pc + [i >= 0, i < n0])
    p.check('new boundary present', exists([t], and_(t >= 0, t < nb.size, eq(nb.get(t), r0))), st.pc)
    p.check('nothing else inserted', or_(eq(nb.get(k), r0), exists([t], and_(t >= 0, t < n0, eq(nb.get(k), g(t))))), st.pc + [k >= 0, k < nb.size])
    p.check_throws('form_grid', FALSE)
    return p
