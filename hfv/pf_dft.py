"""Exchange-correlation quadrature: dftgrid_common.{h,cpp} and the four grid workers."""
from vc import *
from exec import PI_DIGITS
from fw import proof

TC = ['src/general/dftgrid_common.cpp']
TS = ['src/sadatom/dftgrid.cpp']
TA = ['src/atomic/dftgrid.cpp']
TD = ['src/diatomic/dftgrid.cpp']
TP = ['src/diatomic/dftgrid_purem.cpp']
C = 'helfem::dftgrid_common::'
W = C + 'DFTGridWorkerBase'
R0 = K(0, 'R')


def get(prog, q, **kw):
    return prog.find(q, **kw)


def free(prog, n, need=''):
    c = [f for f in prog.funcs.values() if f['q'].split('<')[0] == n and need in ' '.join(f['_ty'][q['t']]['s'] for q in f['params'])]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (n, len(c)))
    return c[0]


def cell(p, v, name):
    return p.st.new(v, name)


def mat(n, r, c):
    P.declare(n, 'I', 'I')
    return Mat(r, c, lambda a, b: app(n, (lift(a), lift(b)), 'R'))


def vec(n, r):
    P.declare(n, 'I')
    return Mat(r, K(1), lambda a, b: app(n, (lift(a),), 'R'), vec=True)


def psum(n, f):
    j = fresh('j', 'I')
    return sum_(j, K(0), n, f(j))


def body(prog, name, sizes, mats, spec, need=''):
    """run an increment function on a fresh H; sizes: extra requirements; spec(x,y) the added value"""
    p = Proof(prog, name)
    f = free(prog, C + name if '::' not in name else name, need)
    return p, f


def finish(p, st, Hc, H0, spec, label, nb, alt=None):
    x, y = fresh('x', 'I'), fresh('y', 'I')
    H = Hc.read(st)
    p.check('size of H unchanged', and_(eq(H.rows, nb), eq(H.cols, nb)), st.pc)
    g = [eq(H.get(x, y), H0.get(x, y) + s(x, y)) for s in ([spec] + list(alt or []))]
    p.check_any(label, g, st.pc + [x >= 0, x < nb, y >= 0, y < nb], timeout=20.0)
    return p


NB, NP = var('nb', 'I'), var('np', 'I')


def s_lda(v, a, b=None):
    return lambda x, y: psum(NP, lambda j: v.get(j, 0) * a.get(x, j) * a.get(y, j)) + (psum(NP, lambda j: v.get(j, 0) * b.get(x, j) * b.get(y, j)) if b else R0)


def std(prog, name, mats, need=''):
    p = Proof(prog, name)
    p.require(NB >= 0, NP >= 0)
    f = free(prog, C + name, need)
    H0 = mat('H0', NB, NB)
    Hc = cell(p, H0, 'H')
    return p, f, H0, Hc


@proof('C22', 'increment_lda_split adds sum_j v_j (a_j a_j^T + b_j b_j^T) to H', TC)
def t_lda_split(prog):
    p, f, H0, Hc = std(prog, 'increment_lda_split', 0)
    v, a, b = vec('v', NP), mat('a', NB, NP), mat('b', NB, NP)
    _, st = p.run(f, None, [Hc, cell(p, v, 'v'), cell(p, a, 'a'), cell(p, b, 'b')])
    p.check_throws('increment_lda_split', FALSE)
    return finish(p, st, Hc, H0, s_lda(v, a, b), 'H + sum_j v_j (a_j a_j^T + b_j b_j^T)', NB)


@proof('C22', 'increment_lda_split refuses potential values that do not match the grid', TC)
def t_lda_split_t(prog):
    p = Proof(prog, 'increment_lda_split')
    na, nbp, nv = var('na', 'I'), var('nbp', 'I'), var('nv', 'I')
    p.require(NB >= 0, na >= 0, nbp >= 0, nv >= 0)
    f = free(prog, C + 'increment_lda_split')
    p.run(f, None, [cell(p, mat('H0', NB, NB), 'H'), cell(p, vec('v', nv), 'v'), cell(p, mat('a', NB, na), 'a'), cell(p, mat('b', NB, nbp), 'b')])
    p.check_throws('increment_lda_split', or_(not_(eq(na, nv)), not_(eq(nbp, nv))), 'runtime_error')
    return p


@proof('C22', 'increment_lda adds sum_j v_j f_j f_j^T to H', TS)
def t_lda(prog):
    p, f, H0, Hc = std(prog, 'increment_lda', 0)
    v, a = vec('v', NP), mat('a', NB, NP)
    _, st = p.run(f, None, [Hc, cell(p, v, 'v'), cell(p, a, 'a')])
    p.check_throws('increment_lda', FALSE)
    return finish(p, st, Hc, H0, s_lda(v, a), 'H + sum_j v_j f_j f_j^T', NB)


@proof('C22', 'increment_lda refuses mismatched sizes', TS)
def t_lda_t(prog):
    p = Proof(prog, 'increment_lda')
    na, nv, h1, h2 = var('na', 'I'), var('nv', 'I'), var('h1', 'I'), var('h2', 'I')
    p.require(NB >= 0, na >= 0, nv >= 0, h1 >= 0, h2 >= 0)
    p.run(free(prog, C + 'increment_lda'), None, [cell(p, mat('H0', h1, h2), 'H'), cell(p, vec('v', nv), 'v'), cell(p, mat('a', NB, na), 'a')])
    p.check_throws('increment_lda', or_(not_(eq(na, nv)), not_(eq(h1, NB)), not_(eq(h2, NB))), 'runtime_error')
    return p


def s_lapl(v, a, c, b=None, d=None):
    h = lambda x, y, A, B: psum(NP, lambda j: v.get(j, 0) * A.get(x, j) * B.get(y, j))
    X = lambda x, y: h(x, y, a, c) + (h(x, y, b, d) if b else R0)
    return lambda x, y: X(x, y) + X(y, x)


@proof('C22', 'increment_mgga_lapl_split adds sum_j v_j (f l^T + l f^T) for split f = a + i b, l = c + i d', TC)
def t_lapl_split(prog):
    p, f, H0, Hc = std(prog, 'increment_mgga_lapl_split', 0)
    v, a, b, c, d = [vec('v', NP)] + [mat(n, NB, NP) for n in 'abcd']
    _, st = p.run(f, None, [Hc] + [cell(p, m, n) for m, n in zip((v, a, b, c, d), 'vabcd')])
    p.check_throws('increment_mgga_lapl_split', FALSE)
    return finish(p, st, Hc, H0, s_lapl(v, a, c, b, d), 'H + X + X^T, X = a diag(v) c^T + b diag(v) d^T', NB)


@proof('C22', 'the laplacian accumulation of the spherically averaged atom adds sum_j v_j (f l^T + l f^T)', TS)
def t_lapl_sad(prog):
    p = Proof(prog, 'increment_mgga_lapl')
    p.require(NB >= 0, NP >= 0)
    f = free(prog, 'helfem::sadatom::dftgrid::increment_mgga_lapl')
    H0 = mat('H0', NB, NB)
    Hc = cell(p, H0, 'H')
    v, a, c = vec('v', NP), mat('a', NB, NP), mat('c', NB, NP)
    _, st = p.run(f, None, [Hc, cell(p, v, 'v'), cell(p, a, 'a'), cell(p, c, 'c')])
    p.check_throws('increment_mgga_lapl', FALSE)
    return finish(p, st, Hc, H0, s_lapl(v, a, c), 'H + f diag(v) l^T + l diag(v) f^T', NB)


@proof('C22', 'the laplacian accumulation shared by the grids adds sum_j v_j (f l^T + l f^T)', TP)
def t_lapl(prog):
    p, f, H0, Hc = std(prog, 'increment_mgga_lapl', 0)
    v, a, c = vec('v', NP), mat('a', NB, NP), mat('c', NB, NP)
    _, st = p.run(f, None, [Hc, cell(p, v, 'v'), cell(p, a, 'a'), cell(p, c, 'c')])
    p.check_throws('increment_mgga_lapl', FALSE)
    return finish(p, st, Hc, H0, s_lapl(v, a, c), 'H + f diag(v) l^T + l diag(v) f^T', NB)


NC = var('nc', 'I')


def comps(p, n):
    P.declare(n, 'I', 'I', 'I')
    return SVec(NC, lambda k: Ptr(LTemp(Mat(NB, NP, lambda a, b: app(n, (lift(k), lift(a), lift(b)), 'R')))), ('sc', 'P'))


def gga(prog, cplx):
    p, f, H0, Hc = std(prog, 'increment_gga_split', 0)
    p.require(NC >= 1)
    gn, a, b = mat('gn', NP, NC), mat('a', NB, NP), mat('b', NB, NP)
    ga, gb = comps(p, 'ga'), comps(p, 'gb')
    args = [Hc, cell(p, gn, 'gn'), cell(p, a, 'a'), cell(p, b if cplx else Mat(K(0), K(0), lambda x, y: R0), 'b'), cell(p, ga, 'ga'),
            cell(p, gb if cplx else SVec(K(0), gb.get, gb.eshape), 'gb')]
    _, st = p.run(f, None, args)
    p.check_throws('increment_gga_split', FALSE)
    gam = lambda n: lambda x, j: psum(NC, lambda c: gn.get(j, c) * app(n, (c, x, j), 'R'))
    X = lambda x, y: psum(NP, lambda j: gam('ga')(x, j) * a.get(y, j)) + (psum(NP, lambda j: gam('gb')(x, j) * b.get(y, j)) if cplx else R0)
    return finish(p, st, Hc, H0, lambda x, y: X(x, y) + X(y, x), 'H + X + X^T, X = gamma f^H with gamma = sum_c gn_c grad_c f', NB)


@proof('C22', 'increment_gga_split, real basis: adds X + X^T, X = sum_j (sum_c gn_jc grad_c f_j) f_j^T', TC)
def t_gga_r(prog):
    return gga(prog, False)


@proof('C22', 'increment_gga_split, complex basis: adds X + X^T, X the real part of sum_j (sum_c gn_jc grad_c f_j) f_j^H', TC)
def t_gga_c(prog):
    return gga(prog, True)


# ---- shared worker state
def worker(p, rec=W, **fields):
    o = symobj(p.ex, rec, 'w', p.facts)
    for k, v in fields.items():
        o = o.set(k, v)
    return p.st.new(o, 'w')


def fld(lv, st, n):
    return lv.read(st).fields[n]


def rows(n, r, lo=0):
    P.declare(n, 'I', 'I')
    return Mat(K(r) if isinstance(r, int) else r, NP, lambda a, b: app(n, (lift(a), lift(b)), 'R'))


def B(x):
    return TRUE if x else FALSE


@proof('C22', 'the electron count of an element is sum_j w_j rho_j over both spins', TC)
def t_nel(prog):
    out = []
    for pol in (0, 1):
        p = Proof(prog, 'compute_Nel(%s)' % ('polarized' if pol else 'restricted'))
        p.require(NP >= 0)
        w, rho = vec('wt', NP), rows('rho', 1 + pol)
        lv = worker(p, polarized=B(pol), wtot=w, rho=rho)
        r, st = p.run(get(prog, W + '::compute_Nel'), lv, [])
        p.check_throws('compute_Nel', FALSE)
        p.check('sum_j w_j rho_j', eq(r, psum(NP, lambda j: w.get(j, 0) * (rho.get(0, j) + (rho.get(1, j) if pol else R0)))), st.pc)
        out.append(p)
    return out


@proof('C22', 'the energy of an element is sum_j w_j exc_j rho_j with the total density', TC)
def t_exc(prog):
    out = []
    for pol in (0, 1):
        p = Proof(prog, 'eval_Exc(%s)' % ('polarized' if pol else 'restricted'))
        p.require(NP >= 0)
        w, rho, e = vec('wt', NP), rows('rho', 1 + pol), vec('ex', NP)
        lv = worker(p, polarized=B(pol), wtot=w, rho=rho, exc=e)
        r, st = p.run(get(prog, W + '::eval_Exc'), lv, [])
        p.check_throws('eval_Exc', FALSE)
        p.check('sum_j w_j exc_j rho_j', eq(r, psum(NP, lambda j: w.get(j, 0) * e.get(j, 0) * (rho.get(0, j) + (rho.get(1, j) if pol else R0)))), st.pc)
        out.append(p)
    return out


@proof('C22', 'init_xc clears the energy density and every potential in use and forgets the functional class', TC)
def t_init(prog):
    out = []
    for pol in (0, 1):
        p = Proof(prog, 'init_xc(%s)' % ('polarized' if pol else 'restricted'))
        p.require(NP >= 0)
        w = vec('wt', NP)
        lv = worker(p, polarized=B(pol), wtot=w)
        S0 = p.st.copy()
        _, st = p.run(get(prog, W + '::init_xc'), lv, [])
        p.check_throws('init_xc', FALSE)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        e = fld(lv, st, 'exc')
        p.check('energy density: one zero per point', and_(eq(e.size, NP), implies(and_(i >= 0, i < NP), eq(e.get(i, K(0)), 0))), st.pc)
        for n, k, fl in (('vxc', 1 + pol, None), ('vsigma', 3 if pol else 1, 'do_grad'), ('vtau', 1 + pol, 'do_tau'), ('vlapl', 1 + pol, 'do_lapl')):
            m = fld(lv, st, n)
            c = [fld(lv, S0, fl)] if fl else []
            p.check(n + ': one row per component, one column per point', and_(eq(m.rows, k), eq(m.cols, NP)), st.pc + c)
            p.check(n + ': zero', implies(and_(i >= 0, i < k, j >= 0, j < NP), eq(m.get(i, j), 0)), st.pc + c)
        for n in ('do_gga', 'do_mgga_l', 'do_mgga_t'):
            p.check(n + ' cleared', not_(fld(lv, st, n)), st.pc)
        for n in ('do_grad', 'do_tau', 'do_lapl', 'polarized'):
            p.check(n + ' kept', eq_b(fld(lv, st, n), fld(lv, S0, n)), st.pc)
        out.append(p)
    return out


def eq_b(a, b):
    return and_(implies(a, b), implies(b, a))


@proof('C22', 'the orders of derivatives needed are those of either functional', TC)
def t_need(prog):
    nm = {'gradient_needed': 'do_grad', 'tau_needed': 'do_tau', 'laplacian_needed': 'do_lapl'}
    con = {k: (lambda k: lambda ex, st, this, args, e: app('need_' + k, (ex.rv(args[0], st),), 'B'))(k) for k in nm}
    p = Proof(prog, 'check_grad_tau_lapl', contracts=con)
    f = get(prog, W + '::check_grad_tau_lapl')
    x, c = p.param(f, 0), p.param(f, 1)
    lv = worker(p)
    _, st = p.run(f, lv, [x, c])
    p.check_throws('check_grad_tau_lapl', FALSE)
    for k, fl in nm.items():
        want = or_(*[and_(i >= 1, app('need_' + k, (i,), 'B')) for i in (x, c)])
        p.check(fl, eq_b(fld(lv, st, fl), want), st.pc)
    q = Proof(prog, 'set_grad_tau_lapl')
    f = get(prog, W + '::set_grad_tau_lapl')
    a = [var(n, 'B') for n in ('g', 't', 'l')]
    lv = worker(q)
    _, st = q.run(f, lv, a)
    for fl, v in zip(('do_grad', 'do_tau', 'do_lapl'), a):
        q.check(fl, eq_b(fld(lv, st, fl), v), st.pc)
    out = [p, q]
    for n, fl in (('needs_grad', 'do_grad'), ('needs_lapl', 'do_lapl')):
        q = Proof(prog, n)
        lv = worker(q)
        r, st = q.run(get(prog, W + '::' + n), lv, [])
        q.check(n, eq_b(r, fld(lv, st, fl)), st.pc)
        out.append(q)
    return out


# ---- compute_xc against contracts of the libxc entry points
XCARG = {'rho': 'rho', 'sigma': 'sigma', 'lapl': 'lapl', 'tau': 'tau'}
for _n in ('XCzk', 'XCrho', 'XCsigma', 'XClapl', 'XCtau'):
    P.declare(_n, 'I', 'I', 'I')


def nd(ex, cond, st, desc):
    ex.need(cond, st, 'contract-req', desc)


def xc_contracts(pol, lv):
    """libxc: the functional is set up once for the given id and spin mode; each evaluation reads arrays
    of the layout (components x points) and fills the arrays it is given.  log: calls made"""
    log = []
    comp = {'rho': 2 if pol else 1, 'sigma': 3 if pol else 1, 'lapl': 2 if pol else 1, 'tau': 2 if pol else 1, 'zk': 1}

    def init(ex, st, this, args, e):
        a = ex.rv(args[0], st)
        i, s = ex.rv(args[1], st), ex.rv(args[2], st)
        nd(ex, eq(s, 2 if pol else 1), st, 'functional initialised for the spin mode of the density')
        a.lv.write(st, Obj('xc', {'id': lift(i), 'thr': K(-1, 'R'), 'pars': K(0), 'live': TRUE}))
        return app('xcfail', (i,), 'I')

    def obj(ex, st, a):
        o = ex.rv(a, st).lv.read(st)
        if not (isinstance(o, Obj) and o.rec == 'xc'):
            nd(ex, FALSE, st, 'functional is initialised before use')
            raise Unsupported('libxc functional used before initialisation')
        nd(ex, o.fields['live'], st, 'functional not used after it was released')
        return o

    def thr(ex, st, this, args, e):
        o = obj(ex, st, args[0])
        ex.rv(args[0], st).lv.write(st, o.set('thr', lift(ex.rv(args[1], st))))

    def pars(ex, st, this, args, e):
        o = obj(ex, st, args[0])
        ptr = ex.rv(args[1], st)
        m, x = ptr.lv.read(st), var('xpars.rows', 'I')
        j = fresh('j', 'I')
        s = st.copy()
        s.pc = s.pc + [j >= 0, j < app('nextpar', (o.fields['id'],), 'I')]
        nd(ex, and_(eq(ptr.off or K(0), 0), eq(m.rows, x)), s, 'external parameters: array of the stated length')
        nd(ex, eq(m.get(j, K(0)), app('xpars', (j,), 'R')), s, 'external parameters are the ones given')
        ex.rv(args[0], st).lv.write(st, o.set('pars', K(1)))

    def npar(ex, st, this, args, e):
        return app('nextpar', (var('fid', 'I'),), 'I')

    def end(ex, st, this, args, e):
        o = obj(ex, st, args[0])
        ex.rv(args[0], st).lv.write(st, o.set('live', FALSE))

    def call(kind, ins, outs):
        def c(ex, st, this, args, e):
            o = obj(ex, st, args[0])
            log.append((kind, o))
            n = ex.rv(args[1], st)
            w = lv.read(st)
            nd(ex, eq(n, NP), st, 'all the points of the grid are evaluated')
            nd(ex, eq(o.fields['id'], var('fid', 'I')), st, 'the functional asked for is evaluated')
            nd(ex, eq(o.fields['thr'], var('thr', 'R')), st, 'density threshold set')
            nd(ex, eq(o.fields['pars'], ite(eq(var('xpars.rows', 'I'), 0), K(0), K(1))), st, 'external parameters set')
            ps = [ex.rv(a, st) for a in args[2:]]
            for nm, q in zip(ins, ps):
                opt = nm in ('lapl', 'tau')
                used = app('use_' + nm, (var('fid', 'I'),), 'B') if opt else TRUE
                if q.lv is None:
                    nd(ex, not_(used), st, nm + ' passed when the functional depends on it')
                    continue
                m, ref = q.lv.read(st), w.fields[nm]
                i, j = fresh('i', 'I'), fresh('j', 'I')
                s = st.copy()
                s.pc = s.pc + [i >= 0, i < comp[nm], j >= 0, j < NP, used]
                nd(ex, and_(eq(q.off or K(0), 0), eq(m.rows, comp[nm]), eq(m.cols, NP)), s, nm + ' array has one row per component and one column per point')
                nd(ex, eq(m.get(i, j), ref.get(i, j)), s, nm + ' array holds ' + nm)
            for nm, q in zip(outs, ps[len(ins):]):
                opt = nm in ('lapl', 'tau')
                used = app('use_' + nm, (var('fid', 'I'),), 'B') if opt else TRUE
                if q.lv is None:
                    nd(ex, not_(used), st, 'derivative with respect to %s requested when the functional depends on it' % nm)
                    continue
                m = q.lv.read(st)
                s = st.copy()
                s.pc = s.pc + [used]
                nd(ex, and_(eq(q.off or K(0), 0), eq(m.size, NP) if nm == 'zk' else and_(eq(m.rows, comp[nm]), eq(m.cols, NP))), s, 'derivative array (%s) has the size libxc fills' % nm)
                sc = lift(var('fid', 'I'))
                q.lv.write(st, m.like((lambda nm: lambda i, j: app('XC' + nm, (sc, lift(j), lift(i)) if False else (sc, lift(i), lift(j)), 'R'))(nm)))
        return c
    con = {('ctor', 'xc_func_type'): lambda ex, st, *a: Opaque('xc_func_type'), 'xc_func_init': init, 'xc_func_set_dens_threshold': thr, 'xc_func_set_ext_params': pars, 'xc_func_info_get_n_ext_params': npar, 'xc_func_end': end}
    for kind, ins in (('lda', ['rho']), ('gga', ['rho', 'sigma']), ('mgga', ['rho', 'sigma', 'lapl', 'tau'])):
        con['xc_%s_exc_vxc' % kind] = call(kind, ins, ['zk'] + ins)
        con['xc_%s_exc' % kind] = call(kind, ins, ['zk'])
        con['xc_%s_vxc' % kind] = call(kind, ins, ins)
    return con, log


FAMS = {'lda': (0, 0, 0), 'gga': (1, 0, 0), 'tau meta-gga': (0, 1, 0), 'laplacian meta-gga': (0, 0, 1), 'tau and laplacian meta-gga': (0, 1, 1)}


@proof('C22', 'compute_xc adds the libxc energy density and potentials of the functional and nothing else', TC)
def t_xc(prog):
    out = []
    fid, thr = var('fid', 'I'), var('thr', 'R')
    for pol in (0, 1):
        for fam, (g, t, l) in FAMS.items():
            for hx in (0, 1):
                for pot in (0, 1):
                    lab = 'compute_xc(%s, %s%s%s)' % (fam, 'polarized' if pol else 'restricted', '' if hx else ', no energy', '' if pot else ', energy only')
                    p = Proof(prog, lab)
                    nr = {'rho': 1 + pol, 'sigma': 3 if pol else 1, 'lapl': 1 + pol, 'tau': 1 + pol, 'vxc': 1 + pol, 'vsigma': 3 if pol else 1, 'vlapl': 1 + pol, 'vtau': 1 + pol}
                    fs = {n: rows('f' + n, k) for n, k in nr.items()}
                    lv = worker(p, polarized=B(pol), wtot=vec('wt', NP), exc=vec('ex', NP), **fs)
                    con, log = xc_contracts(pol, lv)

                    def cls(ex, st, this, args, e):
                        for a, v in zip(args[1:], (g, t, l)):
                            a.write(st, B(v))
                    con.update({'is_gga_mgga': cls, 'has_exc': lambda ex, st, this, args, e: B(hx)})
                    p.ex.contracts = con
                    pr = Mat(var('xpars.rows', 'I'), K(1), lambda a, b: app('xpars', (lift(a),), 'R'), vec=True)
                    P.declare('xpars', 'I')
                    np_ = app('nextpar', (fid,), 'I')
                    p.require(NP >= 0, pr.rows >= 0, np_ >= 0, implies(app('use_lapl', (fid,), 'B'), B(l)), implies(app('use_tau', (fid,), 'B'), B(t)))
                    S0 = p.st.copy()
                    f = get(prog, W + '::compute_xc')
                    _, st = p.run(f, lv, [fid, cell(p, pr, 'pars'), thr, B(pot)])
                    bad = or_(not_(eq(app('xcfail', (fid,), 'I'), 0)), and_(not_(eq(pr.rows, 0)), not_(eq(pr.rows, np_))))
                    p.check_throws('compute_xc', bad)
                    i, j = fresh('i', 'I'), fresh('j', 'I')
                    cx = st.pc + [i >= 0, j >= 0, j < NP]
                    e = fld(lv, st, 'exc')
                    p.check('energy density', and_(eq(e.size, NP), eq(e.get(j, K(0)), app('ex', (j,), 'R') + (app('XCzk', (fid, j, K(0)), 'R') if hx else R0))), cx)
                    for n, nm, on in (('vxc', 'rho', 1), ('vsigma', 'sigma', g or t or l), ('vlapl', 'lapl', l), ('vtau', 'tau', t)):
                        m = fld(lv, st, n)
                        c2 = cx + [i < nr[n]]
                        used = app('use_' + nm, (fid,), 'B') if nm in ('lapl', 'tau') else TRUE
                        add_ = app('XC' + nm, (fid, i, j), 'R') if on and pot else R0
                        p.check(n, and_(eq(m.rows, nr[n]), eq(m.cols, NP), eq(m.get(i, j), fs[n].get(i, j) + add_)), c2)
                    for n in ('rho', 'sigma', 'lapl', 'tau', 'wtot'):
                        m, o = fld(lv, st, n), fld(lv, S0, n)
                        p.check(n + ' untouched', and_(eq(m.rows, o.rows), eq(m.cols, o.cols), eq(m.get(i, j), o.get(i, j))), cx)
                    for n, v in (('do_gga', g or t or l), ('do_mgga_t', t), ('do_mgga_l', l)):
                        p.check(n + ' remembers the class', eq_b(fld(lv, st, n), or_(fld(lv, S0, n), B(v))), st.pc)
                    want = ('mgga' if t or l else 'gga' if g else 'lda') if hx or pot else None
                    p.check('exactly one libxc evaluation, of the class of the functional', B([k for k, o in log] == ([want] if want else [])), st.pc)
                    out.append(p)
    return out


# ---- contracts of the accumulation functions (proved above), for their callers
def c_split(kind, cplx):
    def c(ex, st, this, args, e):
        H = ex.rv(args[0], st)
        v = ex.rv(args[1], st)
        m = [ex.rv(a, st) for a in args[2:]]
        n, k = m[0].rows, m[0].cols
        for q in m:
            nd(ex, and_(eq(q.rows, n), eq(q.cols, k)), st, 'basis function arrays of one shape')
        nd(ex, eq(v.size, k), st, 'one potential value per point')
        nd(ex, and_(eq(H.rows, n), eq(H.cols, n)), st, 'Fock matrix of the size of the basis')
        a = m[0]
        v2 = Mat(k, K(1), lambda i, j: v.get(i), vec=True)
        s = ss_lda(k, v2, a, m[1] if cplx else None) if kind == 'lda' else ss_lapl(k, v2, *((m[0], m[2], m[1], m[3]) if cplx else (m[0], m[1])))
        args[0].write(st, H.like(lambda x, y: H.get(x, y) + s(lift(x), lift(y))))
    return c


def ss_lda(n, v, a, b=None):
    return lambda x, y: psum(n, lambda j: v.get(j, 0) * a.get(x, j) * a.get(y, j)) + (psum(n, lambda j: v.get(j, 0) * b.get(x, j) * b.get(y, j)) if b else R0)


def ss_lapl(n, v, a, c, b=None, d=None):
    h = lambda x, y, A, Bb: psum(n, lambda j: v.get(j, 0) * A.get(x, j) * Bb.get(y, j))
    X = lambda x, y: h(x, y, a, c) + (h(x, y, b, d) if b else R0)
    return lambda x, y: X(x, y) + X(y, x)


def c_gga(ex, st, this, args, e):
    H, gn, a, b, ga, gb = [ex.rv(q, st) for q in args]
    n, k = a.rows, a.cols
    nc, mb = cint(ga.size), cint(gb.size)
    if nc is None or mb is None:
        raise Unsupported('number of gradient components is not a constant')
    nd(ex, and_(eq(H.rows, n), eq(H.cols, n)), st, 'Fock matrix of the size of the basis')
    nd(ex, and_(eq(gn.cols, nc), eq(gn.rows, k)), st, 'one gradient weight per point and component')
    nd(ex, B(mb in (0, nc)), st, 'as many imaginary as real components')
    A = [ga.get(K(c)).lv.read(st) for c in range(nc)]
    Bm = [gb.get(K(c)).lv.read(st) for c in range(mb)]
    for m in A + Bm + ([b] if mb else []):
        nd(ex, and_(eq(m.rows, n), eq(m.cols, k)), st, 'gradient arrays of the shape of the basis function array')

    def X(x, y):
        g = lambda M, f: sum((psum(k, lambda j, m=m, c=c: gn.get(j, K(c)) * m.get(x, j) * f.get(y, j)) for c, m in enumerate(M)), R0)
        return g(A, a) + (g(Bm, b) if mb else R0)
    args[0].write(st, H.like(lambda x, y: H.get(x, y) + X(lift(x), lift(y)) + X(lift(y), lift(x))))


def cint(t):
    t = lift(t)
    return int(t.args[0]) if t.op == 'k' else None


INC = {C + 'increment_lda': c_split('lda', False), C + 'increment_lda_split': c_split('lda', True), C + 'increment_gga_split': c_gga,
       'helfem::sadatom::dftgrid::increment_mgga_lapl': c_split('lapl', False), C + 'increment_mgga_lapl': c_split('lapl', False),
       C + 'increment_mgga_lapl_split': c_split('lapl', True)}


# ---- spherically averaged atom
SW = 'helfem::sadatom::dftgrid::DFTGridWorker'
NBAS, NL = var('nbas', 'I'), var('nl', 'I')
P.declare('ind', 'I')
for _n in ('PP', 'PQ'):
    P.declare(_n, 'I', 'I', 'I')


def bfind(p):
    t = fresh('t', 'I')
    p.require(NB >= 0, NP >= 0, NBAS >= 0, forall([t], implies(and_(t >= 0, t < NB), and_(ind(t) >= 0, ind(t) < NBAS))))
    return SVec(NB, lambda i: ind(i), ('sc', 'I'))


def ind(i): return app('ind', (lift(i),), 'I')


def cube(n, nl=NL):
    return SVec(nl, lambda l: Mat(NBAS, NBAS, lambda a, b: app(n, (lift(l), lift(a), lift(b)), 'R')), ('mat', 'R', False))


def dsum(f):
    u, v = fresh('u', 'I'), fresh('v', 'I')
    return sum_(u, K(0), NB, sum_(v, K(0), NB, f(u, v)))


def lsum(nl, f):
    l = fresh('l', 'I')
    return sum_(l, K(0), nl, f(l))


def fill(nm):
    # before slice k: all earlier slices hold the gathered block
    def f(k, a, init):
        l, x, y = a
        inr = and_(x >= 0, x < NB, y >= 0, y < NB)
        return ite(and_(l >= 0, l < k), ite(inr, app(nm, (l, ind(x), ind(y)), 'R'), K(0, 'R')), init(a))
    f.ar = 3
    return f


def sad(p, pol, g, t, l):
    bf, b1, b2 = mat('bf', NB, NP), mat('bf1', NB, NP), mat('bf2', NB, NP)
    lv = worker(p, SW, polarized=B(pol), wtot=vec('wt', NP), r=vec('rr', NP), wrad=vec('wr', NP), bf=bf, bf_rho=b1, bf_rho2=b2, bf_ind=bfind(p),
                do_grad=B(g), do_tau=B(t), do_lapl=B(l))
    return lv, bf, b1, b2


@proof('C22', 'spherically averaged density, gradient, kinetic energy density and laplacian are contractions of the density matrix', TS)
def t_sad_dens(prog):
    out = []
    for pol in (0, 1):
        for g, t, l in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)):
            p = Proof(prog, 'update_density(%s%s%s%s)' % ('polarized' if pol else 'restricted', ', gradient' if g else '', ', tau' if t else '', ', laplacian' if l else ''), candidates=[[fill('PP')], [fill('PQ')]])
            lv, bf, b1, b2 = sad(p, pol, g, t, l)
            nl2 = var('nl2', 'I')
            p.require(NL >= 0, nl2 >= 0)
            f = prog.find(SW + '::update_density', nparams=1 + pol)
            args = [cell(p, cube('PP'), 'P')] + ([cell(p, cube('PQ', nl2), 'Q')] if pol else [])
            _, st = p.run(f, lv, args)
            p.check_throws('update_density', or_(eq(NL, 0), eq(nl2, 0)) if pol else FALSE)
            j = fresh('j', 'I')
            cx = st.pc + [j >= 0, j < NP]
            D = []
            r = app('rr', (j,), 'R')
            for nm, nl in (('PP', NL),) + ((('PQ', nl2),) if pol else ()):
                pt = lambda u, v: lsum(nl, lambda q: app(nm, (q, ind(u), ind(v)), 'R'))
                pl = lambda u, v: lsum(nl, lambda q: (q * (q + 1)) * app(nm, (q, ind(u), ind(v)), 'R'))
                D.append(dict(rho=dsum(lambda u, v: pt(u, v) * bf.get(u, j) * bf.get(v, j)),
                              grho=2 * dsum(lambda u, v: pt(u, v) * b1.get(u, j) * bf.get(v, j)),
                              t1=dsum(lambda u, v: pt(u, v) * b1.get(u, j) * b1.get(v, j)),
                              t2=dsum(lambda u, v: pl(u, v) * bf.get(u, j) * bf.get(v, j)),
                              l2=dsum(lambda u, v: pt(u, v) * b2.get(u, j) * bf.get(v, j))))
            ns = 1 + pol
            for s in range(ns):
                d = D[s]

                def chk(n, k, want):
                    m = fld(lv, st, n)
                    p.check('%s(%d): shape' % (n, s), and_(eq(m.rows, k), eq(m.cols, NP)), st.pc)
                    p.check('%s(%d)' % (n, s), eq(m.get(K(s), j), want), cx, timeout=20.0)
                chk('rho', ns, d['rho'])
                if g:
                    chk('grho', ns, d['grho'])
                if t:
                    t2 = d['t2'] / (r * r)
                    chk('tau', ns, (d['t1'] + ite(t2 < R0, R0, t2)) * K(1, 'R') / 2)
                if l:
                    chk('lapl', ns, 2 * d['t1'] + 2 * d['l2'] + 2 * d['grho'] / r)
            if g:
                m = fld(lv, st, 'sigma')
                ab = [(0, 0, 0)] + ([(1, 0, 1), (2, 1, 1)] if pol else [])
                p.check('sigma: shape', and_(eq(m.rows, len(ab)), eq(m.cols, NP)), st.pc)
                for k, a, b in ab:
                    p.check('sigma(%d)' % k, eq(m.get(K(k), j), D[a]['grho'] * D[b]['grho']), cx, timeout=20.0)
            p.check('polarized flag', eq_b(fld(lv, st, 'polarized'), B(pol)), st.pc)
            out.append(p)
    return out


# ---- atomic and diatomic grids
AW, DW = 'helfem::atomic::dftgrid::DFTGridWorker', 'helfem::diatomic::dftgrid::DFTGridWorker'
GR = ('rho', 'theta', 'phi')
SC = ('scale_r', 'scale_theta', 'scale_phi')
ISC = ('inv_scale_r2', 'inv_scale_theta2', 'inv_scale_phi2')


def full(p, rec, pol, g, t, l, **extra):
    """worker holding symbolic basis function values, gradients and laplacians"""
    M = {}
    for n in ('bf',) + tuple('bf_' + c for c in GR) + (('bf_lapl',) if rec == AW else ()):
        for q in ('_re', '_im'):
            M[n + q] = mat('Z' + n + q, NB, NP)
    sc = {n: vec('Z' + n, NP) for n in SC + ISC}
    fl = dict(polarized=B(pol), wtot=vec('wt', NP), bf_ind=bfind(p), do_grad=B(g), do_tau=B(t), do_lapl=B(l), **M, **sc)
    fl.update(extra)
    return worker(p, rec, **fl), M, sc


def sq(M, a, b, j):
    """u, v -> real part of conj(a_u) b_v"""
    return lambda u, v: M[a + '_re'].get(u, j) * M[b + '_re'].get(v, j) + M[a + '_im'].get(u, j) * M[b + '_im'].get(v, j)


def dens(prog, rec):
    out = []
    for pol in (0, 1):
        for g, t, l in ((0, 0, 0), (1, 0, 0), (1, 1, 0)) + (((1, 0, 1), (1, 1, 1)) if rec == AW else ()):
            p = Proof(prog, 'update_density(%s%s%s%s)' % ('polarized' if pol else 'restricted', ', gradient' if g else '', ', tau' if t else '', ', laplacian' if l else ''))
            lv, M, sc = full(p, rec, pol, g, t, l)
            p.require(NBAS >= 1)
            f = prog.find(rec + '::update_density', nparams=1 + pol)
            nm = ('PP', 'PQ')[:1 + pol]
            for n in nm:
                P.declare(n + '2', 'I', 'I')
            _, st = p.run(f, lv, [cell(p, mat(n + '2', NBAS, NBAS), n) for n in nm])
            p.check_throws('update_density', FALSE)
            j = fresh('j', 'I')
            cx = st.pc + [j >= 0, j < NP]
            s_ = {n: sc[n].get(j, 0) for n in SC}
            D = []
            for n in nm:
                pd = lambda h: dsum(lambda u, v: app(n + '2', (ind(u), ind(v)), 'R') * h(u, v))
                gr = [2 * pd(sq(M, 'bf_' + c, 'bf', j)) / s_[k] for c, k in zip(GR, SC)]
                kin = sum((pd(sq(M, 'bf_' + c, 'bf_' + c, j)) / (s_[k] * s_[k]) for c, k in zip(GR, SC)), R0)
                D.append(dict(rho=pd(sq(M, 'bf', 'bf', j)), gr=gr, kin=kin, lap=pd(sq(M, 'bf_lapl', 'bf', j)) if rec == AW else None))

            def chk(n, want):
                m = fld(lv, st, n)
                p.check('%s: shape' % n, and_(eq(m.rows, len(want)), eq(m.cols, NP)), st.pc)
                for k, w in enumerate(want):
                    p.check('%s(%d)' % (n, k), eq(m.get(K(k), j), w), cx, timeout=20.0)
            chk('rho', [d['rho'] for d in D])
            if g:
                chk('grho', [x for d in D for x in d['gr']])
                G_ = fld(lv, st, 'grho')
                dot = lambda a, b: sum((G_.get(K(3 * a + c), j) * G_.get(K(3 * b + c), j) for c in range(3)), R0)
                chk('sigma', [dot(0, 0)] + ([dot(0, 1), dot(1, 1)] if pol else []))
            if t or l:
                chk('tau', [d['kin'] * K(1, 'R') / 2 for d in D])
            if l:
                chk('lapl', [2 * (d['kin'] + d['lap']) for d in D])
            p.check('polarized flag', eq_b(fld(lv, st, 'polarized'), B(pol)), st.pc)
            out.append(p)
    return out


@proof('C22', 'atomic grid: density, gradient, kinetic energy density and laplacian are contractions of the density matrix', TA)
def t_at_dens(prog):
    return dens(prog, AW)


@proof('C22', 'diatomic grid: density, gradient and kinetic energy density are contractions of the density matrix', TD)
def t_di_dens(prog):
    return dens(prog, DW)


def scat(n, h):
    """sum over in-element pairs of h(u,v) landing on global entry (x,y)"""
    return lambda x, y: dsum(lambda u, v: ite(and_(eq(ind(u), x), eq(ind(v), y)), h(u, v), R0))


def c_cplx_lda(ex, st, this, args, e):
    """increment_lda for a complex basis function array (real part of sum_j v_j f_j f_j^H)"""
    a = ex.rv(args[2], st)
    if not isinstance(a, Obj):
        return INC[C + 'increment_lda'](ex, st, this, args, e) if isinstance(a, Mat) else NotImplemented
    re, im = a.fields['re'], a.fields['im']
    H, v = ex.rv(args[0], st), ex.rv(args[1], st)
    n, k = re.rows, re.cols
    nd(ex, eq(v.size, k), st, 'one potential value per point')
    nd(ex, and_(eq(H.rows, n), eq(H.cols, n)), st, 'Fock matrix of the size of the basis')
    s = ss_lda(k, Mat(k, K(1), lambda i, j: v.get(i), vec=True), re, im)
    args[0].write(st, H.like(lambda x, y: H.get(x, y) + s(lift(x), lift(y))))


def fxc(prog, rec, pol, beta):
    out = []
    for g, t, l in ((0, 0, 0), (1, 0, 0), (1, 1, 0)) + (((1, 0, 1), (1, 1, 1)) if rec == AW else ()):
        con = dict(INC)
        con[C + 'increment_lda'] = c_cplx_lda
        p = Proof(prog, 'eval_Fxc(%s%s%s%s%s)' % ('polarized' if pol else 'restricted', ', alpha only' if pol and not beta else '', ', gradient' if g else '', ', tau' if t else '', ', laplacian' if l else ''), contracts=con)
        ns = 1 + pol
        pots = dict(vxc=rows('ZV', ns), vsigma=rows('ZS', 1 + 2 * pol), vtau=rows('ZT', ns), vlapl=rows('ZL', ns), grho=rows('ZG', 3 * ns))
        cm = {}
        lv, M, sc = full(p, rec, pol, g, t, l, do_gga=B(g), do_mgga_t=B(t), do_mgga_l=B(l), **pots)
        if rec == AW:
            for c in GR:
                cm['bf_' + c] = Obj('cmatrix', {'re': M['bf_%s_re' % c], 'im': M['bf_%s_im' % c]})
            o = lv.read(p.st)
            for k, v in cm.items():
                o = o.set(k, v)
            lv.write(p.st, o)
        f = prog.find(rec + '::eval_Fxc', nparams=3 if pol else 1)
        H0 = [mat('HA', NBAS, NBAS), mat('HB', NBAS, NBAS)][:ns]
        Hc = [cell(p, h, 'H%d' % i) for i, h in enumerate(H0)]
        _, st = p.run(f, lv, Hc + ([B(beta)] if pol else []))
        p.check_throws('eval_Fxc', FALSE)
        x, y = fresh('x', 'I'), fresh('y', 'I')
        w = vec('wt', NP)
        for s in range(ns):
            H = Hc[s].read(st)
            p.check('H(%d): shape' % s, and_(eq(H.rows, NBAS), eq(H.cols, NBAS)), st.pc)
            if s and not beta:
                p.check('H(1) untouched', eq(H.get(x, y), H0[1].get(x, y)), st.pc)
                continue

            def pt(u, v, j):
                W_ = w.get(j, 0)
                e = W_ * pots['vxc'].get(K(s), j) * sq(M, 'bf', 'bf', j)(u, v)
                if g:
                    for k, (c, q) in enumerate(zip(GR, SC)):
                        G = pots['grho'].get(K(3 * s + k), j)
                        vs = lambda i: pots['vsigma'].get(K(i), j)
                        if pol:
                            gg = 2 * vs(2 * s) * G + vs(1) * pots['grho'].get(K(3 * (1 - s) + k), j)
                        else:
                            gg = 2 * vs(0) * G
                        e = e + W_ * gg / sc[q].get(j, 0) * (sq(M, 'bf_' + c, 'bf', j)(u, v) + sq(M, 'bf_' + c, 'bf', j)(v, u))
                tl = R0
                if t:
                    tl = tl + pots['vtau'].get(K(s), j) * K(1, 'R') / 2
                if l:
                    tl = tl + 2 * pots['vlapl'].get(K(s), j)
                if t or l:
                    for c, q in zip(GR, ISC):
                        e = e + W_ * tl * sc[q].get(j, 0) * sq(M, 'bf_' + c, 'bf_' + c, j)(u, v)
                if l:
                    e = e + W_ * pots['vlapl'].get(K(s), j) * (sq(M, 'bf_lapl', 'bf', j)(u, v) + sq(M, 'bf_lapl', 'bf', j)(v, u))
                return e
            want = H0[s].get(x, y) + scat(NB, lambda u, v: psum(NP, lambda j: pt(u, v, j)))(x, y)
            p.check('H(%d) += sum_j w_j (dE/drho terms)' % s, eq(H.get(x, y), want), st.pc + [x >= 0, x < NBAS, y >= 0, y < NBAS], timeout=40.0)
        out.append(p)
    return out


@proof('C22', 'atomic grid: restricted exchange-correlation Fock matrix is the quadrature of the derivative terms', TA)
def t_at_fxc(prog):
    return fxc(prog, AW, 0, 1)


@proof('C22', 'atomic grid: polarized exchange-correlation Fock matrices are the quadrature of the derivative terms', TA)
def t_at_fxc_p(prog):
    return fxc(prog, AW, 1, 1)


@proof('C22', 'atomic grid: alpha-only exchange-correlation Fock matrix', TA)
def t_at_fxc_a(prog):
    return fxc(prog, AW, 1, 0)


@proof('C22', 'diatomic grid: restricted exchange-correlation Fock matrix is the quadrature of the derivative terms', TD)
def t_di_fxc(prog):
    return fxc(prog, DW, 0, 1)


@proof('C22', 'diatomic grid: polarized exchange-correlation Fock matrices are the quadrature of the derivative terms', TD)
def t_di_fxc_p(prog):
    return fxc(prog, DW, 1, 1)


@proof('C22', 'diatomic grid: alpha-only exchange-correlation Fock matrix', TD)
def t_di_fxc_a(prog):
    return fxc(prog, DW, 1, 0)


@proof('C22', 'spherically averaged atom: exchange-correlation Fock matrices are the quadrature of the derivative terms', TS)
def t_sad_fxc(prog):
    out = []
    for pol, beta in ((0, 1), (1, 1), (1, 0)):
        for g, t, l in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)):
            p = Proof(prog, 'eval_Fxc(%s%s%s%s%s)' % ('polarized' if pol else 'restricted', ', alpha only' if pol and not beta else '', ', gradient' if g else '', ', tau' if t else '', ', laplacian' if l else ''),
                      contracts=INC)
            ns = 1 + pol
            pots = dict(vxc=rows('ZV', ns), vsigma=rows('ZS', 1 + 2 * pol), vtau=rows('ZT', ns), vlapl=rows('ZL', ns), grho=rows('ZG', ns))
            lv, bf, b1, b2 = sad(p, pol, g, t, l)
            o = lv.read(p.st)
            for k, v in dict(pots, do_gga=B(g), do_mgga_t=B(t), do_mgga_l=B(l)).items():
                o = o.set(k, v)
            lv.write(p.st, o)
            nl2 = var('nl2', 'I')
            p.require(NL >= 0, nl2 >= 0)
            nls = (NL, nl2)[:ns]
            H0 = [cube('PP'), cube('PQ', nl2)][:ns]
            Hc = [cell(p, h, 'H%d' % i) for i, h in enumerate(H0)]
            _, st = p.run(prog.find(SW + '::eval_Fxc', nparams=3 if pol else 1), lv, Hc + ([B(beta)] if pol else []))
            p.check_throws('eval_Fxc', FALSE)
            q, x, y = fresh('q', 'I'), fresh('x', 'I'), fresh('y', 'I')
            w, r, wr = vec('wt', NP), vec('rr', NP), vec('wr', NP)
            pi4 = 4 * K(PI_DIGITS, 'R')
            for s in range(ns):
                H = Hc[s].read(st)
                p.check('H(%d): number of l slices unchanged' % s, eq(H.size, nls[s]), st.pc)
                cx = st.pc + [q >= 0, q < nls[s], x >= 0, x < NBAS, y >= 0, y < NBAS]
                hs = H.get(q)
                p.check('H(%d): shape' % s, and_(eq(hs.rows, NBAS), eq(hs.cols, NBAS)), cx)
                h0 = H0[s].get(q).get(x, y)
                if s and not beta:
                    p.check('H(1) untouched', eq(hs.get(x, y), h0), cx)
                    continue

                def pt(u, v, j):
                    W_ = w.get(j, 0)
                    two = lambda m: m.get(u, j) * bf.get(v, j) + m.get(v, j) * bf.get(u, j)
                    e = W_ * pots['vxc'].get(K(s), j) * bf.get(u, j) * bf.get(v, j)
                    if g:
                        G = pots['grho'].get(K(s), j)
                        vs = lambda i: pots['vsigma'].get(K(i), j)
                        gg = 2 * vs(2 * s) * G + (vs(1) * pots['grho'].get(K(1 - s), j) if pol else R0)
                        e = e + W_ * gg * two(b1)
                    if l:
                        vl = pots['vlapl'].get(K(s), j)
                        if g:
                            e = e + 2 * vl * r.get(j, 0) * wr.get(j, 0) * pi4 * two(b1)
                        e = e + W_ * 2 * vl * b1.get(u, j) * b1.get(v, j) + W_ * vl * two(b2)
                    if t:
                        vt = pots['vtau'].get(K(s), j) * K(1, 'R') / 2
                        e = e + W_ * vt * b1.get(u, j) * b1.get(v, j) + (q * (q + 1)) * (vt * wr.get(j, 0) * pi4 * bf.get(u, j) * bf.get(v, j))
                    return e
                want = h0 + scat(NB, lambda u, v: psum(NP, lambda j: pt(u, v, j)))(x, y)
                p.check('H(%d) += sum_j w_j (dE/drho terms)' % s, eq(hs.get(x, y), want), cx, timeout=40.0)
            out.append(p)
    return out


def wsum(prog, rec, fn, field, flag):
    out = []
    for pol in (0, 1):
        p = Proof(prog, '%s(%s)' % (fn, 'polarized' if pol else 'restricted'))
        p.require(NP >= 0)
        w, a = vec('wt', NP), rows('Za', 1 + pol)
        lv = worker(p, rec, polarized=B(pol), wtot=w, **{field: a, flag: B(1)})
        r, st = p.run(get(prog, rec + '::' + fn), lv, [])
        p.check_throws(fn, FALSE)
        p.check('sum_j w_j %s_j' % field, eq(r, psum(NP, lambda j: w.get(j, 0) * (a.get(0, j) + (a.get(1, j) if pol else R0)))), st.pc)
        out.append(p)
    return out


@proof('C22', 'atomic grid: kinetic energy and laplacian checksums are the quadrature sums', TA)
def t_at_sums(prog):
    return wsum(prog, AW, 'compute_Ekin', 'tau', 'do_tau') + wsum(prog, AW, 'compute_laplsum', 'lapl', 'do_lapl')


@proof('C22', 'diatomic grid: kinetic energy checksum is the quadrature sum', TD)
def t_di_sums(prog):
    return wsum(prog, DW, 'compute_Ekin', 'tau', 'do_tau')


# ---- drivers: loop over elements (and radial points) with the worker's contracts
for _n, _k in (('gNel', 2), ('gEk', 2), ('gLap', 2), ('gEx', 4), ('gF0', 7), ('gF1', 7)):
    P.declare(_n, *(['I'] * _k))
NEL_, ND = var('n_el', 'I'), var('n_dum', 'I')


def npt(i): return app('npt', (lift(i),), 'I')


def bm(i): return app('bmap', (lift(i),), 'I')


def rm(i): return app('rmap', (lift(i),), 'I')


for _n in ('npt', 'bmap', 'rmap'):
    P.declare(_n, 'I')


def xc_worker(p, dens, xf, cf, xp, cp, thr, beta, sliced=False):
    """ghost worker: remembers the element (and point) it is set up for and which functionals were evaluated there"""
    g0 = dict(el=K(-1), ir=K(-1), den=B(0), chk=B(0), xs=K(0), cs=K(0), ini=B(0), de=B(0), df=B(0))
    one = K(1)

    def ctor(ex, st, *a):
        return Obj('ghost', dict(g0))

    def done(ex, st, this, **kw):
        upd(ex, st, this, **kw)
        o = this.read(st).fields
        if o['de'] == TRUE and o['df'] == TRUE:      # point finished: forget it (the next compute_bf sets everything again)
            upd(ex, st, this, **{k: v for k, v in g0.items() if k != 'chk'})

    def upd(ex, st, this, **kw):
        o = this.read(st)
        for k, v in kw.items():
            o = o.set(k, v)
        this.write(st, o)

    def chk(ex, st, this, args, e):
        a, b = ex.rv(args[0], st), ex.rv(args[1], st)
        nd(ex, and_(eq(a, xf), eq(b, cf)), st, 'quantities needed are decided from both functionals')
        upd(ex, st, this, chk=B(1))

    def bf(ex, st, this, args, e):
        el = ex.rv(args[0], st)
        ir = ex.rv(args[1], st) if len(args) > 1 else K(0)
        nd(ex, this.read(st).fields['chk'], st, 'quantities needed are decided before basis functions are tabulated')
        nd(ex, and_(el >= 0, el < NEL_), st, 'element exists')
        if len(args) > 1:
            nd(ex, and_(ir >= 0, ir < npt(el)), st, 'radial point exists')
        upd(ex, st, this, el=el, ir=ir, den=B(0), ini=B(0), de=B(0), df=B(0))

    def ud(ex, st, this, args, e):
        ms = [ex.rv(a, st) for a in args]
        nd(ex, B(len(ms) == len(dens)), st, 'spin channels')
        q, x, y = fresh('q', 'I'), fresh('x', 'I'), fresh('y', 'I')
        for m, d in zip(ms, dens):
            if sliced:
                nd(ex, eq(m.size, d.size), st, 'all l slices')
                nd(ex, implies(and_(q >= 0, q < d.size, x >= 0, y >= 0, x < NBAS, y < NBAS), eq(m.get(q).get(x, y), d.get(q).get(x, y))), st, 'density matrix passed on')
            else:
                nd(ex, eq(m.get(x, y), d.get(x, y)), st, 'density matrix passed on')
        upd(ex, st, this, den=B(1))

    def val(n):
        def f(ex, st, this, args, e):
            o = this.read(st).fields
            nd(ex, o['den'], st, 'density is up to date')
            return app(n, (o['el'], o['ir']), 'R')
        return f

    def ini(ex, st, this, args, e):
        upd(ex, st, this, ini=B(1), xs=K(0), cs=K(0))

    def cxc(ex, st, this, args, e):
        f, pr, th = [ex.rv(a, st) for a in args[:3]]
        o = this.read(st).fields
        nd(ex, and_(o['den'], o['ini']), st, 'density up to date and potentials cleared')
        i = fresh('i', 'I')
        isx = f.op == 'v' and f == xf
        isc = f.op == 'v' and f == cf
        if not (isx or isc):
            raise Unsupported('functional evaluated is neither of the two')
        nd(ex, eq(pr.get(i), (xp if isx else cp).get(i)), st, 'parameters of the functional')
        nd(ex, eq(th, thr), st, 'density threshold')
        if len(args) > 3:
            nd(ex, ex.rv(args[3], st), st, 'potential requested')
        upd(ex, st, this, **({'xs': o['xs'] + one} if isx else {'cs': o['cs'] + one}))

    def fl(o):
        return (o['el'], o['ir'], o['xs'], o['cs'])

    def exc(ex, st, this, args, e):
        o = this.read(st).fields
        nd(ex, and_(o['den'], o['ini']), st, 'density up to date and energies cleared')
        done(ex, st, this, de=B(1))
        return app('gEx', fl(o), 'R')

    def fock(ex, st, this, args, e):
        o = this.read(st).fields
        nd(ex, and_(o['den'], o['ini']), st, 'density up to date and potentials cleared')
        if len(dens) == 2:
            nd(ex, eq_b(ex.rv(args[2], st), beta), st, 'beta flag')
        for s in range(len(dens)):
            H = ex.rv(args[s], st)
            add = lambda q, x, y, s=s: ite(beta, app('gF%d' % s, fl(o) + (lift(q), lift(x), lift(y)), 'R'), R0) if s else app('gF0', fl(o) + (lift(q), lift(x), lift(y)), 'R')
            if sliced:
                args[s].write(st, SVec(H.size, lambda q, H=H, add=add: H.get(q).like(lambda x, y: H.get(q).get(x, y) + add(q, x, y)), H.eshape))
            else:
                args[s].write(st, H.like(lambda x, y, H=H, add=add: H.get(x, y) + add(0, x, y)))
        done(ex, st, this, df=B(1))
    w = 'DFTGridWorker::'
    con = {w + 'check_grad_tau_lapl': chk, w + 'compute_bf': bf, w + 'update_density': ud, w + 'compute_Nel': val('gNel'), w + 'compute_Ekin': val('gEk'), w + 'compute_laplsum': val('gLap'),
           w + 'init_xc': ini, w + 'compute_xc': cxc, w + 'eval_Exc': exc, w + 'eval_Fxc': fock}
    con.update({k.replace('Worker', 'WorkerBase'): v for k, v in con.items()})
    for r in (SW, AW, DW):
        con[('ctor', r)] = ctor
    con['TwoDBasis::get_rad_Nel'] = lambda ex, st, this, args, e: NEL_
    con['TwoDBasis::get_r'] = lambda ex, st, this, args, e: Mat(npt(ex.rv(args[0], st)), K(1), lambda a, b: app('grid_r', (lift(a),), 'R'), vec=True)
    con['TwoDBasis::Ndummy'] = lambda ex, st, this, args, e: ND

    def expand(ex, st, this, args, e):
        m = ex.rv(args[0], st)
        return Mat(ND, ND, lambda x, y: m.get(bm(x), bm(y)))

    def remove(ex, st, this, args, e):
        m = ex.rv(args[0], st)
        nd(ex, and_(eq(m.rows, ND), eq(m.cols, ND)), st, 'matrix in the full basis')
        return Mat(NBAS, NBAS, lambda x, y: m.get(rm(x), rm(y)))
    con['TwoDBasis::expand_boundaries'] = expand
    con['TwoDBasis::remove_boundaries'] = remove
    con['DFTGrid::prime_quadrature_cache'] = lambda ex, st, this, args, e: None
    for k in list(con):
        if isinstance(k, str) and k.startswith('TwoDBasis::'):
            con[k.replace('TwoDBasis', 'TwoDBasisT')] = con[k]
    return con


def driver(prog, rec, pol):
    out = []
    G_ = rec.replace('Worker', '')
    for x, c in ((1, 1), (1, 0), (0, 1), (0, 0)):
        xf, cf, thr, beta = var('x_func', 'I'), var('c_func', 'I'), var('thr', 'R'), var('beta', 'B')
        xp, cp = vec('xpar', var('nxp', 'I')), vec('cpar', var('ncp', 'I'))
        sl = rec == SW
        ns = 1 + pol
        if sl:
            dens = [cube('PP'), cube('PQ', var('nl2', 'I'))][:ns]
        else:
            for n in ('PP2', 'PQ2'):
                P.declare(n, 'I', 'I')
            dens = [mat('PP2', NBAS, NBAS), mat('PQ2', NBAS, NBAS)][:ns]
        want = dens if rec != DW else [Mat(ND, ND, lambda a, b, m=m: m.get(bm(a), bm(b))) for m in dens]
        p = Proof(prog, 'eval_Fxc(%s, %s)' % ('polarized' if pol else 'restricted', ' and '.join((['exchange'] if x else []) + (['correlation'] if c else [])) or 'no functional'))
        p.ex.contracts = xc_worker(p, want, xf, cf, xp, cp, thr, beta, sl)
        p.require(NBAS >= 0, ND >= 0, NEL_ >= 0, NL >= 1, var('nl2', 'I') >= 1, var('nxp', 'I') >= 0, var('ncp', 'I') >= 0, xf > 0 if x else xf <= 0, cf > 0 if c else cf <= 0)
        t = fresh('t', 'I')
        p.require(forall([t], npt(t) >= 0))
        o = symobj(p.ex, G_, 'grid', p.facts)
        o = o.set('basp', Ptr(LTemp(Obj('TwoDBasis', {}))))
        lv = p.st.new(o, 'grid')
        hsh = lambda n: cell(p, SVec(var(n + 'n', 'I'), lambda l: Mat(var(n + 'r', 'I'), var(n + 'c', 'I'), lambda a, b: app(n, (lift(l), lift(a), lift(b)), 'R')), ('mat', 'R', False)) if sl else mat(n, var(n + 'r', 'I'), var(n + 'c', 'I')), n)
        Hs = [hsh('HO%d' % s) for s in range(ns)]
        sc = [p.st.new(var(n + '0', 'R'), n) for n in ('Exc', 'Nel') + (() if sl else ('Ekin',))]
        args = [xf, cell(p, xp, 'xp'), cf, cell(p, cp, 'cp')] + [cell(p, d, 'P%d' % i) for i, d in enumerate(dens)] + Hs + sc + ([beta] if pol else []) + [thr]
        _, st = p.run(prog.find(G_ + '::eval_Fxc', nparams=len(args)), lv, args)
        p.check_throws('eval_Fxc', FALSE)

        def total(h):
            """sums over all elements; written also as even plus odd elements"""
            i, j = fresh('i', 'I'), fresh('j', 'I')
            if rec == DW:
                return [sum_(i, K(0), NEL_, sum_(j, K(0), npt(i), h(i, j)))]
            z = K(0)
            n0, n1 = idiv(NEL_ + 1, K(2)), idiv(NEL_, K(2))
            return [sum_(i, z, NEL_, h(i, z)), sum_(i, z, n0, h(2 * i, z)) + sum_(j, z, n1, h(2 * j + 1, z)), sum_(i, z, idiv(NEL_ - 1, K(2)) + 1, h(2 * i, z)) + sum_(j, z, n1, h(2 * j + 1, z))]
        X, Cc = K(x), K(c)
        p.check_any('Exc is the sum over all elements', [eq(sc[0].read(st), w) for w in total(lambda i, j: app('gEx', (i, j, X, Cc), 'R'))], st.pc)
        p.check_any('Nel is the sum over all elements', [eq(sc[1].read(st), w) for w in total(lambda i, j: app('gNel', (i, j), 'R'))], st.pc)
        if not sl:
            p.check_any('Ekin is the sum over all elements', [eq(sc[2].read(st), w) for w in total(lambda i, j: app('gEk', (i, j), 'R'))], st.pc)
        q, a, b = fresh('q', 'I'), fresh('a', 'I'), fresh('b', 'I')
        for s in range(ns):
            H = Hs[s].read(st)
            cx = st.pc + [a >= 0, a < NBAS, b >= 0, b < NBAS]
            if sl:
                cx = cx + [q >= 0, q < dens[s].size]
                p.check('H(%d): number of l slices' % s, eq(H.size, dens[s].size), st.pc)
                H = H.get(q)
            p.check('H(%d): shape' % s, and_(eq(H.rows, NBAS), eq(H.cols, NBAS)), cx)
            u, v = (rm(a), rm(b)) if rec == DW else (a, b)
            for val in ((True, False) if s else (None,)):
                cy = cx + ([beta] if val else [not_(beta)] if val is False else [])
                if val is False:
                    p.check('H(1) is zero when not requested', eq(H.get(a, b), R0), cy)
                else:
                    p.check_any('H(%d) is the sum over all elements' % s, [eq(H.get(a, b), w) for w in total(lambda i, j: app('gF%d' % s, (i, j, X, Cc, q if sl else K(0), u, v), 'R'))], cy)
        out.append(p)
    return out


@proof('C22', 'spherically averaged atom: restricted energies and potentials are sums over all elements, each visited once', TS)
def t_sad_drv(prog):
    return driver(prog, SW, 0)


@proof('C22', 'spherically averaged atom: unrestricted energies and potentials are sums over all elements, each visited once', TS)
def t_sad_drv_p(prog):
    return driver(prog, SW, 1)


@proof('C22', 'atomic grid: restricted energies and potentials are sums over all elements, each visited once', TA)
def t_at_drv(prog):
    return driver(prog, AW, 0)


@proof('C22', 'atomic grid: unrestricted energies and potentials are sums over all elements, each visited once', TA)
def t_at_drv_p(prog):
    return driver(prog, AW, 1)


@proof('C22', 'diatomic grid: restricted energies and potentials are sums over all elements and radial points, each visited once', TD)
def t_di_drv(prog):
    return driver(prog, DW, 0)


@proof('C22', 'diatomic grid: unrestricted energies and potentials are sums over all elements and radial points, each visited once', TD)
def t_di_drv_p(prog):
    return driver(prog, DW, 1)
