"""FiniteElementBasisT<double> against its contracts."""
from febasis import *
from fw import proof

TU = ['libhelfem/src/FiniteElementBasis.cpp']
VEC = 'Eigen::Matrix<double, -1, 1'
MAT = 'Eigen::Matrix<double, -1, -1'
FUN = 'std::function<'


def fef(prog, name, *pt):
    return prog.find(FE + '::' + name, len(pt), list(pt)) if False else _find(prog, name, pt)


def _find(prog, name, pt):
    c = []
    for f in prog.byq.get('helfem::polynomial_basis::FiniteElementBasisT::' + name, []) + [g for g in prog.funcs.values() if g.get('rec') == FE and g['n'] == name]:
        if f in c or f.get('rec') != FE:
            continue
        ts = [f['_ty'][p['t']]['s'] for p in f['params']]
        if len(ts) == len(pt) and all((a == t) if a in ('double', 'int', 'bool') else a in t for a, t in zip(pt, ts)):
            c.append(f)
    if len(c) != 1:
        raise Unsupported('method %s%s: %d candidates' % (name, pt, len(c)))
    return c[0]


UL = 'unsigned long'


def idx(p, name='iel'):
    v = var(name, 'I')
    p.facts.append(v >= 0)
    return v


def ptfun(fe, name, cols=None):
    """callback contract: a matrix with one row per point; row q depends on x(q) only"""
    def call(ex, st, args):
        x, iel = ex.rv(args[0], st), ex.rv(args[1], st)
        return Mat(x.size, (cols or fe.nfun)(iel), lambda q, j: app(name, (x.get(q), iel, j), 'R'))
    P.declare(name, 'R', 'I', 'I')
    return Fun(call, FALSE, name, name)


def radfun(name, null=FALSE):
    P.declare(name, 'R')
    return Fun(lambda ex, st, args: app(name, (ex.rv(args[0], st),), 'R'), null, name, name)


# ------------------------------------------------------------------ C01 numbering
@proof('C01', 'element ranges: closed form for every mesh and every primitive family', TU)
def t_update(prog):
    p = Proof(prog, 'update_bf_list', POLY)
    fe = FEObj(p, wf=False)
    r, st = p.run(fef(prog, 'update_bf_list'), fe.lv, [])
    ranges_post(p, fe, st)
    p.check_throws('update_bf_list', FALSE)
    return p


def ranges_post(p, fe, st):
    o = fe.lv.read(st)
    t = fresh('t', 'I')
    ctx = st.pc + [t >= 0, t < fe.N]
    F, L = o.fields['first_func_in_element'], o.fields['last_func_in_element']
    p.check('one first/last entry per element', and_(eq(F.size, fe.N), eq(L.size, fe.N)), st.pc)
    p.check('first(t) = t*(nprim-noverlap) - [t>0]*dropped', eq(F.get(t), fe.first(t)), ctx)
    p.check('last(t) = first(t) + enabled(t) - 1', eq(L.get(t), fe.last(t)), ctx)


@proof('C01', 'numbering lemmas: neighbours share exactly noverlap functions, non-neighbours none, full range covered', TU)
def t_lemmas(prog):
    p = Proof(prog, 'numbering lemmas')
    fe = FEObj(p)
    t, u = fresh('t', 'I'), fresh('u', 'I')
    c = p.facts + [t >= 0, t < fe.N]
    p.check('first element starts at 0', eq(fe.first(K(0)), K(0)), p.facts, 'lemma')
    p.check('neighbours share exactly noverlap functions', eq(fe.last(t) - fe.first(t + 1) + 1, fe.nov), c + [t + 1 < fe.N], 'lemma')
    p.check('non-neighbours share none', fe.last(t) < fe.first(u), c + [fe.dL + fe.dR <= fe.nov * 2, u >= t + 2, u < fe.N, fe.first(t + 2) <= fe.first(u)], 'lemma')
    p.check('element ranges are ordered', fe.first(t) <= fe.first(t + 1), c + [t + 1 < fe.N], 'lemma')
    p.check('last element ends at nbf-1', eq(fe.last(fe.N - 1) + 1, fe.nbf), p.facts, 'lemma')
    p.check('every range is inside [0,nbf)', fe.first(t) >= 0, c, 'lemma')
    return p


@proof('C01', 'get_idx / get_nbf / get_nprim / basis_indices', TU)
def t_getidx(prog):
    out = []
    p = Proof(prog, 'get_idx', POLY)
    fe = FEObj(p)
    iel = idx(p)
    p.require(iel < fe.N)
    a, b = p.st.new(var('a0', 'I'), 'ifirst'), p.st.new(var('b0', 'I'), 'ilast')
    r, st = p.run(fef(prog, 'get_idx', UL, UL, UL), fe.lv, [iel, a, b])
    p.check('ifirst', eq(a.read(st), fe.first(iel)), st.pc)
    p.check('ilast', eq(b.read(st), fe.last(iel)), st.pc)
    p.check('frame: basis unchanged', lift(fe.lv.read(st) is fe.o), st.pc)
    out.append(p)
    p = Proof(prog, 'get_nbf', POLY)
    fe = FEObj(p)
    r, st = p.run(fef(prog, 'get_nbf'), fe.lv, [])
    p.check('nbf', eq(r, fe.N * (fe.np - fe.nov) + fe.nov - fe.dL - fe.dR), st.pc)
    p.check_throws('get_nbf', FALSE)
    out.append(p)
    p = Proof(prog, 'get_nprim', POLY)
    fe = FEObj(p)
    iel = idx(p)
    p.require(iel < fe.N)
    r, st = p.run(fef(prog, 'get_nprim', UL), fe.lv, [iel])
    p.check('functions in element', eq(r, fe.nfun(iel)), st.pc)
    out.append(p)
    p = Proof(prog, 'basis_indices', POLY)
    fe = FEObj(p)
    iel = idx(p)
    p.require(iel < fe.N)
    r, st = p.run(fef(prog, 'basis_indices', UL), fe.lv, [iel])
    p.check('functions in element', eq(r.size, fe.nfun(iel)), st.pc)
    j = fresh('j', 'I')
    p.check('interior elements keep every primitive in order', eq(r.get(j), j), st.pc + [iel > 0, iel < fe.N - 1, j >= 0, j < fe.np])
    p.check('frame: the shared primitive basis is not modified', lift(fe.plv.read(st) is fe.poly), st.pc)
    out.append(p)
    return out


@proof('C01', 'constructor establishes the numbering', TU)
def t_ctor(prog):
    con = dict(POLY)
    con['FiniteElementBasisT::check_bf_continuity'] = lambda ex, st, this, args, e: None
    p = Proof(prog, 'FiniteElementBasisT()', con)
    fe = FEObj(p, wf=False)
    f = _find(prog, 'FiniteElementBasisT', ('shared_ptr', VEC, 'bool', 'bool', 'bool', 'bool'))
    this = p.st.new(p.ex.default_obj(FE), 'new')
    o = fe.o
    r, st = p.run(f, this, [Ptr(fe.plv), o.fields['bval']] + [o.fields[k] for k in ('zero_func_left', 'zero_deriv_left', 'zero_func_right', 'zero_deriv_right')])
    n = this.read(st)
    i = fresh('i', 'I')
    p.check('boundaries stored', and_(eq(n.fields['bval'].size, fe.bval.size), eq(n.fields['bval'].get(i), fe.bval.get(i))), st.pc)
    for k in ('zero_func_left', 'zero_deriv_left', 'zero_func_right', 'zero_deriv_right'):
        p.check('flag ' + k, eq(n.fields[k], o.fields[k]), st.pc)
    fe.lv = this
    ranges_post(p, fe, st)
    return p


@proof(['C01', 'C02'], 'add_boundary: sorted insertion without duplicates, numbering rebuilt', TU)
def t_addb(prog):
    p = Proof(prog, 'add_boundary', POLY)
    fe = FEObj(p)
    r0 = var('r', 'R')
    r, st = p.run(fef(prog, 'add_boundary', 'double'), fe.lv, [r0])
    o = fe.lv.read(st)
    nb = o.fields['bval']
    i, j = fresh('i', 'I'), fresh('j', 'I')
    n0 = fe.bval.size
    t = fresh('t', 'I')
    present = exists([t], and_(t >= 0, t < n0, eq(fe.bval.get(t), r0)))
    p.check('size grows by one exactly when r is new', eq(nb.size, ite(present, n0, n0 + 1)), st.pc)
    p.check('result strictly increasing', nb.get(i) < nb.get(j), st.pc + [i >= 0, i < j, j < nb.size])
    p.check('old boundaries kept', exists([t], and_(t >= 0, t < nb.size, eq(nb.get(t), fe.bval.get(i)))), st.pc + [i >= 0, i < n0])
    p.check('new boundary present', exists([t], and_(t >= 0, t < nb.size, eq(nb.get(t), r0))), st.pc)
    k = fresh('k', 'I')
    p.check('nothing else inserted', or_(eq(nb.get(k), r0), exists([t], and_(t >= 0, t < n0, eq(nb.get(k), fe.bval.get(t))))), st.pc + [k >= 0, k < nb.size])
    F, L = o.fields['first_func_in_element'], o.fields['last_func_in_element']
    fe.N = sub(nb.size, K(1))
    p.check('numbering: one entry per element', and_(eq(F.size, fe.N), eq(L.size, fe.N)), st.pc)
    p.check('numbering first', eq(F.get(k), fe.first(k)), st.pc + [k >= 0, k < fe.N])
    p.check('numbering last', eq(L.get(k), fe.last(k)), st.pc + [k >= 0, k < fe.N])
    return p


# ------------------------------------------------------------------ C02 coordinates
@proof('C02', 'element begin/end/length/midpoint/scale', TU)
def t_elem(prog):
    out = []
    b = lambda fe, i: fe.bval.get(i)
    specs = {'element_begin': lambda fe, i: b(fe, i), 'element_end': lambda fe, i: b(fe, i + 1),
             'element_length': lambda fe, i: b(fe, i + 1) - b(fe, i),
             'element_midpoint': lambda fe, i: (b(fe, i + 1) + b(fe, i)) / 2,
             'scaling_factor': lambda fe, i: (b(fe, i + 1) - b(fe, i)) / 2}
    for n, s in specs.items():
        p = Proof(prog, n, POLY)
        fe = FEObj(p)
        iel = idx(p)
        r, st = p.run(fef(prog, n, UL), fe.lv, [iel])
        p.check_throws(n, iel >= fe.N, 'logic_error')
        if r is not None:
            p.check('value', eq(r, s(fe, iel)), st.pc)
        out.append(p)
    return out


@proof('C02', 'eval_coord is the affine map of [-1,1] onto the element; eval_prim its inverse; weights scale with it', TU)
def t_coord(prog):
    out = []
    # one point
    p = Proof(prog, 'eval_coord(x,iel)', POLY)
    fe = FEObj(p)
    iel = idx(p)
    p.require(iel < fe.N)
    x = var('x', 'R')
    r, st = p.run(fef(prog, 'eval_coord', 'double', UL), fe.lv, [x, iel])
    h = (fe.bval.get(iel + 1) - fe.bval.get(iel)) / 2
    m = (fe.bval.get(iel + 1) + fe.bval.get(iel)) / 2
    p.check('affine', eq(r, m + h * x), st.pc)
    out.append(p)
    p = Proof(prog, 'eval_coord(xvec,iel)', POLY)
    fe = FEObj(p)
    iel = idx(p)
    p.require(iel < fe.N)
    xv = p.sym(('mat', 'R', True, '-1', False), 'x')
    r, st = p.run(fef(prog, 'eval_coord', VEC, UL), fe.lv, [xv, iel])
    q = fresh('q', 'I')
    p.check('size', eq(r.size, xv.size), st.pc)
    p.check('affine', eq(r.get(q), m + h * xv.get(q)), st.pc)
    p.check('left end -> element begin', eq(subst_app(r.get(q), xv.get(q), K(-1)), fe.bval.get(iel)), st.pc)
    p.check('right end -> element end', eq(subst_app(r.get(q), xv.get(q), K(1)), fe.bval.get(iel + 1)), st.pc)
    out.append(p)
    p = Proof(prog, 'eval_coord(xvec)', POLY)
    fe = FEObj(p)
    xv = p.sym(('mat', 'R', True, '-1', False), 'x')
    r, st = p.run(fef(prog, 'eval_coord', VEC), fe.lv, [xv])
    t = fresh('t', 'I')
    ht = (fe.bval.get(t + 1) - fe.bval.get(t)) / 2
    mt = (fe.bval.get(t + 1) + fe.bval.get(t)) / 2
    c = st.pc + [t >= 0, t < fe.N, q >= 0, q < xv.size]
    p.check('size', eq(r.size, fe.N * xv.size), st.pc)
    p.check('point q of element t', eq(r.get(t * xv.size + q), mt + ht * xv.get(q)), c)
    out.append(p)
    p = Proof(prog, 'eval_weights', POLY)
    fe = FEObj(p)
    wv = p.sym(('mat', 'R', True, '-1', False), 'w')
    r, st = p.run(fef(prog, 'eval_weights', VEC), fe.lv, [wv])
    c = st.pc + [t >= 0, t < fe.N, q >= 0, q < wv.size]
    ht = (fe.bval.get(t + 1) - fe.bval.get(t)) / 2
    p.check('size', eq(r.size, fe.N * wv.size), st.pc)
    p.check('weight q of element t', eq(r.get(t * wv.size + q), ht * wv.get(q)), c)
    out.append(p)
    p = Proof(prog, 'eval_prim', POLY)
    fe = FEObj(p)
    iel = idx(p)
    p.require(iel < fe.N)
    yv = p.sym(('mat', 'R', True, '-1', False), 'y')
    p.require(yv.size >= 1)
    r, st = p.run(fef(prog, 'eval_prim', VEC, UL), fe.lv, [yv, iel])
    h = (fe.bval.get(iel + 1) - fe.bval.get(iel)) / 2
    m = (fe.bval.get(iel + 1) + fe.bval.get(iel)) / 2
    a = fresh('a', 'I')
    outside = exists([a], and_(a >= 0, a < yv.size, or_(yv.get(a) < fe.bval.get(iel), yv.get(a) > fe.bval.get(iel + 1))))
    p.check_throws('eval_prim', outside, 'logic_error')
    if r is not None:
        p.check('size', eq(r.size, yv.size), st.pc)
        p.check('inverse of the affine map', eq(m + h * r.get(q), yv.get(q)), st.pc + [q >= 0, q < yv.size, h > 0])
    out.append(p)
    return out


def subst_app(t, a, v):
    return subst_term(t, a, v)


def subst_term(t, a, v):
    """replace every occurrence of the application term a"""
    memo = {}

    def go(x):
        if x is a:
            return lift(v)
        if x.uid in memo:
            return memo[x.uid]
        r = rebuild(x, [go(y) if isinstance(y, Term) else y for y in x.args]) if any(isinstance(y, Term) for y in x.args) else x
        memo[x.uid] = r
        return r
    return go(t)


def search_invs(fe, x):
    """templates over every pair of integer locals: a is left of x, b is right of x"""
    def invs(ex, S0, roots):
        cells = [r for r in roots if isinstance(ex.rd(S0, r), Term) and ex.rd(S0, r).sort == 'I']
        # all integer cells in the store, also unmodified ones
        out = []
        N = fe.N
        for r in cells:
            out.append(lambda s, r=r: and_(ex.rd(s, r) >= 0, ex.rd(s, r) < N))
            out.append(lambda s, r=r: and_(ex.rd(s, r) >= 0, ex.rd(s, r) <= N))
            out.append(lambda s, r=r: fe.bval.get(ex.rd(s, r) + 1) <= x)
            out.append(lambda s, r=r: fe.bval.get(ex.rd(s, r)) <= x)
            out.append(lambda s, r=r: x < fe.bval.get(ex.rd(s, r)))
            out.append(lambda s, r=r: x <= fe.bval.get(ex.rd(s, r)))
            out.append(lambda s, r=r: x < fe.bval.get(ex.rd(s, r) + 1))
            out.append(lambda s, r=r: x <= fe.bval.get(ex.rd(s, r) + 1))
        for a in cells:
            for b in cells:
                if a != b:
                    out.append(lambda s, a=a, b=b: ex.rd(s, a) <= ex.rd(s, b))
                    out.append(lambda s, a=a, b=b: ex.rd(s, a) + 1 < ex.rd(s, b))
        return out
    return invs


@proof('C02', 'find_element returns an element containing the point', TU)
def t_find(prog):
    p = Proof(prog, 'find_element', POLY)
    fe = FEObj(p)
    x = var('x', 'R')
    p.ex.invs = search_invs(fe, x)
    b = fe.bval
    r, st = p.run(fef(prog, 'find_element', 'double'), fe.lv, [x])
    p.check('valid element', and_(r >= 0, r < fe.N), st.pc)
    inside = [x >= b.get(K(0)), x <= b.get(fe.N)]
    p.check('contains the point (left)', b.get(r) <= x, st.pc + inside)
    p.check('contains the point (right)', x <= b.get(r + 1), st.pc + inside)
    p.check('points left of the mesh map to the first element', eq(r, K(0)), st.pc + [x < b.get(K(0))])
    p.check('points right of the mesh map to the last element', eq(r, fe.N - 1), st.pc + [x > b.get(fe.N)])
    return p


# ------------------------------------------------------------------ C08 evaluation and assembly
def enabled_at(fe, iel, j):
    """primitive index of local function j on element iel (contract of drop_first/drop_last)"""
    zl = [fe.o.fields[k] for k in ('zero_func_left', 'zero_deriv_left')]
    zr = [fe.o.fields[k] for k in ('zero_func_right', 'zero_deriv_right')]
    isf, isl = eq(iel, K(0)), eq(iel, fe.N - 1)
    szF = fe.np - ite(isf, fe.dL, K(0))
    j1 = ite(isl, app('dropLi', (j, zr[0], zr[1], szF), 'I'), j)
    return ite(isf, app('dropFi', (j1, zl[0], zl[1]), 'I'), j1)


def hlen(fe, iel): return (fe.bval.get(iel + 1) - fe.bval.get(iel)) / 2
def mid(fe, iel): return (fe.bval.get(iel + 1) + fe.bval.get(iel)) / 2


def bspec(fe, n, x, iel, j):
    """n-th derivative with respect to the physical coordinate of local function j"""
    h = hlen(fe, iel)
    return app('prim', (enabled_at(fe, iel, j), n, x, h), 'R') * power_i(h, -n)


def power_i(b, n):
    return mk('powi', (b, lift(n)), 'R')


@proof('C08', 'element evaluation: enabled primitives scaled by the chain rule', TU)
def t_evalel(prog):
    out = []
    for ov in (0, 1):
        p = Proof(prog, 'eval_dnf(x,n,iel)', POLY)
        fe = FEObj(p)
        iel = idx(p)
        p.require(iel < fe.N)
        n = var('n', 'I')
        p.require(n >= 0)
        xv = p.sym(('mat', 'R', True, '-1', False), 'x')
        if ov == 0:
            r, st = p.run(fef(prog, 'eval_dnf', VEC, 'int', UL), fe.lv, [xv, n, iel])
        else:
            m = p.st.new(default_val(('mat', 'R', False, '-1', False)), 'dnf')
            _, st = p.run(fef(prog, 'eval_dnf', VEC, MAT, 'int', UL), fe.lv, [xv, m, n, iel])
            r = m.read(st)
        q, j = fresh('q', 'I'), fresh('j', 'I')
        p.check('shape', and_(eq(r.rows, xv.size), eq(r.cols, fe.nfun(iel))), st.pc)
        p.check('value', eq(r.get(q, j), bspec(fe, n, xv.get(q), iel, j)), st.pc + [q >= 0, q < xv.size, j >= 0, j < fe.nfun(iel)])
        p.check_throws('eval_dnf', FALSE)
        out.append(p)
    return out


def c_evalel(fe):
    """contract of eval_dnf(x,n,iel) used by its callers"""
    def c(ex, st, this, args, e):
        if len(args) != 3:
            return NotImplemented
        x, n, iel = (ex.rv(a, st) for a in args)
        ex.need(and_(iel >= 0, iel < fe.N), st, 'contract-req', 'element index valid')
        return Mat(x.size, fe.nfun(iel), lambda q, j: app('B', (x.get(q), n, iel, j), 'R'))
    return c


P.declare('B', 'R', 'I', 'I', 'I')


@proof('C08', 'global evaluation: every element block lands on its own global functions, zero elsewhere', TU)
def t_evalglob(prog):
    con = dict(POLY)
    p = Proof(prog, 'eval_dnf(x,n)', con, timeout=20)
    fe = FEObj(p, abstract=True)
    con['FiniteElementBasisT::eval_dnf'] = c_evalel(fe)
    n = var('n', 'I')
    p.require(n >= 0)
    xv = p.sym(('mat', 'R', True, '-1', False), 'x')
    r, st = p.run(fef(prog, 'eval_dnf', VEC, 'int'), fe.lv, [xv, n])
    t, q, g = fresh('t', 'I'), fresh('q', 'I'), fresh('g', 'I')
    c = st.pc + [t >= 0, t < fe.N, q >= 0, q < xv.size, g >= 0, g < fe.nbf]
    p.check('shape', and_(eq(r.rows, fe.N * xv.size), eq(r.cols, fe.nbf)), st.pc)
    p.check('value', eq(r.get(t * xv.size + q, g), ite(and_(fe.first(t) <= g, g <= fe.last(t)), app('B', (xv.get(q), n, t, g - fe.first(t)), 'R'), K(0))), c)
    return p


@proof('C08', 'numbering: every element range lies inside [0,nbf)', TU)
def t_rangelemma(prog):
    p = Proof(prog, 'range lemma')
    fe = FEObj(p)
    t = fresh('t', 'I')
    c = p.facts + [t >= 0, t < fe.N]
    p.check('first(t)>=0', fe.first(t) >= 0, c, 'lemma')
    p.check('last(t)<nbf', fe.last(t) < fe.nbf, c, 'lemma')
    p.check('at least one function per element', fe.nfun(t) >= 1, c, 'lemma')
    return p


def quad_spec(fe, iel, xq, wq, a, b, f, fnull, i, j, guard=True):
    """sum_q w_q * h * a * f(r_q) * LH(x_q,i) RH(x_q,j), x_q = a xq + b; non-finite weights dropped"""
    h = hlen(fe, iel)

    def body(q):
        x = a * xq.get(q) + b
        r = mid(fe, iel) + h * x
        fv_ = app(f, (r,), 'R')
        w = ite(fnull, K(1), ite(app('isfinite', (fv_,), 'B'), fv_, K(0)) if guard else fv_)
        return wq.get(q) * h * a * w * app('LH', (x, iel, i), 'R') * app('RH', (x, iel, j), 'R')
    return Sum(K(0), xq.size, body)


@proof('C08', 'element matrix block: weighted quadrature of left * f * right over the (sub)panel', TU)
def t_matel(prog):
    p = Proof(prog, 'matrix_element(iel)', POLY)
    fe = FEObj(p, abstract=True)
    iel = idx(p)
    p.require(iel < fe.N)
    lh, rh = ptfun(fe, 'LH'), ptfun(fe, 'RH')
    fn = var('fnull', 'B')
    f = radfun('fpot', fn)
    xq, wq = (p.sym(('mat', 'R', True, '-1', False), n) for n in ('xq', 'wq'))
    p.require(eq(xq.rows, wq.rows))
    xl, xr = var('xl', 'R'), var('xr', 'R')
    r, st = p.run(fef(prog, 'matrix_element', UL, FUN, FUN, VEC, VEC, FUN, 'double', 'double'), fe.lv, [iel, lh, rh, xq, wq, f, xl, xr])
    i, j = fresh('i', 'I'), fresh('j', 'I')
    a, b = (xr - xl) / 2, (xr + xl) / 2
    p.check('shape', and_(eq(r.rows, fe.nfun(iel)), eq(r.cols, fe.nfun(iel))), st.pc)
    p.check('quadrature sum', eq(r.get(i, j), quad_spec(fe, iel, xq, wq, a, b, 'fpot', fn, i, j)), st.pc + [i >= 0, i < r.rows, j >= 0, j < r.cols])
    p.check_throws('matrix_element', FALSE)
    return p


@proof('C08', 'element vector block', TU)
def t_vecel(prog):
    p = Proof(prog, 'vector_element(iel)', POLY)
    fe = FEObj(p, abstract=True)
    iel = idx(p)
    p.require(iel < fe.N)
    lh = ptfun(fe, 'LH')
    fn = var('fnull', 'B')
    f = radfun('fpot', fn)
    xq, wq = (p.sym(('mat', 'R', True, '-1', False), n) for n in ('xq', 'wq'))
    p.require(eq(xq.rows, wq.rows))
    r, st = p.run(fef(prog, 'vector_element', UL, FUN, VEC, VEC, FUN), fe.lv, [iel, lh, xq, wq, f])
    i = fresh('i', 'I')
    h = hlen(fe, iel)
    spec = Sum(K(0), xq.size, lambda q: wq.get(q) * h * ite(fn, K(1), app('fpot', (mid(fe, iel) + h * xq.get(q),), 'R')) * app('LH', (xq.get(q), iel, i), 'R'))
    p.check('shape', eq(r.size, fe.nfun(iel)), st.pc)
    p.check('quadrature sum', eq(r.get(i), spec), st.pc + [i >= 0, i < r.rows])
    p.check_throws('vector_element', FALSE)
    return p


def c_block(fe, nargs, name='E', vec=False, at=0):
    def c(ex, st, this, args, e):
        if len(args) not in nargs:
            return NotImplemented
        iel = ex.rv(args[at], st)
        if not isinstance(iel, Term) or iel.sort != 'I':
            return NotImplemented
        ex.need(and_(iel >= 0, iel < fe.N), st, 'contract-req', 'element index valid')
        if vec:
            return Mat(fe.nfun(iel), K(1), lambda i, j: app(name, (iel, i), 'R'), vec=True)
        return Mat(fe.nfun(iel), fe.nfun(iel), lambda i, j: app(name, (iel, i, j), 'R'))
    return c


def asm_mat(fe, name, i, j):
    return Sum(K(0), fe.N, lambda t: ite(and_(fe.first(t) <= i, i <= fe.last(t), fe.first(t) <= j, j <= fe.last(t)), app(name, (t, i - fe.first(t), j - fe.first(t)), 'R'), K(0)))


@proof('C08', 'matrix assembly = sum over elements of the blocks at their global positions', TU)
def t_asm(prog):
    out = []
    for lab, name, pt in (('matrix_element', 'matrix_element', (FUN, FUN, VEC, VEC, FUN)), ('matrix_element_auto', 'matrix_element_auto', (FUN, FUN, FUN, 'std::vector', 'int'))):
        con = dict(POLY)
        p = Proof(prog, lab + ' (global)', con, timeout=20)
        fe = FEObj(p, abstract=True)
        con['FiniteElementBasisT::' + name] = c_block(fe, (6, 7, 8))
        lh, rh = ptfun(fe, 'LH'), ptfun(fe, 'RH')
        f = radfun('fpot', var('fnull', 'B'))
        if name == 'matrix_element':
            xq, wq = (p.sym(('mat', 'R', True, '-1', False), n) for n in ('xq', 'wq'))
            args = [lh, rh, xq, wq, f]
        else:
            args = [lh, rh, f, p.sym(('vec', ('sc', 'R')), 'bp'), var('deg', 'I')]
        r, st = p.run(fef(prog, name, *pt), fe.lv, args)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        c = st.pc + [i >= 0, i < fe.nbf, j >= 0, j < fe.nbf]
        p.check('shape', and_(eq(r.rows, fe.nbf), eq(r.cols, fe.nbf)), st.pc)
        p.check('sum of element blocks', eq(r.get(i, j), asm_mat(fe, 'E', i, j)), c)
        out.append(p)
    con = dict(POLY)
    p = Proof(prog, 'vector_element (global)', con, timeout=20)
    fe = FEObj(p, abstract=True)
    con['FiniteElementBasisT::vector_element'] = c_block(fe, (5,), 'Ev', True)
    xq, wq = (p.sym(('mat', 'R', True, '-1', False), n) for n in ('xq', 'wq'))
    r, st = p.run(fef(prog, 'vector_element', FUN, VEC, VEC, FUN), fe.lv, [ptfun(fe, 'LH'), xq, wq, radfun('fpot', var('fnull', 'B'))])
    i = fresh('i', 'I')
    p.check('shape', eq(r.size, fe.nbf), st.pc)
    p.check('sum of element blocks', eq(r.get(i), Sum(K(0), fe.N, lambda t: ite(and_(fe.first(t) <= i, i <= fe.last(t)), app('Ev', (t, i - fe.first(t)), 'R'), K(0)))), st.pc + [i >= 0, i < fe.nbf])
    out.append(p)
    return out
