"""Primitive polynomial families (PolynomialBasisT subclasses) against their contracts."""
from vc import *
from fw import proof
import math, os

TU = ['libhelfem/src/PolynomialBasis.cpp']
PB = 'helfem::polynomial_basis::'
DT = PB + 'detail::'


def fn1(prog, q, npar=None):
    c = [f for f in prog.funcs.values() if f['q'] == q and (npar is None or len(f['params']) == npar)]
    if len(c) != 1:
        raise Unsupported('function %s: %d candidates' % (q, len(c)))
    return c[0]


def meth(prog, rec, name, npar=None):
    c = [f for f in prog.funcs.values() if f.get('rec') == rec and f['n'] == name and (npar is None or len(f['params']) == npar)]
    if len(c) != 1:
        raise Unsupported('method %s::%s: %d candidates' % (rec, name, len(c)))
    return c[0]


VECD = ('mat', 'R', True, '-1', '')
MATD = ('mat', 'R', False, '-1', '')


def vec(p, name, minsize=0):
    n = var(name + '.n', 'I')
    p.facts.append(n >= minsize)
    return Mat(n, K(1), lambda i, j: app(name, (i,), 'R'), 'R', True, '')


def lip_prod(x, x0, N, fi, skip):
    """prod over nodes outside skip+[fi] of (x-x_p)/(x_fi-x_p)"""
    def body(ip):
        g = or_(*[eq(ip, d) for d in list(skip) + [fi]])
        return ite(g, K(1, 'R'), div(x - x0.get(ip), x0.get(fi) - x0.get(ip)))
    return Prod(K(0), N, body)


def lip_spec(n, x, x0, N, fi):
    """n-th derivative of the Lagrange polynomial: n! * sum over n-subsets {d1>...>dn} not
    containing fi of the product over the remaining nodes, over prod (x_fi - x_dk)"""
    def rec(k, hi, ds):
        if k == 0:
            r = lip_prod(x, x0, N, fi, ds)
            for d in ds:
                r = div(r, x0.get(fi) - x0.get(d))
            return r
        return Sum(K(0), hi, lambda d: ite(eq(d, fi), K(0, 'R'), rec(k - 1, d, ds + [d])))
    return mul(K(math.factorial(n), 'R'), rec(n, N, []))


def lip_run(prog, n):
    f = fn1(prog, DT + 'eval_lip_prim_dnf')
    p = Proof(prog, 'eval_lip_prim_dnf n=%d' % n)
    x, x0 = vec(p, 'x'), vec(p, 'x0')
    out = p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf')
    r, st = p.run(f, None, [x, x0, out, K(n)])
    m = out.read(st)
    p.check('rows = number of points', eq(m.rows, x.size), st.pc)
    p.check('cols = number of nodes', eq(m.cols, x0.size), st.pc)
    i, j = var('qi', 'I'), var('qj', 'I')
    pc = st.pc + [i >= 0, i < x.size, j >= 0, j < x0.size]
    p.check('value = derivative of the Lagrange polynomial', eq(m.get(i, j), lip_spec(n, x.get(i), x0, x0.size, j)), pc)
    p.check_throws('eval_lip_prim_dnf', FALSE)
    return p


THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


def mk_lip(ns):
    def t(prog):
        return [lip_run(prog, n) for n in ns]
    t.__name__ = 't_lip_%d' % ns[0]
    proof(['C03', 'C04'], 'Lagrange family: closed form of derivative orders %s' % (ns,), TU)(t)


for ns_ in ([0, 1, 2, 3, 4, 5], [6, 7, 8], [9, 10], [11], [12]):
    mk_lip(ns_)
if THOROUGH:
    for n_ in range(13, 21):
        mk_lip([n_])


@proof('C03', 'eval_lip_prim_dnf rejects unsupported orders', TU)
def t_lip_reject(prog):
    out = []
    for nm, hi in (('eval_lip_prim_dnf', 20), ('eval_hip_prim_dnf', 20), ('eval_hip2_prim_dnf', 5), ('eval_hip3_prim_dnf', 5)):
        for lab, cond in (('negative', lambda n: n < 0), ('too high', lambda n: n > hi)):
            f = fn1(prog, DT + nm)
            p = Proof(prog, '%s %s order' % (nm, lab), LIPC)
            n = var('n', 'I')
            p.require(cond(n))
            nv = len(f['params']) - (3 if nm != 'eval_lip_prim_dnf' else 2)
            vs = [vec(p, 'x0' if k == 1 else 'v%d' % k, 1) for k in range(nv)]
            o = p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf')
            p.run(f, None, vs + [o, n] + ([var('e', 'R')] if nm != 'eval_lip_prim_dnf' else []))
            p.res.append(R('every path throws', 'throws', p.st.dead, 'exec', 0.0))
            out.append(p)
    return out


@proof('C04', 'Lagrange polynomials are one at their own node and zero at the others', TU)
def t_lip_nodal(prog):
    p = Proof(prog, 'Lagrange nodal lemma')
    x0 = vec(p, 'x0', 1)
    i, j = var('qi', 'I'), var('qj', 'I')
    c = p.facts + [i >= 0, j >= 0, i < x0.size, j < x0.size]
    q = var('qp', 'I')
    g = or_(eq(q, j))
    fac = lambda x: div(x - x0.get(q), x0.get(j) - x0.get(q))
    # (a product is one when every factor is one, and zero when one factor is zero)
    dist = ne(x0.get(j), x0.get(q))
    p.check('L_j(x_j): every factor is 1', eq(fac(x0.get(j)), K(1, 'R')), c + [not_(g), dist], 'lemma')
    p.check('L_j(x_i), i /= j: the factor of node i is 0', eq(replace(fac(x0.get(i)), {x0.get(q): x0.get(i)}), K(0, 'R')), c + [ne(i, j)], 'lemma')
    p.check('L_j(x_i), i /= j: node i is not excluded', not_(replace(g, {q: i})), c + [ne(i, j)], 'lemma')
    return p


# ------------------------------------------------------------------ Hermite families
P.declare('L', 'I', 'R', 'I')
P.declare('Lr', 'I', 'R', 'I')


def c_lip(ex, st, this, args, e):
    """contract of eval_lip_prim_dnf (proved by t_lip): the n-th derivatives of the
    Lagrange polynomials of the given nodes; Lr are those without node 0"""
    x, x0, n = ex.rv(args[0], st), ex.rv(args[1], st), ex.rv(args[3], st)
    g = x0.get(K(0))
    if g.op != 'a' or g.args[0] != 'x0' or g.args[1].op != 'k' or g.args[1].args[0] not in (0, 1):
        raise Unsupported('nodes passed to eval_lip_prim_dnf: %s' % g)
    nm = 'L' if g.args[1].args[0] == 0 else 'Lr'
    args[2].write(st, Mat(x.size, x0.size, lambda i, j: app(nm, (n, x.get(i), j), 'R'), 'R', False, ''))


LIPC = {DT + 'eval_lip_prim_dnf': c_lip}


def deriv(t, x, rules):
    """formal derivative of a term with respect to the atom x; rules: function name ->
    derivative of an application whose argument is x.  Works on the normal form, whose
    guards must not depend on x."""
    p = nf(t)
    out = []
    for (b, g, f), c in p.items():
        if any(occurs(x, gg) for gg in g):
            raise Unsupported('derivative of a guarded term')
        for k, (a, e) in enumerate(f):
            if not occurs(x, a):
                continue
            if a is x:
                da = K(1, 'R')
            elif a.op == 'a' and a.args[0] in rules:
                da = rules[a.args[0]](a)
            elif a.op in ('+', '*', '^', 'ite'):
                da = deriv1(a, x, rules)
            else:
                raise Unsupported('derivative of %s' % str(a)[:80])
            rest = [power(u, (n if i != k else n - 1)) for i, (u, n) in enumerate(f)]
            m = mul(K(c, 'R'), K(e, 'R'), da, *rest)
            out.append(m if not (b or g) else guarded(b, g, m))
    return add(*out) if out else K(0, 'R')


def deriv1(a, x, rules):
    if a.op == '+':
        return add(*[deriv(u, x, rules) for u in a.args])
    if a.op == '^':
        return mul(K(a.args[1], 'R'), power(a.args[0], a.args[1] - 1), deriv(a.args[0], x, rules))
    raise Unsupported('derivative of %s' % str(a)[:80])


def guarded(b, g, m):
    if b:
        raise Unsupported('derivative under a sum')
    return ite(and_(*g), m, K(0, 'R'))


def flat(t):
    """t as a plain polynomial over its atoms with explicit case conditions"""
    out = []
    for (b, g, f), c in nf(t).items():
        m = mul(K(c, 'R'), *[power(u, e) for u, e in f])
        out.append(guarded(b, g, m) if b or g else m)
    return add(*out) if out else K(0, 'R')


def replace(t, m, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t.uid)
    if r is None:
        r = m.get(t)
        if r is None:
            r = T.rebuild(t, [replace(a, m, memo) if isinstance(a, Term) else a for a in t.args]) if any(isinstance(a, Term) for a in t.args) else t
        memo[t.uid] = r
    return r


def occurs(x, t, memo=None):
    if t is x:
        return True
    memo = {} if memo is None else memo
    r = memo.get(t.uid)
    if r is None:
        r = any(isinstance(a, Term) and occurs(x, a, memo) for a in t.args)
        memo[t.uid] = r
    return r


def dL(nm):
    def r(a):
        n = a.args[1]
        return app(nm, (add(n, K(1)),) + tuple(a.args[2:]), 'R')
    return r


DRULES = {'L': dL('L'), 'Lr': dL('Lr')}
HIPS = {'hip': ('eval_hip_prim_dnf', 1, 20), 'hip2': ('eval_hip2_prim_dnf', 2, 5), 'hip3': ('eval_hip3_prim_dnf', 3, 5)}


def hip_run(prog, fam, n):
    nm, k, _ = HIPS[fam]
    f = fn1(prog, DT + nm)
    p = Proof(prog, '%s n=%s' % (nm, n), LIPC)
    x, x0 = vec(p, 'x'), vec(p, 'x0', 1)
    lips = [vec(p, 'lipxi%d' % (m + 1)) for m in range(k)]
    for l in lips:
        p.require(eq(l.size, x0.size))
    out = p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf')
    nn = K(n) if isinstance(n, int) else n
    r, st = p.run(f, None, [x, x0] + lips + [out, nn, var('e', 'R')])
    return p, st, out, x, x0


def hip_orders(prog, fam, lo, hi):
    """E_n = dE_{n-1}/dx for n in lo..hi (and for lo=0: nodal values up to order k)"""
    nm, k, _ = HIPS[fam]
    res = []
    prev = None
    xi, i, j = None, var('qi', 'I'), var('qj', 'I')
    xa = app('x', (i,), 'R')
    for n in range(max(lo - 1, 0), hi + 1):
        p, st, out, x, x0 = hip_run(prog, fam, n)
        m = out.read(st)
        pc = st.pc + [i >= 0, i < x.size, j >= 0, j < x0.size]
        p.check('rows = number of points', eq(m.rows, x.size), st.pc)
        p.check('cols = shapes per node * nodes', eq(m.cols, x0.size * (k + 1)), st.pc)
        p.check_throws(nm, FALSE)
        cur = [m.get(i, j * (k + 1) + s) for s in range(k + 1)]
        if n >= max(lo, 1):
            for s in range(k + 1):
                p.check('shape %d: order %d is the x-derivative of order %d' % (s, n, n - 1), eq(cur[s], deriv(prev[s], xa, DRULES)), pc)
        if n <= k:
            hip_nodal(p, k, n, cur, pc, xa, x0, i, j)
        prev = cur
        res.append(p)
    return res


def hip_nodal(p, k, n, cur, pc, xa, x0, i, j):
    """x at node j: L_j = 1 and L_j^(m) = lipxi_m; x at another node: L_j = 0"""
    own = [eq(xa, x0.get(j))]
    e = var('e', 'R')
    for s in range(k + 1):
        c = flat(cur[s])
        t = replace(c, {xa: x0.get(j)})
        rep = {app('L', (K(m), x0.get(j), j), 'R'): (K(1, 'R') if m == 0 else app('lipxi%d' % m, (j,), 'R')) for m in range(0, k + 1)}
        p.check('own node: derivative %d of shape %d' % (n, s), eq(replace(t, rep), power(e, s) if n == s else K(0, 'R')), pc)
        rep = {app('L', (K(0), xa, j), 'R'): K(0, 'R')}
        p.check('other nodes: derivative %d of shape %d vanishes' % (n, s), eq(replace(c, rep), K(0, 'R')), pc)


def mk_hip(fam, lo, hi):
    def t(prog):
        return hip_orders(prog, fam, lo, hi)
    t.__name__ = 't_%s_%d' % (fam, lo)
    proof(['C03', 'C04'] if lo <= HIPS[fam][1] else ['C03'], '%s: derivative orders %d..%d' % (HIPS[fam][0], lo, hi), TU)(t)


for fam_, rng_ in (('hip', ((0, 6), (7, 11), (12, 14), (15, 17), (18, 20))), ('hip2', ((0, 3), (4, 5))), ('hip3', ((0, 2), (3, 4), (5, 5)))):
    for lo_, hi_ in rng_:
        mk_hip(fam_, lo_, hi_)


# ------------------------------------------------------------------ boundary conditions
FAMS = {'LIPBasisT': 0, 'LegendreBasisT': 0, 'HIPBasisT': 1, 'HIP2BasisT': 2, 'HIP3BasisT': 3}


def drop_spec(first, k, f, d, e, n):
    """(new size, new element) after dropping; k derivative functions per node, the
    families without derivative functions ignore the derivative flag"""
    d = and_(d, lift(k > 0))
    sz = n - ite(f, K(1), K(0)) - ite(d, K(k), K(0))
    if first:
        el = lambda i: e.get(ite(f, ite(d, i + (k + 1), i + 1), ite(and_(d, i >= 1), i + k, i)))
    else:
        # the value function of the last node sits at n-k-1
        el = lambda i: e.get(ite(and_(f, not_(d), i >= n - (k + 1)), i + 1, i))
    return sz, el


def mk_drop_proof(fam, k):
    def t(prog):
        out = []
        rec = PB + fam + '<double>'
        for first in (True, False):
            nm = 'drop_first' if first else 'drop_last'
            f = meth(prog, rec, nm, 2)
            p = Proof(prog, '%s::%s' % (fam, nm))
            o = p.obj(rec, 'b')
            e = o.fields['enabled']
            p.require(e.size >= k + 1)
            lv = p.st.new(o, 'b')
            zf, zd = var('zf', 'B'), var('zd', 'B')
            r, st = p.run(f, lv, [zf, zd])
            n = lv.read(st)
            ne_ = n.fields['enabled']
            sz, el = drop_spec(first, k, zf, zd, e, e.size)
            i = var('qi', 'I')
            p.check('exactly the violating functions are removed (count)', eq(ne_.size, sz), st.pc)
            p.check('every other function is kept in order', eq(ne_.get(i), el(i)), st.pc + [i >= 0, i < sz])
            p.check('frame: nothing else changes', lift(all(n.fields[x] is o.fields[x] for x in o.fields if x != 'enabled')), st.pc)
            p.check_throws(nm, FALSE)
            out.append(p)
        return out
    t.__name__ = 't_drop_' + fam
    proof('C05', '%s: drop_first / drop_last for all flags' % fam, TU)(t)


for fam_, k_ in FAMS.items():
    mk_drop_proof(fam_, k_)


# ------------------------------------------------------------------ B(r)/r on the first element
OVERR = {'hip': ('eval_hip_prim_over_r', 1), 'hip2': ('eval_hip2_prim_over_r', 2), 'hip3': ('eval_hip3_prim_over_r', 3)}


def overr_run(prog, fam, n):
    nm, k = OVERR[fam]
    f = fn1(prog, DT + nm)
    p = Proof(prog, '%s n=%d' % (nm, n), LIPC)
    x, x0 = vec(p, 'x'), vec(p, 'x0', 2)
    lips = [vec(p, 'lipxi%d' % (m + 1)) for m in range(k)]
    for l in lips:
        p.require(eq(l.size, x0.size))
    en = Mat(var('enabled.n', 'I'), K(1), lambda i, j: app('enabled', (i,), 'I'), 'I', True, '')
    q = fresh('q', 'I')
    p.require(en.size >= 1, forall([q], implies(and_(q >= 0, q < en.size), and_(en.get(q) >= 1, en.get(q) < x0.size * (k + 1)))))
    out = p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf')
    r, st = p.run(f, None, [x, x0] + lips + [en, out, K(n), var('e', 'R')])
    return p, st, out, x, x0, en


def mk_overr(fam):
    nm, k = OVERR[fam]

    def t(prog):
        res = []
        i, c, nd = var('qi', 'I'), var('qc', 'I'), var('nd', 'I')
        xa, e = app('x', (i,), 'R'), var('e', 'R')
        p0, st0, o0, x, x0 = hip_run(prog, fam, 0)
        E0 = [o0.read(st0).get(i, nd * (k + 1) + s) for s in range(k + 1)]
        prev = {}
        for n in range(3):
            p, st, out, x, x0, en = overr_run(prog, fam, n)
            m = out.read(st)
            p.check('rows = points', eq(m.rows, x.size), st.pc)
            p.check('one column per surviving function', eq(m.cols, en.size), st.pc)
            p.check_throws(nm, FALSE)
            for node0 in (True, False):
                for s in range(k + 1):
                    if node0 and s == 0:
                        continue
                    b = K(0) if node0 else nd
                    ix = K(s) if node0 else nd * (k + 1) + s
                    pc = st.pc + [i >= 0, i < x.size, c >= 0, c < en.size, eq(en.get(c), ix), nd >= 1, nd < x0.size]
                    v = replace(flat_div(flat(m.get(i, c)), en.get(c), b, s, k + 1), {en.get(c): ix})
                    lab = 'node 0' if node0 else 'node i'
                    if n == 0:
                        B = replace(flat(E0[s]), {nd: b})
                        if node0:
                            rep = {x0.get(K(0)): K(-1, 'R')}
                        else:
                            rep = {app('L', (K(0), xa, nd), 'R'): mul(div(xa + 1, x0.get(nd) + 1), app('Lr', (K(0), xa, nd - 1), 'R'))}
                        p.check('%s, shape %d: r * (B/r) = B' % (lab, s), eq(mul(e, xa + 1, v if not node0 else replace(flat(v), rep)), replace(B, rep)), pc)
                    else:
                        p.check('%s, shape %d: order %d is the r-derivative of order %d' % (lab, s, n, n - 1), eq(mul(e, v), deriv(prev[node0, s], xa, DRULES)), pc)
                    prev[node0, s] = v
            res.append(p)
        return res
    t.__name__ = 't_overr_' + fam
    proof('C06', '%s: deflated values and derivatives' % nm, TU)(t)


def flat_div(t, en, node, kind, m):
    """replace en/m and en%m by the node and kind en stands for"""
    return replace(t, {idiv(en, K(m)): node, imod(en, K(m)): K(kind)})


for fam_ in OVERR:
    mk_overr(fam_)


@proof('C06', 'over_r: unsupported orders, empty bases and singular functions are rejected; first Lagrange factor', TU)
def t_overr_reject(prog):
    out = []
    for fam, (nm, k) in OVERR.items():
        f = fn1(prog, DT + nm)
        for lab, cond in (('negative order', lambda n, en: [n < 0]), ('order above 2', lambda n, en: [n > 2]), ('no function left', lambda n, en: [eq(en.size, K(0))]),
                          ('value function at the origin kept', lambda n, en: [en.size >= 1, eq(en.get(K(0)), K(0))])):
            p = Proof(prog, '%s: %s' % (nm, lab), LIPC)
            n = var('n', 'I')
            vs = [vec(p, 'x0' if q == 1 else 'v%d' % q, 1) for q in range(2 + k)]
            en = Mat(var('enabled.n', 'I'), K(1), lambda i, j: app('enabled', (i,), 'I'), 'I', True, '')
            p.require(en.size >= 0, *cond(n, en))
            o = p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf')
            p.run(f, None, vs + [en, o, n, var('e', 'R')])
            p.res.append(R('every path throws', 'throws', p.st.dead, 'exec', 0.0))
            out.append(p)
    p = Proof(prog, 'deflation lemma')
    x0 = vec(p, 'x0', 2)
    x, j = var('x', 'R'), var('qj', 'I')
    # prod over all nodes but j = (factor of node 0) * (prod over nodes 1.. but j) when j >= 1
    p.check('factor of node 0 is (x+1)/(x_j+1)', eq(div(x - x0.get(K(0)), x0.get(j) - x0.get(K(0))), div(x + 1, x0.get(j) + 1)), p.facts + [eq(x0.get(K(0)), K(-1, 'R')), ne(x0.get(j), K(-1, 'R')), j >= 1], 'lemma')
    out.append(p)
    return out


def polyobj(p, fam):
    rec = PB + fam + '<double>'
    o = p.obj(rec, 'b')
    return rec, o


@proof('C06', 'LIPBasisT::eval_over_r', TU)
def t_overr_lip(prog):
    rec = PB + 'LIPBasisT<double>'
    f = meth(prog, rec, 'eval_over_r', 4)
    res = []
    p = Proof(prog, 'LIPBasisT::eval_over_r', LIPC)
    o = p.obj(rec, 'b')
    x, x0 = vec(p, 'x'), vec(p, 'x0', 2)
    en = Mat(var('enabled.n', 'I'), K(1), lambda i, j: app('enabled', (i,), 'I'), 'I', True, '')
    o.fields['x0'], o.fields['enabled'] = x0, en
    n, e = var('n', 'I'), var('e', 'R')
    q = fresh('q', 'I')
    p.require(n >= 0, en.size >= 1, forall([q], implies(and_(q >= 0, q < en.size), and_(en.get(q) >= 1, en.get(q) < x0.size))))
    lv = p.st.new(o, 'b')
    out = p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf')
    r, st = p.run(f, lv, [x, out, n, e])
    m = out.read(st)
    i, c = var('qi', 'I'), var('qc', 'I')
    pc = st.pc + [i >= 0, i < x.size, c >= 0, c < en.size]
    p.check('rows', eq(m.rows, x.size), st.pc)
    p.check('one column per surviving function', eq(m.cols, en.size), st.pc)
    # d^n/dr^n [ (x+1)/(x_i+1) Lr / (e (x+1)) ] = Lr^(n) / ((x_i+1) e^(n+1))
    p.check('value = n-th r-derivative of L_i / r', eq(m.get(i, c), div(app('Lr', (n, x.get(i), en.get(c) - 1), 'R'), mul(x0.get(en.get(c)) + 1, e, mk('powi', (e, n), 'R')))), pc)
    p.check_throws('eval_over_r', FALSE)
    res.append(p)
    for lab, cond in (('no function left', lambda en: [eq(en.size, K(0))]), ('value function at the origin kept', lambda en: [en.size >= 1, eq(en.get(K(0)), K(0))])):
        p = Proof(prog, 'LIPBasisT::eval_over_r: ' + lab, LIPC)
        o = p.obj(rec, 'b')
        o.fields['x0'], o.fields['enabled'] = vec(p, 'x0', 2), en
        p.require(en.size >= 0, *cond(en))
        p.run(f, p.st.new(o, 'b'), [vec(p, 'x'), p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf'), n, e])
        p.res.append(R('every path throws', 'throws', p.st.dead, 'exec', 0.0))
        res.append(p)
    return res


MEM = {'HIPBasisT': ['lipxi'], 'HIP2BasisT': ['lipxi', 'lipxi2'], 'HIP3BasisT': ['lipxi', 'lipxi2', 'lipxi3']}
SHORT = {'LIPBasisT': 'lip', 'HIPBasisT': 'hip', 'HIP2BasisT': 'hip2', 'HIP3BasisT': 'hip3'}


def rec_args(log):
    def c(ex, st, this, args, e):
        log.append([ex.rv(a, st) for a in args])
        return None
    return c


@proof(['C03', 'C04', 'C06'], 'family classes hand their own nodes and nodal derivatives to the evaluators', TU)
def t_forward(prog):
    """eval_prim_dnf / eval_over_r of every family: the arguments reach the detail functions unchanged"""
    out = []
    for fam in SHORT:
        rec = PB + fam + '<double>'
        for mn, dn in (('eval_prim_dnf', 'eval_%s_prim_dnf'), ('eval_over_r', 'eval_%s_prim_over_r')):
            if fam == 'LIPBasisT' and mn == 'eval_over_r':
                continue
            f = meth(prog, rec, mn, 4)
            log = []
            p = Proof(prog, '%s::%s' % (fam, mn), {DT + dn % SHORT[fam]: rec_args(log)})
            o = p.obj(rec, 'b')
            lv = p.st.new(o, 'b')
            x = vec(p, 'x')
            n, e = var('n', 'I'), var('e', 'R')
            d = p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf')
            p.run(f, lv, [x, d, n, e])
            names = ['x0'] + MEM.get(fam, []) + (['enabled'] if mn == 'eval_over_r' else [])
            want = [x] + [o.fields[k] for k in names]
            ok = len(log) == 1 and len(log[0]) >= len(want) + 2
            p.res.append(R('the evaluator is called once', 'ensures', ok, 'exec', 0.0))
            if ok:
                a = log[0]
                i = var('qi', 'I')
                for nm, u, w in zip(['x'] + names, a, want):
                    p.check('argument ' + nm, and_(eq(u.size, w.size), eq(u.get(i), w.get(i))), p.st.pc)
                p.check('derivative order', eq(a[len(want) + 1], n), p.st.pc)
                if len(a) > len(want) + 2:
                    p.check('element length', eq(a[len(want) + 2], e), p.st.pc)
            out.append(p)
    return out


@proof(['C03', 'C05'], 'eval_dnf selects the enabled functions and applies the chain rule', ['libhelfem/src/FiniteElementBasis.cpp'])
def t_evaldnf(prog):
    rec = PB + 'PolynomialBasisT<double>'
    f = meth(prog, rec, 'eval_dnf', 4)
    P.declare('prim', 'I', 'I', 'R', 'R')

    def c_prim(ex, st, this, args, e):
        x = ex.rv(args[0], st)
        n, L = ex.rv(args[2], st), ex.rv(args[3], st)
        args[1].write(st, Mat(x.size, this.read(st).fields['nprim'], lambda i, j: app('prim', (j, n, x.get(i), L), 'R')))
    p = Proof(prog, 'PolynomialBasisT::eval_dnf', {('virt', rec, 'eval_prim_dnf'): c_prim})
    o = p.obj(rec, 'b')
    en = o.fields['enabled']
    q = fresh('q', 'I')
    p.require(o.fields['nprim'] >= 1, forall([q], implies(and_(q >= 0, q < en.size), and_(en.get(q) >= 0, en.get(q) < o.fields['nprim']))))
    lv = p.st.new(o, 'b')
    x = vec(p, 'x')
    n, L = var('n', 'I'), var('e', 'R')
    p.require(n >= 0)
    d = p.st.new(Mat(K(0), K(0), lambda i, j: K(0, 'R'), 'R', False, ''), 'dnf')
    r, st = p.run(f, lv, [x, d, n, L])
    m = d.read(st)
    i, c = var('qi', 'I'), var('qc', 'I')
    p.check('shape', and_(eq(m.rows, x.size), eq(m.cols, en.size)), st.pc)
    p.check('column c is primitive enabled(c) over element_length^n', eq(m.get(i, c), div(app('prim', (en.get(c), n, x.get(i), L), 'R'), mk('powi', (L, n), 'R'))), st.pc + [i >= 0, i < x.size, c >= 0, c < en.size])
    p.check_throws('eval_dnf', FALSE)
    return p


@proof(['C03', 'C04', 'C05'], 'constructors: counts, function list and nodal derivatives', TU)
def t_ctors(prog):
    out = []
    for fam in SHORT:
        rec = PB + fam + '<double>'
        k = FAMS[fam]
        c = [g for g in prog.funcs.values() if g.get('rec') == rec and g['n'] == fam and len(g['params']) == 2]
        if len(c) != 1:
            raise Unsupported('%s: %d constructors' % (fam, len(c)))
        p = Proof(prog, fam + '()', LIPCX)
        x = vec(p, 'x0', 2)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        p.require(forall([i, j], implies(and_(i >= 0, i < j, j < x.size), x.get(i) <= x.get(j))), eq(x.get(K(0)), K(-1, 'R')), eq(x.get(x.size - 1), K(1, 'R')))
        this = p.st.new(p.ex.default_obj(rec), 'new')
        idd = var('id', 'I')
        p.run(c[0], this, [x, idd])
        o = this.read(p.st)
        pc = p.st.pc
        q = fresh('q', 'I')
        p.check('nprim = functions per node * nodes', eq(o.fields['nprim'], x.size * (k + 1)), pc)
        p.check('noverlap = functions per node', eq(o.fields['noverlap'], K(k + 1)), pc)
        p.check('nnodes', eq(o.fields['nnodes'], x.size), pc)
        p.check('id', eq(o.fields['id'], idd), pc)
        en = o.fields['enabled']
        p.check('all functions enabled in order', and_(eq(en.size, x.size * (k + 1)), eq(en.get(q), q)), pc + [q >= 0, q < en.size])
        p.check('nodes stored in order', and_(eq(o.fields['x0'].size, x.size), eq(o.fields['x0'].get(q), x.get(q))), pc + [q >= 0, q < x.size])
        for m, nm in enumerate(MEM.get(fam, [])):
            v = o.fields[nm]
            p.check('%s = own-node derivative of order %d' % (nm, m + 1), and_(eq(v.size, x.size), eq(v.get(q), app('L', (K(m + 1), x.get(q), q), 'R'))), pc + [q >= 0, q < x.size])
        p.check_throws(fam, FALSE)
        out.append(p)
    return out


def c_sort(ex, st, this, args, e):
    """std::sort on an already sorted range leaves it unchanged (the nodes are passed sorted)"""
    return None


LIPCX = dict(LIPC)
LIPCX['std::sort'] = c_sort
