"""Trusted contracts of the C++ standard library and Eigen operations used by the code under contract
(real arithmetic, value semantics)."""
from terms import *
import terms as T
from values import *
import values as V
from fractions import Fraction
import itertools

EPS = K(Fraction(1, 2 ** 52), 'R')
PI = var('pi', 'R')
MATH1 = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'sinh', 'cosh', 'tanh', 'acosh', 'asinh', 'atanh', 'erf', 'erfc', 'tgamma', 'lgamma', 'log1p', 'expm1', 'cbrt', 'floor', 'ceil', 'round', 'trunc', 'log2', 'log10'}


def bare(n):
    return n.split('::')[-1]


def mabs(x):
    if x.op == 'k':
        return K(abs(x.args[0]), x.sort)
    return ite(le(K(0), x), x, mul(K(-1), x))


def mathpow(b, n):
    if n.sort == 'I' or (n.op == 'k' and n.args[0].denominator == 1):
        if n.op == 'k':
            return power(b, int(n.args[0]))
        return power(b, n)
    if n.op == 'k' and n.args[0].denominator == 2:
        return mul(power(b, int(n.args[0] - Fraction(1, 2))), app('sqrt', (b,), 'R'))
    return app('pow', (b, n), 'R')


def do_memcpy(ex, vs, st):
    """copies doubles (8 bytes) between the column-major storage of matrices, vectors and std::vectors"""
    d, s, by = vs
    dv, sv = d.lv.read(st), s.lv.read(st)
    so = d.off or K(0)
    if not is0(so):
        raise Unsupported('memcpy into the middle')
    off = s.off or K(0)
    p = nf(by)
    if any(c.denominator != 1 or c % 8 for c in p.values()):
        raise Unsupported('memcpy size')
    n = to_term(Poly({k: c / 8 for k, c in p.items()}), 'I') if p else K(0)
    ex.need(and_(le(K(0), n), le(n, dv.size), le(add(off, n), sv.size)), st, 'bounds', 'memcpy inside its storage')

    def get(v, k):
        if isinstance(v, SVec):
            return v.get(k)
        if v.vec or is0(sub(v.cols, K(1))):
            return v.get(k, K(0))
        return v.get(imod(k, v.rows), idiv(k, v.rows))
    full = is0(sub(n, dv.size)) or ex.decide(eq(n, dv.size), st)

    def new(k):
        x = get(sv, add(k, off))
        return x if full else ite(lt(k, n), x, get(dv, k))
    if isinstance(dv, SVec):
        d.lv.write(st, SVec(dv.size, new, dv.eshape))
    elif dv.vec:
        d.lv.write(st, Mat(dv.rows, dv.cols, lambda i, j: new(i), dv.sort, True))
    else:
        d.lv.write(st, Mat(dv.rows, dv.cols, lambda i, j: new(add(i, mul(j, dv.rows))), dv.sort, False))
    return d


def stermvals(ex, args, st):
    return [ex.rv(a, st) for a in args]


def libcall(ex, e, this, args, st):
    q, n = e['q'], e['n']
    t = ex.ty(e['t'])
    if n in ('printf', 'fprintf', 'fflush'):
        return K(0)
    if n in ('move', 'forward', 'as_const', 'addressof') and q.startswith('std::'):
        return args[0] if n != 'addressof' else Ptr(args[0])
    if q.startswith('Eigen::') and n in ('Zero', 'Constant', 'Ones', 'Identity', 'LinSpaced', 'Random'):
        return eigen_static(ex, e, n, q, stermvals(ex, args, st), st, t)
    if n == 'swap':
        a, b = args
        va, vb = a.read(st), b.read(st)
        a.write(st, vb)
        b.write(st, va)
        return None
    if n == 'sort' and q == 'std::sort':
        return do_sort(ex, args, st, e)
    vs = stermvals(ex, args, st)
    if n in ('memcpy', 'memmove') and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
        return do_memcpy(ex, vs, st)
    if n in ('max', 'min') and q.startswith('std::') or n in ('fmax', 'fmin'):
        if len(vs) == 1 and isinstance(vs[0], SVec):
            vs = [vs[0].get(K(i)) for i in range(int(vs[0].size.args[0]))]
        a = vs[0]
        for b in vs[1:]:
            if not isinstance(b, Term):
                raise Unsupported('max with comparator')
            c = lt(a, b) if n.endswith('max') else lt(b, a)
            k = ex.decide(c, st)
            a = ite(c, b, a) if k is None else (b if k else a)
        return a
    if n in ('abs', 'fabs'):
        if vs[0].op == 'v':
            k = ex.decide(le(K(0, vs[0].sort), vs[0]), st)
            if k is not None:
                return vs[0] if k else -vs[0]
        return mabs(vs[0])
    if n == 'pow':
        return mathpow(vs[0], vs[1])
    if n == 'isfinite':
        return app('isfinite', (vs[0],), 'B')
    if n == 'isnan':
        return app('isnan', (vs[0],), 'B')
    if n in ('isinf',):
        return app('isinf', (vs[0],), 'B')
    if n in MATH1 and all(isinstance(v, Term) for v in vs):
        if vs[0].op == 'k' and n == 'sqrt' and vs[0].args[0] >= 0:
            import math
            f = vs[0].args[0]
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return K(Fraction(a, b), 'R')
        if vs[0].op == 'k' and vs[0].args[0] == -1 and n == 'acos':
            return PI
        if vs[0].op == 'k' and vs[0].args[0] == 0 and n in ('exp', 'cos', 'cosh'):
            return K(1, 'R')
        if vs[0].op == 'k' and vs[0].args[0] == 0 and n in ('sin', 'sinh', 'erf', 'tan'):
            return K(0, 'R')
        return app(n, tuple(vs), 'R')
    if n in ('atan2', 'hypot', 'fmod', 'cyl_bessel_i', 'cyl_bessel_k', 'cyl_bessel_j', 'sph_bessel'):
        return app(n, tuple(vs), 'R')
    if n == 'epsilon':
        return EPS
    if n in ('infinity', 'quiet_NaN', 'lowest', 'denorm_min') or (n in ('min', 'max') and 'numeric_limits' in q):
        if t['c'] == 'i' and n == 'max':
            return K(2 ** 31 - 1 if t.get('w') == 32 else 2 ** 63 - 1)
        return var('lim_' + n, 'R')
    if n == 'make_pair' or n == 'make_tuple' or n == 'tie':
        return Tup(vs)
    if n == 'make_shared' or n == 'make_unique':
        rec = t['rec']
        inner = split_targs(rec)[0]
        inner = strip_cv(inner)
        raise Unsupported('make_shared ' + inner)
    if n == 'get' and q == 'std::get':
        raise Unsupported('std::get')
    if n == 'to_string':
        return Str(None)
    if n in ('real', 'conj', 'imag'):
        if isinstance(vs[0], Term):
            return app(n, (vs[0],), 'R')
    if n in ('omp_get_max_threads', 'omp_get_num_threads', 'omp_get_thread_num'):
        return K(1) if n != 'omp_get_thread_num' else K(0)
    raise Unsupported('library call %s at %s' % (q, ex.loc))


def eigen_static(ex, e, n, q, vs, st, t):
    # element type from the qualified name Eigen::DenseBase<Eigen::Matrix<double, -1, 1, ...>>::Zero
    rec = e.get('rec') or q
    inner = rec[rec.index('<') + 1:rec.rindex('>')]
    sh = shape_of(inner)
    if sh[0] != 'mat':
        raise Unsupported('static ' + q)
    so, vec = sh[1], sh[2]
    ints = [v for v in vs]
    if n == 'LinSpaced':
        size, lo, hi = ints
        if so == 'I':
            # integer LinSpaced(size, lo, hi) with hi-lo = size-1 (checked)
            ex.need(eq(sub(hi, lo), sub(size, K(1))), st, 'lib-req', 'integer LinSpaced has unit step')
            return Mat(size, K(1), lambda i, j: add(lo, i), 'I', True)
        return Mat(size, K(1), lambda i, j: add(lo, div(mul(i, sub(hi, lo)), sub(size, K(1)))), 'R', True)
    fill = {'Zero': K(0, so), 'Ones': K(1, so)}.get(n)
    if n == 'Constant':
        fill = ints[-1]
        ints = ints[:-1]
    rdim, cdim = None, None
    if len(ints) == 1:
        rdim, cdim = ints[0], K(1)
        if sh[3] == '1':
            rdim, cdim = K(1), ints[0]
    elif len(ints) == 2:
        rdim, cdim = ints
    else:
        rdim, cdim = K(int(sh[3])), K(1)
    ex.need(and_(le(K(0), rdim), le(K(0), cdim)), st, 'lib-req', 'matrix dimensions non-negative')
    if n == 'Identity':
        return Mat(rdim, cdim, lambda i, j: ite(eq(i, j), K(1), K(0)), so, vec)
    if n == 'Random':
        raise Unsupported('Random')
    return Mat(rdim, cdim, lambda i, j: fill, so, vec, arr=sh[4])


def do_sort(ex, args, st, e):
    a, b = ex.rv(args[0], st), ex.rv(args[1], st)
    if len(args) > 2 or not isinstance(a, Ptr) or not isinstance(b, Ptr):
        raise Unsupported('sort form')
    base = a.lv
    o = base.read(st)
    n = o.size
    if not (is0(a.off or K(0)) and is0(sub(b.off or K(0), n))):
        raise Unsupported('partial sort')
    if n.op == 'k' and n.args[0] <= 1:
        return None
    tag = 'sorted!%d' % next(V._un)
    perm = 'perm!%d' % next(V._un)
    inv = 'pinv!%d' % next(V._un)
    so = o.sort if isinstance(o, Mat) else o.eshape[1]
    S = lambda i: app(tag, (i,), so)
    i, j = fresh('q', 'I'), fresh('q', 'I')
    rng = lambda x: and_(le(K(0), x), lt(x, n))
    old = o.get
    st.assume(forall([i, j], implies(and_(le(K(0), i), lt(i, j), lt(j, n)), le(S(i), S(j)))))
    pi = app(perm, (i,), 'I')
    qi = app(inv, (i,), 'I')
    st.assume(forall([i], implies(rng(i), and_(rng(pi), eq(S(i), old(pi)), eq(app(inv, (pi,), 'I'), i)))))
    st.assume(forall([i], implies(rng(i), and_(rng(qi), eq(S(qi), old(i)), eq(app(perm, (qi,), 'I'), i)))))
    ex.sorts = getattr(ex, 'sorts', [])
    ex.sorts.append((tag, perm, inv, n))
    if isinstance(o, Mat):
        base.write(st, o.like(lambda p, q: S(p)))
    else:
        base.write(st, SVec(n, lambda p: S(p), o.eshape))
    return None


# ------------------------------------------------------------------ methods
def view(ex, o, v, r0, c0, rows, cols, vec, st, tr=False):
    r0, c0, rows, cols = lift(r0), lift(c0), lift(rows), lift(cols)
    ex.need(and_(le(K(0), r0), le(K(0), rows), le(add(r0, rows), v.rows), le(K(0), c0), le(K(0), cols), le(add(c0, cols), v.cols)), st, 'bounds', 'matrix block within bounds')
    if isinstance(o, LV):
        return LView(o, r0, c0, rows, cols, vec)
    return Mat(rows, cols, lambda i, j: v.get(add(i, r0), add(j, c0)), v.sort, vec, v.arr)


def libmethod(ex, e, o, v, args, st):
    n = e['n']
    if isinstance(v, Mat):
        if ('mat', n) in ex.contracts:
            return ex.contracts[('mat', n)](ex, st, o, args, e)
        return mat_method(ex, e, n, o, v, args, st)
    if isinstance(v, SVec):
        return vec_method(ex, e, n, o, v, args, st)
    if isinstance(v, Ptr):
        if n == 'get':
            return Ptr(v.lv, v.off, v.isnull)
        if n in ('reset',):
            a = stermvals(ex, args, st)
            o.write(st, a[0] if a else Ptr(None))
            return None
        if n.startswith('operator bool'):
            return ex.tobool(v)
        if n == 'operator->':
            return v
        if n == 'operator*':
            return v.lv
        if v.lv is not None:
            return ex.method(e, v.lv, args, st)
    if isinstance(v, Fun):
        if n == 'operator bool':
            return not_(v.null)
        if n == 'operator()':
            return v.call(ex, st, args)
    if isinstance(v, Tup):
        if n == 'size':
            return K(len(v.items))
    if isinstance(v, Str):
        if v.s is None and v.nm and n in ('size', 'length', 'empty', 'c_str', 'data'):
            return v if n in ('c_str', 'data') else eq(var('len_' + v.nm, 'I'), K(0)) if n == 'empty' else var('len_' + v.nm, 'I')
        if v.s is not None and n in ('c_str', 'data'):
            return v
        if n in ('size', 'length'):
            return K(len(v.s)) if v.s is not None else app('strlen', (fresh('str', 'I'),), 'I')
        if n == 'empty':
            return lift(v.s == '') if v.s is not None else fresh('stre', 'B')
        return Str(None)
    if isinstance(v, Opaque):
        if n in ('str', 'c_str', 'what'):
            return Str(None)
        if 'stream' in v.what or v.what in ('cout', 'cerr'):
            return Opaque('stream')
    if isinstance(v, Term):
        if n in ('transpose', 'eval', 'real', 'value', 'sum', 'operator double'):
            return v
        if n == 'operator bool' or n == 'operator=':
            return v if n == 'operator bool' else _asg(o, st, stermvals(ex, args, st)[0])
    raise Unsupported('method %s on %r at %s' % (e.get('q', n)[:120], v, ex.loc))


def _asg(o, st, v):
    o.write(st, v)
    return o


def mat_method(ex, e, n, o, v, args, st):
    a = stermvals(ex, args, st)
    if v.diag and n not in ('rows', 'cols', 'size', 'inverse'):
        v = ex.undiag(v)
        o = v
    if n in ('size',):
        return v.size
    if n == 'rows':
        return v.rows
    if n == 'cols':
        return v.cols
    if n in ('innerSize', 'outerSize'):
        raise Unsupported(n)
    if n in ('operator()', 'operator[]', 'coeff', 'coeffRef', 'at'):
        return index(ex, o, v, a, st)
    if n == 'block':
        if len(a) == 4:
            return view(ex, o, v, a[0], a[1], a[2], a[3], False, st)
        raise Unsupported('fixed block')
    if n == 'segment':
        if v.vec or is0(sub(v.cols, K(1))):
            return view(ex, o, v, a[0], K(0), a[1], K(1), True, st)
        return view(ex, o, v, K(0), a[0], K(1), a[1], False, st)
    if n in ('head', 'tail') and len(a) == 1:
        sz = v.size
        off = K(0) if n == 'head' else sub(sz, a[0])
        if v.vec or is0(sub(v.cols, K(1))):
            return view(ex, o, v, off, K(0), a[0], K(1), True, st)
        return view(ex, o, v, K(0), off, K(1), a[0], False, st)
    if n == 'row':
        return view(ex, o, v, a[0], K(0), K(1), v.cols, False, st)
    if n == 'col':
        return view(ex, o, v, K(0), a[0], v.rows, K(1), True, st)
    if n in ('middleRows', 'topRows', 'bottomRows') and a:
        off = {'middleRows': a[0], 'topRows': K(0), 'bottomRows': sub(v.rows, a[-1])}[n]
        return view(ex, o, v, off, K(0), a[-1], v.cols, False, st)
    if n in ('middleCols', 'leftCols', 'rightCols') and a:
        off = {'middleCols': a[0], 'leftCols': K(0), 'rightCols': sub(v.cols, a[-1])}[n]
        return view(ex, o, v, K(0), off, v.rows, a[-1], False, st)
    if n in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner') and len(a) == 2:
        r0 = K(0) if n.startswith('top') else sub(v.rows, a[0])
        c0 = K(0) if 'Left' in n else sub(v.cols, a[1])
        return view(ex, o, v, r0, c0, a[0], a[1], False, st)
    if n in ('array', 'matrix', 'noalias', 'eval', 'derived', 'const_cast_derived', 'asPermutation', 'template_selfadjointView', 'selfadjointView'):
        if n == 'eval':
            return Mat(v.rows, v.cols, v.get, v.sort, v.vec, v.arr)
        arr = True if n == 'array' else False if n == 'matrix' else v.arr
        if isinstance(o, LV):
            return LView(o, K(0), K(0), v.rows, v.cols, v.vec, arr=arr) if arr != v.arr else o
        return Mat(v.rows, v.cols, v.get, v.sort, v.vec, arr)
    if n == 'transpose' or n == 'adjoint':
        if n == 'adjoint':
            return Mat(v.cols, v.rows, lambda i, j: v.get(j, i), v.sort, False, v.arr)
        return Mat(v.cols, v.rows, lambda i, j: v.get(j, i), v.sort, is0(sub(v.rows, K(1))) and False, v.arr)
    if n == 'transposeInPlace':
        o.write(st, Mat(v.cols, v.rows, lambda i, j: v.get(j, i), v.sort, False, v.arr))
        return None
    if n == 'diagonal':
        if isinstance(o, LV):
            return LDiag(o)
        return Mat(v.rows, K(1), lambda i, j: v.get(i, i), v.sort, True)
    if n == 'asDiagonal':
        return Mat(v.size, K(1), v.get if v.vec else (lambda i, j: v.get(i)), v.sort, True, diag=True)
    if n == 'reverse':
        if v.vec:
            return Mat(v.rows, v.cols, lambda i, j: v.get(sub(sub(v.rows, K(1)), i), j), v.sort, True, v.arr)
        return Mat(v.rows, v.cols, lambda i, j: v.get(sub(sub(v.rows, K(1)), i), sub(sub(v.cols, K(1)), j)), v.sort, v.vec, v.arr)
    if n in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity'):
        tgt = v
        if n in ('setZero', 'setOnes') and a:
            r = a[0]
            c = a[1] if len(a) > 1 else K(1)
            tgt = Mat(r, c, None, v.sort, v.vec, v.arr)
        if n == 'setIdentity':
            new = Mat(tgt.rows, tgt.cols, lambda i, j: ite(eq(i, j), K(1), K(0)), v.sort, v.vec, v.arr)
        else:
            f = K(0, v.sort) if n == 'setZero' else K(1, v.sort) if n == 'setOnes' else a[-1]
            new = Mat(tgt.rows, tgt.cols, lambda i, j: f, v.sort, v.vec, v.arr)
        o.write(st, new)
        return o
    if n in ('resize', 'conservativeResize'):
        if len(a) == 1:
            r, c = (a[0], K(1)) if v.vec or not is0(sub(v.rows, K(1))) else (K(1), a[0])
        else:
            r, c = a
        if isinstance(r, Opaque) or isinstance(c, Opaque):
            raise Unsupported('NoChange')
        ex.need(and_(le(K(0), r), le(K(0), c)), st, 'lib-req', 'matrix dimensions non-negative')
        tag = 'undefm!%d' % next(V._un)
        so = v.sort
        if n == 'resize':
            new = Mat(r, c, lambda i, j: app(tag, (i, j), so), so, v.vec, v.arr)
        else:
            new = Mat(r, c, lambda i, j: ite(and_(lt(i, v.rows), lt(j, v.cols)), v.get(i, j), app(tag, (i, j), so)), so, v.vec, v.arr)
        o.write(st, new)
        return None
    if n in ('allFinite', 'hasNaN'):
        # floating-point diagnostics: reals carry no information, both outcomes are explored
        return fresh('finite', 'B')
    if n == 'sum':
        return msum(v)
    if n == 'prod':
        if v.vec:
            i = fresh('p', 'I')
            return prod_(i, K(0), v.rows, v.get(i, K(0)))
    if n == 'trace':
        i = fresh('s', 'I')
        return sum_(i, K(0), v.rows, v.get(i, i))
    if n == 'value':
        return v.get(K(0), K(0))
    if n == 'dot':
        w = a[0]
        ex.need(eq(v.size, w.size), st, 'size-match', 'dot product operands have equal size')
        i = fresh('s', 'I')
        return sum_(i, K(0), v.size, mul(v.get(i), w.get(i)))
    if n in ('cwiseProduct', 'cwiseQuotient', 'cwiseMin', 'cwiseMax'):
        w = a[0]
        if n == 'cwiseProduct':
            return v.like(lambda i, j: mul(v.get(i, j), w.get(i, j)))
        if n == 'cwiseQuotient':
            return v.like(lambda i, j: div(v.get(i, j), w.get(i, j)))
    if n in ('cwiseAbs', 'abs'):
        return v.like(lambda i, j: mabs(v.get(i, j)))
    if n in ('square', 'cwiseAbs2', 'abs2'):
        return v.like(lambda i, j: power(v.get(i, j), 2))
    if n in ('cwiseInverse', 'inverse') and (n == 'cwiseInverse' or v.arr):
        return v.like(lambda i, j: power(v.get(i, j), -1))
    if n in ('sqrt', 'cwiseSqrt'):
        return v.like(lambda i, j: app('sqrt', (v.get(i, j),), 'R'))
    if n in ('exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh'):
        return v.like(lambda i, j: app(n, (v.get(i, j),), 'R'))
    if n == 'pow':
        return v.like(lambda i, j: mathpow(v.get(i, j), a[0]))
    if n == 'isNaN':
        return v.like(lambda i, j: app('isnan', (v.get(i, j),), 'B'), sort='B')
    if n == 'isFinite':
        return v.like(lambda i, j: app('isfinite', (v.get(i, j),), 'B'), sort='B')
    if n in ('any', 'all'):
        i, j = fresh('q', 'I'), fresh('q', 'I')
        rng = and_(le(K(0), i), lt(i, v.rows), le(K(0), j), lt(j, v.cols))
        if n == 'any':
            return exists([i, j], and_(rng, v.get(i, j)))
        return forall([i, j], implies(rng, v.get(i, j)))
    if n in ('maxCoeff', 'minCoeff'):
        ex.need(and_(lt(K(0), v.rows), lt(K(0), v.cols)), st, 'lib-req', n + ' of a non-empty matrix')
        return extremum(ex, n, v, args, a, st)
    if n in ('norm', 'squaredNorm'):
        i, j = fresh('s', 'I'), fresh('s', 'I')
        if v.vec:
            s = sum_(i, K(0), v.rows, power(v.get(i, K(0)), 2))
        else:
            s = sum_(i, K(0), v.rows, sum_(j, K(0), v.cols, power(v.get(i, j), 2)))
        return s if n == 'squaredNorm' else app('sqrt', (s,), 'R')
    if n == 'data':
        return Ptr(o if isinstance(o, LV) else LTemp(v), K(0))
    if n in ('begin', 'cbegin'):
        return Ptr(o if isinstance(o, LV) else LTemp(v), K(0))
    if n in ('end', 'cend'):
        return Ptr(o if isinstance(o, LV) else LTemp(v), v.size)
    if n in ('cast', 'real', 'conjugate', 'template cast'):
        if n == 'conjugate' or n == 'real':
            if 'complex' not in ex.ty(e['t'])['s']:
                return v
            return v.like(lambda i, j: app('conj' if n == 'conjugate' else 'real', (v.get(i, j),), 'R'))
        t = ex.ty(e['t'])
        return v
    if n == 'swap':
        w = args[0]
        x = w.read(st)
        w.write(st, v)
        o.write(st, x)
        return None
    if n == 'isZero':
        raise Unsupported('isZero')
    if n in ('operator=',):
        o.write(st, a[0])
        return o
    if n == 'operator-' and not a:
        return v.like(lambda i, j: mul(K(-1), v.get(i, j)))
    if n == 'colwise' or n == 'rowwise':
        return Opaque(n)
    if n.startswith('operator '):
        # conversion to scalar of a 1x1 product
        return v.get(K(0), K(0))
    raise Unsupported('Eigen method %s at %s' % (n, ex.loc))


def msum(v):
    i, j = fresh('s', 'I'), fresh('s', 'I')
    if v.vec:
        return sum_(i, K(0), v.rows, v.get(i, K(0)))
    return sum_(i, K(0), v.rows, sum_(j, K(0), v.cols, v.get(i, j)))


def extremum(ex, n, v, args, a, st):
    """fresh extremal value constrained by its definition"""
    m = fresh('ext', v.sort)
    i, j = fresh('q', 'I'), fresh('q', 'I')
    wi, wj = fresh('wi', 'I'), fresh('wj', 'I')
    rng = and_(le(K(0), i), lt(i, v.rows), le(K(0), j), lt(j, v.cols))
    if v.vec:
        j = K(0)
        rng = and_(le(K(0), i), lt(i, v.rows))
    x = v.get(i, j)
    c = le(x, m) if n == 'maxCoeff' else le(m, x)
    st.assume(forall([y for y in (i, j) if y.op == 'v'], implies(rng, c)))
    if v.vec:
        st.assume(and_(le(K(0), wi), lt(wi, v.rows), eq(v.get(wi, K(0)), m)))
    else:
        st.assume(and_(le(K(0), wi), lt(wi, v.rows), le(K(0), wj), lt(wj, v.cols), eq(v.get(wi, wj), m)))
    for p, w in zip(a, (wi, wj)):
        if isinstance(p, Ptr):
            p.lv.write(st, w)
    return m


def index(ex, o, v, a, st):
    if len(a) == 2 and any(isinstance(x, (AllRange, Mat, SVec)) for x in a):
        def sel(x, dim):
            if isinstance(x, AllRange):
                return dim, lambda i: i
            if isinstance(x, (Mat, SVec)):
                i = fresh('q', 'I')
                ex.need(forall([i], implies(and_(le(K(0), i), lt(i, x.size)), and_(le(K(0), x.get(i)), lt(x.get(i), dim)))), st, 'bounds', 'index list within bounds')
                return x.size, lambda i: x.get(i)
            ex.need(and_(le(K(0), x), lt(x, dim)), st, 'bounds', 'index within bounds')
            return K(1), lambda i: x
        r, rf = sel(a[0], v.rows)
        c, cf = sel(a[1], v.cols)
        return LIdx(o if isinstance(o, LV) else LTemp(v), r, c, rf, cf)
    if len(a) == 1 and isinstance(a[0], (Mat, SVec)):
        x = a[0]
        return LIdx(o if isinstance(o, LV) else LTemp(v), x.size, K(1), lambda i: x.get(i), lambda j: j, True)
    lv = o if isinstance(o, LV) else LTemp(v)
    r = ex.elem(lv, a, st)
    return r if isinstance(o, LV) else r.read(st)


def vec_method(ex, e, n, o, v, args, st):
    a = stermvals(ex, args, st)
    if n == 'size':
        return v.size
    if n == 'empty':
        return eq(v.size, K(0))
    if n in ('operator[]', 'at', 'operator()'):
        if n == 'at':
            ok = and_(le(K(0), a[0]), lt(a[0], v.size))
            bad = st.copy()
            bad.assume(not_(ok))
            ex.do_throw(bad, 'std::out_of_range')
            st.assume(ok)
        if isinstance(o, LV):
            return ex.elem(o, a, st)
        return ex.elem(LTemp(v), a, st).read(st)
    if n in ('push_back', 'emplace_back'):
        x = a[0] if a else default_val(v.eshape, ex)
        sz = v.size

        def g(i):
            c = eq(i, sz)
            if c is TRUE:
                return x
            if c is FALSE or v._get is V._nogets:
                if v._get is V._nogets:
                    return x
                return v.get(i)
            return merge_val(c, x, v.get(i))
        o.write(st, SVec(add(sz, K(1)), g, v.eshape if not (isinstance(x, Mat)) else v.eshape))
        return None
    if n in ('reserve', 'shrink_to_fit'):
        return None
    if n == 'clear':
        o.write(st, SVec(K(0), V._nogets, v.eshape))
        return None
    if n in ('resize', 'assign'):
        if n == 'assign':
            x = a[1]
            o.write(st, SVec(a[0], lambda i: x, v.eshape))
            return None
        sz = v.size
        x = a[1] if len(a) > 1 else default_val(v.eshape, ex, True)
        if is0(sz):
            o.write(st, SVec(a[0], lambda i: x, v.eshape))
        else:
            o.write(st, SVec(a[0], lambda i: merge_val(lt(i, sz), v.get(i), x) if lt(i, sz) not in (TRUE, FALSE) else (v.get(i) if lt(i, sz) is TRUE else x), v.eshape))
        return None
    if n in ('begin', 'cbegin', 'data'):
        return Ptr(o if isinstance(o, LV) else LTemp(v), K(0))
    if n in ('end', 'cend'):
        return Ptr(o if isinstance(o, LV) else LTemp(v), v.size)
    if n == 'front':
        return ex.elem(o if isinstance(o, LV) else LTemp(v), [K(0)], st)
    if n == 'back':
        return ex.elem(o if isinstance(o, LV) else LTemp(v), [sub(v.size, K(1))], st)
    if n == 'pop_back':
        o.write(st, SVec(sub(v.size, K(1)), v.get, v.eshape))
        return None
    raise Unsupported('vector method %s at %s' % (n, ex.loc))


# ------------------------------------------------------------------ operators
def libop(ex, e, op, args, st):
    if op == '()':
        f = ex.rv(args[0], st)
        if isinstance(f, Fun):
            if f.call is None:
                raise Unsupported('call of empty function')
            ex.need(not_(f.null), st, 'call', 'callable is non-empty')
            return f.call(ex, st, args[1:])
        if isinstance(f, Mat):
            return index(ex, args[0], f, stermvals(ex, args[1:], st), st)
        raise Unsupported('call of %r' % (f,))
    if op == '[]':
        o = args[0]
        v = ex.rv(o, st)
        a = stermvals(ex, args[1:], st)
        if isinstance(v, Mat):
            return index(ex, o, v, a, st)
        if isinstance(v, Ptr):
            return ex.elem(v.lv, [add(a[0], v.off or K(0))], st)
        if isinstance(o, LV):
            return ex.elem(o, a, st)
        return ex.elem(LTemp(v), a, st).read(st)
    if op == '->':
        p = ex.rv(args[0], st)
        if isinstance(p, Ptr):
            return p
        raise Unsupported('-> on %r' % (p,))
    if op == '*' and len(args) == 1:
        p = ex.rv(args[0], st)
        if isinstance(p, Ptr):
            return ex.elem(p.lv, [p.off], st) if p.off is not None else p.lv
        raise Unsupported('* on %r' % (p,))
    if op in ('++', '--'):
        p = args[0].read(st)
        args[0].write(st, ex.arith('+', p, K(1 if op == '++' else -1), ex.ty(e['t']), st))
        return args[0]
    if op in ('+=', '-=', '*=', '/='):
        lv = args[0]
        if not isinstance(lv, LV):
            if isinstance(lv, Str) or isinstance(lv, Opaque):
                return lv
            raise Unsupported('compound on rvalue')
        x, y = lv.read(st), ex.rv(args[1], st)
        if isinstance(x, (Str, Opaque)):
            lv.write(st, Str(None))
            return lv
        lv.write(st, matop(ex, op[0], x, y, st, lv_assign=True))
        return lv
    vs = stermvals(ex, args, st)
    if op == '-' and len(vs) == 1:
        v = vs[0]
        if isinstance(v, Term):
            return mul(K(-1), v)
        return v.like(lambda i, j: mul(K(-1), v.get(i, j)))
    if op == '!' and len(vs) == 1:
        return not_(ex.tobool(vs[0]))
    if any(isinstance(v, Mat) for v in vs) and op in '+-*/':
        return matop(ex, op, vs[0], vs[1], st)
    if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/'):
        return ex.arith(op, vs[0], vs[1], ex.ty(e['t']), st)
    raise Unsupported('operator %s on %r' % (op, vs))


def matop(ex, op, a, b, st, lv_assign=False):
    if isinstance(a, Term) and isinstance(b, Term):
        return {'+': add, '-': sub, '*': mul, '/': div}[op](a, b)
    if isinstance(a, Term):
        if op == '*':
            return b.like(lambda i, j: mul(a, b.get(i, j)), diag=b.diag) if not b.diag else _dscale(b, a)
        if op in '+-' and b.arr:
            return b.like(lambda i, j: (add if op == '+' else sub)(a, b.get(i, j)))
        if op == '/' and b.arr:
            return b.like(lambda i, j: div(a, b.get(i, j)))
        raise Unsupported('scalar %s matrix' % op)
    if isinstance(b, Term):
        if op == '*':
            return a.like(lambda i, j: mul(a.get(i, j), b)) if not a.diag else _dscale(a, b)
        if op == '/':
            return a.like(lambda i, j: div(a.get(i, j), b))
        if a.arr:
            return a.like(lambda i, j: (add if op == '+' else sub)(a.get(i, j), b))
        raise Unsupported('matrix %s scalar' % op)
    if op in '+-':
        if a.diag:
            a = ex.undiag(a)
        if b.diag:
            b = ex.undiag(b)
        ex.need(and_(eq(a.rows, b.rows), eq(a.cols, b.cols)), st, 'size-match', 'matrix sum operands have equal size')
        f = add if op == '+' else sub
        return a.like(lambda i, j: f(a.get(i, j), b.get(i, j)), vec=a.vec or b.vec)
    if op == '/':
        if a.arr and b.arr:
            ex.need(and_(eq(a.rows, b.rows), eq(a.cols, b.cols)), st, 'size-match', 'array quotient operands have equal size')
            return a.like(lambda i, j: div(a.get(i, j), b.get(i, j)))
        raise Unsupported('matrix / matrix')
    if op == '*':
        if a.arr and b.arr:
            ex.need(and_(eq(a.rows, b.rows), eq(a.cols, b.cols)), st, 'size-match', 'array product operands have equal size')
            return a.like(lambda i, j: mul(a.get(i, j), b.get(i, j)))
        if a.diag and b.diag:
            return Mat(a.rows, K(1), lambda i, j: mul(a.get(i, K(0)), b.get(i, K(0))), 'R', True, diag=True)
        if a.diag:
            ex.need(eq(a.rows, b.rows), st, 'size-match', 'diagonal product sizes match')
            return b.like(lambda i, j: mul(a.get(i, K(0)), b.get(i, j)))
        if b.diag:
            ex.need(eq(a.cols, b.rows), st, 'size-match', 'diagonal product sizes match')
            return a.like(lambda i, j: mul(a.get(i, j), b.get(j, K(0))), vec=False)
        ex.need(eq(a.cols, b.rows), st, 'size-match', 'matrix product inner dimensions match')
        n = a.cols

        def g(i, j):
            fl = getattr(b, 'flat', None)
            if fl is not None:
                k, l = fresh('s', 'I'), fresh('s', 'I')
                return sum_(k, K(0), fl.cols, sum_(l, K(0), fl.rows, mul(a.get(i, add(l, mul(k, fl.rows))), fl.get(l, k))))
            k = fresh('s', 'I')
            return sum_(k, K(0), n, mul(a.get(i, k), b.get(k, j)))
        if n.op == 'k' and n.args[0] == 1:
            g = lambda i, j: mul(a.get(i, K(0)), b.get(K(0), j))
        return Mat(a.rows, b.cols, g, 'R' if 'R' in (a.sort, b.sort) else 'I', b.vec)
    raise Unsupported('matop ' + op)


def _dscale(d, s):
    return Mat(d.rows, K(1), lambda i, j: mul(d.get(i, K(0)), s), 'R', True, diag=True)


# ------------------------------------------------------------------ constructors
def libctor(ex, e, st, t):
    q, rec = e['q'], e['rec']
    if q in ('Eigen::Matrix', 'Eigen::Array'):
        return mat_ctor(ex, e, rec, st)
    if q == 'std::vector':
        sh = shape_of(rec)
        a = [x for x in e['a'] if not (x.get('k') == 'ctor' and x['q'] == 'std::allocator')]
        if not a:
            return SVec(K(0), V._nogets, sh[1])
        vs = [ex.val(x, st) for x in a]
        if len(vs) == 1 and isinstance(vs[0], SVec):
            return SVec(vs[0].size, vs[0].get if vs[0]._get is not V._nogets else V._nogets, sh[1])
        if isinstance(vs[0], Ptr):
            if len(vs) == 2 and isinstance(vs[1], Ptr) and vs[0].lv.same(vs[1].lv):
                src = vs[0].lv.read(st)
                off = vs[0].off or K(0)
                return SVec(sub(vs[1].off, off), lambda i: src.get(add(i, off)), sh[1])
            raise Unsupported('vector(iterators)')
        ex.need(le(K(0), vs[0]), st, 'lib-req', 'vector size non-negative')
        x = vs[1] if len(vs) > 1 and not isinstance(vs[1], Opaque) else default_val(sh[1], ex, True)
        return SVec(vs[0], lambda i: x, sh[1])
    if q in ('std::allocator',):
        return Opaque('allocator')
    if q in ('std::shared_ptr', 'std::unique_ptr'):
        if not e['a']:
            return Ptr(None)
        v = ex.val(e['a'][0], st)
        return v
    if q == 'std::function':
        if not e['a']:
            return Fun(None, TRUE)
        v = ex.val(e['a'][0], st)
        if isinstance(v, Ptr) and v.lv is None:
            return Fun(None, TRUE)
        return v
    if q in ('std::pair', 'std::tuple'):
        return Tup([ex.val(x, st) for x in e['a']])
    if q.startswith('std::basic_') or q in ('std::logic_error', 'std::runtime_error', 'std::complex', 'std::out_of_range'):
        if q == 'std::complex':
            vs = [ex.val(x, st) for x in e['a']]
            if len(vs) == 1:
                return vs[0]
            if len(vs) == 2 and vs[1].op == 'k' and vs[1].args[0] == 0:
                return vs[0]
            return app('cplx', tuple(vs), 'R') if len(vs) == 2 else K(0, 'R')
        if q == 'std::basic_string' and e['a']:
            v = ex.ev(e['a'][0], st)
            v = ex.rv(v, st)
            return v if isinstance(v, Str) else Str(None)
        if q == 'std::basic_string':
            return Str('')
        return Opaque('stream')
    if q in ('Eigen::Map', 'Eigen::Ref'):
        return map_ctor(ex, e, rec, st)
    if q == 'Eigen::Stride':
        return Opaque('stride')
    if e.get('cm') and e['a']:
        return ex.val(e['a'][0], st)
    if len(e['a']) == 1 and (q.startswith('Eigen::') or q.startswith('__gnu_cxx') or q.startswith('std::')):
        return ex.ev(e['a'][0], st)
    raise Unsupported('ctor ' + q)


def mat_ctor(ex, e, rec, st):
    sh = shape_of(rec)
    so, vec = sh[1], sh[2]
    a = e['a']
    if not a:
        return default_val(sh, ex)
    vs = [ex.val(x, st) for x in a]
    if len(vs) == 1:
        v = vs[0]
        if isinstance(v, Mat):
            return ex.conv(v, {'c': 'o', 's': rec, 'ref': False})
        if isinstance(v, SVec):
            return Mat(v.size, K(1), lambda i, j: v.get(i), so, vec)
        if isinstance(v, Term):
            if so == 'R' and not vec and sh[3] != '1':
                pass
            tag = 'undefm!%d' % next(V._un)
            ex.need(le(K(0), v), st, 'lib-req', 'matrix dimensions non-negative')
            if sh[3] == '1':
                return Mat(K(1), v, lambda i, j: app(tag, (i, j), so), so, False)
            return Mat(v, K(1), lambda i, j: app(tag, (i, j), so), so, vec)
    if len(vs) == 2 and all(isinstance(v, Term) for v in vs):
        if vec and sh[3] == '2':
            return Mat(K(2), K(1), lambda i, j: ite(eq(i, K(0)), vs[0], vs[1]), so, True)
        tag = 'undefm!%d' % next(V._un)
        ex.need(and_(le(K(0), vs[0]), le(K(0), vs[1])), st, 'lib-req', 'matrix dimensions non-negative')
        # (entries outside the shape are never read, so their value is immaterial)
        ins = lambda i, j: and_(le(K(0), i), lt(i, vs[0]), le(K(0), j), lt(j, vs[1]))
        return Mat(vs[0], vs[1], lambda i, j: ite(ins(i, j), app(tag, (i, j), so), K(0, so)) if so in 'IR' else app(tag, (i, j), so), so, vec)
    raise Unsupported('matrix ctor')


def map_ctor(ex, e, rec, st):
    inner = strip_cv(split_targs(rec)[0])
    sh = shape_of(inner)
    vs = [ex.val(x, st) for x in e['a']]
    vs = [v for v in vs if not isinstance(v, Opaque)]
    p = vs[0]
    if isinstance(p, Mat):
        return p
    if not isinstance(p, Ptr):
        raise Unsupported('map of %r' % (p,))
    src = p.lv
    v = src.read(st)
    off = p.off or K(0)
    if len(vs) == 2:
        n = vs[1]
        ex.need(and_(le(K(0), off), le(K(0), n), le(add(off, n), v.size)), st, 'bounds', 'mapped range inside its storage')
        if isinstance(v, SVec):
            return Mat(n, K(1), lambda i, j: v.get(add(i, off)), sh[1], sh[2])
        if v.vec or is0(sub(v.cols, K(1))):
            return LView(src, off, K(0), n, K(1), True)
        r = Mat(n, K(1), lambda i, j: v.get(imod(add(i, off), v.rows), idiv(add(i, off), v.rows)), v.sort, True)
        if is0(off) and is0(sub(n, mul(v.rows, v.cols))):
            r.flat = v      # column-major unfolding of v: sums over it are double sums
        return r
    if len(vs) == 3:
        r, c = vs[1], vs[2]
        ex.need(and_(le(K(0), off), le(K(0), r), le(K(0), c), le(add(off, mul(r, c)), v.size)), st, 'bounds', 'mapped range inside its storage')
        if isinstance(v, SVec):
            return Mat(r, c, lambda i, j: v.get(add(off, i, mul(j, r))), sh[1], False)
        if v.vec or is0(sub(v.cols, K(1))):
            return Mat(r, c, lambda i, j: v.get(add(off, i, mul(j, r)), K(0)), v.sort, False)

        def g(i, j):
            k = add(off, i, mul(j, r))
            return v.get(imod(k, v.rows), idiv(k, v.rows))
        return Mat(r, c, g, v.sort, False)
    raise Unsupported('map ctor')
