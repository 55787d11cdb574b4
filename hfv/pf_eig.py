"""Half-inverse overlap and generalized eigenproblems."""
from vc import *
from fw import proof

SCF = ['src/general/scf_helpers.cpp']
UTL = ['libhelfem/src/utils.cpp']
SUCC = None


def delta(i, j): return ite(eq(i, j), K(1, 'R'), K(0, 'R'))


class Solver:
    """Contracts assumed for Eigen's SelfAdjointEigenSolver, LLT and inverse: the matrix handed over is recorded;
    for a symmetric matrix A the solver reports success or not and in the former case returns V, w with
    V^T V = V V^T = 1, V^T A V = diag(w) and w ascending; LLT returns L with L L^T = A; inverse returns W with
    A W = W A = 1."""

    def __init__(self, tag):
        self.t, self.A, self.n, self.kind = tag, None, None, None

    def V(self, i, k): return app('V_' + self.t, (lift(i), lift(k)), 'R')
    def w(self, k): return app('w_' + self.t, (lift(k),), 'R')
    def L(self, i, k): return app('L_' + self.t, (lift(i), lift(k)), 'R')
    def W(self, i, k): return app('W_' + self.t, (lift(i), lift(k)), 'R')

    def take(self, ex, st, args, kind):
        A = ex.rv(args[0], st)
        if self.A is not None:
            raise Unsupported('second decomposition in one function')
        self.A, self.n, self.kind = A, A.rows, kind
        ex.need(eq(A.rows, A.cols), st, 'contract-req', 'matrix to decompose is square')
        i, j = fresh('i', 'I'), fresh('j', 'I')
        ex.need(forall([i, j], implies(and_(i >= 0, i < A.rows, j >= 0, j < A.rows), eq(A.get(i, j), A.get(j, i)))), st, 'contract-req', 'matrix to decompose is symmetric')
        return Obj('solver', {})

    def contracts(self):
        k = {('ctor', 'Eigen::SelfAdjointEigenSolver'): lambda ex, st, this, args, e: self.take(ex, st, args, 'eig'),
             ('ctor', 'Eigen::LLT'): lambda ex, st, this, args, e: self.take(ex, st, args, 'llt')}
        for c in ('SelfAdjointEigenSolver', 'LLT'):
            k[c + '::info'] = lambda ex, st, this, args, e: ite(var('ok_' + self.t, 'B'), K(0), K(1))
        k['SelfAdjointEigenSolver::eigenvalues'] = lambda ex, st, this, args, e: Mat(self.n, K(1), lambda i, j: self.w(i), 'R', True)
        k['SelfAdjointEigenSolver::eigenvectors'] = lambda ex, st, this, args, e: Mat(self.n, self.n, lambda i, j: self.V(i, j))
        k['LLT::matrixL'] = lambda ex, st, this, args, e: Mat(self.n, self.n, lambda i, j: self.L(i, j))
        return k


def fn(prog, q):
    c = [f for f in prog.funcs.values() if f['q'] == q]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (q, len(c)))
    return c[0]


def S2(n, f):
    i, j = fresh('i', 'I'), fresh('j', 'I')
    return sum_(i, K(0), n, sum_(j, K(0), n, f(i, j)))


@proof('C21', 'generalized eigenproblem: C = Sinvh V, E ascending, C^T F C = diag(E); C^T S C = 1 whenever Sinvh^T S Sinvh = 1', SCF)
def t_eig(prog):
    s = Solver('f')
    p = Proof(prog, 'eig_gsym', contracts=s.contracts())
    f = fn(prog, 'helfem::scf::eig_gsym')
    N, M = var('N', 'I'), var('M', 'I')
    p.require(N >= 1, M >= 1)
    F = Mat(N, N, lambda i, j: app('F', (i, j), 'R') + app('F', (j, i), 'R'))
    X = Mat(N, M, lambda i, j: app('X', (i, j), 'R'))
    E, C = p.st.new(p.param(f, 0, 'E0'), 'E'), p.st.new(p.param(f, 1, 'C0'), 'C')
    r, st = p.run(f, None, [E, C, F, X])
    p.check_throws('eig_gsym', not_(var('ok_f', 'B')), 'logic_error')
    E, C = E.read(st), C.read(st)
    k, l = fresh('k', 'I'), fresh('l', 'I')
    ctx = st.pc + [k >= 0, k < M, l >= 0, l < M]
    p.check('one solution per column of Sinvh', and_(eq(E.rows, M), eq(C.rows, N), eq(C.cols, M)), st.pc)
    p.check('eigenvalues are the ascending ones of the solver', eq(E.get(k, 0), s.w(k)), ctx)
    # C^T F C = V^T (A) V with A the matrix handed to the solver
    p.check('C^T F C = V^T A V', eq(S2(N, lambda i, j: C.get(i, k) * F.get(i, j) * C.get(j, l)), S2(M, lambda a, b: s.V(a, k) * s.A.get(a, b) * s.V(b, l))), ctx)
    # ... = diag(w) by the solver's contract.  Overlap: C^T S C = V^T (X^T S X) V, X^T S X = 1
    Sm = Mat(N, N, lambda i, j: app('S', (i, j), 'R'))
    p.check('C^T S C = V^T (Sinvh^T S Sinvh) V', eq(S2(N, lambda i, j: C.get(i, k) * Sm.get(i, j) * C.get(j, l)),
                                                    S2(M, lambda a, b: s.V(a, k) * S2(N, lambda i, j: X.get(i, a) * Sm.get(i, j) * X.get(j, b)) * s.V(b, l))), ctx)
    a = fresh('a', 'I')
    p.check('V^T 1 V = V^T V', eq(S2(M, lambda a, b: s.V(a, k) * delta(a, b) * s.V(b, l)), sum_(a, K(0), M, s.V(a, k) * s.V(a, l))), ctx)
    # projected eigenvalue equation X^T F C = A V (= V diag(w)) and X^T S C = (X^T S X) V
    b = fresh('b', 'I')
    p.check('Sinvh^T F C = A V', eq(S2(N, lambda i, j: X.get(i, k) * F.get(i, j) * C.get(j, l)), sum_(a, K(0), M, s.A.get(k, a) * s.V(a, l))), ctx)
    p.check('Sinvh^T S C = (Sinvh^T S Sinvh) V', eq(S2(N, lambda i, j: X.get(i, k) * Sm.get(i, j) * C.get(j, l)), sum_(a, K(0), M, S2(N, lambda i, j: X.get(i, k) * Sm.get(i, j) * X.get(j, a)) * s.V(a, l))), ctx)
    return p


@proof('C21', 'half-inverse overlap orthonormalises: Sinvh^T S Sinvh = 1, by symmetric and by Cholesky orthonormalisation', UTL)
def t_invh(prog):
    out = []
    for chol in (False, True):
        s = Solver('s')
        con = s.contracts()
        rec = {}

        def c_inv(ex, st, this, args, e):
            U = ex.rv(this, st)
            rec['U'] = U
            return Mat(U.rows, U.rows, lambda i, j: s.W(i, j))
        con[('mat', 'inverse')] = c_inv
        p = Proof(prog, 'invh %s' % ('cholesky' if chol else 'symmetric'), contracts=con)
        f = fn(prog, 'helfem::utils::invh')
        N = var('N', 'I')
        p.require(N >= 1)
        S = Mat(N, N, lambda i, j: app('S', (i, j), 'R') + app('S', (j, i), 'R'))
        r, st = p.run(f, None, [S, lift(chol)])
        p.check_throws('invh', not_(var('ok_s', 'B')), 'logic_error')
        a, b, k = (fresh(x, 'I') for x in 'abk')
        ctx = st.pc + [a >= 0, a < N, b >= 0, b < N]
        p.check('size', and_(eq(r.rows, N), eq(r.cols, N)), st.pc)
        lhs = S2(N, lambda i, j: r.get(i, a) * S.get(i, j) * r.get(j, b))
        if not chol:
            sv = lambda k: power(s.w(k), -1) * app('sqrt', (s.w(k),), 'R')
            VAV = lambda k, l: S2(N, lambda i, j: s.V(i, k) * s.A.get(i, j) * s.V(j, l))
            tot = lambda Q: S2(N, lambda k, l: s.V(a, k) * sv(k) * Q(k, l) * sv(l) * s.V(b, l))
            p.check('Sinvh^T S Sinvh = V w^-1/2 (V^T A V) w^-1/2 V^T', eq(lhs, tot(VAV)), ctx)
            # V^T A V = diag(w)
            p.check('V w^-1/2 diag(w) w^-1/2 V^T = V (w^-1/2 w w^-1/2) V^T', eq(tot(lambda k, l: s.w(k) * delta(k, l)), sum_(k, K(0), N, s.V(a, k) * s.V(b, k) * (sv(k) * s.w(k) * sv(k)))), ctx)
            p.check('w^-1/2 w w^-1/2 = 1', eq(sv(k) * s.w(k) * sv(k), 1), ctx + [s.w(k) > 0])
            # V V^T = 1
        else:
            U = rec['U']
            WAW = S2(N, lambda i, j: s.W(i, a) * s.A.get(i, j) * s.W(j, b))
            p.check('Sinvh^T S Sinvh = W^T A W', eq(lhs, WAW), ctx)
            # A = L L^T
            UW = lambda k, c: sum_(b, K(0), N, U.get(k, b) * s.W(b, c))
            LL = lambda i, j: sum_(k, K(0), N, s.L(i, k) * s.L(j, k))
            i, j = fresh('i', 'I'), fresh('j', 'I')
            c, d = fresh('c', 'I'), fresh('d', 'I')
            UWk = lambda k, c: sum_(i, K(0), N, U.get(k, i) * s.W(i, c))
            p.check('W^T (L L^T) W = (U W)^T (U W) with U = L^T', eq(S2(N, lambda i, j: s.W(i, a) * LL(i, j) * s.W(j, b)), sum_(c, K(0), N, UWk(c, a) * UWk(c, b))), ctx)
            # U W = 1
            p.check('1^T 1 = 1', eq(sum_(c, K(0), N, delta(c, a) * delta(c, b)), delta(a, b)), ctx)
        out.append(p)
    return out
