"""Discharging obligations: algebraic normal form first, then z3 (and cvc5 on unknown)."""
import time, z3
from fractions import Fraction
from terms import *
import terms as T

FSIG = {}          # function name -> tuple of arg sorts


def declare(name, *sorts):
    FSIG[name] = sorts


for _f in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'abs', 'erf', 'erfc', 'sinh', 'cosh', 'tanh', 'acosh', 'asin', 'acos', 'atan', 'log1p', 'expm1', 'tgamma', 'lgamma', 'trunc', 'floor', 'ceil', 'round'):
    declare(_f, 'R')
declare('pow', 'R', 'R')


PREFIX = []        # (bound variable, summand, keys): running totals with several monomials


def prefix_family(b, g):
    """a running total sum_{0 <= b < U} g(b); growth is used only where g >= 0 follows from the context"""
    v, u = T.fresh('pf', 'I'), T.fresh('pu', 'I')
    g = subst(g, {b: v})
    try:
        ks = [k for k, t, b_, U, rest in prefix_keys(Exporter(), [a for (bs, gs, fs), c in nf(T.sum_(v, T.K(0), u, g)).items() for a in [T.mk('SM', (bs, gs, fs), 'I')] if len(bs) == 1])
              if U is u]
    except TooBig:
        return
    ks = frozenset(ks)
    if len(ks) > 1 and all(k != ks for _, _, k in PREFIX):
        PREFIX.append((v, g, ks))


def prefix_keys(ex, l):
    pre = []
    can = T.var('#ps', 'I')
    for t in l:
        b, out = ex.prefix(t)
        for U, rest in out:
            try:
                q = frozenset(rest) | {le(b, can)}
                key = (to_term(nf(T.mk('SM', ((b,), q, t.args[2]), 'I')), 'I').uid, t.args[2] == ())
            except (TooBig, AttributeError, AssertionError):
                continue
            pre.append((key, t, b, U, rest))
    return pre


class Exporter:
    def __init__(self, linear=False):
        self.memo = {}
        self.funcs = {}
        self.apps = {}
        self.linear = linear      # nonlinear integer monomials become opaque ints + product lemmas
        self.monos = {}

    def mono(self, f):
        """opaque integer for a product of atoms (f: sorted tuple of (atom, exp>0))"""
        if len(f) == 1 and f[0][1] == 1:
            return self.ex(f[0][0])
        r = self.monos.get(f)
        if r is None:
            r = z3.Int('m$' + '_'.join('%d^%d' % (a.uid, e) for a, e in f))
            self.monos[f] = r
        return r

    def lincmp(self, t):
        """linearised integer comparison, or None when not applicable"""
        p = padd(nf(t.args[0]), nf(t.args[1]), -1)
        den = 1
        for (b, g, f), c in p.items():
            if b or g or any(e <= 0 or a.sort != 'I' for a, e in f):
                return None
            den = T._lcm(den, c.denominator)
        if not any(len(f) > 1 or (f and f[0][1] > 1) for (b, g, f) in p):
            return None
        tot = z3.IntVal(0)
        for (b, g, f), c in p.items():
            k = int(c * den)
            tot = tot + (k if not f else k * self.mono(f))
        return tot <= 0 if t.op == '<=' else tot < 0 if t.op == '<' else tot == 0

    def prodlemmas(self):
        ax = []
        views = {}        # rest monomial -> [(x expr, m expr)]
        done = 0
        while done < len(self.monos) and done < 60:
            todo = list(self.monos.items())[done:]
            done = len(self.monos)
            for f, m in todo:
                for a, e in f:
                    rest = tuple((b, k - (1 if b is a else 0)) for b, k in f)
                    rest = tuple((b, k) for b, k in rest if k > 0)
                    views.setdefault(rest, []).append((self.ex(a), m))
                    if sum(k for b, k in rest) > 1:
                        self.mono(rest)
        for rest, l in views.items():
            R = self.mono(rest)
            l = l + [(z3.IntVal(0), z3.IntVal(0)), (z3.IntVal(1), R)]
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    (x, m), (y, n) = l[i], l[j]
                    if j == len(l) - 1 and i == len(l) - 2:
                        continue
                    ax.append(z3.Implies(z3.And(R >= 0, x >= y + 1), m >= n + R))
                    ax.append(z3.Implies(z3.And(R >= 0, y >= x + 1), n >= m + R))
                    ax.append(z3.Implies(x == y, m == n))
        return ax

    def fn(self, name, sorts, sort):
        k = (name, tuple(sorts), sort)
        f = self.funcs.get(k)
        if f is None:
            zs = [{'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s] for s in sorts]
            rs = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[sort]
            f = z3.Function(name + ('' if not self._clash(name, k) else '@%d' % len(self.funcs)), *(zs + [rs]))
            self.funcs[k] = f
        return f

    def _clash(self, name, k):
        return any(n == name for (n, _s, _r) in self.funcs)

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def ex(self, t):
        r = self.memo.get(t.uid)
        if r is None:
            r = self._ex(t)
            self.memo[t.uid] = r
        return r

    def num(self, t, sort):
        e = self.ex(t)
        if sort == 'R':
            return self.real(e)
        if z3.is_real(e) and not z3.is_int(e):
            return z3.ToInt(e)
        return e

    def _ex(self, t):
        o = t.op
        a = t.args
        if o == 'k':
            v = a[0]
            if v.denominator == 1 and t.sort == 'I':
                return z3.IntVal(int(v))
            return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        if o == 'v':
            return {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[t.sort](a[0])
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o in ('+', '*'):
            xs = [self.ex(x) for x in a]
            if any(z3.is_real(x) for x in xs):
                xs = [self.real(x) for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if o == '+' else r * x
            return r
        if o == '^':
            b = self.ex(a[0])
            n = a[1]
            if n < 0:
                b = self.real(b)
                r = b
                for _ in range(-n - 1):
                    r = r * b
                return 1 / r
            r = b
            for _ in range(n - 1):
                r = r * b
            return r
        if o == 'powi':
            f = self.fn('powi', ['R', 'I'], 'R')
            self.apps[t.uid] = t
            return f(self.num(a[0], 'R'), self.num(a[1], 'I'))
        if o in ('idiv', 'imod'):
            x, y = self.ex(a[0]), self.ex(a[1])
            q = z3.If(x >= 0, x / y, -((-x) / y))
            # C truncation (divisor positive)
            return q if o == 'idiv' else x - y * q
        if o in ('<=', '<', '='):
            if self.linear and a[0].sort == 'I' and a[1].sort == 'I':
                try:
                    r = self.lincmp(t)
                except TooBig:
                    r = None
                if r is not None:
                    return r
            x, y = self.ex(a[0]), self.ex(a[1])
            if z3.is_real(x) != z3.is_real(y):
                x, y = self.real(x), self.real(y)
            return x <= y if o == '<=' else x < y if o == '<' else x == y
        if o == 'iff':
            return self.ex(a[0]) == self.ex(a[1])
        if o == 'not':
            return z3.Not(self.ex(a[0]))
        if o == 'and':
            return z3.And(*[self.ex(x) for x in a])
        if o == 'or':
            return z3.Or(*[self.ex(x) for x in a])
        if o == 'ite':
            x, y = self.ex(a[1]), self.ex(a[2])
            if z3.is_real(x) != z3.is_real(y):
                x, y = self.real(x), self.real(y)
            return z3.If(self.ex(a[0]), x, y)
        if o == 'forall':
            vs = [self.ex(v) for v in a[2:]]
            return z3.ForAll(vs, self.ex(a[1]))
        if o == 'a':
            name = a[0]
            sig = FSIG.get(name)
            args = []
            ss = []
            for i, x in enumerate(a[1:]):
                if not isinstance(x, Term):
                    name += '[%s]' % (x,)
                    continue
                s = sig[i] if sig and i < len(sig) else x.sort
                e = self.ex(x)
                if s == 'R':
                    e = self.real(e)
                elif s == 'I' and z3.is_real(e):
                    e = z3.ToInt(e)
                args.append(e)
                ss.append(s)
            self.apps[t.uid] = t
            if not args:
                return {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[t.sort](name + '()')
            return self.fn(name, ss, t.sort)(*args)
        if o == 'SM' and not a[0]:
            at = T.K(1, t.sort)
            for u, e in a[2]:
                at = mul(at, power(u, e))
            x = self.num(at, t.sort)
            return z3.If(z3.And(*[self.ex(g) for g in a[1]]), x, z3.RealVal(0) if t.sort == 'R' else z3.IntVal(0))
        if o in ('sum', 'prod', 'SM', 'PM'):
            tt = to_term(nf(t), t.sort) if o in ('sum', 'prod') else t
            if tt.op in ('sum', 'prod', 'SM', 'PM'):
                vs = sorted(fv(tt), key=lambda v: v.uid)
                # function of its free variables, keyed by the canonical body
                name = '%s$%d' % (tt.op, tt.uid)
                # abstract over free variables: use canonical renaming so that congruence works
                ren = {v: T.var('#f%d%s' % (i, v.sort), v.sort) for i, v in enumerate(vs)}
                cb = to_term(nf(subst(tt, ren)), t.sort)
                name = '%s$%d' % (tt.op, cb.uid)
                self.apps[tt.uid] = tt
                if not vs:
                    return z3.Real(name) if t.sort == 'R' else z3.Int(name)
                return self.fn(name, [v.sort for v in vs], t.sort)(*[self.ex(v) for v in vs])
            return self.ex(tt)
        raise TypeError('export ' + o)

    def prefix(self, t):
        """[(U, rest)] for a one-variable sum over {s < U and rest(s)}, rest and the term as functions of s"""
        bs, gs, fs = t.args
        b = bs[0]
        out = []
        for g in gs:
            if g.op != '<=' or b not in fv(g):
                continue
            try:
                p = padd(nf(g.args[0]), nf(g.args[1]), -1)
            except TooBig:
                continue
            co = None
            ok = True
            for (b2, g2, f2), c in p.items():
                if b2 or g2:
                    ok = ok and not any(b in fv(x) for x in list(g2) + [a for a, e in f2])
                elif len(f2) == 1 and f2[0] == (b, 1):
                    co = c
                elif any(b in fv(a) for a, e in f2):
                    ok = False
            if not ok or co is None or co <= 0:
                continue
            if co != 1:
                continue
            rest = Poly()
            for k_, c in p.items():
                if k_ != ((), frozenset(), ((b, 1),)):
                    rest[k_] = -c
            U = add(to_term(rest, 'I') if rest else T.K(0), T.K(1))      # s < U
            out.append((U, frozenset(x for x in gs if x is not g)))
        return b, out

    def sumlemmas(self):
        """prefix sums of a non-negative term grow: valid facts about pairs of sums that differ in the upper bound only"""
        l = [t for t in list(self.apps.values()) if t.op == 'SM' and len(t.args[0]) == 1 and t.sort == 'I']
        l = list({self.ex(t).get_id(): t for t in reversed(l)}.values())[::-1][:14]      # bound-variable renamings count once
        pre = prefix_keys(self, l)
        ax = []
        # the same sum taken at the bound of another one (its value there names the term added next)
        for i in range(len(pre)):
            k1, t1, b1, U1, r1 = pre[i]
            S1 = self.ex(t1)
            nn = self.nonneg(t1, b1, r1)
            ax.append(z3.Implies(nn, S1 >= 0))
            for j in range(len(pre)):
                k2, t2, b2, U2, r2 = pre[j]
                if i == j or k1 != k2:
                    continue
                S2 = self.ex(t2)
                u1, u2 = self.ex(U1), self.ex(U2)
                at = T.K(1)
                for a, e in t1.args[2]:
                    at = mul(at, power(subst(a, {b1: U1}), e))
                g = z3.And(*[self.ex(subst(x, {b1: U1})) for x in r1]) if r1 else z3.BoolVal(True)
                step = z3.If(g, self.num(at, 'I'), z3.IntVal(0))
                ax.append(z3.Implies(z3.And(nn, u1 < u2), S1 + step <= S2))
                ax.append(z3.Implies(u2 == u1 + 1, S2 == S1 + step))
                if not t1.args[2]:
                    ax.append(z3.Implies(u1 < u2, S2 <= S1 + step + u2 - u1 - 1))
                ax.append(z3.Implies(u1 == u2, S1 == S2))
        for t in l:
            a = self.arith(t)
            if a is not None:
                ax.append(a[0] * self.ex(t) == a[1])
        for v, g, ks in PREFIX:
            us = []
            for k, t, b, U, r in pre:
                if k in ks and U not in us:
                    us.append(U)
            if not us or len(us) > 5:
                continue
            s = T.fresh('nn', 'I')
            z = self.ex(s)
            gz = self.ex(subst(g, {v: s}))
            nn = lambda u: z3.ForAll([z], z3.Implies(z3.And(z >= 0, z < u), gz >= 0))
            tot = lambda U: self.ex(to_term(nf(T.sum_(v, T.K(0), U, g)), 'I'))
            S = [tot(U) for U in us]
            ue = [self.ex(U) for U in us]
            for i in range(len(us)):
                step = self.ex(subst(g, {v: us[i]}))
                ax.append(z3.Implies(nn(ue[i]), S[i] >= 0))
                for j in range(len(us)):
                    if i != j:
                        ax.append(z3.Implies(z3.And(nn(ue[j]), ue[i] >= 0, ue[i] < ue[j]), S[i] + step <= S[j]))
                        ax.append(z3.Implies(ue[i] == ue[j], S[i] == S[j]))
        return ax

    def arith(self, t):
        """closed form of sum over lo <= b < hi of c*b^p (p <= 2), c free of b"""
        (b,), gs, fs = t.args
        p, co = 0, T.K(1)
        for a, e in fs:
            if a is b:
                p = e
            elif b in fv(a):
                return None
            else:
                co = mul(co, power(a, e))
        if p not in (0, 1, 2):
            return None
        lo, hi, rest = [], [], []
        for g in gs:
            if b not in fv(g):
                rest.append(g)
                continue
            if g.op != '<=':
                return None
            try:
                q = padd(nf(g.args[0]), nf(g.args[1]), -1)
            except TooBig:
                return None
            c = q.pop(((), frozenset(), ((b, 1),)), None)
            if c not in (1, -1) or any(b2 or g2 or any(b in fv(a) for a, e in f2) for (b2, g2, f2) in q):
                return None
            r = to_term(Poly({k: (-x if c == 1 else x) for k, x in q.items()}), 'I') if q else T.K(0)
            (hi if c == 1 else lo).append(self.ex(r) + (1 if c == 1 else 0))
        if not lo or not hi:
            return None
        L, U = lo[0], hi[0]
        for x in lo[1:]:
            L = z3.If(x > L, x, L)
        for x in hi[1:]:
            U = z3.If(x < U, x, U)
        n = U - L
        den, tot = (1, n) if p == 0 else (2, U * (U - 1) - L * (L - 1)) if p == 1 else (6, (U - 1) * U * (2 * U - 1) - (L - 1) * L * (2 * L - 1))
        g = z3.And(L < U, *[self.ex(x) for x in rest])
        return den, z3.If(g, self.num(co, 'I') * tot, z3.IntVal(0))

    def nonneg(self, t, b, rest):
        fs = t.args[2]
        if all(e % 2 == 0 for a, e in fs):
            return z3.BoolVal(True)
        s = T.fresh('nn', 'I')
        at = T.K(1)
        for a, e in fs:
            at = mul(at, power(subst(a, {b: s}), e))
        h = [self.ex(subst(x, {b: s})) for x in t.args[1]]
        z = self.ex(s)
        return z3.ForAll([z], z3.Implies(z3.And(*h), self.num(at, 'I') >= 0))

    def axioms(self):
        ax = self.sumlemmas()
        byf = {}
        for t in list(self.apps.values()):
            if t.op == 'powi':
                b = self.num(t.args[0], 'R')
                e = self.ex(t)
                n = self.num(t.args[1], 'I')
                ax.append(z3.Implies(b > 0, e > 0))
                ax.append(z3.Implies(n == 0, e == 1))
                ax.append(z3.Implies(n == 1, e == b))
                ax.append(z3.Implies(z3.And(b == 0, n > 0), e == 0))
                ax.append(z3.Implies(z3.And(b > 0, b < 1, n > 0), e < 1))
                ax.append(z3.Implies(z3.And(b > 1, n > 0), e > 1))
                byf.setdefault('powi', []).append(t)
                continue
            if t.op != 'a':
                continue
            byf.setdefault(t.args[0], []).append(t)
            f = t.args[0]
            if f == 'sqrt':
                x = self.num(t.args[1], 'R')
                e = self.ex(t)
                ax += [z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)), z3.Implies(x > 0, e > 0)]
            elif f in ('exp', 'cosh'):
                ax.append(self.ex(t) > 0)
                if f == 'exp':
                    x = self.num(t.args[1], 'R')
                    e = self.ex(t)
                    ax += [z3.Implies(x == 0, e == 1), z3.Implies(x > 0, e > 1), z3.Implies(x < 0, e < 1)]
                    for l in byf.get('log', []):
                        y = self.num(l.args[1], 'R')
                        ax.append(z3.Implies(z3.And(x == self.ex(l), y > 0), e == y))
            elif f == 'log':
                x = self.num(t.args[1], 'R')
                e = self.ex(t)
                ax += [z3.Implies(x == 1, e == 0), z3.Implies(x > 1, e > 0), z3.Implies(z3.And(x > 0, x < 1), e < 0)]
            elif f == 'abs':
                x = self.num(t.args[1], 'R')
                ax.append(self.ex(t) == z3.If(x >= 0, x, -x))
            elif f == 'pow':
                b = self.num(t.args[1], 'R')
                p = self.num(t.args[2], 'R')
                e = self.ex(t)
                ax += [z3.Implies(b > 0, e > 0), z3.Implies(b == 1, e == 1), z3.Implies(z3.And(b == 0, p > 0), e == 0), z3.Implies(p == 1, e == b)]
                u = t.args[1]
                if u.op == 'a' and u.args[0] == 'pow':
                    b2, p2 = self.num(u.args[1], 'R'), self.num(u.args[2], 'R')
                    ax.append(z3.Implies(z3.And(b2 >= 0, p * p2 == 1), e == b2))
        for f in ('sqrt', 'exp', 'log'):
            l = byf.get(f, [])
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    x, y = self.num(l[i].args[1], 'R'), self.num(l[j].args[1], 'R')
                    e, g = self.ex(l[i]), self.ex(l[j])
                    if f in ('sqrt', 'log'):
                        ax.append(z3.Implies(z3.And(x >= 0 if f == 'sqrt' else x > 0, x < y), e < g))
                        ax.append(z3.Implies(z3.And(y >= 0 if f == 'sqrt' else y > 0, y < x), g < e))
                    else:
                        ax.append((x < y) == (e < g))
        l = byf.get('pow', [])
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                if l[i].args[2] is l[j].args[2]:
                    x, y, p = self.num(l[i].args[1], 'R'), self.num(l[j].args[1], 'R'), self.num(l[i].args[2], 'R')
                    e, g = self.ex(l[i]), self.ex(l[j])
                    ax.append(z3.Implies(z3.And(x >= 0, x < y, p > 0), e < g))
                    ax.append(z3.Implies(z3.And(y >= 0, y < x, p > 0), g < e))
        l = byf.get('powi', [])
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                x, y, p, q = self.num(l[i].args[0], 'R'), self.num(l[j].args[0], 'R'), self.num(l[i].args[1], 'I'), self.num(l[j].args[1], 'I')
                e, g = self.ex(l[i]), self.ex(l[j])
                ax.append(z3.Implies(z3.And(p == q, x >= 0, x < y, p > 0), e < g))
                ax.append(z3.Implies(z3.And(p == q, y >= 0, y < x, p > 0), g < e))
        return ax


STATS = {'nf': 0, 'z3': 0, 'cvc5': 0, 'time': 0.0, 'queries': 0}


def z3check(goal, ctx, timeout=8.0, want_model=False, quick=False, linonly=False):
    """True if ctx |= goal, False if refuted (model), None unknown"""
    t0 = time.time()
    if quick:
        ctx = [c for c in ctx if T.small(c)]
    # first attempt: linearised integer products (sound abstraction + valid lemmas)
    try:
        ex = Exporter(linear=True)
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        g = ex.ex(goal)
        for c in ctx:
            s.add(ex.ex(c))
        n = -1
        lem = []
        if ex.monos or linonly:
            lem = ex.prodlemmas()
            for a in lem + ex.axioms():
                s.add(a)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                STATS['queries'] += 1
                STATS['time'] += time.time() - t0
                return True
            if linonly:
                STATS['queries'] += 1
                STATS['time'] += time.time() - t0
                return None
    except z3.Z3Exception:
        if linonly:
            return None
    ex = Exporter()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    try:
        g = ex.ex(goal)
        cs = [ex.ex(c) for c in ctx]
        for c in cs:
            s.add(c)
        for a in ex.axioms():
            s.add(a)
        s.add(z3.Not(g))
    except z3.Z3Exception as e:
        STATS['time'] += time.time() - t0
        return None
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if r == z3.unsat:
        return True
    if r == z3.sat:
        if want_model:
            return ('sat', str(s.model())[:4000])
        return False
    return None


def z3decide(c, ctx, timeout):
    """True / False when ctx entails c / not c, else None (cheap; both questions on one solver)"""
    t0 = time.time()
    ctx = [x for x in ctx if T.small(x)]
    try:
        for linear in (True, False):
            ex = Exporter(linear=linear)
            s = z3.Solver()
            s.set('timeout', int(timeout * 1000))
            g = ex.ex(c)
            cs = [ex.ex(x) for x in ctx]
            if linear and not ex.monos:
                continue
            for x in cs:
                s.add(x)
            for x in (ex.prodlemmas() if linear else []) + ex.axioms():
                s.add(x)
            for goal, ans in ((z3.Not(g), True), (g, False)):
                s.push()
                s.add(goal)
                r = s.check()
                s.pop()
                STATS['queries'] += 1
                if r == z3.unsat:
                    return ans
    except z3.Z3Exception:
        pass
    finally:
        STATS['time'] += time.time() - t0
    return None


def relevant(ctx, goal):
    return ctx


def ite_conds(t, bound=frozenset(), out=None, seen=None):
    """conditions of ite nodes that mention no bound variable (outermost first)"""
    if out is None:
        out, seen = [], set()
    if t.uid in seen:
        return out
    seen.add(t.uid)
    if t.op == 'ite' and not (fv(t.args[0]) & bound) and t.args[0] not in out:
        out.append(t.args[0])
    b2 = bound
    if t.op in ('sum', 'prod'):
        b2 = bound | {t.args[0]}
    elif t.op == 'forall':
        b2 = bound | set(t.args[2:])
    for a in t.args:
        if isinstance(a, Term):
            ite_conds(a, b2, out, seen)
    return out


def assume_cond(t, c, val, memo=None):
    """t with every ite on condition c resolved"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t.uid)
        if r is not None:
            return r
        if t.op == 'ite' and t.args[0] is c:
            r = go(t.args[1] if val else t.args[2])
        elif t is c:
            r = TRUE if val else FALSE
        elif t.op in ('sum', 'prod') and t.args[0] not in fv(c):
            r = T.mk(t.op, (t.args[0],) + tuple(go(a) for a in t.args[1:]), t.sort)
        elif t.op in ('v', 'k', 'sum', 'prod', 'forall', 'SM', 'PM'):
            r = t
        else:
            r = T.rebuild(t, [go(a) if isinstance(a, Term) else a for a in t.args])
        memo[t.uid] = r
        return r
    return go(t)


def eq_subst(c):
    """an integer equation usable as a substitution {var: term}"""
    if c.op != '=' or c.args[0].sort != 'I':
        return None
    a, b = c.args
    for x, y in ((a, b), (b, a)):
        if x.op == 'v' and x not in fv(y):
            return {x: y}
    return None


def _kids(t):
    if t.op == 'SM':
        bs, gs, fs = t.args
        return list(gs) + [a for a, e in fs], bs
    if t.op == 'PM':
        v, gs, b = t.args
        return list(gs) + [b], (v,)
    if t.op in ('sum', 'prod'):
        return list(t.args[1:]), (t.args[0],)
    if t.op == 'forall':
        return [t.args[1]], tuple(t.args[2:])
    return [a for a in t.args if isinstance(a, T.Term)], ()


def replace(t, m, memo):
    """replace subterms (by identity); m's terms contain no bound variable of t"""
    if t in m:
        return m[t]
    r = memo.get(t.uid)
    if r is not None:
        return r
    go = lambda x: replace(x, m, memo)
    if t.op == 'SM':
        bs, gs, fs = t.args
        r = T.mk('SM', (bs, tuple(go(g) for g in gs), tuple((go(a), e) for a, e in fs)), t.sort)
    elif t.op == 'PM':
        v, gs, b = t.args
        r = T.mk('PM', (v, tuple(go(g) for g in gs), go(b)), t.sort)
    elif t.op in ('sum', 'prod'):
        r = T.mk(t.op, (t.args[0],) + tuple(go(a) for a in t.args[1:]), t.sort)
    elif t.op == 'forall':
        r = forall(list(t.args[2:]), go(t.args[1]))
    else:
        a = [go(a) if isinstance(a, T.Term) else a for a in t.args]
        r = t if all(x is y for x, y in zip(a, t.args)) else T.rebuild(t, a)
    memo[t.uid] = r
    return r


def divsimp(goal, ctx):
    """(q*n + r) div n = q and (q*n + r) mod n = r when the context gives 0 <= r < n and q >= 0"""
    for _ in range(4):
        seen, bound, hits, todo = set(), set(), [], [goal]
        while todo:
            t = todo.pop()
            if t.uid in seen:
                continue
            seen.add(t.uid)
            ks, bs = _kids(t)
            bound.update(bs)
            todo += ks
            if t.op in ('idiv', 'imod') and t.args[1].op != 'k':
                hits.append(t)
        m = {}
        for t in hits[:40]:
            a, n = t.args
            if fv(t) & bound or any(x.op in ('idiv', 'imod') for x in _kids(a)[0] + [a]):
                continue
            try:
                p, pn = nf(a), nf(n)
            except TooBig:
                continue
            if len(pn) != 1:
                continue
            (b1, g1, f1), c1 = next(iter(pn.items()))
            if b1 or g1 or len(f1) != 1 or f1[0][1] != 1 or c1 != 1:
                continue
            at = f1[0][0]
            q, r = Poly(), Poly()
            for (b2, g2, f2), c in p.items():
                d = dict(f2)
                if not b2 and d.get(at, 0) >= 1 and c.denominator == 1:
                    d[at] -= 1
                    k = (b2, g2, tuple((x, e) for x, e in f2 if x is not at) if not d[at] else tuple((x, e - (x is at)) for x, e in f2))
                    q[k] = c
                else:
                    r[(b2, g2, f2)] = c
            tq, tr = (to_term(q, 'I') if q else T.K(0)), (to_term(r, 'I') if r else T.K(0))
            if z3check(and_(le(T.K(0), tr), lt(tr, n), le(T.K(0), tq)), ctx, 2.0, quick=True) is True:
                m[t] = tq if t.op == 'idiv' else tr
        if not m:
            return goal
        goal = replace(goal, m, {})
    return goal


def prove(goal, ctx, timeout=8.0):
    goal = divsimp(goal, ctx)
    r = prove0(goal, ctx, timeout)
    if r is not None or goal.op in ('and', 'forall'):
        return r
    r = split(goal, ctx, timeout, 5)
    if r is None and goal.op == '=' and goal.args[0].sort == 'R' and sums_in(goal) >= 2:
        try:
            a, b = [simp(x, list(ctx), {}) for x in goal.args]
            return prove_eq(a, b, ctx, timeout)
        except TooBig:
            return None
    return r


def sums_in(t, d=0):
    if d > 12:
        return 0
    return (1 if t.op == 'sum' else 0) + sum(sums_in(x, d + 1) for x in t.args if isinstance(x, Term) and x.op in ('+', '*', 'sum', '='))


def decide(g, ctx, memo):
    k = (g.uid, tuple(c.uid for c in ctx))
    if k not in memo:
        memo[k] = True if z3check(g, ctx, 1.0, quick=True) is True else False if z3check(not_(g), ctx, 1.0, quick=True) is True else None
    return memo[k]


def simp(t, ctx, memo):
    """the same value under ctx: bodies of sums lose the cases their index range excludes"""
    if t.op == 'sum':
        v, lo, hi, body = t.args
        w = fresh('s', 'I')
        c2 = ctx + [le(lo, w), lt(w, hi)]
        P = nf(simp(subst(body, {v: w}), c2, memo))
        out = Poly()
        for (b, gs, f), c in P.items():
            bs = set(b)
            keep, dead = [], False
            for g in gs:
                if not (fv(g) & bs):
                    r = decide(g, c2, memo)
                    if r is False:
                        dead = True
                        break
                    if r is True:
                        continue
                keep.append(g)
            if not dead and len(keep) > 1 and z3check(FALSE, c2 + keep, 1.0, quick=True) is True:
                dead = True
            if not dead:
                m = (b, frozenset(keep), f)
                out[m] = out.get(m, 0) + c
                if out[m] == 0:
                    del out[m]
        return sum_(w, lo, hi, to_term(out, t.sort))
    if t.op in ('+', '*'):
        f = add if t.op == '+' else mul
        return f(*[simp(x, ctx, memo) for x in t.args])
    return t


def split(goal, ctx, timeout, depth):
    """case analysis on conditional expressions without bound variables"""
    cs = ite_conds(goal)
    if not cs or depth <= 0:
        return None
    c = cs[0]
    live = []
    for val in (True, False):
        g = assume_cond(goal, c, val)
        cc = ctx + [c if val else not_(c)]
        if val:
            for e in (c.args if c.op == 'and' else (c,)):
                m = eq_subst(e)
                if m:
                    g = subst(g, m)
                    cc = [subst(x, m) for x in cc]
                    if FALSE in cc:
                        break
        if FALSE in cc or z3check(FALSE, cc, 1.0, quick=True) is True:
            continue
        if g is TRUE:
            continue
        live.append((g, cc))
    for g, cc in live:
        if prove0(g, cc, timeout) is None and split(g, cc, timeout, depth - 1 if len(live) > 1 else depth - 0.5) is None:
            return None
    return 'split+z3'


def prove0(goal, ctx, timeout=8.0):
    """returns backend name on success or None"""
    if goal is TRUE:
        STATS['nf'] += 1
        return 'nf'
    if goal.op == 'and':
        bs = [prove(g, ctx, timeout) for g in goal.args]
        if all(bs):
            return max(bs, key=len)
        return None
    if goal.op == 'forall':
        vs = goal.args[2:]
        ren = {v: fresh('fa', v.sort) for v in vs}
        return prove(subst(goal.args[1], ren), ctx, timeout)
    if goal.op == 'or' and any(g.op == '=' for g in goal.args):
        # move other disjuncts to the context when one is an equality
        eqs = [g for g in goal.args if g.op == '=' and g.args[0].sort == 'R']
        if len(eqs) == 1:
            rest = [not_(g) for g in goal.args if g is not eqs[0]]
            r = prove_eq(eqs[0].args[0], eqs[0].args[1], ctx + rest, timeout)
            if r:
                return r
    if goal.op == '=':
        return prove_eq(goal.args[0], goal.args[1], ctx, timeout)
    r = z3check(goal, ctx, timeout)
    if r is True:
        STATS['z3'] += 1
        return 'z3'
    if r is None:
        try:
            g2 = gnorm1(goal)
            if g2 is not goal:
                if g2 is TRUE:
                    STATS['nf'] += 1
                    return 'nf'
                if z3check(g2, ctx, timeout) is True:
                    STATS['z3'] += 1
                    return 'z3'
        except TooBig:
            pass
    return None


def groups_zero(P, ctx, timeout):
    """every factor-group's guard combination vanishes pointwise"""
    groups = {}
    for (b, g, f), c in P.items():
        groups.setdefault((b, f), []).append((g, c))
    for (b, f), l in groups.items():
        ex = Exporter(linear=True)
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        tot = None
        for g, c in l:
            cond = z3.And(*[ex.ex(x) for x in g]) if g else z3.BoolVal(True)
            e = z3.If(cond, z3.RealVal('%d/%d' % (c.numerator, c.denominator)), z3.RealVal(0))
            tot = e if tot is None else tot + e
        for c in ctx:
            s.add(ex.ex(c))
        # factors being zero also kills the group
        for a, e in f:
            if e > 0 and a.sort == 'I' and a.op in ('v', 'a'):
                s.add(ex.ex(a) != 0)
        for a in ex.axioms() + ex.prodlemmas():
            s.add(a)
        s.add(tot != 0)
        t0 = time.time()
        r = s.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        if r != z3.unsat:
            return False
    return True


def collapse(P, ctx, timeout, pivots):
    """sum over b of G*F where (ctx and G) forces b = e for a pivot term e: replace by [G(e)]F(e)"""
    changed = False
    cur = P
    memo = {}
    for _ in range(12):
        nxt = Poly()
        hit = False
        for (bs, gs, fs), c in cur.items():
            done = False
            if bs:
                ren = {b: fresh('cb', 'I') for b in bs}
                g2 = [subst(g, ren) for g in gs]
                for b in bs:
                    nb = ren[b]
                    own = []
                    for g in g2:
                        e = bounds_of(g, nb)
                        if e is not None and e not in own and not any(x in fv(e) for x in ren.values()):
                            own.append(e)
                    own.sort(key=lambda e: e.op == 'k')
                    for e in pivots + (own[:4] if len(own) > 1 else []):
                        if e in bs:
                            continue
                        key = (bs, gs, b, e)
                        if key not in memo:
                            memo[key] = z3check(eq(nb, e), list(ctx) + g2, min(timeout, 2.0), linonly=True) is True
                        if memo[key]:
                            STATS['z3'] += 1
                            rr = {nb: e}
                            gg = set()
                            dead = False
                            for g in g2:
                                s = T.gnorm(subst(g, rr))
                                if s is None:
                                    dead = True
                                    break
                                gg |= s
                            if not dead:
                                facs = pconst(1)
                                for a, ex in fs:
                                    facs = pmul(facs, ppow(nf(subst(subst(a, ren), rr)), ex))
                                rest = tuple(ren[x] for x in bs if x is not b)
                                for (b3, g3, f3), c3 in facs.items():
                                    T._addmono(nxt, rest + b3, frozenset(gg) | g3, dict(f3), c * c3)
                            done = hit = True
                            break
                    if done:
                        break
            if not done:
                nxt[(bs, gs, fs)] = nxt.get((bs, gs, fs), 0) + c
                if nxt[(bs, gs, fs)] == 0:
                    del nxt[(bs, gs, fs)]
        if not hit:
            return cur, changed
        changed = True
        cur = nxt
    return cur, changed


def bounds_of(g, b):
    """value of b at which the guard g, linear in b with coefficient +-1, holds with equality"""
    if g.op not in ('<=', '<', '='):
        return None
    try:
        p = padd(nf(g.args[0]), nf(g.args[1]), -1)
    except TooBig:
        return None
    key = ((), frozenset(), ((b, 1),))
    co = p.pop(key, None)
    if co not in (1, -1) or any(b in fv(x) for (b2, g2, f2) in p for x in list(g2) + [a for a, e in f2]):
        return None
    return to_term(Poly({k: -c / co for k, c in p.items()}), 'I') if p else T.K(0)


def peel(P, ctx, timeout):
    """sum_b [G1]F - sum_b [G2]F where the two ranges differ by the single value b = e: replace by F(e)"""
    changed = False
    for _ in range(8):
        by = {}
        for (bs, gs, fs), c in P.items():
            if bs:
                by.setdefault((bs, fs), []).append((gs, c))
        hit = None
        for (bs, fs), l in by.items():
            for i in range(len(l)):
                for j in range(len(l)):
                    if i == j or l[i][1] != -l[j][1] or hit:
                        continue
                    G1, G2 = l[i][0], l[j][0]
                    ren = {b: fresh('cb', 'I') for b in bs}
                    C = [subst(g, ren) for g in G1 & G2]
                    E1, E2 = [subst(g, ren) for g in G1 - G2], [subst(g, ren) for g in G2 - G1]
                    if not E2 or z3check(and_(*E1) if E1 else T.TRUE, list(ctx) + C + E2, min(timeout, 2.0), linonly=True) is not True:
                        continue
                    for b in bs:
                        nb = ren[b]
                        cand = []
                        for g in list(C) + E1 + E2:
                            e = bounds_of(g, nb)
                            if e is not None:
                                cand += [x for x in (e, add(e, T.K(1)), add(e, T.K(-1))) if x not in cand]
                        for e in cand[:12]:
                            if any(ren[x] in fv(e) for x in bs):
                                continue
                            d = and_(*(E1 + [not_(and_(*E2))]))
                            if z3check(eq(nb, e), list(ctx) + C + [d], min(timeout, 2.0), linonly=True) is True and \
                                    z3check(d, list(ctx) + C + [eq(nb, e)], min(timeout, 2.0), linonly=True) is True:
                                hit = (bs, fs, G1, G2, l[i][1], b, ren, C, e)
                                break
                        if hit:
                            break
                if hit:
                    break
            if hit:
                break
        if not hit:
            return P, changed
        bs, fs, G1, G2, c, b, ren, C, e = hit
        STATS['z3'] += 1
        changed = True
        R = Poly({k: v for k, v in P.items() if k not in ((bs, G1, fs), (bs, G2, fs))})
        rr = {ren[b]: e}
        gg, dead = set(), False
        for g in C:
            s = T.gnorm(subst(g, rr))
            if s is None:
                dead = True
                break
            gg |= s
        if not dead:
            facs = pconst(1)
            for a, ex in fs:
                facs = pmul(facs, ppow(nf(subst(subst(a, ren), rr)), ex))
            rest = tuple(ren[x] for x in bs if x is not b)
            for (b3, g3, f3), c3 in facs.items():
                T._addmono(R, rest + b3, frozenset(gg) | g3, dict(f3), c * c3)
        P = R
    return P, changed


PIVOTS = []        # extra pivot terms supplied by a contract


def clear_denoms(P):
    dens = {}
    for (b, g, f), c in P.items():
        for a, e in f:
            if e < 0 and a.op == '+' and not any(v in fv(a) for v in b):
                dens[a] = max(dens.get(a, 0), -e)
    if not dens:
        return None
    R = Poly()
    for (b, g, f), c in P.items():
        d = dict(f)
        m = pconst(1)
        for a, k in dens.items():
            e = d.pop(a, 0)
            if any(v in fv(a) for v in b):
                return None
            m = pmul(m, ppow(nf(a), k + e)) if k + e > 0 else m
        q = Poly()
        T._addmono(q, b, g, d, c)
        R = padd(R, pmul(q, m))
    return R


def prove_eq(a, b, ctx, timeout=8.0):
    if a.sort == 'B' or b.sort == 'B':
        r = z3check(eq(a, b), ctx, timeout)
        if r is True:
            STATS['z3'] += 1
            return 'z3'
        return None
    t0 = time.time()
    try:
        P = padd(nf(a), nf(b), -1)
    except TooBig:
        P = None
    STATS['time'] += time.time() - t0
    if P is not None:
        if not P:
            STATS['nf'] += 1
            return 'nf'
        for _ in range(3):
            if any(g for (bb, g, f) in P):
                try:
                    if groups_zero(P, ctx, timeout):
                        STATS['z3'] += 1
                        return 'nf+z3'
                except z3.Z3Exception:
                    pass
            Q = clear_denoms(P)
            if Q is None:
                break
            P = Q
            if not P:
                STATS['nf'] += 1
                return 'nf'
        if any(bb for (bb, g, f) in P):
            piv = [v for v in sorted(fv(a) | fv(b), key=lambda v: v.uid) if v.sort == 'I'][:10] + PIVOTS
            try:
                Q, ch = collapse(P, ctx, timeout, piv)
                if ch:
                    P = Q
                    if not P:
                        STATS['nf'] += 1
                        return 'nf+z3'
                    if groups_zero(P, ctx, timeout):
                        STATS['z3'] += 1
                        return 'nf+z3'
            except (z3.Z3Exception, TooBig):
                pass
        if any(bb for (bb, g, f) in P) and len(P) < 60:
            try:
                Q, ch = peel(P, ctx, timeout)
                if ch:
                    P = Q
                    if not P:
                        STATS['nf'] += 1
                        return 'nf+z3'
                    if groups_zero(P, ctx, timeout):
                        STATS['z3'] += 1
                        return 'nf+z3'
            except (z3.Z3Exception, TooBig):
                pass
        # simplify with guards resolved by context, then congruence in z3
        r = z3check(eq(to_term(P, 'R'), K(0)), ctx, timeout)
        if r is True:
            STATS['z3'] += 1
            return 'nf+z3'
    r = z3check(eq(a, b), ctx, timeout)
    if r is True:
        STATS['z3'] += 1
        return 'z3'
    return None


def sat(ctx, timeout=5.0):
    """context satisfiable (vacuity guard)? True/False/None"""
    ex = Exporter()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for c in ctx:
        s.add(ex.ex(c))
    for a in ex.axioms():
        s.add(a)
    r = s.check()
    return True if r == z3.sat else False if r == z3.unsat else None
