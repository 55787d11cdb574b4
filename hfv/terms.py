"""Hash-consed terms, algebraic normal form (sum-of-monomials with bound summation
variables and Iverson guards), exact evaluation, z3 export."""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(200000)
F = Fraction
_tab = {}
_uid = itertools.count()


class Term:
    __slots__ = ('op', 'args', 'sort', 'uid', '_fv', '_nf', '_ite')

    def __repr__(self):
        return show(self)

    # python operators (specs are written with them)
    def __add__(a, b): return add(a, lift(b))
    def __radd__(a, b): return add(lift(b), a)
    def __sub__(a, b): return sub(a, lift(b))
    def __rsub__(a, b): return sub(lift(b), a)
    def __mul__(a, b): return mul(a, lift(b))
    def __rmul__(a, b): return mul(lift(b), a)
    def __truediv__(a, b): return div(a, lift(b))
    def __rtruediv__(a, b): return div(lift(b), a)
    def __neg__(a): return mul(K(-1), a)
    def __pow__(a, n): return power(a, n)
    def __lt__(a, b): return lt(a, lift(b))
    def __le__(a, b): return le(a, lift(b))
    def __gt__(a, b): return lt(lift(b), a)
    def __ge__(a, b): return le(lift(b), a)


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return K(x)
    if isinstance(x, Fraction):
        return K(x, 'R')
    if isinstance(x, float):
        return K(Fraction(str(x)), 'R')
    raise TypeError(x)


def mk(op, args, sort):
    key = (op, sort) + tuple(a.uid if isinstance(a, Term) else ('$', a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        t.uid = next(_uid)
        t._fv = None
        t._nf = None
        t._ite = None
        _tab[key] = t
    return t


def K(v, sort=None):
    v = Fraction(v)
    return mk('k', (v,), sort or ('I' if v.denominator == 1 else 'R'))


def var(name, sort): return mk('v', (name,), sort)


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
_fresh = itertools.count()


def fresh(prefix, sort): return var('%s!%d' % (prefix, next(_fresh)), sort)


def app(f, args, sort):
    return mk('a', (f,) + tuple(args), sort)


def isk(t): return t.op == 'k'


def _asort(ts):
    return 'R' if any(t.sort == 'R' for t in ts) else 'I'


def add(*ts):
    out = []
    c = Fraction(0)
    for t in ts:
        if t.op == 'k':
            c += t.args[0]
        elif t.op == '+':
            for u in t.args:
                if u.op == 'k':
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    s = _asort(ts)
    if not out:
        return K(c, s)
    if c != 0:
        out.append(K(c))
    if len(out) == 1:
        return out[0]
    return mk('+', tuple(out), s)


def mul(*ts):
    out = []
    c = Fraction(1)
    for t in ts:
        if t.op == 'k':
            c *= t.args[0]
        elif t.op == '*':
            for u in t.args:
                if u.op == 'k':
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    s = _asort(ts)
    if c == 0:
        return K(0, s)
    if not out:
        return K(c, s)
    if c != 1:
        out.append(K(c))
    if len(out) == 1:
        return out[0]
    return mk('*', tuple(out), s)


def sub(a, b): return add(a, mul(K(-1), b))


def div(a, b):
    """real division"""
    return mul(a, power(b, -1))


def power(b, n):
    if isinstance(n, Term):
        if n.op == 'k' and n.args[0].denominator == 1:
            n = int(n.args[0])
        elif n.sort == 'I':
            return mk('powi', (b, n), 'R' if b.sort != 'I' else 'I')
        else:
            return app('pow', (b, n), 'R')
    if n == 0:
        return K(1, b.sort)
    if n == 1:
        return b
    if b.op == 'k' and (n > 0 or b.args[0] != 0):
        return K(b.args[0] ** n, b.sort if n > 0 else 'R')
    if b.op == '^':
        return power(b.args[0], b.args[1] * n)
    if b.op == '*' and n < 0:
        return mul(*[power(x, n) for x in b.args])
    return mk('^', (b, n), b.sort if n > 0 else 'R')


def idiv(a, b):
    if a.op == 'k' and b.op == 'k' and b.args[0] != 0:
        x, y = int(a.args[0]), int(b.args[0])
        q = abs(x) // abs(y)
        return K(q if (x >= 0) == (y >= 0) else -q)
    if b.op == 'k' and b.args[0] == 1:
        return a
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if a.op == 'k' and b.op == 'k' and b.args[0] != 0:
        x, y = int(a.args[0]), int(b.args[0])
        r = abs(x) % abs(y)
        return K(r if x >= 0 else -r)
    return mk('imod', (a, b), 'I')


def le(a, b):
    if a.op == 'k' and b.op == 'k':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    return mk('<=', (a, b), 'B')


def lt(a, b):
    if a.op == 'k' and b.op == 'k':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    return mk('<', (a, b), 'B')


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == 'B' or b.sort == 'B':
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return mk('iff', (a, b), 'B')
    if a.op == 'k' and b.op == 'k':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a is b:
        return TRUE
    if a.op == '+' or b.op == '+':
        # same non-constant part: decided by the constants
        def split(t):
            if t.op == 'k':
                return (), t.args[0]
            if t.op != '+':
                return (t.uid,), 0
            c, r = 0, []
            for x in t.args:
                if x.op == 'k':
                    c += x.args[0]
                else:
                    r.append(x.uid)
            return tuple(sorted(r)), c
        (ra, ca), (rb, cb) = split(a), split(b)
        if ra == rb:
            return TRUE if ca == cb else FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk('=', (a, b), 'B')


def ne(a, b): return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return mk('not', (a,), 'B')


def and_(*ts):
    out = []
    seen = set()
    for t in ts:
        t = lift(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for u in (t.args if t.op == 'and' else (t,)):
            if u.uid not in seen:
                seen.add(u.uid)
                out.append(u)
    for u in out:
        if not_(u).uid in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    neg = {not_(u).uid for u in out}
    for k, u in enumerate(out):
        if u.op == 'or' and any(a.uid in neg for a in u.args):
            # unit propagation / absorption
            v = or_(*[a for a in u.args if a.uid not in neg])
            return and_(*(out[:k] + [v] + out[k + 1:]))
    return mk('and', tuple(out), 'B')


def or_(*ts):
    out = []
    seen = set()
    for t in ts:
        t = lift(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for u in (t.args if t.op == 'or' else (t,)):
            if u.uid not in seen:
                seen.add(u.uid)
                out.append(u)
    for u in out:
        if not_(u).uid in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    neg = {not_(u).uid for u in out}
    for k, u in enumerate(out):
        if u.op == 'and' and any(a.uid in neg for a in u.args):
            # unit propagation / absorption
            v = and_(*[a for a in u.args if a.uid not in neg])
            return or_(*(out[:k] + [v] + out[k + 1:]))
    if len(out) <= 24 and any(u.op == 'and' for u in out):
        # (X & c) | (X & !c) = X ;  common conjuncts factored out
        sets = [frozenset(a.uid for a in u.args) if u.op == 'and' else frozenset([u.uid]) for u in out]
        for i in range(len(out)):
            if out[i].op != 'and':
                continue
            for j in range(i):
                if len(sets[i]) == len(sets[j]) and len(sets[i] - sets[j]) == 1:
                    x = [a for a in out[i].args if a.uid not in sets[j]][0]
                    if not_(x).uid in sets[j]:
                        v = and_(*[a for a in out[i].args if a is not x])
                        return or_(*([u for k, u in enumerate(out) if k not in (i, j)] + [v]))
        com = frozenset.intersection(*sets)
        if com:
            cs = [a for a in (out[0].args if out[0].op == 'and' else (out[0],)) if a.uid in com]
            return and_(*(cs + [or_(*[and_(*[a for a in (u.args if u.op == 'and' else (u,)) if a.uid not in com]) for u in out])]))
    return mk('or', tuple(out), 'B')


def implies(a, b): return or_(not_(a), b)


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'k' and b.op == 'k' and a.args[0] == b.args[0]:
        return a
    return mk('ite', (c, a, b), _asort((a, b)))


def sum_(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body"""
    lo, hi, body = lift(lo), lift(hi), lift(body)
    if body.op == 'k' and body.args[0] == 0:
        return body
    if lo.op == 'k' and lo.args[0] != 0:
        body, hi, lo = subst(body, {v: add(v, lo)}), sub(hi, lo), K(0)
    if body.sort == 'I' and body.op == 'ite' and body.args[2].op == 'k' and body.args[2].args[0] == 0 and body.args[0].op == '=':
        # a single index contributes
        p, q = body.args[0].args
        c = q if p is v else p if q is v else None
        if c is not None and v not in fv(c):
            return ite(and_(lo <= c, c < hi), subst(body.args[1], {v: c}), K(0))
    return mk('sum', (v, lo, hi, body), body.sort)


def Sum(lo, hi, f):
    v = fresh('s', 'I')
    return sum_(v, lo, hi, f(v))


def prod_(v, lo, hi, body):
    lo, hi, body = lift(lo), lift(hi), lift(body)
    if lo.op == 'k' and lo.args[0] != 0:
        body, hi, lo = subst(body, {v: add(v, lo)}), sub(hi, lo), K(0)
    return mk('prod', (v, lo, hi, body), body.sort)


def Prod(lo, hi, f):
    v = fresh('p', 'I')
    return prod_(v, lo, hi, f(v))


def forall(vs, body):
    if body is TRUE:
        return TRUE
    return mk('forall', (tuple(v.uid for v in vs), body) + tuple(vs), 'B')


def exists(vs, body): return not_(forall(vs, not_(body)))


def ForAll(n, f):
    """forall 0<=i<n"""
    v = fresh('q', 'I')
    return forall([v], implies(and_(le(K(0), v), lt(v, lift(n))), f(v)))


def fv(t):
    """free variables (frozenset of var terms)"""
    if t._fv is not None:
        return t._fv
    if t.op == 'v':
        r = frozenset([t])
    elif t.op in ('sum', 'prod'):
        v, lo, hi, b = t.args
        r = fv(lo) | fv(hi) | (fv(b) - {v})
    elif t.op == 'forall':
        r = fv(t.args[1]) - set(t.args[2:])
    elif t.op == 'SM':
        bs, gs, fs = t.args
        r = frozenset()
        for g in gs:
            r |= fv(g)
        for a, e in fs:
            r |= fv(a)
        r -= set(bs)
    elif t.op == 'PM':
        v, gs, b = t.args
        r = fv(b)
        for g in gs:
            r |= fv(g)
        r -= {v}
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, Term):
                r |= fv(a)
    t._fv = r
    return r


def rebuild(t, args):
    """smart-constructor rebuild with new term args (same shape)"""
    op = t.op
    if op == '+':
        return add(*args)
    if op == '*':
        return mul(*args)
    if op == '^':
        return power(args[0], args[1])
    if op == 'powi':
        return power(args[0], args[1])
    if op == '<=':
        return le(*args)
    if op == '<':
        return lt(*args)
    if op == '=':
        return eq(*args)
    if op == 'iff':
        return eq(*args)
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'idiv':
        return idiv(*args)
    if op == 'imod':
        return imod(*args)
    return mk(op, tuple(args), t.sort)


def subst(t, m, memo=None):
    """capture-free substitution {var: term}; bound variables are globally fresh"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def go(t):
        if not (fv(t) & keys):
            return t
        r = memo.get(t.uid)
        if r is not None:
            return r
        if t.op == 'v':
            r = m.get(t, t)
        elif t.op in ('sum', 'prod'):
            v, lo, hi, b = t.args
            v2 = fresh('s', 'I')
            r = mk(t.op, (v2, go(lo), go(hi), go(subst(b, {v: v2}))), t.sort)
        elif t.op == 'forall':
            vs = t.args[2:]
            vs2 = [fresh('q', v.sort) for v in vs]
            r = forall(vs2, go(subst(t.args[1], dict(zip(vs, vs2)))))
        elif t.op == 'SM':
            bs, gs, fs = t.args
            ren = {b: fresh('s', 'I') for b in bs}
            r = mk('SM', (tuple(ren[b] for b in bs), tuple(go(subst(g, ren)) for g in gs),
                          tuple((go(subst(a, ren)), e) for a, e in fs)), t.sort)
        elif t.op == 'PM':
            v, gs, b = t.args
            v2 = fresh('p', 'I')
            r = mk('PM', (v2, tuple(go(subst(g, {v: v2})) for g in gs), go(subst(b, {v: v2}))), t.sort)
        else:
            r = rebuild(t, [go(a) if isinstance(a, Term) else a for a in t.args])
        memo[t.uid] = r
        return r
    return go(t)


# mk() must handle SM args (nested tuples); override key computation
def _key(a):
    if isinstance(a, Term):
        return a.uid
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return ('$', a)


def mk(op, args, sort):
    key = (op, sort) + tuple(_key(a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        t.uid = next(_uid)
        t._fv = None
        t._nf = None
        t._ite = None
        _tab[key] = t
    return t


def show(t, d=0):
    if d > 12:
        return '..'
    s = lambda x: show(x, d + 1) if isinstance(x, Term) else str(x)
    o = t.op
    if o == 'k':
        return str(t.args[0])
    if o == 'v':
        return t.args[0]
    if o == 'a':
        return '%s(%s)' % (t.args[0], ', '.join(s(x) for x in t.args[1:]))
    if o in ('+', '*', 'and', 'or'):
        return '(' + (' %s ' % o).join(s(x) for x in t.args) + ')'
    if o == '^':
        return '%s^%d' % (s(t.args[0]), t.args[1])
    if o in ('<=', '<', '=', 'iff'):
        return '(%s %s %s)' % (s(t.args[0]), o, s(t.args[1]))
    if o in ('sum', 'prod'):
        return '%s[%s=%s..<%s](%s)' % (o, s(t.args[0]), s(t.args[1]), s(t.args[2]), s(t.args[3]))
    if o == 'SM':
        return 'SUM{%s | %s}(%s)' % (','.join(map(s, t.args[0])), ' & '.join(map(s, t.args[1])),
                                     ' * '.join('%s^%d' % (s(a), e) if e != 1 else s(a) for a, e in t.args[2]))
    if o == 'PM':
        return 'PROD{%s | %s}(%s)' % (s(t.args[0]), ' & '.join(map(s, t.args[1])), s(t.args[2]))
    if o == 'forall':
        return 'forall %s. %s' % (','.join(s(v) for v in t.args[2:]), s(t.args[1]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in t.args))


# ---------------------------------------------------------------- normal form
# Poly: dict { (binders tuple, guards frozenset(uid->Term), factors tuple((atom,exp)...)) : Fraction }
# guards are normalised boolean terms.

class Poly(dict):
    pass


ONE = ((), frozenset(), ())


def pconst(c):
    p = Poly()
    if c != 0:
        p[ONE] = Fraction(c)
    return p


def padd(p, q, c=1):
    r = Poly(p)
    for m, k in q.items():
        n = r.get(m, 0) + c * k
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def _mulfac(f, g):
    d = {}
    for a, e in f:
        d[a] = d.get(a, 0) + e
    for a, e in g:
        d[a] = d.get(a, 0) + e
    return d


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = Poly()
    for (b1, g1, f1), c1 in p.items():
        for (b2, g2, f2), c2 in q.items():
            bb1, gg1, ff1 = b1, g1, f1
            if b1 and b2:
                ren = {b: fresh('s', 'I') for b in b1}
                bb1 = tuple(ren[b] for b in b1)
                gg1 = frozenset(subst(g, ren) for g in g1)
                ff1 = tuple((subst(a, ren), e) for a, e in f1)
            _addmono(r, bb1 + b2, gg1 | g2, _mulfac(ff1, f2), c1 * c2)
    return r


def _addmono(r, bs, gs, fd, c):
    """add c * mono, simplifying factors: powers of sqrt atoms, guards"""
    extra = None
    for a, e in list(fd.items()):
        if e == 0:
            del fd[a]
        elif a.op == 'a' and a.args[0] == 'sqrt' and abs(e) >= 2:
            n = e // 2 if e > 0 else -((-e) // 2)
            rem = e - 2 * n
            if rem:
                fd[a] = rem
            else:
                del fd[a]
            base = nf(a.args[1])
            t = ppow(base, n)
            extra = t if extra is None else pmul(extra, t)
    if gs:
        for g in gs:
            if g is FALSE:
                return
        # complementary guards
        if len(gs) > 1:
            for g in gs:
                if gnot(g) in gs:
                    return
    if extra is not None:
        base = Poly()
        _addmono(base, bs, gs, fd, c)
        prod = pmul(base, extra)
        for m, k in prod.items():
            n = r.get(m, 0) + k
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
        return
    fs = tuple(sorted(fd.items(), key=lambda x: x[0].uid))
    if bs:
        m, sign = canon(bs, gs, fs)
        if m is None:
            return
        if isinstance(m, Poly):
            for mm, k in m.items():
                n = r.get(mm, 0) + c * k
                if n == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = n
            return
    else:
        m = ((), frozenset(gs), fs)
    n = r.get(m, 0) + c
    if n == 0:
        r.pop(m, None)
    else:
        r[m] = n


_gn = {}


def gnot(g):
    """negation of a normalised guard, normalised"""
    r = _gn.get(g.uid)
    if r is None:
        r = gnorm1(not_(g))
        _gn[g.uid] = r
    return r


def ppow(p, n):
    if n == 0:
        return pconst(1)
    if n < 0:
        return ppow(pinv(p), -n)
    r = p
    for _ in range(n - 1):
        r = pmul(r, p)
    return r


def pinv(p):
    if len(p) == 1:
        (b, g, f), c = next(iter(p.items()))
        if not b and not g:
            r = Poly()
            _addmono(r, (), frozenset(), {a: -e for a, e in f}, 1 / c)
            return r
    if not p:
        # division by literal zero: keep opaque
        a = app('DIV0', (), 'R')
        return Poly({((), frozenset(), ((a, 1),)): F(1)})
    # guarded polys: split into cases if guards present
    cases = guard_cases(p)
    if cases is not None:
        r = Poly()
        for gs, q in cases:
            for (b, g, f), c in pinv(q).items():
                _addmono(r, b, g | gs, dict(f), c)
        return r
    t, lead = monic(p)
    return Poly({((), frozenset(), ((t, -1),)): 1 / lead})


def guard_cases(p):
    """if p has non-binder guards, split into [(guards, poly without those guards)] covering all cases"""
    gs = set()
    for (b, g, f), c in p.items():
        if not b:
            gs |= set(g)
    if not gs:
        return None
    g = min(gs, key=lambda t: t.uid)
    ng = gnot(g)
    out = []
    for cond, other in ((g, ng), (ng, g)):
        q = Poly()
        for (b, gg, f), c in p.items():
            if b:
                m = (b, gg, f)
            else:
                if other in gg:
                    continue
                m = (b, gg - {cond}, f)
            q[m] = q.get(m, 0) + c
            if q[m] == 0:
                del q[m]
        sub_ = guard_cases(q)
        if sub_ is None:
            out.append((frozenset([cond]), q))
        else:
            out += [(frozenset([cond]) | s, qq) for s, qq in sub_]
    return out


def monic(p):
    """(term for p/lead, lead)"""
    m0 = min(p, key=mono_order)
    lead = p[m0]
    q = Poly({m: c / lead for m, c in p.items()})
    return to_term(q, 'R'), lead


def mono_order(m):
    b, g, f = m
    return (0 if f else 1, len(b), tuple((a.uid, e) for a, e in f), tuple(sorted(x.uid for x in g)))


def to_term(p, sort='R'):
    """canonical term of a poly"""
    ts = []
    for m in sorted(p, key=mono_order):
        b, g, f = m
        c = p[m]
        if b or g:
            t = mk('SM', (b, tuple(sorted(g, key=lambda x: x.uid)), f), sort)
            ts.append(mul(K(c), t) if c != 1 else t)
        else:
            ts.append(mul(K(c), *[power(a, e) for a, e in f]))
    if not ts:
        return K(0, sort)
    return add(*ts)


CASELIM = 256


def ite_cases(t):
    """[(guard tuple, ite-free term)] for a term whose ites are lifted to the top"""
    if t._ite is not None:
        return t._ite
    o = t.op
    if o in ('k', 'v', 'true', 'false', 'SM', 'PM', 'sum', 'prod', 'forall'):
        r = [((), t)]
    elif o == 'ite':
        c = t.args[0]
        r = []
        for cond, br in ((c, t.args[1]), (not_(c), t.args[2])):
            for gl in dnf_disjoint(cond):
                for gs, u in ite_cases(br):
                    r.append((gl + gs, u))
    else:
        acc = [((), [])]
        plain = True
        for a in t.args:
            if isinstance(a, Term):
                cs = ite_cases(a)
                if len(cs) > 1 or cs[0][0]:
                    plain = False
                acc = [(g0 + g1, l + [u]) for g0, l in acc for g1, u in cs]
            else:
                acc = [(g0, l + [a]) for g0, l in acc]
            if len(acc) > CASELIM:
                raise TooBig('ite cases')
        r = [((), t)] if plain else [(g, rebuild(t, l)) for g, l in acc]
    t._ite = r
    return r


class TooBig(Exception):
    pass


def dnf_disjoint(c):
    """disjoint conjunctions (tuples of literals) covering c"""
    if c is TRUE:
        return [()]
    if c is FALSE:
        return []
    if c.op == 'and':
        r = [()]
        for x in c.args:
            r = [a + b for a in r for b in dnf_disjoint(x)]
        return r
    if c.op == 'or':
        r = []
        pre = [()]
        for x in c.args:
            for p in pre:
                for b in dnf_disjoint(x):
                    r.append(p + b)
            nx = dnf_disjoint(not_(x))
            pre = [a + b for a in pre for b in nx]
            if len(pre) > CASELIM:
                raise TooBig('dnf')
        return r
    return [(c,)]


def gnorm(c):
    """normalise a boolean literal/conj to a frozenset of normalised guards, or None if false"""
    out = set()
    for x in (c.args if c.op == 'and' else (c,)):
        g = gnorm1(x)
        if g is FALSE:
            return None
        if g is TRUE:
            continue
        if g.op == 'and':
            s = gnorm(g)
            if s is None:
                return None
            out |= s
        else:
            out.add(g)
    return frozenset(out)


_gmemo = {}


def gnorm1(c):
    r = _gmemo.get(c.uid)
    if r is None:
        r = _gnorm1(c)
        _gmemo[c.uid] = r
        _gmemo[r.uid] = r
    return r


def _gnorm1(c):
    o = c.op
    if o in ('<=', '<', '='):
        a, b = c.args
        p = padd(nf(a), nf(b), -1)
        cs = guard_cases(p)
        if cs is not None:
            return or_(*[and_(*(list(gs) + [_cmp(o, q, a.sort == 'I' and b.sort == 'I')])) for gs, q in cs])
        return _cmp(o, p, a.sort == 'I' and b.sort == 'I')
    if o == 'not':
        x = gnorm1(c.args[0])
        if x.op == '=':
            return not_(x)
        return not_(x)
    if o == 'and':
        return and_(*[gnorm1(x) for x in c.args])
    if o == 'or':
        return or_(*sorted([gnorm1(x) for x in c.args], key=lambda t: t.uid))
    if o == 'a':
        return app(c.args[0], [to_term(nf(x), x.sort) if x.sort != 'B' else gnorm1(x) for x in c.args[1:]], 'B')
    return c


def _lcm(a, b):
    from math import gcd
    return a * b // gcd(a, b)


def _cmp(o, p, isint):
    """p (<=,<,=) 0 normalised"""
    if not p:
        return TRUE if o in ('<=', '=') else FALSE
    if len(p) == 1 and ONE in p:
        v = p[ONE]
        ok = v <= 0 if o == '<=' else v < 0 if o == '<' else v == 0
        return TRUE if ok else FALSE
    from math import gcd
    ms = [m for m in p if m != ONE]
    l = 1
    for m in ms:
        l = _lcm(l, p[m].denominator)
    g = 0
    for m in ms:
        g = gcd(g, abs(p[m] * l).numerator)
    sc = Fraction(l, g)
    q = Poly({m: c * sc for m, c in p.items()})
    k = q.pop(ONE, F(0))
    if o == '=':
        lead = q[min(q, key=mono_order)]
        if lead < 0:
            q = Poly({m: -c for m, c in q.items()})
            k = -k
        if isint and k.denominator != 1:
            return FALSE
        return mk('=', (to_term(q, 'I' if isint else 'R'), K(-k)), 'B')
    if isint:
        # q + k <= 0 ; integer: q <= floor(-k)
        import math
        if o == '<':
            # q < -k  -> q <= ceil(-k)-1
            bound = math.ceil(-k) - 1
        else:
            bound = math.floor(-k)
        lead = q[min(q, key=mono_order)]
        if lead < 0:
            # -q >= -bound
            return mk('<=', (K(-bound), to_term(Poly({m: -c for m, c in q.items()}), 'I')), 'B')
        return mk('<=', (to_term(q, 'I'), K(bound)), 'B')
    lead = q[min(q, key=mono_order)]
    if lead < 0:
        return mk(o, (K(k), to_term(Poly({m: -c for m, c in q.items()}), 'R')), 'B')
    return mk(o, (to_term(q, 'R'), K(-k)), 'B')


# note: not_ of an int '<=' yields '<' which _gnorm1 renormalises.


def nf(t):
    if t._nf is not None:
        return t._nf
    r = _nf(t)
    t._nf = r
    return r


def _nf(t):
    o = t.op
    if o == 'k':
        return pconst(t.args[0])
    if o == 'v':
        return Poly({((), frozenset(), ((t, 1),)): F(1)})
    if o == '+':
        r = Poly()
        for a in t.args:
            for m, c in nf(a).items():
                n = r.get(m, 0) + c
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
        return r
    if o == '*':
        r = pconst(1)
        for a in t.args:
            r = pmul(r, nf(a))
        return r
    if o == '^':
        return ppow(nf(t.args[0]), t.args[1])
    if o == 'ite':
        c, a, b = t.args
        r = Poly()
        for cond, br in ((c, a), (not_(c), b)):
            pb = nf(br)
            if not pb:
                continue
            for gl in dnf_disjoint(cond):
                gs = frozenset()
                for g in gl:
                    s = gnorm(g)
                    if s is None:
                        gs = None
                        break
                    gs |= s
                if gs is None:
                    continue
                for (bb, g, f), k in pb.items():
                    # bound variables are fresh w.r.t. the guard
                    if bb:
                        ren = {x: fresh('s', 'I') for x in bb}
                        _addmono(r, tuple(ren[x] for x in bb), frozenset(subst(x, ren) for x in g) | gs,
                                 dict((subst(a_, ren), e) for a_, e in f), k)
                    else:
                        _addmono(r, bb, g | gs, dict(f), k)
        return r
    if o == 'sum':
        v, lo, hi, body = t.args
        v2 = fresh('s', 'I')
        body = subst(body, {v: v2})
        g = gnorm(and_(le(lo, v2), lt(v2, hi)))
        r = Poly()
        if g is None:
            return r
        for (bb, gg, f), c in nf(body).items():
            _addmono(r, bb + (v2,), gg | g, dict(f), c)
        return r
    if o == 'SM':
        r = Poly()
        bs, gs, fs = t.args
        ren = {b: fresh('s', 'I') for b in bs}
        gset = set()
        for g in gs:
            s = gnorm(subst(g, ren))
            if s is None:
                return r
            gset |= s
        p = Poly({(tuple(ren.values()), frozenset(gset), ()): F(1)})
        # factors may need re-normalisation after substitution
        facs = pconst(1)
        for a, e in fs:
            facs = pmul(facs, ppow(nf(subst(a, ren)), e))
        for (b2, g2, f2), c in facs.items():
            _addmono(r, tuple(ren.values()) + b2, frozenset(gset) | g2, dict(f2), c)
        return r
    if o == 'prod':
        v, lo, hi, body = t.args
        v2 = fresh('p', 'I')
        body = subst(body, {v: v2})
        g0 = gnorm(and_(le(lo, v2), lt(v2, hi)))
        if g0 is None:
            return pconst(1)
        return prod_nf(v2, g0, body)
    if o == 'PM':
        v, gs, body = t.args
        v2 = fresh('p', 'I')
        gset = set()
        for g in gs:
            s = gnorm(subst(g, {v: v2}))
            if s is None:
                return pconst(1)
            gset |= s
        return prod_nf(v2, frozenset(gset), subst(body, {v: v2}))
    if o in ('a', 'idiv', 'imod', 'powi'):
        return app_nf(t)
    raise TypeError('nf of %s' % o)


def prod_nf(v, g0, body):
    # split body into guarded cases; product over each case's guard set
    r = pconst(1)
    cases = guard_cases(nf(body)) or [(frozenset(), nf(body))]
    for gs, q in cases:
        if len(q) == 1 and ONE in q and q[ONE] == 1:
            continue
        gg = g0 | gs
        if len(q) == 1:
            (bb, _g, f), c = next(iter(q.items()))
            if not bb:
                facs = [(K(c), 1)] if c != 1 else []
                facs += list(f)
                ok = True
                for a, e in facs:
                    r = pmul(r, ppow(_pm(v, gg, a), e))
                continue
        t, lead = monic(q)
        if lead != 1:
            r = pmul(r, _pm(v, gg, K(lead)))
        r = pmul(r, _pm(v, gg, t))
    return r


def _pm(v, gs, atom):
    fr = frozenset().union(fv(atom), *[fv(g) for g in gs]) - {v}
    cv = _pvars[max([i + 1 for i, x in enumerate(_pvars) if x in fr] or [0])]
    gs2 = tuple(sorted((gnorm1(subst(g, {v: cv})) for g in gs), key=lambda x: x.uid))
    a2 = to_term(nf(subst(atom, {v: cv})), atom.sort)
    return Poly({((), frozenset(), ((mk('PM', (cv, gs2, a2), 'R'), 1),)): F(1)})


def app_nf(t):
    # lift ites in the arguments, normalise arguments
    r = Poly()
    for gs, u in ite_cases(t):
        gset = set()
        bad = False
        for g in gs:
            s = gnorm(g)
            if s is None:
                bad = True
                break
            gset |= s
        if bad:
            continue
        if u.op not in ('a', 'idiv', 'imod', 'powi'):
            p = nf(u)
        else:
            p = atom_nf(u)
        for (b, g, f), c in p.items():
            _addmono(r, b, g | frozenset(gset), dict(f), c)
    return r


REWRITE = {}   # function name -> callable(args) -> Term or None
EVEN = {'abs'}


def atom_nf(u):
    if u.op == 'a':
        args = []
        for x in u.args[1:]:
            if isinstance(x, Term):
                if x.sort == 'B':
                    args.append(gnorm1(x))
                else:
                    args.append(to_term(nf(x), x.sort))
            else:
                args.append(x)
        f = u.args[0]
        rw = REWRITE.get(f)
        if rw:
            t = rw(*args)
            if t is not None:
                return nf(t)
        t = app(f, args, u.sort)
        return Poly({((), frozenset(), ((t, 1),)): F(1)})
    a = to_term(nf(u.args[0]), u.args[0].sort)
    b = to_term(nf(u.args[1]), u.args[1].sort)
    if u.op == 'powi':
        # b = k + rest : split the constant part off the exponent
        pb = nf(u.args[1])
        k = pb.get(ONE, F(0))
        rest = Poly(pb)
        rest.pop(ONE, None)
        if not rest:
            return ppow(nf(a), int(k))
        ab = nf(a)
        # distribute over a monomial base
        if len(ab) == 1:
            (bb, g, f), c = next(iter(ab.items()))
            if not bb and not g and not f:
                return _powatom(a, rest, k)
            if not bb and not g and (c != 1 or len(f) != 1 or f[0][1] != 1):
                out = pconst(1)
                for at, e in ([(K(c), 1)] if c != 1 else []) + list(f):
                    out = pmul(out, nf(mk('powi', (at, mul(K(e), u.args[1])), 'R')) if at.op != 'k' or True else out)
                return out if not (len(f) == 0) else _powatom(a, rest, k)
        return _powatom(a, rest, k)
    t = idiv(a, b) if u.op == 'idiv' else imod(a, b)
    if t.op == 'k':
        return pconst(t.args[0])
    # idiv(c*x + r, c): exact multiples
    if b.op == 'k' and b.args[0] > 0:
        c = b.args[0]
        pa = nf(a)
        if all((v / c).denominator == 1 for v in pa.values()):
            return Poly({m: v / c for m, v in pa.items()}) if u.op == 'idiv' else Poly()
    return Poly({((), frozenset(), ((t, 1),)): F(1)})


def _powatom(a, rest, k):
    # canonical sign on exponent so that x^(n) * x^(-n) cancels
    lead = rest[min(rest, key=mono_order)]
    e = 1
    if lead < 0:
        rest = Poly({m: -c for m, c in rest.items()})
        e = 1 if a.op == 'k' and a.args[0] == -1 else -1
    at = mk('powi', (a, to_term(rest, 'I')), 'R')
    r = Poly({((), frozenset(), ((at, e),)): F(1)})
    if k != 0:
        r = pmul(r, ppow(nf(a), int(k)))
    return r


# ---- canonicalisation of bound variables
_bvars = [var('#%d' % i, 'I') for i in range(60)]
_bidx = {v: i for i, v in enumerate(_bvars)}
_pvars = [var('#p%d' % i, 'I') for i in range(20)]


def canon(bs, gs, fs):
    """eliminate equalities, drop unused binders, alpha-canonicalise.
    returns (mono, 1) or (None,..) if zero or (Poly,..)"""
    bs = list(bs)
    # equality elimination
    changed = True
    while changed:
        changed = False
        for g in gs:
            if g.op == '=':
                p = padd(nf(g.args[0]), nf(g.args[1]), -1)
                for b in bs:
                    m = ((), frozenset(), ((b, 1),))
                    if m in p and abs(p[m]) == 1:
                        rest = Poly(p)
                        c = rest.pop(m)
                        if any(b in fv(a) for (_b, _g, f) in rest for a, e in f):
                            continue
                        e = to_term(Poly({k: -v / c for k, v in rest.items()}), 'I')
                        bs.remove(b)
                        # substitute and renormalise everything
                        res = pconst(1)
                        sub_ = {b: e}
                        newg = set()
                        for h in gs:
                            if h is g:
                                continue
                            if b in fv(h):
                                s = gnorm(subst(h, sub_))
                                if s is None:
                                    return None, 0
                                newg |= s
                            else:
                                newg.add(h)
                        if any(gnot(h) in newg for h in newg):
                            return None, 0
                        dirty = False
                        for a, ex in fs:
                            if b in fv(a):
                                res = pmul(res, ppow(nf(subst(a, sub_)), ex))
                                dirty = True
                            else:
                                res = pmul(res, Poly({((), frozenset(), ((a, ex),)): F(1)}))
                        out = Poly()
                        for (b2, g2, f2), c2 in res.items():
                            _addmono(out, tuple(bs) + b2, frozenset(newg) | g2, dict(f2), c2)
                        return out, 1
    # disequalities on a bound variable: [b != e] = 1 - [b = e]
    for g in sorted(gs, key=lambda x: x.uid):
        if g.op == 'not' and g.args[0].op == '=':
            q = g.args[0]
            p = padd(nf(q.args[0]), nf(q.args[1]), -1)
            for b in bs:
                m = ((), frozenset(), ((b, 1),))
                if m in p and abs(p[m]) == 1:
                    rest = Poly(p)
                    rest.pop(m)
                    if any(b in fv(a) for (_b, _g, f) in rest for a, e in f):
                        continue
                    e_ = to_term(Poly({k: -v / p[m] for k, v in rest.items()}), 'I')
                    if any(ex < 0 and b in fv(a) and not nf(subst(a, {b: e_})) for a, ex in fs):
                        continue            # a pole at b = e: keep the guard
                    base = frozenset(gs) - {g}
                    out = Poly()
                    _addmono(out, tuple(bs), base, dict(fs), F(1))
                    _addmono(out, tuple(bs), base | {q}, dict(fs), F(-1))
                    return out, 1
    # disjunctive guards mentioning a bound variable stay opaque
    # unused binder: only range guards  lo<=b<=hi
    for b in bs:
        if any(b in fv(a) for a, e in fs):
            continue
        gb = [g for g in gs if b in fv(g)]
        lo = []
        hi = []
        ok = True
        for g in gb:
            if g.op != '<=':
                ok = False
                break
            p = padd(nf(g.args[0]), nf(g.args[1]), -1)   # p<=0
            m = ((), frozenset(), ((b, 1),))
            c = p.get(m, 0)
            rest = Poly(p)
            rest.pop(m, None)
            if abs(c) != 1 or any(b in fv(a) for (_b, _g, f) in rest for a, e in f):
                ok = False
                break
            if c == 1:
                hi.append(Poly({k: -v for k, v in rest.items()}))   # b <= -rest
            else:
                lo.append(rest)                                      # b >= rest
        if ok and len(lo) == 1 and len(hi) == 1:
            cnt = padd(padd(hi[0], lo[0], -1), pconst(1))
            bs2 = [x for x in bs if x is not b]
            g2 = gnorm(le(K(0), to_term(padd(cnt, pconst(0)), 'I')))
            if g2 is None:
                return None, 0
            rest_g = frozenset(g for g in gs if b not in fv(g)) | g2
            out = Poly()
            base = Poly({((), frozenset(), fs): F(1)}) if fs else pconst(1)
            for (b2, gg, f2), c2 in pmul(base, cnt).items():
                _addmono(out, tuple(bs2) + b2, rest_g | gg, dict(f2), c2)
            return out, 1
    if not bs:
        return ((), frozenset(gs), fs), 1
    # alpha canonicalisation: colour refinement then brute force over ties
    order = canon_order(bs, gs, fs)
    best = None
    # names not free here: an enclosing sum may already use the first ones
    lv = 0
    for x in list(gs) + [a for a, e in fs]:
        for v in fv(x):
            if v in _bidx and v not in bs:
                lv = max(lv, _bidx[v] + 1)
    for perm in order:
        ren = {b: _bvars[lv + i] for i, b in enumerate(perm)}
        g2 = frozenset(gnorm1(subst(g, ren)) for g in gs)
        f2 = tuple(sorted(((renorm(subst(a, ren)), e) for a, e in fs), key=lambda x: x[0].uid))
        key = (tuple((a.uid, e) for a, e in f2), tuple(sorted(x.uid for x in g2)))
        if best is None or key < best[0]:
            best = (key, g2, f2)
    return (tuple(_bvars[lv:lv + len(bs)]), best[1], best[2]), 1


def renorm(t):
    if t.op in ('SM', 'PM') or True:
        p = nf(t)
        if len(p) == 1:
            (b, g, f), c = next(iter(p.items()))
            if not b and not g and len(f) == 1 and c == 1 and f[0][1] == 1:
                return f[0][0]
    return t


def shape(t, b, bset, col=None):
    """structural signature of t where b->'*', other binders->'?' (or their colour)"""
    if t is b:
        return '*'
    if t in bset:
        return '?' if col is None else '?%d' % col[t]
    if not (fv(t) & bset):
        return t.uid
    if t.op == 'SM':
        return ('SM', len(t.args[0]), len(t.args[1]), tuple(sorted(map(str, ((shape(a, b, bset, col), e) for a, e in t.args[2])))))
    if t.op == 'PM':
        return ('PM', tuple(sorted(str(shape(g, b, bset, col)) for g in t.args[1])), str(shape(t.args[2], b, bset, col)))
    if t.op in ('<=', '<', '=') and all(isinstance(a, Term) and a.sort != 'B' for a in t.args):
        # independent of how the comparison is oriented
        p = padd(nf(t.args[0]), nf(t.args[1]), -1)
        if all(not m[0] and not m[1] for m in p):
            def sg(s_):
                return sorted(str((c * s_, sorted(str((shape(a, b, bset, col), e)) for a, e in f))) for (_b, _g, f), c in p.items())
            return (t.op, str(sg(1)) if t.op != '=' else min(str(sg(1)), str(sg(-1))))
    xs = [shape(a, b, bset, col) if isinstance(a, Term) else a for a in t.args]
    if t.op in ('+', '*'):
        return (t.op, tuple(sorted(map(str, xs))))
    return (t.op, tuple(xs))


def canon_order(bs, gs, fs):
    bset = frozenset(bs)
    sig = {}
    for b in bs:
        sig[b] = str((sorted(str((shape(a, b, bset), e)) for a, e in fs if b in fv(a)),
                      sorted(str(shape(g, b, bset)) for g in gs if b in fv(g))))
    if len(bs) > 2 and len(set(sig.values())) < len(bs):
        # colour refinement: distinguish binders by the colours they occur with
        for _ in range(len(bs)):
            rank = {v: k for k, v in enumerate(sorted(set(sig.values())))}
            if len(rank) == len(bs):
                break
            col = {b: rank[sig[b]] for b in bs}
            new = {}
            for b in bs:
                new[b] = '%04d' % col[b] + str((sorted(str((shape(a, b, bset, col), e)) for a, e in fs if b in fv(a)),
                                               sorted(str(shape(g, b, bset, col)) for g in gs if b in fv(g))))
            same = len(set(new.values())) == len(rank)
            sig = new
            if same:
                break
    groups = {}
    for b in bs:
        groups.setdefault(sig[b], []).append(b)
    keys = sorted(groups)
    n = 1
    for k in keys:
        for i in range(2, len(groups[k]) + 1):
            n *= i
    if n > 120:
        # too many ties: fall back to one order
        return [[b for k in keys for b in groups[k]]]
    lists = [list(itertools.permutations(groups[k])) for k in keys]
    return [[b for part in comb for b in part] for comb in itertools.product(*lists)]


# ---------------------------------------------------------------- evaluation
class EvalErr(Exception):
    pass


def evaluate(t, env, interp, memo=None):
    """exact evaluation; env {var: value}; interp(fname, args)->value"""
    if memo is None:
        memo = {}

    def ev(t, env, memo):
        r = memo.get(t.uid)
        if r is not None:
            return r
        o = t.op
        if o == 'k':
            r = t.args[0]
        elif o == 'v':
            if t not in env:
                r = interp('var:' + t.args[0], (t.sort,))
            else:
                r = env[t]
        elif o == 'true':
            return True
        elif o == 'false':
            return False
        elif o == '+':
            r = Fraction(0)
            for a in t.args:
                r = r + ev(a, env, memo)
        elif o == '*':
            r = Fraction(1)
            for a in t.args:
                r = r * ev(a, env, memo)
        elif o == '^':
            b = ev(t.args[0], env, memo)
            if b == 0 and t.args[1] < 0:
                raise EvalErr('div0')
            r = b ** t.args[1]
        elif o == 'powi':
            b = ev(t.args[0], env, memo)
            n = ev(t.args[1], env, memo)
            if b == 0 and n < 0:
                raise EvalErr('div0')
            if abs(n) > 50:
                raise EvalErr('bigpow')
            r = b ** int(n)
        elif o == 'idiv':
            a, b = ev(t.args[0], env, memo), ev(t.args[1], env, memo)
            if b == 0:
                raise EvalErr('div0')
            q = abs(a) // abs(b)
            r = Fraction(q if (a >= 0) == (b >= 0) else -q)
        elif o == 'imod':
            a, b = ev(t.args[0], env, memo), ev(t.args[1], env, memo)
            if b == 0:
                raise EvalErr('div0')
            q = abs(a) % abs(b)
            r = Fraction(q if a >= 0 else -q)
        elif o == '<=':
            return ev(t.args[0], env, memo) <= ev(t.args[1], env, memo)
        elif o == '<':
            return ev(t.args[0], env, memo) < ev(t.args[1], env, memo)
        elif o in ('=', 'iff'):
            return ev(t.args[0], env, memo) == ev(t.args[1], env, memo)
        elif o == 'not':
            return not ev(t.args[0], env, memo)
        elif o == 'and':
            return all(ev(a, env, memo) for a in t.args)
        elif o == 'or':
            return any(ev(a, env, memo) for a in t.args)
        elif o == 'ite':
            return ev(t.args[1], env, memo) if ev(t.args[0], env, memo) else ev(t.args[2], env, memo)
        elif o in ('sum', 'prod'):
            v, lo, hi, body = t.args
            lo, hi = ev(lo, env, memo), ev(hi, env, memo)
            r = Fraction(0 if o == 'sum' else 1)
            if hi - lo > 400:
                raise EvalErr('range')
            for i in range(int(lo), int(hi)):
                e2 = dict(env)
                e2[v] = Fraction(i)
                x = ev(body, e2, {})
                r = r + x if o == 'sum' else r * x
        elif o == 'forall':
            body = t.args[1]
            vs = t.args[2:]
            for combo in itertools.product(range(-1, 8), repeat=len(vs)):
                e2 = dict(env)
                for v, i in zip(vs, combo):
                    e2[v] = Fraction(i)
                if not ev(body, e2, {}):
                    return False
            return True
        elif o == 'a':
            args = tuple(ev(a, env, memo) if isinstance(a, Term) else a for a in t.args[1:])
            r = interp(t.args[0], args + (('sort', t.sort),))
        else:
            raise EvalErr('op ' + o)
        memo[t.uid] = r
        return r
    return ev(t, env, memo)


_small = {}


def small(t, lim=120):
    """no quantifier / sum and small size"""
    r = _small.get(t.uid)
    if r is None:
        n = 0
        ok = True
        stack = [t]
        while stack and ok:
            x = stack.pop()
            n += 1
            if n > lim or x.op in ('sum', 'prod', 'SM', 'PM', 'forall'):
                ok = False
            for a in x.args:
                if isinstance(a, Term):
                    stack.append(a)
        r = ok
        _small[t.uid] = r
    return r
