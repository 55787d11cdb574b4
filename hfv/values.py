"""Symbolic values, lvalues and states for the executor."""
import itertools
from terms import *
import terms as T


class Unsupported(Exception):
    pass


class Val:
    pass


class Mat(Val):
    """matrix/vector; get(i,j)->Term.  vec: column vector type; arr: Eigen array semantics"""

    def __init__(self, rows, cols, get, sort='R', vec=False, arr=False, diag=False, scalarlike=False):
        self.rows = lift(rows)
        self.cols = lift(cols)
        self._get = get
        self.sort = sort
        self.vec = vec
        self.arr = arr
        self.diag = diag      # DiagonalWrapper of a vector
        self.memo = {}

    def get(self, i, j=None):
        i = lift(i)
        if j is None:
            j = K(0)
            if not self.vec and is0(sub(self.rows, K(1))) and not is0(sub(self.cols, K(1))):
                i, j = K(0), i
        j = lift(j)
        k = (i.uid, j.uid)
        r = self.memo.get(k)
        if r is None:
            r = lift(self._get(i, j))
            self.memo[k] = r
        return r

    @property
    def size(self):
        if self.rows.op == 'k' and self.rows.args[0] == 1:
            return self.cols
        if self.cols.op == 'k' and self.cols.args[0] == 1:
            return self.rows
        return mul(self.rows, self.cols)

    def like(self, get, **kw):
        d = dict(sort=self.sort, vec=self.vec, arr=self.arr)
        d.update(kw)
        rows = d.pop('rows', self.rows)
        cols = d.pop('cols', self.cols)
        return Mat(rows, cols, get, **d)

    def __repr__(self):
        return 'Mat(%s x %s)' % (self.rows, self.cols)


class SVec(Val):
    """std::vector / array: size Term, get(i)->Value, shape of elements"""

    def __init__(self, size, get, eshape):
        self.size = lift(size)
        self._get = get
        self.eshape = eshape
        self.memo = {}

    def get(self, i):
        i = lift(i)
        r = self.memo.get(i.uid)
        if r is None:
            r = self._get(i)
            self.memo[i.uid] = r
        return r

    def __repr__(self):
        return 'SVec(%s)' % self.size


class Obj(Val):
    def __init__(self, rec, fields):
        self.rec = rec
        self.fields = fields

    def set(self, n, v):
        f = dict(self.fields)
        f[n] = v
        return Obj(self.rec, f)

    def __repr__(self):
        return 'Obj(%s)' % self.rec


class Ptr(Val):
    """pointer/shared_ptr to lvalue (None = null).  off: element offset for data()-style pointers"""

    def __init__(self, lv, off=None, isnull=None):
        self.lv = lv
        self.off = off
        self.isnull = isnull

    def __repr__(self):
        return 'Ptr(%s)' % (self.lv,)


class Fun(Val):
    """callable: call(ex, st, args)->value; null: Term telling emptiness"""

    def __init__(self, call, null=FALSE, name='fun', ident=None):
        self.call = call
        self.null = null
        self.name = name
        self.ident = ident


class Str(Val):
    def __init__(self, s=None, nm=None):
        self.s, self.nm = s, nm      # literal text, or the name of a symbolic string


class Tup(Val):
    def __init__(self, items):
        self.items = list(items)


class AllRange(Val):
    pass


class Opaque(Val):
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


def is0(t):
    return t.op == 'k' and t.args[0] == 0 or (T.nf(t) == {} if t.sort != 'B' else False)


# ------------------------------------------------------------------ shapes
def split_targs(s):
    i = s.index('<')
    depth = 0
    out = []
    cur = ''
    for ch in s[i + 1:s.rindex('>')]:
        if ch in '<([':
            depth += 1
        if ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


INTS = {'int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'long long', 'unsigned long long'}


def strip_cv(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile ', 'struct ', 'class '):
            if s.startswith(p):
                s = s[len(p):]
                ch = True
        for p in (' const', '&', '&&'):
            if s.endswith(p):
                s = s[:-len(p)].strip()
                ch = True
    return s


def shape_of(s):
    s = strip_cv(s)
    if s in INTS:
        return ('sc', 'I')
    if s == 'bool':
        return ('sc', 'B')
    if s in ('double', 'float', 'long double') or s.startswith('std::complex<'):
        return ('sc', 'R')
    if s.startswith('Eigen::Matrix<') or s.startswith('Eigen::Array<'):
        a = split_targs(s)
        e = strip_cv(a[0])
        so = 'I' if e in INTS else 'B' if e == 'bool' else 'R'
        return ('mat', so, a[2] == '1', a[1], s.startswith('Eigen::Array<'))
    if s.startswith('std::vector<') or s.startswith('std::initializer_list<') or s.startswith('std::array<'):
        a = split_targs(s)
        if strip_cv(a[0]) == 'bool':
            return ('vec', ('sc', 'B'))
        return ('vec', shape_of(a[0]))
    if s.endswith('*') or s.startswith('std::shared_ptr<') or s.startswith('std::unique_ptr<'):
        return ('ptr', s)
    if s.startswith('std::function<'):
        return ('fun', s)
    if s.startswith('std::basic_string<'):
        return ('str',)
    if s.startswith('std::pair<') or s.startswith('std::tuple<'):
        return ('tup', tuple(shape_of(x) for x in split_targs(s)))
    return ('obj', s)


_un = itertools.count()


def default_val(shape, ex=None, init=False):
    k = shape[0]
    if k == 'sc':
        if init:
            return FALSE if shape[1] == 'B' else K(0, shape[1])
        return fresh('undef', shape[1])
    if k == 'mat':
        so = shape[1]
        n = 'undefm!%d' % next(_un)
        r = int(shape[3]) if len(shape) > 3 and shape[3] not in ('-1',) else 0
        c = 1 if shape[2] else 0
        if len(shape) > 3 and shape[3] == '1' and not shape[2]:
            c = 0
        return Mat(K(r), K(c), lambda i, j: app(n, (i, j), so), so, vec=shape[2], arr=len(shape) > 4 and shape[4])
    if k == 'vec':
        return SVec(K(0), _nogets, shape[1])
    if k == 'ptr':
        return Ptr(None)
    if k == 'fun':
        return Fun(None, TRUE)
    if k == 'str':
        return Str('')
    if k == 'tup':
        return Tup([default_val(x, ex, init) for x in shape[1]])
    if k == 'obj':
        if ex is not None and shape[1] in ex.records:
            return ex.default_obj(shape[1])
        return Opaque(shape[1])
    raise Unsupported('default ' + str(shape))


def _nogets(i):
    raise Unsupported('element of empty vector')


def undef_of(shape, ex, tag, idx):
    """unspecified element value depending on index terms idx"""
    k = shape[0]
    if k == 'sc':
        return app(tag, idx, shape[1])
    if k == 'mat':
        return default_val(shape, ex)
    return default_val(shape, ex)


# ------------------------------------------------------------------ merge
def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, Term) and isinstance(b, Term):
        if a.sort != b.sort and 'B' in (a.sort, b.sort):
            raise Unsupported('merge sorts')
        return ite(c, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(_same(c, a.rows, b.rows), _same(c, a.cols, b.cols), lambda i, j: ite(c, a.get(i, j), b.get(i, j)), a.sort if a.sort == b.sort else 'R', a.vec and b.vec, a.arr)
    if isinstance(a, SVec) and isinstance(b, SVec):
        # an empty side has no elements: any value may stand for them
        if a._get is _nogets or b._get is _nogets:
            o = b if a._get is _nogets else a
            return SVec(_same(c, a.size, b.size), o._get, o.eshape)
        return SVec(_same(c, a.size, b.size), lambda i: merge_val(c, a.get(i), b.get(i)), a.eshape)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.rec != b.rec:
            return Opaque('merge of %s and %s' % (a.rec, b.rec))
        return Obj(a.rec, {k: merge_val(c, a.fields[k], b.fields[k]) for k in a.fields if k in b.fields})
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv is not None and b.lv is not None and a.lv.same(b.lv) and a.off is b.off:
            return a
        if a.lv is None and b.lv is None:
            return a
        return Opaque('merge of pointers')
    if isinstance(a, Tup) and isinstance(b, Tup):
        return Tup([merge_val(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Fun) and isinstance(b, Fun):
        if a.call is b.call:
            return Fun(a.call, ite(c, a.null, b.null), a.name, a.ident)

        def call(ex, st, args, c=c, a=a, b=b):
            return ex.fork(st, c, lambda s: a.call(ex, s, args), lambda s: b.call(ex, s, args))
        return Fun(call, ite(c, a.null, b.null), a.name)
    if isinstance(a, (Str, Opaque)) or isinstance(b, (Str, Opaque)):
        return Str(None) if isinstance(a, Str) and isinstance(b, Str) else Opaque('merge')
    return Opaque('merge')


def _same(c, a, b):
    if a is b:
        return a
    if is0(sub(a, b)):
        return a
    return ite(c, a, b)


# ------------------------------------------------------------------ lvalues
_cell = itertools.count(1)


class LV:
    def same(self, o):
        return self.key() == o.key()


class LCell(LV):
    def __init__(self, cid, name=''):
        self.cid = cid
        self.name = name

    def key(self): return ('c', self.cid)

    def root(self): return (self.cid, ())

    def read(self, st):
        try:
            return st.store[self.cid]
        except KeyError:
            raise Unsupported('dead cell ' + self.name)

    def write(self, st, v, log=True):
        if log:
            st.ex.wlog.add((self.cid, ()))
        st.store[self.cid] = v

    def __repr__(self): return 'LCell(%d,%s)' % (self.cid, self.name)


class LField(LV):
    def __init__(self, base, name):
        self.base = base
        self.name = name

    def key(self): return ('f', self.base.key(), self.name)

    def root(self):
        r = self.base.root()
        return None if r is None else (r[0], r[1] + (self.name,)) if not r[1][-1:] == ('*',) else r

    def read(self, st):
        o = self.base.read(st)
        if not isinstance(o, Obj):
            raise Unsupported('field %s of %r' % (self.name, o))
        if self.name not in o.fields:
            raise Unsupported('no field %s in %s' % (self.name, o.rec))
        return o.fields[self.name]

    def write(self, st, v, log=True):
        if log:
            r = self.root()
            st.ex.wlog.add(r)
        self.base.write(st, self.base.read(st).set(self.name, v), False)


class LTup(LV):
    def __init__(self, base, i):
        self.base = base
        self.i = i

    def key(self): return ('t', self.base.key(), self.i)
    def root(self): return self.base.root()
    def read(self, st): return self.base.read(st).items[self.i]

    def write(self, st, v, log=True):
        if log:
            st.ex.wlog.add(self.root())
        t = self.base.read(st)
        it = list(t.items)
        it[self.i] = v
        self.base.write(st, Tup(it), False)


class LElem(LV):
    """element of a Mat (i,j) or SVec (i)"""

    def __init__(self, base, i, j=None):
        self.base = base
        self.i = i
        self.j = j

    def key(self): return ('e', self.base.key(), self.i.uid, self.j.uid if self.j is not None else None)

    def root(self):
        r = self.base.root()
        return None if r is None else (r if r[1][-1:] == ('*',) else (r[0], r[1] + ('*',)))

    def read(self, st):
        o = self.base.read(st)
        if isinstance(o, Mat):
            return o.get(self.i, self.j)
        if isinstance(o, SVec):
            return o.get(self.i)
        raise Unsupported('element of %r' % (o,))

    def write(self, st, v, log=True):
        if log:
            r = self.root()
            st.ex.wlog.add((r[0], r[1][:-1]) if r[1][-1:] == ('*',) else r)
        o = self.base.read(st)
        if isinstance(o, Mat):
            i, j = self.i, self.j
            if j is None:
                j = K(0)
                if not o.vec and is0(sub(o.rows, K(1))) and not is0(sub(o.cols, K(1))):
                    i, j = K(0), self.i
            if not isinstance(v, Term):
                raise Unsupported('matrix element := %r' % (v,))
            one = o.vec or is0(sub(o.cols, K(1)))

            def g(p, q):
                c = eq(p, i) if one and is0(sub(j, K(0))) else and_(eq(p, i), eq(q, j))
                if c is TRUE:
                    return v
                if c is FALSE:
                    return o.get(p, q)
                return ite(c, v, o.get(p, q))
            self.base.write(st, o.like(g, sort=o.sort if o.sort == v.sort else ('R' if o.sort != 'I' or v.sort == 'R' else 'I')), False)
        elif isinstance(o, SVec):
            i = self.i

            def gv(p):
                c = eq(p, i)
                if c is TRUE:
                    return v
                if c is FALSE:
                    return o.get(p)
                return merge_val(c, v, o.get(p))
            self.base.write(st, SVec(o.size, gv, o.eshape), False)
        else:
            raise Unsupported('element write of %r' % (o,))


class LView(LV):
    """rectangular view: (p,q) -> (p+r0, q+c0); optional transpose/array flags; idx functions for general maps"""

    def __init__(self, base, r0, c0, rows, cols, vec=False, arr=None, tr=False):
        self.base = base
        self.r0, self.c0, self.rows, self.cols = lift(r0), lift(c0), lift(rows), lift(cols)
        self.vec = vec
        self.arr = arr
        self.tr = tr

    def key(self): return ('v', self.base.key(), self.r0.uid, self.c0.uid, self.rows.uid, self.cols.uid, self.tr, self.arr)

    def root(self):
        r = self.base.root()
        return None if r is None else (r if r[1][-1:] == ('*',) else (r[0], r[1] + ('*',)))

    def read(self, st):
        o = self.base.read(st)
        if not isinstance(o, Mat):
            raise Unsupported('view of %r' % (o,))
        arr = o.arr if self.arr is None else self.arr
        if self.tr:
            return Mat(self.rows, self.cols, lambda p, q: o.get(add(q, self.r0), add(p, self.c0)), o.sort, self.vec, arr)
        return Mat(self.rows, self.cols, lambda p, q: o.get(add(p, self.r0), add(q, self.c0)), o.sort, self.vec, arr)

    def write(self, st, v, log=True):
        if log:
            r = self.root()
            st.ex.wlog.add((r[0], r[1][:-1]) if r[1][-1:] == ('*',) else r)
        o = self.base.read(st)
        if self.tr:
            raise Unsupported('write through transpose')
        if not isinstance(v, Mat):
            raise Unsupported('view := %r' % (v,))
        st.ex.need(and_(eq(v.rows, self.rows), eq(v.cols, self.cols)) if not (self.vec and v.vec) else eq(v.size, mul(self.rows, self.cols)), st, 'size-match', 'assignment to a matrix view: operand size equals view size')
        r0, c0, rows, cols = self.r0, self.c0, self.rows, self.cols
        whole = is0(r0) and is0(c0) and is0(sub(rows, o.rows)) and is0(sub(cols, o.cols))

        def g(p, q):
            if whole:
                return v.get(p, q)
            c = and_(le(r0, p), lt(p, add(r0, rows)), *([] if o.vec or (is0(c0) and is0(sub(cols, o.cols))) else [le(c0, q), lt(q, add(c0, cols))]))
            if is0(sub(rows, K(1))):
                c = eq(p, r0) if o.vec else and_(eq(p, r0), *([] if is0(c0) and is0(sub(cols, o.cols)) else [le(c0, q), lt(q, add(c0, cols))]))
            elif is0(sub(cols, K(1))) and not o.vec:
                c = and_(eq(q, c0), *([] if is0(r0) and is0(sub(rows, o.rows)) else [le(r0, p), lt(p, add(r0, rows))]))
            if c is FALSE:
                return o.get(p, q)
            return ite(c, v.get(sub(p, r0), sub(q, c0)), o.get(p, q))
        self.base.write(st, o.like(g), False)


class LIdx(LV):
    """M(rowsel, colsel) indexed view, selections are functions Term->Term"""

    def __init__(self, base, rows, cols, rf, cf, vec=False):
        self.base, self.rows, self.cols, self.rf, self.cf, self.vec = base, rows, cols, rf, cf, vec

    def key(self): return ('x', id(self))

    def root(self):
        r = self.base.root()
        return None if r is None else (r if r[1][-1:] == ('*',) else (r[0], r[1] + ('*',)))

    def read(self, st):
        o = self.base.read(st)
        return Mat(self.rows, self.cols, lambda p, q: o.get(self.rf(p), self.cf(q)), o.sort, self.vec)

    def write(self, st, v, log=True):
        """M(I,J) = v  (or += via read-modify-write): scatter; requires distinct selected indices"""
        if log:
            r = self.root()
            st.ex.wlog.add((r[0], r[1][:-1]) if r[1][-1:] == ('*',) else r)
        o = self.base.read(st)
        rows, cols, rf, cf = self.rows, self.cols, self.rf, self.cf

        def g(p, q):
            a, b = fresh('s', 'I'), fresh('s', 'I')
            hit = and_(eq(rf(a), p), eq(cf(b), q))
            old = o.get(p, q)
            body = ite(hit, sub(v.get(a, b), old), K(0))
            return add(old, sum_(a, K(0), rows, sum_(b, K(0), cols, body)))
        self.base.write(st, o.like(g), False)


class LTemp(LV):
    def __init__(self, v):
        self.v = v

    def key(self): return ('tmp', id(self))
    def root(self): return None
    def read(self, st): return self.v

    def write(self, st, v, log=True):
        self.v = v


class LDiag(LV):
    """diagonal() of a matrix"""

    def __init__(self, base):
        self.base = base

    def key(self): return ('d', self.base.key())

    def root(self):
        r = self.base.root()
        return None if r is None else (r if r[1][-1:] == ('*',) else (r[0], r[1] + ('*',)))

    def read(self, st):
        o = self.base.read(st)
        return Mat(o.rows, K(1), lambda p, q: o.get(p, p), o.sort, True)

    def write(self, st, v, log=True):
        if log:
            r = self.root()
            st.ex.wlog.add((r[0], r[1][:-1]) if r[1][-1:] == ('*',) else r)
        o = self.base.read(st)
        self.base.write(st, o.like(lambda p, q: ite(eq(p, q), v.get(p, K(0)), o.get(p, q))), False)


# ------------------------------------------------------------------ state
class State:
    def __init__(self, ex):
        self.ex = ex
        self.store = {}
        self.pc = []
        self.dead = False

    def copy(self):
        s = State(self.ex)
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.dead = self.dead
        return s

    def assume(self, c):
        c = lift(c)
        if c is TRUE:
            return
        if c is FALSE:
            self.dead = True
        self.pc.append(c)

    def new(self, v, name=''):
        c = next(_cell)
        self.store[c] = v
        return LCell(c, name)

    def become(self, o):
        self.store, self.pc, self.dead = o.store, o.pc, o.dead


def merge_states(a, b):
    """join of two live states"""
    if a.dead:
        return b
    if b.dead:
        return a
    n = 0
    while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
        n += 1
    ra, rb = and_(*a.pc[n:]), and_(*b.pc[n:])
    # choose the shortest discriminating condition
    c = ra
    if a.pc[n:] and b.pc[n:] and not_(a.pc[n]) is b.pc[n]:
        c = a.pc[n]
    elif not_(rb) is ra:
        c = ra
    s = State(a.ex)
    s.pc = a.pc[:n]
    if c is not ra or not_(c) is not rb:
        xa = and_(*[x for x in a.pc[n:] if x is not c])
        xb = and_(*[x for x in b.pc[n:] if x is not not_(c)])
        if not_(c) is rb or (a.pc[n:] and b.pc[n:] and not_(a.pc[n]) is b.pc[n]):
            if xa is not TRUE:
                s.pc.append(implies(c, xa))
            if xb is not TRUE:
                s.pc.append(implies(not_(c), xb))
        else:
            s.assume(or_(ra, rb))
    for k, va in a.store.items():
        if k in b.store:
            vb = b.store[k]
            s.store[k] = va if va is vb else merge_val(c, va, vb)
        else:
            s.store[k] = va
    for k, vb in b.store.items():
        if k not in a.store:
            s.store[k] = vb
    s.merge_cond = c
    return s
