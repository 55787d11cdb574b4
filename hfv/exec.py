"""Symbolic executor over the extracted IR: generates obligations, solves loops to closed
forms (the loop invariants are 'state after k iterations = C(k)', each proved inductive)."""
import json, itertools, math
from fractions import Fraction
from terms import *
import terms as T
from values import *
import values as V
import prover as P

PI_DIGITS = Fraction('3.14159265358979323846264338327950288419716939937510')

UNROLL = 600


class Obl:
    __slots__ = ('kind', 'desc', 'goal', 'ctx', 'loc', 'fn')

    def __init__(s, kind, desc, goal, ctx, loc, fn):
        s.kind, s.desc, s.goal, s.ctx, s.loc, s.fn = kind, desc, goal, ctx, loc, fn


class Program:
    """merged IR of several translation units"""

    def __init__(self, files):
        self.funcs = {}
        self.records = {}
        self.byq = {}
        self.globs = {}
        self.enums = {}
        for fn in files:
            d = json.load(open(fn))
            ty = d['types']
            for r in d['records']:
                r['_ty'] = ty
                self.records.setdefault(r['n'], r)
            for f in d['funcs']:
                f['_ty'] = ty
                if f['key'] not in self.funcs:
                    self.funcs[f['key']] = f
                    self.byq.setdefault(f['q'], []).append(f)
            for g, e in d.get('enums', {}).items():
                self.enums.setdefault(g, int(e))
            for g, e in d['globs'].items():
                self.globs.setdefault(g, (e, ty))

    def enum(self, name):
        return self.enums.get(name)

    def find(self, q, nparams=None, ptypes=None):
        """unique function by qualified-name suffix (+arity / parameter type substrings)"""
        c = []
        for f in self.funcs.values():
            if f['q'] == q or f['q'].endswith('::' + q) or f['key'].startswith(q + '('):
                if nparams is not None and len(f['params']) != nparams:
                    continue
                if ptypes is not None:
                    ts = [f['_ty'][p['t']]['s'] for p in f['params']]
                    if len(ts) != len(ptypes) or not all(pt in t for pt, t in zip(ptypes, ts)):
                        continue
                c.append(f)
        if len(c) != 1:
            raise Unsupported('function %s/%s: %d candidates' % (q, nparams, len(c)))
        return c[0]


class Frame:
    def __init__(self, fn, this, env):
        self.fn, self.this, self.env = fn, this, env
        self.ty = fn['_ty'] if fn else None


def carried(t):
    """term depends on a value from an enclosing loop iteration"""
    return any(isinstance(x, str) and x.startswith(('H!', 'undefm!')) for x in syms(t))


class Exec:
    def __init__(self, prog, contracts=None, candidates=None, invs=None):
        self.prog = prog
        self.funcs = prog.funcs
        self.records = prog.records
        self.contracts = contracts or {}
        self.used = set()
        self.wonly = False
        self.nowonly = False
        self.candidates = candidates or []
        self.invs = invs
        self.wlog = set()
        self.obls = []
        self.throws = []
        self.record = True
        self.frames = []
        self.assumed = set()
        self.inlined = set()
        self.used = set()
        self.depth = 0
        self.globals = {}
        self.loc = ''
        self.loops = 0
        self.wrap64 = False
        self.nowrap = True
        self.statics = {}

    # ------------------------------------------------------------ helpers
    @property
    def fr(self): return self.frames[-1]

    def need(self, goal, st, kind, desc):
        if not self.record or st.dead:
            return
        goal = lift(goal)
        if goal is TRUE:
            self.obls.append(Obl(kind, desc, goal, [], self.loc, self.fr.fn['q'] if self.frames else ''))
            return
        self.obls.append(Obl(kind, desc, goal, list(st.pc), self.loc, self.fr.fn['q'] if self.frames else ''))

    def note(self, s): self.assumed.add(s)

    def fork(self, st, c, fa, fb):
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        sa, sb = st.copy(), st.copy()
        sa.assume(c)
        sb.assume(not_(c))
        va = fa(sa)
        vb = fb(sb)
        if sa.dead:
            st.become(sb)
            return vb
        if sb.dead:
            st.become(sa)
            return va
        m = merge_states(sa, sb)
        st.become(m)
        if va is None or vb is None:
            return va if vb is None else vb
        va = self.rv(va, sa)
        vb = self.rv(vb, sb)
        return merge_val(c, va, vb)

    def rv(self, v, st):
        return v.read(st) if isinstance(v, LV) else v

    def ty(self, i): return self.fr.ty[i]

    def do_throw(self, st, what):
        if not st.dead:
            self.throws.append((list(st.pc), what, self.loc))
        st.dead = True

    # ------------------------------------------------------------ objects
    def rec_fields(self, rec):
        r = self.records.get(rec)
        if r is None:
            return None
        out = []
        for b in r['b']:
            out += self.rec_fields(b) or []
        for f in r['f']:
            out.append((f, r['_ty']))
        return out

    def default_obj(self, rec, st=None):
        fs = {}
        for f, ty in self.rec_fields(rec):
            t = ty[f['t']]
            if f.get('i') is not None:
                self.frames.append(Frame({'_ty': ty, 'q': rec + '::init'}, None, {}))
                try:
                    fs[f['n']] = self.rv(self.ev(f['i'], st or State(self)), st)
                finally:
                    self.frames.pop()
            else:
                fs[f['n']] = default_val(self.shape(t), self)
        return Obj(rec, fs)

    def shape(self, t):
        if t['c'] in 'iu':
            return ('sc', 'I')
        if t['c'] == 'b':
            return ('sc', 'B')
        if t['c'] == 'r':
            return ('sc', 'R')
        if t['c'] == 'a' and 'et' in t:
            return ('carr', t['n'])
        return shape_of(t['s'])

    def bases(self, rec):
        out = [rec]
        r = self.records.get(rec)
        if r:
            for b in r['b']:
                out += self.bases(b)
        return out

    def resolve_virtual(self, rec, call):
        """final overrider of call in dynamic type rec"""
        key = call['key']
        sig = key[key.index('(', len(call['rec'])):]
        n = call['n']
        for b in self.bases(rec):
            k = b + '::' + n + sig
            if k in self.funcs:
                return self.funcs[k]
        return None

    # ------------------------------------------------------------ calling
    def call_fn(self, f, this, args, st, argexprs=None):
        """inline a function body; args: list of LV/values; returns value or LV"""
        if self.depth > 40:
            raise Unsupported('call depth')
        self.inlined.add(f['q'])
        env = {}
        for p, a in zip(f['params'], args):
            self.bind_param(env, p, a, st, f['_ty'])
        self.frames.append(Frame(f, this, env))
        self.depth += 1
        loc = self.loc
        try:
            outs = self.stmt(f['body'], st)
        finally:
            self.depth -= 1
            self.frames.pop()
            self.loc = loc
        return self.join_ret(outs, st, f['_ty'][f['rt']] if f.get('rt') is not None and f.get('rt', -1) >= 0 else None)

    def bind_param(self, env, p, a, st, ty):
        t = ty[p['t']]
        if t['ref']:
            if isinstance(a, LV):
                env[p['id']] = a
            else:
                env[p['id']] = st.new(self.conv(a, t), p['n'])
        else:
            env[p['id']] = st.new(self.conv(self.rv(a, st), t), p['n'])

    def conv(self, v, t):
        """implicit conversion on binding a value to a declared type (matrix kind flags)"""
        if isinstance(v, Mat):
            sh = self.shape(t)
            if sh[0] == 'mat':
                if v.diag:
                    v = self.undiag(v)
                if v.vec != sh[2] or v.arr != sh[4]:
                    if sh[2] and not v.vec:
                        if v.rows.op == 'k' and v.rows.args[0] == 1 and not is0(sub(v.cols, K(1))):
                            return Mat(v.cols, K(1), lambda i, j: v.get(K(0), i), v.sort, True, sh[4])
                    return Mat(v.rows, v.cols, v.get, v.sort, sh[2], sh[4])
        return v

    def undiag(self, v):
        return Mat(v.rows, v.rows, lambda i, j: ite(eq(i, j), v.get(i, K(0)), K(0)), v.sort)

    def join_ret(self, outs, st, rt):
        live = [(k, s, v) for k, s, v in outs if not s.dead]
        if not live:
            st.dead = True
            st.store = outs[0][1].store if outs else st.store
            return None
        cur, val = None, None
        isref = rt is not None and rt['ref']
        for k, s, v in live:
            if k not in ('n', 'ret'):
                raise Unsupported('stray ' + k)
            if cur is None:
                cur, val = s, v
            else:
                if isinstance(val, LV) and isinstance(v, LV) and val.same(v):
                    cur = merge_states(cur, s)
                    continue
                va, vb = (self.rv(val, cur) if val is not None else None), (self.rv(v, s) if v is not None else None)
                m = merge_states(cur, s)
                c = getattr(m, 'merge_cond', None)
                if va is None or vb is None:
                    val = va if vb is None else vb
                else:
                    val = merge_val(c, va, vb) if va is not vb else va
                cur = m
        st.become(cur)
        if val is not None and not isref:
            val = self.rv(val, st)
            if rt is not None:
                val = self.conv(val, rt)
        return val

    # ------------------------------------------------------------ statements
    def stmt(self, s, st):
        """-> list of (kind, state, value)"""
        if s is None:
            return [('n', st, None)]
        if st.dead:
            return []
        k = s['k']
        if 'l' in s:
            self.loc = s['l']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('stmt %s %s at %s' % (k, s.get('w', ''), self.loc))
        return m(s, st)

    def s_expr(self, s, st):
        self.ev(s['e'], st, void=True)
        return [('n', st, None)] if not st.dead else []

    def s_block(self, s, st):
        outs = []
        cur = [st]
        for x in s['s']:
            nxt = None
            for c in cur:
                for kk, ss, vv in self.stmt(x, c):
                    if ss.dead:
                        continue
                    if kk == 'n':
                        nxt = ss if nxt is None else merge_states(nxt, ss)
                    else:
                        outs.append((kk, ss, vv))
            if nxt is None:
                return outs
            cur = [nxt]
        outs.append(('n', cur[0], None))
        return outs

    def s_decl(self, s, st):
        for v in s['v']:
            self.decl(v, st)
            if st.dead:
                return []
        return [('n', st, None)]

    def decl(self, v, st):
        t = self.ty(v['t'])
        env = self.fr.env
        if v.get('static'):
            if self.loops_static_ok(v, st, t):
                return
        if v.get('bind') is not None:
            x = self.ev(v['i'], st)
            lv = x if (t['ref'] and isinstance(x, LV)) else st.new(self.rv(x, st), v['n'])
            val = lv.read(st)
            for i, b in enumerate(v['bind']):
                if isinstance(val, Tup):
                    env[b['id']] = LTup(lv, i)
                elif isinstance(val, Obj):
                    names = [f['n'] for f, _ in self.rec_fields(val.rec)]
                    env[b['id']] = LField(lv, names[i])
                else:
                    raise Unsupported('binding')
            return
        if t['c'] == 'a':
            if isinstance(v.get('i'), dict) and v['i'].get('k') == 'ctor' and not v['i'].get('a'):
                sh = self.shape(self.ty(t['et']))
                dv = default_val(sh, self)
                val = SVec(K(t['n']), lambda i: dv, sh)
            elif v.get('i') is not None:
                val = self.rv(self.ev(v['i'], st), st)
                n = t.get('n')
                if isinstance(val, SVec) and n is not None and val.size.op == 'k' and val.size.args[0] < n:
                    m = int(val.size.args[0])
                    old = val
                    val = SVec(K(n), lambda i: merge_val(lt(i, K(m)), old.get(i), K(0)) if not i.op == 'k' else (old.get(i) if i.args[0] < m else K(0)), old.eshape)
            else:
                et = self.ty(t['et'])
                tag = 'undefa!%d' % next(V._un)
                sh = self.shape(et)
                val = SVec(K(t['n']), lambda i: undef_of(sh, self, tag, (i,)), sh)
            env[v['id']] = st.new(val, v['n'])
            return
        if v.get('i') is None:
            env[v['id']] = st.new(default_val(self.shape(t), self), v['n'])
            return
        x = self.ev(v['i'], st)
        if st.dead:
            return
        if x is None:
            raise Unsupported('void initialiser for ' + v['n'])
        if t['ref']:
            env[v['id']] = x if isinstance(x, LV) else st.new(self.conv(x, t), v['n'])
            return
        rec = t.get('q', '')
        if isinstance(x, LV) and rec in ('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Map', 'Eigen::Transpose', 'Eigen::Ref', 'Eigen::ArrayWrapper', 'Eigen::IndexedView', 'Eigen::Diagonal', 'Eigen::Reverse'):
            env[v['id']] = x
            return
        env[v['id']] = st.new(self.conv(self.rv(x, st), t), v['n'])

    def loops_static_ok(self, v, st, t):
        # function-local static: constant tables only
        if t['const'] or v.get('const'):
            return False
        raise Unsupported('mutable static local ' + v['n'])

    def s_if(self, s, st):
        if s.get('init'):
            r = self.stmt(s['init'], st)
            if len(r) != 1:
                raise Unsupported('if init')
            st = r[0][1]
        if s.get('cv'):
            self.stmt(s['cv'], st)
        c = self.cond(s['c'], st)
        if st.dead:
            return []
        if c is TRUE:
            return self.stmt(s['a'], st)
        if c is FALSE:
            return self.stmt(s.get('b'), st)
        d = self.decide(c, st)
        if d is True:
            return self.stmt(s['a'], st)
        if d is False:
            return self.stmt(s.get('b'), st)
        sa, sb = st.copy(), st.copy()
        sa.assume(c)
        sb.assume(not_(c))
        oa = self.stmt(s['a'], sa)
        ob = self.stmt(s.get('b'), sb)
        outs = []
        n = None
        for kk, ss, vv in oa + ob:
            if ss.dead:
                continue
            if kk == 'n':
                n = ss if n is None else merge_states(n, ss)
            else:
                outs.append((kk, ss, vv))
        if n is not None:
            outs.append(('n', n, None))
        return outs

    def decide(self, c, st):
        """cheap branch pruning"""
        if any(c is x for x in st.pc):
            return True
        nc = not_(c)
        if any(nc is x for x in st.pc):
            return False
        if self.prune and not self.wonly and size(c) < 60:
            return P.z3decide(c, st.pc, 0.3)
        return None

    prune = True

    def cond(self, e, st):
        v = self.rv(self.ev(e, st), st)
        if st.dead:
            return FALSE
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, Term):
            return v if v.sort == 'B' else ne(v, K(0))
        if isinstance(v, Fun):
            return not_(v.null)
        if isinstance(v, Ptr):
            if v.isnull is not None:
                return not_(v.isnull)
            return lift(v.lv is not None)
        raise Unsupported('condition %r' % (v,))

    def s_ret(self, s, st):
        if s.get('e') is None:
            return [('ret', st, None)]
        v = self.ev(s['e'], st)
        if st.dead:
            return []
        rt = self.fr.fn.get('rt', -1)
        if not (rt is not None and rt >= 0 and self.ty(rt)['ref']) and v is not None:
            v = self.rv(v, st)
        return [('ret', st, v)]

    def s_break(self, s, st): return [('brk', st, None)]
    def s_cont(self, s, st): return [('cont', st, None)]

    def s_switch(self, s, st):
        c = self.rv(self.ev(s['c'], st), st)
        # flatten body into a list of (labels, stmt)
        items = []

        def flat(x, labels):
            if x['k'] == 'case':
                lab = labels + [self.rv(self.ev(x['v'], st), st)]
                flat(x['s'], lab)
            elif x['k'] == 'default':
                flat(x['s'], labels + ['default'])
            else:
                items.append((labels, x))
        body = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
        for x in body:
            if x is not None:
                flat(x, [])
        labs = [l for ls, _ in items for l in ls]
        alls = [l for l in labs if l != 'default']
        outs = []
        starts = []
        for i, (ls, _) in enumerate(items):
            for l in ls:
                starts.append((l, i))
        nomatch = and_(*[ne(c, l) for l in alls])
        todo = []
        for l, i in starts:
            g = nomatch if l == 'default' else eq(c, l)
            todo.append((g, i))
        if 'default' not in labs:
            todo.append((nomatch, len(items)))
        n = None
        for g, i in todo:
            if g is FALSE:
                continue
            s1 = st.copy()
            s1.assume(g)
            if g is not TRUE and self.decide(g, st) is False:
                continue
            cur = s1
            for ls, x in items[i:]:
                nxt = None
                for kk, ss, vv in self.stmt(x, cur):
                    if ss.dead:
                        continue
                    if kk == 'n':
                        nxt = ss if nxt is None else merge_states(nxt, ss)
                    elif kk == 'brk':
                        n = ss if n is None else merge_states(n, ss)
                    else:
                        outs.append((kk, ss, vv))
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                n = cur if n is None else merge_states(n, cur)
        if n is not None:
            outs.append(('n', n, None))
        return outs

    def s_try(self, s, st):
        raise Unsupported('try')

    def s_for(self, s, st):
        if s.get('init') is not None:
            r = self.stmt(s['init'], st)
            if not r:
                return []
            st = r[0][1]
        return self.loop(s, s.get('c'), s['body'], s.get('inc'), st)

    def s_while(self, s, st):
        return self.loop(s, s['c'], s['body'], None, st)

    def s_do(self, s, st):
        # body once, then while
        outs = []
        n = None
        for kk, ss, vv in self.stmt(s['body'], st):
            if ss.dead:
                continue
            if kk in ('n', 'cont'):
                n = ss if n is None else merge_states(n, ss)
            elif kk == 'brk':
                outs.append(('n', ss, None))
            else:
                outs.append((kk, ss, vv))
        if n is not None:
            outs += self.loop(s, s['c'], s['body'], None, n)
        return outs

    def s_rfor(self, s, st):
        r = self.ev(s['r'], st)
        lv = r if isinstance(r, LV) else st.new(r, 'range')
        c = lv.read(st)
        if not isinstance(c, (SVec, Mat)):
            raise Unsupported('range-for over %r' % (c,))
        n = c.size
        idx = st.new(K(0), 'idx')
        v = s['v']
        t = self.ty(v['t'])

        def body(st):
            i = idx.read(st)
            if t['ref']:
                e = LElem(lv, i)
                if s.get('bind') is not None:
                    for k, b in enumerate(s['bind']):
                        self.fr.env[b['id']] = LTup(e, k)
                else:
                    self.fr.env[v['id']] = e
            else:
                x = lv.read(st).get(i)
                if s.get('bind') is not None:
                    cc = st.new(x, 'b')
                    for k, b in enumerate(s['bind']):
                        self.fr.env[b['id']] = LTup(cc, k)
                else:
                    self.fr.env[v['id']] = st.new(x, v['n'])
            return self.stmt(s['body'], st)

        def inc(st):
            idx.write(st, add(idx.read(st), K(1)))
        return self.loop(s, lambda st: lt(idx.read(st), n), body, inc, st)

    # ------------------------------------------------------------ loops
    def run_cond(self, c, st):
        if c is None:
            return TRUE
        if callable(c):
            return c(st)
        return self.cond(c, st)

    def run_body(self, b, st):
        if callable(b):
            return b(st)
        return self.stmt(b, st)

    def run_inc(self, i, st):
        if i is None:
            return
        if callable(i):
            i(st)
        else:
            self.ev(i, st, void=True)

    def loop(self, s, cond, body, inc, st):
        loc = s.get('l', '')
        outs = []
        rec = self.record
        exits = []
        it = 0
        while True:
            # concrete iteration while the condition is constant
            probe = st.copy()
            self.record = False
            w0 = set(self.wlog)
            nt = len(self.throws)
            try:
                c = self.run_cond(cond, probe)
            finally:
                self.record = rec
                del self.throws[nt:]
                self.wlog = w0
            lit = cond is None or (isinstance(cond, dict) and cond.get('k') == 'bool')
            if c is FALSE:
                exits.append(st)
                break
            if c is not TRUE or lit:
                break
            it += 1
            if it > UNROLL:
                raise Unsupported('unroll limit at ' + loc)
            n = None
            for kk, ss, vv in self.run_body(body, st):
                if ss.dead:
                    continue
                if kk in ('n', 'cont'):
                    n = ss if n is None else merge_states(n, ss)
                elif kk == 'brk':
                    exits.append(ss)
                else:
                    outs.append((kk, ss, vv))
            if n is None:
                st = None
                break
            st = n
            self.run_inc(inc, st)
            if st.dead:
                st = None
                break
        if st is not None and c is not FALSE:
            o2, ex2 = self.sym_loop(loc, cond, body, inc, st)
            outs += o2
            exits += ex2
        fin = None
        for e in exits:
            if not e.dead:
                fin = e if fin is None else merge_states(fin, e)
        if fin is not None:
            outs.append(('n', fin, None))
        return outs

    # leaf decomposition of a value: list of (path, arity, sort, getter(value)->fn(args))
    def leaves(self, v):
        out = []

        def go(v, ar, path, get, set_):
            if isinstance(v, Term):
                out.append((path, ar, v.sort, get))
            elif isinstance(v, Mat):
                out.append((path + ('rows',), ar, 'I', lambda x, a: get(x, a).rows))
                out.append((path + ('cols',), ar, 'I', lambda x, a: get(x, a).cols))
                so = v.sort
                if v.vec:
                    out.append((path + ('get',), ar + 1, so, lambda x, a: get(x, a[:-1]).get(a[-1], K(0))))
                else:
                    out.append((path + ('get',), ar + 2, so, lambda x, a: get(x, a[:-2]).get(a[-2], a[-1])))
            elif isinstance(v, SVec):
                out.append((path + ('size',), ar, 'I', lambda x, a: get(x, a).size))
                sh = v.eshape
                pv = self.proto(sh)
                go(pv, ar + 1, path + ('el',), lambda x, a: get(x, a[:-1]).get(a[-1]), None)
            elif isinstance(v, Obj):
                for n in v.fields:
                    go(v.fields[n], ar, path + (n,), (lambda n: lambda x, a: get(x, a).fields[n])(n), None)
            elif isinstance(v, Tup):
                for i, y in enumerate(v.items):
                    go(y, ar, path + (i,), (lambda i: lambda x, a: get(x, a).items[i])(i), None)
            elif isinstance(v, (Str, Opaque, Ptr, Fun)):
                out.append((path, ar, 'opaque', get))
            else:
                raise Unsupported('leaves of %r' % (v,))
        go(v, 0, (), lambda x, a: x, None)
        return out

    def proto(self, sh):
        if sh[0] == 'sc':
            return FALSE if sh[1] == 'B' else K(0, sh[1])
        if sh[0] == 'vec':
            return SVec(K(0), V._nogets, sh[1])
        return default_val(sh, self)

    def build(self, v, fn):
        """rebuild a value of v's shape with leaf function fn(path)(args)"""
        def go(v, a, path):
            if isinstance(v, Term):
                return fn(path)(a)
            if isinstance(v, Mat):
                if v.vec:
                    return Mat(fn(path + ('rows',))(a), K(1), lambda i, j: fn(path + ('get',))(a + (i,)), v.sort, True, v.arr)
                return Mat(fn(path + ('rows',))(a), fn(path + ('cols',))(a), lambda i, j: fn(path + ('get',))(a + (i, j)), v.sort, v.vec, v.arr)
            if isinstance(v, SVec):
                sh = v.eshape
                return SVec(fn(path + ('size',))(a), lambda i: go(self.proto(sh), a + (i,), path + ('el',)), sh)
            if isinstance(v, Obj):
                return Obj(v.rec, {n: go(x, a, path + (n,)) for n, x in v.fields.items()})
            if isinstance(v, Tup):
                return Tup([go(x, a, path + (i,)) for i, x in enumerate(v.items)])
            return fn(path)(a) or v
        return go(v, (), ())

    def rd(self, st, root):
        v = st.store[root[0]]
        for f in root[1]:
            if f == '*':
                break
            v = v.fields[f]
        return v

    def wr(self, st, root, val):
        path = [f for f in root[1] if f != '*']

        def upd(v, p):
            if not p:
                return val
            return v.set(p[0], upd(v.fields[p[0]], p[1:]))
        st.store[root[0]] = upd(st.store[root[0]], path)

    def iterate(self, cond, body, inc, st):
        """one iteration: returns (cond term, normal state or None, [(kind,state,value)])"""
        c = self.run_cond(cond, st)
        if st.dead:
            return c, None, []
        st.assume(c)
        n = None
        others = []
        for kk, ss, vv in self.run_body(body, st):
            if ss.dead:
                continue
            if kk in ('n', 'cont'):
                n = ss if n is None else merge_states(n, ss)
            else:
                others.append((kk, ss, vv))
        if n is not None:
            self.run_inc(inc, n)
            if n.dead:
                n = None
        return c, n, others

    def sym_loop(self, loc, cond, body, inc, st):
        self.loops += 1
        rec = self.record
        outer_w = self.wlog
        S0 = st
        # ---- phase A: write set
        roots = set()
        self.record = False
        nthrow = len(self.throws)
        nobl = len(self.obls)
        lowb = True
        try:
            w1 = self.wonly
            first = True
            roots = self.inc_roots(inc, S0)
            for _ in range(6):
                self.wlog = set()
                s = S0.copy()
                hav, leafs = self.havoc(s, S0, roots)
                guess = self.low_bounds(inc, s, leafs) if (lowb and not first) else []
                if first and not w1 and not self.nowonly:
                    # cheap pass: only the write set matters
                    self.wonly = True
                    d0 = self.depth, len(self.frames)
                    try:
                        c, n, others = self.iterate(cond, body, inc, s)
                    except (Unsupported, Dead):
                        self.nowonly = True
                        first = False
                        self.wonly = False
                        self.depth = d0[0]
                        del self.frames[d0[1]:]
                        continue
                    finally:
                        self.wonly = w1
                else:
                    c, n, others = self.iterate(cond, body, inc, s)
                new = set()
                for r in self.wlog:
                    if r is not None and r[0] in S0.store:
                        p = tuple(x for x in r[1] if x != '*')
                        new.add((r[0], p))
                new = self.minroots(new | roots)
                was_first, first = first, False
                if w1:
                    roots = new
                    break
                if new == roots and not (was_first and not self.nowonly):
                    # the assumed lower bounds must be invariants of the full body
                    if guess and n is not None and not all(self.step_up(n, g) for g in guess):
                        lowb = False
                        continue
                    break
                roots = new
            else:
                raise Unsupported('write set does not stabilise at ' + loc)
        finally:
            self.record = rec
            del self.throws[nthrow:]
            self.wlog = outer_w
            for r in roots:
                outer_w.add(r)
        if self.wonly:
            sx = S0.copy()
            self.havoc(sx, S0, roots)
            return [(kk, ss, vv) for kk, ss, vv in others if kk not in ('brk',)], [sx] + [ss for kk, ss, vv in others if kk == 'brk']
        if n is None and not others:
            # body never completes: at most zero iterations complete
            pass
        sol = self.solve(loc, cond, S0, roots, leafs, c, n, others)
        if sol is None:
            return self.inv_loop(loc, cond, body, inc, S0, roots)
        kv, state_at, proc, inrange, final_k, nonempty = sol
        # ---- phase C: obligations at iteration k, exits
        outs, exits = [], []
        sk = state_at(kv, S0.copy())
        sk.pc.append(inrange(kv))
        base_len = len(sk.pc)
        nthrow = len(self.throws)
        noexit = []
        if rec or others:
            c2, n2, oth2 = self.iterate(cond, body, inc, sk)
            for kk, ss, vv in oth2:
                noexit.append(and_(*[x for x in ss.pc[base_len:] if x is not c2]))
            for pcs, what, tl in self.throws[nthrow:]:
                noexit.append(and_(*[x for x in pcs[base_len:] if x is not c2]))
            for kk, ss, vv in oth2:
                t = fresh('t', 'I')
                first = [forall([t], implies(proc(t, kv), not_(subst(x, {kv: t})))) for x in noexit if x is not TRUE]
                ss.pc = ss.pc + first
                if kk == 'brk':
                    exits.append(ss)
                else:
                    outs.append((kk, ss, vv))
        # ---- normal exit
        sf = state_at(final_k, S0.copy())
        t = fresh('t', 'I')
        for x in noexit:
            sf.assume(forall([t], implies(inrange(t), not_(subst(x, {kv: t})))))
        if not any(x is TRUE for x in noexit):
            exits.append(sf)
        else:
            sf.assume(not_(nonempty))
            exits.append(sf)
        return outs, exits

    def inc_roots(self, inc, S0):
        """what the increment expression writes (start of the write set)"""
        if inc is None:
            return set()
        w, nt = self.wlog, len(self.throws)
        self.wlog = set()
        try:
            self.run_inc(inc, S0.copy())
            return self.minroots({(r[0], tuple(x for x in r[1] if x != '*')) for r in self.wlog if r is not None and r[0] in S0.store})
        except (Unsupported, Dead):
            return set()
        finally:
            self.wlog = w
            del self.throws[nt:]

    def low_bounds(self, inc, s, leafs):
        """loop counters raised by the increment expression: assume start <= counter"""
        if inc is None:
            return []
        out = []
        t = s.copy()
        w = self.wlog
        self.wlog = set()
        try:
            self.run_inc(inc, t)
        except (Unsupported, Dead):
            return []
        finally:
            self.wlog = w
        for (r, path), (nm, ar, so, get, v0) in leafs.items():
            if nm is None or ar or so != 'I' or not isinstance(v0, Term):
                continue
            try:
                d = nf(sub(get(self.rd(t, r), ()), var(nm, 'I')))
            except (Unsupported, TooBig):
                continue
            dt = to_term(d, 'I')
            if dt.op == 'k' and dt.args[0] > 0:
                s.assume(le(get(v0, ()), var(nm, 'I')))
                out.append((r, nm, get))
        return out

    def step_up(self, n, g):
        r, nm, get = g
        dt = to_term(nf(sub(get(self.rd(n, r), ()), var(nm, 'I'))), 'I')
        return dt.op == 'k' and dt.args[0] > 0

    def minroots(self, rs):
        out = set()
        for r in rs:
            if not any(o != r and o[0] == r[0] and r[1][:len(o[1])] == o[1] for o in rs):
                out.add(r)
        return out

    def havoc(self, s, S0, roots):
        leafs = {}
        for r in sorted(roots, key=str):
            v = self.rd(S0, r)
            names = {}
            for path, ar, so, get in self.leaves(v):
                if so == 'opaque':
                    leafs[(r, path)] = (None, ar, so, get, v)
                    names[path] = None
                else:
                    nm = 'H!%d' % next(V._un)
                    leafs[(r, path)] = (nm, ar, so, get, v)
                    names[path] = (nm, so)

            def fn(path, names=names, v=v):
                x = names[path]
                if x is None:
                    return lambda a: None
                return lambda a: app(x[0], a, x[1]) if a else var(x[0], x[1])
            if isinstance(v, (Ptr, Fun, Str, Opaque)):
                self.wr(s, r, Opaque('havoc'))
            else:
                self.wr(s, r, self.build(v, fn))
        return None, leafs

    def solve(self, loc, cond, S0, roots, leafs, c, n, others):
        """closed forms for every havocked leaf.  None when no induction variable."""
        if n is None:
            n_val = None
        names = {x[0]: k for k, x in leafs.items() if x[0]}
        hn = set(names)

        def hsyms(t):
            return syms(t) & hn
        # argument variables and next-values
        info = {}
        for key, (nm, ar, so, get, v0) in leafs.items():
            if nm is None:
                continue
            args = tuple(fresh('x', 'I') for _ in range(ar))
            h = app(nm, args, so) if ar else var(nm, so)
            if n is None:
                nv = h
            else:
                nv = get(self.rd(n, key[0]), args)
            info[nm] = (args, h, nv, self.init_el(get, v0, args) if not (ar and self.empty_el(v0, key[1])) else None, so, key, get, v0)
        # induction variable: scalar with nv == h + const
        steps = {}
        for nm, (args, h, nv, init, so, key, get, v0) in info.items():
            if not args and so == 'I':
                d = nf(sub(nv, h))
                if not d:
                    continue
                dt = to_term(d, 'I')
                if dt.op == 'k' and dt.args[0] != 0:
                    steps[nm] = int(dt.args[0])
        kv = fresh('k', 'I')
        # choose primary = one occurring in cond
        cs = hsyms(c)
        prim = [x for x in steps if x in cs]
        if not prim:
            return None
        best = None
        for p in prim:
            r = self.trip(c, p, info, steps, kv, hsyms, others)
            if r is not None:
                best = (p, r)
                break
        if best is None:
            return None
        p, (bound, strict) = best
        step = steps[p]
        a0 = info[p][3]
        self.up = step == 1
        if step == 1:
            b = bound                      # continue while v < b
            inr = lambda t: and_(le(a0, t), lt(t, b))
            proc = lambda t, k: and_(le(a0, t), lt(t, k))
            lastk = lambda k: sub(k, K(1))
            final = tmax(a0, b)
            nonempty = lt(a0, b)
            vof = lambda k: k
            cnt = lambda k: sub(k, a0)
        elif step == -1:
            b = bound                      # continue while v > b
            inr = lambda t: and_(lt(b, t), le(t, a0))
            proc = lambda t, k: and_(lt(k, t), le(t, a0))
            lastk = lambda k: add(k, K(1))
            final = tmin(a0, b)
            nonempty = lt(b, a0)
            vof = lambda k: k
            cnt = lambda k: sub(a0, k)
        else:
            if step < 0:
                return None
            b = bound
            N = idiv(add(sub(b, a0), K(step - 1)), K(step))
            inr = lambda t: and_(le(K(0), t), lt(add(a0, mul(K(step), t)), b))
            proc = lambda t, k: and_(le(K(0), t), lt(t, k))
            lastk = lambda k: sub(k, K(1))
            final = ite(lt(a0, b), N, K(0))
            nonempty = lt(a0, b)
            vof = lambda k: add(a0, mul(K(step), k))
            cnt = lambda k: k
        # bound must be loop invariant (after resolution) -- checked below
        C = {}                             # name -> function(k, args)->Term

        for nm, st_ in steps.items():
            init = info[nm][3]
            if nm == p:
                C[nm] = lambda k, a: vof(k)
            else:
                C[nm] = (lambda init, st_: lambda k, a: add(init, mul(K(st_), cnt(k))))(init, st_)

        def res(t, k):
            """replace resolved H symbols by their closed form at iteration k"""
            m = {nm: (lambda nm: lambda a: C[nm](k, a))(nm) for nm in C if nm in syms(t)}
            return fsubst(t, m) if m else t

        pend = [nm for nm in info if nm not in C]
        progress = True
        ctx0 = list(S0.pc)
        while pend:
            progress = False
            for nm in list(pend):
                f = self.solve_leaf(nm, info, kv, res, hsyms, proc, inr, lastk, nonempty, ctx0, C, a0, cnt)
                if f is not None:
                    C[nm] = f
                    pend.remove(nm)
                    progress = True
            if pend and not progress:
                got = self.try_candidates(pend, info, kv, res, hsyms, inr, ctx0, C, a0, step)
                if not got:
                    bad = [info[nm] for nm in pend]
                    raise Unsupported('no closed form for loop at %s (%s): %s' % (loc, [b[5] for b in bad], [str(b[2])[:300] for b in bad][:2]))
                pend = [nm for nm in pend if nm not in C]
        b2 = res(bound, kv)
        if kv in fv(b2) or hsyms(b2):
            # bound changes during the loop
            raise Unsupported('loop bound not invariant at ' + loc)
        if b2 is not bound:
            bound_final = b2
            # recompute with resolved bound
            return self._finish(S0, roots, leafs, info, C, kv, step, a0, b2, proc, vof)
        return self._finish(S0, roots, leafs, info, C, kv, step, a0, bound, proc, vof)

    def _finish(self, S0, roots, leafs, info, C, kv, step, a0, b, proc, vof):
        if step == 1:
            inr = lambda t: and_(le(a0, t), lt(t, b))
            final = tmax(a0, b)
            nonempty = lt(a0, b)
        elif step == -1:
            inr = lambda t: and_(lt(b, t), le(t, a0))
            final = tmin(a0, b)
            nonempty = lt(b, a0)
        else:
            inr = lambda t: and_(le(K(0), t), lt(add(a0, mul(K(step), t)), b))
            final = ite(lt(a0, b), idiv(add(sub(b, a0), K(step - 1)), K(step)), K(0))
            nonempty = lt(a0, b)
        if step == 1 and self.decide_bool(le(a0, b), S0):
            final = b
        elif step == -1 and self.decide_bool(le(b, a0), S0):
            final = b
        elif self.decide_bool(nonempty, S0):
            final = b if step in (1, -1) else idiv(add(sub(b, a0), K(step - 1)), K(step))

        def state_at(k, s):
            for r in roots:
                v = self.rd(S0, r)
                if isinstance(v, (Ptr, Fun, Str, Opaque)):
                    self.wr(s, r, Opaque('loop'))
                    continue
                nmof = {path: x[0] for (rr, path), x in leafs.items() if rr == r}

                def fn(path, nmof=nmof):
                    nm = nmof[path]
                    if nm is None:
                        return lambda a: Opaque('loop')
                    if path and path[-1] == 'get':
                        return lambda a: inside(path, nmof, nm, k, a)
                    return lambda a: C[nm](k, a)
                self.wr(s, r, self.build(v, fn))
            return s

        def inside(path, nmof, nm, k, a):
            """matrix entries left over from an enclosing iteration: only indices inside the matrix exist"""
            t = C[nm](k, a)
            if t.op != 'ite' or not carried(t):
                return t
            dims = [nmof[path[:-1] + (x,)] for x in ('rows', 'cols')]
            dims = dims[:len(a) - len(info[dims[0]][0])] if dims[0] else []
            ix, pre = a[len(a) - len(dims):], a[:len(a) - len(dims)]
            pc = list(S0.pc)
            for x, d in zip(ix, dims):
                if d is None:
                    return t
                pc += [le(K(0), x), lt(x, C[d](k, pre))]
            while t.op == 'ite':
                if P.z3check(t.args[0], pc, 1.0, quick=True) is True:
                    t = t.args[1]
                elif P.z3check(not_(t.args[0]), pc, 1.0, quick=True) is True:
                    t = t.args[2]
                else:
                    break
            return t
        return kv, state_at, proc, inr, final, nonempty

    def decide_bool(self, c, st):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return P.z3check(c, st.pc, 1.0, quick=True) is True

    def init_el(self, get, v0, args):
        """element of the initial value; None inside an empty inner vector"""
        try:
            return get(v0, args)
        except Unsupported as e:
            if len(args) > 1 and 'element of empty vector' in str(e):
                return None
            raise

    def empty_el(self, v, path):
        """leaf lies in the element part of an empty vector"""
        x = v
        for p in path:
            if isinstance(x, SVec):
                if p == 'el' and x._get is V._nogets:
                    return True
                if p == 'el':
                    return False
                return False
            if isinstance(x, Obj):
                x = x.fields[p]
            elif isinstance(x, Tup):
                x = x.items[p]
            else:
                return False
        return False

    def trip(self, c, p, info, steps, kv, hsyms, others):
        """cond as  v < bound (step>0) / v > bound (step<0); returns (bound, strict)"""
        v = info[p][1]
        step = steps[p]
        if c.op in ('<', '<='):
            l, r = c.args
            d = sub(r, l)                   # d > 0 or >= 0
            P_ = nf(d)
            co = lincoef(P_, v)
            if co is None:
                return None
            coef, rest = co                 # d = coef*v + rest
            if coef == -1 and step > 0:
                # rest - v > 0  -> v < rest ; >=0 -> v < rest+1
                return (to_term(rest, 'I') if c.op == '<' else add(to_term(rest, 'I'), K(1)), True)
            if coef == 1 and step < 0:
                # v + rest > 0 -> v > -rest ; >= -> v > -rest-1
                nb = mul(K(-1), to_term(rest, 'I'))
                return (nb if c.op == '<' else sub(nb, K(1)), True)
            return None
        if c.op == 'not' and c.args[0].op == '=' and step in (1, -1):
            l, r = c.args[0].args
            co = lincoef(nf(sub(r, l)), v)
            if co is None or co[0] not in (1, -1):
                return None
            coef, rest = co
            b = to_term(rest, 'I') if coef == -1 else mul(K(-1), to_term(rest, 'I'))
            # terminates at equality only when started on the right side; obligation-free assumption is unsound, so require
            init = info[p][3]
            if P.prove(le(init, b) if step == 1 else le(b, init), []) is None:
                self.pending_ne = True
                return None
            return (b, True)
        if c.op == 'and':
            return None
        return None

    def solve_leaf(self, nm, info, kv, res, hsyms, proc, inr, lastk, nonempty, ctx0, C, a0, cnt):
        args, h, nv, init, so, key, get, v0 = info[nm]
        if init is None:
            tag = 'undef!%d' % next(V._un)
            init = app(tag, args, so)
        amap = lambda t, a: subst(t, dict(zip(args, a))) if args else t
        if nv is h:
            return lambda k, a: amap(init, a)
        nv = res(nv, kv)
        hs = hsyms(nv)
        if so == 'B':
            if not hs:
                val = nv
                return lambda k, a: ite(proc(lastk(k), k), amap(subst(val, {kv: lastk(k)}), a), amap(init, a))
            parts = nv.args if nv.op == 'or' else ()
            if h in parts:
                rest = or_(*[x for x in parts if x is not h])
                if not hsyms(rest):
                    def f(k, a):
                        t = fresh('t', 'I')
                        return or_(amap(init, a), exists([t], and_(proc(t, k), amap(subst(rest, {kv: t}), a))))
                    return f
            parts = nv.args if nv.op == 'and' else ()
            if h in parts:
                rest = and_(*[x for x in parts if x is not h])
                if not hsyms(rest):
                    def f(k, a):
                        t = fresh('t', 'I')
                        return and_(amap(init, a), forall([t], implies(proc(t, k), amap(subst(rest, {kv: t}), a))))
                    return f
            return None
        nv = self.selfalias(nv, h, kv)
        f = self.direct(nv, h, args, hsyms, kv, proc, init, amap)
        if f is not None:
            return f
        try:
            d = nf(delta(nv, h))
            dt = to_term(d, so) if d else K(0, so)
        except TooBig:
            d, dt = None, None
        if d is not None and not d:
            return lambda k, a: amap(init, a)
        if dt is not None and not hsyms(dt) and not (not hs):
            if not args and so == 'I' and self.up and len(d) > 1 and is0(a0):
                P.prefix_family(kv, dt)
            if not args and self.up and kv not in fv(dt):
                return lambda k, a: add(init, mul(dt, sub(k, a0)))      # k >= a0 wherever the form is used
            def f(k, a):
                t = fresh('s', 'I')
                g = amap(subst(dt, {kv: t}), a)
                return add(amap(init, a), psum(t, proc(t, k), g))
            return f
        if not hs:
            # plain overwrite every iteration
            val = nv

            def f(k, a):
                lk = lastk(k)
                return ite(proc(lk, k), amap(subst(val, {kv: lk}), a), amap(init, a))
            return f
        # guarded overwrite
        try:
            cases = ite_cases(nv)
        except TooBig:
            cases = None
        if cases and len(cases) > 1 and all(u is h or not hsyms(u) for g, u in cases) and not any(hsyms(x) for g, u in cases for x in g):
            w = or_(*[and_(*g) for g, u in cases if u is not h])
            val = None
            for g, u in cases:
                if u is h:
                    continue
                val = u if val is None else ite(and_(*g), u, val)
            if kv not in fv(w):
                def f(k, a):
                    lk = lastk(k)
                    return ite(and_(proc(lk, k), amap(w, a)), amap(subst(val, {kv: lk}), a), amap(init, a))
                return f
            t1, t2 = fresh('t', 'I'), fresh('t', 'I')
            dis = not_(and_(subst(w, {kv: t1}), subst(w, {kv: t2})))
            ok = P.prove(dis, ctx0 + [inr(t1), inr(t2), ne(t1, t2)], 4.0)
            if ok:
                def f(k, a):
                    t = fresh('s', 'I')
                    g = amap(ite(subst(w, {kv: t}), sub(subst(val, {kv: t}), init), K(0)), a)
                    return add(amap(init, a), psum(t, proc(t, k), g))
                return f
            # identical value whichever iteration writes last (value independent of kv)
            if kv not in fv(val):
                def f(k, a):
                    t = fresh('t', 'I')
                    return ite(exists([t], and_(proc(t, k), amap(subst(w, {kv: t}), a))), amap(val, a), amap(init, a))
                return f
            return None
        # overwrite expressed through nested loops: nv = h + sum of guarded terms, disjoint across iterations
        if d is not None:
            f = self.linear_overwrite(d, h, hsyms, kv, inr, ctx0, init, amap, proc)
            if f is not None:
                return f
        f = self.array_recurrence(nm, args, h, nv, init, hsyms, kv, inr, ctx0, amap, proc, a0)
        if f is not None:
            return f
        # product accumulation
        try:
            pn = nf(nv)
        except TooBig:
            return None
        g = divide_by(pn, h)
        if g is not None:
            gt = to_term(g, 'R')
            if not hsyms(gt):
                def f(k, a):
                    t = fresh('p', 'I')
                    return mul(amap(init, a), pprod(t, proc(t, k), amap(subst(gt, {kv: t}), a), self))
                return f
        return None

    def direct(self, nv, h, args, hsyms, kv, proc, init, amap):
        """every iteration writes the entry its counter names: the written value inside the range, else the old one"""
        if nv.op != 'ite' or nv.args[2] is not h or hsyms(nv.args[0]) or hsyms(nv.args[1]):
            return None
        c, val = nv.args[0], nv.args[1]
        if not (carried(init) or carried(val)):
            return None
        cs = c.args if c.op == 'and' else (c,)
        for e in cs:
            if e.op != '=' or kv not in e.args:
                continue
            x = e.args[0] if e.args[1] is kv else e.args[1]
            if x not in args:
                continue
            n = args.index(x)
            rest = and_(*[y for y in cs if y is not e])

            def f(k, a):
                return ite(and_(proc(a[n], k), amap(subst(rest, {kv: x}), a)), amap(subst(val, {kv: x}), a), amap(init, a))
            return f
        return None

    def array_recurrence(self, nm, args, h, nv, init, hsyms, kv, inr, ctx0, amap, proc, a0):
        """a[k] := [k>a0]*a[k-1] + D(k): closed form a[x] = sum_{t=a0..x} D(t)"""
        if not args or not self.up:
            return None
        for x in args:
            try:
                V_ = nf(subst(nv, {x: kv}))
            except TooBig:
                return None
            D = Poly()
            hm = []
            bad = False
            for (bs, gs, fs), c in V_.items():
                hs = [(a, e) for a, e in fs if hsyms(a)]
                if any(hsyms(g) for g in gs) or (hs and bs):
                    bad = True
                    break
                if not hs:
                    D[(bs, gs, fs)] = c
                    continue
                if len(fs) != 1 or hs[0][1] != 1 or hs[0][0].op != 'a' or hs[0][0].args[0] != nm or c != 1:
                    bad = True
                    break
                at = hs[0][0]
                ix = args.index(x)
                if not is0(sub(at.args[1 + ix], sub(kv, K(1)))):
                    bad = True
                    break
                hm.append(and_(*gs))
            if bad or len(hm) != 1:
                continue
            g = hm[0]
            rng = list(ctx0) + [inr(kv)]
            if not P.prove(implies(lt(a0, kv), g), rng, 3.0):
                continue
            if not P.prove(implies(eq(a0, kv), not_(g)), rng, 3.0):
                continue
            if not P.prove(implies(ne(x, kv), eq(nv, h)), rng, 3.0):
                continue
            Dt = to_term(D, h.sort)
            if any(y in fv(Dt) for y in args):
                continue

            def f(k, a, x=x, Dt=Dt):
                xi = a[args.index(x)]
                t = fresh('s', 'I')
                return ite(proc(xi, k), sum_(t, a0, add(xi, K(1)), subst(Dt, {kv: t})), amap(init, a))
            return f
        return None

    up = True

    def selfalias(self, nv, h, kv):
        """under a guard x = kv the application H(kv) is the element h = H(x) itself"""
        if h.op != 'a':
            return nv
        nm, args = h.args[0], h.args[1:]
        memo = {}

        def go(t, m, mk_):
            if nm not in syms(t):
                return t
            key = (t.uid, mk_)
            if key in memo:
                return memo[key]
            if t.op == 'ite':
                c, a, b = t.args
                m2, k2 = m, mk_
                for g in (c.args if c.op == 'and' else (c,)):
                    if g.op == '=':
                        for u, w in ((g.args[0], g.args[1]), (g.args[1], g.args[0])):
                            if u in args and u not in fv(w):
                                m2 = dict(m2)
                                m2[u] = w
                                k2 = k2 + ((u.uid, w.uid),)
                                break
                r = ite(go(c, m, mk_), go(a, m2, k2), go(b, m, mk_))
            elif t.op == 'a' and t.args[0] == nm:
                try:
                    same = all(not nf(sub(subst(x, m), subst(y, m))) for x, y in zip(t.args[1:], args))
                except TooBig:
                    same = False
                r = h if same else rebuild(t, [t.args[0]] + [go(x, m, mk_) for x in t.args[1:]])
            elif t.op in ('sum', 'prod', 'SM', 'PM', 'forall'):
                r = t
            else:
                r = rebuild(t, [go(x, m, mk_) if isinstance(x, Term) else x for x in t.args])
            memo[key] = r
            return r
        return go(nv, {}, ())

    def linear_overwrite(self, d, h, hsyms, kv, inr, ctx0, init, amap, proc):
        """d = nv - h, every monomial guarded, h the only loop-carried element read; the guards of
        iterations t1 != t2 exclude each other, so each element is touched by at most one iteration"""
        with_h = []
        hv = fresh('hv', h.sort)
        for (bs, gs, fs), c in d.items():
            if not gs:
                return None
            has = False
            for a in [a for a, e in fs] + list(gs):
                if hsyms(a):
                    if hsyms(hsub(a, h, hv, strict=True)):
                        return None
                    has = True
            if has:
                with_h.append((bs, gs))
        allm = {(bs, gs) for (bs, gs, fs) in d}

        def inst(bs, gs, t):
            ren = {b: fresh('ow', 'I') for b in bs}
            ren[kv] = t
            return [subst(g, ren) for g in gs]
        for m1 in allm:
            for m2 in set(with_h):
                t1, t2 = fresh('t', 'I'), fresh('t', 'I')
                cs = inst(m1[0], m1[1], t1) + inst(m2[0], m2[1], t2) + [inr(t1), inr(t2), ne(t1, t2)]
                if P.z3check(FALSE, list(ctx0) + cs, 4.0) is not True:
                    return None
        dt = hsub(to_term(d, 'R'), h, init, strict=True)

        def f(k, a):
            t = fresh('s', 'I')
            g = amap(subst(dt, {kv: t}), a)
            return add(amap(init, a), psum(t, proc(t, k), g))
        return f

    def try_candidates(self, pend, info, kv, res, hsyms, inr, ctx0, C, a0, step):
        """loop invariants supplied by the contract: each candidate is a list of
        functions closed(k, args, init) -> Term giving the contents of a written
        array (or scalar) before the iteration with counter k.  A candidate is used
        only after initialisation and preservation have been proved."""
        import itertools
        if step not in (1, -1):
            return False
        for group in self.candidates:
            fns, facts = group if isinstance(group, tuple) else (group, None)
            for perm in itertools.permutations(pend, len(fns)):
                if any(getattr(f, 'ar', len(info[nm][0])) != len(info[nm][0]) for nm, f in zip(perm, fns)):
                    continue
                D = {}
                for nm, f in zip(perm, fns):
                    args, h, nv, init, so, key, get, v0 = info[nm]
                    if init is None:
                        tag = 'undef!%d' % next(V._un)
                        init = app(tag, args, so)

                    def cl(k, a, f=f, args=args, init=init):
                        return f(k, a, lambda x: subst(init, dict(zip(args, x))) if args else init)
                    D[nm] = cl
                ok = True
                for nm in perm:
                    args, h, nv, init, so, key, get, v0 = info[nm]
                    if init is not None and not P.prove(eq(D[nm](a0, args), init), ctx0, 5.0):
                        ok = False
                        break
                if not ok:
                    continue
                sv = dict(C)
                C.update(D)
                for nm in perm:
                    args, h, nv, init, so, key, get, v0 = info[nm]
                    nx = res(nv, kv)
                    if hsyms(nx) or not P.prove(eq(nx, D[nm](add(kv, K(step)), args)), ctx0 + [inr(kv)] + (facts(kv, args) if facts else []), 10.0):
                        ok = False
                        break
                if ok:
                    self.note('supplied loop invariant proved inductive')
                    return True
                for nm in perm:
                    C.pop(nm, None)
                C.update(sv)
        return False

    # ---- loops without an induction variable: Houdini over contract-supplied predicates
    def inv_loop(self, loc, cond, body, inc, S0, roots):
        if self.invs is None:
            raise Unsupported('no induction variable for loop at ' + loc)
        rec = self.record

        def at_havoc():
            s = S0.copy()
            _, leafs = self.havoc(s, S0, roots)
            return s, leafs
        preds = self.invs(self, S0, roots)   # list of fn(state)->Term
        # keep those true initially
        keep = [f for f in preds if P.prove(f(S0), S0.pc, 0.7)]
        while True:
            s, _ = at_havoc()
            s.pc = s.pc + [f(s) for f in keep]
            self.record = False
            nth = len(self.throws)
            try:
                c, n, oth = self.iterate(cond, body, inc, s)
            finally:
                self.record = rec
                del self.throws[nth:]
            if n is None:
                break
            bad = [f for f in keep if not P.prove(f(n), n.pc, 0.7)]
            if not bad:
                break
            keep = [f for f in keep if f not in bad]
        s, _ = at_havoc()
        s.pc = s.pc + [f(s) for f in keep]
        sx = s.copy()
        c, n, oth = self.iterate(cond, body, inc, s)
        outs, exits = [], []
        for kk, ss, vv in oth:
            if kk == 'brk':
                exits.append(ss)
            else:
                outs.append((kk, ss, vv))
        if cond is not None:
            cc = self.run_cond(cond, sx)
            sx.assume(not_(cc))
            if not sx.dead:
                exits.append(sx)
        self.note('termination of the loop at %s is not proved by the invariant' % loc.split('/')[-1])
        return outs, exits

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, void=False):
        """value or LV"""
        if st.dead:
            return K(0)
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expr %s %s at %s' % (e['k'], e.get('w', ''), self.loc))
        return m(e, st)

    def val(self, e, st):
        v = self.rv(self.ev(e, st), st)
        if st.dead:
            raise Dead()
        return v

    def e_int(self, e, st): return K(int(e['v']))

    def e_flt(self, e, st):
        s = e['v'].rstrip('fFlLQq')
        try:
            v = Fraction(s)
        except ValueError:
            v = Fraction(e['d'])
        if float(v) == math.pi:
            v = PI_DIGITS      # every spelling of the double nearest to pi denotes the same number
        return K(v, 'R')

    def e_bool(self, e, st): return lift(bool(e['v']))
    def e_str(self, e, st): return Str(e['v'])
    def e_null(self, e, st): return Ptr(None)

    def e_zero(self, e, st):
        return default_val(self.shape(self.ty(e['t'])), self, True)

    def e_this(self, e, st): return Ptr(self.fr.this)

    def e_tovoid(self, e, st):
        return None

    def e_var(self, e, st):
        for f in (self.fr.env,):
            if e['id'] in f:
                return f[e['id']]
        if e.get('cv') is not None:
            return K(int(e['cv']))
        if 'g' in e:
            g = e['g']
            if g in self.globals:
                lv = self.globals[g]
                if lv.cid not in st.store:      # first use was on another path: arbitrary value
                    st.store[lv.cid] = default_val(self.shape(self.ty(e['t'])), self)
                return lv
            if g.endswith('Eigen::all') or g.endswith('placeholders::all') or e['n'] == 'all':
                return AllRange()
            if g in self.prog.globs:
                ge, ty = self.prog.globs[g]
                self.frames.append(Frame({'_ty': ty, 'q': g}, None, {}))
                try:
                    v = self.rv(self.ev(ge, st), st)
                finally:
                    self.frames.pop()
                return v
            if e['n'] in ('verbose', 'cout', 'cerr'):
                t = self.ty(e['t'])
                if t['c'] == 'b':
                    return fresh('glob_' + e['n'], 'B')
                return Opaque(e['n'])
            t = self.ty(e['t'])
            if t['c'] in 'biur':
                # mutable global scalar: arbitrary
                lv = st.new(default_val(self.shape(t), self), g)
                self.globals[g] = lv
                return lv
            return Opaque(g)
        raise Unsupported('variable ' + e['n'])

    def e_fn(self, e, st):
        return Fun(lambda ex, s, args, e=e: ex.dispatch(e, None, args, s), FALSE, e['n'], e['key'])

    def e_mem(self, e, st):
        b = self.ev(e['b'], st)
        if e.get('arrow'):
            p = self.rv(b, st)
            if isinstance(p, Ptr):
                if p.lv is None:
                    raise Unsupported('null deref')
                return LField(p.lv, e['n'])
            raise Unsupported('arrow on %r' % (p,))
        if isinstance(b, LV):
            o = b.read(st)
            if isinstance(o, Tup):
                return LTup(b, 0 if e['n'] == 'first' else 1)
            if isinstance(o, Ptr):
                return LField(o.lv, e['n'])
            return LField(b, e['n'])
        if isinstance(b, Tup):
            return b.items[0 if e['n'] == 'first' else 1]
        if isinstance(b, Obj):
            return b.fields[e['n']]
        raise Unsupported('member %s of %r' % (e['n'], b))

    def e_bin(self, e, st):
        op = e['op']
        if op == ',':
            self.ev(e['l'], st)
            return self.ev(e['r'], st)
        if op in ('&&', '||'):
            a = self.cond(e['l'], st)
            if st.dead:
                return FALSE
            if op == '&&':
                return self.fork(st, a, lambda s: self.cond(e['r'], s), lambda s: FALSE)
            return self.fork(st, a, lambda s: TRUE, lambda s: self.cond(e['r'], s))
        a = self.val(e['l'], st)
        b = self.val(e['r'], st)
        return self.arith(op, a, b, self.ty(e['t']), st)

    def arith(self, op, a, b, t, st):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b, st)
        if isinstance(a, Fun) or isinstance(b, Fun):
            f = a if isinstance(a, Fun) else b
            return f.null if op == '==' else not_(f.null)
        if isinstance(a, (Str, Opaque)) or isinstance(b, (Str, Opaque)):
            if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None and op in ('==', '!='):
                return lift((a.s == b.s) == (op == '=='))
            if op in ('==', '!=', '<', '>'):
                return fresh('strcmp', 'B')
            return Opaque('str')
        if isinstance(a, Term) and isinstance(b, Term):
            if a.sort == 'B' and op not in ('==', '!=', '&', '|', '^'):
                a = ite(a, K(1), K(0))
            if b.sort == 'B' and op not in ('==', '!=', '&', '|', '^'):
                b = ite(b, K(1), K(0))
            if a.sort == 'B' and b.sort != 'B':
                a = ite(a, K(1), K(0))
            if b.sort == 'B' and a.sort != 'B':
                b = ite(b, K(1), K(0))
            if op == '+':
                return add(a, b)
            if op == '-':
                r = sub(a, b)
                if t['c'] == 'u' and self.nowrap:
                    self.need(le(K(0), r), st, 'no-wrap', 'unsigned subtraction does not wrap')
                return r
            if op == '*':
                return mul(a, b)
            if op == '/':
                if t['c'] in 'iu':
                    self.need(ne(b, K(0)), st, 'div', 'integer division by non-zero')
                    return idiv(a, b)
                return div(a, b)
            if op == '%':
                self.need(ne(b, K(0)), st, 'div', 'modulo by non-zero')
                return imod(a, b)
            if op == '<':
                return lt(a, b)
            if op == '<=':
                return le(a, b)
            if op == '>':
                return lt(b, a)
            if op == '>=':
                return le(b, a)
            if op == '==':
                return eq(a, b)
            if op == '!=':
                return ne(a, b)
            if op == '&' and a.sort == 'B':
                return and_(a, b)
            if op == '|' and a.sort == 'B':
                return or_(a, b)
            if op == '&' and b.op == 'k' and b.args[0] == 1:
                return imod(a, K(2))
            if op == '<<' and b.op == 'k':
                return mul(a, K(2 ** int(b.args[0])))
            if op == '>>' and b.op == 'k':
                return idiv(a, K(2 ** int(b.args[0])))
            if op == '<<' and a.op == 'k' and a.args[0] == 1:
                return power(K(2), b)
        raise Unsupported('arith %s %r %r' % (op, a, b))

    def ptr_arith(self, op, a, b, st):
        if op in ('==', '!='):
            na = isinstance(a, Ptr) and a.lv is None and a.isnull is None
            nb = isinstance(b, Ptr) and b.lv is None and b.isnull is None
            p = b if na else a
            if na or nb:
                if isinstance(p, Ptr):
                    r = p.isnull if p.isnull is not None else lift(p.lv is None)
                    return r if op == '==' else not_(r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and b.lv is not None:
                if a.off is not None and b.off is not None and a.lv.same(b.lv):
                    return eq(a.off, b.off) if op == '==' else ne(a.off, b.off)
                return lift(a.lv.same(b.lv) == (op == '=='))
        if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, Term):
            return Ptr(a.lv, add(a.off or K(0), b if op == '+' else mul(K(-1), b)))
        if op == '+' and isinstance(b, Ptr):
            return Ptr(b.lv, add(b.off or K(0), a))
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv):
            return sub(a.off or K(0), b.off or K(0))
        raise Unsupported('pointer arithmetic ' + op)

    def e_asg(self, e, st):
        op = e['op']
        r = self.val(e['r'], st)
        lv = self.ev(e['l'], st)
        if st.dead:
            raise Dead()
        if not isinstance(lv, LV):
            raise Unsupported('assign to non-lvalue at ' + self.loc)
        if op == '=':
            v = r
        else:
            v = self.arith(op[:-1], lv.read(st), r, self.ty(e.get('ct', e['t'])), st)
        t = self.ty(e['t'])
        if t['c'] in 'iu' and isinstance(v, Term) and v.sort == 'R':
            v = app('trunc', (v,), 'I')
        if t['c'] == 'r' and isinstance(v, Term) and v.sort == 'B':
            v = ite(v, K(1), K(0))
        self.chk_elem(lv, st)
        lv.write(st, v)
        return lv

    def chk_elem(self, lv, st):
        pass

    def e_un(self, e, st):
        op = e['op']
        if op == '*':
            p = self.val(e['e'], st)
            if isinstance(p, Ptr):
                if p.off is not None:
                    return self.elem(p.lv, [p.off], st)
                return p.lv
            raise Unsupported('deref %r' % (p,))
        if op == '&':
            x = self.ev(e['e'], st)
            if isinstance(x, LElem) and isinstance(x.base.read(st), (SVec, Mat)):
                return Ptr(x.base, x.i if x.j is None else add(x.i, mul(x.j, x.base.read(st).rows)))
            if isinstance(x, LV):
                return Ptr(x)
            return Ptr(st.new(x))
        if op in ('++', '--'):
            lv = self.ev(e['e'], st)
            old = lv.read(st)
            if isinstance(old, Ptr):
                new = self.ptr_arith('+', old, K(1 if op == '++' else -1), st)
            else:
                new = add(old, K(1 if op == '++' else -1))
                if op == '--' and self.ty(e['t'])['c'] == 'u' and self.nowrap:
                    self.need(le(K(0), new), st, 'no-wrap', 'unsigned decrement does not wrap')
            lv.write(st, new)
            return old if e.get('post') else lv
        v = self.val(e['e'], st)
        if op == '-':
            if isinstance(v, Term):
                return mul(K(-1), v)
            return v.like(lambda i, j: mul(K(-1), v.get(i, j)))
        if op == '+':
            return v
        if op == '!':
            return not_(self.tobool(v))
        if op == '~':
            raise Unsupported('~')
        raise Unsupported('unary ' + op)

    def e_cond(self, e, st):
        c = self.cond(e['c'], st)
        if st.dead:
            raise Dead()
        return self.fork(st, c, lambda s: self.ev_dead(e['a'], s), lambda s: self.ev_dead(e['b'], s))

    def ev_dead(self, e, s):
        try:
            return self.rv(self.ev(e, s), s)
        except Dead:
            s.dead = True
            return None

    def e_cast(self, e, st):
        v = self.val(e['e'], st)
        ck = e['ck']
        t = self.ty(e['t'])
        if isinstance(v, Term):
            if ck in ('IntegralToFloating', 'FloatingCast'):
                if v.sort == 'B':
                    return ite(v, K(1), K(0))
                return v
            if ck == 'FloatingToIntegral':
                if v.sort == 'I':
                    return v
                return app('trunc', (v,), 'I')
            if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                return v if v.sort == 'B' else ne(v, K(0))
            if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
                if v.sort == 'B':
                    return ite(v, K(1), K(0))
                ft = self.ty(e['ft'])
                if t['c'] == 'u' and ft['c'] == 'i' and self.wrap64:
                    return ite(lt(v, K(0)), add(v, K(2 ** 64)), v)
                if t['c'] == 'u' and ft['c'] == 'i' and self.nowrap:
                    self.need(le(K(0), v), st, 'no-wrap', 'conversion to unsigned of a non-negative value')
                return v
        if ck == 'PointerToBoolean':
            return self.tobool(v)
        return v

    def e_dyncast(self, e, st):
        v = self.val(e['e'], st)
        t = self.ty(e['t'])
        if isinstance(v, Ptr) and v.lv is not None:
            o = v.lv.read(st)
            if isinstance(o, Obj) and t.get('rec') in self.bases(o.rec):
                return v
            return Ptr(None)
        raise Unsupported('dynamic_cast')

    def e_throw(self, e, st):
        what = 'rethrow'
        x = e.get('e')
        while x is not None and x.get('k') in ('cast',):
            x = x['e']
        if x is not None:
            what = x.get('q') or x.get('rec') or x.get('k')
            if x.get('k') == 'ctor' and x.get('cm') and x['a']:
                what = x['a'][0].get('q', what)
        self.do_throw(st, what)
        return None

    def e_sub(self, e, st):
        b = self.ev(e['b'], st)
        i = self.val(e['i'], st)
        v = self.rv(b, st)
        if isinstance(v, Ptr):
            return self.elem(v.lv, [add(i, v.off or K(0))], st)
        lv = b if isinstance(b, LV) else LTemp(v)
        return self.elem(lv, [i], st)

    def e_initlist(self, e, st):
        t = self.ty(e['t'])
        if t['c'] in 'biur':
            return self.val(e['a'][0], st) if e['a'] else default_val(self.shape(t), self, True)
        vals = [self.val(x, st) for x in e['a']]
        if t.get('rec') in self.records:
            o = self.default_obj(t['rec'], st)
            for (f, _), v in zip(self.rec_fields(t['rec']), vals):
                o = o.set(f['n'], v)
            return o
        sh = shape_of(t['s'])
        if sh[0] == 'tup':
            return Tup(vals)
        if sh[0] == 'vec' or t['c'] == 'a':
            esh = sh[1] if sh[0] == 'vec' else self.shape(self.ty(t['et'])) if 'et' in t else self.vshape(vals)
            return self.listvec(vals, esh)
        if len(vals) == 1:
            return vals[0]
        raise Unsupported('initlist ' + t['s'])

    def vshape(self, vals):
        return ('sc', vals[0].sort) if vals and isinstance(vals[0], Term) else ('sc', 'R')

    def listvec(self, vals, esh):
        vals = list(vals)

        def g(i):
            if i.op == 'k':
                n = int(i.args[0])
                if 0 <= n < len(vals):
                    return vals[n]
                return undef_of(esh, self, 'oob', (i,))
            r = vals[-1] if vals else undef_of(esh, self, 'oob', (i,))
            for n in range(len(vals) - 2, -1, -1):
                r = merge_val(eq(i, K(n)), vals[n], r)
            return r
        return SVec(K(len(vals)), g, esh)

    def e_new(self, e, st):
        at = self.ty(e['at'])
        if 'arr' in e:
            raise Unsupported('new[]')
        if e.get('i') is not None:
            v = self.val(e['i'], st)
        else:
            v = default_val(self.shape(at), self)
        return Ptr(st.new(v, 'heap'))

    def e_delete(self, e, st):
        return None

    def e_lambda(self, e, st):
        env0 = self.fr.env
        env = {}
        snap = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            if c.get('init') is not None:
                snap[c['id']] = ('v', self.val(c['init'], st))
            elif c.get('ref'):
                env[c['id']] = env0[c['id']] if c['id'] in env0 else None
            elif c['id'] in env0:
                snap[c['id']] = ('v', env0[c['id']].read(st))
        fr = self.fr

        def call(ex, s, args):
            en = dict(env0)   # constants of the enclosing scope need no capture
            en.update({k: v for k, v in env.items() if v is not None})
            for k, (_, v) in snap.items():
                en[k] = s.new(v, 'cap')
            if 'insts' in e:
                l = None
                for ins in e['insts']:
                    if len(ins['params']) == len(args):
                        l = ins
                        break
                if l is None:
                    raise Unsupported('generic lambda')
            else:
                l = e
            fn = {'_ty': fr.ty, 'q': fr.fn['q'] + '::lambda', 'rt': e.get('rt', -1), 'n': 'lambda'}
            for p, a in zip(l['params'], args):
                ex.bind_param(en, p, a, s, fr.ty)
            ex.frames.append(Frame(fn, fr.this, en))
            ex.depth += 1
            loc = ex.loc
            try:
                outs = ex.stmt(l['body'], s)
            finally:
                ex.depth -= 1
                ex.frames.pop()
                ex.loc = loc
            rt = e.get('rt', -1)
            return ex.join_ret(outs, s, fr.ty[rt] if rt is not None and rt >= 0 else None)
        return Fun(call, FALSE, 'lambda')

    # ------------------------------------------------------------ calls
    def args(self, e, st, skip=0):
        out = []
        for a in e['a'][skip:]:
            v = self.ev(a, st)
            if st.dead:
                raise Dead()
            out.append(v)
        return out

    def contract(self, e):
        q = e.get('q', '')
        rec = e.get('rec') or ''
        for k in (e.get('key'), q, rec.split('<')[0].split('::')[-1] + '::' + e.get('n', '') if rec else None, q.split('<')[0]):
            if k is not None and k in self.contracts:
                self.used.add(k if isinstance(k, str) else str(k))
                return self.contracts[k]
        return None

    def e_call(self, e, st):
        self.loc = e.get('l', self.loc)
        q = e.get('q')
        if q is None:
            f = self.val(e['f'], st)
            if isinstance(f, Ptr) and f.lv is not None:
                f = f.lv.read(st)
            if isinstance(f, Fun):
                return f.call(self, st, self.args(e, st))
            raise Unsupported('indirect call')
        if e['n'] in ('printf', 'fprintf', 'fflush', 'puts', 'flush'):
            return K(0)
        return self.dispatch(e, None, self.args(e, st), st)

    def dispatch(self, e, this, args, st):
        c = self.contract(e)
        if c is not None:
            r = c(self, st, this, args, e)
            if r is not NotImplemented:
                self.used.add(e.get('q', ''))
                return r
        f = self.funcs.get(e['key'])
        if f is not None:
            return self.call_fn(f, this, args, st)
        from lib import libcall
        return libcall(self, e, this, args, st)

    def e_mcall(self, e, st):
        self.loc = e.get('l', self.loc)
        o = self.ev(e['o'], st)
        if st.dead:
            raise Dead()
        if e.get('arrow'):
            p = self.rv(o, st)
            if isinstance(p, Ptr):
                o = p.lv
                if o is None:
                    raise Unsupported('method on null')
            # otherwise smart pointers already resolved
        return self.method(e, o, self.args(e, st), st)

    def method(self, e, o, args, st):
        v = self.rv(o, st)
        if isinstance(v, Obj) or (isinstance(v, Ptr) and e.get('rec') in self.records):
            if isinstance(v, Ptr):
                o = v.lv
                v = o.read(st)
            lv = o if isinstance(o, LV) else st.new(v, 'tmpobj')
            if e.get('virt') and not e.get('qual'):
                c = self.contract_virtual(e, v)
                if c is not None:
                    self.used.add(e.get('q', ''))
                    return c(self, st, lv, args, e)
                f = self.resolve_virtual(v.rec, e)
                if f is not None:
                    return self.call_fn(f, lv, args, st)
                raise Unsupported('virtual %s on %s' % (e['n'], v.rec))
            return self.dispatch(e, lv, args, st)
        from lib import libmethod
        return libmethod(self, e, o, v, args, st)

    def contract_virtual(self, e, v):
        c = self.contracts.get(('virt', v.rec, e['n']))
        if c:
            self.used.add('%s::%s (virtual)' % (v.rec, e['n']))
        return c or self.contract(e)

    def e_opcall(self, e, st):
        self.loc = e.get('l', self.loc)
        op = e['op']
        q = e.get('q', '')
        if op in ('<<', '>>') and ('ostream' in q or 'istream' in q or q in ('std::operator<<', 'Eigen::operator<<', 'std::operator>>')):
            if op == '>>':
                raise Unsupported('input stream')
            return Opaque('stream')
        if e.get('key') in self.funcs or (e.get('rec') in self.records):
            if e.get('meth'):
                o = self.ev(e['a'][0], st)
                if op == '=' and e.get('key') not in self.funcs:
                    r = self.val(e['a'][1], st)
                    o.write(st, r)
                    return o
                if op == '()' and self.contract(e) is None:
                    fn = self.rv(o, st)
                    if isinstance(fn, Fun):
                        return fn.call(self, st, self.args(e, st, 1))
                lv = o if isinstance(o, LV) else st.new(self.rv(o, st), 'tmp')
                return self.dispatch(e, lv, self.args(e, st, 1), st)
            return self.dispatch(e, None, self.args(e, st), st)
        if op == '=':
            r = self.val(e['a'][1], st)
            lv = self.ev(e['a'][0], st)
            if isinstance(lv, Ptr) and lv.lv is not None:
                lv = lv.lv
            if not isinstance(lv, LV):
                raise Unsupported('assign to rvalue at ' + self.loc)
            if isinstance(r, Mat) and not isinstance(lv, (LView, LIdx, LDiag)):
                old = lv.read(st)
                if r.diag:
                    r = self.undiag(r)
                if isinstance(old, Mat) and (old.vec != r.vec or old.arr != r.arr):
                    src = r
                    if old.vec and not r.vec and not is0(sub(r.cols, K(1))):
                        r = Mat(src.size, K(1), lambda i, j: src.get(i), src.sort, True, old.arr)
                    else:
                        r = Mat(src.rows, src.cols, src.get, src.sort, old.vec, old.arr)
            if isinstance(lv, LIdx):
                pass
            lv.write(st, r)
            return lv
        from lib import libop
        args = self.args(e, st)
        return libop(self, e, op, args, st)

    def e_ctor(self, e, st):
        self.loc = e.get('l', self.loc)
        q = e['q']
        rec = e['rec']
        t = self.ty(e['t'])
        if rec in self.records:
            if e.get('cm') and e['a']:
                f = self.funcs.get(e['key'])
                v = self.val(e['a'][0], st)
                if isinstance(v, Obj):
                    return v
                return v
            return self.construct(rec, e, st)
        c = self.contracts.get(('ctor', (rec or '').split('<')[0]))
        if c is not None:
            return c(self, st, None, self.args(e, st), e)
        from lib import libctor
        return libctor(self, e, st, t)

    def construct(self, rec, e, st):
        f = self.funcs.get(e['key'])
        c = self.contracts.get(e['key']) or self.contracts.get(('ctor', rec))
        args = self.args(e, st)
        if c is not None:
            return c(self, st, None, args, e)
        lv = st.new(self.default_obj(rec, st), 'obj')
        if f is None:
            if e.get('def'):
                return lv.read(st)
            raise Unsupported('constructor ' + e['key'])
        self.run_ctor(f, lv, args, st)
        if st.dead:
            raise Dead()
        return lv.read(st)

    def run_ctor(self, f, lv, args, st):
        env = {}
        self.inlined.add(f['q'])
        for p, a in zip(f['params'], args):
            self.bind_param(env, p, a, st, f['_ty'])
        self.frames.append(Frame(f, lv, env))
        loc = self.loc
        try:
            for i in f.get('inits', []):
                if 'base' in i or i.get('deleg'):
                    x = i['e']
                    while x['k'] == 'cast':
                        x = x['e']
                    if x['k'] == 'ctor':
                        bf = self.funcs.get(x['key'])
                        if bf is not None:
                            self.run_ctor(bf, lv, self.args(x, st), st)
                        elif not x.get('def') and x['rec'] in self.records:
                            raise Unsupported('base ctor ' + x['key'])
                    continue
                v = self.rv(self.ev(i['e'], st), st)
                if st.dead:
                    return
                fld = LField(lv, i['f'])
                old = fld.read(st)
                if isinstance(old, Mat) and isinstance(v, Mat):
                    v = Mat(v.rows, v.cols, v.get, v.sort, old.vec, old.arr)
                fld.write(st, v)
            outs = self.stmt(f['body'], st)
        finally:
            self.frames.pop()
            self.loc = loc
        self.join_ret(outs, st, None)

    def elem(self, lv, idx, st):
        """element lvalue with bounds obligation"""
        o = lv.read(st)
        if isinstance(o, Ptr):
            return self.elem(o.lv, [add(idx[0], o.off or K(0))], st)
        if isinstance(o, SVec):
            self.need(and_(le(K(0), idx[0]), lt(idx[0], o.size)), st, 'bounds', 'std::vector index within [0,size)')
            return LElem(lv, idx[0])
        if isinstance(o, Mat):
            if len(idx) == 2:
                self.need(and_(le(K(0), idx[0]), lt(idx[0], o.rows), le(K(0), idx[1]), lt(idx[1], o.cols)), st, 'bounds', 'matrix index within bounds')
                return LElem(lv, idx[0], idx[1])
            self.need(and_(le(K(0), idx[0]), lt(idx[0], o.size)), st, 'bounds', 'vector index within [0,size)')
            if not o.vec and not is0(sub(o.cols, K(1))) and not is0(sub(o.rows, K(1))):
                return LElem(lv, imod(idx[0], o.rows), idiv(idx[0], o.rows))   # column-major data()
            return LElem(lv, idx[0])
        if isinstance(o, Str):
            if o.nm:
                self.need(and_(le(K(0), idx[0]), le(idx[0], var('len_' + o.nm, 'I'))), st, 'bounds', 'string index within [0,size]')
                return LTemp(app('ch_' + o.nm, (idx[0],), 'I'))
            raise Unsupported('string index')
        raise Unsupported('index of %r' % (o,))


class Dead(Exception):
    pass


# wrap stmt so that Dead (all paths threw inside an expression) yields no outcome
_stmt0 = Exec.stmt


def _stmt(self, s, st):
    try:
        return _stmt0(self, s, st)
    except Dead:
        st.dead = True
        return []


Exec.stmt = _stmt


# ------------------------------------------------------------------ term utilities
def syms(t, memo={}):
    r = memo.get(t.uid)
    if r is not None:
        return r
    if t.op == 'v':
        r = frozenset([t.args[0]])
    else:
        r = set()
        for a in t.args:
            r |= _symsarg(a)
        if t.op == 'a':
            r.add(t.args[0])
        r = frozenset(r)
    memo[t.uid] = r
    return r


def _symsarg(a):
    if isinstance(a, Term):
        return syms(a)
    if isinstance(a, tuple):
        r = set()
        for x in a:
            r |= _symsarg(x)
        return r
    return frozenset()


def size(t, memo={}):
    r = memo.get(t.uid)
    if r is None:
        r = 1 + sum(size(a) for a in t.args if isinstance(a, Term))
        memo[t.uid] = r
    return r


def fsubst(t, m, memo=None):
    """replace function/variable symbols: {name: fn(args)->Term}"""
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def go(t):
        if not (syms(t) & keys):
            return t
        r = memo.get(t.uid)
        if r is not None:
            return r
        o = t.op
        if o == 'v':
            r = m[t.args[0]](()) if t.args[0] in m else t
        elif o == 'a' and t.args[0] in m:
            r = m[t.args[0]](tuple(go(x) for x in t.args[1:]))
        elif o in ('sum', 'prod'):
            v, lo, hi, b = t.args
            r = mk(o, (v, go(lo), go(hi), go(b)), t.sort)
        elif o == 'forall':
            r = forall(t.args[2:], go(t.args[1]))
        elif o == 'SM':
            bs, gs, fs = t.args
            # back to plain sums: guards as ite
            body = K(1)
            for a, e in fs:
                body = mul(body, power(go(a), e))
            for g in gs:
                body = ite(go(g), body, K(0))
            r = mk('SM', (bs, tuple(go(g) for g in gs), tuple((go(a), e) for a, e in fs)), t.sort)
        elif o == 'PM':
            v, gs, b = t.args
            r = mk('PM', (v, tuple(go(g) for g in gs), go(b)), t.sort)
        else:
            r = rebuild(t, [go(a) if isinstance(a, Term) else a for a in t.args])
        memo[t.uid] = r
        return r
    return go(t)


def tmax(a, b):
    if a.op == 'k' and b.op == 'k':
        return a if a.args[0] >= b.args[0] else b
    return ite(lt(a, b), b, a)


def tmin(a, b):
    if a.op == 'k' and b.op == 'k':
        return a if a.args[0] <= b.args[0] else b
    return ite(lt(b, a), b, a)


def psum(t, rng, body):
    """sum over integers t satisfying the interval predicate rng (and of two bounds)"""
    lo, hi = interval(t, rng)
    if lo is None:
        return K(0)
    return sum_(t, lo, hi, body)


def interval(t, rng):
    if rng is FALSE:
        return None, None
    lo = hi = None
    for c in (rng.args if rng.op == 'and' else (rng,)):
        if c.op not in ('<', '<='):
            raise Unsupported('interval')
        l, r = c.args
        if r is t:
            lo = l if c.op == '<=' else add(l, K(1))
        elif l is t:
            hi = r if c.op == '<' else add(r, K(1))
        else:
            raise Unsupported('interval form')
    if lo is None or hi is None:
        raise Unsupported('half-open interval')
    return lo, hi


def pprod(t, rng, body, ex):
    lo, hi = interval(t, rng)
    if lo is None:
        return K(1)
    return prod_(t, lo, hi, body)


def hsub(t, h, init, strict=False):
    """replace occurrences of exactly h (same arguments) by init"""
    nm = h.args[0]
    ha = h.args[1:] if h.op == 'a' else ()

    def rep(a):
        if all(x is y or not nf(sub(x, y)) for x, y in zip(a, ha)):
            return init
        return app(nm, a, h.sort)
    return fsubst(t, {nm: rep})


def delta(nv, h):
    """nv - h with the subtraction pushed into the branches"""
    if nv is h:
        return K(0)
    if nv.op == 'ite':
        return ite(nv.args[0], delta(nv.args[1], h), delta(nv.args[2], h))
    return sub(nv, h)


def lincoef(Pp, v):
    """Pp = c*v + rest with v occurring nowhere else"""
    coef = 0
    rest = Poly()
    for (b, g, f), c in Pp.items():
        if len(f) == 1 and f[0][0] is v and f[0][1] == 1 and not b and not g:
            coef += c
        else:
            for a, e in f:
                if v in fv(a):
                    return None
            if any(v in fv(x) for x in g):
                return None
            rest[(b, g, f)] = c
    if coef == 0:
        return None
    return coef, rest


def divide_by(Pp, h):
    out = Poly()
    for (b, g, f), c in Pp.items():
        nf_ = []
        hit = False
        for a, e in f:
            if a is h and e == 1:
                hit = True
            elif h in (a,) or mentions(a, h):
                return None
            else:
                nf_.append((a, e))
        if not hit:
            return None
        out[(b, g, tuple(nf_))] = c
    return out


def mentions(a, h):
    if a is h:
        return True
    return any(mentions(x, h) for x in a.args if isinstance(x, Term))
