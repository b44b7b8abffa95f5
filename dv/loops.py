"""Loops.  No bound is ever used for a symbolic trip count: the iteration number t is symbolic, every
loop-carried location gets an exact description as a function of t (closed form, prefix sum, counting
function, last-update, min/max fold, array write set) or, failing that, an inductive invariant supplied by
the contract of the function.  Only loops whose condition is literally decided in every iteration (0..3,
constant tables) are executed iteration by iteration."""
import itertools, re
import z3
from .values import *
from .execu import AllThrow, Ref
from .stmts import Exec

MAXUNROLL = 300


class NotUnrollable(Exception):
    pass


class W:
    """family of writes  { idx(p) := val(p) | dom(p) }  over integer parameters p"""
    __slots__ = ('params', 'dom', 'idx', 'val')

    def __init__(self, params, dom, idx, val):
        self.params, self.dom, self.idx, self.val = list(params), dom, idx, val

    def __repr__(self):
        return 'W(%s | %s : [%s] := %s)' % (self.params, self.dom, self.idx, self.val)


class ArrInfo:
    __slots__ = ('base', 'ws')

    def __init__(self, base, ws):
        self.base, self.ws = base, ws


def sub(e, pairs):
    pairs = [(a, b) for a, b in pairs]
    return z3.substitute(e, *pairs) if pairs else e


def occurs(e, syms):
    """syms: set of decl names occurring in e?"""
    if not syms:
        return False
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in syms:
                return True
            todo += x.children()
    return False


_unc = {}


def uninterp(e, acc=None):
    """uninterpreted symbols of a term: name -> declaration (memoised per subterm, the cache keeps the terms alive)"""
    memo = _unc
    if e.get_id() not in memo or not memo[e.get_id()][0].eq(e):
        if len(memo) > 2000000:
            memo.clear()
        todo = [e]
        while todo:
            x = todo[-1]
            k = x.get_id()
            if k in memo:
                todo.pop()
                continue
            ch = [x.body()] if z3.is_quantifier(x) else x.children()
            miss = [c for c in ch if c.get_id() not in memo]
            if miss:
                todo += miss
                continue
            r = _NONE
            for c in ch:
                m = memo[c.get_id()][1]
                if r is _NONE or r is m:
                    r = m
                elif not m.keys() <= r.keys():
                    r = {**r, **m}
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n not in r:
                    r = {**r, n: x.decl()}
            memo[k] = (x, r)
            todo.pop()
    r = memo[e.get_id()][1]
    if acc is None:
        return dict(r)
    acc.update(r)
    return acc


_NONE = {}


def poly(e):
    return z3.simplify(e, som=True, arith_lhs=False)


_qn = itertools.count(1)


def forall(vs, body):
    """ForAll over constants, prenexing a directly nested universal quantifier"""
    if z3.is_true(body):
        return body
    if z3.is_quantifier(body) and body.is_forall():
        n = body.num_vars()
        nv = [z3.Const('q%d' % next(_qn), body.var_sort(i)) for i in range(n)]
        b = z3.substitute_vars(body.body(), *reversed(nv))
        return forall(list(vs) + nv, b)
    if z3.is_implies(body) and z3.is_quantifier(body.arg(1)) and body.arg(1).is_forall():
        q = body.arg(1)
        nv = [z3.Const('q%d' % next(_qn), q.var_sort(i)) for i in range(q.num_vars())]
        return forall(list(vs) + nv, z3.Implies(body.arg(0), z3.substitute_vars(q.body(), *reversed(nv))))
    return z3.ForAll(list(vs), body) if vs else body


def as_neg(c):
    """c  <=>  e < 0   (or e != 0): returns (e, kind) or None"""
    if z3.is_not(c):
        a = c.arg(0)
        if z3.is_le(a):
            return a.arg(1) - a.arg(0), '<'
        if z3.is_ge(a):
            return a.arg(0) - a.arg(1), '<'
        if z3.is_lt(a):
            return a.arg(1) - a.arg(0) - 1, '<'
        if z3.is_gt(a):
            return a.arg(0) - a.arg(1) - 1, '<'
        if z3.is_eq(a) and a.arg(0).sort() == I:
            return a.arg(0) - a.arg(1), '!='
        return None
    if z3.is_lt(c):
        return c.arg(0) - c.arg(1), '<'
    if z3.is_le(c):
        return c.arg(0) - c.arg(1) - 1, '<'
    if z3.is_gt(c):
        return c.arg(1) - c.arg(0), '<'
    if z3.is_ge(c):
        return c.arg(1) - c.arg(0) - 1, '<'
    if z3.is_distinct(c) and c.num_args() == 2 and c.arg(0).sort() == I:
        return c.arg(0) - c.arg(1), '!='
    return None


class Leaf:
    """one loop-carried location"""
    __slots__ = ('cell', 'kind', 'path', 'k', 'h', 'x0', 'X', 'how', 'next', 'info')

    def __init__(self, cell, kind, path, k=None):
        self.cell, self.kind, self.path, self.k = cell, kind, path, k
        self.X = None
        self.how = None

    def key(self):
        return (self.cell, self.kind, self.path, self.k)

    def __repr__(self):
        return 'Leaf(%s,%s,%s,%s:%s)' % (self.cell, self.kind, self.path, self.k, self.how)


class Verifier(Exec):
    assert_mode = 'throw'

    def __init__(self, ast):
        super().__init__(ast)
        self.ext = {}
        self.loop_hooks = []
        self.loopstat = []
        self.arrlift = {}
        self.syminfo = {}
        self.nbody = 0

    # ================================================================ bulk writes
    def bulk_write(self, st, vec, off, n, valfn, newlen):
        """vec with vec[off+u] := val(u) for 0<=u<n ; the values are read before the writes"""
        c = conc(simp(zi(n)))
        if c is not None and 0 <= c <= 4:
            ms = list(vec.m)
            vals = [valfn(z3.IntVal(u)) for u in range(c)]
            for u in range(c):
                ms = [z3.Store(m, simp(off + u), v) for m, v in zip(ms, vals[u])]
            return Vec(vec.t, newlen, ms)
        u = z3.Const('u!%d' % next(self.nfresh), I)
        vals = valfn(u)
        out = []
        for m, v in zip(vec.m, vals):
            A = self.fresh('arr', m.sort())
            w = W([u], z3.And(u >= 0, u < n), simp(off + u), v)
            self.new_array(st, A, m, [w])
            out.append(A)
        return Vec(vec.t, newlen, out)

    def new_array(self, st, A, base, ws):
        """register the description of array symbol A; its defining facts are produced on demand"""
        self.arrinfo[A.decl().name()] = ArrInfo(base, ws)
        snap = st.copy()
        self.define(A.decl(), lambda: self.array_facts(A, *self.ai_parts(A), snap))

    def ai_parts(self, A):
        ai = self.arrinfo[A.decl().name()]
        return ai.base, ai.ws

    def array_facts(self, A, base, ws, st=None):
        """defining facts of A.  Single 1-parameter family with unit stride: direct form.
        Otherwise: frame/inverse form with skolems (always valid), value form when injective."""
        p = z3.Const('p!%d' % next(self.nfresh), I)
        if len(ws) == 1 and len(ws[0].params) == 1:
            w = ws[0]
            u = w.params[0]
            d = poly(w.idx - u)
            if not occurs(d, {u.decl().name()}):
                v = sub(w.val, [(u, p - d)])
                dm = sub(w.dom, [(u, p - d)])
                return [z3.ForAll([p], z3.Select(A, p) == z3.If(dm, v, z3.Select(base, p)), patterns=[z3.Select(A, p)])]
        if len(ws) == 1 and not ws[0].params:
            w = ws[0]
            return [A == z3.If(w.dom, z3.Store(base, w.idx, w.val), base)]
        # families with one parameter and a constant stride whose positions do not clash: direct form
        if all(len(w.params) <= 1 for w in ws) and len(ws) <= 6:
            parts = []
            for w in ws:
                if not w.params:
                    parts.append((z3.And(w.dom, p == w.idx), w.val))
                    continue
                u = w.params[0]
                k = conc(poly(sub(w.idx, [(u, u + 1)]) - w.idx))
                if not k or isinstance(k, bool):
                    break
                d = poly(w.idx - k * u)
                if occurs(d, {u.decl().name()}):
                    break
                at = (p - d) / k if k > 0 else (d - p) / -k      # exact where the guard holds
                pr = [(u, poly(at) if abs(k) == 1 else at)]
                parts.append((z3.And((p - d) % abs(k) == 0 if abs(k) != 1 else z3.BoolVal(True), sub(w.dom, pr)), sub(w.val, pr)))
            if len(parts) == len(ws) and (len(ws) == 1 or self.injective(ws, st)):
                e = z3.Select(base, p)
                for g, x in reversed(parts):
                    e = z3.If(g, x, e)
                gs = [c for k, c in st.pc if k == 'c'] if len(ws) > 1 else []
                body = z3.Select(A, p) == e
                return [z3.ForAll([p], z3.Implies(z3.And(*gs), body) if gs else body, patterns=[z3.Select(A, p)])]
        out = []
        # inverse form: every cell is either untouched or carries the value of one of the writes to it
        alts = [z3.And(z3.Select(A, p) == z3.Select(base, p))]
        for w in ws:
            sk = [self.fresh_fn('sk', I, I)(p) for _ in w.params]
            pr = list(zip(w.params, sk))
            alts.append(z3.And(sub(w.dom, pr), sub(w.idx, pr) == p, z3.Select(A, p) == sub(w.val, pr)))
        out.append(z3.ForAll([p], z3.Or(*alts), patterns=[z3.Select(A, p)]))
        if self.injective(ws, st):
            gs = [e for k, e in st.pc if k == 'c']
            for w in ws:
                body = z3.Implies(z3.And(*(gs + [w.dom])), z3.Select(A, w.idx) == w.val)
                out.append(forall(w.params, body))
        return out

    def injective(self, ws, st):
        """two different parameter tuples never write different values to the same cell"""
        for a in range(len(ws)):
            for b in range(a, len(ws)):
                w1, w2 = ws[a], ws[b]
                fr = [z3.Const('j!%d' % k, I) for k, _ in enumerate(w2.params)]
                pr = list(zip(w2.params, fr))
                same_p = z3.And(*[p == q for p, q in zip(w1.params, fr)]) if a == b else z3.BoolVal(False)
                g1 = z3.Implies(z3.And(w1.dom, sub(w2.dom, pr), w1.idx == sub(w2.idx, pr)), same_p)
                if self.quick(st, g1, 400):
                    continue
                g = z3.Not(z3.And(w1.dom, sub(w2.dom, pr), w1.idx == sub(w2.idx, pr), w1.val != sub(w2.val, pr)))
                if not self.quick(st, g, 400):
                    return False
        return True

    def info(self, A):
        """ArrInfo of an array term, following registered symbols (and lifted ones)"""
        if not z3.is_app(A) or A.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return None
        nm = A.decl().name()
        if A.num_args() == 0:
            return self.arrinfo.get(nm)
        if nm in self.arrlift:
            vs, base, ws = self.arrlift[nm]()
            if base is None:
                return None
            pr = list(zip(vs, A.children()))
            return ArrInfo(sub(base, pr), [W(w.params, sub(w.dom, pr), sub(w.idx, pr), sub(w.val, pr)) for w in ws])
        return None

    def all_writes(self, A, stop):
        """flatten the description of A relative to the array term `stop`: list of W (oldest first) or None"""
        return self.writes(A, stop, z3.BoolVal(True))

    def writes(self, nxt, h, g):
        if nxt.eq(h):
            return []
        if z3.is_store(nxt):
            r = self.writes(nxt.arg(0), h, g)
            return None if r is None else r + [W([], g, nxt.arg(1), nxt.arg(2))]
        if z3.is_app(nxt) and nxt.decl().kind() == z3.Z3_OP_ITE:
            c = nxt.arg(0)
            a = self.writes(nxt.arg(1), h, simp(z3.And(g, c)))
            b = self.writes(nxt.arg(2), h, simp(z3.And(g, z3.Not(c))))
            return None if a is None or b is None else a + b
        ai = self.info(nxt)
        if ai is not None:
            r = self.writes(ai.base, h, g)
            if r is None:
                return None
            return r + [W(w.params, simp(z3.And(g, w.dom)), w.idx, w.val) for w in ai.ws]
        return None

    # ================================================================ driver
    def loop(self, st, cond, body, inc, node):
        try:
            mark = (len(self.obls), len(self.fresh_log))
            return self.unroll(st.copy(), cond, body, inc, node)
        except NotUnrollable:
            del self.obls[mark[0]:]
        return self.summarize(st, cond, body, inc, node)

    def lit_bound(self, node):
        if node.k != 'ForStmt' or len(node.kids) < 3 or node.kids[2] is None:
            return False
        todo = [node.kids[2]]
        while todo:
            x = todo.pop()
            if x is None:
                continue
            if x.k == 'BinaryOperator' and x.d.get('opcode') in ('<', '<=', '>', '>=', '!='):
                for s in x.kids:
                    while s is not None and s.k in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr'):
                        s = self.first(s)
                    if s is not None and s.k == 'IntegerLiteral' and int(s.d['value']) <= MAXUNROLL:
                        return True
            todo += [k for k in x.kids if k is not None]
        return False

    def step(self, s, body, inc):
        """-> (normal states after inc, exits)"""
        outs = body(s)
        norm, exits = [], []
        for a, o in outs:
            if o is None or o.kind == 'cont':
                norm.append((a, None))
            else:
                exits.append((a, o))
        return norm, exits

    def unroll(self, st, cond, body, inc, node):
        exits = []
        base = len(st.pc)
        cur = [st]
        lit = None
        for k in range(MAXUNROLL + 1):
            nxt = []
            for s in cur:
                c = simp(cond(s))
                cc = conc(c)
                if cc is None and len(s.pc) and self.decide_pc and k > 0:
                    if self.quick(s, c, 60):
                        cc = True
                    elif self.quick(s, z3.Not(c), 60):
                        cc = False
                if cc is False:
                    exits.append((s, None))
                    continue
                if cc is None:
                    if lit is None:
                        lit = self.lit_bound(node)
                    if not lit or k > 16:
                        raise NotUnrollable()
                    e = s.copy()
                    e.pc.append(('c', simp(z3.Not(c))))
                    exits.append((e, None))
                    s.pc.append(('c', c))
                b2 = len(s.pc)
                norm, ex = self.step(s, body, inc)
                for a, o in ex:
                    exits.append((a, None if o.kind == 'brk' else o))
                norm = self.try_merge(norm, base if len(cur) > 1 else b2) if len(norm) > 1 else norm
                for a, _ in norm:
                    inc(a)
                    nxt.append(a)
            if len(nxt) > 1:
                nxt = [a for a, _ in self.try_merge([(a, None) for a in nxt], base)]
            if len(nxt) > 24:
                raise NotUnrollable()
            cur = nxt
            if not cur:
                break
        else:
            raise NotUnrollable()
        return self.try_merge(exits, base) if len(exits) > 1 else exits

    # ---------------------------------------------------------------- leaves
    def diff(self, a, b, path, out, cell):
        if a is b or same(a, b):
            return
        if isz(a) and isz(b):
            out.append(Leaf(cell, 'z', path))
            return
        if isz(a) and isinstance(b, (int, bool)) or isz(b) and isinstance(a, (int, bool)):
            out.append(Leaf(cell, 'z', path))
            return
        if isinstance(a, Struct) and isinstance(b, Struct) and set(a.f) == set(b.f):
            for k in a.f:
                self.diff(a.f[k], b.f[k], path + (('f', k),), out, cell)
            return
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
            for i, (x, y) in enumerate(zip(a.e, b.e)):
                self.diff(x, y, path + (('i', i),), out, cell)
            return
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.m) == len(b.m):
            if not same(a.len, b.len):
                out.append(Leaf(cell, 'vlen', path))
            for k, (x, y) in enumerate(zip(a.m, b.m)):
                if not x.eq(y):
                    out.append(Leaf(cell, 'varr', path, k))
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and a.path == b.path and a.view == b.view and a.off is not None and b.off is not None:
            out.append(Leaf(cell, 'off', path))
            return
        if isinstance(a, Opaque) and not isz(a):
            raise Unsupported('loop-carried value without a symbolic form (%r -> %r)' % (a, b))
        raise Unsupported('loop-carried change %s -> %s' % (type(a).__name__, type(b).__name__))

    def leaf_get(self, st, lf):
        v = self.getpath(st.cells[lf.cell], lf.path)
        if lf.kind == 'vlen':
            return zi(v.len)
        if lf.kind == 'varr':
            return v.m[lf.k]
        if lf.kind == 'off':
            return zi(v.off)
        return v if isz(v) else (z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v))

    def leaf_set(self, st, lf, x):
        v = self.getpath(st.cells[lf.cell], lf.path)
        if lf.kind == 'vlen':
            nv = Vec(v.t, x, v.m)
        elif lf.kind == 'varr':
            m = list(v.m)
            m[lf.k] = x
            nv = Vec(v.t, v.len, m)
        elif lf.kind == 'off':
            nv = Ptr(v.cell, v.path, x, v.null, v.view)
        else:
            nv = x
        st.cells[lf.cell] = self.setpath(st.cells[lf.cell], lf.path, nv)

    def changed(self, st0, s, keep):
        out = []
        for c in keep:
            if c not in s.cells:
                continue
            a, b = st0.cells[c], s.cells[c]
            if isinstance(a, Ref) or isinstance(b, Ref):
                if a is b or (isinstance(a, Ref) and isinstance(b, Ref) and same(a.lv, b.lv)):
                    continue
                raise Unsupported('reference rebound in loop')
            self.diff(a, b, (), out, c)
        return out

    # ---------------------------------------------------------------- summarisation
    def mute(self, f):
        mo, mi = len(self.obls), set(self.inlined)
        try:
            return f()
        finally:
            del self.obls[mo:]

    def run_body(self, s, c, body, inc):
        """one iteration from s (condition value c): (normal state or None, exits, base)"""
        self.nbody += 1
        s.cond(c)
        base = len(s.pc)
        norm, exits = self.step(s, body, inc)
        if len(norm) > 1:
            norm = self.try_merge(norm, base)
            if len(norm) > 1:
                raise Unsupported('loop body with unmergeable paths')
        n = norm[0][0] if norm else None
        if n is not None:
            inc(n)
        return n, exits, base

    def norm_cell(self, c):
        if isinstance(c, tuple):
            for i, f in enumerate(self.frames):
                if f.id == c[0]:
                    return ('F', i, c[1])
        return None

    def denorm_cell(self, c):
        if c[1] < len(self.frames):
            return (self.frames[c[1]].id, c[2])
        return None

    def add_leaf(self, st, lf, leaves, order):
        lf.x0 = self.leaf_get(st, lf)
        if not z3.is_array(lf.x0) and lf.x0.sort() not in (I, R, B):
            raise Unsupported('leaf sort')
        lf.h = z3.Const('h!%d' % next(self.nfresh), lf.x0.sort())
        leaves[lf.key()] = lf
        order.append(lf)

    def set_linear(self, lf, d):
        lf.how = 'linear'
        lf.info = d
        if lf.h.sort() == R:
            lf.X = lambda T: simp(lf.x0 + d * z3.ToReal(T))
        else:
            lf.X = lambda T: simp(lf.x0 + d * T)

    def summarize(self, st, cond, body, inc, node):
        keep = list(st.cells)
        t = self.fresh('t', I)
        leaves, order, noguess = {}, [], set()
        obmark = len(self.obls)
        # ---- locations known from an earlier visit of the same loop, and the effect of the increment
        for ck, kind, path, k, ng in self.leafcache.get(node.id, ()):
            cell = self.denorm_cell(ck)
            lf = Leaf(cell, kind, path, k)
            try:
                if cell in st.cells and not isinstance(st.cells[cell], Ref):
                    v = self.getpath(st.cells[cell], path)
                    ok = {'z': isz(v), 'vlen': isinstance(v, Vec), 'varr': isinstance(v, Vec) and k is not None and k < len(getattr(v, 'm', ())), 'off': isinstance(v, Ptr) and v.off is not None}[kind]
                    if ok:
                        self.add_leaf(st, lf, leaves, order)
                        if ng:
                            noguess.add(lf.key())
            except Unsupported:
                pass
        try:
            s = st.copy()
            inc(s)
            for lf in self.changed(st, s, keep):
                if lf.key() in noguess or lf.kind == 'varr':
                    continue
                if lf.key() in leaves:
                    lf = leaves[lf.key()]
                else:
                    self.add_leaf(st, lf, leaves, order)
                if lf.h.sort() in (I, R):
                    d = poly(self.leaf_get(s, lf) - lf.x0)
                    if conc(d) is not None:
                        self.set_linear(lf, d)
        except Unsupported:
            pass
        del self.obls[obmark:]
        for rnd in range(16):
            del self.obls[obmark:]
            s = st.copy()
            for lf in order:
                self.leaf_set(s, lf, lf.X(t) if lf.X is not None else lf.h)
            s.fact(t >= 0)
            pre = s.copy()
            fmark = len(self.fresh_log)
            defmark = set(self.defs)
            arrmark = set(self.arrinfo)
            simark = set(self.syminfo)
            nb = len(s.pc)
            c = simp(cond(s))
            hs = {lf.h.decl().name() for lf in order if lf.X is None} | {d.name() for d in self.fresh_log[fmark:]}
            N, nfacts, closed = self.trip(st, c, t, hs)
            for f in nfacts:
                s.fact(f)
            s.fact(t < N)
            cfact = c
            if closed and len(s.pc) == nb + len(nfacts) + 1:
                n, exits, base = self.run_body(s, z3.BoolVal(True), body, inc)
                cfact = None
            else:
                n, exits, base = self.run_body(s, c, body, inc)
            if n is None:
                new = []
            else:
                new = [lf for lf in self.changed(pre, n, keep) if lf.key() not in leaves]
            if new:
                for lf in new:
                    self.add_leaf(st, lf, leaves, order)
                continue
            if n is None:
                del self.obls[obmark:]
                return self.once(st, cond, body, inc)
            bad = False
            for lf in order:
                if lf.X is not None and conc(poly(self.leaf_get(n, lf) - lf.X(t + 1))) != 0:
                    noguess.add(lf.key())
                    lf.X = None
                    bad = True
            if bad:
                continue
            # linear locations found by executing the body
            bodyfresh = {d.name() for d in self.fresh_log[fmark:]}
            names = {lf.h.decl().name() for lf in order if lf.X is None} | bodyfresh | {t.decl().name()}
            found = False
            for lf in order:
                if lf.X is None and lf.kind != 'varr' and lf.h.sort() in (I, R) and lf.key() not in noguess:
                    d = poly(self.leaf_get(n, lf) - lf.h)
                    if not occurs(d, names):
                        self.set_linear(lf, d)
                        found = True
            if found:
                continue
            break
        else:
            raise Unsupported('loop-carried locations do not stabilise')
        self.leafcache[node.id] = [(nc, lf.kind, lf.path, lf.k, lf.key() in noguess) for lf in order for nc in [self.norm_cell(lf.cell)] if nc]
        for f in nfacts:
            st.fact(f)
        for lf in order:
            lf.next = self.leaf_get(n, lf)
        pend = [lf for lf in order if lf.X is None]
        if pend:
            self.solve_leaves(st, order, t, N, bodyfresh, s, n.pc[nb:])
        unsolved = [lf for lf in order if lf.X is None]
        own = set()
        for lf in unsolved:
            srt = lf.x0.sort()
            F = self.fresh_fn('X', I, srt)
            own.add(F.name())
            lf.how = 'recursion'
            lf.X = (lambda F: (lambda T: F(T)))(F)
            st.fact(F(z3.IntVal(0)) == lf.x0)
        hookinv, hooklem = [], []
        entrymark = len(self.obls)
        for hk in self.loop_hooks:
            r = hk(self, st, node, order, N)
            if r:
                hookinv += [x for x in r if x[0] != 'lemma']
                hooklem += [x[1] for x in r if x[0] == 'lemma']
        if hookinv:
            for lf in unsolved:
                lf.how += '+invariant'
        for g in hooklem:
            for f in g(st, z3.IntVal(0)):
                st.fact(f)
        self.loopstat.append((self.where(), node.line, [repr(lf) for lf in order], str(N)[:80]))
        # ---- inductive invariants from the contract: initiation
        for nm, f in hookinv:
            self.oblige(st, f(st, z3.IntVal(0)), nm + ' (holds on entry)', kind='invariant')
        # ---- the definitive generic iteration: the executed one with every location's description filled in
        # (the execution was carried out for arbitrary values h of the unsolved locations)
        s_start = st.copy()
        s_start.fact(z3.And(t >= 0, t < N))
        nps = len(s_start.pc)
        self.state_at(s_start, order, t)
        for nm, f in hookinv:
            s_start.fact(f(s_start, t))
        for g in hooklem:
            for f in g(s_start, t):
                s_start.fact(f)
        pfacts = [e for _, e in s_start.pc[nps:]]
        pairs = [(lf.h, self.leaf_get(s_start, lf)) for lf in pend]
        if pairs:
            hn = {h.decl().name() for h, _ in pairs}
            cache = {}

            def SB(e):
                if not (self.symset(e)[1] & hn):
                    return e
                k = e.get_id()
                if k not in cache:
                    cache[k] = (e, z3.substitute(e, *pairs))
                return cache[k][1]
            for o in self.obls[obmark:entrymark]:
                o.hyps = [SB(h) for h in o.hyps] + pfacts
                o.goal = SB(o.goal)
            for nm in [x for x in self.arrinfo if x not in arrmark]:
                ai = self.arrinfo[nm]
                if ai.base.get_id() is not None:
                    self.arrinfo[nm] = ArrInfo(SB(ai.base), [W(w.params, SB(w.dom), SB(w.idx), SB(w.val)) for w in ai.ws])
            for nm in [x for x in self.defs if x not in defmark]:
                old = self.defs[nm]
                self.defs[nm] = (lambda nm, old: (lambda: [SB(f) for f in (old() if callable(old) else old)]))(nm, old)

            for nm in [x for x in self.syminfo if x not in simark]:
                old = self.syminfo[nm]
                self.syminfo[nm] = (lambda old: (lambda: self.map_si(old() if callable(old) else old, SB)))(old)

            def mapst(a):
                x = State()
                x.cells = {k: self.map_val(v, SB) for k, v in a.cells.items()}
                x.trace = list(a.trace)
                x.pc = a.pc[:nb] + [('f', f) for f in pfacts] + [(k, SB(e)) for k, e in a.pc[nb:]]
                return x
            n3 = mapst(n)
            ex3 = [(mapst(a), Out(o.kind, self.map_val(o.val, SB) if (o.val is not None and not isinstance(o.val, str)) else o.val)) for a, o in exits]
            c3 = SB(c)
            b3 = base + len(pfacts)
        else:
            for o in self.obls[obmark:entrymark]:
                if pfacts:
                    o.hyps = o.hyps + pfacts
            n3, ex3, c3, b3 = n, exits, c, base
            if pfacts:
                for a in [n3] + [a for a, _ in ex3]:
                    a.pc = a.pc[:nb] + [('f', f) for f in pfacts] + a.pc[nb:]
                b3 = base + len(pfacts)
        nb0 = nb - 1
        if cfact is None:
            c3 = z3.BoolVal(True)
        if hookinv:
            n4 = n3.copy()
            for lf in order:
                if lf.how and lf.how.startswith('recursion'):
                    n4.fact(lf.X(simp(t + 1)) == self.leaf_get(n3, lf))
            for g in hooklem:
                for f in g(n3, simp(t + 1)):
                    n4.fact(f)
            for nm, f in hookinv:
                self.oblige(n4, f(n3, simp(t + 1)), nm + ' (preserved)', kind='invariant')
        # ---- facts produced by the iterations, lifted over t
        # symbols that already are functions of this iteration number are not lifted again
        done = {nd.name() for (_, tn), nd in getattr(self, '_liftmap', {}).items() if tn == t.decl().name()}
        lifted = [d for d in self.lift_set(fmark) if d.name() not in own and d.name() not in done]
        rec = []
        for lf in order:
            if lf.how and lf.how.startswith('recursion'):
                rec.append(('f', lf.X(simp(t + 1)) == self.leaf_get(n3, lf)))
        newfacts = [(k, e) for k, e in n3.pc[nb0:]] + rec
        keepf, conds = [], []
        skip = {f.get_id() for f in pfacts} | {(t >= 0).get_id(), simp(t >= 0).get_id()}
        tN = {(t >= 0).get_id(), (t < N).get_id()}
        for k, e in newfacts:
            if e.get_id() in skip or e.get_id() in tN or e.get_id() in self.divids or any(e.eq(f) for f in nfacts):
                continue
            if e.eq(c3):
                if not closed:
                    conds.append(e)
                continue
            (conds if k == 'c' else keepf).append(e)
        rng = z3.And(t >= 0, t < N)
        L = self.lifter(lifted, t, rng)
        results = []
        # path condition of an iteration that completes normally
        go_on = simp(z3.And(*[L(e) for e in conds])) if conds else z3.BoolVal(True)
        only_cond = not ex3
        fin = st.copy()
        q = z3.Const('q%d' % next(_qn), I)

        def over(e, hi, T=None):
            v = z3.Const('i!%d' % next(self.nfresh), I)
            return forall([v], z3.Implies(z3.And(v >= 0, v < hi), sub(e, [(t, v)])))
        lf_facts = [L(e) for e in keepf]
        dep = lifted_names(lifted) | {t.decl().name()}
        Lnames = self._lifted_new | {t.decl().name()}

        def add_facts(s, hi):
            for e in lf_facts:
                if z3.is_true(e):
                    continue
                if occurs(e, Lnames):
                    s.fact(over(e, hi))
                else:
                    s.fact(z3.Implies(hi > 0, e))
        if ex3:
            noexit = self.fresh('noexit', B)
            # an exit happens in the first iteration whose body does not complete normally
            ts = self.fresh('exit_t', I)
            exg = []
            for a, o in ex3:
                pcs = [e for k, e in a.pc[b3:] if k == 'c']
                exg.append(z3.And(*pcs) if pcs else z3.BoolVal(True))
            anyex = L(simp(z3.Or(*exg)))
            fin.pc.append(('c', noexit))
            fin.fact(over(z3.Not(anyex), N))
            add_facts(fin, N)
        else:
            add_facts(fin, N)
            if conds and not z3.is_true(go_on):
                fin.fact(over(go_on, N))
        self.state_at(fin, order, N)
        for nm, f in hookinv:
            fin.fact(f(fin, N))
        for g in hooklem:
            for f in g(fin, N):
                fin.fact(f)
        if not closed:
            fin.cond(self.exit_cond(fin, cond))
        results.append((fin, None))
        if ex3:
            multi = len(ex3) > 1
            # move the concrete exits to the skolem iteration ts
            for a, o in ex3:
                x = State()
                x.cells = {c: v for c, v in a.cells.items()}
                x.trace = list(a.trace)
                sb = self.subst_fn(lifted, t, ts)
                x.cells = {c: self.map_val(v, sb) for c, v in x.cells.items()}
                x.pc = list(st.pc)
                x.pc.append(('c', z3.Not(noexit)))
                x.fact(z3.And(ts >= 0, ts < N))
                add_facts(x, ts)
                x.fact(over(z3.Not(anyex), ts))
                for nm, f in hookinv:
                    x.fact(sb(f(s_start, t)))
                for k, e in a.pc[nb0:]:
                    e2 = sb(e)
                    if k == 'c' and (multi and not e.eq(c3)):
                        x.pc.append(('c', e2))
                    else:
                        x.fact(e2)
                val = o.val
                if o.val is not None and not isinstance(o.val, str):
                    val = self.map_val(o.val, sb)
                results.append((x, None if o.kind == 'brk' else Out(o.kind, val)))
            nb = len(st.pc)
            norm = [(a, o) for a, o in results if o is None]
            if len(norm) > 1:
                rest = [(a, o) for a, o in results if o is not None]
                results = self.try_merge(norm, nb) + rest
        return results

    def exit_cond(self, s, cond):
        c = self.mute(lambda: cond(s))
        return simp(z3.Not(c))

    def once(self, st, cond, body, inc):
        c = simp(cond(st))
        base = len(st.pc)
        a, b = st.copy(), st.copy()
        a.cond(c)
        b.cond(z3.Not(c))
        outs = [(b, None)] + [(x, None if (o is not None and o.kind == 'brk') else o) for x, o in body(a)]
        return self.try_merge(outs, base)

    # ---------------------------------------------------------------- trip count
    def trip(self, st, ct, t, bad):
        cc = conc(ct)
        if cc is False:
            return z3.IntVal(0), [], True
        r = as_neg(ct)
        if r is not None:
            e, kind = r
            e0 = simp(sub(e, [(t, z3.IntVal(0))]))
            if not occurs(e0, bad):
                step = conc(poly(sub(e, [(t, t + 1)]) - e))
                if step is not None and step > 0 and kind == '<':
                    M = simp(-e0)     # e0 + step*t < 0
                    nn = self.quick(st, M >= 0, 150)
                    if step == 1:
                        return (M if nn else z3.If(M > 0, M, z3.IntVal(0))), [], True
                    q = simp((M + (step - 1)) / step)
                    if nn:
                        return q, [], True
                    return z3.If(M > 0, q, z3.IntVal(0)), [], True
                if step is not None and kind == '!=' and step in (1, -1):
                    M = simp(-e0 * step)
                    if not self.quick(st, M >= 0, 200):
                        self.oblige(st, M >= 0, 'loop terminates (range is not reversed)', kind='safety')
                    return M, [], True
                if step is not None and kind == '!=' and step != 0:
                    M = simp(-e0)
                    k = self.fresh('trips', I)
                    self.assumptions.add('termination of loops whose trip count has no closed form is not proved')
                    return k, [k >= 0, z3.Implies(M % abs(step) == 0, k * step == M)], False
                if step is not None and step < 0 and kind == '<':
                    pass
        k = self.fresh('trips', I)
        self.assumptions.add('termination of loops whose trip count has no closed form is not proved')
        return k, [k >= 0], False

    # ---------------------------------------------------------------- solving leaves
    def solve_leaves(self, st, order, t, N, bodyfresh, sctx, facts):
        L = None
        cnts, lasts = {}, {}

        def names():
            return {lf.h.decl().name() for lf in order if lf.X is None}
        # lifted (iteration-dependent) fresh symbols of the body appear inside d/c/v: lift them first
        lift_syms = [d for d in self.fresh_log if d.name() in bodyfresh]
        Lf = self.lifter(lift_syms, t, z3.And(t >= 0, t < N))
        need_lift = set()
        prog = True
        # folds first: other locations may follow the position where a fold attains its value
        again = True
        while again:
            again = False
            for lf in order:
                if lf.X is not None or lf.kind == 'varr' or lf.h.sort() not in (I, R):
                    continue
                nx = sub(lf.next, [(o.h, o.X(t)) for o in order if o.X is not None and o.kind != 'varr'])
                hn = lf.h.decl().name()
                if occurs(nx, names() - {hn}):
                    continue
                g = self.guarded(nx, lf.h)
                if g is None or g[1] is None or occurs(g[1], {hn}):
                    continue
                c, v = g
                nest = z3.is_app(v) and v.num_args() == 1 and (self.sym(v.decl().name()) or {}).get('kind') == 'fold'
                if (occurs(c, {hn}) or nest) and self.fold(st, lf, c, v, t, N, sctx, order, Lf):
                    again = True
        while prog:
            prog = False
            for lf in order:
                if lf.X is not None:
                    continue
                nx = sub(lf.next, [(o.h, o.X(t)) for o in order if o.X is not None and o.kind != 'varr'])
                hn = lf.h.decl().name()
                others = names() - {hn}
                if lf.kind == 'varr':
                    if self.solve_array(st, lf, nx, t, N, order, Lf, sctx, facts):
                        prog = True
                        continue
                    if self.writes(nx, lf.h, z3.BoolVal(True)) is not None:
                        continue
                if occurs(nx, others):
                    continue
                if lf.h.sort() in (I, R):
                    d = poly(nx - lf.h)
                    d2 = simp(nx - lf.h)
                    if not occurs(d, {hn}) or not occurs(d2, {hn}):
                        if occurs(d, {hn}):
                            d = d2
                        lf.X = self.prefix(st, lf, Lf(d), t, N, cnts, sctx)
                        prog = True
                        continue
                    dd = self.delta_ite(nx, lf.h)
                    if dd is not None:
                        lf.X = self.prefix(st, lf, Lf(dd), t, N, cnts, sctx)
                        prog = True
                        continue
                g = self.guarded(nx, lf.h)
                if g is None:
                    continue
                c, v = g
                if v is None:
                    lf.X = (lambda x0: (lambda T: x0))(lf.x0)
                    lf.how = 'const'
                    prog = True
                    continue
                if occurs(v, {hn}):
                    continue
                if not occurs(c, {hn}) and z3.is_app(v) and v.num_args() == 1 and (self.sym(v.decl().name()) or {}).get('kind') == 'fold' and self.fold(st, lf, c, v, t, N, sctx, order, Lf):
                    prog = True
                    continue
                if not occurs(c, {hn}):
                    lf.X = self.last_update(st, lf, Lf(c), Lf(v), t, N, lasts)
                    prog = True
                    continue
                if self.fold(st, lf, c, v, t, N, sctx, order, Lf):
                    prog = True
                    continue

    def delta_ite(self, nx, h):
        """nx = ite(c, h+a, h+b) -> ite(c,a,b)"""
        if nx.eq(h):
            return z3.IntVal(0) if h.sort() == I else z3.RealVal(0)
        if z3.is_app(nx) and nx.decl().kind() == z3.Z3_OP_ITE:
            c = nx.arg(0)
            if occurs(c, {h.decl().name()}):
                return None
            a, b = self.delta_ite(nx.arg(1), h), self.delta_ite(nx.arg(2), h)
            if a is None or b is None:
                return None
            return simp(z3.If(c, a, b))
        d = poly(nx - h)
        return None if occurs(d, {h.decl().name()}) else d

    def guarded(self, nx, h):
        """nx = ite(c, v, h): -> (c, v); v None when nx is h"""
        hn = {h.decl().name()}
        if nx.eq(h):
            return z3.BoolVal(False), None
        if not occurs(nx, hn):
            return z3.BoolVal(True), nx
        if h.sort() == B:
            # Shannon: value when h is true / false
            a = simp(sub(nx, [(h, z3.BoolVal(True))]))
            b = simp(sub(nx, [(h, z3.BoolVal(False))]))
            # nx = (h and a) or (not h and b);  updated when a == b (then value a)
            if z3.is_true(a):
                return b, z3.BoolVal(True)
            if z3.is_false(b):
                return simp(z3.Not(a)), z3.BoolVal(False)
            return None
        if z3.is_app(nx) and nx.decl().kind() == z3.Z3_OP_ITE:
            c = nx.arg(0)
            a, b = self.guarded(nx.arg(1), h), self.guarded(nx.arg(2), h)
            if a is None or b is None:
                return None
            ca, va = a
            cb, vb = b
            if va is None and vb is None:
                return z3.BoolVal(False), None
            if va is None:
                return simp(z3.And(z3.Not(c), cb)), vb
            if vb is None:
                return simp(z3.And(c, ca)), va
            return simp(z3.If(c, ca, cb)), simp(z3.If(c, va, vb))
        return None

    def prefix(self, st, lf, d, t, N, cnts, sctx):
        """x(T) = x0 + sum_{u<T} d(u)"""
        srt = lf.h.sort()
        # counting form  ite(c,k,0)
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = d.arg(0), d.arg(1), d.arg(2)
            ka, kb = conc(a), conc(b)
            if ka is not None and kb is not None and srt == I:
                if ka == 0 and kb != 0:
                    c, ka, kb = simp(z3.Not(c)), kb, ka
                if kb == 0:
                    key = c.sexpr()
                    if key not in cnts:
                        Cn = self.fresh_fn('cnt', I, I)
                        cnts[key] = Cn
                        u, v = z3.Ints('u!c v!c')
                        cu = sub(c, [(t, u)])
                        wf = self.fresh_fn('hit', I, I)
                        cw = sub(c, [(t, wf(v))])
                        self.define(Cn, [
                            Cn(z3.IntVal(0)) == 0,
                            z3.ForAll([u], z3.Implies(u >= 0, z3.And(Cn(u) >= 0, Cn(u) <= u)), patterns=[Cn(u)]),
                            z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u <= v), Cn(u) <= Cn(v)), patterns=[z3.MultiPattern(Cn(u), Cn(v))]),
                            z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u < v, cu), Cn(u) + 1 <= Cn(v)), patterns=[z3.MultiPattern(Cn(u), Cn(v))]),
                            # the v-th hit exists
                            z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, v >= 0, v < Cn(u)), z3.And(wf(v) >= 0, wf(v) < u, cw, Cn(wf(v)) == v)), patterns=[z3.MultiPattern(Cn(u), wf(v))])])
                        self.syminfo[Cn.name()] = {'kind': 'count', 'params': [t], 'cond': c, 'd': z3.If(c, z3.IntVal(1), z3.IntVal(0)), 'hit': wf}
                    Cn = cnts[key]
                    lf.how = 'count'
                    lf.info = (Cn, c, ka)
                    return (lambda k: (lambda T: simp(lf.x0 + k * Cn(T))))(ka)
        S = self.fresh_fn('sum', I, srt)
        u, v = z3.Ints('u!s v!s')
        self.define(S, [S(z3.IntVal(0)) == lf.x0])
        if self.quick(sctx, d >= 0, 300):
            st.fact(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u <= v, v <= N), S(u) <= S(v)), patterns=[z3.MultiPattern(S(u), S(v))]))
        lf.how = 'sum'
        lf.info = (S, d, t)
        self.syminfo[S.name()] = {'kind': 'sum', 'params': [t], 'd': d, 'x0': lf.x0}
        return lambda T: S(T)

    def last_update(self, st, lf, c, v, t, N, lasts):
        key = c.sexpr()
        if z3.is_true(c):
            # overwritten in every iteration
            lf.how = 'last'
            return lambda T: z3.If(T > 0, sub(v, [(t, T - 1)]), lf.x0) if conc(T) is None else (lf.x0 if conc(T) == 0 else sub(v, [(t, T - 1)]))
        if key not in lasts:
            La = self.fresh_fn('last', I, I)
            lasts[key] = La
            T, u = z3.Ints('T!l u!l')
            self.define(La, [
                z3.ForAll([T], z3.Implies(T >= 0, z3.And(La(T) >= -1, La(T) < T)), patterns=[La(T)]),
                z3.ForAll([T], z3.Implies(z3.And(T >= 0, La(T) >= 0), sub(c, [(t, La(T))])), patterns=[La(T)])])
            self.syminfo[La.name()] = {'kind': 'last', 'params': [t], 'cond': c}
        La = lasts[key]
        lf.how = 'last'
        lf.info = (La, c, v, t)

        def X(T):
            u = z3.Const('u!%d' % next(self.nfresh), I)
            self._pending.append(z3.ForAll([u], z3.Implies(z3.And(u > La(T), u >= 0, u < T), z3.Not(sub(c, [(t, u)])))))
            if conc(T) == 0:
                return lf.x0
            return z3.If(La(T) >= 0, sub(v, [(t, La(T))]), lf.x0)
        return X

    _pending = []

    def fold(self, st, lf, c, v, t, N, sctx, order, Lf):
        """min / max folds (possibly guarded): ite(g(t) and v(t) > h, v(t), h), and folds of folds: the body
        runs a fold that starts from the current value"""
        if lf.h.sort() not in (I, R):
            return False
        h = lf.h
        hn = h.decl().name()
        nested = None
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args() >= 1:
            si = self.sym(v.decl().name())
            if si and si.get('kind') == 'fold' and isz(si['x0']) and si['x0'].eq(h) and v.num_args() == 1 and not occurs(c, {hn}):
                nested = si
        cands = []
        if nested is not None:
            cands = [(nested['sign'], nested['strict'], None)]
        else:
            for sign in (1, -1):
                g = simp(sub(c, [(h, v - sign)]))
                want = z3.And(g, (v > h) if sign > 0 else (v < h))
                if self.quick(sctx, c == want, 400):
                    cands = [(sign, True, g)]
                    break
                want = z3.And(g, (v >= h) if sign > 0 else (v <= h))
                if self.quick(sctx, c == want, 200):
                    cands = [(sign, False, g)]
                    break
        for sign, strict, g in cands:
            F = self.fresh_fn('fold', I, h.sort())
            Ai = self.fresh_fn('arg', I, I)
            T = z3.Int('T!f')
            cmpf = (lambda a, b: a >= b) if sign > 0 else (lambda a, b: a <= b)
            better = {(1, True): lambda a, b: a > b, (1, False): lambda a, b: a >= b, (-1, True): lambda a, b: a < b, (-1, False): lambda a, b: a <= b}[(sign, strict)]
            if nested is not None:
                Tin = v.arg(0)
                Ain = nested['arg'](Tin)
                upd, val = Lf(z3.And(c, Ain >= 0)), Lf(v)
                updc = z3.And(c, Ain >= 0)
                cover = []
                for ps, gg, vv in nested['cover']:
                    ren = [(x, z3.Const('f!%d' % next(self.nfresh), I)) for x in ps]
                    r0 = ren[0][1]
                    cover.append(([t] + [b for _, b in ren], Lf(z3.And(c, r0 >= 0, r0 < Tin, sub(gg, ren))), Lf(sub(vv, ren))))
            else:
                upd, val = Lf(g), Lf(v)
                updc = c
                cover = [([t], Lf(g), Lf(v))]
            dfs = [F(z3.IntVal(0)) == lf.x0,
                   z3.ForAll([T], z3.Implies(T >= 0, cmpf(F(T), lf.x0)), patterns=[F(T)]),
                   z3.ForAll([T], z3.Implies(T >= 0, z3.Or(z3.And(F(T) == lf.x0, Ai(T) == -1), z3.And(Ai(T) >= 0, Ai(T) < T, sub(upd, [(t, Ai(T))]), F(T) == sub(val, [(t, Ai(T))])))), patterns=[F(T)])]
            self.define(F, dfs)
            self.define(Ai, [dfs[2]])
            self.syminfo[F.name()] = {'kind': 'fold', 'params': [t], 'sign': sign, 'strict': strict, 'x0': lf.x0, 'arg': Ai, 'cover': cover}
            lf.how = 'fold'
            lf.info = (F, upd, val, t, sign, Ai)

            def X(T):
                if conc(T) == 0:
                    return lf.x0
                for ps, gg, vv in cover:
                    us = [z3.Const('u!%d' % next(self.nfresh), I) for _ in ps]
                    pr = list(zip(ps, us))
                    gu, vu = sub(gg, pr), sub(vv, pr)
                    self._pending.append(forall(us, z3.Implies(z3.And(us[0] >= 0, us[0] < T, gu), z3.And(cmpf(F(T), vu), z3.Implies(better(vu, lf.x0), Ai(T) >= 0)))))
                return F(T)
            lf.X = X
            # companions updated under the very same condition take their value at the arg index
            for o in order:
                if o is lf or o.X is not None:
                    continue
                nx = sub(o.next, [(p.h, p.X(t)) for p in order if p.X is not None and p is not lf and p.kind != 'varr'])
                if o.kind == 'varr' and self.writes(nx, o.h, z3.BoolVal(True)) is not None:
                    continue
                gg = self.guarded(nx, o.h)
                if gg is None or gg[1] is None or occurs(gg[1], {o.h.decl().name(), hn}):
                    continue
                if simp(gg[0]).eq(simp(updc)) or self.quick(sctx, gg[0] == updc, 300):
                    ov = Lf(gg[1])
                    o.how = 'fold'
                    o.X = (lambda o, ov: (lambda T: o.x0 if conc(T) == 0 else z3.If(Ai(T) >= 0, sub(ov, [(t, Ai(T))]), o.x0)))(o, ov)
            return True
        return False

    # ---------------------------------------------------------------- arrays
    keep_recursive = None    # contract's choice: leave an array as a recursion symbol, for its own invariants

    def solve_array(self, st, lf, nx, t, N, order, Lf, sctx, facts):
        ws = self.writes(nx, lf.h, z3.BoolVal(True))
        if ws is None or (self.keep_recursive and self.keep_recursive(lf, order)):
            return False
        un = {o.h.decl().name() for o in order if o.X is None and o is not lf and o.kind != 'varr'}
        arrs = {o.h.decl().name() for o in order if o.kind == 'varr'}
        out = []
        solved = [(p.h, p.X(t)) for p in order if p.X is not None and p is not lf and p.kind != 'varr']
        for w in ws:
            # the writes of inner loops are kept in their descriptions: solved locations are filled in here
            es = [sub(e, solved) for e in (w.dom, w.idx, w.val)]
            if any(occurs(e, un) for e in es):
                return False
            if any(occurs(e, arrs) for e in es):
                es2 = self.fresh_reads(w, ws, order, t, N, sctx, Lf)
                if es2 is None:
                    return False
                es = es2
            es = [Lf(e) for e in es]
            pu = z3.Const('u!%d' % next(self.nfresh), I)
            ren = [(p, z3.Const('u!%d' % next(self.nfresh), I)) for p in w.params]
            es = [sub(e, ren) for e in es]
            es = [sub(e, [(t, pu)]) for e in es]
            out.append((pu, [b for _, b in ren], es))
        if not out:
            lf.X = lambda T: lf.x0
            lf.how = 'const'
            return True
        lf.how = 'writes'
        lf.info = (out, N)
        memo = {}
        st0 = st.copy()

        def X(T):
            cT = conc(T)
            if cT == 0:
                return lf.x0
            if T.get_id() in memo:
                return memo[T.get_id()][1]
            A = self.fresh('arr', lf.x0.sort())
            wl = []
            for pu, ps, (dm, ix, vl) in out:
                w = W([pu] + ps, simp(z3.And(pu >= 0, pu < T, dm)), simp(ix), vl)
                if T.eq(N):
                    w = self.fuse(w, st0, N)
                wl.append(w)
            self.new_array(st0, A, lf.x0, wl)
            memo[T.get_id()] = (T, A)
            return A
        lf.X = X
        return True

    def fresh_reads(self, w, ws, order, t, N, sctx, Lf):
        """replace reads of the loop-start array by reads of the array before the loop when no earlier
        iteration writes the cell read"""
        res = []
        hm = {o.h.decl().name(): o for o in order if o.kind == 'varr'}
        repl = []
        for e in (w.dom, w.idx, w.val):
            sel = []

            def collect(x, seen=set()):
                todo = [x]
                sn = set()
                while todo:
                    y = todo.pop()
                    if y.get_id() in sn:
                        continue
                    sn.add(y.get_id())
                    if z3.is_quantifier(y):
                        continue
                    if z3.is_select(y) and z3.is_const(y.arg(0)) and y.arg(0).decl().name() in hm:
                        sel.append(y)
                    todo += y.children()
            collect(e)
            for y in sel:
                o = hm[y.arg(0).decl().name()]
                ows = self.writes(sub(o.next, [(p.h, p.X(t)) for p in order if p.X is not None and p.kind != 'varr']), o.h, z3.BoolVal(True))
                if ows is None:
                    return None
                v = z3.Const('v!%d' % next(self.nfresh), I)
                for ow in ows:
                    ren = [(p, z3.Const('w!%d' % next(self.nfresh), I)) for p in ow.params]
                    od = sub(sub(ow.dom, ren), [(t, v)])
                    oi = sub(sub(ow.idx, ren), [(t, v)])
                    if any(occurs(x, set(hm)) for x in (oi,)):
                        return None
                    g = z3.Not(z3.And(v >= 0, v < t, Lf(od) if not occurs(od, set(hm)) else z3.BoolVal(True), w.dom if not occurs(w.dom, set(hm)) else z3.BoolVal(True), Lf(oi) == y.arg(1)))
                    if not self.quick(sctx, g, 1500):
                        return None
                repl.append((y, z3.Select(o.x0, y.arg(1))))
        out = [sub(e, repl) for e in (w.dom, w.idx, w.val)]
        if any(occurs(e, set(hm)) for e in out):
            return None
        return out

    def fuse(self, w, sctx, T):
        """blocked loops: two parameters (b,u) that only occur as S*b+u become one"""
        if len(w.params) < 2:
            return w
        b = w.params[0]
        for u in w.params[1:]:
            for S in self.strides(w, b):
                k = z3.Const('u!%d' % next(self.nfresh), I)
                idx = poly(sub(w.idx, [(u, k - S * b)]))
                if occurs(idx, {b.decl().name()}):
                    continue
                val = self.norm_sub(w.val, u, k - S * b)
                if occurs(val, {b.decl().name()}):
                    continue
                dom = simp(sub(w.dom, [(u, k - S * b)]))
                wit = sub(dom, [(b, k / S)])
                # candidate bound: eliminate b with its only possible value
                if self.quick(sctx, z3.Implies(dom, b == k / S), 1500):
                    nd = self.clean(simp(wit), sctx)
                    ps = [k if p is u else p for p in w.params[1:]]
                    nd2 = self.simplify_dom(nd, k, sctx)
                    return W(ps, nd2, idx, val)
        return w

    def strides(self, w, b):
        out = set()
        todo = [w.dom, w.idx]
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x):
                continue
            if z3.is_mul(x) and x.num_args() == 2:
                c0, c1 = conc(x.arg(0)), conc(x.arg(1))
                if c0 is not None and x.arg(1).eq(b) and c0 > 1:
                    out.add(c0)
                if c1 is not None and x.arg(0).eq(b) and c1 > 1:
                    out.add(c1)
            todo += x.children()
        return sorted(out)

    def norm_sub(self, e, u, r):
        e = sub(e, [(u, r)])

        def go(x):
            if z3.is_app(x) and x.num_args() > 0:
                ch = [go(y) for y in x.children()]
                y = x.decl()(*ch)
                if y.sort() == I and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
                    return poly(y)
                return y
            return x
        return go(e)

    def clean(self, d, sctx):
        return d

    def simplify_dom(self, nd, k, sctx):
        """find n with nd <=> 0<=k<n among the terms of nd"""
        cand = []
        todo = [nd]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if x.sort() == I and not occurs(x, {k.decl().name()}) and conc(x) is None and len(cand) < 40:
                cand.append(x)
            todo += x.children()
        cand.sort(key=lambda x: len(x.sexpr()))
        conj = list(nd.children()) if z3.is_and(nd) else [nd]
        mine = [c for c in conj if occurs(c, {k.decl().name()})]
        rest = [c for c in conj if not occurs(c, {k.decl().name()})]
        m = z3.And(*mine)
        for n in cand[:25]:
            if self.quick(sctx, z3.Implies(z3.And(*rest) if rest else z3.BoolVal(True), m == z3.And(k >= 0, k < n)), 300):
                return simp(z3.And(*(rest + [k >= 0, k < n])))
        return nd

    def state_at(self, s, order, T):
        """set every leaf of s to its description at iteration T"""
        saved, self._pending = self._pending, []
        try:
            for lf in order:
                self.leaf_set(s, lf, lf.X(T))
            for f in self._pending:
                s.fact(f)
        finally:
            self._pending = saved

    # ---------------------------------------------------------------- lifting
    def lift_set(self, mark):
        return list(self.fresh_log[mark:])

    def lifter(self, decls, t, rng=None):
        """expr -> expr with every body-fresh symbol turned into a function of t.
        rng: guard (over t) of the lifted definitional facts"""
        if not hasattr(self, '_liftmap'):
            self._liftmap = {}
        self._lifted_new = getattr(self, '_lifted_new', set())
        cs, fs = [], []
        new = set()
        fresh = []
        for d in decls:
            key = (d.name(), t.decl().name())
            if key not in self._liftmap:
                nm = d.name().split("'")[0] + "'"
                doms = [I] + [d.domain(i) for i in range(d.arity())]
                nd = z3.Function('%s!%d' % (nm, next(self.nfresh)), *(doms + [d.range()]))
                self._liftmap[key] = nd
                self.fresh_log.append(nd)
                fresh.append((d, nd))
            nd = self._liftmap[key]
            new.add(nd.name())
            if d.arity() == 0:
                cs.append((d(), nd(t)))
            else:
                fs.append((d, nd(t, *[z3.Var(i, d.domain(i)) for i in range(d.arity())])))
        self._lifted_new = new
        names = {d.name() for d in decls}

        def L(e):
            if not isz(e):
                return e
            if not (self.symset(e)[1] & names):
                return e
            if cs:
                e = z3.substitute(e, *cs)
            if fs:
                e = z3.substitute_funs(e, *fs)
            return e
        for d, nd in fresh:
            if d.name() in self.defs:
                def mk(dn):
                    def facts():
                        out = []
                        for f in self.def_facts(dn):
                            g = L(f)
                            if rng is not None:
                                g = z3.Implies(rng, g)
                            out.append(forall([t], g))
                        return out
                    return facts
                self.defs[nd.name()] = mk(d.name())
            if d.name() in self.arrinfo or d.name() in self.arrlift:
                def mka(d):
                    def parts():
                        if d.arity() == 0:
                            vs, base, ws = [], self.arrinfo[d.name()].base, self.arrinfo[d.name()].ws
                        else:
                            vs, base, ws = self.arrlift[d.name()]()
                        return [t] + list(vs), L(base), [W(w.params, L(w.dom), L(w.idx), L(w.val)) for w in ws]
                    return parts
                self.arrlift[nd.name()] = mka(d)
            if d.name() in self.syminfo:
                def mks(d):
                    def parts():
                        si = dict(self.sym(d.name()))
                        # the parameters are bound: they are not symbols of the iteration
                        pr = [(p, z3.Const('sp!%d' % next(self.nfresh), p.sort())) for p in si['params']]
                        si = self.map_si(si, lambda e: L(z3.substitute(e, *pr)))
                        si['params'] = [t] + [b for _, b in pr]
                        si.pop('hit', None)
                        return si
                    return parts
                self.syminfo[nd.name()] = mks(d)
        return L

    @staticmethod
    def map_si(si, f):
        r = {}
        for k, v in si.items():
            if k == 'params':
                r[k] = v
            elif k == 'cover':
                r[k] = []
                for ps, g, x in v:
                    # bound parameters are renamed before f sees the expressions
                    pr = [(q, z3.Const('cp!%d_%s' % (q.get_id(), q.decl().name()), q.sort())) for q in ps]
                    r[k].append(([b for _, b in pr], f(z3.substitute(g, *pr)), f(z3.substitute(x, *pr))))
            else:
                r[k] = f(v) if isz(v) else v
        return r

    def sym(self, name):
        r = self.syminfo.get(name)
        return r() if callable(r) else r

    def subst_fn(self, decls, t, ts):
        L = self.lifter(decls, t)

        def f(e):
            return sub(L(e), [(t, ts)])
        return f

    def map_val(self, v, f):
        if isz(v):
            return f(v)
        if isinstance(v, Struct):
            return Struct(v.cls, {k: self.map_val(x, f) for k, x in v.f.items()})
        if isinstance(v, Arr):
            return Arr([self.map_val(x, f) for x in v.e])
        if isinstance(v, Vec):
            return Vec(v.t, self.map_val(v.len, f), [f(m) for m in v.m])
        if isinstance(v, Ptr):
            return Ptr(v.cell, tuple((k, f(x) if isz(x) else x) for k, x in v.path), None if v.off is None else (f(v.off) if isz(v.off) else v.off),
                       None if v.null is None else f(v.null), v.view)
        if isinstance(v, Union):
            return Union([(f(c), self.map_val(x, f)) for c, x in v.alts])
        if isinstance(v, LV):
            return LV(v.cell, tuple((k, f(x) if isz(x) else x) for k, x in v.path), v.view)
        if isinstance(v, Ref):
            return Ref(self.map_val(v.lv, f))
        return v


def lifted_names(ds):
    return {d.name() for d in ds}
