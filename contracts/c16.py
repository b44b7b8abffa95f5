"""C16: plans of the built-in FFT."""
import z3
from dv.spec import *
from contracts.c04 import fa, val
from contracts.hs import *
from dv.stmts import TDIV, TMOD

DRIVER = 'transform'
HARNESS = STOCK


b = asb


class Spec:
    """mathematical vocabulary, as recursive definitions instantiated on demand"""

    def __init__(self, v):
        self.v = v
        self.Rf = {p: v.fresh_fn('free%d' % p, I, I) for p in (2, 3, 4)}     # n with all factors p removed
        self.PC = v.fresh_fn('bits', I, I)

    def R(self, p, n):
        return self.Rf[p](n)

    def Rdef(self, p, n):
        n = zi(n)
        return z3.Implies(n >= 1, self.Rf[p](n) == z3.If(n % p == 0, self.Rf[p](n / p), n))

    def PCdef(self, n):
        n = zi(n)
        return z3.And(self.PC(z3.IntVal(0)) == 0, z3.Implies(n >= 1, self.PC(n) == n % 2 + self.PC(n / 2)))


def xval(v, g, lf):
    return v.leaf_get(g, lf)


def is_start(lf, n):
    return lf.kind == 'z' and z3.is_expr(lf.x0) and simp(lf.x0).eq(simp(n))


def u_power_of(c, p):
    fn = c.fn('heffte::stock::power_of')
    v = c.engine()
    S = Spec(v)
    st = State()
    n = v.fresh('n', I)
    st.fact(n >= 1)

    def hook(v_, s0, node, order, N):
        k = [l for l in order if is_start(l, n)]
        if not k:
            return []
        k = k[0]
        X = lambda g: zi(v.leaf_get(g, k))
        if p != 2:
            return [('lemma', lambda g, T: [S.Rdef(p, X(g))]), ('the current value is positive', lambda g, T: X(g) >= 1),
                    ('the current value has the same %d-free part' % p, lambda g, T: S.R(p, X(g)) == S.R(p, n))]
        inv = [('lemma', lambda g, T: [S.PCdef(X(g))]), ('the current value is not negative', lambda g, T: X(g) >= 0)]
        for l in order:
            if l is not k and l.kind == 'z':
                inv.append(('the bits counted so far', lambda g, T, l=l: zi(v.leaf_get(g, l)) == l.x0 + S.PC(n) - S.PC(X(g))))
        return inv
    v.loop_hooks.append(hook)
    if p == 2:
        # lemma, by strong induction: exactly the powers of two have one bit
        m = v.fresh('m', I)
        for nm, stmt in (('a positive number has a bit', lambda k: z3.Implies(k >= 1, S.PC(k) >= 1)),
                         ('one bit means a power of two', lambda k: z3.Implies(k >= 1, (S.PC(k) == 1) == (S.R(2, k) == 1)))):
            h = State()
            for f in (m >= 1, S.PCdef(m), S.Rdef(2, m), stmt(m / 2), z3.Implies(m / 2 >= 1, S.PC(m / 2) >= 1)):
                h.fact(f)
            v.oblige(h, stmt(m), 'lemma, induction over the bits: ' + nm, kind='lemma', where='lemma')
            st.fact(stmt(n))
            st.fact(stmt(n / 2))
        st.fact(S.PCdef(n))
    st.fact(S.Rdef(p, n))
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [n, z3.IntVal(p)])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'power_of does not throw')
    for g, r in rets:
        v.oblige(g, b(r) == z3.And(n != 1, S.R(p, n) == 1), 'power_of(n, %d) says exactly whether n > 1 is a power of %d' % (p, p))


UNITS = [Unit('power_of<%d>' % p, lambda c, p=p: u_power_of(c, p)) for p in (2, 3, 4)]


def divides(v, st, d, n):
    """d | n for the operator of the code, with the definition of the remainder"""
    st.fact(v.div_axiom(n, d))
    return TMOD(n, d) == 0


def no_divisor(v, g, n, name, lim=1213, ends=()):
    """n has no divisor d >= 2 with d*d <= n.  Small d: one ground obligation each, from the divisibility facts of the path
    that speak about a divisor of d; the others: by the search loop"""
    facts = g.facts()
    mods = [f for f in facts if not z3.is_quantifier(f) and consts(f) == {n.decl().name()}]
    for d in range(2, lim):
        rel = [f for f in mods if z3.is_false(z3.simplify(z3.substitute(f, (n, z3.IntVal(d)))))]
        h = State()
        for f in rel[:2]:
            h.fact(f)
        v.oblige(h, n % d != 0, '%s: %d does not divide it' % (name, d))
    d = v.fresh('d', I)
    h = State()
    for f in facts:
        if f not in mods:
            h.fact(f)
    v.oblige(g, n % 2 != 0, name + ': it is odd')
    h.fact(n % 2 != 0)
    h.fact(z3.And(d >= lim, d * d <= n))
    h.fact(divides(v, h, d, n))
    mono = mulmono_lemma(v)
    for k in ends:
        h.fact(mono.at(k, d, d))
        h.fact(mono.at(k, d, k))
    ev = h.copy()
    m = v.fresh('half', I)
    ev.fact(d == 2 * m)
    v.oblige(ev, n == 2 * (m * TDIV(n, d)), name + ': an even divisor of n makes n even')
    h.fact(z3.Implies(d % 2 == 0, n % 2 == 0))
    h.fact(d == d / 2 * 2 + d % 2)
    v.oblige(h, z3.BoolVal(False), name + ': no larger number whose square is at most n divides it', hints=[d, (d - 1213) / 2, (d - 1) / 2])


def consts(e):
    seen, todo, out = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add('()' + x.decl().name())
        todo += x.children()
    return out


def u_factor(c):
    fn = c.fn('heffte::stock::factor')
    v = c.engine()
    st = State()
    n = v.fresh('n', I)
    st.fact(n >= 1)
    c.live(v, st)
    ends = []

    def hook(v_, s0, node, order, N):
        ends.extend(zi(l.X(N)) for l in order if l.kind == 'z' and l.X is not None)
        return []
    v.loop_hooks.append(hook)
    rets, thr = c.run(v, st, fn, None, [n])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'factor does not throw')
    for g, r in rets:
        r = zi(r)
        k = conc(simp(r))
        h = g.copy()
        if k is None and not r.eq(n):
            h.fact(v.div_axiom(n, r))
        v.oblige(h, z3.And(r >= 1, r <= n, z3.Implies(n >= 2, r >= 2)), 'the factor is between 1 and n, and at least 2 for n > 1')
        if not r.eq(n):
            v.oblige(h, (n % k == 0) if k is not None else TMOD(n, r) == 0, 'the factor divides n')
        # when it is n itself, n is a prime (or 1, 4, 16)
        h = g.copy()
        h.fact(r == n)
        h.fact(n > 16)
        if k is not None:
            if k > 16:
                v.oblige(h, z3.And(*[n % j != 0 for j in range(2, int(k ** .5) + 1)]), 'the factor is n itself only for a prime n')
        elif proves(h, z3.BoolVal(False), 5):
            v.oblige(h, z3.BoolVal(False), 'the factor is n itself only for a prime n')
        else:
            no_divisor(v, h, n, 'the factor is n itself only for a prime n', ends=ends)


RADER_MIN = 100000
TYPES = ['pow2', 'pow3', 'pow4', 'composite', 'discrete', 'rader']


class Plan(Spec):
    """contracts of the number theoretic helpers, seen by the functions that build the plan"""

    def __init__(self, v):
        super().__init__(v)
        self.C = {p: v.fresh_fn('part%d' % p, I, I) for p in (2, 3, 4)}      # the power of p that divides n exactly
        self.fac = v.fresh_fn('fac', I, I)
        self.PRIME = v.fresh_fn('prime', I, B)
        self.is_pow = lambda p, n: z3.And(n != 1, self.R(p, n) == 1)
        v.contracts['heffte::stock::power_of'] = self.c_power_of
        v.contracts['heffte::stock::factor'] = self.c_factor

    def c_power_of(self, v, st, fn, this, args):
        n, p = (zi(v.load(st, x) if isinstance(x, LV) else x) for x in args)
        p = conc(simp(p))
        if p not in (2, 3, 4):
            return NotImplemented
        v.oblige(st, n >= 1, 'power_of is asked about a positive number')
        st.fact(self.Rdef(p, n))
        return self.is_pow(p, n)

    def c_factor(self, v, st, fn, this, args):
        n = zi(v.load(st, args[0]) if isinstance(args[0], LV) else args[0])
        v.oblige(st, n >= 1, 'factor is asked about a positive number')
        st.fact(self.fac_post(v, st, n))
        return self.fac(n)

    def fac_post(self, v, st, n):
        k = self.fac(n)
        return z3.And(k >= 1, k <= n, z3.Implies(n >= 2, k >= 2), divides(v, st, k, n), z3.Implies(z3.And(k == n, n > 16), self.PRIME(n)))

    def parts(self, v):
        """lemma: n is the product of its p-part and its p-free part"""
        for p in (2, 3, 4):
            m = v.fresh('m', I)
            h = State()
            C, Rr = self.C[p], self.Rf[p]
            stmt = lambda k: z3.Implies(k >= 1, z3.And(k == C(k) * Rr(k), C(k) >= 1, Rr(k) >= 1, z3.Implies(k % p == 0, C(k) >= p)))
            cdef = z3.Implies(m >= 1, C(m) == z3.If(m % p == 0, p * C(m / p), 1))
            for f in (m >= 1, self.Rdef(p, m), cdef, stmt(m / p), m % p == 0, C(m) == p * C(m / p), Rr(m) == Rr(m / p)):
                h.fact(f)
            v.oblige(h, stmt(m), 'lemma, induction over the division by %d: n = part * rest (divisible)' % p, kind='lemma', where='lemma')
            h = State()
            for f in (m >= 1, self.Rdef(p, m), cdef, m % p != 0):
                h.fact(f)
            v.oblige(h, stmt(m), 'lemma, induction over the division by %d: n = part * rest (not divisible)' % p, kind='lemma', where='lemma')
            yield p, stmt

    def hook(self, n):
        v = self.v

        def hk(v_, s0, node, order, N):
            k = [l for l in order if is_start(l, n)]
            if not k:
                return []
            X = lambda g: zi(v.leaf_get(g, k[0]))
            inv = [('lemma', lambda g, T: [self.Rdef(p, X(g)) for p in (2, 3, 4)]), ('the current value is positive', lambda g, T: X(g) >= 1)]
            for p, cond in ((4, n % 4 == 0), (2, z3.And(n % 4 != 0, n % 2 == 0)), (3, n % 2 != 0)):
                inv.append(('the current value has the same %d-free part' % p, lambda g, T, p=p, cond=cond: z3.Implies(cond, self.R(p, X(g)) == self.R(p, n))))
            return inv
        return hk

    def quot(self, v, st, n):
        """exact quotients by the p-free part"""
        c_, r, q, m = z3.Ints('qc qr qq qm')
        lem = Lemma(v, 'an exact quotient is unique', [c_, r, q, m], [c_ * r == r * q + m, m >= 0, m < r, r >= 1, c_ >= 0, q >= 0], z3.And(q == c_, m == 0))
        for p in (2, 3, 4):
            Rn = self.R(p, n)
            st.fact(v.div_axiom(n, Rn))
            Cn = self.C[p](n)
            st.fact(lem.at(Cn, Rn, TDIV(n, Rn), TMOD(n, Rn)))
            st.fact(v.div_axiom(n, Cn))
            st.fact(lem.at(Rn, Cn, TDIV(n, Cn), TMOD(n, Cn)))


def post(S, n, ty, k, E):
    """what the root of a plan for length n may be"""
    is_ = lambda t: ty == E[t]
    return [('composite: the factor is proper', z3.Implies(is_('composite'), z3.And(k >= 2, k < n, TMOD(n, k) == 0))),
            ('rader: a prime beyond the direct kernel', z3.Implies(is_('rader'), z3.And(S.PRIME(n), k == n - 1, n > 2))),
            ('direct kernel: the whole length', z3.Implies(is_('discrete'), k == n)),
            ('pow2: a power of two', z3.Implies(is_('pow2'), z3.And(S.is_pow(2, n), k == n))),
            ('pow3: a power of three', z3.Implies(is_('pow3'), z3.And(S.is_pow(3, n), k == n))),
            ('pow4: a power of four', z3.Implies(is_('pow4'), z3.And(S.is_pow(4, n), k == n))),
            ('a kernel is chosen', z3.Or(*[is_(t) for t in TYPES]))]


def kinds(v):
    return enumerators(v, 'heffte::stock::fft_type')


def prep(c):
    v = c.engine()
    S = Plan(v)
    st = State()
    n = v.fresh('n', I)
    st.fact(n >= 1)
    for p, stmt in S.parts(v):
        st.fact(stmt(n))
        st.fact(S.Rdef(p, n))
    S.quot(v, st, n)
    v.loop_hooks.append(S.hook(n))
    return v, S, st, n


def u_fptr(c):
    v, S, st, n = prep(c)
    fn = c.fn('heffte::stock::fptrFactorHelper')
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [n])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'the choice of the kernel does not throw')
    for g, r in rets:
        r = val(v, g, r)
        ty, k = zi(r.f['first']), zi(r.f['second'])
        for nm, goal in post(S, n, ty, k, kinds(v)):
            v.oblige(g, goal, nm)


def u_same_factor(c):
    v, S, st, n = prep(c)
    f1 = c.fn('heffte::stock::numNodesFactorHelper')
    f2 = c.fn('heffte::stock::fptrFactorHelper')
    rets, thr = c.run(v, st, f1, None, [n])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'the count of nodes does not throw')
    for g, k in rets:
        r2, t2 = c.run(v, g.copy(), f2, None, [n])
        for h, r in r2:
            r = val(v, h, r)
            v.oblige(h, zi(k) == zi(r.f['second']), 'counting and building decompose a length in the same way')


class Tree:
    """contracts of the decomposition, seen by the recursive functions"""

    def __init__(self, c, count=True):
        self.v = v = c.engine()
        self.S = S = Plan(v)
        self.K, self.TY, self.NODES = (v.fresh_fn(x, I, I) for x in ('K', 'TY', 'NODES'))
        self.E = kinds(v)
        v.contracts['heffte::stock::numNodesFactorHelper'] = lambda v_, st, fn, th, a: self.split(st, self.arg(st, a[0]))[1]
        v.contracts['heffte::stock::fptrFactorHelper'] = self.c_fptr

    def arg(self, st, x):
        return zi(self.v.load(st, x) if isinstance(x, LV) else x)

    def leaf(self, n):
        return z3.Or(*[self.TY(n) == self.E[t] for t in ('discrete', 'pow2', 'pow3', 'pow4')])

    def rader(self, n):
        return self.TY(n) == self.E['rader']

    def split(self, st, n):
        v = self.v
        v.oblige(st, n >= 1, 'a positive length is decomposed')
        ty, k = self.TY(n), self.K(n)
        for _, f in post(self.S, n, ty, k, self.E):
            st.fact(f)
        st.fact(z3.Implies(ty == self.E['composite'], v.div_axiom(n, k)))
        return ty, k

    def c_fptr(self, v, st, fn, this, args):
        n = self.arg(st, args[0])
        ty, k = self.split(st, n)
        r = v.havoc(ptype('std::pair<heffte::stock::fft_type, unsigned long>'), 'pr')
        st.fact(z3.And(zi(r.f['first']) == ty, zi(r.f['second']) == k))
        return r

    def nodes_def(self, n):
        # every count is at least 1 (by the same recursion: 1, or 1 plus counts)
        return z3.And(self.NODES(n) >= 1, self.NODES(self.K(n)) >= 1, self.NODES(TDIV(n, self.K(n))) >= 1, self.NODES(n) == z3.If(self.leaf(n), 1, 1 + self.NODES(self.K(n)) + z3.If(self.rader(n), 0, self.NODES(TDIV(n, self.K(n))))))


def u_count(c):
    T = Tree(c)
    v = T.v
    fn = c.fn('heffte::stock::getNumNodes')
    st = State()
    n = v.fresh('n', I)
    st.fact(n >= 1)
    st.fact(T.nodes_def(n))

    def rec(v_, s, f, th, a):
        m = T.arg(s, a[0])
        v.oblige(s, z3.And(m >= 1, m < n), 'the recursion goes to a smaller positive length')
        return T.NODES(m)
    v.contracts['heffte::stock::getNumNodes'] = rec
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [n])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'counting does not throw')
    for g, r in rets:
        v.oblige(g, zi(r) == T.NODES(n), 'the number of nodes is that of the decomposition')


NODE = {'float, 8': None, 'double, 4': None}


def u_tree(c, targs):
    T = Tree(c)
    v = T.v
    v.keep_paths = True
    E = T.E
    cls = 'heffte::stock::biFuncNode<%s>' % targs
    fn = c.fn('heffte::stock::init_fft_tree', sig='biFuncNode<%s>' % targs)
    GEN, ROOT, POWM = v.fresh_fn('generator', I, I, B), v.fresh_fn('root', I, I), v.fresh_fn('powm', I, I, I, I)
    st = State()
    n, pos = v.fresh('n', I), v.fresh('pos', I)
    A = v.havoc(ptype('std::vector<%s>' % cls), 'nodes')
    cell = v.newcell(st, A)
    st.fact(z3.And(n >= 1, pos >= 0, pos + T.NODES(n) <= A.len))
    st.fact(T.nodes_def(n))
    sz = lambda V, q: v.vget(V, q).f['sz']
    sub = lambda V, q: (v.vget(V, q).f['left'], v.vget(V, q).f['right'])

    def cons(V, q, hi):
        """node q is the root of a well formed plan inside [q, hi)"""
        x = v.vget(V, q)
        s, ty, l, r = x.f['sz'], zi(x.f['fptr'].f['type']), q + x.f['left'], q + x.f['right']
        comp, rad = ty == E['composite'], ty == E['rader']
        out = [f for nm, f in post(T.S, s, ty, z3.If(comp, sz(V, l), z3.If(rad, s - 1, s)), E)]
        inside = lambda k: z3.And(k > q, k + T.NODES(sz(V, k)) <= hi)
        out += [('the node has work space for its length', x.f['workspace'].len == s),
                ('composite: children inside the plan', z3.Implies(comp, z3.And(inside(l), inside(r)))),
                ('composite: the children do not share nodes', z3.Implies(comp, z3.Or(r >= l + T.NODES(sz(V, l)), l >= r + T.NODES(sz(V, r))))),
                ('composite: the lengths of the children multiply to the length', z3.Implies(comp, sz(V, l) * sz(V, r) == s)),
                ('rader: the child has length p-1 and lies inside the plan', z3.Implies(rad, z3.And(inside(l), sz(V, l) == s - 1))),
                ('rader: the root is a generator', z3.Implies(rad, GEN(x.f['fptr'].f['root'], s))),
                ('rader: the inverse belongs to the root', z3.Implies(rad, x.f['fptr'].f['root_inv'] == POWM(x.f['fptr'].f['root'], s - 2, s)))]
        return [o if isinstance(o, tuple) else ('kernel', o) for o in out]

    def c_root(v_, s, f, th, a):
        p = T.arg(s, a[0])
        v.oblige(s, T.S.PRIME(p), 'a generator is asked for a prime only')
        s.fact(GEN(ROOT(p), p))
        return ROOT(p)
    v.contracts['heffte::stock::primeRoot'] = c_root
    v.contracts['heffte::stock::modPow'] = lambda v_, s, f, th, a: POWM(*[T.arg(s, x) for x in a])
    seen = []

    def rec(v_, s, f, th, a):
        ptr = v.load(s, a[0]) if isinstance(a[0], LV) else a[0]
        m = T.arg(s, a[1])
        if ptr.cell != cell or tuple(ptr.path):
            v.oblige(s, z3.BoolVal(False), 'the sub-plan lies in the same array')
            return v.fresh('l', I)
        p = zi(ptr.off)
        v.oblige(s, z3.And(m >= 1, m < n), 'the recursion goes to a smaller positive length')
        s.fact(T.NODES(m) >= 1)
        v.oblige(s, z3.And(p > pos, p + T.NODES(m) <= pos + T.NODES(n)), 'the sub-plan fits the nodes of this plan')
        V = v.load(s, LV(cell))
        W_ = v.havoc(ptype('std::vector<%s>' % cls), 'nodes')
        q = z3.Int('q!t')
        mark = W_.len == V.len
        s.fact(mark)
        hi = p + T.NODES(m)
        s.fact(fa(q, z3.Implies(z3.Or(q < p, q >= hi), z3.And(*[z3.Select(x, q) == z3.Select(y, q) for x, y in zip(W_.m, V.m)])), [z3.Select(W_.m[0], q)]))
        s.fact(fa(q, z3.Implies(z3.And(q >= p, q < hi), z3.And(*[f for _, f in cons(W_, q, hi)])), [z3.Select(W_.m[0], q)]))
        s.fact(sz(W_, p) == m)
        v.store(s, LV(cell), W_)
        seen.append((W_, p, m, mark))
        return T.NODES(m)
    v.contracts['heffte::stock::init_fft_tree'] = rec
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [Ptr(cell, (), pos, None, None), n])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'building the plan does not throw')
    hi = pos + T.NODES(n)
    for g, r in rets:
        V = v.load(g, LV(cell))
        V = Vec(V.t, V.len, [z3.simplify(m) for m in V.m])
        v.oblige(g, zi(r) == T.NODES(n), 'the builder reports the number of nodes of the decomposition')
        v.oblige(g, z3.And(V.len == A.len, sz(V, pos) == n), 'the plan is rooted at the given node with the given length')
        q = v.fresh('q', I)
        h = g.copy()
        h.fact(z3.Or(q < pos, q >= hi))
        v.oblige(h, z3.And(*[z3.Select(x, q) == z3.Select(y, q) for x, y in zip(V.m, A.m)]), 'nothing outside the nodes of the plan is written', hints=[q])
        mine = [(W_, p, p + T.NODES(m)) for W_, p, m, k in seen if any(f.eq(k) for f in g.facts())]
        l, rr = sub(V, pos)
        rd = [pos] + [p for _, p, _ in mine]
        for nm, f in cons(V, pos, hi):
            v.oblige(g, f, 'root of the plan, ' + nm, hints=rd + [simp(pos + l), simp(pos + rr)])
        h = g.copy()
        h.fact(z3.And(q > pos, q < hi))
        v.oblige(h, z3.Or(*[z3.And(q >= p, q < e) for _, p, e in mine]) if mine else z3.BoolVal(False), 'every other node belongs to a sub-plan')
        for k, (W_, p, e) in enumerate(mine):
            h = g.copy()
            h.fact(z3.And(q >= p, q < e))
            v.oblige(h, z3.And(*[z3.Select(a, q) == z3.Select(b_, q) for a, b_ in zip(V.m, W_.m)]), 'sub-plan %d: its nodes are left alone' % k, hints=[q])
            own = cons(W_, q, e)
            h = State()
            for f in g.facts():
                h.fact(f)
            h.fact(z3.And(q >= p, q < e))
            for _, f in own:
                h.fact(f)
            for x in sub(W_, q):
                t = v.fresh('child', I)
                h2 = h.copy()
                h2.fact(z3.And(t == q + x, t > q, t < e))
                v.oblige(h2, sz(V, t) == sz(W_, t), 'sub-plan %d: the children of its nodes are left alone' % k, hints=[t])
            lim = State()
            for _, f in own:
                lim.fact(f)
            lim.fact(e <= hi)
            v.oblige(g, e <= hi, 'sub-plan %d lies inside the plan' % k)
            for nm, f in cons(W_, q, hi):
                v.oblige(lim, f, 'sub-plan %d: %s' % (k, nm))


class Powers:
    """powers and remainders: the lemmas that modular exponentiation rests on, for one modulus"""

    def __init__(self, v, m):
        self.v, self.m = v, m
        self.P = v.fresh_fn('power', I, I, I)
        P = self.P
        x, z, q1, r1, q2, r2 = z3.Ints('mx mz mq mr mqq mrr')
        # x = m q1 + r1, r1 z = m q2 + r2  ==>  x z = m (q1 z + q2) + r2
        h = State()
        for f in (x == m * q1 + r1, r1 * z == m * q2 + r2):
            h.fact(f)
        v.oblige(h, x * z == m * (q1 * z + q2) + r2, 'lemma: product with a remainder, as an identity', kind='lemma', where='lemma')
        a, c1, d1, c2, d2 = z3.Ints('ma mc md mcc mdd')
        h = State()
        for f in (m >= 1, m * c1 + d1 == m * c2 + d2, d1 >= 0, d1 < m, d2 >= 0, d2 < m, m * (c1 - c2) == d2 - d1, z3.Or(c1 == c2, m * (c1 - c2) >= m, m * (c1 - c2) <= -m)):
            h.fact(f)
        v.oblige(h, d1 == d2, 'lemma: the remainder is unique', kind='lemma', where='lemma')
        h = State()
        for f in (m >= 1, c1 != c2):
            h.fact(f)
        mono = mulmono_lemma(v)
        for i in (mono.at(1, c1 - c2, m), mono.at(1, c2 - c1, m)):
            h.fact(i)
        v.oblige(h, z3.Or(m * (c1 - c2) >= m, m * (c1 - c2) <= -m), 'lemma: different multiples are at least the modulus apart', kind='lemma', where='lemma')
        # induction over the exponent
        y = v.fresh('y', I)
        step = lambda b_: (lambda k: [P(b_, z3.IntVal(0)) == 1, z3.Implies(k >= 0, P(b_, k + 1) == b_ * P(b_, k))])
        self.nonneg = induction(v, 'powers of non-negative numbers are not negative', 'e', lambda k: P(y, k) >= 0,
                                lambda k: step(y)(k) + [mono.at(0, P(y, k), y)], hyps=[y >= 0])
        self.double = induction(v, 'the power with the doubled exponent is the power of the square', 'e', lambda k: P(y, 2 * k) == P(y * y, k),
                                lambda k: step(y)(2 * k) + step(y)(2 * k + 1) + step(y * y)(k) + [P(y, 2 * (k + 1)) == P(y, 2 * k + 2)])
        My = self.M(y)
        self.cong = induction(v, 'powers of congruent numbers are congruent', 'e', lambda k: z3.And(self.M(P(My, k)) == self.M(P(y, k)), P(My, k) >= 0, P(y, k) >= 0),
                              lambda k: step(y)(k) + step(My)(k) + [self.mulmod(y, P(My, k)), self.mulmod(P(My, k), y), self.mulmod(P(y, k), y), v.div_axiom(y, m),
                                                                   mono.at(0, P(y, k), y), mono.at(0, P(My, k), My)], hyps=[y >= 0, m >= 2])
        self.y = y

    def M(self, x):
        return TMOD(zi(x), self.m)

    def mulmod(self, x, z):
        """(x mod m) z and x z leave the same remainder"""
        return z3.Implies(z3.And(x >= 0, z >= 0), self.M(self.M(x) * z) == self.M(x * z))

    def at(self, f, y, k):
        return z3.substitute(f(k), (self.y, zi(y)))


def u_modpow(c):
    v = c.engine()
    st = State()
    b0, e0, m = v.fresh('base', I), v.fresh('exponent', I), v.fresh('mod', I)
    st.fact(z3.And(b0 >= 0, e0 >= 0, m >= 2))
    L = Powers(v, m)
    P, M = L.P, L.M
    x, z = v.fresh('x', I), v.fresh('z', I)
    r, b_, e, h = (v.fresh(k, I) for k in ('r', 'b', 'e', 'h'))

    def one_step(odd, r, b_, e, h):
        nr = M(r * b_) if odd else r
        return z3.Implies(z3.And(r >= 0, b_ >= 0, e == (2 * h + 1 if odd else 2 * h), h >= 0), M(nr * P(M(b_ * b_), h)) == M(r * P(b_, e)))
    for odd in (True, False):
        bb, b2 = b_ * b_, M(b_ * b_)
        base = State()
        for f in (r >= 0, b_ >= 0, h >= 0, bb >= 0, r * b_ >= 0, m >= 2, v.div_axiom(bb, m), v.div_axiom(r * b_, m), v.div_axiom(r, m)):
            base.fact(f)
        g = base.copy()
        for f in (L.at(L.cong, bb, h), L.at(L.nonneg, bb, h)):
            g.fact(f)
        v.oblige(g, z3.And(P(b2, h) >= 0, P(bb, h) >= 0, M(P(b2, h)) == M(P(bb, h))), 'lemma: the power of the reduced square', kind='lemma', where='lemma')
        X, p1, p2 = v.fresh('X', I), v.fresh('p', I), v.fresh('pp', I)
        if odd:
            g = State()
            for f in (X >= 0, p1 >= 0, p2 >= 0, M(p1) == M(p2), L.mulmod(p1, X), L.mulmod(p2, X), L.mulmod(X, p1)):
                g.fact(f)
            v.oblige(g, z3.And(M(p1 * X) == M(p2 * X), M(M(X) * p1) == M(p2 * X)), 'lemma: congruent factors may be exchanged', kind='lemma', where='lemma')
        g = base.copy()
        for f in (P(b2, h) >= 0, P(bb, h) >= 0, L.at(L.double, b_, h), P(b_, 2 * h + 1) == b_ * P(b_, 2 * h), e == (2 * h + 1 if odd else 2 * h),
                  M(P(b2, h) * (r * b_ if odd else r)) == M(P(bb, h) * (r * b_ if odd else r)), M(M(r * b_) * P(b2, h)) == M(P(bb, h) * (r * b_))):
            g.fact(f)
        g.fact(P(b_, e) == (b_ * P(bb, h) if odd else P(bb, h)))
        v.oblige(g, one_step(odd, r, b_, e, h), 'lemma: one %s step keeps the product' % ('odd' if odd else 'even'), kind='lemma', where='lemma')
    fn = c.fn('heffte::stock::modPow')

    def hook(v_, s0, node, order, N):
        lf = {}
        for l in order:
            if l.kind == 'z':
                for nm, t in (('base', b0), ('exp', e0)):
                    if is_start(l, t):
                        lf.setdefault(nm, l)
                if conc(simp(zi(l.x0))) == 1:
                    lf.setdefault('ret', l)
        if len(lf) != 3:
            return []
        get = lambda g, k: zi(v.leaf_get(g, lf[k]))

        def lem(g, T):
            r, b_, e = get(g, 'ret'), get(g, 'base'), get(g, 'exp')
            h = e / 2
            out = [one_step(True, r, b_, e, h), one_step(False, r, b_, e, h), e == 2 * h + e % 2, P(b_, z3.IntVal(0)) == 1, v.div_axiom(r * b_, m), v.div_axiom(b_ * b_, m), v.div_axiom(r, m),
                   b_ * b_ >= 0, z3.Implies(z3.And(r >= 0, b_ >= 0), r * b_ >= 0)]
            return out
        return [('lemma', lem), ('the exponent is not negative', lambda g, T: get(g, 'exp') >= 0), ('the base is not negative', lambda g, T: get(g, 'base') >= 0),
                ('the result is reduced', lambda g, T: z3.And(get(g, 'ret') >= 0, get(g, 'ret') < m)),
                ('result times the remaining power is the requested power', lambda g, T: M(get(g, 'ret') * P(get(g, 'base'), get(g, 'exp'))) == M(P(b0, e0)))]
    v.loop_hooks.append(hook)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [b0, e0, m])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'modPow does not throw')
    for g, r in rets:
        v.oblige(g, zi(r) == M(P(b0, e0)), 'modPow(b, e, m) is b to the power e modulo m', hints=[])


def u_root(c):
    v = c.engine()
    st = State()
    p = v.fresh('p', I)
    st.fact(p >= 3)
    POWM = v.fresh_fn('powm', I, I, I, I)
    QUOT = v.fresh_fn('quotient', I, B)          # (p-1)/q for a prime divisor q of p-1
    x = z3.Int('x!r')
    lists = []

    def c_factors(v_, s, f, th, a):
        n = zi(v.load(s, a[0]) if isinstance(a[0], LV) else a[0])
        v.oblige(s, n == p - 1, 'the prime divisors of the order of the group are requested')
        F = v.havoc(ptype('std::vector<unsigned long>'), 'quotients')
        s.fact(F.len >= 1)
        pos = v.fresh_fn('position', I, I)
        s.fact(fa(x, z3.Implies(QUOT(x), z3.And(pos(x) >= 0, pos(x) < F.len, v.vget(F, pos(x)) == x)), [QUOT(x)]))
        lists.append(F)
        return F
    v.contracts['heffte::stock::findFactorRader'] = c_factors

    def c_pow(v_, s, f, th, a):
        b_, e, m = (zi(v.load(s, k) if isinstance(k, LV) else k) for k in a)
        v.oblige(s, m == p, 'powers are taken modulo p')
        return POWM(b_, e, m)
    v.contracts['heffte::stock::modPow'] = c_pow

    fn = c.fn('heffte::stock::primeRoot')
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [p])
    y = v.fresh('y', I)
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'primeRoot does not throw')
    for g, r in rets:
        r = zi(r)
        h = g.copy()
        h.fact(QUOT(y))
        v.oblige(h, POWM(r, y, p) != 1, 'no power with a prime quotient of the group order is 1, so the result generates the group', hints=[y, r, r - 1, r - 2, lists[0].len])
        v.oblige(g, r >= 2, 'the root is at least 2')


PLANS = ['plan_stock_fft<%s, %d>' % (t, d) for t in ('float', 'double', 'std::complex<float>', 'std::complex<double>') for d in (0, 1)]


def u_plan(c, cls):
    """the constructor of the plan allocates the nodes it builds"""
    v = c.engine()
    NODES = v.fresh_fn('NODES', I, I)
    cn = v.cls('heffte::' + cls)
    done = 0
    for fn in v.ctors(cn):
        nps = len(v.ast.params(fn))
        if fn.d.get('isImplicit') or nps < 3:
            continue
        done += 1
        st = State()
        args = [v.fresh('arg', I) for _ in range(nps)]
        n = args[0]
        st.fact(n >= 1)
        built = []

        def num(s, a):
            return zi(v.load(s, a) if isinstance(a, LV) else a)

        def c_count(v_, s, f, th, a):
            x = num(s, a[0])
            v.oblige(s, x == n, 'the nodes of the requested length are counted')
            s.fact(NODES(x) >= 1)
            return NODES(x)

        def c_tree(v_, s, f, th, a):
            ptr = v.load(s, a[0]) if isinstance(a[0], LV) else a[0]
            x = num(s, a[1])
            V = v.load(s, LV(ptr.cell, ptr.path))
            v.oblige(s, x == n, 'the plan is built for the requested length')
            v.oblige(s, z3.And(zi(ptr.off) == 0, V.len >= NODES(x)), 'the plan is built in an array with room for all its nodes')
            built.append((s, ptr.cell))
            return NODES(x)
        v.contracts['heffte::stock::getNumNodes'] = c_count
        v.contracts['heffte::stock::init_fft_tree'] = c_tree
        this = LV(v.newcell(st, Struct(cn.d['_q'], {f: v.default(t) for f, t, _ in v.fields(cn)})))
        c.live(v, st)
        rets, thr = c.run(v, st, fn, this, args)
        for g, _ in thr:
            v.oblige(g, z3.BoolVal(False), 'the constructor does not throw')
        v.oblige(st, z3.BoolVal(len(built) == 1), 'the plan is built once')
        for g, _ in rets:
            o = v.load(g, this)
            v.oblige(g, zi(o.f['N']) == n, 'the plan keeps its length')
            v.oblige(g, z3.BoolVal(o.f['root'].cell == built[0][1]), 'the plan keeps the nodes that were built')
    if not done:
        raise Unsupported('constructor of ' + cls)


UNITS = UNITS + [Unit('factor', u_factor)]
UNITS = UNITS + [Unit('fptrFactorHelper', u_fptr)]
UNITS = UNITS + [Unit('numNodesFactorHelper', u_same_factor), Unit('getNumNodes', u_count)]
UNITS = UNITS + [Unit('init_fft_tree<%s>' % t, lambda c, t=t: u_tree(c, t)) for t in NODE]
UNITS = UNITS + [Unit('modPow', u_modpow)]
UNITS = UNITS + [Unit('primeRoot', u_root)]
UNITS = UNITS + [Unit(k, lambda c, k=k: u_plan(c, k)) for k in PLANS]
ASSUMES = ['findFactorRader(m) contains m/q for every prime q dividing m (bounded check by the harness); an element none of whose powers (p-1)/q is 1 generates the group modulo p (Mathlib: orderOf_eq_of_pow_and_pow_div_prime)']
NOTE = 'every obligation of the contract units is discharged for all lengths, except that the list of prime quotients (findFactorRader) is assumed by contract and only checked by the bounded harness; integers are mathematical, loops are assumed to terminate'
