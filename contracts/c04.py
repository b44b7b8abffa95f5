"""C04: pencil and slab layouts."""
import z3
from dv.spec import *

DRIVER = 'geometry'
HARNESS = [{'name': 'geometry', 'sources': ['src/heffte_plan_logic.cpp'], 'timeout': 120}]
AB = z3.ArraySort(I, B)


def boxes(v, name, cls):
    return v.havoc(ptype('std::vector<%s>' % cls), name)


def fa(vs, f, pats=None):
    vs = vs if isinstance(vs, list) else [vs]
    return z3.ForAll(vs, f, patterns=pats) if pats else z3.ForAll(vs, f)


class Taken:
    """ghost state of the assignment loop: the tile chosen in every iteration, the number of taken tiles"""

    def __init__(self, v, n, idle):
        self.v, self.n, self.idle = v, n, idle
        self.card = v.fresh_fn('card', AB, I, I)       # number of true entries of A[0..m)
        self.P = v.fresh_fn('participants', I, I)      # participating ranks among the first q
        self.miss = v.fresh_fn('missing', AB, I)       # an entry of A[0..n) that is false, if there is one
        self.diff = v.fresh_fn('changed', AB, AB, I)   # an index where two arrays differ, if there is one
        self.leaf = None
        A, k = z3.Const('A!card', AB), z3.Int('k!card')
        c, P = self.card, self.P
        one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
        cd = lambda A: (lambda m: [c(A, z3.IntVal(0)) == 0, c(A, m + 1) == c(A, m) + one(A[m])])
        pd = lambda m: [P(z3.IntVal(0)) == 0, P(m + 1) == P(m) + one(z3.Not(idle(m)))]
        self.pd, self.cd = pd, cd
        self.bound = induction(v, 'a set of flags has at most m members', 'm', lambda m: z3.And(c(A, m) <= m, c(A, m) >= 0), cd(A))
        j = z3.Int('j!card')
        self.full = induction(v, 'fewer than m members leave a free entry', 'm',
                              lambda m: z3.Implies(fa(j, z3.Implies(z3.And(j >= 0, j < m), A[j])), c(A, m) == m), cd(A))
        S = z3.Store(A, k, z3.BoolVal(True))
        self.add = induction(v, 'setting a free entry adds one member', 'm',
                             lambda m: c(S, m) == c(A, m) + one(z3.And(k >= 0, k < m, z3.Not(A[k]))), lambda m: cd(A)(m) + cd(S)(m))
        self.comp = induction(v, 'idle and participating ranks add up', 'm',
                              lambda m: z3.Implies(fa(j, z3.Implies(z3.And(j >= 0, j < m), A[j] == idle(j))), c(A, m) + P(m) == m),
                              lambda m: cd(A)(m) + pd(m))
        q0 = v.fresh('q0', I)
        self.pmono = induction(v, 'participants are counted monotonically', 'm', lambda m: P(q0 + m) >= P(q0), lambda m: [P(q0 + m + 1) == P(q0 + m) + one(z3.Not(idle(q0 + m)))])
        self.A, self.k, self.q0, self.one = A, k, q0, one

    def inst(self, f, *pairs):
        return z3.substitute(f, *[(a, zi(b) if not z3.is_array(b) else b) for a, b in pairs])

    def G(self, q):
        X = self.leaf.X
        return self.diff(X(q), X(q + 1))

    def differs(self, B1, B2):
        y, d = z3.Int('y!d'), self.diff(B1, B2)
        return fa(y, z3.Implies(B1[y] != B2[y], B1[d] != B2[d]), [B2[y]])

    def keep(self, lf, order):
        return lf.x0.sort() == AB and any(o.kind == 'vlen' for o in order)

    def hook(self, v, st, node, order, N):
        lf = [l for l in order if l.kind == 'varr' and l.X is not None and l.x0.sort() == AB and l.how.startswith('recursion')]
        if len(lf) != 1:
            return None
        lf = self.leaf = lf[0]
        n, idle, c = self.n, self.idle, self.card
        X0 = lf.x0
        j, q = z3.Ints('j!inv q!inv')
        v.oblige(st, fa(j, z3.Implies(z3.And(j >= 0, j < n), X0[j] == idle(j))), 'tiles of idle ranks, and no others, are reserved at the start', kind='invariant')
        st.fact(fa(j, z3.Implies(z3.And(j >= 0, j < n), X0[j] == idle(j))))
        G, X = self.G, lf.X
        get = lambda s: v.leaf_get(s, lf)
        inv = [
            ('every tile handed out so far is marked as taken', lambda s, T: fa(q, z3.Implies(z3.And(q >= 0, q < T, z3.Not(idle(q))), z3.And(G(q) >= 0, G(q) < n, get(s)[G(q)], z3.Not(idle(G(q))))), [X(q)])),
            ('no tile is handed out twice', lambda s, T: fa([q, j], z3.Implies(z3.And(q >= 0, q < j, j < T, z3.Not(idle(q)), z3.Not(idle(j))), G(q) != G(j)), [z3.MultiPattern(X(q), X(j))])),
            ('a taken tile belongs to an idle rank or was handed out', lambda s, T: fa(j, z3.Implies(z3.And(j >= 0, j < n, get(s)[j]), z3.Or(idle(j), z3.Exists([q], z3.And(q >= 0, q < T, z3.Not(idle(q)), G(q) == j)))))),
            ('tiles of idle ranks stay reserved', lambda s, T: fa(j, z3.Implies(z3.And(j >= 0, j < n, idle(j)), get(s)[j]))),
            ('one tile is taken per participating rank', lambda s, T: c(get(s), n) == c(X0, n) + self.P(T)),
        ]

        def lem(s, T):
            Xa = get(s)
            d = self.diff(X(T), X(T + 1))
            k = self.k
            full = z3.Implies(c(Xa, n) < n, z3.And(self.miss(Xa) >= 0, self.miss(Xa) < n, z3.Not(Xa[self.miss(Xa)])))
            out = [full, self.comp(n) if False else self.inst(self.comp(n), (self.A, X0)), self.inst(self.bound(n), (self.A, Xa))] + self.pd(T)
            # participants from T+1 on are counted monotonically up to n
            out.append(z3.Implies(n - (T + 1) >= 0, self.P(n) >= self.P(T + 1)))
            # two different arrays differ at the index `changed` names
            B1, B2 = X(T), X(T + 1)
            out.append(self.differs(B1, B2))
            out.append(z3.And(c(z3.Store(B1, d, z3.BoolVal(True)), n) == c(B1, n) + self.one(z3.And(d >= 0, d < n, z3.Not(B1[d])))))
            return out
        return inv + [('lemma', lem)]


def u_maxov(c, cls='heffte::box3d<int>', remap=False):
    fn = c.fn('heffte::maximize_overlap', targs=[cls.split('<')[1][:-1]])
    v = c.engine()
    v.assert_mode = 'oblige'
    st = State()
    nb, ob = boxes(v, 'new', cls), boxes(v, 'old', cls)
    od = v.havoc(ptype('std::array<int, 3>'), 'order')
    rm = v.havoc(ptype('heffte::rank_remap'), 'remap')
    n = nb.len
    st.fact(z3.And(n >= 1, ob.len == n, rm.f['map'].len == (n if remap else 0)))
    mp = rm.f['map'].m[0]
    idle = (lambda j: mp[j] == -1) if remap else (lambda j: z3.BoolVal(False))
    tk = Taken(v, n, idle)
    v.loop_hooks.append(tk.hook)
    v.keep_recursive = tk.keep
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, nb)), LV(v.newcell(st, ob)), od, LV(v.newcell(st, rm))])
    for s, r in thr:
        v.oblige(s, z3.BoolVal(False), 'maximize_overlap does not fail')
    for s, r in rets:
        v.oblige(s, r.len == n, 'one box per rank')
        if tk.leaf is None:
            raise Unsupported('no loop-carried set of taken tiles')
        q = v.fresh('q', I)
        g = s.copy()
        g.fact(z3.And(q >= 0, q < n))
        if remap:
            k = g.copy()
            k.fact(idle(q))
            e = read_elem(v, k, r, q, [[q]], 'maximize_overlap (idle)')
            v.oblige(k, z3.And(*[x == y for x, y in zip(arr(e, 'order'), od.e)]), 'empty boxes carry the requested order')
            own = v.vget(nb, q)
            v.oblige(k, z3.And(*[x == y for f in ('low', 'high') for x, y in zip(arr(e, f), arr(own, f))]), 'idle ranks keep their own (empty) box')
        p = g.copy()
        p.fact(z3.Not(idle(q)))
        e = read_elem(v, p, r, q, [[q]], 'maximize_overlap')
        v.oblige(p, z3.And(*[x == y for x, y in zip(arr(e, 'order'), od.e)]), 'every box carries the requested order')
        G = tk.G(q)
        src = v.vget(nb, G)
        p.fact(tk.differs(tk.leaf.X(q), tk.leaf.X(q + 1)))
        v.oblige(p, z3.And(G >= 0, G < n, z3.Not(idle(G))), 'participating ranks get an available tile', hints=[q])
        at = arr(e, 'low')[0]
        if not z3.is_select(at):
            raise Unsupported('the stored box is not one of the tiles: ' + str(at)[:200])
        at = at.arg(1)
        v.oblige(p, at == G, 'the tile stored is the one that was marked', hints=[q, at])
        p.fact(at == G)
        v.oblige(p, z3.And(*[x == y for f in ('low', 'high') for x, y in zip(arr(e, f), arr(src, f))]), 'participating ranks get exactly the tile chosen for them', hints=[q])
        v.oblige(p, z3.And(*[z == h - l + 1 for l, h, z in zip(arr(e, 'low'), arr(e, 'high'), arr(e, 'size'))]), 'box invariant')


# ------------------------------------------------------------------ contracts of the callees (each proved by its own unit)
def val(v, st, x):
    return v.load(st, x) if isinstance(x, LV) else x


def idle_of(rm):
    mp = rm.f['map']
    return lambda j: z3.And(mp.len > 0, mp.m[0][j] == -1)


def split_contract(v, st, fn, this, args):
    """split_world (proved in C02): one box per grid cell, respectively per entry of the participation map; with a grid of
    one along an axis every box spans the world along that axis"""
    w, g, rm = (val(v, st, a) for a in args)
    w3 = list(zip(arr(w, 'low'), arr(w, 'high'), arr(w, 'size')))
    v.oblige(st, z3.And(*[x >= 1 for x in g.e]), 'precondition of split_world: a positive grid', kind='pre')
    r = boxes(v, 'split', w.cls)
    mp = rm.f['map']
    v.oblige(st, z3.Or(mp.len == 0, v.world_n == g.e[0] * g.e[1] * g.e[2]), 'precondition of split_world: the map refers to the cells of the grid', kind='pre')
    st.fact(r.len == z3.If(mp.len == 0, g.e[0] * g.e[1] * g.e[2], mp.len))
    q = z3.Int('q!sp')
    b = v.vget(r, q)
    idle = idle_of(rm)(q)
    lo, hi, sz = arr(b, 'low'), arr(b, 'high'), arr(b, 'size')
    st.fact(fa(q, z3.Implies(z3.And(q >= 0, q < r.len), z3.And(*[z3.If(idle, z3.And(lo[d] == 0, hi[d] == -1, sz[d] == 0),
            z3.And(sz[d] == hi[d] - lo[d] + 1, z3.Implies(g.e[d] == 1, z3.And(lo[d] == w3[d][0], hi[d] == w3[d][1], sz[d] == w3[d][2])))) for d in range(3)])), [lo[0]]))
    return r


def maximize_contract(v, st, fn, this, args):
    """maximize_overlap (proved above)"""
    nb, ob, od, rm = (val(v, st, a) for a in args)
    mp = rm.f['map']
    v.oblige(st, z3.And(nb.len >= 1, ob.len == nb.len, z3.Or(mp.len == 0, mp.len == nb.len)), 'precondition of maximize_overlap: one tile and one source box per rank', kind='pre')
    r = boxes(v, 'max', v.box_cls)
    G = v.fresh_fn('tile', I, I)
    q, j = z3.Ints('q!mx j!mx')
    b, src, own = v.vget(r, q), v.vget(nb, G(q)), v.vget(nb, q)
    same = lambda x, y: z3.And(*[a == c for f in ('low', 'high', 'size') for a, c in zip(arr(x, f), arr(y, f))])
    idle = idle_of(rm)
    st.fact(r.len == nb.len)
    body = z3.And(z3.And(*[x == y for x, y in zip(arr(b, 'order'), od.e)]),
                  z3.If(idle(q), same(b, own), z3.And(same(b, src), G(q) >= 0, G(q) < nb.len, z3.Not(idle(G(q))))))
    st.fact(fa(q, z3.Implies(z3.And(q >= 0, q < nb.len), body), [arr(b, 'low')[0]]))
    st.fact(fa([q, j], z3.Implies(z3.And(q >= 0, q < j, j < nb.len, z3.Not(idle(q)), z3.Not(idle(j))), G(q) != G(j)), [z3.MultiPattern(G(q), G(j))]))
    v.max_calls = getattr(v, 'max_calls', []) + [(r, nb, G)]
    return r


def count_contract(v, st, fn, this, args):
    r = v.fresh('connections', I)
    st.fact(r >= 0)
    return r


def grid2d_contract(v, st, fn, this, args):
    """make_procgrid2d (proved in C03): one along the pencil direction, the 2-D grid along the two others"""
    w, d, g = (val(v, st, a) for a in args)
    r = v.havoc(ptype('std::array<int, 3>'), 'grid3')
    v.oblige(st, z3.And(g.e[0] >= 1, g.e[1] >= 1), 'precondition of make_procgrid2d: a positive grid', kind='pre')
    for k in range(3):
        st.fact(z3.And(r.e[k] >= 1, z3.Implies(d == k, r.e[k] == 1)))
    st.fact(r.e[0] * r.e[1] * r.e[2] == g.e[0] * g.e[1])
    return r


def reorder_contract(v, st, fn, this, args):
    s, od = (val(v, st, a) for a in args)
    r = boxes(v, 'reordered', v.box_cls)
    st.fact(r.len == s.len)
    q = z3.Int('q!ro')
    b, x = v.vget(r, q), v.vget(s, q)
    st.fact(fa(q, z3.Implies(z3.And(q >= 0, q < s.len), z3.And(z3.And(*[a == c for a, c in zip(arr(b, 'order'), od.e)]),
            z3.And(*[a == c for f in ('low', 'high') for a, c in zip(arr(b, f), arr(x, f))]), z3.And(*[z == h - l + 1 for l, h, z in zip(arr(b, 'low'), arr(b, 'high'), arr(b, 'size'))]))), [arr(b, 'low')[0]]))
    v.reordered = (r, s)
    return r


def all_span(v, s, w, dims, n):
    q = z3.Int('q!span')
    b = v.vget(s, q)
    return fa(q, z3.Implies(z3.And(q >= 0, q < n), z3.And(*[z3.Select(arr(b, 'size')[d].arg(0), q) == arr(w, 'size')[d] for d in dims])), [arr(b, 'size')[dims[0]]])


def pencils_contract(v, st, fn, this, args):
    w, s, d = (val(v, st, a) for a in args)
    d = conc(d)
    r = v.fresh('is_pencils', B)
    st.fact(r == all_span(v, s, w, [d], s.len))
    v.was_pencils = r
    return r


def u_is(c, slab, cls='heffte::box3d<int>'):
    it = cls.split('<')[1][:-1]
    name = 'is_slab' if slab else 'is_pencils'
    for dims in ([(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)] if slab else [(0,), (1,), (2,)]):
        fn = c.fn('heffte::' + name, targs=[it])
        v = c.engine()
        st = State()
        w = box(v, 'w', cls)
        s = boxes(v, 'shape', cls)
        st.fact(s.len >= 0)
        c.live(v, st)
        rets, thr = c.run(v, st, fn, None, [w, LV(v.newcell(st, s))] + [z3.IntVal(d) for d in dims])
        for s1, r in rets:
            r = asb(r)
            q = v.fresh('q', I)
            b = v.vget(s, q)
            hit = z3.And(q >= 0, q < s.len, z3.Or(*[arr(b, 'size')[d] != arr(w, 'size')[d] for d in dims]))
            g = s1.copy()
            g.fact(z3.And(r, hit))
            v.oblige(g, z3.BoolVal(False), '%s%s: yes only if every box spans the requested dimensions' % (name, dims), hints=[q])
            g = s1.copy()
            g.fact(z3.Not(r))
            g.fact(all_span(v, s, w, list(dims), s.len))
            v.oblige(g, z3.BoolVal(False), '%s%s: no only if some box does not span them' % (name, dims))


def u_reorder(c, cls='heffte::box3d<int>'):
    fn = c.fn('heffte::reorder', targs=[cls.split('<')[1][:-1]])
    v = c.engine()
    st = State()
    s = boxes(v, 'shape', cls)
    st.fact(s.len >= 0)
    od = v.havoc(ptype('std::array<int, 3>'), 'order')
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, s)), od])
    for s1, r in rets:
        v.oblige(s1, r.len == s.len, 'reorder: one box per rank')
        q = v.fresh('q', I)
        g = s1.copy()
        g.fact(z3.And(q >= 0, q < s.len))
        b = read_elem(v, g, r, q, [[q]], 'reorder')
        x = v.vget(s, q)
        v.oblige(g, z3.And(*[a == c_ for f in ('low', 'high') for a, c_ in zip(arr(b, f), arr(x, f))]), 'reorder: same corners, rank by rank')
        v.oblige(g, z3.And(*[a == c_ for a, c_ in zip(arr(b, 'order'), od.e)]), 'reorder: the requested storage order')
        v.oblige(g, z3.And(*[z == h - l + 1 for l, h, z in zip(arr(b, 'low'), arr(b, 'high'), arr(b, 'size'))]), 'reorder: box invariant')


def layout_setup(c, cls, remap):
    v = c.engine()
    v.assert_mode = 'oblige'
    v.box_cls = cls
    for nm, h in (('split_world', split_contract), ('maximize_overlap', maximize_contract), ('count_connections', count_contract),
                  ('make_procgrid2d', grid2d_contract), ('reorder', reorder_contract), ('is_pencils', pencils_contract)):
        v.contracts['heffte::' + nm] = h
    st = State()
    w = box(v, 'w', cls)
    st.fact(box_inv(w))
    st.fact(nonempty(w))
    src = boxes(v, 'source', cls)
    od = v.havoc(ptype('std::array<int, 3>'), 'order')
    rm = v.havoc(ptype('heffte::rank_remap'), 'remap')
    st.fact(src.len >= 1)
    st.fact(rm.f['map'].len == src.len if remap else rm.f['map'].len == 0)
    return v, st, w, src, od, rm


def check_layout(v, s, r, w, src, od, rm, dims, what):
    q, j = v.fresh('q', I), v.fresh('j', I)
    idle = idle_of(rm)
    v.oblige(s, r.len == src.len, what + ': one box per rank')
    g = s.copy()
    g.fact(z3.And(q >= 0, q < r.len))
    b = v.vget(r, q)
    v.oblige(g, z3.And(*[x == y for x, y in zip(arr(b, 'order'), od.e)]), what + ': every box carries the requested order', hints=[q])
    p = g.copy()
    p.fact(z3.Not(idle(q)))
    hs = [q] + [G(q) for _, _, G in getattr(v, 'max_calls', [])]
    v.oblige(p, z3.And(*[z3.And(arr(b, 'size')[d] == arr(w, 'size')[d]) for d in dims]), what + ': every box spans the complete requested dimensions', hints=hs)


def u_slabs(c, remap, cls='heffte::box3d<int>'):
    fn = c.fn('heffte::make_slabs', targs=[cls.split('<')[1][:-1]])
    for dims in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)):
        v, st, w, src, od, rm = layout_setup(c, cls, remap)
        n = v.fresh('num_slabs', I)
        st.fact(n >= 1)
        if not remap:
            st.fact(src.len == n)
        v.world_n = n
        c.live(v, st)
        rets, thr = c.run(v, st, fn, None, [w, n, z3.IntVal(dims[0]), z3.IntVal(dims[1]), LV(v.newcell(st, src)), od, LV(v.newcell(st, rm))])
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), 'make_slabs does not fail')
        for s, r in rets:
            check_layout(v, s, r, w, src, od, rm, dims, 'make_slabs%s' % (dims,))


def u_pencils(c, remap, cls='heffte::box3d<int>'):
    fn = c.fn('heffte::make_pencils', targs=[cls.split('<')[1][:-1]])
    for d in range(3):
        v, st, w, src, od, rm = layout_setup(c, cls, remap)
        g = v.havoc(ptype('std::array<int, 2>'), 'grid')
        st.fact(z3.And(g.e[0] >= 1, g.e[1] >= 1))
        n = g.e[0] * g.e[1]
        st.fact(n >= 1)
        if not remap:
            st.fact(src.len == n)
        v.world_n = n
        c.live(v, st)
        rets, thr = c.run(v, st, fn, None, [w, g, z3.IntVal(d), LV(v.newcell(st, src)), od, LV(v.newcell(st, rm))])
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), 'make_pencils does not fail')
        for s, r in rets:
            r = val(v, s, r)
            q = v.fresh('q', I)
            k = s.copy()
            k.fact(v.was_pencils)
            k.fact(z3.And(q >= 0, q < src.len))
            # a source that already has the shape is kept rank by rank, idle ranks included
            b, x = v.vget(r, q), v.vget(src, q)
            v.oblige(k, z3.And(*[a == c_ for f in ('low', 'high') for a, c_ in zip(arr(b, f), arr(x, f))]), 'make_pencils(%d): a source of pencils is kept rank by rank' % d, hints=[q])
            k = s.copy()
            k.fact(v.was_pencils)
            v.oblige(k, z3.And(r.len == src.len), 'make_pencils(%d): a source of pencils keeps one box per rank' % d)
            k = s.copy()
            k.fact(z3.Not(v.was_pencils))
            check_layout(v, k, r, w, src, od, rm, [d], 'make_pencils(%d)' % d)


L3 = 'heffte::box3d<long long>'
UNITS = [Unit('maximize_overlap<int>', u_maxov),
         Unit('maximize_overlap<int> with participation map', lambda c: u_maxov(c, remap=True)),
         Unit('maximize_overlap<long long>', lambda c: u_maxov(c, cls=L3)),
         Unit('is_pencils<int>', lambda c: u_is(c, False)),
         Unit('is_slab<int>', lambda c: u_is(c, True)),
         Unit('is_pencils<long long>', lambda c: u_is(c, False, L3)),
         Unit('is_slab<long long>', lambda c: u_is(c, True, L3)),
         Unit('reorder<int>', u_reorder),
         Unit('reorder<long long>', lambda c: u_reorder(c, L3)),
         Unit('make_slabs<int>', lambda c: u_slabs(c, False)),
         Unit('make_slabs<int> with participation map', lambda c: u_slabs(c, True)),
         Unit('make_pencils<int>', lambda c: u_pencils(c, False)),
         Unit('make_pencils<int> with participation map', lambda c: u_pencils(c, True))]
