"""C02: split_world tiles the world exactly, remap hands out the same boxes to the participating ranks."""
import z3
from dv.spec import *

DRIVER = 'geometry'
HARNESS = [{'name': 'geometry', 'sources': ['src/heffte_plan_logic.cpp'], 'timeout': 120}]


def call_split(c, cls, remap):
    it = 'int' if cls.endswith('<int>') else 'long long'
    fn = c.fn('heffte::split_world', targs=[it])
    v = c.engine()
    st = State()
    w = box(v, 'w', cls)
    st.fact(box_inv(w))
    st.fact(nonempty(w))
    pg = v.havoc(ptype('std::array<int, 3>'), 'p')
    for x in pg.e:
        st.fact(x >= 1)
    rm = v.havoc(ptype('heffte::rank_remap'), 'remap')
    mp = rm.f['map']
    st.fact(mp.len >= 1 if remap else mp.len == 0)
    if remap:
        u = z3.Int('u!m')
        st.fact(z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < mp.len), z3.And(z3.Select(mp.m[0], u) >= -1, z3.Select(mp.m[0], u) < pg.e[0] * pg.e[1] * pg.e[2])), patterns=[z3.Select(mp.m[0], u)]))
    cells = [LV(v.newcell(st, x)) for x in (w, pg, rm)]
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, cells)
    for s, _ in thr:
        v.oblige(s, z3.BoolVal(False), 'split_world does not throw')
    return v, w, pg.e, rm, rets


def axis_tiling(v, s, name, lo, hi, i, p, low, high):
    """lo/hi: corner expressions along one axis as functions of the grid index i (a constant)"""
    f = lambda e, x: z3.substitute(e, (i, zi(x)))
    g = s.copy()
    g.fact(z3.And(i >= 0, i < p))
    q = v.fresh('q', I)
    v.oblige(s, f(lo, 0) == low, name + ': the first box starts at the low end of the world')
    v.oblige(s, f(hi, p - 1) == high, name + ': the last box ends at the high end of the world')
    h = g.copy()
    h.fact(i < p - 1)
    v.oblige(h, f(lo, i + 1) == hi + 1, name + ': consecutive boxes are adjacent (no gap, no overlap)')
    j = v.fresh('i2', I)
    b = g.copy()
    b.fact(z3.And(j >= 0, j < p))
    d = (hi - lo) - (f(hi, j) - f(lo, j))
    v.oblige(b, z3.And(d <= 1, d >= -1), name + ': sizes differ by at most one')
    v.oblige(g, hi - lo + 1 >= 0, name + ': sizes are not negative')


def tile_induction(v):
    """adjacent non-negative intervals starting at low and ending at high partition [low, high]:
    base, step and uniqueness, for arbitrary corner functions"""
    L = z3.Function('L', I, I)
    n, x, low, i, j, k, a, b = z3.Ints('n x low i j k a b')
    C = z3.Function('covered', I, B)      # covered(n): x lies in one of the first n intervals
    st = State()
    st.fact(L(0) == low)
    st.fact(z3.Not(C(0)))
    v.oblige(st, C(0) == z3.And(low <= x, x < L(0)), 'lemma: adjacent intervals cover their union (base)', kind='lemma', where='lemma')
    st = State()
    st.fact(z3.And(L(n + 1) >= L(n), L(n) >= low))
    st.fact(C(n + 1) == z3.Or(C(n), z3.And(L(n) <= x, x < L(n + 1))))
    st.fact(C(n) == z3.And(low <= x, x < L(n)))
    v.oblige(st, C(n + 1) == z3.And(low <= x, x < L(n + 1)), 'lemma: adjacent intervals cover their union (step)', kind='lemma', where='lemma')
    v.oblige(st, L(n + 1) >= low, 'lemma: left ends stay above the first (step)', kind='lemma', where='lemma')
    M = z3.Function('mono', I, B)
    st = State()
    st.fact(z3.And(L(i) <= L(n), L(n) <= L(n + 1)))
    v.oblige(st, L(i) <= L(n + 1), 'lemma: left ends are monotone (step)', kind='lemma', where='lemma')
    st = State()
    st.fact(z3.And(L(i + 1) <= L(j), L(i) <= x, x < L(i + 1)))
    v.oblige(st, z3.Not(z3.And(L(j) <= x, x < L(j + 1))), 'lemma: a point lies in one interval only', kind='lemma', where='lemma')


def cells_of(v, s, p, vec, w, rad, name):
    """value of the element for grid cell (i0,i1,i2)"""
    i = [v.fresh('i%d' % d, I) for d in range(3)]
    g = s.copy()
    g.fact(z3.And(*[z3.And(i[d] >= 0, i[d] < p[d]) for d in range(3)]))
    e = i[0] + p[0] * (i[1] + p[1] * i[2])
    cands = [[i[a] for a in pm] for pm in ((2, 1, 0), (2, 0, 1), (1, 2, 0), (1, 0, 2), (0, 1, 2), (0, 2, 1))] + [[e]]

    def hints(wf, fr):
        if len(fr) != 3:
            return [rad.at(i[0], i[0], i[1], i[1], p[0])]
        out = []
        for (a, b, cc) in ((2, 1, 0), (0, 1, 2)):
            j0, j1, j2 = fr[a], fr[b], fr[cc]
            out.append(rad.at(j0, i[0], j1 + p[1] * j2, i[1] + p[1] * i[2], p[0]))
            out.append(rad.at(j1, i[1], j2, i[2], p[1]))
        return out
    return i, g, read_elem(v, g, vec, e, cands, name, hints)


def u_split(c, cls='heffte::box3d<int>'):
    v, w, p, rm, rets = call_split(c, cls, False)
    rad = radix_lemma(v)
    tile_induction(v)
    for s, r in rets:
        if isinstance(r, LV):
            r = v.load(s, r)
        v.oblige(s, r.len == p[0] * p[1] * p[2], 'one box per grid cell')
        i, g, b = cells_of(v, s, p, r, w, rad, 'split_world: first index fastest')
        v.oblige(g, z3.And(*[z == h - l + 1 for l, h, z in zip(arr(b, 'low'), arr(b, 'high'), arr(b, 'size'))]), 'each box keeps the box invariant')
        v.oblige(g, eqorder(b, w), 'each box carries the storage order of the world')
        for d in range(3):
            lo, hi = arr(b, 'low')[d], arr(b, 'high')[d]
            others = [x for k, x in enumerate(i) if k != d]
            fr = [v.fresh('x', I) for _ in others]
            pr = list(zip(others, fr))
            v.oblige(g, z3.And(z3.substitute(lo, *pr) == lo, z3.substitute(hi, *pr) == hi), 'axis %d: corners depend on the grid index of that axis only' % d)
            z = State()
            z.pc = list(s.pc)
            zero = [(x, z3.IntVal(0)) for x in others]
            axis_tiling(v, z, 'axis %d' % d, z3.substitute(lo, *zero), z3.substitute(hi, *zero), i[d], p[d], arr(w, 'low')[d], arr(w, 'high')[d])


def u_remap(c, cls='heffte::box3d<int>'):
    v, w, p, rm, rets = call_split(c, cls, True)
    mp = rm.f['map']
    rad = radix_lemma(v)
    for s, r in rets:
        if isinstance(r, LV):
            r = v.load(s, r)
        v.oblige(s, r.len == mp.len, 'one box per rank')
        # participating rank u with map[u] = cell index
        i = [v.fresh('i%d' % d, I) for d in range(3)]
        u = v.fresh('rank', I)
        m = z3.Select(mp.m[0], u)
        g = s.copy()
        g.fact(z3.And(u >= 0, u < mp.len))
        a = g.copy()
        a.fact(m == -1)
        b = read_elem(v, a, r, u, [[u]], 'split_world: remapped list is indexed by rank')
        v.oblige(a, z3.And(*[x == 0 for x in arr(b, 'low')] + [x == -1 for x in arr(b, 'high')] + [x == 0 for x in arr(b, 'size')]), 'ranks that do not participate get an empty box')
        v.oblige(a, eqorder(b, w), 'empty boxes carry the storage order of the world')
        a = g.copy()
        a.fact(z3.And(*[z3.And(i[d] >= 0, i[d] < p[d]) for d in range(3)]))
        e = i[0] + p[0] * (i[1] + p[1] * i[2])
        a.fact(m == e)
        b = read_elem(v, a, r, u, [[u]], 'split_world: remapped list is indexed by rank')
        # the elements read from the un-remapped list
        lw = arr(b, 'low')[0]
        sel = find_select(v, b, m)
        v.oblige(a, z3.BoolVal(sel is not None), 'participating ranks get a box of the un-remapped list')
        if sel is None:
            continue
        _, _, want = None, None, None
        inner = Vec(r.t, p[0] * p[1] * p[2], sel)
        cands = [[i[x] for x in pm] for pm in ((2, 1, 0), (0, 1, 2))] + [[e]]

        def hints(wf, fr):
            if len(fr) != 3:
                return []
            out = []
            for (x, y, z) in ((2, 1, 0), (0, 1, 2)):
                out.append(rad.at(fr[x], i[0], fr[y] + p[1] * fr[z], i[1] + p[1] * i[2], p[0]))
                out.append(rad.at(fr[y], i[1], fr[z], i[2], p[1]))
            return out
        q = read_elem(v, a, inner, e, cands, 'split_world (remap): un-remapped list in first-index-fastest order', hints)
        v.oblige(a, eqorder(q, w), 'participating ranks keep the storage order')
        for d in range(3):
            lo, hi = arr(q, 'low')[d], arr(q, 'high')[d]
            z = State()
            z.pc = list(s.pc)
            others = [(x, z3.IntVal(0)) for k, x in enumerate(i) if k != d]
            axis_tiling(v, z, 'remap, axis %d' % d, z3.substitute(lo, *others), z3.substitute(hi, *others), i[d], p[d], arr(w, 'low')[d], arr(w, 'high')[d])


def find_select(v, b, m):
    """arrays X_l such that leaf l of struct b (under m != -1) is Select(X_l, m)"""
    out = []
    for x in v.flat(b, ptype(b.cls)):
        x = z3.simplify(x)
        todo, hit = [x], None
        while todo:
            y = todo.pop()
            if z3.is_select(y) and v.info(y.arg(0)) is not None and (y.arg(1).eq(m) or z3.simplify(y.arg(1) == m).eq(z3.BoolVal(True))):
                hit = y.arg(0)
                break
            todo += y.children()
        if hit is None:
            return None
        out.append(hit)
    return out


UNITS = [
    Unit('split_world<int>', u_split),
    Unit('split_world<long long>', lambda c: u_split(c, 'heffte::box3d<long long>')),
    Unit('split_world<int> with participation map', u_remap),
    Unit('split_world<long long> with participation map', lambda c: u_remap(c, 'heffte::box3d<long long>')),
]
