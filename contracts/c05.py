"""C05: layout validation."""
import z3
from dv.spec import *
from contracts.c04 import boxes, fa, val

DRIVER = 'geometry'
from contracts.hs import GEOMETRY, API
HARNESS = GEOMETRY + API
L3 = 'heffte::box3d<long long>'
B3 = 'heffte::box3d<int>'


def it_of(cls):
    return cls.split('<')[1][:-1]


def boxes_inv(s, v):
    """every box of the vector keeps the class invariant of box3d (C01)"""
    q = z3.Int('q!inv')
    b = v.vget(s, q)
    return fa(q, z3.Implies(z3.And(q >= 0, q < s.len), z3.And(*[z == h - l + 1 for l, h, z in zip(arr(b, 'low'), arr(b, 'high'), arr(b, 'size'))])), [arr(b, 'size')[0]])


def u_find_world(c, cls=B3):
    fn = c.fn('heffte::find_world', targs=[it_of(cls)])
    v = c.engine()
    st = State()
    s = boxes(v, 'boxes', cls)
    st.fact(s.len >= 1)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, s))])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'find_world does not throw')
    q = v.fresh('q', I)
    b = v.vget(s, q)
    for g, w in rets:
        w = val(v, g, w)
        h = g.copy()
        h.fact(z3.And(q >= 0, q < s.len))
        for d in range(3):
            v.oblige(h, z3.And(arr(w, 'low')[d] <= arr(b, 'low')[d], arr(w, 'high')[d] >= arr(b, 'high')[d]), 'axis %d: the world contains every box' % d, hints=[q])
            h2 = g.copy()
            y = z3.Int('y!w')
            x = v.vget(s, y)
            h2.fact(z3.Or(fa(y, z3.Implies(z3.And(y >= 0, y < s.len), arr(x, 'low')[d] > arr(w, 'low')[d])), fa(y, z3.Implies(z3.And(y >= 0, y < s.len), arr(x, 'high')[d] < arr(w, 'high')[d]))))
            v.oblige(h2, z3.BoolVal(False), 'axis %d: the world is the smallest such box' % d)
        v.oblige(g, z3.And(*[z == hh - l + 1 for l, hh, z in zip(arr(w, 'low'), arr(w, 'high'), arr(w, 'size'))]), 'the world keeps the box invariant')
        v.oblige(g, z3.And(*[o == k for k, o in enumerate(arr(w, 'order'))]), 'the world has the natural order')


def u_match(c, cls=B3):
    fn = c.fn('heffte::match', targs=[it_of(cls)])
    v = c.engine()
    st = State()
    s, t = boxes(v, 'shape0', cls), boxes(v, 'shape1', cls)
    st.fact(z3.And(s.len >= 0, t.len >= 0))
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, s)), LV(v.newcell(st, t))])
    q = v.fresh('q', I)
    y = z3.Int('y!m')
    same = lambda k: z3.And(*[a == b for f in ('low', 'high') for a, b in zip(arr(v.vget(s, k), f), arr(v.vget(t, k), f))])
    for g, r in rets:
        r = asb(r)
        h = g.copy()
        h.fact(r)
        v.oblige(h, s.len == t.len, 'match: yes only for equally many boxes')
        h.fact(z3.And(q >= 0, q < s.len))
        v.oblige(h, same(q), 'match: yes only if every pair of boxes is the same', hints=[q])
        h = g.copy()
        h.fact(z3.Not(r))
        h.fact(s.len == t.len)
        h.fact(fa(y, z3.Implies(z3.And(y >= 0, y < s.len), same(y)), [arr(v.vget(s, y), 'low')[0]]))
        v.oblige(h, z3.BoolVal(False), 'match: no only if some pair differs')


def common(b, e, p):
    return z3.And(*[z3.And(l <= x, x <= h) for k in (b, e) for x, l, h in zip(p, arr(k, 'low'), arr(k, 'high'))])


def nonempty_common(b, e):
    """two boxes share a point"""
    mx = lambda x, y: z3.If(x > y, x, y)
    return z3.And(*[z3.And(l1 <= h1, l2 <= h2, l1 <= h2, l2 <= h1) for l1, h1, l2, h2 in zip(arr(b, 'low'), arr(b, 'high'), arr(e, 'low'), arr(e, 'high'))])


def u_complete(c, cls=B3):
    fn = c.fn('heffte::world_complete', targs=[it_of(cls)])
    v = c.engine(narrow=True)
    st = State()
    s = boxes(v, 'boxes', cls)
    w = box(v, 'world', cls)
    st.fact(s.len >= 1)
    st.fact(box_inv(w))
    st.fact(boxes_inv(s, v))
    S = v.fresh_fn('volume', I, I)
    k = z3.Int('k!v')
    cnt = lambda b: z3.If(z3.And(*[z >= 1 for z in arr(b, 'size')]), arr(b, 'size')[0] * arr(b, 'size')[1] * arr(b, 'size')[2], 0)
    st.fact(S(z3.IntVal(0)) == 0)
    st.fact(fa(k, z3.Implies(z3.And(k >= 0, k < s.len), S(k + 1) == S(k) + cnt(v.vget(s, k))), [S(k + 1)]))
    leaf = []

    def hook(v_, s0, node, order, N):
        sc = [l for l in order if l.kind == 'z' and l.how == 'sum']
        if len(sc) == 1 and len(order) <= 2:
            lf = sc[0]
            leaf.append(lf)
            return [('the running total is the volume of the boxes so far', lambda g, T: v.leaf_get(g, lf) == S(T))]
    v.loop_hooks.append(hook)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, s)), w])
    n = s.len
    i, j = v.fresh('i', I), v.fresh('j', I)
    p = point(v)
    zero = z3.And(*[l == 0 for l in arr(w, 'low')])
    for g, r in rets:
        v.oblige(g, asb(r), 'world_complete: returns true or throws')
        v.oblige(g, S(n) >= cnt(w), 'accepted only if the volumes add up to the world', hints=[n])
        v.oblige(g, zero, 'accepted only if the world starts at index zero')
        h = g.copy()
        h.fact(z3.And(i >= 0, j >= 0, i < n, j < n, i != j))
        h.fact(nonempty_common(v.vget(s, i), v.vget(s, j)))
        v.oblige(h, z3.BoolVal(False), 'accepted only if no two boxes overlap', hints=[i, j])
    # a common point is the same as overlapping intervals
    st2 = State()
    b, e = v.vget(s, i), v.vget(s, j)
    st2.fact(common(b, e, p))
    v.oblige(st2, nonempty_common(b, e), 'lemma: a common point means overlapping intervals on every axis', kind='lemma', where='lemma')
    y, z = z3.Ints('y!o z!o')
    for g, o in thr:
        h = g.copy()
        h.fact(zero)
        h.fact(S(n) >= cnt(w))
        h.fact(fa([y, z], z3.Implies(z3.And(y >= 0, z >= 0, y < n, z < n, y != z), z3.Not(nonempty_common(v.vget(s, y), v.vget(s, z)))), [z3.MultiPattern(arr(v.vget(s, y), 'low')[0], arr(v.vget(s, z), 'high')[0])]))
        v.oblige(h, z3.BoolVal(False), 'rejected only if a requirement is violated')


UNITS = [Unit('find_world<int>', u_find_world), Unit('find_world<long long>', lambda c: u_find_world(c, L3)),
         Unit('match<int>', u_match),
         Unit('world_complete<int>', u_complete), Unit('world_complete<long long>', lambda c: u_complete(c, L3))]
ASSUMES = ['finite additivity: pairwise disjoint boxes inside the world whose sizes add up to the size of the world cover it']
