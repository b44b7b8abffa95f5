"""C08: the lists of messages of a redistribution."""
import z3
from dv.spec import *
from dv.stmts import TDIV, TMOD
from contracts.c04 import boxes, fa, val
from contracts.c05 import boxes_inv, nonempty_common
from contracts.hs import *

DRIVER = 'reshape'
HARNESS = RESHAPE
B = {'int': 'heffte::box3d<int>', 'long long': 'heffte::box3d<long long>'}


def ovec(v, st, et):
    return LV(v.newcell(st, v.empty_vec(ptype(et))))


PERMS = [(a, b, 3 - a - b) for a in range(3) for b in range(3) if a != b]


def ordered(b, perm):
    """the same box with a literal storage order"""
    f = dict(b.f)
    f['order'] = Arr([z3.IntVal(k) for k in perm])
    return Struct(b.cls, f)


def counter(v, V):
    """the list was filled by appending: (count function, index of the iteration that appended entry j)"""
    L = simp(zi(V.len))
    if z3.is_app(L) and L.num_args() == 1 and v.syminfo.get(L.decl().name()):
        si = v.syminfo[L.decl().name()]
        si = si() if callable(si) else si
        if si.get('kind') == 'count' and si.get('hit') is not None:
            C, t, cond = L.decl(), si['params'][0], si['cond']

            def inst_of(j):
                """entry j was appended by iteration hit(j): an instance of the definition of the count"""
                u = si['hit'](j)
                return z3.Implies(z3.And(j >= 0, j < L), z3.And(u >= 0, u < L.arg(0), z3.substitute(cond, (t, u)), C(u) == j))
            return C, si['hit'], inst_of
    raise Unsupported('the list is not described as a sequence of appends')


def overlap_of(a, b):
    """corners and sizes of the common box of two boxes that share a point"""
    lo = [z3.If(x > y, x, y) for x, y in zip(arr(a, 'low'), arr(b, 'low'))]
    hi = [z3.If(x < y, x, y) for x, y in zip(arr(a, 'high'), arr(b, 'high'))]
    return lo, hi, [h - l + 1 for l, h in zip(lo, hi)]


def expected(v, h, mine, other, perm, operm=None):
    """the message between two boxes, seen from the local storage of `mine`: offset, count, plan.  With operm the data in the buffer is stored
    in the order operm of the other side"""
    lo0, hi0, sz0 = overlap_of(mine, other)
    lo, sz = [v.fresh('lo', I) for _ in range(3)], [v.fresh('sz', I) for _ in range(3)]
    for a, b in zip(lo + sz, lo0 + sz0):
        h.fact(a == b)
    ms, ml = arr(mine, 'size'), arr(mine, 'low')
    o = perm
    off = (lo[o[2]] - ml[o[2]]) * ms[o[0]] * ms[o[1]] + (lo[o[1]] - ml[o[1]]) * ms[o[0]] + (lo[o[0]] - ml[o[0]])
    plan = {'size': [sz[o[0]], sz[o[1]], sz[o[2]]], 'line_stride': ms[o[0]], 'plane_stride': ms[o[1]] * ms[o[0]]}
    if operm:
        b = operm
        plan.update({'buff_line_stride': sz[b[0]], 'buff_plane_stride': sz[b[0]] * sz[b[1]], 'map': [z3.IntVal(o.index(b[j])) for j in range(3)]})
    return off, sz[0] * sz[1] * sz[2], plan


def check_plan(v, h, P, want, name):
    goals = []
    ranks = []          # names for the rank an iteration visits
    known = []          # terms the hypotheses fix to a literal (storage orders, mostly): put in place before asking the solver
    for e in h.facts():
        for q in ([e] if not z3.is_and(e) else e.children()):
            if z3.is_eq(q) and q.arg(0).sort() == I:
                for a, b in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                    if z3.is_int_value(b) and not z3.is_int_value(a):
                        known.append((a, b))
                    if z3.is_app(a) and a.decl().eq(TMOD(z3.Int('a'), z3.Int('b')).decl()) and z3.is_const(b):
                        ranks.append((a, b))

    def fix(e):
        e = simp(z3.substitute(simp(e), *[(simp(a), b) for a, b in ranks])) if ranks else e
        return simp(z3.substitute(e, *known)) if known else e
    for f, w in want.items():
        x = P.f[f]
        for a, b in zip(x.e if hasattr(x, 'e') else [x], w if isinstance(w, list) else [w]):
            goals.append((f, fix(zi(a)), fix(zi(b))))
    for f, a, b in goals:
        if z3.is_mul(a) and z3.is_mul(b):
            same_product(v, h, a, b, '%s: %s' % (name, f))
        else:
            v.oblige(h, a == b, '%s: %s' % (name, f))


def collide_post(a, b, o):
    """the common box of a and b"""
    lo, hi, sz = overlap_of(a, b)
    q = nonempty_common(a, b)
    return z3.And(z3.Implies(q, z3.And(*([x == y for f, w in (('low', lo), ('high', hi), ('size', sz)) for x, y in zip(arr(o, f), w)] + [x == y for x, y in zip(arr(o, 'order'), arr(a, 'order'))]))),
                  z3.Implies(z3.Not(q), z3.Or(*[z <= 0 for z in arr(o, 'size')])))


def same_product(v, h, x, want, name):
    """x == want where both are products: the factors are compared one by one (a product of equal factors is equal)"""
    fac = lambda e: [e] if not z3.is_mul(e) else [f for k in e.children() for f in fac(k)]
    a, b = fac(simp(x)), fac(want)
    if len(a) == len(b):
        left = list(b)
        sub = []
        for f in a:
            for w in left:
                if proves(h, f == w):
                    break
            else:
                break
            left.remove(w)
            sub.append((f, w))
            v.oblige(h, f == w, name + ': factor')
        else:
            return v.oblige(h, simp(z3.substitute(simp(x), *sub)) == simp(want), name)
    v.oblige(h, x == want, name)


def c_collide(cls):
    def h(v, st, fn, this, args):
        a = v.load(st, this)
        b = v.load(st, args[0]) if isinstance(args[0], LV) else args[0]
        inv = lambda x: z3.And(*[z == hh - l + 1 for l, hh, z in zip(arr(x, 'low'), arr(x, 'high'), arr(x, 'size'))])
        v.oblige(st, z3.And(inv(a), inv(b)), 'the intersection is taken of well formed boxes')
        o = v.havoc(ptype(cls), 'common')
        st.fact(collide_post(a, b, o))
        return o
    return h


def ground_at(g, terms):
    """the facts of g without quantifiers, and its universal facts at the given terms only (weaker, hence sound)"""
    h = State()
    h.cells = dict(g.cells)
    for e in g.facts():
        if not z3.is_quantifier(e):
            h.fact(e)
        elif e.is_forall() and e.num_vars() == 1 and e.var_sort(0) == I:
            for t in terms:
                x = z3.substitute_vars(e.body(), zi(t))
                h.fact(x)
    return h


def replaced(g, a, b):
    h = State()
    h.cells = dict(g.cells)
    for e in g.facts():
        h.fact(z3.substitute(z3.simplify(e), (z3.simplify(a), b), (a, b)))
    return h


def u_collide(c, it):
    cls = B[it]
    v = c.engine()
    st = State()
    a, b = box(v, 'a', cls), box(v, 'b', cls)
    st.fact(z3.And(box_inv(a), box_inv(b)))
    fn = c.fn(cls + '::collide')
    c.live(v, st)
    rets, thr = c.run(v, st, fn, LV(v.newcell(st, a)), [LV(v.newcell(st, b))])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'collide does not throw')
    for g, r in rets:
        v.oblige(g, collide_post(a, b, val(v, g, r)), 'collide returns the common box, in the order of the first')


def u_overlap(c, name, it, perm):
    cls = B[it]
    tr = name.startswith('transpose')
    fn = c.fn('heffte::compute_overlap_map_' + name, targs=[it])
    v = c.engine()
    st = State()
    me, n = v.fresh('me', I), v.fresh('nprocs', I)
    src = ordered(box(v, 'mine', cls), perm)
    bs = boxes(v, 'boxes', cls)
    st.fact(z3.And(n >= 1, me >= 0, me < n, bs.len == n, box_inv(src)))
    st.fact(boxes_inv(bs, v))
    out = {k: ovec(v, st, t) for k, t in (('proc', 'int'), ('offset', 'int'), ('sizes', 'int'), ('plans', 'heffte::pack_plan_3d<%s>' % it))}
    v.contracts[cls + '::collide'] = c_collide(cls)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [me, n, src, LV(v.newcell(st, bs))] + [out[k] for k in ('proc', 'offset', 'sizes', 'plans')])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'the lists are built without an exception')
    for g, _ in rets:
        V = {k: v.load(g, x) for k, x in out.items()}
        L = V['proc'].len
        for k in ('offset', 'sizes', 'plans'):
            v.oblige(g, V[k].len == L, 'one %s entry per partner' % k)
        C, hit, entry = counter(v, V['proc'])
        # completeness: every rank that shares a point has its entry
        r = v.fresh('r', I)
        ii = v.fresh('i', I)
        hh = g.copy()
        hh.fact(z3.And(r >= 0, r < n, ii == z3.If(r > me, r - me - 1, r - me - 1 + n), v.div_axiom(1 + ii + me, n)))
        v.oblige(hh, z3.And(ii >= 0, ii < n, TMOD(1 + ii + me, n) == r), 'every rank is visited')
        # from here on iteration ii is the one that visits r
        h = replaced(ground_at(g, [ii]), TMOD(1 + ii + me, n), r)
        other = v.vget(bs, r)
        h.fact(z3.And(r >= 0, r < n, ii >= 0, ii < n))
        h.fact(nonempty_common(src, other))
        h.fact(z3.And(*[z == hh_ - l + 1 for l, hh_, z in zip(arr(other, 'low'), arr(other, 'high'), arr(other, 'size'))]))
        h.fact(TMOD(1 + ii + me, n) == r)
        idx = C(ii)
        v.oblige(h, z3.And(idx >= 0, idx < L), 'every rank that shares a point has an entry', hints=[ii])
        p = read_elem(v, h, V['proc'], idx, [[ii]], 'partner list')
        v.oblige(h, zi(p) == r, 'its entry names the rank')
        off, cnt, plan = expected(v, h, src, other, perm)
        x = read_elem(v, h, V['offset'], idx, [[ii]], 'offsets')
        v.oblige(h, zi(x) == off, 'its offset is the position of the first common point in the local storage')
        x = read_elem(v, h, V['sizes'], idx, [[ii]], 'sizes')
        same_product(v, h, zi(x), cnt, 'its size is the number of common points')
        P = read_elem(v, h, V['plans'], idx, [[ii]], 'plans')
        check_plan(v, h, P, plan, 'its plan walks the common block in the local storage')
        if tr:
            for op in PERMS:
                h2 = h.copy()
                h2.fact(z3.And(*[a == b for a, b in zip(arr(other, 'order'), op)]))
                full = expected(v, h2, src, other, perm, op)[2]
                check_plan(v, h2, P, {k: full[k] for k in ('buff_line_stride', 'buff_plane_stride', 'map')}, 'its plan reads the buffer in the order of the sender')
        # soundness: every entry names a rank that shares a point, and no two entries the same
        j = v.fresh('j', I)
        u = hit(j)
        j2 = v.fresh('j2', I)
        u2 = hit(j2)
        h = ground_at(g, [u, u2])
        h.fact(z3.And(j >= 0, j < L))
        h.fact(entry(j))
        p = read_elem(v, h, V['proc'], j, [[u]], 'entry j of the partner list')
        w = v.fresh('rank', I)
        h.fact(w == zi(p))
        h.fact(v.div_axiom(1 + u + me, n))
        other = v.vget(bs, w)
        v.oblige(h, z3.And(w >= 0, w < n), 'entries are ranks', hints=[j, u])
        h.fact(z3.And(*[z == hh_ - l + 1 for l, hh_, z in zip(arr(other, 'low'), arr(other, 'high'), arr(other, 'size'))]))
        v.oblige(h, nonempty_common(src, other), 'entries are ranks that share a point', hints=[j, u])
        h.fact(z3.And(j2 >= 0, j2 < L, j2 != j))
        h.fact(entry(j2))
        p2 = read_elem(v, h, V['proc'], j2, [[u2]], 'entry j2 of the partner list')
        h.fact(v.div_axiom(1 + u2 + me, n))
        h.fact(zi(p2) == w)
        v.oblige(h, z3.BoolVal(False), 'no rank is listed twice', hints=[j, j2, u, u2])


def u_all2all(c, it, tr, perm):
    """one entry per member of the group, in the order of the group"""
    cls = B[it]
    fn = c.fn('heffte::compute_overlap_map_all2all_pack', targs=[it, '-1' if tr else '0'])
    v = c.engine()
    st = State()
    n = v.fresh('nprocs', I)
    tgt = ordered(box(v, 'target', cls), perm)
    bs = boxes(v, 'boxes', cls)
    G = v.havoc(ptype('std::vector<int>'), 'group')
    st.fact(z3.And(n >= 1, bs.len == n, G.len >= 0, box_inv(tgt)))
    st.fact(boxes_inv(bs, v))
    t = v.fresh('gi', I)
    st.fact(fa([t], z3.Implies(z3.And(t >= 0, t < G.len), z3.And(zi(v.vget(G, t)) >= 0, zi(v.vget(G, t)) < n))))
    off, plans = ovec(v, st, 'int'), ovec(v, st, 'heffte::pack_plan_3d<%s>' % it)
    v.contracts[cls + '::collide'] = c_collide(cls)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, G)), tgt, LV(v.newcell(st, bs)), off, plans])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'the lists are built without an exception')
    for g, _ in rets:
        O, P = v.load(g, off), v.load(g, plans)
        v.oblige(g, O.len == G.len, 'one offset per member of the group')
        v.oblige(g, P.len == G.len, 'one plan per member of the group')
        j, r = v.fresh('j', I), v.fresh('r', I)
        h = ground_at(g, [j])
        h.fact(z3.And(j >= 0, j < G.len))
        h.fact(zi(v.vget(G, j)) == r)
        h = replaced(h, zi(v.vget(G, j)), r)
        h.fact(zi(v.vget(G, j)) == r)
        v.oblige(h, z3.And(r >= 0, r < n), 'members are ranks')
        other = v.vget(bs, r)
        h.fact(z3.And(*[z == hh - l + 1 for l, hh, z in zip(arr(other, 'low'), arr(other, 'high'), arr(other, 'size'))]))
        y = h.copy()
        y.fact(nonempty_common(tgt, other))
        o, _, plan = expected(v, y, tgt, other, perm)
        x = read_elem(v, y, O, j, [[j]], 'offset')
        v.oblige(y, zi(x) == o, 'the offset is the position of the first common point in the local storage')
        p = read_elem(v, y, P, j, [[j]], 'plan')
        check_plan(v, y, p, plan, 'the plan walks the common block in the local storage')
        if tr:
            for op in PERMS:
                h2 = y.copy()
                h2.fact(z3.And(*[a == b for a, b in zip(arr(other, 'order'), op)]))
                full = expected(v, h2, tgt, other, perm, op)[2]
                check_plan(v, h2, p, {k: full[k] for k in ('buff_line_stride', 'buff_plane_stride', 'map')}, 'the plan reads the buffer in the order of the sender')
        y = h.copy()
        y.fact(z3.Not(nonempty_common(tgt, other)))
        x = read_elem(v, y, O, j, [[j]], 'offset of an empty message')
        v.oblige(y, zi(x) == 0, 'nothing in common: offset 0')
        p = read_elem(v, y, P, j, [[j]], 'plan of an empty message')
        check_plan(v, y, p, {'size': [z3.IntVal(0)] * 3}, 'nothing in common: an empty plan')


def u_symmetry(c, it):
    """the sender and the receiver of a message agree on its length, and the boxes may be listed in any storage order"""
    cls = B[it]
    v = c.engine()
    st = State()
    a, b = box(v, 'a', cls), box(v, 'b', cls)
    st.fact(z3.And(box_inv(a), box_inv(b)))
    c.live(v, st)
    o1, o2 = v.havoc(ptype(cls), 'ab'), v.havoc(ptype(cls), 'ba')
    st.fact(collide_post(a, b, o1))
    st.fact(collide_post(b, a, o2))
    v.oblige(st, nonempty_common(a, b) == nonempty_common(b, a), 'a sends to b exactly when b expects a message from a')
    h = st.copy()
    h.fact(nonempty_common(a, b))
    for k, (x, y) in enumerate(zip(arr(o1, 'size'), arr(o2, 'size'))):
        v.oblige(h, x == y, 'the message sent is the message expected: size %d' % k)
    for k, (x, y) in enumerate(zip(arr(o1, 'low'), arr(o2, 'low'))):
        v.oblige(h, x == y, 'the message sent is the message expected: corner %d' % k)


UNITS = ([Unit('collide<%s>' % t, lambda c, t=t: u_collide(c, t)) for t in B] + [Unit('symmetry<%s>' % t, lambda c, t=t: u_symmetry(c, t)) for t in B] +
         [Unit('compute_overlap_map_%s<%s> order %d%d%d' % (k, t, *o), lambda c, k=k, t=t, o=o: u_overlap(c, k, t, o)) for k in ('direct_pack', 'transpose_pack') for t in B for o in PERMS] +
         [Unit('compute_overlap_map_all2all_pack<%s,%s> order %d%d%d' % (t, 'transpose' if tr else 'non_transpose', *o), lambda c, t=t, tr=tr, o=o: u_all2all(c, t, tr, o)) for t in B for tr in (False, True) for o in PERMS])
NOTE = ('proof for all boxes, group sizes and storage orders of collide and the three list builders (both index types), of what each rank lists and that both sides list the same block; '
        'partial correctness, integers mathematical; the two-sided agreement of the complete plans as wired by make_reshape3d_* is cross-checked by the bounded harness')
