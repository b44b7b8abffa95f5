"""C07: pack and unpack move exactly the addressed block.

Plan: sizes (fast, mid, slow) >= 0, strides that keep the lines and the planes of the data apart, and (transposing
plan) a permutation `map`, axis j of the buffer being axis map[j] of the data."""
import itertools
from contracts.hs import *
import z3
from dv.spec import *
from dv.values import Unsupported, same

DRIVER = 'packer'
HARNESS = RESHAPE
TECHNIQUE = 'contract-based deductive verification'
RULE = 'one unit per packer method and element type; obligations: source position of every written element, written positions, frame, source unchanged'
ELEMS = [('float', 'int'), ('double', 'long long'), ('std::complex<float>', 'long long'), ('std::complex<double>', 'int'), ('int', 'int')]
DIRECT, TRANS = 'heffte::direct_packer<heffte::tag::cpu>', 'heffte::transpose_packer<heffte::tag::cpu>'


def plan_pre(v, st, plan, transposed):
    s = plan.f['size'].e
    ls, ps = plan.f['line_stride'], plan.f['plane_stride']
    for x in s:
        st.fact(x >= 0)
    st.fact(z3.Implies(z3.And(s[0] >= 1, s[1] >= 1, s[2] >= 1), z3.And(ls >= s[0], ps >= ls * s[1])))
    if transposed:
        st.fact(is_perm(plan.f['map'].e))


def buffer_pos(plan, t, transposed):
    """position in the buffer of the element with data coordinates t = (fast, mid, slow)"""
    s = plan.f['size'].e
    if not transposed:
        return t[0] + s[0] * (t[1] + s[1] * t[2])
    m = plan.f['map'].e
    return pick(t, m[0]) + plan.f['buff_line_stride'] * pick(t, m[1]) + plan.f['buff_plane_stride'] * pick(t, m[2])


def data_pos(plan, t):
    return t[0] + plan.f['line_stride'] * t[1] + plan.f['plane_stride'] * t[2]


def in_block(plan, t):
    return z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(t, plan.f['size'].e)])


def as_point(v, st, w, pos):
    """coordinates (fast, mid, slow), in terms of the family's parameters, whose position is the written one"""
    for perm in itertools.permutations(w.params, 3):
        s = st.copy()
        s.fact(w.dom)
        if v.quick(s, w.idx == pos(perm), 500):
            return list(perm)
    return None


def radix3(v):
    """positions of different block points are different, for strides that keep lines and planes apart"""
    a = z3.Ints('a0 a1 a2 b0 b1 b2 n0 n1 n2 ls ps')
    x, y, n, ls, ps = a[0:3], a[3:6], a[6:9], a[9], a[10]
    st = State()
    inb_ = lambda t: z3.And(*[z3.And(p >= 0, p < q) for p, q in zip(t, n)])
    hyp = [inb_(x), inb_(y), ls >= n[0], ps >= ls * n[1], x[0] + ls * x[1] + ps * x[2] == y[0] + ls * y[1] + ps * y[2]]
    L1 = mulmono_lemma(v)
    for h in hyp:
        st.fact(h)
    r = radix_lemma(v)
    # inside a plane: 0 <= x0 + ls*x1 < ls*n1 <= ps
    for t in (x, y):
        st.fact(L1.at(t[1], n[1] - 1, ls))
        st.fact(L1.at(0, t[1], ls))
    for h in (r.at(x[0] + ls * x[1], y[0] + ls * y[1], x[2], y[2], ps), r.at(x[0], y[0], x[1], y[1], ls)):
        st.fact(h)
    v.oblige(st, z3.And(*[p == q for p, q in zip(x, y)]), 'lemma: different points of a block have different positions', kind='lemma', where='lemma')
    return lambda x1, y1, plan: z3.Implies(z3.substitute(z3.And(*hyp), *zip(a, [zi(e) for e in x1 + y1 + plan.f['size'].e + [plan.f['line_stride'], plan.f['plane_stride']]])),
                                           z3.And(*[p == q for p, q in zip(x1, y1)]))


def setup(c, cls, meth, T_, it):
    v, st = c.engine(), State()
    fn = c.fn(cls + '::' + meth, targs=[T_, it])
    plan = v.havoc(ptype('heffte::pack_plan_3d<%s>' % it), 'plan')
    et = ptype(T_)
    src, dst = v.havoc(T('vec', et), 'src'), v.havoc(T('vec', et), 'dst')
    so, do = v.fresh('so', I), v.fresh('do', I)
    sc, dc = v.newcell(st, src), v.newcell(st, dst)
    pc = LV(v.newcell(st, plan))
    this = LV(v.newcell(st, Struct(cls, {})))
    return v, st, fn, plan, src, dst, so, do, sc, dc, [NULL, pc, Ptr(sc, (), so), Ptr(dc, (), do)], this, et


def moves(v, s, plan, et, src, dst0, dst1, so, do, dpos, spos, lem, what):
    """dst1 = dst0 with position do+dpos(t) := src[so+spos(t)] for the points t of the block, and nothing else"""
    t = point(v, 't')
    g = s.copy()
    g.fact(in_block(plan, t))
    done = set()
    for k, (m0, m1, ms) in enumerate(zip(dst0.m, dst1.m, src.m)):
        base, ws = flat_writes(v, m1)
        v.oblige(s, z3.BoolVal(bool(base.eq(m0))), what + ': starts from the previous contents of the destination')
        pts = []
        for w in ws:
            p = as_point(v, s, w, lambda q: do + dpos(list(q))) if len(w.params) == 3 else None
            if p is None and len(w.params) == 3:
                p = list(reversed(w.params))
            if p is None:
                raise Unsupported('%s: loop structure with %d parameters' % (what, len(w.params)))
            pts.append(p)
            h = s.copy()
            h.fact(w.dom)
            v.oblige(h, z3.And(in_block(plan, p), w.idx == do + dpos(p)), what + ': only positions of the block are written')
            v.oblige(h, w.val == z3.Select(ms, so + spos(p)), what + ': every element comes from its own position')
        if k == 0:
            # completeness: every point of the block is written, by a write for the same point
            alts = []
            for w, p in zip(ws, pts):
                d, i, _ = inst(W_of(w, p), t)
                alts.append(z3.And(d, i == do + dpos(t)))
            v.oblige(g, z3.Or(*alts) if alts else z3.BoolVal(False), what + ': every element of the block is written')
            # two writes to one position are writes for the same point: the value is well defined
            u = point(v, 'u')
            h = g.copy()
            h.fact(in_block(plan, u))
            h.fact(dpos(t) == dpos(u))
            for f in lem(t, u):
                h.fact(f)
            v.oblige(h, z3.And(*[a == b for a, b in zip(t, u)]), what + ': different elements have different positions')


def W_of(w, p):
    """the family with its parameters reordered as (fast, mid, slow)"""
    from dv.loops import W
    return W(p, w.dom, w.idx, w.val)


def unit(cls, meth, T_, it, kind):
    """kind: 'pack' | 'unpack' | 'transposed unpack'"""
    def f(c):
        v, st, fn, plan, src, dst, so, do, sc, dc, args, this, et = setup(c, cls, meth, T_, it)
        tr = kind.startswith('transposed')
        plan_pre(v, st, plan, tr)
        before = {k: x for k, x in st.cells.items()}
        rets, thr = c.run(v, st, fn, this, args)
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), kind + ' does not throw')
        n = plan.f['size'].e
        r, L1, l3 = radix_lemma(v), mulmono_lemma(v), radix3(v)

        def contiguous(t, u):
            return [r.at(t[0], u[0], t[1] + n[1] * t[2], u[1] + n[1] * u[2], n[0]), r.at(t[1], u[1], t[2], u[2], n[1])]
        P = lambda t: data_pos(plan, t)
        Q = lambda t: buffer_pos(plan, t, tr)
        for s, _ in rets:
            for cell, x in before.items():
                if cell != dc:
                    v.oblige(s, z3.BoolVal(cell in s.cells and same(s.cells[cell], x)), kind + ': source and plan are unchanged')
            if kind == 'pack':
                moves(v, s, plan, et, src, dst, s.cells[dc], so, do, Q, P, contiguous, kind)
            else:
                moves(v, s, plan, et, src, dst, s.cells[dc], so, do, P, Q, lambda t, u: [l3(t, u, plan)], kind)
    return Unit('%s::%s<%s, %s>' % (cls.split('::')[1].split('<')[0], meth, T_, it), f)


UNITS = [unit(DIRECT, 'pack', a, b, 'pack') for a, b in ELEMS] + [unit(DIRECT, 'unpack', a, b, 'unpack') for a, b in ELEMS] + \
        [unit(TRANS, 'pack', a, b, 'pack') for a, b in ELEMS] + [unit(TRANS, 'unpack', a, b, 'transposed unpack') for a, b in ELEMS]
