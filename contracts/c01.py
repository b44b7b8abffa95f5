"""C01: box3d is a set of grid points with a storage order."""
import z3
from dv.spec import *

DRIVER = 'geometry'
HARNESS = [{'name': 'geometry', 'sources': ['src/heffte_plan_logic.cpp'], 'timeout': 120}]
BT = 'heffte::box3d<int>'


def setup(c, n=1, inv=True, **kw):
    v = c.engine(**kw)
    st = State()
    bs = []
    for k in range(n):
        b = box(v, 'AB'[k])
        if inv:
            st.fact(box_inv(b))
        bs.append(b)
    return v, st, bs


def u_ctors(c):
    """every constructor establishes the class invariant and stores what it is given"""
    for cls, it in (('heffte::box3d<int>', 'int'), ('heffte::box3d<long long>', 'long long')):
        if cls not in c.ast.classes:
            continue
        v0 = c.engine()
        cn = v0.cls(cls)
        for ct in v0.ctors(cn):
            if ct.d.get("isImplicit") or ct.d.get("explicitlyDefaulted") or (it != "int" and v0.ast.definition(ct) is None):
                continue
            v = c.engine()
            st = State()
            ps = v.ast.params(ct)
            vals = [v.havoc(ptype(p.qt), 'a%d' % i) for i, p in enumerate(ps)]
            dims = len(vals[0].e)
            this = LV(v.newcell(st, v.havoc(ptype(cls), 'this')))
            if len(vals) == 3:
                if dims == 3:
                    st.fact(is_perm(vals[2].e))
                else:
                    st.fact(z3.And(*[z3.And(o >= 0, o <= 1) for o in vals[2].e] + [z3.Distinct(*vals[2].e)]))
            rets, thr = c.run(v, st, ct, this, vals)
            for s, _ in rets:
                b = s.cells[this.cell]
                nm = 'box3d<%s>(%d-D%s)' % (it, dims, ', order' if len(vals) == 3 else '')
                v.oblige(s, box_inv(b), nm + ' establishes the box invariant')
                lo = list(vals[0].e) + [z3.IntVal(0)] * (3 - dims)
                hi = list(vals[1].e) + [z3.IntVal(0)] * (3 - dims)
                od = (list(vals[2].e) + [z3.IntVal(2)] * (3 - dims)) if len(vals) == 3 else [z3.IntVal(k) for k in range(3)]
                v.oblige(s, z3.And(*[x == y for x, y in zip(arr(b, 'low') + arr(b, 'high'), lo + hi)]), nm + ' keeps the corners')
                v.oblige(s, z3.And(*[x == y for x, y in zip(arr(b, 'order'), od)]), nm + ' keeps the order')
            if thr:
                v.oblige(thr[0][0], z3.BoolVal(False), 'constructor does not throw')


def method(c, name, n=1, args=None, pre=None, post=None, sig=None, desc='', **kw):
    for cls in (BT, 'heffte::box3d<long long>'):
        try:
            fn = c.fn(cls + '::' + name)
        except Unsupported:
            if cls == BT:
                raise
            continue
        v, st, bs = setup(c, 0, **kw)
        for k in range(n):
            b = box(v, 'AB'[k], cls)
            st.fact(box_inv(b))
            bs.append(b)
        cells = [LV(v.newcell(st, b)) for b in bs]
        extra = [v.fresh(a, I) for a in (args or [])]
        if pre:
            st.fact(pre(*(bs + extra)))
        c.live(v, st)
        if 'long' in cls:
            v.narrow = False
        rets, thr = c.run(v, st, fn, cells[0], cells[1:] + extra)
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), '%s: does not throw' % name)
        for s, r in rets:
            if isinstance(r, LV):
                r = v.load(s, r)
            for nm, g in post(v, s, r, *(bs + extra)):
                v.oblige(s, g, '%s: %s' % (name, nm))
            for lv, b in zip(cells, bs):
                v.oblige(s, z3.BoolVal(same(s.cells[lv.cell], b)), '%s: arguments unchanged' % name, kind='frame')


def u_collide(c):
    def post(v, s, r, A, Bx):
        p = point(v)
        yield 'exactly the common points', inb(p, r) == z3.And(inb(p, A), inb(p, Bx))
        yield 'result keeps the box invariant', box_inv(r)
        yield 'storage order of the first box', z3.Implies(nonempty(r), eqorder(r, A))
    method(c, 'collide', 2, post=post)


def u_empty_count(c):
    def post(v, s, r, A):
        p = point(v)
        yield 'empty boxes hold no point', z3.Implies(r, z3.Not(inb(p, A)))
        yield 'non-empty boxes hold their low corner', z3.Implies(z3.Not(r), inb(arr(A, 'low'), A))
    method(c, 'empty', 1, post=post)

    def post2(v, s, r, A):
        z = arr(A, 'size')
        yield 'number of points', r == z3.If(nonempty(A), z[0] * z[1] * z[2], 0)
    fits = lambda A: z3.And(*[z3.And(x > -2**31, x < 2**31) for x in arr(A, 'size')] + [arr(A, 'size')[0] * arr(A, 'size')[1] * arr(A, 'size')[2] < 2**63])
    method(c, 'count', 1, pre=fits, post=post2, narrow=True)


def u_compare(c):
    method(c, 'operator==', 2, post=lambda v, s, r, A, Bx: [('equal exactly when both corners agree', r == eqb(A, Bx))])
    method(c, 'operator!=', 2, post=lambda v, s, r, A, Bx: [('different exactly when a corner differs', r == z3.Not(eqb(A, Bx)))])
    method(c, 'ordered_same_as', 2, post=lambda v, s, r, A, Bx: [('exactly when the orders agree', r == eqorder(A, Bx))])


def u_r2c(c):
    def post(v, s, r, A, d):
        p = point(v)
        n = pick(arr(A, 'size'), d)
        l = pick(arr(A, 'low'), d)
        yield 'keeps exactly the first floor(n/2)+1 points of the dimension', inb(p, r) == z3.And(inb(p, A), pick(p, d) <= l + n / 2)
        yield 'box invariant', box_inv(r)
        yield 'storage order kept', z3.Implies(nonempty(A), eqorder(r, A))
    method(c, 'r2c', 1, args=['dim'], pre=lambda A, d: z3.And(d >= 0, d <= 2), post=post)


def u_order(c):
    dim = lambda A, d: z3.And(d >= 0, d <= 2)
    method(c, 'osize', 1, ['k'], pre=dim, post=lambda v, s, r, A, k: [('size of the k-th dimension in storage order', r == pick(arr(A, 'size'), pick(arr(A, 'order'), k)))])
    method(c, 'find_order', 1, ['d'], pre=dim, post=lambda v, s, r, A, d: [('position of the dimension in the storage order', z3.And(r >= 0, r <= 2, pick(arr(A, 'order'), r) == d))])
    method(c, 'is2d', 1, post=lambda v, s, r, A: [('exactly when some dimension holds a single index', r == z3.Or(*[x == 1 for x in arr(A, 'size')]))])


def u_lines(c):
    for name in ('fft1d_get_howmany', 'fft1d_get_stride'):
        fn = c.fn('heffte::' + name, targs=['int'])
        v, st, (A,) = setup(c, 1, narrow=True)
        d = v.fresh('dim', I)
        st.fact(z3.And(d >= 0, d <= 2))
        z, od = arr(A, 'size'), arr(A, 'order')
        st.fact(z3.And(*[x >= 0 for x in z] + [x * y < 2**31 for x in z for y in z]))
        c.live(v, st)
        rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, A)), d])
        pos = z3.If(od[0] == d, 0, z3.If(od[1] == d, 1, 2))
        os_ = [pick(z, od[k]) for k in range(3)]
        for s, r in rets:
            if name.endswith('stride'):
                v.oblige(s, r == z3.If(pos == 0, 1, z3.If(pos == 1, os_[0], os_[0] * os_[1])), 'stride along a dimension is the product of the faster sizes')
            else:
                v.oblige(s, r == z3.If(pos == 0, os_[1] * os_[2], z3.If(pos == 1, os_[0], os_[0] * os_[1])), 'number of lines of the dimension that share one layout (all lines for the fast and slow position, one plane for the middle)')
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), name + ' does not throw')


UNITS = [
    Unit('box3d constructors', u_ctors),
    Unit('box3d::collide', u_collide),
    Unit('box3d::empty / count', u_empty_count),
    Unit('box3d::operator== != ordered_same_as', u_compare),
    Unit('box3d::r2c', u_r2c),
    Unit('box3d::osize find_order is2d', u_order),
    Unit('fft1d_get_howmany / fft1d_get_stride', u_lines),
]
