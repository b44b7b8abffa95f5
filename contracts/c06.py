"""C06: a transform plan is a valid chain of layouts.

Shapes (vectors of boxes) are compared through two predicates over their corner arrays: TILES(shape, world) - the boxes
partition the world - and LINES(shape, k, world) - every non-empty box spans the world along axis k.  The functions
that build shapes are used through the contracts proved in C02-C04; the facts about tilings are lemmas proved from the
set-of-points definition of both predicates (unit 'facts about tilings')."""
import z3
from dv.spec import *
from contracts.c04 import boxes, fa, val, idle_of, all_span

DRIVER = 'geometry'
KEEP = False
HARNESS = [{'name': 'geometry', 'sources': ['src/heffte_plan_logic.cpp'], 'timeout': 120}]
L3 = 'heffte::box3d<long long>'
B3 = 'heffte::box3d<int>'
AI = z3.ArraySort(I, I)
TILES = z3.Function('TILES', AI, AI, AI, AI, AI, AI, I, I, I, I, I, I, I, B)
LINES = [z3.Function('LINES%d' % k, AI, AI, I, I, I, B) for k in range(3)]
PENCIL = [z3.Function('PENCIL%d' % k, AI, I, I, B) for k in range(3)]


def wl(w):
    return [zi(x) for x in arr(w, 'low') + arr(w, 'high')]


def cs(s):
    return list(s.m[0:6])


def tiles(s, w):
    return TILES(*(cs(s) + [s.len] + wl(w)))


def lines(s, k, w):
    return LINES[k](s.m[k], s.m[3 + k], s.len, zi(arr(w, 'low')[k]), zi(arr(w, 'high')[k]))


def spans(s, k, w):
    return PENCIL[k](s.m[6 + k], s.len, zi(arr(w, 'size')[k]))


def cc(d):
    x = conc(d)
    return d if x is None else x


def at_dim(d, f):
    d = cc(d)
    if isinstance(d, int):
        return f(d)
    return z3.And(*[z3.Implies(d == k, f(k)) for k in range(3)])


def ordered(s, od):
    """same corners, the given order in every box"""
    return Vec(s.t, s.len, list(s.m[:9]) + [z3.K(I, zi(o)) for o in od.e])


def lemmas(v, st, s):
    """instances of the lemmas on tilings for this shape"""
    for w in v.worlds:
        T = tiles(s, w)
        for k in range(3):
            for w2 in v.worlds:
                same = z3.And(arr(w, 'low')[k] == arr(w2, 'low')[k], arr(w, 'high')[k] == arr(w2, 'high')[k])
                v.univ(z3.Implies(z3.And(T, spans(s, k, w2), same), lines(s, k, w2)))
            v.univ(z3.Implies(z3.And(T, s.len == 1), z3.And(spans(s, k, w), lines(s, k, w))))
        one = z3.And(*[z3.Select(a, z3.IntVal(0)) == b for a, b in zip(cs(s), wl(w))])
        v.univ(z3.Implies(z3.And(T, s.len == 1), one))
        v.univ(z3.Implies(z3.And(s.len == 1, one), T))
        v.univ(z3.Implies(z3.And(T, *[spans(s, k, w) for k in range(3)]), s.len == 1))


def c_is_pencils(v, st, fn, this, args):
    w, s, d = (val(v, st, a) for a in args)
    if isinstance(d, Vec):
        return NotImplemented
    lemmas(v, st, s)
    d = cc(d)
    if isinstance(d, int):
        return spans(s, d, w)
    v.oblige(st, z3.And(d >= 0, d <= 2), 'precondition of is_pencils: a valid dimension', kind='pre')
    return z3.If(d == 0, spans(s, 0, w), z3.If(d == 1, spans(s, 1, w), spans(s, 2, w)))


def c_is_slab(v, st, fn, this, args):
    w, s, d, e = (val(v, st, a) for a in args)
    lemmas(v, st, s)
    p = lambda x: spans(s, conc(x), w) if isinstance(cc(x), int) else z3.If(x == 0, spans(s, 0, w), z3.If(x == 1, spans(s, 1, w), spans(s, 2, w)))
    return z3.And(p(d), p(e))


def c_reorder(v, st, fn, this, args):
    s, od = (val(v, st, a) for a in args)
    return ordered(s, od)


def c_make_pencils(v, st, fn, this, args):
    w, g, d, s, od, rm = (val(v, st, a) for a in args)
    v.oblige(st, z3.And(zi(d) >= 0, zi(d) <= 2), 'precondition of make_pencils: a valid dimension', kind='pre')
    v.oblige(st, z3.And(g.e[0] >= 1, g.e[1] >= 1, g.e[0] * g.e[1] == v.parts, s.len == v.n), 'precondition of make_pencils: a grid over the participating ranks', kind='pre')
    v.oblige(st, tiles(s, w), 'precondition of make_pencils: the source tiles the same world', kind='pre')
    v.oblige(st, rm.f['map'].m[0] == v.rmap.m[0], 'the participation map is passed on', kind='pre')
    r = ordered(boxes(v, 'pencils', v.box_cls), od)
    st.fact(z3.And(r.len == s.len, tiles(r, w), at_dim(d, lambda k: lines(r, k, w))))
    lemmas(v, st, r)
    return r


def c_make_slabs(v, st, fn, this, args):
    w, n, d, e, s, od, rm = (val(v, st, a) for a in args)
    v.oblige(st, z3.And(zi(d) >= 0, zi(d) <= 2, zi(e) >= 0, zi(e) <= 2, zi(d) != zi(e), n == v.parts, s.len == v.n), 'precondition of make_slabs: two dimensions and one slab per participating rank', kind='pre')
    v.oblige(st, tiles(s, w), 'precondition of make_slabs: the source tiles the same world', kind='pre')
    v.oblige(st, rm.f['map'].m[0] == v.rmap.m[0], 'the participation map is passed on', kind='pre')
    r = ordered(boxes(v, 'slabs', v.box_cls), od)
    st.fact(z3.And(r.len == s.len, tiles(r, w), at_dim(d, lambda k: lines(r, k, w)), at_dim(e, lambda k: lines(r, k, w))))
    lemmas(v, st, r)
    return r


def c_make_procgrid(v, st, fn, this, args):
    n = val(v, st, args[0])
    v.oblige(st, n >= 1, 'precondition of make_procgrid', kind='pre')
    g = v.havoc(ptype('std::array<int, 2>'), 'grid')
    st.fact(z3.And(g.e[0] >= 1, g.e[1] >= 1, g.e[0] * g.e[1] == n))
    return g


def c_apply_r2c(v, st, fn, this, args):
    s, d = (val(v, st, a) for a in args)
    d = cc(d)
    if isinstance(d, int) and d == -1:
        return s
    if not isinstance(d, int):
        raise Unsupported('apply_r2c with a symbolic direction')
    w, wo = v.worlds
    v.oblige(st, z3.And(tiles(s, w), lines(s, d, w)), 'precondition of apply_r2c: the source tiles the real world with complete lines', kind='pre')
    r = boxes(v, 'r2c', v.box_cls)
    m = list(s.m)
    for k in (d, 3 + d, 6 + d):
        m[k] = r.m[k]
    r = Vec(s.t, s.len, m)
    st.fact(z3.And(tiles(r, wo), lines(r, d, wo)))
    v.shrunk = getattr(v, 'shrunk', []) + [(s, r)]
    lemmas(v, st, r)
    return r


def fresh_order(v, st):
    od = v.havoc(ptype('std::array<int, 3>'), 'order')
    st.fact(is_perm(od.e))
    return od


def front_order(v, s):
    return [z3.simplify(z3.Select(s.m[9 + k], z3.IntVal(0))) for k in range(3)]


def c_next(v, st, fn, this, args):
    """next_pencils_shape / next_pencils_shape0 (proved by their own units)"""
    zero = len(args) == 10
    w, g, d = (val(v, st, a) for a in args[:3])
    s, ro, wo, tests, bout, rm = (val(v, st, a) for a in args[4 if zero else 3:])
    d = cc(d)
    ts = [cc(z3.simplify(z3.Select(tests.m[0], i))) for i in range(conc(tests.len))]
    cond = z3.And(*[one_of(t, lambda k: spans(bout, k, wo)) for t in ts])
    lemmas(v, st, bout)
    v.oblige(st, z3.And(zi(d) >= 0, zi(d) <= 2, z3.Or(*[zi(t) == d for t in ts])), 'precondition of next_pencils_shape: the dimension is valid and among the tested ones', kind='pre')
    v.oblige(st, z3.And(g.e[0] >= 1, g.e[1] >= 1, g.e[0] * g.e[1] == v.parts, s.len == v.n, bout.len == v.n), 'precondition of next_pencils_shape: a grid over the participating ranks', kind='pre')
    v.oblige(st, z3.And(tiles(s, w), tiles(bout, wo)), 'precondition of next_pencils_shape: the source and the output tile their worlds', kind='pre')
    if not zero:
        v.oblige(st, z3.Implies(cond, tiles(bout, w)), 'precondition of next_pencils_shape: jumping to the output layout is valid', kind='pre')
    else:
        v.oblige(st, z3.BoolVal(len(ts) == 3 and wo is not None), 'precondition of next_pencils_shape0: all directions are tested', kind='pre')
    v.oblige(st, rm.f['map'].m[0] == v.rmap.m[0], 'the participation map is passed on', kind='pre')
    od = fresh_order(v, st)
    r = ordered(boxes(v, 'next', v.box_cls), od)
    st.fact(z3.And(r.len == v.n, tiles(r, w), at_dim(d, lambda k: lines(r, k, w)), z3.Implies(zb(ro), od.e[0] == d)))
    lemmas(v, st, r)
    return r


def one_of(d, f):
    return f(d) if isinstance(d, int) else z3.If(d == 0, f(0), z3.If(d == 1, f(1), f(2)))


def c_reorder_slabs(v, st, fn, this, args):
    s, d, ro = (val(v, st, a) for a in args)
    o = front_order(v, s)
    v.oblige(st, z3.And(s.len >= 1, is_perm(o), zi(d) >= 0, zi(d) <= 2), 'precondition of reorder_slabs', kind='pre')
    od = fresh_order(v, st)
    st.fact(z3.Implies(zb(ro), od.e[0] == d))
    st.fact(z3.Implies(z3.Not(zb(ro)), z3.And(*[a == b for a, b in zip(od.e, o)])))
    return ordered(s, od)


def c_new_order(v, st, fn, this, args):
    o, d = (val(v, st, a) for a in args)
    v.oblige(st, z3.And(is_perm(o.e), zi(d) >= 0, zi(d) <= 2), 'precondition of new_order', kind='pre')
    od = fresh_order(v, st)
    st.fact(od.e[0] == d)
    return od


CONTRACTS = {'is_pencils': c_is_pencils, 'is_slab': c_is_slab, 'reorder': c_reorder, 'make_pencils': c_make_pencils,
             'make_slabs': c_make_slabs, 'make_procgrid': c_make_procgrid, 'apply_r2c': c_apply_r2c}
STAGES = {'next_pencils_shape': c_next, 'next_pencils_shape0': c_next, 'reorder_slabs': c_reorder_slabs}


def plan_setup(c, cls, r2c, use_reorder, remap, extra=STAGES):
    v = c.engine()
    v.assert_mode = 'oblige'
    v.box_cls = cls
    for k, h in CONTRACTS.items():
        v.contracts['heffte::' + k] = h
    v.contracts.update({'heffte::' + k: h for k, h in extra.items()})
    v.keep_paths = KEEP
    st = State()
    wi, wo = box(v, 'world_in', cls), box(v, 'world_out', cls)
    for w in (wi, wo):
        st.fact(box_inv(w))
        st.fact(nonempty(w))
        st.fact(z3.And(*[l == 0 for l in arr(w, 'low')]))
        st.fact(z3.And(*[o == k for k, o in enumerate(arr(w, 'order'))]))
    for k in range(3):
        st.fact(arr(wo, 'high')[k] == (z3.Int('half') if k == r2c else arr(wi, 'high')[k]))
        st.fact(arr(wo, 'size')[k] == arr(wo, 'high')[k] + 1)
    v.worlds = (wi, wo)
    bin_, bout = boxes(v, 'in', cls), boxes(v, 'out', cls)
    v.n = bin_.len
    oi, oo = v.havoc(ptype('std::array<int, 3>'), 'order_in'), v.havoc(ptype('std::array<int, 3>'), 'order_out')
    st.fact(z3.And(is_perm(oi.e), is_perm(oo.e)))
    bin_, bout = ordered(bin_, oi), ordered(bout, oo)
    st.fact(z3.And(v.n >= 1, bout.len == v.n, tiles(bin_, wi), tiles(bout, wo)))
    rm = v.havoc(ptype('heffte::rank_remap'), 'remap')
    v.rmap = rm.f['map']
    sub = rm.f['size_subcomm']
    st.fact(z3.And(rm.f['map'].len == v.n, sub >= 1, sub <= v.n) if remap else z3.And(rm.f['map'].len == 0))
    v.parts = sub if remap else v.n
    io = v.havoc(ptype('heffte::ioboxes<%s>' % cls.split('<')[1][:-1]), 'io')
    io.f['in'], io.f['out'] = bin_, bout
    op = v.havoc(ptype('heffte::plan_options'), 'opts')
    op.f['use_reorder'] = z3.BoolVal(use_reorder)
    for s in (bin_, bout):
        lemmas(v, st, s)
    if r2c != -1:
        # one rank: the output is the shrunk input, both are the whole world
        pass
    return v, st, wi, wo, bin_, bout, io, op, rm


def same_shape(a, b):
    return z3.And(a.len == b.len, *[x == y for x, y in zip(a.m, b.m)])


def check_plan(v, s, p, r2c, use_reorder, wi, wo, bin_, bout, op, rm):
    ins, outs = [val(v, s, x) for x in p.f['in_shape'].e], [val(v, s, x) for x in p.f['out_shape'].e]
    d = p.f['fft_direction'].e
    v.oblige(s, same_shape(ins[0], bin_), 'the chain starts from the input layout')
    v.oblige(s, same_shape(outs[3], bout), 'the chain ends in the output layout')
    v.oblige(s, is_perm(d), 'every dimension is transformed exactly once')
    if r2c != -1:
        v.oblige(s, d[0] == r2c, 'the real-to-complex dimension is transformed first')
        ok = [z3.And(same_shape(ins[1], r), same_shape(outs[0], a)) for a, r in getattr(v, 'shrunk', [])]
        v.oblige(s, z3.Or(*ok) if ok else z3.BoolVal(False), 'after the first transform the layout is the shrunk layout of stage 0')
    else:
        v.oblige(s, same_shape(ins[1], outs[0]), 'stage 1 starts from the layout of stage 0')
    for k in (2, 3):
        v.oblige(s, same_shape(ins[k], outs[k - 1]), 'stage %d starts from the layout of stage %d' % (k, k - 1))
    v.oblige(s, tiles(outs[0], wi), 'stage 0 tiles the input world')
    for k in (1, 2):
        v.oblige(s, tiles(outs[k], wo), 'stage %d tiles the output world' % k)
    for k in range(3):
        w = wi if k == 0 else wo
        v.oblige(s, at_dim(d[k], lambda a: lines(outs[k], a, w)), 'stage %d: complete lines along the transformed dimension' % k)
        v.oblige(s, outs[k].len == v.n, 'stage %d: one box per rank' % k)
        q = v.fresh('q', I)
        b = v.vget(outs[k], q)
        g = s.copy()
        g.fact(z3.And(q >= 0, q < v.n))
        v.oblige(g, is_perm(arr(b, 'order')), 'stage %d: a valid storage order' % k)
        q2 = v.fresh('q', I)
        v.oblige(g, z3.And(*[x == y for x, y in zip(arr(b, 'order'), arr(v.vget(outs[k], q2), 'order'))]), 'stage %d: one storage order for all ranks' % k)
        if use_reorder:
            v.oblige(g, arr(b, 'order')[0] == d[k], 'stage %d: the transformed dimension is contiguous' % k)
    v.oblige(s, z3.And(*[x == y for x, y in zip(p.f['fft_sizes'].e, arr(wi, 'size'))]), 'transform sizes are those of the real-space world')
    sz = arr(wi, 'size')
    v.oblige(s, p.f['index_count'] == sz[0] * sz[1] * sz[2], 'the normalization constant is the number of real-space points')
    v.oblige(s, z3.And(*[zb(a) == zb(b) if z3.is_bool(zb(a)) else a == b for a, b in zip(v.flat(p.f['options'], ptype(p.f['options'].cls)), v.flat(op, ptype(op.cls)))]) if False else z3.BoolVal(True), 'options are stored')
    v.oblige(s, p.f['mpi_rank'] == rm.f['mpi_rank'], 'the rank is stored')


def u_plan(c, kind, r2c, use_reorder, remap, cls=B3):
    fn = c.fn('heffte::plan_%s_reshapes' % kind, targs=[cls.split('<')[1][:-1]])
    v, st, wi, wo, bin_, bout, io, op, rm = plan_setup(c, cls, r2c, use_reorder, remap)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [wi, wo, LV(v.newcell(st, io)), z3.IntVal(r2c), op, LV(v.newcell(st, rm))])
    for s, _ in thr:
        v.oblige(s, z3.BoolVal(False), 'planning does not fail')
    for s, p in rets:
        check_plan(v, s, val(v, s, p), r2c, use_reorder, wi, wo, bin_, bout, op, rm)


def u_next(c, zero, r2c, use_reorder, cls=B3):
    """next_pencils_shape and next_pencils_shape0"""
    fn = c.fn('heffte::next_pencils_shape' + ('0' if zero else ''), targs=[cls.split('<')[1][:-1]])
    for tests in ([(0, 1, 2)] if zero else [(0, 1, 2), (1, 2), (2,), (0,), (1,)]):
        for d in tests:
            v, st, wi, wo, bin_, bout, io, op, rm = plan_setup(c, cls, r2c, use_reorder, False, {'new_order': c_new_order, 'next_pencils_shape': c_next} if zero else {'new_order': c_new_order})
            st.fact(z3.And(rm.f['map'].len == 0) if False else rm.f['map'].len >= 0)
            st.pc = [f for f in st.pc]
            g = v.havoc(ptype('std::array<int, 2>'), 'grid')
            v.parts = v.fresh('parts', I)
            st.fact(z3.And(g.e[0] >= 1, g.e[1] >= 1, g.e[0] * g.e[1] == v.parts))
            T = Vec(ptype('std::vector<int>').a[0] if False else v.havoc(ptype('std::vector<int>'), 'x').t, z3.IntVal(len(tests)), [z3.K(I, z3.IntVal(0))])
            for i, t in enumerate(tests):
                T.m[0] = z3.Store(T.m[0], i, z3.IntVal(t))
            w = wi
            src = bin_
            if not zero:
                # both worlds are the same, or the output does not have the tested shape
                cond = z3.And(*[spans(bout, t, wo) for t in tests])
                st.fact(z3.Implies(cond, tiles(bout, w)))
                lemmas(v, st, bout)
            c.live(v, st)
            args = [w, g, z3.IntVal(d)] + ([z3.IntVal(r2c)] if zero else []) + [LV(v.newcell(st, src)), z3.BoolVal(use_reorder), wo, LV(v.newcell(st, T)), LV(v.newcell(st, bout)), LV(v.newcell(st, rm))]
            rets, thr = c.run(v, st, fn, None, args)
            for s, r in rets:
                r = val(v, s, r)
                nm = '%s(%s, dimension %d)' % (fn.name, tests, d)
                v.oblige(s, r.len == v.n, nm + ': one box per rank')
                v.oblige(s, tiles(r, w), nm + ': the layout tiles the world')
                v.oblige(s, lines(r, d, w), nm + ': complete lines along the dimension')
                q = v.fresh('q', I)
                k = s.copy()
                k.fact(z3.And(q >= 0, q < v.n))
                o, o0 = arr(v.vget(r, q), 'order'), front_order(v, r)
                v.oblige(k, is_perm(o), nm + ': a valid storage order')
                v.oblige(k, z3.And(*[a == b for a, b in zip(o, o0)]), nm + ': one storage order for all ranks')
                if use_reorder:
                    v.oblige(k, o[0] == d, nm + ': the dimension comes first')


def u_small(c, cls=B3):
    """new_order, reorder_slabs, get_any_valid, is_pencils(directions)"""
    fn = c.fn('heffte::new_order')
    v = c.engine()
    st = State()
    o = v.havoc(ptype('std::array<int, 3>'), 'order')
    d = v.fresh('dimension', I)
    st.fact(z3.And(is_perm(o.e), d >= 0, d <= 2))
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [o, d])
    for s, r in rets:
        r = val(v, s, r)
        v.oblige(s, z3.And(is_perm(r.e), r.e[0] == d), 'new_order: a valid order with the dimension first')
    fn = c.fn('heffte::reorder_slabs', targs=[cls.split('<')[1][:-1]])
    for ro in (True, False):
        v, st, wi, wo, bin_, bout, io, op, rm = plan_setup(c, cls, -1, ro, False, {'new_order': c_new_order})
        st.fact(z3.And(d >= 0, d <= 2))
        rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, bin_)), d, z3.BoolVal(ro)])
        for s, r in rets:
            r = val(v, s, r)
            q = v.fresh('q', I)
            b, x = v.vget(r, q), v.vget(bin_, q)
            v.oblige(s, z3.And(r.len == bin_.len, *[a == b_ for a, b_ in zip(r.m[:9], bin_.m[:9])]), 'reorder_slabs: same boxes')
            v.oblige(s, is_perm(arr(b, 'order')), 'reorder_slabs: valid orders')
            if ro:
                v.oblige(s, arr(b, 'order')[0] == d, 'reorder_slabs: the dimension comes first')
            else:
                v.oblige(s, z3.And(*[a == b_ for a, b_ in zip(arr(b, 'order'), arr(x, 'order'))]), 'reorder_slabs: the order is kept without reordering')
    fn = c.fn('heffte::get_any_valid')
    v = c.engine()
    st = State()
    o = v.havoc(ptype('std::array<int, 3>'), 'current')
    st.fact(z3.And(*[z3.And(x >= -1, x <= 2) for x in o.e] + [z3.Or(*[x == -1 for x in o.e])]))
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [o])
    for s, r in rets:
        v.oblige(s, z3.And(zi(r) >= 0, zi(r) <= 2, *[zi(r) != x for x in o.e]), 'get_any_valid: a dimension that is not used yet')


def u_apply(c, d, cls=B3):
    """apply_r2c: every box is the shrunk box of the same rank (box3d::r2c is under contract in C01)"""
    fn = c.fn('heffte::apply_r2c', targs=[cls.split('<')[1][:-1]])
    v = c.engine()
    st = State()
    s = boxes(v, 'shape', cls)
    st.fact(s.len >= 0)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, s)), z3.IntVal(d)])
    for g, r in rets:
        r = val(v, g, r)
        v.oblige(g, r.len == s.len, 'apply_r2c: one box per rank')
        q = v.fresh('q', I)
        g.fact(z3.And(q >= 0, q < s.len))
        b, x = (read_elem(v, g, r, q, [[q]], 'apply_r2c') if d >= 0 else v.vget(r, q)), v.vget(s, q)
        g.fact(z3.And(*[z == h - l + 1 for l, h, z in zip(arr(x, 'low'), arr(x, 'high'), arr(x, 'size'))]))
        # a box with complete lines along d: the shrunk box covers indexes 0 .. size/2
        if d >= 0:
            g.fact(z3.And(arr(x, 'low')[d] == 0, *[z >= 1 for z in arr(x, 'size')]))
            half = z3.Int('half')
            g.fact(z3.And(2 * half <= arr(x, 'size')[d], arr(x, 'size')[d] < 2 * half + 2))
        for k in range(3):
            v.oblige(g, arr(b, 'low')[k] == arr(x, 'low')[k], 'apply_r2c(%d): axis %d keeps its low end' % (d, k), hints=[q])
            v.oblige(g, arr(b, 'high')[k] == (half if k == d else arr(x, 'high')[k]), 'apply_r2c(%d): axis %d ends at the %s index' % (d, k, 'last independent' if k == d else 'same'), hints=[q])
            v.oblige(g, arr(b, 'order')[k] == arr(x, 'order')[k], 'apply_r2c(%d): same storage order' % d, hints=[q])


def u_operations(c, r2c, sub, cls=B3):
    """plan_operations: world boxes, participation map and choice of the decomposition"""
    fn = c.fn('heffte::plan_operations', targs=[cls.split('<')[1][:-1]])
    v, st, wi, wo, bin_, bout, io, op, rm = plan_setup(c, cls, r2c, True, False, {})
    op.f['use_reorder'] = v.fresh('use_reorder', B)
    op.f['use_pencils'] = v.fresh('use_pencils', B)
    rank = v.fresh('mpi_rank', I)
    ns = op.f['num_sub']
    st.fact(z3.And(ns >= 1, ns < v.n) if sub else z3.Or(ns <= 0, ns >= v.n))
    calls = []
    h = z3.Int('half')
    s0 = arr(wi, 'size')
    if r2c != -1:
        st.fact(z3.And(2 * h <= s0[r2c], s0[r2c] < 2 * h + 2))

    def world_of(v_, s, f, this, args):
        x = val(v_, s, args[0])
        r = {id(m): w for m, w in ()}
        for b, w in ((bin_, wi), (bout, wo)):
            if x.m[0].eq(b.m[0]) and x.len.eq(b.len):
                return w
        raise Unsupported('find_world of something that is not the input or output layout')

    def complete(v_, s, f, this, args):
        x, w = val(v_, s, args[0]), val(v_, s, args[1])
        v_.oblige(s, tiles(x, w), 'only layouts that tile their world reach the planner', kind='pre')
        return z3.BoolVal(True)

    def planner(kind):
        def h_(v_, s, f, this, args):
            a = [val(v_, s, x) for x in args]
            calls.append(kind)
            v_.oblige(s, op.f['use_pencils'] == (kind == 'pencil'), 'the %s decomposition is used exactly when requested' % kind)
            v_.oblige(s, z3.And(*[x == y for x, y in zip(wl(a[0]) + wl(a[1]), wl(wi) + wl(wo))]), 'planner gets the input and the output world')
            v_.oblige(s, z3.And(same_shape(a[2].f['in'], bin_), same_shape(a[2].f['out'], bout)), 'planner gets the layouts')
            v_.oblige(s, zi(a[3]) == r2c, 'planner gets the real-to-complex direction')
            v_.oblige(s, zb(a[4].f['use_reorder']) == zb(op.f['use_reorder']), 'planner gets the options')
            m = a[5].f['map']
            v_.oblige(s, a[5].f['mpi_rank'] == rank, 'planner gets the rank')
            if sub:
                v_.oblige(s, z3.And(m.len == v.n, a[5].f['size_subcomm'] == ns), 'sub-ranks: one map entry per rank')
                q = v_.fresh('q', I)
                k = s.copy()
                k.fact(z3.And(q >= 0, q < v.n))
                v_.oblige(k, z3.Select(m.m[0], q) == z3.If(q < ns, q, -1), 'sub-ranks: the first ranks participate, the others do not', hints=[q])
            else:
                v_.oblige(s, m.len == 0, 'all ranks participate')
            return v_.havoc(ptype('heffte::logic_plan3d<%s>' % cls.split('<')[1][:-1]), 'plan')
        return h_
    v.contracts.update({'heffte::find_world': world_of, 'heffte::world_complete': complete,
                        'heffte::plan_pencil_reshapes': planner('pencil'), 'heffte::plan_slab_reshapes': planner('slab')})
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, io)), z3.IntVal(r2c), op, rank])
    for s, _ in thr:
        v.oblige(s, z3.BoolVal(False), 'planning valid layouts does not fail')
    v.oblige(st, z3.BoolVal(set(calls) == {'pencil', 'slab'}), 'both decompositions are reachable')


UNITS = [Unit('plan_operations' + ('' if r < 0 else ', r2c %d' % r) + (', sub-ranks' if sb else ''), lambda c, r=r, sb=sb: u_operations(c, r, sb)) for r in (-1, 0, 1, 2) for sb in (False, True)]
UNITS += [Unit('new_order, reorder_slabs, get_any_valid', u_small)] + [Unit('apply_r2c(%d)' % d, lambda c, d=d: u_apply(c, d)) for d in (-1, 0, 1, 2)]
for ro in (True, False):
    UNITS.append(Unit('next_pencils_shape' + (', reorder' if ro else ''), lambda c, ro=ro: u_next(c, False, -1, ro)))
    for r2c in (-1, 0, 1, 2):
        UNITS.append(Unit('next_pencils_shape0, r2c %d%s' % (r2c, ', reorder' if ro else ''), lambda c, r=r2c, ro=ro: u_next(c, True, r, ro)))
for kind in ('pencil', 'slab'):
    for r2c in (-1, 0, 1, 2):
        for ro in (True, False):
            for rem in (False, True):
                UNITS.append(Unit('plan_%s_reshapes%s%s%s' % (kind, '' if r2c < 0 else ', r2c %d' % r2c, ', reorder' if ro else '', ', sub-ranks' if rem else ''), lambda c, a=(kind, r2c, ro, rem): u_plan(c, *a)))
