"""The public transform calls: what they hand to compute_transform and what they scale (used by C11 and C14)."""
import z3
from dv.spec import *
from dv.values import Unsupported, same, conc
from dv.execu import SQRT

STEP = 'ghost-step'


def unref(v, st, a):
    return v.load(st, a) if isinstance(a, LV) else a


def enums(v):
    """numeric values of the enumerators, from the declarations"""
    out = {}
    for e, names in (('scale', ('none', 'full', 'symmetric')), ('direction', ('forward', 'backward'))):
        ks = enumerators(v, e)
        for nm in names:
            out[nm] = z3.IntVal(ks[nm])
    return out


def the_plan(v, st, cls, it):
    """a transform object: numbers under fresh symbols, the boxes behind their pointers, three executors"""
    bx, f = {}, {}
    for nm, t, _ in v.fields(v.cls(cls)):
        if nm in ('pinbox', 'poutbox'):
            b = v.havoc(ptype('heffte::box3d<%s>' % it), nm)
            bx[nm] = b
            f[nm] = Ptr(v.newcell(st, b))
        elif nm == 'executors':
            f[nm] = Arr([Ptr(v.newcell(st, Opaque('executor%d' % k))) for k in range(3)])
        elif t.kind in ('int', 'real', 'bool'):
            f[nm] = v.havoc(t, nm)
        else:
            f[nm] = Opaque(nm)
    return LV(v.newcell(st, Struct(cls, f))), bx


def count(b):
    s = arr(b, 'size')
    return z3.If(z3.Or(*[x <= 0 for x in s]), 0, s[0] * s[1] * s[2])


def pos(p):
    return zi(p.off) if p.off is not None else z3.IntVal(0)


def pth(lv):
    """path of an lvalue: field names and constant indices"""
    out = []
    for y in lv.path:
        y = y[-1] if isinstance(y, tuple) else y
        out.append(y if isinstance(y, (str, int)) else conc(zi(y)))
    return tuple(out)


def calls(c, fn):
    """(named parameters) of a forward/backward overload"""
    return [p.name for p in c.ast.params(fn)]


def u_public(cls, it, pairs, which):
    """every raw-pointer overload of forward and backward; which: 'C11' what compute_transform gets, 'C14' what is scaled"""
    def run(c):
        n = 0
        for d in ('forward', 'backward'):
            for X, Y in pairs:
                a, b = (X, Y) if d == 'forward' else (Y, X)
                for fn in [f for f in c.ast.find(cls + '::' + d, targs=[a, b])]:
                    one(c, cls, it, d, a, b, fn, which)
                    n += 1
        if n < 8:
            raise Unsupported('only %d overloads of %s::forward/backward found' % (n, cls))
    return run


def one(c, cls, it, d, X, Y, fn, which):
    v, st = c.engine(), State()
    E = enums(v)
    this, bx = the_plan(v, st, cls, it)
    plan = st.cells[this.cell]
    names = calls(c, fn)
    what = '%s(%s) %s -> %s' % (d, ', '.join(x or '' for x in names), X, Y)
    val, cells = {}, {}
    for p in names:
        if p in ('input', 'output', 'workspace'):
            T_ = X if p == 'input' else Y
            cells[p] = v.newcell(st, v.havoc(T('vec', ptype(T_ if p != 'workspace' else (Y if d == 'forward' else X))), p))
            val[p] = Ptr(cells[p], (), v.fresh('off.' + p, I))
        elif p == 'batch_size':
            val[p] = v.fresh('batch', I)
            st.fact(val[p] >= 1)
        elif p == 'scaling':
            val[p] = v.fresh('scaling', I)
            st.fact(z3.Or(*[val[p] == E[k] for k in ('none', 'full', 'symmetric')]))
        else:
            raise Unsupported('parameter %s of %s' % (p, d))
    batch = val.get('batch_size', z3.IntVal(1))
    st.fact(z3.And(plan.f['size_buffer_work'] >= 0, plan.f['comm_buffer_offset'] >= 0, plan.f['executor_buffer_offset'] >= 0))
    st.cells[STEP] = z3.IntVal(0)
    tell = lambda s, g, nm: v.oblige(s, g if not isinstance(g, bool) else z3.BoolVal(g), '%s: %s' % (what, nm))

    def c_transform(v, s, f, th, args):
        stream, bt, inp, out, work, eoff, comm, shp, exe, di = args
        if which == 'C11':
            tell(s, s.cells[STEP] == 0, 'transformed once')
            tell(s, bt == batch, 'the whole batch is transformed')
            for p, q in (('input', inp), ('output', out)):
                tell(s, isinstance(q, Ptr) and q.cell == cells[p] and not q.path, 'the %s array is passed on' % p)
                tell(s, pos(q) == pos(val[p]), 'the %s array is passed on from its start' % p)
            if 'workspace' in val:
                tell(s, isinstance(work, Ptr) and work.cell == cells['workspace'], 'the workspace is passed on')
                tell(s, pos(work) == pos(val['workspace']), 'the workspace is passed on from its start')
            else:
                w = s.cells.get(work.cell) if isinstance(work, Ptr) else None
                w = v.getpath(w, work.path) if w is not None and work.path else w
                tell(s, isinstance(w, Vec) and w.t.kind == 'complex' if 'complex' in X + Y else isinstance(w, Vec), 'a workspace is allocated')
                tell(s, z3.And(w.len == batch * plan.f['size_buffer_work'], pos(work) == 0), 'the allocated workspace has the reported size for every batch entry')
            tell(s, zi(unref(v, s, eoff)) == plan.f['executor_buffer_offset'], 'offset of the executor scratch')
            tell(s, zi(unref(v, s, comm)) == plan.f['comm_buffer_offset'], 'size of the communication buffers')
            tell(s, (isinstance(shp, LV) and shp.cell == this.cell and pth(shp) == ('%s_shaper' % d,)) or isinstance(shp, Opaque) and shp.what == '%s_shaper' % d, 'the redistributions of this direction')
            ex = unref(v, s, exe)
            order = (0, 1, 2) if d == 'forward' else (2, 1, 0)
            tell(s, isinstance(ex, Arr) and len(ex.e) == 3 and all(isinstance(p, Ptr) and p.cell == plan.f['executors'].e[k].cell for p, k in zip(ex.e, order)), 'the 1-D stages in the order of this direction')
            tell(s, zi(unref(v, s, di)) == E[d], 'the direction')
        s.cells[STEP] = s.cells[STEP] + 1
        return None

    def c_scale(v, s, f, th, args):
        bt, di, sc, data = (unref(v, s, x) for x in args)
        if which == 'C14':
            tell(s, s.cells[STEP] == 1, 'scaled once, after the transform')
            tell(s, bt == batch, 'the whole batch is scaled')
            tell(s, zi(di) == E[d], 'the entries of this direction\'s result are scaled')
            tell(s, zi(sc) == val['scaling'], 'the requested scaling')
            tell(s, isinstance(data, Ptr) and data.cell == cells['output'] and not data.path, 'the output is scaled')
            tell(s, pos(data) == pos(val['output']), 'the output is scaled from its start')
        s.cells[STEP] = s.cells[STEP] + 2
        return None

    v.contracts['heffte::compute_transform'] = c_transform
    v.contracts[cls + '::apply_scale'] = c_scale
    v.contracts['heffte::' + cls + '::apply_scale'] = c_scale
    v.contracts['apply_scale'] = c_scale
    c.live(v, st, what)
    rets, thr = c.run(v, st, fn, this, [val[p] for p in names])
    for s, _ in thr:
        tell(s, False, 'does not throw')
    for s, _ in rets:
        tell(s, s.cells[STEP] == 3, 'transform and scaling are both executed exactly once')
        tell(s, same(s.cells[this.cell], plan), 'the plan is unchanged')


# ---------------------------------------------------------------- the constructors: wiring and reported sizes
def u_wiring(cls, it, which, r2c=False):
    def run(c):
        import itertools
        for k, idle1, idle2 in itertools.product((2, 3), (False, True), (False, True)):
            v, st = c.engine(), State()
            plan = v.havoc(ptype('heffte::logic_plan3d<%s>' % it), 'plan')
            pc = v.newcell(st, plan)
            rank = plan.f['mpi_rank']
            st.fact(z3.And(rank >= 0, plan.f['index_count'] >= 1, *[x >= 2 for x in arr(plan, 'fft_sizes')]))
            made, size, nulls = {}, {}, {}
            NULL_AT = lambda cell: Ptr(cell, (), None, z3.BoolVal(True))
            num = lambda cell, nm: size.setdefault((cell, nm), v.fresh(nm, I))

            def c_reshape(v, s, fn, th, a):
                if not (isinstance(a[1], LV) and isinstance(a[2], LV)):
                    raise Unsupported('argument of make_reshape3d')
                cell = v.newcell(s, Struct('reshape', {}))
                p1, p2 = ((x.cell,) + pth(x) for x in a[1:3])
                made[cell] = ('reshape', p1, p2)
                s.fact(num(cell, 'W') >= 0)
                # the redistributions around the middle stage are present or not case by case: the choice of the stages depends on it
                i = p1[-1] if p1[-1] == p2[-1] else None
                nul = z3.BoolVal({1: idle1, 2: idle2}[i]) if i in (1, 2) else nulls.setdefault(i, v.fresh('null', B))
                return NULL_AT(cell) if z3.is_true(nul) else Ptr(cell, (), None, None if z3.is_false(nul) else nul)

            def c_exec(r2c):
                def h(v, s, fn, th, a):
                    bx = unref(v, s, a[1])
                    cell = v.newcell(s, Struct('executor', {}))
                    made[cell] = ('executor', bx, [zi(unref(v, s, x)) for x in a[2:]], r2c)
                    s.fact(z3.And(num(cell, 'box') >= 1, num(cell, 'complex') >= 1, num(cell, 'X') >= 0, z3.Implies(z3.BoolVal(not r2c), num(cell, 'complex') == num(cell, 'box'))))
                    nul = v.fresh('null', B)
                    sz = arr(bx, 'size')
                    s.fact(nul == z3.Or(*[zi(x) <= 0 for x in sz]))
                    return Ptr(cell, (), None, nul)
                return h
            v.contracts['make_reshape3d'] = c_reshape
            v.contracts['make_executor'] = c_exec(False)
            v.contracts['make_executor_r2c'] = c_exec(True)
            v.contracts['comm_rank'] = lambda v, s, fn, th, a: rank
            v.contracts['size_workspace'] = lambda v, s, fn, th, a: num(th.cell, 'W')
            v.contracts['box_size'] = lambda v, s, fn, th, a: num(th.cell, 'box')
            v.contracts['complex_size'] = lambda v, s, fn, th, a: num(th.cell, 'complex')
            v.contracts['workspace_size'] = lambda v, s, fn, th, a: num(th.cell, 'X')
            ctor = [f for f in v.ctors(v.cls(cls)) if 'logic_plan3d' in f.d['type']['qualType'] and len(v.ast.params(f)) == k]
            if not ctor:
                raise Unsupported('constructor from a plan')
            this = LV(v.newcell(st, Struct(cls, {n: v.uninit(ft) for n, ft, _ in v.fields(v.cls(cls))})))
            c.live(v, st)
            rets, thr = c.run(v, st, ctor[0], this, ([NULL] if k == 3 else []) + [LV(pc), NULL])
            for s, _ in thr:
                v.oblige(s, z3.BoolVal(False), 'does not throw')
            for s, _ in rets:
                o = s.cells[this.cell]
                done(v, s, o, plan, pc, rank, made, num, which, r2c)
    return run


def done(v, s, o, plan, pc, rank, made, num, which, r2c):
    T_ = lambda g, nm, own: v.oblige(s, g if not isinstance(g, bool) else z3.BoolVal(g), nm) if own == which else None
    obj = lambda p: None if not isinstance(p, Ptr) or p.cell is None else p
    F, Bk = o.f['forward_shaper'].e, o.f['backward_shaper'].e
    for i in range(4):
        want = ((pc, 'in_shape', i), (pc, 'out_shape', i))
        f, b = obj(F[i]), obj(Bk[3 - i])
        T_(f is not None and made.get(f.cell, (0, 0, 0))[1:] == want, 'forward redistribution %d goes from the input shape to the output shape of that stage' % i, 'C11')
        T_(b is not None and made.get(b.cell, (0, 0, 0))[1:] == want[::-1], 'backward redistribution %d undoes stage %d' % (3 - i, i), 'C11')
    nul = lambda p: (z3.BoolVal(True) if p is None else p.null if p.null is not None else z3.BoolVal(False))
    ex = [obj(p) for p in o.f['executors'].e]
    dirs = arr(plan, 'fft_direction')
    shape = lambda i: box_at(v, plan, i, rank)
    nullsh = [nul(obj(p)) for p in F]
    for i in range(3):
        # the dimension of stage i is transformed by exactly one slot k, with no redistribution between k and i
        alts = []
        for k in range(3):
            p = ex[k]
            if p is None:
                continue
            m = made.get(p.cell)
            T_(m is not None and m[0] == 'executor' and m[3] == (r2c and k == 0), 'slot %d holds a 1-D stage of the right type' % k, 'C11')
            if m is None:
                continue
            here = eqb(m[1], shape(k))
            ds = m[2] if m[2] else list(dirs)
            first = min(k, 3 - len(ds))      # a stage over several dimensions is stored in its first or in its last slot
            if first <= i < first + len(ds):
                alts.append(z3.And(here, ds[i - first] == dirs[i] if m[2] else z3.BoolVal(first == 0), *[nullsh[q] for q in range(min(k, i) + 1, max(k, i) + 1)]))
        T_(z3.And(z3.BoolVal(len(alts) == 1), *alts), 'the dimension of stage %d is transformed once, on the box of that stage' % i, 'C11')
    SZ, comm, eo = zi(o.f['size_buffer_work']), zi(o.f['comm_buffer_offset']), zi(o.f['executor_buffer_offset'])
    for p in list(F) + list(Bk):
        p = obj(p)
        if p is not None:
            T_(z3.Or(nul(p), comm >= num(p.cell, 'W')), 'the communication part holds the buffers of every redistribution', 'C12')
    X, mx = v.fresh('X', I), v.fresh('mx', I)
    ws = [z3.If(nul(p), 0, num(p.cell, 'X')) for p in ex if p is not None]
    g = s.copy()
    g.fact(z3.And(X >= 0, z3.Or(X == 0, *[X == w for w in ws]), *[X >= w for w in ws]))
    if which == 'C12':
        v.oblige(g, z3.And(comm >= 0, SZ >= comm + X), 'room for the communication buffers and the scratch', )
        v.oblige(g, eo == z3.If(X == 0, 0, SZ - X), 'the scratch is at the end of the workspace')
        for p in ex:
            if p is not None:
                v.oblige(g, z3.Or(nul(p), SZ - comm - X >= num(p.cell, 'complex' if made[p.cell][3] else 'box')), 'room for the data of every stage')


def box_at(v, plan, i, rank):
    vec = plan.f['out_shape'].e[i]
    return v.vget(vec, rank)
