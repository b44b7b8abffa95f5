"""C14: the scaling of the result.

data_scaling::apply multiplies every entry once and touches nothing else; get_scale_factor returns the stored factor or
its square root; apply_scale calls apply exactly when scaling is requested, over the whole batch of the result of that
direction; the constructors and setup() leave in scale_factor the reciprocal of the number of points that the backend's
transform pair multiplies by; every public forward()/backward() scales its output and only its output."""
from contracts.hs import *
import z3
from dv.spec import *
from dv.values import Unsupported, same
from contracts.ct import *
from dv.execu import SQRT

DRIVER = 'transform'
HARNESS = PIPELINE
TECHNIQUE = 'contract-based deductive verification'
RULE = 'one unit per function and backend: factor, number of entries, frame, exactly one application per call'
LOG = 'ghost-scale-log'
BOX = {'int': 'heffte::box3d<int>', 'long long': 'heffte::box3d<long long>'}
SCALE = {'none': 0, 'full': 1, 'symmetric': 2}
FORWARD, BACKWARD = 0, 1


# ---------------------------------------------------------------- data_scaling::apply
def c_apply_real(v, st, fn, this, args):
    """contract of the real overload, used by the complex one: the first n reals behind the pointer are multiplied"""
    _, n, p, f = args
    t = fn.d['type']['qualType']
    if 'complex' in t or getattr(p, 'view', None) is None:
        return NotImplemented
    lv = LV(p.cell, p.path)
    vec = v.load(st, lv)
    if not (isinstance(vec, Vec) and vec.t.kind == 'complex'):
        raise Unsupported('scaling through an unexpected view')
    off = zi(p.off) if p.off is not None else z3.IntVal(0)
    new = [v.fresh('scaled%d' % k, z3.ArraySort(I, R)) for k in range(2)]
    j = z3.Int('j!sc')
    for k in range(2):
        # real number 2*i+k behind a pointer to complex number 'off/2' (array-oriented access of std::complex)
        idx = 2 * j + k - off
        st.fact(z3.ForAll([j], z3.Select(new[k], j) == z3.If(z3.And(idx >= 0, idx < n), z3.Select(vec.m[k], j) * f, z3.Select(vec.m[k], j))))
    v.store(st, lv, Vec(vec.t, vec.len, new))
    return None


def u_apply(T_, it):
    def run(c):
        cx = 'complex' in T_
        pt = ptype(T_)
        v, st = c.engine(), State()
        prec = T_.replace('std::complex<', '').replace('>', '')
        sig = 'std::complex<%s>' % prec if cx else ', %s *' % prec
        fs = [f for f in c.ast.find('heffte::data_scaling::apply', targs=[prec, it]) if sig in f.d['type']['qualType'] and 'void *' in f.d['type']['qualType']]
        if not fs:
            raise Unsupported('data_scaling::apply<%s>' % T_)
        if cx:
            v.contracts['heffte::data_scaling::apply'] = c_apply_real
        vec = v.havoc(T('vec', pt), 'data')
        cell = v.newcell(st, vec)
        n, off, f = v.fresh('n', I), v.fresh('off', I), v.fresh('factor', R)
        st.fact(n >= 0)
        c.live(v, st)
        rets, thr = c.run(v, st, fs[0], None, [NULL, n, Ptr(cell, (), off), f])
        q = v.fresh('q', I)
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), 'does not throw')
        for s, _ in rets:
            out = s.cells[cell]
            for k in range(len(vec.m)):
                g = s.copy()
                g.fact(z3.And(q >= 0, q < n))
                v.oblige(g, z3.Select(out.m[k], off + q) == z3.Select(vec.m[k], off + q) * f, 'entry multiplied by the factor', hints=[off + q])
                g = s.copy()
                g.fact(z3.Or(q < 0, q >= n))
                v.oblige(g, z3.Select(out.m[k], off + q) == z3.Select(vec.m[k], off + q), 'nothing else is written', hints=[off + q])
            v.oblige(s, out.len == vec.len, 'size kept')
    return run


# ---------------------------------------------------------------- get_scale_factor, apply_scale
def log_apply(v, st, fn, this, args):
    """contract of data_scaling::apply at its call sites: recorded (the effect is the unit above)"""
    p = args[2]
    old = st.cells[LOG]
    if not isinstance(p, Ptr):
        raise Unsupported('scaled data')
    st.cells[LOG] = Struct('log', {'count': old.f['count'] + 1, 'n': zi(args[1]), 'factor': args[3], 'cell': z3.IntVal(v.cellid(p.cell)), 'off': zi(p.off) if p.off is not None else z3.IntVal(0)})
    return None


def new_log(v, st):
    st.cells[LOG] = Struct('log', {'count': z3.IntVal(0), 'n': z3.IntVal(0), 'factor': z3.RealVal(0), 'cell': z3.IntVal(-1), 'off': z3.IntVal(0)})
    ids = {}
    v.cellid = lambda c: ids.setdefault(c, len(ids))


def u_factor(cls, it, types):
    def run(c):
        v = c.engine()
        E = enums(v)
        for sc in ('full', 'symmetric'):
            st = State()
            this, _ = the_plan(v, st, cls, it)
            sf = st.cells[this.cell].f['scale_factor']
            st.fact(sf > 0)
            rets, thr = c.run(v, st, c.fn(cls + '::get_scale_factor'), this, [E[sc]])
            for s, r in rets:
                if sc == 'full':
                    v.oblige(s, r == sf, 'full scaling uses the stored factor')
                else:
                    v.oblige(s, r == SQRT(sf), 'symmetric scaling uses its square root')
            for s, _ in thr:
                v.oblige(s, z3.BoolVal(False), 'does not throw')
        for T_ in types:
            for d in ('forward', 'backward'):
                v, st = c.engine(), State()
                v.contracts['heffte::data_scaling::apply'] = log_apply
                this, bx = the_plan(v, st, cls, it)
                sf = st.cells[this.cell].f['scale_factor']
                st.fact(sf > 0)
                v.contracts['get_scale_factor'] = lambda v, st, fn, this, a, sf=sf: z3.If(zi(a[0]) == E['symmetric'], SQRT(sf), sf)
                new_log(v, st)
                cell = v.newcell(st, v.havoc(T('vec', ptype(T_)), 'data'))
                b, scl, off = v.fresh('batch', I), v.fresh('scaling', I), v.fresh('off', I)
                st.fact(z3.And(b >= 1, z3.Or(*[scl == E[k] for k in SCALE])))
                c.live(v, st)
                rets, thr = c.run(v, st, c.fn(cls + '::apply_scale', targs=[T_]), this, [b, E[d], scl, Ptr(cell, (), off)])
                for s, _ in thr:
                    v.oblige(s, z3.BoolVal(False), 'does not throw')
                for s, _ in rets:
                    lg = s.cells[LOG].f
                    v.oblige(s, lg['count'] == z3.If(scl == E['none'], 0, 1), 'scaled exactly when scaling is requested (%s)' % d)
                    g = s.copy()
                    g.fact(scl != E['none'])
                    v.oblige(g, lg['n'] == b * count(bx['poutbox' if d == 'forward' else 'pinbox']), 'the whole batch of the result is scaled (%s)' % d)
                    v.oblige(g, lg['factor'] == z3.If(scl == E['symmetric'], SQRT(sf), sf), 'the factor of the requested scaling (%s)' % d)
                    v.oblige(g, z3.And(lg['cell'] == v.cellid(cell), lg['off'] == off), 'the data given is scaled (%s)' % d)
    return run


# ---------------------------------------------------------------- scale_factor of a new plan
def want_factor(tag, ic, n):
    r = z3.ToReal(ic)
    m1 = z3.ToReal(n[0] - 1) * z3.ToReal(n[1] - 1) * z3.ToReal(n[2] - 1)
    p1 = z3.ToReal(n[0] + 1) * z3.ToReal(n[1] + 1) * z3.ToReal(n[2] + 1)
    return {'fftw_cos': 8 * r, 'fftw_sin': 8 * r, 'fftw_cos1': 8 * m1, 'fftw_sin1': 8 * p1, 'stock_cos1': 64 * m1,
            'stock_cos': 64 * r, 'stock_sin': 64 * r, 'mkl_cos': 64 * r, 'mkl_sin': 64 * r}.get(tag, r)


def u_setup(cls, tag, it, nargs):
    def run(c):
        for k in nargs:
            v, st = c.engine(), State()
            plan = v.havoc(ptype('heffte::logic_plan3d<%s>' % it), 'plan')
            pc = v.newcell(st, plan)
            fs = arr(plan, 'fft_sizes')
            ic = plan.f['index_count']
            st.fact(z3.And(ic >= 1, *[x >= 2 for x in fs]))
            for nm in ('make_reshape3d', 'make_executor', 'make_executor_r2c'):
                v.contracts[nm] = lambda v, st, fn, this, a, nm=nm: maybe_null(v, nm)
            for nm in ('get_max_work_size', 'get_workspace_size', 'get_max_box_size', 'get_max_box_size_r2c', 'box_size', 'complex_size', 'workspace_size', 'real_size'):
                v.contracts[nm] = lambda v, st, fn, this, a, nm=nm: v.fresh(nm, I)
            v.contracts['comm_rank'] = lambda v, st, fn, this, a: plan.f['mpi_rank']
            ctor = [f for f in v.ctors(v.cls(cls)) if 'logic_plan3d' in f.d['type']['qualType'] and len([x for x in v.ast.params(f)]) == k]
            if not ctor:
                raise Unsupported('constructor from a plan')
            obj = Struct(cls, {n: v.uninit(ft) for n, ft, _ in v.fields(v.cls(cls))})
            this = LV(v.newcell(st, obj))
            st.fact(z3.And(plan.f['mpi_rank'] >= 0, plan.f['mpi_rank'] < z3.IntVal(1 << 30)))
            c.live(v, st)
            rets, thr = c.run(v, st, ctor[0], this, ([NULL] if k == 3 else []) + [LV(pc), NULL])
            for s, _ in rets:
                sf = s.cells[this.cell].f['scale_factor']
                v.oblige(s, sf == z3.RealVal(1) / want_factor(tag, ic, fs), 'scale factor of the %s backend' % tag)
                v.oblige(s, z3.BoolVal(same(s.cells[pc], plan)), 'the plan is unchanged')
    return run


def maybe_null(v, nm):
    return Ptr(None, (), None, v.fresh('null.' + nm, B))


UNITS = []
for T_ in ('float', 'double', 'std::complex<float>', 'std::complex<double>'):
    UNITS.append(Unit('data_scaling::apply<%s>' % T_, u_apply(T_, 'long long')))
for cls, it, types in (('fft3d<heffte::backend::stock, int>', 'int', ('std::complex<double>', 'double')),
                       ('fft3d<heffte::backend::fftw, long long>', 'long long', ('std::complex<float>', 'float')),
                       ('fft3d<heffte::backend::stock_cos, int>', 'int', ('double',)),
                       ('fft3d_r2c<heffte::backend::stock, int>', 'int', ('std::complex<double>', 'double'))):
    UNITS.append(Unit('%s: get_scale_factor, apply_scale' % cls.replace('heffte::backend::', ''), u_factor(cls, it, types)))
for tag, it in (('stock', 'int'), ('fftw', 'long long'), ('mkl', 'int'), ('stock_cos', 'int'), ('stock_sin', 'int'), ('stock_cos1', 'int'), ('mkl_cos', 'int'),
                ('mkl_sin', 'int'), ('fftw_cos', 'int'), ('fftw_sin', 'int'), ('fftw_cos1', 'int'), ('fftw_sin1', 'int')):
    UNITS.append(Unit('fft3d<%s> constructors: scale factor' % tag, u_setup('fft3d<heffte::backend::%s, %s>' % (tag, it), tag, it, (2, 3))))
for tag, it in (('stock', 'int'), ('fftw', 'long long')):
    UNITS.append(Unit('fft3d_r2c<%s> constructors: scale factor' % tag, u_setup('fft3d_r2c<heffte::backend::%s, %s>' % (tag, it), tag, it, (2, 3))))
PUBLIC = (('fft3d<heffte::backend::stock, int>', 'int', (('std::complex<double>', 'std::complex<double>'), ('double', 'std::complex<double>'))),
          ('fft3d<heffte::backend::fftw, long long>', 'long long', (('std::complex<float>', 'std::complex<float>'), ('float', 'std::complex<float>'))),
          ('fft3d<heffte::backend::stock_cos, int>', 'int', (('double', 'double'),)),
          ('fft3d_r2c<heffte::backend::stock, int>', 'int', (('double', 'std::complex<double>'), ('float', 'std::complex<float>'))))
for cls, it, pairs in PUBLIC:
    UNITS.append(Unit('%s: forward and backward scale the result' % cls.replace('heffte::backend::', ''), u_public(cls, it, pairs, 'C14')))
