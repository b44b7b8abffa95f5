"""C19: the C interface, against contracts of the C++ classes it wraps.

Constructors, transforms and size queries of heffte::fft3d and heffte::fft3d_r2c enter as contracts that record the class, the
overload and the arguments (what they compute: C06 to C15); the postcondition of each C function says which one is called."""
import re
import z3
from dv.spec import *
from dv.values import Unsupported, conc, Out, Opaque
from dv import astload
from contracts.hs import *

DRIVER = 'capi'
HARNESS = API
BACKENDS = {'stock': 0, 'fftw': 1, 'mkl': 2}
DEFS = {}


def constants():
    """the values the C header gives to the names of the interface"""
    t = open(astload.REPO + '/include/heffte_c_defines.h').read()
    return {k: int(x) for k, x in re.findall(r'^#define\s+Heffte_(\w+)\s+(\d+)', t, re.M)}


def records(v):
    """the two unnamed structures behind the typedef names of the C header (clang gives no name to dump them by)"""
    t = re.sub(r'/\*.*?\*/|//[^\n]*', '', open(astload.REPO + '/include/heffte_c_defines.h').read(), flags=re.S)
    for body, name in re.findall(r'typedef\s+struct\s*\w*\s*\{([^}]*)\}\s*(\w+)\s*;', t):
        n = astload.Node({'kind': 'CXXRecordDecl', 'name': name, '_q': name}, None)
        for ty, star, f in re.findall(r'([\w ]+?)\s*(\*?)\s*(\w+)\s*;', body):
            n.kids.append(astload.Node({'kind': 'FieldDecl', 'name': f, 'id': name + '.' + f, 'type': {'qualType': (ty.strip() + ' ' + star).strip()}}, n))
        v.ast.classes[name] = n


class Ghost:
    """what was done to the C++ side"""

    def __init__(self, c):
        self.c, self.v = c, c.engine()
        v = self.v
        records(v)
        self.k = constants()
        self.built, self.calls, self.gone = [], [], []
        for cls in ('heffte::fft3d', 'heffte::fft3d_r2c'):
            v.ctor_intercept[cls] = self.ctor
            for m in ('forward', 'backward'):
                v.contracts['%s::%s' % (cls, m)] = self.call
            for m in ('size_inbox', 'size_outbox', 'size_workspace'):
                v.contracts['%s::%s' % (cls, m)] = self.size
        v.delete_hook = self.delete

    def begin(self, st):
        self.n = self.v.newcell(st, z3.IntVal(0), 'ghost_count')

    def tick(self, st):
        st.cells[self.n] = st.cells[self.n] + 1

    def ctor(self, v, st, cn, args):
        args = [v.load(st, a) if isinstance(a, LV) else a for a in args]
        # it may reject its arguments
        v.side.append((st.copy(), Out('throw', 'std::invalid_argument')))
        self.built.append((st.copy(), cn.d['_q'], args))
        self.tick(st)
        return Struct(cn.d['_q'], {'id': z3.IntVal(len(self.built))})

    def call(self, v, st, fn, this, args):
        self.calls.append((st.copy(), re.sub(r'::\w+$', '', fn.d['_q']), fn.name, fn.d['type']['qualType'], this, [v.load(st, a) if isinstance(a, LV) else a for a in args]))
        self.tick(st)
        return None

    def size(self, v, st, fn, this, args):
        r = v.fresh('size', I)
        st.fact(z3.And(r >= 0, r <= 2147483647))
        self.calls.append((st.copy(), re.sub(r'::\w+$', '', fn.d['_q']), fn.name, '', this, r))
        self.tick(st)
        return r

    def delete(self, st, p, t):
        self.gone.append((p, t))

    # --- the arguments of a caller
    def plan(self, st, b, r2c):
        v = self.v
        q = self.classname(b, r2c)
        obj = v.newcell(st, Struct(q, {'id': z3.IntVal(0)}), 'fft')
        p = v.newcell(st, Struct('heffte_fft_plan', {'backend_type': z3.IntVal(BACKENDS[b]), 'using_r2c': z3.IntVal(int(r2c)), 'fft': Ptr(obj)}), 'plan')
        return p, obj

    def classname(self, b, r2c):
        n = 'heffte::fft3d%s<heffte::backend::%s, int>' % ('_r2c' if r2c else '', b)
        if n not in self.v.ast.classes:
            raise Unsupported('class ' + n)
        return n

    def fn(self, name):
        l = [f for f in self.c.ast.find(name) if self.v.ast.body(f) is not None]
        if len(l) != 1:
            raise Unsupported('%d definitions of %s' % (len(l), name))
        return l[0]


def is_null(p):
    return isinstance(p, Ptr) and p.cell is None or (isinstance(p, Ptr) and p.null is not None and z3.is_true(z3.simplify(p.null)))


def defaults(g, st, b):
    """what default_options<backend> gives (the real function)"""
    l = [f for f in g.c.ast.find('heffte::default_options') if ('7backend' in (f.d.get('mangledName') or '')) and ('%d%s' % (len(b), b)) in f.d['mangledName']]
    if len(l) != 1:
        raise Unsupported('%d instances of default_options for %s' % (len(l), b))
    r, t = g.c.run(g.v, st, l[0], None, [])
    if len(r) != 1 or t:
        raise Unsupported('default_options')
    return r[0]


def algorithms(g):
    e = enumerators(g.v, 'heffte::reshape_algorithm')
    return {g.k['RESHAPE_ALGORITHM_ALLTOALLV']: e['alltoallv'], g.k['RESHAPE_ALGORITHM_P2P_PLINED']: e['p2p_plined'], g.k['RESHAPE_ALGORITHM_P2P']: e['p2p']}


def enum_cell(v, st, vals, name):
    cell = v.newcell(st, v.havoc(T('vec', ptype('int')), name), name)
    vec = st.cells[cell]
    got = [v.vget(vec, z3.IntVal(i)) for i in range(len(vals))]
    for a, b in zip(got, vals):
        if b is not None:
            st.fact(a == b)
    return Ptr(cell, (), z3.IntVal(0)), got


def u_create(b, r2c, orders, given):
    def run(c):
        g = Ghost(c)
        v, st = g.v, State()
        g.begin(st)
        lo_i, li = enum_cell(v, st, [None] * 3, 'inbox_low')
        hi_i, hi = enum_cell(v, st, [None] * 3, 'inbox_high')
        lo_o, lo = enum_cell(v, st, [None] * 3, 'outbox_low')
        hi_o, ho = enum_cell(v, st, [None] * 3, 'outbox_high')
        od = [NULL, NULL]
        want_o = [[0, 1, 2], [0, 1, 2]]
        if orders:
            od = []
            for w in range(2):
                p, x = enum_cell(v, st, [None] * 3, 'order')
                st.fact(z3.And(*[z3.And(y >= 0, y <= 2) for y in x], z3.Distinct(*x)))
                od.append(p)
                want_o[w] = x
        if given:
            o = v.havoc(ptype('heffte_plan_options'), 'options')
            op = Ptr(v.newcell(st, o, 'options'))
        else:
            o, op = None, NULL
        d = v.fresh('direction', I)
        comm = v.havoc(ptype('MPI_Comm'), 'comm')
        handle = v.newcell(st, Ptr(v.newcell(st, Struct('heffte_fft_plan', {}), 'stale')), 'handle')
        args = [z3.IntVal(BACKENDS[b]), lo_i, hi_i, od[0], lo_o, hi_o, od[1]] + ([d] if r2c else []) + [comm, op, Ptr(handle)]
        c.live(v, st)
        f = g.fn('heffte_plan_create' + ('_r2c' if r2c else ''))
        rets, thr = c.run(v, st, f, None, args)
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), 'no exception crosses the interface')
        alg = algorithms(g)
        good = z3.Or(*[o.f['algorithm'] == a for a in alg]) if given else z3.BoolVal(True)
        for h, q, a in g.built:
            v.oblige(h, z3.BoolVal(q == g.classname(b, r2c)), 'the class of the requested backend')
            v.oblige(h, good, 'built only from valid options')
            bi, bo, rest = a[0], a[1], a[2:]
            for w, (bx, l_, h_) in enumerate(((bi, li, hi), (bo, lo, ho))):
                nm = ('inbox', 'outbox')[w]
                v.oblige(h, z3.And(*[x == y for x, y in zip(arr(bx, 'low'), l_)], *[x == y for x, y in zip(arr(bx, 'high'), h_)]), nm + ': the corners')
                v.oblige(h, z3.And(*[x == y for x, y in zip(arr(bx, 'order'), want_o[w])]), nm + ': the order')
            if r2c:
                v.oblige(h, zi(rest[0]) == d, 'the direction that is shortened')
                rest = rest[1:]
            v.oblige(h, z3.BoolVal(rest[0] is comm or same_value(rest[0], comm)), 'the communicator')
            opt = rest[1]
            s0, dflt = defaults(g, st.copy(), b)
            if given:
                T_ = lambda n: o.f[n] != 0
                v.oblige(h, z3.And(*[as_bool(opt.f[n]) == T_(n) for n in ('use_reorder', 'use_pencils', 'use_gpu_aware')]), 'the options')
                v.oblige(h, z3.And(*[z3.Implies(o.f['algorithm'] == k, zi(opt.f['algorithm']) == x) for k, x in alg.items()]), 'the algorithm')
            else:
                v.oblige(h, z3.And(*[as_bool(opt.f[n]) == as_bool(dflt.f[n]) for n in ('use_reorder', 'use_pencils', 'use_gpu_aware')]), 'the default options of the backend')
                v.oblige(h, zi(opt.f['algorithm']) == zi(dflt.f['algorithm']), 'the default algorithm of the backend')
        ok = g.k['SUCCESS']
        seen = 0
        for s, r in rets:
            p = s.cells[handle]
            for cond, q_ in (p.alts if isinstance(p, Union) else [(z3.BoolVal(True), p)]):
                k = s.copy()
                k.fact(cond)
                if is_null(q_):
                    v.oblige(k, zi(r) != ok, 'a null plan comes with an error code')
                    v.oblige(k, zi(r) == 2, 'the error code of a failed creation')
                    continue
                v.oblige(k, zi(r) == ok, 'a failed creation leaves a null plan')
                v.oblige(k, good, 'success only for valid options')
                pl = v.load(k, LV(q_.cell, q_.path))
                seen += 1
                v.oblige(k, z3.And(zi(pl.f['backend_type']) == BACKENDS[b], (zi(pl.f['using_r2c']) != 0) == z3.BoolVal(r2c)), 'the plan remembers its backend and kind')
                x = pl.f['fft']
                if not isinstance(x, Ptr) or x.cell is None:
                    v.oblige(k, z3.BoolVal(False), 'the plan holds the transform')
                else:
                    v.oblige(k, z3.BoolVal(isinstance(k.cells[x.cell], Struct) and k.cells[x.cell].cls == g.classname(b, r2c)), 'the plan holds the transform')
                v.oblige(k, k.cells[g.n] == 1, 'one transform is built')
        v.oblige(st, z3.BoolVal(seen > 0), 'creation can succeed')
    return run


def as_bool(x):
    x = zi(x) if not (hasattr(x, 'sort') and x.sort() == z3.BoolSort()) else x
    return x if x.sort() == z3.BoolSort() else x != 0


def same_value(a, b):
    if hasattr(a, 'eq') and hasattr(b, 'eq'):
        return z3.simplify(a).eq(z3.simplify(b))
    return a is b


def u_invalid(r2c):
    def run(c):
        g = Ghost(c)
        v, st = g.v, State()
        g.begin(st)
        b = v.fresh('backend', I)
        st.fact(z3.And(*[b != x for x in BACKENDS.values()]))
        handle = v.newcell(st, Ptr(v.newcell(st, Struct('heffte_fft_plan', {}), 'stale')), 'handle')
        arrays = [enum_cell(v, st, [None] * 3, 'a')[0] for _ in range(4)]
        comm = v.havoc(ptype('MPI_Comm'), 'comm')
        c.live(v, st)
        args = [b, arrays[0], arrays[1], NULL, arrays[2], arrays[3], NULL] + ([z3.IntVal(0)] if r2c else []) + [comm, NULL, Ptr(handle)]
        rets, thr = c.run(v, st, g.fn('heffte_plan_create' + ('_r2c' if r2c else '')), None, args)
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), 'no exception crosses the interface')
        for s, r in rets:
            v.oblige(s, zi(r) == 1, 'the error code of an invalid backend')
            v.oblige(s, z3.BoolVal(is_null(s.cells[handle])), 'a failed creation leaves a null plan')
        v.oblige(st, z3.BoolVal(not g.built), 'nothing is built')
        o = v.newcell(st, v.havoc(ptype('heffte_plan_options'), 'options'), 'options')
        rets, thr = c.run(v, st, g.fn('heffte_set_default_options'), None, [b, Ptr(o)])
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), 'no exception crosses the interface')
        for s, r in rets:
            v.oblige(s, zi(r) == 1, 'the error code of an invalid backend')
    return run


def u_defaults(c):
    for b, n in BACKENDS.items():
        g = Ghost(c)
        v, st = g.v, State()
        g.begin(st)
        cell = v.newcell(st, v.havoc(ptype('heffte_plan_options'), 'options'), 'options')
        rets, thr = c.run(v, st, g.fn('heffte_set_default_options'), None, [z3.IntVal(n), Ptr(cell)])
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), 'no exception crosses the interface')
        alg = algorithms(g)
        for s, r in rets:
            o = s.cells[cell].f
            s1, d = defaults(g, s, b)
            v.oblige(s1, zi(r) == g.k['SUCCESS'], b + ': success')
            v.oblige(s1, z3.And(*[(o[x] != 0) == as_bool(d.f[x]) for x in ('use_reorder', 'use_pencils', 'use_gpu_aware')]), b + ': the default options')
            v.oblige(s1, z3.Or(*[z3.And(o['algorithm'] == k, zi(d.f['algorithm']) == x) for k, x in alg.items()]), b + ': the default algorithm')


KIND = {'s': ('float', False), 'c': ('float', True), 'd': ('double', False), 'z': ('double', True)}


def u_compute(meth, kinds, buffered):
    name = 'heffte_%s_%s2%s%s' % (meth, kinds[0], kinds[1], '_buffered' if buffered else '')

    def run(c):
        real = kinds[0] != kinds[1]
        for b in BACKENDS:
            for r2c in ((False, True) if real else (False,)):
                g = Ghost(c)
                v, st = g.v, State()
                g.begin(st)
                p, obj = g.plan(st, b, r2c)
                ty = lambda k: T('complex', ptype(KIND[k][0])) if KIND[k][1] else ptype(KIND[k][0])
                cells = [v.newcell(st, v.havoc(T('vec', ty(k)), 'data'), 'data') for k in kinds + kinds[:1] if True]
                offs = [v.fresh('off', I) for _ in cells]
                s_ = v.fresh('scale', I)
                c.live(v, st)
                ptrs = [Ptr(x, (), o) for x, o in zip(cells, offs)]
                args = [Ptr(p)] + ptrs[:2] + ([ptrs[2]] if buffered else []) + [s_]
                rets, thr = c.run(v, st, g.fn(name), None, args)
                tag = '%s on a %s %s plan' % (name, b, 'r2c' if r2c else 'c2c')
                for s, _ in thr:
                    v.oblige(s, z3.BoolVal(False), tag + ': no exception crosses the interface')
                for s, _ in rets:
                    v.oblige(s, s.cells[g.n] == 1, tag + ': one transform is computed')
                for h, q, m, sig, this, a in g.calls:
                    v.oblige(h, z3.BoolVal(q == g.classname(b, r2c) and getattr(this, 'cell', None) == obj), tag + ': on the transform of the plan')
                    v.oblige(h, z3.BoolVal(m == meth), tag + ': the direction')
                    ps = [x.strip() for x in re.search(r'\((.*)\)', sig).group(1).split(', ')]
                    if len(a) == 4 + buffered and conc(zi(a[0])) is not None:     # the batch overload
                        v.oblige(h, zi(a[0]) == 1, tag + ': one signal')
                        a, ps = a[1:], ps[1:]
                    v.oblige(h, z3.BoolVal(len(a) == 3 + buffered), tag + ': the overload %s a workspace' % ('with' if buffered else 'without'))
                    if len(a) != 3 + buffered:
                        continue
                    norm = lambda x: re.sub(r'\bconst\b|\s|std::|[\[\]*&]|heffte::', '', x)
                    want = ['complex<%s>' % KIND[k][0] if KIND[k][1] else KIND[k][0] for k in kinds]
                    v.oblige(h, z3.BoolVal([norm(x) for x in ps[:2]] == want), tag + ': the precision')
                    for x, w, n in list(zip(a, ptrs, ('input', 'output', 'workspace')))[:2 + buffered]:
                        good = isinstance(x, Ptr) and x.cell == w.cell and x.off is not None
                        v.oblige(h, z3.And(z3.BoolVal(good), zi(x.off) == w.off if good else z3.BoolVal(False)), '%s: the %s' % (tag, n))
                    e = enumerators(v, 'heffte::scale')
                    k = g.k
                    v.oblige(h, z3.And(*[z3.Implies(s_ == k['SCALE_' + n.upper()], zi(a[-1]) == e[n]) for n in ('none', 'full', 'symmetric')]), tag + ': the scaling')
    return run


def u_sizes(c):
    for b in BACKENDS:
        for r2c in (False, True):
            for m in ('size_inbox', 'size_outbox', 'size_workspace', 'get_backend', 'is_r2c'):
                g = Ghost(c)
                v, st = g.v, State()
                g.begin(st)
                p, obj = g.plan(st, b, r2c)
                rets, thr = c.run(v, st, g.fn('heffte_' + m), None, [Ptr(p)])
                tag = '%s of a %s %s plan' % (m, b, 'r2c' if r2c else 'c2c')
                for s, _ in thr:
                    v.oblige(s, z3.BoolVal(False), tag + ': no exception crosses the interface')
                for s, r in rets:
                    if m == 'get_backend':
                        v.oblige(s, zi(r) == BACKENDS[b], tag)
                    elif m == 'is_r2c':
                        v.oblige(s, (zi(r) != 0) == z3.BoolVal(r2c), tag)
                    else:
                        calls = [x for x in g.calls if x[2] == m]
                        v.oblige(s, z3.BoolVal(len(g.calls) == 1 and len(calls) == 1), tag + ': the plan is asked')
                        if calls:
                            h, q, _, _, this, n = calls[0]
                            v.oblige(s, z3.BoolVal(q == g.classname(b, r2c) and getattr(this, 'cell', None) == obj), tag + ': of the transform of the plan')
                            v.oblige(s, zi(r) == n, tag + ': its answer is returned')


def u_destroy(c):
    for b in BACKENDS:
        for r2c in (False, True):
            g = Ghost(c)
            v, st = g.v, State()
            g.begin(st)
            p, obj = g.plan(st, b, r2c)
            rets, thr = c.run(v, st, g.fn('heffte_plan_destroy'), None, [Ptr(p)])
            tag = 'a %s %s plan' % (b, 'r2c' if r2c else 'c2c')
            for s, _ in thr:
                v.oblige(s, z3.BoolVal(False), tag + ': no exception crosses the interface')
            for s, r in rets:
                v.oblige(s, zi(r) == g.k['SUCCESS'], tag + ': success')
            fft = [(x, t) for x, t in g.gone if isinstance(x, Ptr) and x.cell == obj]
            pl = [x for x, t in g.gone if isinstance(x, Ptr) and x.cell == p]
            norm = lambda t: re.sub(r'heffte::|\s|\*|, int(?=>)|,int(?=>)', '', t)
            v.oblige(st, z3.BoolVal(len(fft) == 1 and len(pl) == 1 and len(g.gone) == 2), tag + ': the transform and the plan are deleted once')
            v.oblige(st, z3.BoolVal(len(fft) == 1 and norm(fft[0][1]) == norm(g.classname(b, r2c))), tag + ': as an object of its class')
            v.oblige(st, z3.BoolVal(len(g.gone) == 2 and isinstance(g.gone[-1][0], Ptr) and g.gone[-1][0].cell == p), tag + ': the plan last')


NOTE = ('proof for all arguments, for each of the three CPU backends and both kinds of plan: what the C functions build, call, return and delete on the C++ side, error codes, '
        'null plans and exceptions; the C++ classes enter by contracts that record the call (their behaviour: C06 to C15)')
ASSUMES = ['the handle passed to a compute, size or destroy function was made by a successful creation of the kind the function is documented for',
           'the structures of heffte_c_defines.h have the fields their text lists (clang gives these unnamed structures no name to dump them by)',
           'exceptions of the constructors derive from std::exception', 'GPU backends are not compiled here']
UNITS = [Unit('default options', u_defaults), Unit('sizes', u_sizes), Unit('destroy', u_destroy), Unit('invalid backend', u_invalid(False)), Unit('invalid backend, r2c', u_invalid(True))]
for b in BACKENDS:
    for r2c in (False, True):
        for orders in (False, True):
            for given in (False, True):
                UNITS.append(Unit('create %s%s%s%s' % (b, ' r2c' if r2c else '', ', orders' if orders else '', ', options' if given else ''), u_create(b, r2c, orders, given)))
for meth, kk in (('forward', ('sc', 'cc', 'dz', 'zz')), ('backward', ('cs', 'cc', 'zd', 'zz'))):
    for kinds in kk:
        for buffered in (False, True):
            UNITS.append(Unit('%s %s%s' % (meth, kinds, ' buffered' if buffered else ''), u_compute(meth, kinds, buffered)))
