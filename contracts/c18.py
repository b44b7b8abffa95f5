"""C18: every operation of the packed complex type equals the scalar complex operation in every lane.

Each method of Complex<F, L> is executed on arbitrary real lanes; the constructors give the representation
(lane 2k / 2k+1 hold the real / imaginary part of number k, or one std::complex for L = 1)."""
from contracts.hs import *
import z3
from dv.spec import *
from dv.execu import SQRT
from dv.values import Unsupported

DRIVER = 'lanes'
HARNESS = STOCK
TECHNIQUE = 'contract-based deductive verification'
RULE = 'one unit per precision and lane count, one run of the real method per operation; an obligation per lane'

PACKS = [('float', 1), ('double', 1), ('float', 4), ('double', 2), ('float', 8), ('double', 4), ('float', 16), ('double', 8)]


class Pack:
    def __init__(self, c, F, L):
        self.c, self.F, self.L, self.n = c, F, L, max(1, L // 2)
        self.name = 'heffte::stock::Complex<%s, %d>' % (F, L)
        self.cls = ptype(self.name)

    def reg(self, nums):
        if self.L == 1:
            return Struct('complex', {'re': nums[0][0], 'im': nums[0][1]})
        return Arr([x for p in nums for x in p])

    def nums(self, v, val):
        """the complex numbers a Complex (Struct) or a register holds"""
        if isinstance(val, Struct) and val.cls != 'complex':
            fs = list(val.f.values())
            if len(fs) != 1:
                raise Unsupported('representation of the packed complex type')
            val = fs[0]
        if isinstance(val, Struct):
            return [(val.f['re'], val.f['im'])]
        return [(val.e[2 * k], val.e[2 * k + 1]) for k in range(self.n)]

    def value(self, v, nm):
        s = v.havoc(self.cls, nm)
        if len(s.f) != 1:
            raise Unsupported('representation of the packed complex type')
        f = list(s.f)[0]
        ns = [(v.fresh(nm + 're%d' % k, z3.RealSort()), v.fresh(nm + 'im%d' % k, z3.RealSort())) for k in range(self.n)]
        s.f[f] = self.reg(ns)
        return s, ns

    def method(self, name, sig):
        return self.c.fn(self.name + '::' + name, sig=sig)


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def cdiv(a, b):
    d = b[0] * b[0] + b[1] * b[1]
    return (a[0] * b[0] + a[1] * b[1]) / d, (a[1] * b[0] - a[0] * b[1]) / d


# name, parameter kinds, scalar operation on (this, args...), value is stored in *this too
PP, PR, P0, P2 = 'p', 'r', '', 'pp'
add = lambda x, y: (x[0] + y[0], x[1] + y[1])
sub = lambda x, y: (x[0] - y[0], x[1] - y[1])
OPS = [('operator+', PP, add, 0), ('operator-', PP, sub, 0), ('operator*', PP, cmul, 0), ('operator/', PP, cdiv, 0),
       ('operator+=', PP, add, 1), ('operator-=', PP, sub, 1), ('operator*=', PP, cmul, 1), ('operator/=', PP, cdiv, 1),
       ('operator+', PR, lambda x, r: (x[0] + r, x[1]), 0), ('operator-', PR, lambda x, r: (x[0] - r, x[1]), 0),
       ('operator*', PR, lambda x, r: (x[0] * r, x[1] * r), 0), ('operator/', PR, lambda x, r: (x[0] / r, x[1] / r), 0),
       ('operator+=', PR, lambda x, r: (x[0] + r, x[1]), 1), ('operator-=', PR, lambda x, r: (x[0] - r, x[1]), 1),
       ('operator*=', PR, lambda x, r: (x[0] * r, x[1] * r), 1), ('operator/=', PR, lambda x, r: (x[0] / r, x[1] / r), 1),
       ('fmadd', P2, lambda x, y, z: add(cmul(x, y), z), 0), ('fmsub', P2, lambda x, y, z: sub(cmul(x, y), z), 0),
       ('operator-', P0, lambda x: (-x[0], -x[1]), 0), ('conjugate', P0, lambda x: (x[0], -x[1]), 0),
       ('__mul_i', P0, lambda x: (-x[1], x[0]), 0), ('__mul_neg_i', P0, lambda x: (x[1], -x[0]), 0)]


def operation(c, P, op):
    name, par, f, inplace = op
    v, st = c.engine(), State()
    lab = '%s(%s)' % (name, {'p': 'complex', 'r': 'real', '': '', 'pp': 'complex, complex'}[par])
    me, x = P.value(v, 'x')
    args, ys = [], []
    for i, k in enumerate(par):
        if k == 'p':
            s, y = P.value(v, 'yz'[i])
            ys.append(y)
            args.append(LV(v.newcell(st, s)))
            if '/' in name:
                st.fact(z3.And(*[a * a + b * b != 0 for a, b in y]))
        else:
            r = v.fresh('r', z3.RealSort())
            ys.append([r] * P.n)
            args.append(r)
            if '/' in name:
                st.fact(r != 0)
    sig = {'p': r'\((const )?(heffte::stock::)?Complex<[^()]*&?\)', 'r': r'\(%s\)' % P.F, '': r'\(\)', 'pp': r'Complex.*,.*Complex'}[par]
    this = LV(v.newcell(st, me))
    rets, thr = c.run(v, st, P.method(name, sig), this, args)
    for s, val in rets:
        if isinstance(val, LV):
            val = v.load(s, val)
        res = P.nums(v, val)
        after = P.nums(v, v.load(s, this))
        for k in range(P.n):
            want = f(x[k], *[y[k] for y in ys])
            for h, part in ((0, 'real'), (1, 'imaginary')):
                v.oblige(s, res[k][h] == want[h], '%s: %s part of number %d' % (lab, part, k))
                v.oblige(s, after[k][h] == (want[h] if inplace else x[k][h]), '%s: operand %s, %s part of number %d' % (lab, 'updated' if inplace else 'unchanged', part, k))
    for s, _ in thr:
        v.oblige(s, z3.BoolVal(False), lab + ' does not throw')


def modulus(c, P):
    v, st = c.engine(), State()
    me, x = P.value(v, 'x')
    this = LV(v.newcell(st, me))
    rets, _ = c.run(v, st, P.method('modulus', r'pack|\(\)'), this, [])
    for s, val in rets:
        for k, p in enumerate(P.nums(v, val)):
            for h in (0, 1):
                v.oblige(s, p[h] == SQRT(x[k][0] * x[k][0] + x[k][1] * x[k][1]), 'modulus: lane %d of number %d' % (h, k))
    if P.L == 1:
        return
    v, st = c.engine(), State()
    me, x = P.value(v, 'x')
    m = v.havoc(T('vec', T('real', name=P.F)), 'mem')
    mc, off = v.newcell(st, m), v.fresh('off', z3.IntSort())
    rets, _ = c.run(v, st, P.method('modulus', r'void'), LV(v.newcell(st, me)), [Ptr(mc, (), off)])
    for s, _ in rets:
        a = s.cells[mc].m[0]
        for k in range(P.n):
            v.oblige(s, z3.Select(a, off + k) == SQRT(x[k][0] * x[k][0] + x[k][1] * x[k][1]), 'modulus(pointer): number %d' % k)
        u = v.fresh('u', z3.IntSort())
        v.oblige(s, z3.Implies(z3.Or(u < off, u >= off + P.n), z3.Select(a, u) == z3.Select(m.m[0], u)), 'modulus(pointer): no other location is written')


def access(c, P):
    v, st = c.engine(), State()
    me, x = P.value(v, 'x')
    this = LV(v.newcell(st, me))
    for k in range(P.n):
        rets, _ = c.run(v, st.copy(), P.method('operator[]', None), this, [z3.IntVal(k)])
        for s, val in rets:
            for h, f in ((0, 're'), (1, 'im')):
                v.oblige(s, val.f[f] == x[k][h], 'operator[]: %s part of number %d' % (f, k))
    rets, _ = c.run(v, st.copy(), P.method('get', r'\(\) const'), this, [])
    for s, val in rets:
        for k, p in enumerate(P.nums(v, val)):
            v.oblige(s, z3.And(p[0] == x[k][0], p[1] == x[k][1]), 'get(): number %d' % k)
    # store to memory: exactly the 2n lanes, in order
    m = v.havoc(T('vec', T('real', name=P.F)), 'mem')
    mc = v.newcell(st, m)
    off = v.fresh('off', z3.IntSort())
    rets, _ = c.run(v, st, P.method('get', r'void'), this, [Ptr(mc, (), off)])
    for s, val in rets:
        a = s.cells[mc]
        for k in range(P.n):
            for h in (0, 1):
                v.oblige(s, z3.Select(a.m[0], off + 2 * k + h) == x[k][h], 'get(pointer): lane %d' % (2 * k + h))
        u = v.fresh('u', z3.IntSort())
        v.oblige(s, z3.Implies(z3.Or(u < off, u >= off + 2 * P.n), z3.Select(a.m[0], u) == z3.Select(m.m[0], u)), 'get(pointer): no other location is written')


def constructors(c, P):
    v = c.engine()
    cn = v.cls(P.name)
    R_ = z3.RealSort()
    done = set()
    for ct in v.ctors(cn):
        if ct.d.get('isImplicit'):
            continue
        ps = [re_sig(p) for p in c.ast.params(ct)]
        key = ','.join(ps)
        st = State()
        off, stride = v.fresh('off', z3.IntSort()), v.fresh('stride', z3.IntSort())
        mem = v.havoc(T('vec', T('real', name=P.F)), 'mem')
        cm = v.havoc(T('vec', T('complex', T('real', name=P.F))), 'cmem')
        lane = lambda i: z3.Select(mem.m[0], off + i)
        num = lambda i: (z3.Select(cm.m[0], off + i), z3.Select(cm.m[1], off + i))
        if key == 'preal':
            args, want = [Ptr(v.newcell(st, mem), (), off)], [(lane(2 * k), lane(2 * k + 1)) for k in range(P.n)]
        elif key == 'pcomplex':
            args, want = [Ptr(v.newcell(st, cm), (), off)], [num(k) for k in range(P.n)]
        elif key == 'pcomplex,int':
            args, want = [Ptr(v.newcell(st, cm), (), off), stride], [num(k * stride) for k in range(P.n)]
        elif key == 'real,real':
            x, y = v.fresh('x', R_), v.fresh('y', R_)
            args, want = [x, y], [(x, y)] * P.n
        elif key == '':
            args, want = [], [(z3.RealVal(0), z3.RealVal(0))] * P.n
        elif key in ('arr', 'complex'):
            rv, want = P.value(v, 'reg')
            args = [LV(v.newcell(st, P.reg(want)))]
            if key == 'complex' and P.L != 1:
                continue
        elif key in ('lreal', 'lcomplex'):
            continue            # initializer lists: not used by the library, covered by the harness
        else:
            continue
        val = v.construct(st, P.cls, args, ct)
        done.add('register' if key in ('arr', 'complex') else key)
        for k, p in enumerate(P.nums(v, val)):
            v.oblige(st, z3.And(p[0] == want[k][0], p[1] == want[k][1]), 'constructor(%s): number %d' % (key, k))
    miss = {'preal', 'pcomplex', 'pcomplex,int', 'real,real', '', 'register'} - done
    if miss:
        raise Unsupported('constructors of %s not found: %s' % (P.name, sorted(miss)))


def re_sig(p):
    t = ptype(p.qt)
    if t.kind == 'ptr':
        return 'p' + t.a.kind
    if t.kind == 'vec':
        return 'l' + t.a.kind
    return t.kind


def unit(F, L):
    def f(c):
        P = Pack(c, F, L)
        constructors(c, P)
        for op in OPS:
            operation(c, P, op)
        modulus(c, P)
        access(c, P)
    return Unit('Complex<%s, %d>' % (F, L), f)


UNITS = [unit(F, L) for F, L in PACKS]
