"""C13: the 1-D stages (and the merged 2-D and 3-D ones) of the CPU backends.

An executor is constructed for a symbolic box and asked to transform symbolic data; the library that does the transforms
(FFTW, MKL) is replaced by the contract of its plan interface, which records the plan and the base addresses it is executed at.
The postcondition: the addresses the library is told to use are those of the lines of the box, each line once."""
import itertools
import re
import z3
from dv.spec import *
from dv.values import Unsupported, same, conc
from contracts.hs import *

DRIVER = 'transform'
HARNESS = PIPELINE
INTEG = {'fftw': 'long long', 'mkl': 'int', 'stock': 'int'}


class Plan:
    """what the library was told: sizes per axis, distance per axis, number of transforms and their distance, for input and output"""

    def __init__(self, n, ins, outs, howmany, idist, odist, kind, sign, prec):
        self.n, self.ins, self.outs, self.howmany, self.idist, self.odist = n, ins, outs, howmany, idist, odist
        self.kind, self.sign, self.prec = kind, sign, prec

    def at(self, b, j, out=False):
        s, d = (self.outs, self.odist) if out else (self.ins, self.idist)
        return b * d + z3.Sum([x * y for x, y in zip(j, s)])


def rowmajor(dims, stride):
    """distances of the axes of an array with these leading dimensions"""
    r, p = [], stride
    for x in reversed(dims):
        r.insert(0, p)
        p = p * x
    return r


def off_of(v, s, p):
    """position of a pointer, in elements of the array it points into"""
    if not isinstance(p, Ptr) or p.cell is None:
        raise Unsupported('argument of the library call')
    return p.cell, (zi(p.off) if p.off is not None else z3.IntVal(0))


class Lib:
    """contracts of the plan interfaces (FFTW, the DFTI interface of MKL, the plans of the stock backend): what is recorded"""

    def __init__(self, c, v):
        self.c, self.v = c, v
        self.plans, self.used = {}, []
        # planning never touches the arrays it is given (FFTW_ESTIMATE); only whether they are the same one matters
        here = v.newcell(State(), z3.RealVal(0), 'placeholder')
        v.contracts['heffte::fftw_placeholder'] = lambda v_, s, fn, this, a: Ptr(here, (), simp(2 * zi(a[0])))
        for p, prec in (('fftwf', 'float'), ('fftw', 'double')):
            v.ext[p + '_plan_many_dft'] = self.many('c2c', prec)
            v.ext[p + '_plan_many_dft_r2c'] = self.many('r2c', prec)
            v.ext[p + '_plan_many_dft_c2r'] = self.many('c2r', prec)
            v.ext[p + '_plan_many_r2r'] = self.many('r2r', prec)
            for e in ('dft', 'dft_r2c', 'dft_c2r', 'r2r'):
                v.ext['%s_execute_%s' % (p, e)] = self.execute

        self.desc = {}
        try:
            text = open('/usr/include/mkl/mkl_dfti.h').read()
        except OSError:
            text = ''
        v.enum_ext = {k: int(x) for k, x in re.findall(r'\b(DFTI_[A-Z_]+)\s*=\s*(\d+)', text)}
        for prec in ('s', 'd'):
            v.ext['DftiCreateDescriptor_%s_1d' % prec] = self.create({'s': 'float', 'd': 'double'}[prec], False)
            v.ext['DftiCreateDescriptor_%s_md' % prec] = self.create({'s': 'float', 'd': 'double'}[prec], True)
        v.ext['DftiSetValue'] = self.setvalue
        v.ext['DftiCommitDescriptor'] = self.commit
        v.ext['DftiComputeForward'] = self.compute(-1)
        v.ext['DftiComputeBackward'] = self.compute(1)
        v.contracts['heffte::check_error'] = self.check_error
        v.contracts['heffte::stock::getNumNodes'] = lambda v_, s, fn, this, a: self.count(s)
        v.contracts['heffte::stock::init_fft_tree'] = lambda v_, s, fn, this, a: z3.IntVal(0)
        v.contracts['heffte::init_fft_tree'] = v.contracts['heffte::stock::init_fft_tree']
        v.contracts['heffte::plan_stock_fft::execute'] = self.stock

    def count(self, s):
        n = self.v.fresh('nodes', I)
        s.fact(n >= 1)
        return n

    def check_error(self, v_, s, fn, this, a):
        x = a[0]
        x = zi(self.v.load(s, x) if isinstance(x, LV) else x)
        self.v.oblige(s, x == 0, 'no error status')
        return None

    # MKL: a descriptor collects settings, which take effect when it is committed
    PARAM = {7: 'howmany', 10: 'even', 11: 'place', 12: 'istride', 13: 'ostride', 14: 'idist', 15: 'odist'}

    def create(self, prec, many):
        def h(v_, s, node, a, nodes):
            v = self.v
            cell = v.newcell(s, Struct('DFTI_DESCRIPTOR', {}), 'descriptor')
            if many:
                r = conc(zi(a[2]))
                n = self.ints(s, a[3], r)
            else:
                n = [zi(a[2])]
            self.desc[cell] = {'prec': prec, 'domain': {32: 'c2c', 33: 'r2c'}.get(conc(zi(a[1]))), 'n': n, 'committed': False}
            d = a[0]
            if not isinstance(d, Ptr) or d.cell is None or d.off is not None:
                raise Unsupported('descriptor handle')
            v.store(s, LV(d.cell, d.path), Ptr(cell, (), None))
            return z3.IntVal(0)
        return h

    def descriptor(self, p):
        if not isinstance(p, Ptr) or p.cell not in self.desc:
            raise Unsupported('unknown descriptor %r' % (p,))
        return self.desc[p.cell]

    def setvalue(self, v_, s, node, a, nodes):
        d = self.descriptor(a[0])
        k = self.PARAM.get(conc(zi(a[1])))
        if k is None:
            raise Unsupported('DftiSetValue of parameter %r' % (a[1],))
        d[k] = self.ints(s, a[2], len(d['n']) + 1) if k in ('istride', 'ostride') else zi(a[2])
        d['committed'] = False
        return z3.IntVal(0)

    def commit(self, v_, s, node, a, nodes):
        self.descriptor(a[0])['committed'] = True
        return z3.IntVal(0)

    def compute(self, sign):
        def h(v_, s, node, a, nodes):
            v = self.v
            d = self.descriptor(a[0])
            inplace = conc(d.get('place', z3.IntVal(43))) == 43
            kind = d['domain'] if d['domain'] == 'c2c' else ('r2c' if sign < 0 else 'c2r')
            v.oblige(s, z3.BoolVal(d['committed']), 'the descriptor is committed')
            v.oblige(s, z3.BoolVal(len(a) == (2 if inplace else 3)), 'in-place or not, as planned')
            if kind != 'c2c':
                v.oblige(s, d.get('even', z3.IntVal(40)) == 39, 'conjugate-even data is stored as complex numbers')
            n, plain = d['n'], [z3.IntVal(0)] + rowmajor(d['n'], z3.IntVal(1))
            i, o = d.get('istride', plain), d.get('ostride', plain)
            if inplace:
                o = i
            v.oblige(s, z3.And(i[0] == 0, o[0] == 0), 'no displacement')
            one = z3.IntVal(0)
            cell = a[0].cell
            self.plans[cell] = Plan(n, i[1:], o[1:], d.get('howmany', z3.IntVal(1)), d.get('idist', one), d.get('idist' if inplace else 'odist', one), kind, z3.IntVal(sign), d['prec'])
            self.plans[cell].inplace = inplace
            self.record(s, cell, a[1], a[1] if inplace else a[2])
            return z3.IntVal(0)
        return h

    # the stock backend: postcondition of plan_stock_fft::execute, transform p uses the addresses p * distance + i * stride
    def stock(self, v_, s, fn, this, a):
        v = self.v
        o = v.load(s, this)
        m = re.search(r'plan_stock_fft<(.*), (\d)>$', o.cls)
        if m is None:
            raise Unsupported('execute of ' + o.cls)
        cplx, fwd = 'complex' in m.group(1), int(m.group(2)) == enumerators(v, 'heffte::direction')['forward']
        f = o.f
        if cplx:
            di, do = f['idist'], f['odist']
        else:
            di, do = (f['real_d'], f['comp_d']) if fwd else (f['comp_d'], f['real_d'])
        cell = this.cell
        self.plans[cell] = Plan([f['N']], [f['stride_sz']], [f['stride_sz']], f['num_ffts'], di, do, 'c2c' if cplx else 'r2c' if fwd else 'c2r',
                                z3.IntVal(-1 if fwd else 1), 'float' if 'float' in m.group(1) else 'double')
        self.plans[cell].inplace = cplx
        if not cplx:
            # which of the two overloads: real to complex in the forward direction, complex to real in the backward one
            v.oblige(s, z3.BoolVal(fn.d['type']['qualType'].startswith('void (const std::complex' if not fwd else 'void (const %s' % self.plans[cell].prec)), 'direction of the plan')
        self.record(s, cell, a[0], a[0] if cplx else a[1])
        return None

    def ints(self, s, p, n):
        v = self.v
        if p is None or not isinstance(p, (Ptr, LV)) or p.cell is None or (isinstance(p, Ptr) and p.null is not None and z3.is_true(p.null)):
            return None
        return [zi(v.load(s, v.deref(s, p, k) if k or n > 1 else v.deref(s, p))) for k in range(n)]

    def many(self, kind, prec):
        def h(v_, s, node, a, nodes):
            v = self.v
            r = conc(zi(a[0]))
            if r is None:
                raise Unsupported('rank of the library plan')
            n = self.ints(s, a[1], r)
            i, o = self.ints(s, a[4], r), self.ints(s, a[8], r)
            half = n[:-1] + [n[-1] / 2 + 1]
            ni, no = i or (half if kind == 'c2r' else n), o or (half if kind == 'r2c' else n)
            sign = zi(a[11]) if kind == 'c2c' else z3.IntVal(-1 if kind == 'r2c' else 1)
            cell = v.newcell(s, Struct('fftw_plan_s', {}), 'plan')
            self.plans[cell] = Plan(n, rowmajor(ni, zi(a[5])), rowmajor(no, zi(a[9])), zi(a[2]), zi(a[6]), zi(a[10]), kind, sign, prec)
            where = [(x.cell, None if x.off is None else str(simp(zi(x.off)))) if isinstance(x, (Ptr, LV)) and getattr(x, 'cell', None) is not None else None for x in (a[3], a[7])]
            self.plans[cell].inplace = where[0] == where[1]
            return Ptr(cell, (), None)
        return h

    def execute(self, v_, s, node, a, nodes):
        v = self.v
        p = a[0]
        if not isinstance(p, Ptr) or p.cell not in self.plans:
            raise Unsupported('execution of an unknown plan %r' % (p,))
        self.record(s, p.cell, a[1], a[2])

    def record(self, s, cell, src, dst):
        v = self.v
        self.used.append(cell)
        (ci, oi), (co, oo) = off_of(v, s, src), off_of(v, s, dst)
        if ci != self.data['in'] or co != self.data['out']:
            raise Unsupported('execution on another array')
        s.cells[self.mark] = v.vset(s.cells[self.mark], oi, oo)
        return None


def sizes(box):
    return arr(box, 'size')


def the_box(v, st, it, order):
    box = v.havoc(ptype('heffte::box3d<%s>' % it), 'box')
    lo, hi, sz, od = (arr(box, f) for f in ('low', 'high', 'size', 'order'))
    for a in range(3):
        st.fact(z3.And(sz[a] == hi[a] - lo[a] + 1, sz[a] >= 1))
    for a in range(3):
        st.fact(od[a] == order[a])
    return box, [sz[order[k]] for k in range(3)]


def coords(N, Q, how, i, b, q, r):
    """coordinates of the positions Q that are not transformed, for transform number b of block i"""
    if not Q:
        return {}, [i == 0, b == 0]
    if len(Q) == 1:
        return {Q[0]: b}, [i == 0]
    if how == 'flat':
        return {Q[0]: r, Q[1]: q}, [i == 0]
    return ({Q[0]: b, Q[1]: i} if how == 'inner' else {Q[0]: i, Q[1]: b}), []


def lines(v, g, N, M, P, pl, fam, what):
    """the addresses of the recorded operations are exactly those of the lines of the box, each line once.
    N: sizes of the input array in storage order, M: of the output array, P: the transformed positions"""
    Q = [k for k in range(3) if k not in P]
    off = lambda x, S: x[0] + S[0] * (x[1] + S[1] * x[2])
    mono = mulmono_lemma(v)
    nat = {0: 'flat', 1: 'inner', 2: 'flat'}[P[0]] if len(P) == 1 else 'flat'
    L = [max(1, 1) and z3.If(N[k] >= M[k], N[k], M[k]) for k in range(3)]
    # which axis of the library transform is which dimension of the box
    axes = None
    for perm in itertools.permutations(P):
        if all(proves(g, n == L[p], 1) for n, p in zip(pl.n, perm)):
            axes = perm
            break
    axes = axes or tuple(reversed(P))
    v.oblige(g, z3.And(z3.BoolVal(len(pl.n) == len(P)), *[n == L[p] for n, p in zip(pl.n, axes)]), what + ': the lengths of the transform are those of the box')
    if len(pl.n) != len(P):
        return
    bv = v.fresh('b', I)
    j = [v.fresh('j', I) for _ in P]

    def obligations(how, rev, h0, emit):
        # every transform of every block is a line of the box
        for out in (False, True):
            S, Dn = (M, pl.at) if out else (N, pl.at)
            if out and all(a is b for a, b in zip(M, N)) and pl.same:
                continue
            h = h0.copy()
            q, r = v.fresh('q', I), v.fresh('r', I)
            h.fact(fam.dom)
            h.fact(z3.And(bv >= 0, bv < pl.howmany, *[z3.And(y >= 0, y < S[p]) for y, p in zip(j, axes)]))
            qs = [N[k] for k in Q]
            if len(Q) == 2:
                h.fact(z3.And(bv == r + qs[0] * q, r >= 0, r < qs[0]))      # Euclidean division
                h.fact(mono.at(qs[1], q, qs[0]))
            blk = fam.block if not rev else N[Q[1] if how == 'inner' else Q[0]] - 1 - fam.block     # the order of the blocks is free
            x, extra = coords(N, Q, how, blk, bv, q, r)
            for y, p in zip(j, axes):
                x[p] = y
            base = fam.val if out else fam.idx
            emit(h, z3.And(*extra, *[z3.And(x[k] >= 0, x[k] < S[k]) for k in range(3)]), what + ': every transform is a line of the box' + (' (output)' if out else ''))
            emit(h, base + Dn(bv, j, out) == off(x, S), what + ': it uses the addresses of that line' + (' (output)' if out else ''))
        # every line of the box is transformed
        h = h0.copy()
        y = [v.fresh('y', I) for _ in Q]
        for a, k in zip(y, Q):
            h.fact(z3.And(a >= 0, a < N[k]))
        qs = [N[k] for k in Q]
        if len(Q) == 2:
            h.fact(mono.at(y[1], qs[1] - 1, qs[0]))
            bb, ii = {'flat': (y[0] + qs[0] * y[1], z3.IntVal(0)), 'inner': (y[0], y[1]), 'outer': (y[1], y[0])}[how]
            if rev:
                ii = N[Q[1] if how == 'inner' else Q[0]] - 1 - ii
        else:
            bb, ii = (y[0] if y else z3.IntVal(0)), z3.IntVal(0)
        emit(h, z3.And(bb >= 0, bb < pl.howmany, fam.has(ii)), what + ': every line of the box is transformed')
        # once: blocks and transforms are numbered by the lines
        if len(Q) == 2 and how == 'flat':
            h = h0.copy()
            h.fact(fam.dom)
            emit(h, fam.block == 0, what + ': one block')
    hows = [nat] + [x for x in ('flat', 'inner', 'outer') if x != nat] if len(Q) == 2 else ['flat']
    best = None
    for how, rev in [(h, False) for h in hows] + [(h, True) for h in hows if h != 'flat']:
        res = []
        obligations(how, rev, g, lambda h, goal, nm: res.append(proves(h, goal, 2)) if all(res) else None)
        if all(res):
            best = (how, rev)
            break
    obligations(*(best or (nat, False)), g, lambda h, goal, nm: v.oblige(h, goal, nm))


class Fam:
    """the recorded operations: base addresses (idx of the input, val of the output) as a function of the block"""

    def __init__(self, w):
        self.params, self.dom, self.idx, self.val = list(w.params), w.dom, w.idx, w.val
        self.block = self.params[0] if self.params else z3.IntVal(0)

    def has(self, i):
        return z3.substitute(self.dom, (self.params[0], i)) if self.params else i == 0


def u_exec(cls, it, nd, meth, prec, real=False):
    """nd: number of dimensions merged into one stage; meth: forward or backward"""
    def run(c):
        for order in itertools.permutations(range(3)):
            for dims in {1: [(0,), (1,), (2,)], 2: [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)], 3: [()]}[nd]:
                one(c, cls, it, order, dims, meth, prec, real)
    return run


def one(c, cls, it, order, dims, meth, prec, real):
    v, st = c.engine(), State()
    lib = Lib(c, v)
    box, N = the_box(v, st, it, order)
    P = sorted(order.index(d) for d in dims) if dims else [0, 1, 2]
    M = list(N)
    if real:
        M[P[0]] = N[P[0]] / 2 + 1
    bc = v.newcell(st, box)
    ctor = [f for f in v.ctors(v.cls(cls)) if len(v.ast.params(f)) == 2 + len(dims) and it in f.d['type']['qualType']]
    if not ctor:
        raise Unsupported('constructor of ' + cls)
    this = LV(v.newcell(st, Struct(cls, {n: v.uninit(ft) for n, ft, _ in v.fields(v.cls(cls))})))
    c.live(v, st)
    rets, thr = c.run(v, st, ctor[0], this, [NULL, LV(bc)] + [z3.IntVal(d) for d in dims])
    tag = 'order %d%d%d, dims %s' % (order + (''.join(map(str, dims)),))
    for s, _ in thr:
        v.oblige(s, z3.BoolVal(False), tag + ': the constructor does not throw')
    et = ptype(prec)
    ct = T('complex', et)
    for s, _ in rets:
        tin, tout = (et, ct) if real and meth == 'forward' else (ct, et) if real else (ct, ct)
        a = v.newcell(s, v.havoc(T('vec', tin), 'data'))
        b = v.newcell(s, v.havoc(T('vec', tout), 'result')) if real else a
        lib.data = {'in': a, 'out': b}
        lib.mark = v.newcell(s, v.havoc(T('vec', ptype('int')), 'ghost_mark'), 'ghost_mark')
        sig = [prec, ('complex<%s>' % prec)]
        ms = [f for f in c.ast.find(cls + '::' + meth) if len(v.ast.params(f)) == (3 if real else 2) and ('std::complex<%s> *' % prec) in f.d['type']['qualType']]
        if len(ms) != 1:
            raise Unsupported('%s::%s: %d candidates' % (cls, meth, len(ms)))
        z = z3.IntVal(0)
        args = [Ptr(a, (), z)] + ([Ptr(b, (), z)] if real else []) + [NULL]
        r2, t2 = c.run(v, s, ms[0], this, args)
        for g, _ in t2:
            v.oblige(g, z3.BoolVal(False), tag + ': does not throw')
        for g, _ in r2:
            check(v, g, lib, N, M, P, tag, meth, prec, real)


def check(v, g, lib, N, M, P, tag, meth, prec, real):
    base, fam = flat_writes(v, g.cells[lib.mark].m[0])
    used = sorted(set(lib.used))
    if len(fam) != 1 or len(fam[0].params) > 1 or len(used) != 1:
        raise Unsupported('%s: the transforms are not issued by one loop over the blocks' % tag)
    pl = lib.plans[used[0]]
    pl.same = not real
    v.oblige(g, z3.BoolVal(pl.prec == prec and pl.kind == ({'forward': 'r2c', 'backward': 'c2r'}[meth] if real else 'c2c')), tag + ': type and precision of the library transform')
    v.oblige(g, z3.BoolVal(pl.inplace == (not real)), tag + ': planned for an operation in place exactly when it is executed in place')
    v.oblige(g, pl.sign == (-1 if meth == 'forward' else 1), tag + ': direction of the library transform')
    ins, outs = (N, M) if meth == 'forward' else (M, N)
    if not real:
        h = g.copy()
        h.fact(fam[0].dom)
        v.oblige(h, fam[0].idx == fam[0].val, tag + ': in place')
    lines(v, g, ins, outs, P, pl, Fam(fam[0]), tag)


def u_real(cls, it, meth, prec):
    """the overloads of the complex executors for real data: conversion and complex transform. The complex overload enters by its
    contract: it replaces the contents of its array by a function of what they were"""
    def run(c):
        v, st = c.engine(), State()
        lib = Lib(c, v)
        order = (2, 0, 1)
        box, N = the_box(v, st, it, order)
        bc = v.newcell(st, box)
        ctor = [f for f in v.ctors(v.cls(cls)) if len(v.ast.params(f)) == 3 and it in f.d['type']['qualType']]
        this = LV(v.newcell(st, Struct(cls, {n: v.uninit(ft) for n, ft, _ in v.fields(v.cls(cls))})))
        c.live(v, st)
        et = ptype(prec)
        ct = T('complex', et)
        rets, thr = c.run(v, st, ctor[0], this, [NULL, LV(bc), z3.IntVal(order[0])])
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), 'the constructor does not throw')
        sz = arr(box, 'size')
        off = lambda x: x[0] + N[0] * (x[1] + N[1] * x[2])
        mono = mulmono_lemma(v)
        for s, _ in rets:
            tin, tout = (et, ct) if meth == 'forward' else (ct, et)
            a, b = v.newcell(s, v.havoc(T('vec', tin), 'data')), v.newcell(s, v.havoc(T('vec', tout), 'result'))
            cx = b if meth == 'forward' else a
            H = v.havoc(T('vec', ct), 'transformed')
            ms = [f for f in c.ast.find(cls + '::' + meth) if len(v.ast.params(f)) == 3 and ('std::complex<%s> *' % prec) in f.d['type']['qualType']]
            if len(ms) != 1:
                raise Unsupported('%s::%s: %d candidates' % (cls, meth, len(ms)))
            k = [v.fresh('k', I) for _ in range(3)]
            dom = z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(k, N)])
            z = z3.IntVal(0)
            before = s.cells[a]
            at = lambda vec, h: v.vget(vec, off(k))
            part = lambda e: (e.f['re'], e.f['im']) if isinstance(e, Struct) else (e, z3.RealVal(0))
            calls = []

            def transform(v_, h, fn, this_, args):
                if len(args) != 2:
                    return NotImplemented
                m = fn.name
                calls.append(m)
                p = args[0]
                if not isinstance(p, Ptr) or p.cell != cx:
                    raise Unsupported('transform of another array')
                v.oblige(h, zi(p.off) == 0 if p.off is not None else z3.BoolVal(True), 'the whole array is transformed')
                v.oblige(h, z3.BoolVal(m == meth), 'direction')
                g = h.copy()
                g.fact(dom)
                g.fact(z3.And(*mono_facts))
                x, y = part(at(before, g)), part(at(h.cells[cx], g))
                v.oblige(g, z3.And(x[0] == y[0], x[1] == y[1]), 'what is transformed is the input')
                h.cells[cx] = H
                return None
            v.contracts[cls + '::' + meth] = transform
            # the position of a point of the box is within the box
            mono_facts = [mono.at(k[1] + N[1] * k[2], N[1] * N[2] - 1, N[0]), mono.at(k[2], N[2] - 1, N[1])]
            r2, t2 = c.run(v, s, ms[0], this, [Ptr(a, (), z), Ptr(b, (), z), NULL])
            for g, _ in t2:
                v.oblige(g, z3.BoolVal(False), 'does not throw')
            for g, _ in r2:
                g.fact(dom)
                g.fact(z3.And(*mono_facts))
                x, y = part(at(H, g)), part(at(g.cells[b], g))
                v.oblige(g, z3.And(x[0] == y[0]) if meth == 'backward' else z3.And(x[0] == y[0], x[1] == y[1]), 'the result is the transform of the whole box')
                v.oblige(g, z3.BoolVal(len(calls) == 1), 'one transform')
    return run


NOTE = ('proof for all boxes and all storage orders (symbolic sizes, every order and every choice of merged dimensions): the executors of the three CPU backends and '
        'their real-to-complex versions hand their library exactly the lines of the box, each once, in the right direction, precision and place; the overloads for real '
        'data convert the whole box; what the library computes at those addresses, including the gather and scatter of the stock plans, is bounded (harness)')
ASSUMES = ['the plan interfaces of FFTW (advanced, new-array execute) and MKL (DFTI) use the addresses their documentation gives and compute the transform there',
           'plan_stock_fft::execute uses the addresses p * distance + i * stride (bounded check by the harness)',
           'executors are made for non-empty boxes (make_executor returns null otherwise: C20)']
UNITS = []
for lib, it in INTEG.items():
    for p in ('float', 'double'):
        for meth in ('forward', 'backward'):
            cls = 'stock_fft_executor' if lib == 'stock' else lib + '_executor'
            for nd in (1,) if lib == 'stock' else (1, 2, 3):
                UNITS.append(Unit('%s %dD %s %s' % (cls, nd, meth, p), u_exec('heffte::' + cls, it, nd, meth, p)))
            UNITS.append(Unit('%s_r2c %s %s' % (cls, meth, p), u_exec('heffte::%s_r2c' % cls, it, 1, meth, p, real=True)))
            UNITS.append(Unit('%s %s %s of real data' % (cls, meth, p), u_real('heffte::' + cls, it, meth, p)))
