"""compute_transform under contract, for every combination of inactive redistributions and missing 1-D stages.

Ghost state: for every region of an array that can hold the data of a stage (a base, and one segment of the stage's size
per batch entry) the signal held by each batch entry.  A redistribution i takes the signals of its source region to
S_i(.) in its destination region, a 1-D stage i replaces a signal by F_i(.); both require the addresses they are given to
be those of the region that holds the data.  Positions are counted in real numbers."""
import itertools
import z3
from dv.spec import *
from dv.values import Unsupported, same, conc, simp
from contracts.ct import enums, unref

ARR = z3.ArraySort(I, I)


class Net:
    """the network of a call: sizes, active shapers, present executors"""

    def __init__(self, v, kind, sh, ex, idle):
        self.kind, self.sh, self.ex = kind, sh, ex
        self.S = [z3.Function('S%d' % i, I, I) for i in range(4)]
        self.F = [z3.Function('F%d' % i, I, I) for i in range(3)]
        self.IN = z3.Function('IN', I, I)
        self.facts = []
        fresh = lambda nm: self._pos(v.fresh(nm, I))
        # sizes (number of entries, scalars of the stage's type): n before shaper i, m after it, and after executor i
        self.n, self.m, self.c = [None] * 4, [None] * 4, [None] * 3
        cur = z3.IntVal(0) if -1 in idle else fresh('n')
        for i in range(4):
            self.n[i] = cur
            if sh[i]:
                z = i in idle
                cur = z3.IntVal(0) if z else fresh('m%d' % i)
            self.m[i] = cur
            if i < 3:
                if (kind == 'r2c' and i == 0 or kind == 'c2r' and i == 2) and ex[i]:
                    cur = fresh('c%d' % i)
                    self.facts.append(2 * (cur if kind == 'r2c' else self.m[i]) >= (self.m[i] if kind == 'r2c' else cur))
                self.c[i] = cur
        self.b = fresh('batch')
        self.W = [None if not a else fresh('work%d' % i) for i, a in enumerate(sh)]

    def _pos(self, x):
        self.facts.append(x >= 1)
        return x

    def unit_in(self, i):
        """reals per entry before shaper i / after it"""
        k = self.kind
        return {'c2c': 2, 'r2r': 1, 'r2c': 1 if i == 0 else 2, 'c2r': 1 if i == 3 else 2}[k]

    def want(self, i, where):
        """signal of batch entry j: 'in' before shaper i, 'mid' after it, 'end' after executor i"""
        def f(j):
            s = self.IN(j)
            for k in range(i + 1):
                if k == i and where == 'in':
                    break
                if self.sh[k]:
                    s = self.S[k](s)
                if k == i and where == 'mid':
                    break
                if k < 3 and self.ex[k]:
                    s = self.F[k](s)
            return s
        return f


class Mem:
    def __init__(self, v, st, which):
        self.v, self.which, self.k = v, which, 0
        self.regions = []        # (cell, base, stride) in reals
        self.room = {}
        self.named = []          # C12: regions in use by name

    def gname(self, r):
        return 'SIG!%d' % r

    def region(self, st, cell, base, stride):
        base, stride = simp(base), simp(stride)
        for r, (c, b, s) in enumerate(self.regions):
            if c == cell and conc(simp(b - base)) == 0 and conc(simp(s - stride)) == 0:
                return r
        return None

    def add(self, st, cell, base, stride):
        r = self.region(st, cell, base, stride)
        if r is None:
            self.regions.append((cell, simp(base), simp(stride)))
            r = len(self.regions) - 1
            st.cells[self.gname(r)] = Vec(T('int', n=64), z3.IntVal(0), [self.v.fresh('garbage', ARR)])
        return r

    def sig(self, st, r):
        return st.cells[self.gname(r)].m[0]

    def put(self, st, r, a):
        st.cells[self.gname(r)] = Vec(T('int', n=64), z3.IntVal(0), [a])
        st.cells['LAY!%s!%s' % (self.regions[r][0], self.regions[r][1].sexpr())] = z3.IntVal(r)

    def lay(self, st, r):
        return st.cells.get('LAY!%s!%s' % (self.regions[r][0], self.regions[r][1].sexpr()), z3.IntVal(-1))


def realpos(v, st, p):
    """(cell, position in reals) of a pointer"""
    if not isinstance(p, Ptr) or p.cell is None or p.path:
        raise Unsupported('array argument %r' % (p,))
    vec = st.cells[p.cell]
    off = zi(p.off) if p.off is not None else z3.IntVal(0)
    return p.cell, simp((2 if vec.t.kind == 'complex' and p.view is None else 1) * off)


def syms(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def item(mem, st, net, cell, p, stride):
    """(region, j): position p is segment j of a region with this stride"""
    fixed = {x.get_id() for x in mem.fixed}
    cand = [z3.IntVal(0)] + [x for x in syms(p) if x.get_id() not in fixed and x.sort() == I]
    for r, (c, b, s) in enumerate(mem.regions):
        if c != cell or conc(simp(s - stride)) != 0:
            continue
        for j in cand:
            if conc(simp(z3.simplify(p - b - j * s, som=True))) == 0:
                return r, j
    return None, None


def run_one(c, qfn, T_, it, kind, sh, ex, idle, inplace, d, which):
    v, st = c.engine(), State()
    if d == 'backward' and kind == 'r2c':
        return
    E = enums(v)
    net = Net(v, kind, sh, ex, idle)
    for f in net.facts:
        st.fact(f)
    mem = Mem(v, st, which)
    tag = 'shapers %s stages %s%s%s %s' % (''.join('x' if a else '-' for a in sh), ''.join('x' if a else '-' for a in ex), ' idle%s' % (''.join(map(str, idle))) if idle else '', ' in-place' if inplace else '', d)
    tell = lambda s, g, nm, own: v.oblige(s, g if not isinstance(g, bool) else z3.BoolVal(g), '%s: %s' % (tag, nm)) if own == which else None
    cx = ptype('std::complex<%s>' % T_)
    re_ = ptype(T_)
    tin = {'c2c': cx, 'r2r': re_, 'r2c': re_, 'c2r': cx}[kind]
    tout = {'c2c': cx, 'r2r': re_, 'r2c': cx, 'c2r': re_}[kind]
    twork = re_ if kind == 'r2r' else cx
    uw = 1 if kind == 'r2r' else 2
    cin = v.newcell(st, v.havoc(T('vec', tin), 'in'))
    cout = cin if inplace else v.newcell(st, v.havoc(T('vec', tout), 'out'))
    cws = v.newcell(st, v.havoc(T('vec', twork), 'ws'))
    comm, eoff, X = v.fresh('comm', I), v.fresh('eoff', I), v.fresh('scratch', I)
    SZ = v.fresh('size_workspace', I)
    b = net.b
    # the reported sizes, as computed by the constructors (unit 'reported workspace')
    mx = v.fresh('max_box', I)
    ci = z3.IntVal(0)
    boxes = []
    for i in range(3):
        if ex[i]:
            if kind == 'c2r' and i == 2:
                boxes.append((net.m[2], net.c[2], i))      # (complex size, real size)
            elif kind == 'r2c' and i == 0:
                boxes.append((net.c[0], net.m[0], i))
            else:
                boxes.append((net.m[i], net.m[i], i))
    st.fact(z3.And(comm >= 0, mx >= 0, X >= 0, SZ >= comm + mx + X, eoff == z3.If(X == 0, 0, SZ - X)))
    for cplx, _, _ in boxes:
        st.fact(mx >= cplx)
    for i in range(4):
        if sh[i]:
            st.fact(net.W[i] >= net.n[i] + net.m[i])
            st.fact(comm >= net.W[i])
    mem.fixed = [x for x in [comm, eoff, X, SZ, mx, b] + [y for y in net.n + net.m + net.c + net.W if y is not None] for x in syms(x)]
    # regions that may hold the data of a stage
    stage = []
    for i in range(4):
        stage.append((net.n[i], net.unit_in(i) if not (kind == 'c2r' and i == 3) else 1))
        stage.append((net.m[i], net.unit_in(i)))
    z = z3.IntVal(0)
    bases = [(cin, z), (cout, z), (cws, simp(uw * b * comm)), (cws, z)]
    for cell, base in bases:
        for n, u in stage:
            mem.add(st, cell, base, simp(u * n))
        st.cells['LAY!%s!%s' % (cell, simp(base).sexpr())] = z3.IntVal(-1)
    j = z3.Int('j!net')
    r0 = mem.region(st, cin, z, simp(stage[0][1] * net.n[0]))
    a0 = v.fresh('input', ARR)
    st.fact(z3.ForAll([j], z3.Select(a0, j) == net.IN(j), patterns=[z3.Select(a0, j)]))
    mem.put(st, r0, a0)
    lens = {cin: b * simp(stage[0][1] * net.n[0]), cws: uw * b * SZ}
    end = simp(stage[7][1] * net.m[3])
    lens[cout] = z3.If(lens[cin] >= b * end, lens[cin], b * end) if inplace else b * end

    # pointer arguments
    pin = Ptr(cin, (), z3.IntVal(0))
    pout = Ptr(cout, (), z3.IntVal(0))
    pws = Ptr(cws, (), z3.IntVal(0))
    shv = Arr([Ptr(v.newcell(st, Struct('shaper%d' % i, {'k': z3.IntVal(i)}))) if sh[i] else NULL for i in range(4)])
    exv = Arr([Ptr(v.newcell(st, Struct('executor%d' % i, {'k': z3.IntVal(i)}))) if ex[i] else NULL for i in range(3)])
    idx = lambda s, th: int(str(s.cells[th.cell].cls)[-1])

    def inside(s, cell, lo, n, nm):
        tell(s, z3.Implies(n > 0, z3.And(lo >= 0, lo + n <= lens[cell])), nm + ' stays inside the array', 'C12')

    def apart(s, A, Bx, nm):
        (c1, l1, n1), (c2, l2, n2) = A, Bx
        if c1 == c2:
            tell(s, z3.Or(n1 <= 0, n2 <= 0, l1 + n1 <= l2, l2 + n2 <= l1), nm, 'C12')

    def bulk(s, i, bt, src, dst, u, insz, outsz, op, nm):
        """signals of every batch entry move from the source region to the destination region"""
        (c1, p1), (c2, p2) = src, dst
        tell(s, bt == b, nm + ': the whole batch', 'C11')
        newa = v.fresh('moved', ARR)
        jj = z3.Int('j!net')
        if conc(insz) == 0:
            # nothing is held locally: the redistribution of the signal of the previous stage
            exp = net.want(i, 'in')
            s.fact(z3.ForAll([jj], z3.Select(newa, jj) == op(exp(jj)), patterns=[z3.Select(newa, jj)]))
        else:
            r = mem.region(s, c1, p1, u * insz)
            if r is None:
                tell(s, False, nm + ': the source is where a previous stage left its result', 'C11')
                return
            tell(s, mem.lay(s, r) == r, nm + ': the source holds the result of the previous stage', 'C11')
            old = mem.sig(s, r)
            s.fact(z3.ForAll([jj], z3.Select(newa, jj) == op(z3.Select(old, jj)), patterns=[z3.Select(newa, jj)]))
        if conc(outsz) == 0:
            return
        r = mem.region(s, c2, p2, u * outsz)
        if r is None:
            if which == 'C11' and c2 != cws:
                tell(s, False, nm + ': the destination is the start of the array', 'C11')
            r = mem.add(s, c2, p2, u * outsz)
        mem.put(s, r, newa)

    def c_apply(v, s, fn, th, args):
        i = idx(s, th)
        bt, src, dst, wrk = (unref(v, s, a) for a in args)
        t = fn.d['type']['qualType']
        u = 2 if 'complex' in t else 1
        nm = 'redistribution %d' % i
        tell(s, u == net.unit_in(i), nm + ': type of the data', 'C11')
        P1, P2, P3 = realpos(v, s, src), realpos(v, s, dst), realpos(v, s, wrk)
        n, m = net.n[i], net.m[i]
        A, Bx, Cx = (P1[0], P1[1], b * u * n), (P2[0], P2[1], b * u * m), (P3[0], P3[1], b * u * net.W[i])
        for x, w in ((A, 'source'), (Bx, 'destination'), (Cx, 'workspace')):
            inside(s, *x, '%s: %s' % (nm, w))
        apart(s, A, Cx, nm + ': source and workspace are disjoint')
        apart(s, Bx, Cx, nm + ': destination and workspace are disjoint')
        if not (P1[0] == P2[0] and conc(simp(P1[1] - P2[1])) == 0):
            apart(s, A, Bx, nm + ': source and destination are disjoint')
        bulk(s, i, bt, P1, P2, u, n, m, net.S[i], nm)
        return None

    def c_copy(v, s, fn, th, args):
        a = [unref(v, s, x) for x in args[1:]]
        src, cnt, dst = a
        P1, P2 = realpos(v, s, src), realpos(v, s, dst)
        u = stage[0][1]
        n = net.n[0]
        tell(s, z3.And(zi(cnt) == b * n), 'the copied input is the whole batch', 'C11')
        A, Bx = (P1[0], P1[1], u * zi(cnt)), (P2[0], P2[1], u * zi(cnt))
        inside(s, *A, 'copy: source')
        inside(s, *Bx, 'copy: destination')
        apart(s, A, Bx, 'copy: source and destination are disjoint')
        # the copied entries keep their layout
        r = mem.region(s, P1[0], P1[1], u * n)
        if r is None:
            tell(s, False, 'the input is copied', 'C11')
            return None
        tell(s, mem.lay(s, r) == r, 'the copied data are the input', 'C11')
        q = mem.region(s, P2[0], P2[1], u * n)
        if q is None:
            q = mem.add(s, P2[0], P2[1], u * n)
        mem.put(s, q, mem.sig(s, r))
        return None

    def c_stage(direction):
        def h(v, s, fn, th, args):
            i = idx(s, th)
            nm = 'stage %d' % i
            t = fn.d['type']['qualType']
            ps = [unref(v, s, x) for x in args]
            two = len(ps) == 3
            tell(s, direction == d, nm + ': direction', 'C11')
            wk = ps[-1]
            ui = uo = net.unit_in(i)
            mi, mo = net.m[i], net.c[i]
            if kind == 'c2r' and i == 2:
                uo = 1
            if kind == 'r2c' and i == 0:
                uo = 2
            tell(s, two == (ui != uo), nm + ': real and complex data', 'C11')
            (c1, p1) = realpos(v, s, ps[0])
            (c2, p2) = realpos(v, s, ps[1]) if two else (c1, p1)
            A, Bx = (c1, p1, ui * mi), (c2, p2, uo * mo)
            inside(s, *A, nm + ': input')
            inside(s, *Bx, nm + ': output')
            if two:
                apart(s, A, Bx, nm + ': input and output are disjoint')
            if isinstance(wk, Ptr) and wk.cell is not None:
                (c3, p3) = realpos(v, s, wk)
                Cx = (c3, p3, uw * X)
                inside(s, *Cx, nm + ': scratch')
                apart(s, A, Cx, nm + ': data and scratch are disjoint')
                apart(s, Bx, Cx, nm + ': result and scratch are disjoint')
                if wk.null is not None:
                    tell(s, z3.Implies(wk.null, X == 0), nm + ': scratch is given when it is needed', 'C12')
            else:
                tell(s, X == 0, nm + ': scratch is given when it is needed', 'C12')
            r, jx = item(mem, s, net, c1, p1, simp(ui * mi))
            if r is None:
                tell(s, False, nm + ': transforms the data of one batch entry', 'C11')
                return None
            tell(s, z3.Or(mem.lay(s, r) == r), nm + ': transforms the result of the previous stage', 'C11')
            if not two:
                old = mem.sig(s, r)
                s.cells[mem.gname(r)] = Vec(T('int', n=64), z3.IntVal(0), [z3.simplify(z3.Store(old, jx, net.F[i](z3.Select(old, jx))))])
            else:
                q, jy = item(mem, s, net, c2, p2, simp(uo * mo))
                if q is None or conc(simp(jx - jy)) != 0:
                    tell(s, False, nm + ': writes the data of the same batch entry', 'C11')
                    return None
                old, new = mem.sig(s, r), mem.sig(s, q)
                mem.put(s, q, z3.simplify(z3.Store(new, jx, net.F[i](z3.Select(old, jx)))))
            return None
        return h

    def sizes(what):
        def h(v, s, fn, th, args):
            i = idx(s, th)
            if what == 'in':
                return net.n[i]
            if what == 'out':
                return net.m[i]
            cplx, real, _ = [x for x in boxes if x[2] == i][0]
            return real if what == 'box' else cplx
        return h

    v.contracts['heffte::reshape3d_base::apply'] = c_apply
    v.contracts['heffte::reshape3d_base::size_intput'] = sizes('in')
    v.contracts['heffte::reshape3d_base::size_output'] = sizes('out')
    v.contracts['heffte::reshape3d_base::size_workspace'] = lambda v, s, fn, th, a: net.W[idx(s, th)]
    v.contracts['heffte::executor_base::forward'] = c_stage('forward')
    v.contracts['heffte::executor_base::backward'] = c_stage('backward')
    v.contracts['heffte::executor_base::box_size'] = sizes('box')
    v.contracts['heffte::executor_base::complex_size'] = sizes('complex')
    v.contracts['heffte::executor_base::workspace_size'] = lambda v, s, fn, th, a: v.havoc(T('int', n=64), 'w')
    v.contracts['copy_n'] = c_copy
    c.live(v, st, tag)
    shc, exc = v.newcell(st, shv), v.newcell(st, exv)
    rets, thr = c.run(v, st, qfn, None, [NULL, b, pin, pout, pws, eoff, comm, LV(shc), LV(exc), E[d]])
    for s, _ in thr:
        tell(s, False, 'does not throw', which)
    for s, _ in rets:
        if conc(net.m[3]) == 0:
            continue
        r = mem.region(s, cout, z, end)
        q = v.fresh('entry', I)
        g = s.copy()
        g.fact(z3.And(q >= 0, q < b))
        tell(g, mem.lay(g, r) == r, 'the output holds the result', 'C11')
        tell(g, z3.Select(mem.sig(g, r), q) == net.want(3, 'mid')(q), 'the result of every stage in order, each once', 'C11')
        if not inplace:
            r = mem.region(s, cin, z, simp(stage[0][1] * net.n[0]))
            tell(g, z3.And(mem.lay(g, r) == r, z3.Select(mem.sig(g, r), q) == net.IN(q)), 'the input is unchanged', 'C11')


def combos(kind):
    """shapers, stages, idle redistributions"""
    for sh in itertools.product((0, 1), repeat=4):
        for ex in itertools.product((0, 1), repeat=3):
            # segments of stages that share a box
            seg, cur = [], 0
            for i in range(3):
                if sh[i]:
                    cur = i + 1
                seg.append(cur)
            idle = set()
            for g in set(seg):
                st = [i for i in range(3) if seg[i] == g]
                if not any(ex[i] for i in st):
                    idle.add(g - 1)     # -1: the rank has no input
            # the real stage is never missing on a rank that has data (unit 'constructors: wiring')
            if kind == 'r2c' and not ex[0] and (seg[0] - 1) not in idle or kind == 'c2r' and not ex[2] and (seg[2] - 1) not in idle:
                continue

            yield sh, ex, tuple(sorted(idle))


def u_ct(sigmatch, T_, it, kind, d, inplace, which):
    def run(c):
        fs = [f for f in c.ast.find('heffte::compute_transform') if sigmatch in f.d['type']['qualType'] and c.ast.targs(f)[1] == it]
        if not fs:
            raise Unsupported('compute_transform for ' + sigmatch)
        for sh, ex, idle in combos(kind):
            run_one(c, fs[0], T_, it, kind, sh, ex, idle, inplace, d, which)
    return run
