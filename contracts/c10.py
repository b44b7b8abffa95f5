"""C10: redistribution.

apply_base of every reshape class, with the packers and MPI replaced by contracts that log what they are asked to do in ghost arrays."""
import itertools
import z3
from dv.spec import *
from dv.values import Unsupported, same, conc
from contracts.c04 import fa, val
from contracts.hs import *

DRIVER = 'reshape'
HARNESS = RESHAPE
IV = ptype('std::vector<int>')


def enumerator(v, enum, name):
    return z3.IntVal(enumerators(v, enum)[name])


class World:
    """the object, the three user arrays, the ghost logs"""

    def __init__(self, c, cls, T_, over):
        self.c, self.v, self.st = c, c.engine(), State()
        v, st = self.v, self.st
        self.f = {}
        for nm, t, _ in v.fields(v.cls(cls)):
            x = over(self, nm, t) if over else None
            if x is None:
                try:
                    x = v.havoc(t, nm)
                except Unsupported:
                    x = Opaque(nm)
            self.f[nm] = x
        self.obj = Struct(cls, self.f)
        self.this = LV(v.newcell(st, self.obj, 'this'))
        et = ptype(T_)
        self.cell, self.ptr = {}, {}
        for k in ('source', 'destination', 'workspace'):
            self.cell[k] = v.newcell(st, v.havoc(T('vec', et), k), k)
            self.ptr[k] = Ptr(self.cell[k], (), z3.IntVal(0))
        self.g = {}

    def ghost(self, name):
        v = self.v
        if name not in self.g:
            self.g[name] = v.newcell(self.st, v.havoc(T('vec', ptype('int')), 'ghost_' + name), 'ghost_' + name)
        return self.g[name]

    def log(self, s, name, idx, val_):
        v = self.v
        cell = self.g[name]
        s.cells[cell] = v.vset(s.cells[cell], idx, zi(val_))

    def families(self, s, name):
        base, ws = flat_writes(self.v, s.cells[self.g[name]].m[0])
        return ws

    def where(self, p):
        """(array, offset) of a pointer into one of the arrays"""
        for k, cl in self.cell.items():
            if isinstance(p, Ptr) and p.cell == cl:
                return k, (zi(p.off) if p.off is not None else z3.IntVal(0))
        raise Unsupported('pointer into another array')

    def index_of(self, a, field):
        """index of an element of a member list"""
        lv = a
        if isinstance(lv, (LV, Ptr)) and lv.cell == self.this.cell:
            pt = list(lv.path)
            nm = [y[-1] if isinstance(y, tuple) else y for y in pt]
            if field in [x for x in nm if isinstance(x, str)]:
                if isinstance(lv, Ptr) and lv.off is not None:
                    return zi(lv.off)
                return zi(nm[-1])
        raise Unsupported('not an element of ' + field)


MANG = {'float': 'If', 'double': 'Id', 'std::complex<float>': 'ISt7complexIfE', 'std::complex<double>': 'ISt7complexIdE', 'int': 'i', 'long long': 'x'}


def apply_base(c, kind, packer, it, T_):
    cls = 'heffte::reshape3d_%s<heffte::tag::cpu, ?, %s>' % (kind, it)
    fs = [f for f in c.ast.find(cls + '::apply_base') if ('%sE%sE10apply_base%sE' % (packer, MANG[it], MANG[T_])) in (f.d.get('mangledName') or '')]
    if not fs:
        raise Unsupported('apply_base of %s not found' % cls)
    return cls, fs[0]


ARRAYS = ('pack plan', 'pack source', 'unpack plan', 'unpack source', 'irecv buffer', 'irecv count', 'irecv rank', 'send buffer', 'send count', 'send rank')


def p2p_world(c, cls, T_, plined, selfself):
    def over(w, nm, t):
        v = w.v
        if nm == 'algorithm':
            return enumerator(v, 'reshape_algorithm', 'p2p_plined' if plined else 'p2p')
        if nm == 'self_to_self':
            return z3.BoolVal(selfself)
        if nm in ('requests', 'isends'):
            return v.havoc(IV, nm)
        if nm == 'comm':
            w.comm = Ptr(v.newcell(w.st, z3.IntVal(0)), (), z3.IntVal(0))
            return w.comm
    w = World(c, cls, T_, over)
    v, st, f = w.v, w.st, w.f
    w.R = v.fresh('R', I)     # number of received messages, this rank included
    w.S = v.fresh('S', I)
    k = 1 if selfself else 0
    st.fact(z3.And(w.R >= k, w.S >= k))
    for nm in ('recv_proc', 'recv_offset', 'recv_size', 'unpackplan'):
        st.fact(f[nm].len == w.R)
    st.fact(z3.And(f['recv_loc'].len >= w.R, f['recv_loc'].len >= 1))
    for nm in ('send_proc', 'send_offset', 'send_size', 'packplan'):
        st.fact(f[nm].len == w.S)
    st.fact(z3.And(f['requests'].len == w.R - k, f['isends'].len == w.S - k))
    t = z3.Int('t!r')
    at = lambda nm, i: zi(v.vget(f[nm], i))
    st.fact(fa(t, z3.Implies(z3.And(t >= 0, t < w.R), at('recv_size', t) >= 1)))
    st.fact(fa(t, z3.Implies(z3.And(t >= 0, t < w.S), at('send_size', t) >= 1)))
    w.at = at
    w.NR, w.NS = w.R - k, w.S - k
    return w


def packers(w, pending):
    """contracts of the packers (C07): what is packed and unpacked is logged; pending(s, i): message i may be unpacked now"""
    v = w.v

    def pack(v_, s, fnode, this, args):
        i = w.index_of(args[1], 'packplan')
        a, so = w.where(args[2])
        b, do = w.where(args[3])
        v.oblige(s, z3.BoolVal(a == 'source' and b == 'workspace'), 'packing reads the source and writes the workspace')
        v.oblige(s, z3.And(i >= 0, i < w.S), 'packing uses a plan of the send list')
        w.log(s, 'pack plan', do, i)
        w.log(s, 'pack source', do, so)

    def unpack(v_, s, fnode, this, args):
        i = w.index_of(args[1], 'unpackplan')
        a, so = w.where(args[2])
        b, do = w.where(args[3])
        v.oblige(s, z3.BoolVal(a == 'workspace' and b == 'destination'), 'unpacking reads the workspace and writes the destination')
        v.oblige(s, z3.And(i >= 0, i < w.R), 'unpacking uses a plan of the receive list')
        v.oblige(s, pending(s, i), 'a message is unpacked after its completion')
        w.log(s, 'unpack plan', do, i)
        w.log(s, 'unpack source', do, so)
    for pk in ('direct_packer', 'transpose_packer'):
        v.contracts['heffte::%s<heffte::tag::cpu>::pack' % pk] = pack
        v.contracts['heffte::%s<heffte::tag::cpu>::unpack' % pk] = unpack


def u_p2p(c, packer, it, T_, plined, selfself):
    cls, fn = apply_base(c, 'pointtopoint', packer, it, T_)
    w = p2p_world(c, cls, T_, plined, selfself)
    v, st, at = w.v, w.st, w.at
    batch = v.fresh('batch', I)
    st.fact(batch >= 1)
    insz, outsz = zi(w.f['input_size']), zi(w.f['output_size'])
    for nm in ARRAYS:
        w.ghost(nm)
    w.waits = v.newcell(st, z3.IntVal(0), 'ghost_waits')
    perm = z3.Function('completed', I, I)      # the k-th completion is that of request completed(k)
    w.last = v.newcell(st, z3.IntVal(-1), 'ghost_last')

    def pending(s, i):
        own_packed = z3.BoolVal(bool(selfself and w.families(s, 'pack plan') and len(w.families(s, 'pack plan')[-1].params) == 1))
        return z3.Or(i == s.cells[w.last], z3.And(own_packed, i == w.R - 1))
    packers(w, pending)

    def irecv(v_, s, node, x, nodes):
        b, off = w.where(x[0])
        i = w.index_of(x[6], 'requests')
        v.oblige(s, z3.BoolVal(b == 'workspace'), 'messages are received in the workspace')
        v.oblige(s, z3.BoolVal(same_ptr(x[5], w.comm)), 'receive: communicator of the reshape')
        v.oblige(s, z3.And(i >= 0, i < w.NR), 'receive: a request of the list')
        w.log(s, 'irecv buffer', i, off)
        w.log(s, 'irecv count', i, x[1])
        w.log(s, 'irecv rank', i, x[3])
        return z3.IntVal(0)

    def send(req):
        def h(v_, s, node, x, nodes):
            b, off = w.where(x[0])
            v.oblige(s, z3.BoolVal(b == 'workspace'), 'messages are sent from the workspace')
            v.oblige(s, z3.BoolVal(same_ptr(x[5], w.comm)), 'send: communicator of the reshape')
            # the block was packed, for every batch entry, before this point
            ws = w.families(s, 'pack plan')
            if not ws or len(ws[-1].params) != 1:
                raise Unsupported('what a message holds is not packed by one loop over the batch')
            j, i = ws[-1].params[0], ws[-1].val
            h = s.copy()
            h.fact(z3.And(j >= 0, j < batch))
            v.oblige(h, z3.And(ws[-1].dom, ws[-1].idx == off + j * at('send_size', i)), 'a message is sent after its blocks are packed')
            v.oblige(h, z3.And(zi(x[1]) == batch * at('send_size', i), zi(x[3]) == at('send_proc', i)), 'a message goes to the rank it was packed for')
            w.log(s, 'send buffer', off, off)
            w.log(s, 'send count', off, x[1])
            w.log(s, 'send rank', off, x[3])
            return z3.IntVal(0)
        return h

    def waitany(v_, s, node, x, nodes):
        v.oblige(s, zi(x[0]) == w.NR, 'wait: over all requests')
        k = s.cells[w.waits]
        r = perm(zi(k))
        s.fact(z3.And(r >= 0, r < w.NR))
        v.store(s, x[2], r)
        s.cells[w.waits] = zi(k) + 1
        s.cells[w.last] = r
        return z3.IntVal(0)
    v.ext.update(MPI_Irecv=irecv, MPI_Isend=send(True), MPI_Send=send(False), MPI_Waitany=waitany, MPI_Waitall=lambda *a: z3.IntVal(0))
    c.live(v, st)
    rets, thr = c.run(v, st, fn, w.this, [batch, w.ptr['source'], w.ptr['destination'], w.ptr['workspace']])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'does not throw')
    # prefix sums of the sizes of the messages sent to other ranks
    psum = prefix(v, 'psum', lambda i: at('send_size', i))
    rl = lambda i: at('recv_loc', i)
    for g, _ in rets:
        sw = w.families(g, 'send buffer')
        if len(sw) != 1 or len(sw[0].params) != 1:
            raise Unsupported('the messages are not sent by one loop over the list')
        Bf = lambda i: inst(sw[0], [i])[1]
        lem = under(v, g, 'message i is packed at the sum of the sizes of the messages before it', lambda m: z3.Implies(m < w.NS, Bf(m) == batch * psum(m)), psum.step)
        send = Clause(lambda i: z3.And(i >= 0, i < w.NS), lambda i: batch * psum(i), {'buffer': lambda i: batch * psum(i), 'count': lambda i: batch * at('send_size', i), 'rank': lambda i: at('send_proc', i)}, 1, lambda i: [lem(i)])
        check_log(v, w, g, 'send', ['buffer', 'count', 'rank'], [send], 'sends')
        recv = Clause(lambda i: z3.And(i >= 0, i < w.NR), lambda i: i, {'buffer': lambda i: batch * (insz + rl(i)), 'count': lambda i: batch * at('recv_size', i), 'rank': lambda i: at('recv_proc', i)}, 1)
        check_log(v, w, g, 'irecv', ['buffer', 'count', 'rank'], [recv], 'receives')
        inb = lambda j: z3.And(j >= 0, j < batch)
        packs = [Clause(lambda i, j: z3.And(i >= 0, i < w.NS, inb(j)), lambda i, j: batch * psum(i) + j * at('send_size', i),
                        {'plan': lambda i, j: i, 'source': lambda i, j: at('send_offset', i) + j * insz}, 2, lambda i, j: [lem(i)])]
        unpacks = [Clause(lambda k, j: z3.And(k >= 0, k < w.NR, inb(j)), lambda k, j: at('recv_offset', perm(k)) + j * outsz,
                          {'plan': lambda k, j: perm(k), 'source': lambda k, j: batch * (insz + rl(perm(k))) + j * at('recv_size', perm(k))}, 2)]
        if selfself:
            l, n = w.R - 1, w.S - 1
            own = lambda j: batch * (insz + rl(l)) + j * at('send_size', n)
            g.fact(w.f['recv_loc'].len == w.R)
            packs.append(Clause(inb, own, {'plan': lambda j: n, 'source': lambda j: at('send_offset', n) + j * insz}, 1))
            unpacks.append(Clause(inb, lambda j: at('recv_offset', l) + j * outsz, {'plan': lambda j: l, 'source': own}, 1))
        check_log(v, w, g, 'pack', ['plan', 'source'], packs, 'packing')
        check_log(v, w, g, 'unpack', ['plan', 'source'], unpacks, 'unpacking')
        v.oblige(g, zi(g.cells[w.waits]) == w.NR, 'one completion is awaited per request')


def u_alltoallv(c, packer, it, T_):
    cls, fn = apply_base(c, 'alltoallv', packer, it, T_)

    def over(w, nm, t):
        if nm == 'comm':
            w.comm = Ptr(w.v.newcell(w.st, z3.IntVal(0)), (), z3.IntVal(0))
            return w.comm
        if nm in ('send', 'recv'):
            return Struct(cls + '::iotripple', {x: w.v.havoc(IV, '%s_%s' % (nm, x)) for x in ('counts', 'displacements', 'map')})
    w = World(c, cls, T_, over)
    v, st, f = w.v, w.st, w.f
    w.R, w.S, w.G = (v.fresh(x, I) for x in ('R', 'S', 'G'))
    batch = v.fresh('batch', I)
    st.fact(z3.And(batch >= 1, w.R >= 0, w.S >= 0, w.G >= 1))
    insz, outsz = zi(f['input_size']), zi(f['output_size'])
    at = lambda nm, i: zi(v.vget(f[nm], i))
    sub_ = lambda io, nm, i: zi(v.vget(f[io].f[nm], i))
    for nm in ('recv_offset', 'recv_size', 'unpackplan'):
        st.fact(f[nm].len == w.R)
    for nm in ('send_offset', 'send_size', 'packplan'):
        st.fact(f[nm].len == w.S)
    dsum = {}
    t = z3.Int('t!r')
    for io, n in (('send', w.S), ('recv', w.R)):
        # what the constructor of iotripple establishes (C09)
        for nm in ('counts', 'displacements', 'map'):
            st.fact(f[io].f[nm].len == w.G)
        cnt = lambda i, io=io: z3.If(sub_(io, 'map', i) >= 0, at(io + '_size', sub_(io, 'map', i)), 0)
        d = dsum[io] = prefix(v, io + '_sum', cnt)
        st.fact(fa(t, z3.Implies(z3.And(t >= 0, t < w.G), z3.And(sub_(io, 'map', t) >= -1, sub_(io, 'map', t) < n, sub_(io, 'counts', t) == cnt(t), z3.Implies(sub_(io, 'map', t) >= 0, sub_(io, 'displacements', t) == d(t))))))
    names = ('pack plan', 'pack source', 'unpack plan', 'unpack source')
    for nm in names:
        w.ghost(nm)
    done = v.newcell(st, z3.IntVal(0), 'ghost_done')
    packers(w, lambda s, i: s.cells[done] == 1)
    msg = {'send': ('pack', z3.IntVal(0), insz), 'recv': ('unpack', batch * insz, outsz)}

    def a2av(v_, s, node, x, nodes):
        v.oblige(s, s.cells[done] == 0, 'the data is exchanged once')
        s.cells[done] = z3.IntVal(1)
        v.oblige(s, z3.BoolVal(same_ptr(x[8], w.comm)), 'exchange: communicator of the group')
        v.oblige(s, z3.BoolVal(bool(same(x[3], x[7]))), 'exchange: the same element type on both sides')
        for io, buf, cn, ds in (('send', 0, 1, 2), ('recv', 4, 5, 6)):
            b, off = w.where(x[buf])
            v.oblige(s, z3.And(z3.BoolVal(b == 'workspace'), off == msg[io][1]), 'exchange: %s buffer' % io)
            i = v.fresh('i', I)
            h = s.copy()
            h.fact(z3.And(i >= 0, i < w.G))
            for pos_, what, want in ((cn, 'counts', batch * sub_(io, 'counts', i)), (ds, 'displacements', batch * sub_(io, 'displacements', i))):
                V = v.load(h, LV(x[pos_].cell, tuple(x[pos_].path)))
                v.oblige(h, z3.And(V.len >= w.G, zi(x[pos_].off) == 0 if x[pos_].off is not None else z3.BoolVal(True)), 'exchange: one entry per member')
                e = read_elem(v, h, V, i, [[i]], '%s %s' % (io, what))
                v.oblige(h, zi(e) == want, 'exchange: %s %s are those of the group times the batch' % (io, what), hints=[i])
        # everything that is sent has been packed
        w.packed = [e for e in w.families(s, 'pack plan')]
        return z3.IntVal(0)
    v.ext['MPI_Alltoallv'] = a2av
    c.live(v, st)
    rets, thr = c.run(v, st, fn, w.this, [batch, w.ptr['source'], w.ptr['destination'], w.ptr['workspace']])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'does not throw')
    for g, _ in rets:
        v.oblige(g, g.cells[done] == 1, 'the data is exchanged')
        for io, log, lst, own, total in (('send', 'pack', 'send_offset', 'source', insz), ('recv', 'unpack', 'recv_offset', 'destination', outsz)):
            fam = w.families(g, log + ' source' if log == 'unpack' else log + ' plan')
            if len(fam) != 1 or len(fam[0].params) != 2:
                raise Unsupported('the blocks are not moved by one loop over the group and the batch')
            mp = lambda i, io=io: sub_(io, 'map', i)
            sz = lambda i, io=io: at(io + '_size', mp(i))
            d = dsum[io]
            base = msg[io][1]
            P = (lambda i: inst(fam[0], [i, z3.IntVal(0)])[2]) if log == 'unpack' else (lambda i: inst(fam[0], [i, z3.IntVal(0)])[1])
            lem = under(v, g, '%sing: the block of member i is at the sum of the counts before it' % log, lambda m: z3.Implies(m < w.G, P(m) == base + batch * d(m)), lambda m: d.step(m))
            inb = lambda j: z3.And(j >= 0, j < batch)
            dom = lambda i, j: z3.And(i >= 0, i < w.G, mp(i) >= 0, inb(j))
            buf = lambda i, j: base + batch * d(i) + j * sz(i)
            usr = lambda i, j: at(lst, mp(i)) + j * total
            facts = lambda i, j: [lem(i)]
            plan = lambda i, j: mp(i)
            cl = Clause(dom, buf, {'plan': plan, 'source': usr}, 2, facts) if log == 'pack' else Clause(dom, usr, {'plan': plan, 'source': buf}, 2, facts)
            check_log(v, w, g, log, ['plan', 'source'], [cl], log + 'ing')
        pk = w.families(g, 'pack plan')
        v.oblige(g, z3.BoolVal(len(pk) == len(w.packed) and all(a is b or (a.idx.eq(b.idx) and a.dom.eq(b.dom)) for a, b in zip(pk, w.packed))), 'everything is packed before the exchange')


def u_alltoall(c, packer, it, T_):
    cls, fn = apply_base(c, 'alltoall', packer, it, T_)

    def over(w, nm, t):
        if nm == 'comm':
            w.comm = Ptr(w.v.newcell(w.st, z3.IntVal(0)), (), z3.IntVal(0))
            return w.comm
    w = World(c, cls, T_, over)
    v, st, f = w.v, w.st, w.f
    G, batch = v.fresh('G', I), v.fresh('batch', I)
    w.R = w.S = G
    E, insz, outsz = zi(f['num_entries']), zi(f['input_size']), zi(f['output_size'])
    st.fact(z3.And(batch >= 1, G >= 1, E >= 0))
    for nm in ('packplan', 'unpackplan', 'send_offset', 'recv_offset'):
        st.fact(f[nm].len == G)
    for nm in ('pack plan', 'pack source', 'unpack plan', 'unpack source'):
        w.ghost(nm)
    done = v.newcell(st, z3.IntVal(0), 'ghost_done')
    packers(w, lambda s, i: s.cells[done] == 1)

    def a2a(v_, s, node, x, nodes):
        v.oblige(s, s.cells[done] == 0, 'the data is exchanged once')
        s.cells[done] = z3.IntVal(1)
        v.oblige(s, z3.BoolVal(same_ptr(x[6], w.comm)), 'exchange: communicator of the group')
        v.oblige(s, z3.BoolVal(bool(same(x[2], x[5]))), 'exchange: the same element type on both sides')
        for io, buf, cn, base in (('send', 0, 1, z3.IntVal(0)), ('receive', 3, 4, batch * E * G)):
            b, off = w.where(x[buf])
            v.oblige(s, z3.And(z3.BoolVal(b == 'workspace'), off == base), 'exchange: %s buffer' % io)
            v.oblige(s, zi(x[cn]) == batch * E, 'exchange: %s count is the common size times the batch' % io)
        w.packed = w.families(s, 'pack plan')
        return z3.IntVal(0)
    v.ext['MPI_Alltoall'] = a2a
    c.live(v, st)
    rets, thr = c.run(v, st, fn, w.this, [batch, w.ptr['source'], w.ptr['destination'], w.ptr['workspace']])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'does not throw')
    inb = lambda j: z3.And(j >= 0, j < batch)
    for g, _ in rets:
        v.oblige(g, g.cells[done] == 1, 'the data is exchanged')
        for log, lst, plans, total, base in (('pack', 'send_offset', 'packplan', insz, z3.IntVal(0)), ('unpack', 'recv_offset', 'unpackplan', outsz, batch * E * G)):
            fam = w.families(g, log + ' source' if log == 'unpack' else log + ' plan')
            if len(fam) != 1 or len(fam[0].params) != 2:
                raise Unsupported('the blocks are not moved by one loop over the group and the batch')
            size0 = lambda i: v.vget(f[plans], i).f['size'].e[0]
            P = (lambda i: inst(fam[0], [i, z3.IntVal(0)])[2]) if log == 'unpack' else (lambda i: inst(fam[0], [i, z3.IntVal(0)])[1])
            lem = under(v, g, '%sing: the block of member i is the i-th of the buffer' % log, lambda m: z3.Implies(m < G, P(m) == base + batch * E * m), lambda m: [batch * E * (m + 1) == batch * E * m + batch * E])
            dom = lambda i, j: z3.And(i >= 0, i < G, size0(i) > 0, inb(j))
            buf = lambda i, j: base + batch * E * i + j * E
            usr = lambda i, j: zi(v.vget(f[lst], i)) + j * total
            facts = lambda i, j: [lem(i)]
            plan = lambda i, j: i
            cl = Clause(dom, buf, {'plan': plan, 'source': usr}, 2, facts) if log == 'pack' else Clause(dom, usr, {'plan': plan, 'source': buf}, 2, facts)
            check_log(v, w, g, log, ['plan', 'source'], [cl], log + 'ing')
        pk = w.families(g, 'pack plan')
        v.oblige(g, z3.BoolVal(len(pk) == len(w.packed) and all(a is b or (a.idx.eq(b.idx) and a.dom.eq(b.dom)) for a, b in zip(pk, w.packed))), 'everything is packed before the exchange')


def u_transpose(c, it, T_, inplace):
    cls = 'heffte::reshape3d_transpose<heffte::tag::cpu, %s>' % it
    fs = [f for f in c.ast.find(cls + '::transpose') if ('9transpose%sE' % MANG[T_]) in (f.d.get('mangledName') or '')]
    if not fs:
        raise Unsupported('transpose of %s not found' % cls)
    w = World(c, cls, T_, None)
    v, st, f = w.v, w.st, w.f
    batch = v.fresh('batch', I)
    insz, outsz = zi(f['input_size']), zi(f['output_size'])
    st.fact(z3.And(batch >= 1, insz >= 1, insz == outsz))
    if inplace:
        w.cell['source'] = w.cell['destination']
        w.ptr['source'] = w.ptr['destination']
    copied = v.newcell(st, z3.IntVal(0), 'ghost_copied')
    for nm in ('unpack base', 'unpack source'):
        w.ghost(nm)
    frm = 'workspace' if inplace else 'source'

    def copy_n(v_, s, fnode, this, args):
        a, so = w.where(args[1])
        b, do = w.where(args[3])
        v.oblige(s, z3.And(z3.BoolVal(a in ('source', 'destination') and b == 'workspace' and inplace), so == 0, do == 0), 'only the whole source is copied, to the workspace')
        v.oblige(s, zi(args[2]) == batch * insz, 'every batch entry is copied')
        s.cells[copied] = zi(s.cells[copied]) + 1

    def unpack(v_, s, fnode, this, args):
        lv = args[1]
        nm = [y[-1] if isinstance(y, tuple) else y for y in lv.path] if isinstance(lv, (LV, Ptr)) and lv.cell == w.this.cell else None
        v.oblige(s, z3.BoolVal(nm == ['plan']), 'the plan of the object is used')
        b, do = w.where(args[3])
        a = 'workspace' if args[2].cell == w.cell['workspace'] else ('source' if args[2].cell == w.cell['source'] else '?')
        so = zi(args[2].off)
        v.oblige(s, z3.BoolVal(a == frm and args[3].cell == w.cell['destination']), 'reads %s, writes the destination' % frm)
        v.oblige(s, zi(s.cells[copied]) == (1 if inplace else 0), 'the source is saved before it is overwritten')
        w.log(s, 'unpack source', do, so)
        w.log(s, 'unpack base', do, do)
    v.contracts['heffte::transpose_packer<heffte::tag::cpu>::unpack'] = unpack
    v.contracts['copy_n'] = copy_n
    c.live(v, st)
    rets, thr = c.run(v, st, fs[0], w.this, [batch, w.ptr['source'], w.ptr['destination'], w.ptr['workspace']])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'does not throw')
    for g, _ in rets:
        cl = Clause(lambda j: z3.And(j >= 0, j < batch), lambda j: j * outsz, {'source': lambda j: j * insz, 'base': lambda j: j * outsz}, 1)
        check_log(v, w, g, 'unpack', ['source', 'base'], [cl], 'every batch entry is transposed')


def u_size(c, kind, it):
    cls = 'heffte::reshape3d_%s<heffte::tag::cpu, %s%s>' % (kind, '' if kind == 'transpose' else '?, ', it)
    w = World(c, cls, 'double', None)
    v, st, f = w.v, w.st, w.f
    fs = c.ast.find(cls + '::size_workspace') or c.ast.find('heffte::reshape3d_base<%s>::size_workspace' % it)
    if not fs:
        raise Unsupported('size_workspace not found')
    for nm in ('input_size', 'output_size') + (('num_entries',) if kind == 'alltoall' else ()):
        st.fact(zi(f[nm]) >= 0)
    if kind == 'alltoall':
        st.fact(f['packplan'].len >= 0)
        need = 2 * zi(f['num_entries']) * f['packplan'].len
        st.fact(need >= 0)
    else:
        need = zi(f['input_size']) + zi(f['output_size'])
    c.live(v, st)
    rets, thr = c.run(v, st, fs[0], w.this, [])
    for g, r in rets:
        v.oblige(g, zi(val(v, g, r)) >= need, 'the reported workspace holds everything one batch entry uses')


def u_maxsize(c, it):
    from contracts.c08 import c_collide, B
    from contracts.c04 import boxes
    from contracts.c05 import boxes_inv, nonempty_common
    cls = B[it]
    fn = c.fn('heffte::get_max_size', targs=[it])
    v = c.engine()
    st = State()
    G = v.havoc(IV, 'group')
    a, b = boxes(v, 'input', cls), boxes(v, 'output', cls)
    n = v.fresh('nprocs', I)
    st.fact(z3.And(n >= 1, a.len == n, b.len == n, G.len >= 0))
    st.fact(boxes_inv(a, v))
    st.fact(boxes_inv(b, v))
    t = z3.Int('t!g')
    st.fact(fa(t, z3.Implies(z3.And(t >= 0, t < G.len), z3.And(zi(v.vget(G, t)) >= 0, zi(v.vget(G, t)) < n))))
    # the number of common points of input box x and output box y, as an abstract symbol with the contract of collide and count
    N = z3.Function('common_points', I, I, I)

    def collide(v_, s, fnode, this, args):
        i, j = elem_index(v, s, this, ac), elem_index(v, s, args[0], bc)
        return Opaque(('overlap', i, j))

    def cnt(v_, s, fnode, this, args):
        o = v.load(s, this) if isinstance(this, (LV, Ptr)) else this
        if isinstance(o, Opaque) and isinstance(o.what, tuple):
            return N(o.what[1], o.what[2])
        return NotImplemented
    ac, bc = LV(v.newcell(st, a)), LV(v.newcell(st, b))
    x, y = z3.Ints('x!n y!n')
    st.fact(z3.ForAll([x, y], N(x, y) >= 0, patterns=[N(x, y)]))
    v.contracts[cls + '::collide'] = collide
    v.contracts[cls + '::count'] = cnt
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, G)), ac, bc])
    for g, r in rets:
        r = zi(val(v, g, r))
        i, j = v.fresh('i', I), v.fresh('j', I)
        h = g.copy()
        h.fact(z3.And(i >= 0, i < G.len, j >= 0, j < G.len))
        v.oblige(h, N(zi(v.vget(G, i)), zi(v.vget(G, j))) <= r, 'no message between members is longer', hints=[i, j])
        v.oblige(g, r >= 0, 'the size is not negative')


def elem_index(v, s, a, lst):
    """the index behind a box taken from a list of boxes"""
    V = v.load(s, lst)
    x = v.load(s, a) if isinstance(a, (LV, Ptr)) else a
    e = simp(x.f['low'].e[0])
    if z3.is_select(e) and any(e.arg(0).eq(m) for m in V.m) and v.vget(V, e.arg(1)).f['low'].e[0].eq(e):
        return e.arg(1)
    raise Unsupported('not an element of the list')


class Clause:
    def __init__(self, dom, key, vals, n, facts=lambda *p: []):
        self.dom, self.key, self.vals, self.n, self.facts = dom, key, vals, n, facts


def check_log(v, w, g, log, names, clauses, what):
    """the log consists of exactly the entries of the clauses: same domain, same key, same values"""
    for nm in names:
        fam = w.families(g, log + ' ' + nm)
        left = list(clauses)
        for x in fam:
            cands = [cl for cl in left if cl.n == len(x.params)]
            if not cands:
                raise Unsupported('%s: the operations are not issued in the expected loop structure' % what)
            cl = cands[0]
            left.remove(cl)
            best = None
            for p in itertools.permutations(x.params):
                h = g.copy()
                h.fact(x.dom)
                for f in cl.facts(*p):
                    h.fact(f)
                if proves(h, x.idx == cl.key(*p), 2):
                    best = p
                    break
            p = best or tuple(x.params)
            h = g.copy()
            h.fact(x.dom)
            for f in cl.facts(*p):
                h.fact(f)
            v.oblige(h, cl.dom(*p), what + ': only what the lists ask for')
            v.oblige(h, x.idx == cl.key(*p), what + ': position (%s)' % nm)
            v.oblige(h, x.val == cl.vals[nm](*p), '%s: %s' % (what, nm))
            h = g.copy()
            h.fact(cl.dom(*p))
            v.oblige(h, x.dom, what + ': everything the lists ask for')
        for cl in left:
            h = g.copy()
            ps = [v.fresh('p', I) for _ in range(cl.n)]
            h.fact(cl.dom(*ps))
            v.oblige(h, z3.BoolVal(False), what + ': everything the lists ask for (missing)')


class prefix:
    """sum of the first i values"""

    def __init__(self, v, name, size):
        self.f = z3.Function(name, I, I)
        self.size = size

    def __call__(self, i):
        return self.f(zi(i))

    def step(self, m):
        return [self.f(0) == 0, self.f(m + 1) == self.f(m) + self.size(m)]


def under(v, g, name, stmt, defs):
    """induction with the facts of a state"""
    return induction(v, name, 'm', stmt, defs, [e for e in g.facts() if not z3.is_quantifier(e)])


def u_regions(c):
    """the packed blocks, the received messages and the own block occupy disjoint parts of the workspace (any sizes, any batch)"""
    v = c.engine()
    st = State()
    batch, S, R, insz, outsz = (v.fresh(x, I) for x in ('batch', 'S', 'R', 'insz', 'outsz'))
    size = z3.Function('send_size', I, I)
    ps = prefix(v, 'psum', size)
    rsize = z3.Function('recv_size', I, I)
    rs = prefix(v, 'recv_loc', rsize)
    base = [batch >= 1, S >= 0, R >= 0]
    L1 = mulmono_lemma(v)
    c.live(v, st)
    for nm, f, sz, n, lo, hi in (('packed blocks', ps, size, S, z3.IntVal(0), insz), ('received messages', rs, rsize, R, insz, outsz)):
        i0 = v.fresh('i0', I)
        mono = induction(v, nm + ' follow each other', 'm', lambda m: z3.Implies(z3.And(i0 >= 0, i0 < m, m <= n), f(i0) + sz(i0) <= f(m)),
                         lambda m: f.step(m) + [z3.Implies(z3.And(m >= 0, m < n), sz(m) >= 1)], base + [z3.Implies(z3.And(i0 >= 0, i0 < n), sz(i0) >= 1)])
        pos_ = induction(v, nm + ' start behind the first', 'm', lambda m: z3.Implies(m <= n, f(m) >= 0), lambda m: f.step(m) + [z3.Implies(z3.And(m >= 0, m < n), sz(m) >= 1)], base)
        i, k, j, j2 = (v.fresh(x, I) for x in ('i', 'k', 'j', 'j2'))
        h = State()
        for e in base + [i >= 0, i < n, k >= 0, k < n, j >= 0, j < batch, j2 >= 0, j2 < batch, f(n) <= hi, sz(i) >= 1, sz(k) >= 1]:
            h.fact(e)
        at_ = lambda a, b: z3.substitute(mono(b), (i0, a))
        for e in [at_(i, n), at_(k, n), at_(i, k), at_(k, i), pos_(i), pos_(k)]:
            h.fact(e)
        for a, ja, b, jb in ((i, j, k, j2), (k, j2, i, j)):
            h.fact(L1.at(ja + 1, batch, sz(a)))
            h.fact(L1.at(f(a) + sz(a), f(b), batch))
            h.fact(L1.at(f(a) + sz(a), hi, batch))
            h.fact(L1.at(0, f(a), batch))
            h.fact(L1.at(0, ja, sz(a)))
        b_ = lambda a, ja: batch * (lo + f(a)) + ja * sz(a)
        v.oblige(h, z3.And(b_(i, j) >= batch * lo, b_(i, j) + sz(i) <= batch * (lo + hi)), nm + ' stay in their part of the workspace')
        h2 = h.copy()
        h2.fact(i < k)
        v.oblige(h2, b_(i, j) + sz(i) <= b_(k, j2), nm + ' do not overlap')
        h2 = h.copy()
        h2.fact(z3.And(i == k, j < j2))
        h2.fact(L1.at(j + 1, j2, sz(i)))
        v.oblige(h2, b_(i, j) + sz(i) <= b_(i, j2), 'batch entries of ' + nm + ' do not overlap')


def same_ptr(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and a.path == b.path and bool(same(a.off, b.off))


UNITS = [Unit('p2p%s %s %s<%s>%s' % ('_plined' if pl else '', pk, T_, it, ', own block' if se else ''), lambda c, a=(pk, it, T_, pl, se): u_p2p(c, *a))
         for pk in ('direct_packer', 'transpose_packer') for it, T_ in (('int', 'double'), ('long long', 'std::complex<float>')) for pl in (False, True) for se in (False, True)]
UNITS += [Unit('alltoallv %s %s<%s>' % (pk, T_, it), lambda c, a=(pk, it, T_): u_alltoallv(c, *a)) for pk in ('direct_packer', 'transpose_packer') for it, T_ in (('int', 'double'), ('long long', 'std::complex<float>'))]
UNITS += [Unit('alltoall %s %s<%s>' % (pk, T_, it), lambda c, a=(pk, it, T_): u_alltoall(c, *a)) for pk in ('direct_packer', 'transpose_packer') for it, T_ in (('int', 'double'), ('long long', 'std::complex<float>'))]
UNITS += [Unit('transpose<%s> %s%s' % (it, T_, ', in place' if ip else ''), lambda c, a=(it, T_, ip): u_transpose(c, *a)) for it, T_ in (('int', 'double'), ('long long', 'std::complex<float>')) for ip in (False, True)]
UNITS += [Unit('size_workspace %s<%s>' % (k, it), lambda c, a=(k, it): u_size(c, *a)) for k in ('alltoall', 'alltoallv', 'pointtopoint', 'transpose') for it in ('int', 'long long')]
UNITS += [Unit('get_max_size<%s>' % it, lambda c, it=it: u_maxsize(c, it)) for it in ('int', 'long long')]
UNITS.append(Unit('regions of the workspace', u_regions))


MAKERS = {'pointtopoint': 6, 'alltoall': 5, 'alltoallv': 5}


def u_make(c, kind, packer, it):
    """the factories: what the objects are built from.  The list builders (C08), the group (C09), box sizes (C01) are used through their contracts"""
    from contracts.c04 import boxes
    transposed = 'transpose' in packer
    fs = [f for f in c.ast.funcs.get('heffte::make_reshape3d_' + kind, []) if ('%sE%sE' % (packer, MANG[it])) in (f.d.get('mangledName') or '')]
    if not fs:
        raise Unsupported('make_reshape3d_%s not found' % kind)
    v, st = c.engine(), State()
    cls = 'heffte::box3d<%s>' % it
    ib, ob = boxes(v, 'inboxes', cls), boxes(v, 'outboxes', cls)
    n, me = v.fresh('nprocs', I), v.fresh('me', I)
    st.fact(z3.And(n >= 1, ib.len == n, ob.len == n, me >= 0, me < n))
    il, ol = LV(v.newcell(st, ib)), LV(v.newcell(st, ob))
    comm = Ptr(v.newcell(st, z3.IntVal(0)), (), z3.IntVal(0))
    comm2 = Ptr(v.newcell(st, z3.IntVal(0)), (), z3.IntVal(0))
    selfov = v.fresh('self_overlap', B)
    K = {'send': v.fresh('nsend', I), 'recv': v.fresh('nrecv', I)}
    CNT = {'in': v.fresh('in_count', I), 'out': v.fresh('out_count', I)}
    for io in K:
        st.fact(z3.And(K[io] >= 0, z3.Implies(selfov, K[io] >= 1)))
    made = {}

    def which(s, a):
        """('in'|'out', index) of a box taken from the lists"""
        for nm, l in (('in', il), ('out', ol)):
            try:
                return nm, elem_index(v, s, a, l)
            except Unsupported:
                pass
        raise Unsupported('not a box of the lists: %s' % str(v.load(s, a) if isinstance(a, (LV, Ptr)) else a)[:150])

    def lst(s, a):
        x = v.load(s, a) if isinstance(a, (LV, Ptr)) else a
        for nm, V in (('in', ib), ('out', ob)):
            if x is V or (len(x.m) == len(V.m) and all(p.eq(q) for p, q in zip(x.m, V.m))):
                return nm
        raise Unsupported('not a list of boxes of the layout')

    def rank(v_, s, fn, this, a):
        x = v.load(s, a[0]) if isinstance(a[0], LV) else a[0]
        v.oblige(s, z3.BoolVal(same_ptr(x, comm) or same_ptr(x, comm2)), 'rank in the communicator of the layout')
        return me if same_ptr(x, comm) else v.fresh('rank_in_group', I)

    def size(v_, s, fn, this, a):
        x = v.load(s, a[0]) if isinstance(a[0], LV) else a[0]
        return n if same_ptr(x, comm) else v.fresh('size_of_group', I)

    def coll(v_, s, fn, this, a):
        nm, i = which(s, a[1])
        v.oblige(s, zi(i) == me, 'collisions of the box of this rank')
        l = lst(s, a[0])
        if l == nm:
            v.oblige(s, z3.BoolVal(False), 'collisions between the two layouts')
        return K['send' if l == 'out' else 'recv']

    def builder(tr):
        def h(v_, s, fn, this, a):
            x = [v.load(s, q) if isinstance(q, LV) else q for q in a[:2]]
            v.oblige(s, z3.And(zi(x[0]) == me, zi(x[1]) == n), 'the lists are built for this rank and this communicator')
            nm, i = which(s, a[2])
            v.oblige(s, zi(i) == me, 'the lists are built from the box of this rank')
            l = lst(s, a[3])
            io = 'send' if nm == 'in' else 'recv'
            v.oblige(s, z3.BoolVal(l != nm), 'messages are exchanged between the two layouts')
            v.oblige(s, z3.BoolVal(tr == (io == 'recv' and transposed)), 'the unpacking side, and only it, reorders the data, if the packer can')
            out = []
            for q, t, f in zip(a[4:8], ('std::vector<int>',) * 3 + ('std::vector<heffte::pack_plan_3d<%s>>' % it,), ('proc', 'offset', 'size', 'plan')):
                v.oblige(s, v.load(s, q).len == 0, 'the lists are built once')
                V = v.havoc(ptype(t), '%s_%s' % (io, f))
                s.fact(V.len == K[io])
                v.store(s, q, V)
                out.append(V)
            p, o, z, pl = out
            t_ = z3.Int('t!b')
            s.fact(fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < K[io]), zi(v.vget(z, t_)) >= 1)))
            # C08: the visits start after this rank, so this rank comes last; the entries are distinct
            s.fact(fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < K[io]), (zi(v.vget(p, t_)) == me) == z3.And(selfov, t_ == K[io] - 1))))
            made[io] = out
        return h

    def a2abuild(tr):
        def h(v_, s, fn, this, a):
            g = v.load(s, a[0]) if isinstance(a[0], LV) else a[0]
            v.oblige(s, z3.BoolVal(g.m[0].eq(made['group'].m[0])), 'the plans are built for the group')
            nm, i = which(s, a[1])
            v.oblige(s, zi(i) == me, 'the plans are built from the box of this rank')
            io = 'send' if nm == 'in' else 'recv'
            v.oblige(s, z3.BoolVal(lst(s, a[2]) != nm), 'messages are exchanged between the two layouts')
            v.oblige(s, z3.BoolVal(tr == (io == 'recv' and transposed)), 'the unpacking side, and only it, reorders the data, if the packer can')
            out = []
            for q, t, f in zip(a[3:5], ('std::vector<int>', 'std::vector<heffte::pack_plan_3d<%s>>' % it), ('offset', 'plan')):
                v.oblige(s, v.load(s, q).len == 0, 'the lists are built once')
                V = v.havoc(ptype(t), '%s_%s' % (io, f))
                s.fact(V.len == g.len)
                v.store(s, q, V)
                out.append(V)
            made[io] = out
        return h

    def overlap(v_, s, fn, this, args):
        b = fn
        tr = 'Lb1' in (fn.d.get('mangledName') or '')
        return a2abuild(tr)(v_, s, fn, this, args)

    def sameV(x, V):
        return x is V or (x.len.eq(V.len) if z3.is_expr(x.len) else True) and all(p.eq(q) for p, q in zip(x.m, V.m))

    def group(v_, s, fn, this, a):
        ls = [v.load(s, q) if isinstance(q, LV) else q for q in a[:2]]
        v.oblige(s, z3.BoolVal(lst(s, a[2]) == 'in' and lst(s, a[3]) == 'out'), 'the group is that of the two layouts')
        for io, V, bx in (('send', ls[0], ib), ('recv', ls[1], ob)):
            if kind == 'alltoallv':
                if io in made:
                    v.oblige(s, z3.Or(V.len == 0, z3.And(*[p == q for p, q in zip(V.m, made[io][0].m)])), 'the group starts from the partners')
                v.oblige(s, V.len == K[io], 'the group starts from all partners')
            else:
                e = v.vget(bx, me)
                ne = z3.And(*[z > 0 for z in arr(e, 'size')])
                v.oblige(s, V.len == z3.If(ne, 1, 0), 'the group starts from this rank if it holds anything')
                h = s.copy()
                h.fact(ne)
                v.oblige(h, zi(v.vget(V, z3.IntVal(0))) == me, 'the group starts from this rank')
        V = v.havoc(IV, 'group')
        s.fact(V.len >= 0)
        made['group'] = V
        return V

    def newcomm(v_, s, fn, this, a):
        g = v.load(s, a[0]) if isinstance(a[0], LV) else a[0]
        x = v.load(s, a[1]) if isinstance(a[1], LV) else a[1]
        v.oblige(s, z3.BoolVal(g.m[0].eq(made['group'].m[0]) and same_ptr(x, comm)), 'the communicator of the group is created from that of the layout')
        return comm2

    def count(v_, s, fn, this, a):
        nm, i = which(s, this)
        v.oblige(s, zi(i) == me, 'the size of the box of this rank')
        return CNT[nm]

    def maxsize(v_, s, fn, this, a):
        g = v.load(s, a[0]) if isinstance(a[0], LV) else a[0]
        v.oblige(s, z3.BoolVal(g.m[0].eq(made['group'].m[0]) and lst(s, a[1]) == 'in' and lst(s, a[2]) == 'out'), 'the common message size is that of the group')
        made['max'] = v.fresh('max_size', I)
        return made['max']

    def triple(v_, s, cn, a):
        ls = [v.load(s, q) if isinstance(q, LV) else q for q in a]
        t = Struct(cn.d['_q'], {x: v.havoc(IV, x) for x in ('counts', 'displacements', 'map')})
        made.setdefault('triples', []).append((t, ls, s))
        return t
    v.contracts.update({'heffte::mpi::comm_rank': rank, 'heffte::mpi::comm_size': size, 'heffte::count_collisions': coll, 'heffte::a2a_group': group, 'heffte::mpi::new_comm_from_group': newcomm,
                        'heffte::compute_overlap_map_direct_pack': builder(False), 'heffte::compute_overlap_map_transpose_pack': builder(True), 'heffte::compute_overlap_map_all2all_pack': overlap,
                        cls + '::count': count, 'heffte::get_max_size': maxsize})
    v.ctor_intercept['heffte::reshape3d_alltoallv::iotriple'] = triple
    v.ctor_intercept['heffte::reshape3d_alltoallv<heffte::tag::cpu, ?, %s>::iotripple' % it] = triple
    psum = z3.Function('recv_sum', I, I)

    def hook(v_, s0, node, order, N):
        ar, ln = [l for l in order if l.kind == 'varr' and l.x0.sort() == z3.ArraySort(I, I)], [l for l in order if l.kind == 'vlen']
        if 'recv' not in made or len(ar) != 1 or len(ln) != 1 or conc(simp(zi(ln[0].x0))) != 1:
            return None
        ar, ln = ar[0], ln[0]
        t_ = z3.Int('t!p')
        rz = lambda i: zi(v.vget(made['recv'][2], i))
        return [('the position of every message so far is the sum of the sizes before it', lambda g, T: z3.And(zi(v.leaf_get(g, ln)) == T + 1, T < K['recv'], fa(t_, z3.Implies(z3.And(t_ >= 0, t_ <= T), v.leaf_get(g, ar)[t_] == psum(t_))))),
                ('lemma', lambda g, T: [psum(0) == 0, psum(zi(T) + 1) == psum(zi(T)) + rz(zi(T))])]
    if kind == 'pointtopoint':
        v.loop_hooks.append(hook)
        v.keep_recursive = lambda lf, order: lf.kind == 'varr' and any(o.kind == 'vlen' and conc(simp(zi(o.x0))) == 1 for o in order)
    algs = ['p2p', 'p2p_plined'] if kind == 'pointtopoint' else [None]
    c.live(v, st)
    for alg in algs:
        made.clear()
        s0 = st.copy()
        aware = v.fresh('gpu_aware', B)
        args = [Opaque('stream'), il, ol] + ([enumerator(v, 'reshape_algorithm', alg)] if alg else []) + [aware, comm]
        rets, thr = c.run(v, s0, fs[0], None, args)
        for g, _ in thr:
            v.oblige(g, z3.BoolVal(False), 'does not throw')
        for g, r in rets:
            grp = made.get('group')
            if r.cell is None:
                v.oblige(g, grp.len == 0 if grp is not None else z3.BoolVal(False), 'nothing is made only for a rank without partners')
                continue
            o = v.load(g, LV(r.cell))
            o = o if isinstance(o, Struct) else None
            if o is None:
                raise Unsupported('the object that was made')
            F = o.f

            def eqv(name, V):
                x = F[name]
                v.oblige(g, x.len == V.len, 'the object keeps %s: length' % name)
                k = v.fresh('k', I)
                h = g.copy()
                h.fact(z3.And(k >= 0, k < V.len))
                for p, q in zip(x.m, V.m):
                    v.oblige(h, p[k] == q[k], 'the object keeps %s' % name)

            def scalar(name, want, what):
                v.oblige(g, zi(val(v, g, F[name])) == want, what)
            scalar('input_size', CNT['in'], 'batch stride of the input: the size of the input box')
            scalar('output_size', CNT['out'], 'batch stride of the output: the size of the output box')
            v.oblige(g, z3.BoolVal(same_ptr(F['comm'], comm if kind == 'pointtopoint' else comm2)), 'the communicator of the object')
            have = {io: made.get(io) for io in K}
            if kind == 'alltoall':
                for io, pl in (('send', 'packplan'), ('recv', 'unpackplan')):
                    eqv(io + '_offset', have[io][0])
                    eqv(pl, have[io][1])
                v.oblige(g, zi(F['num_entries']) == made['max'], 'the common message size')
                continue
            for io, pl in (('send', 'packplan'), ('recv', 'unpackplan')):
                names = {io + '_offset': 1, io + '_size': 2, pl: 3}
                if kind == 'pointtopoint':
                    names[io + '_proc'] = 0
                for nm, j in names.items():
                    v.oblige(g, F[nm].len == K[io], 'the object keeps %s: one entry per partner' % nm)
                    k = v.fresh('k', I)
                    h = g.copy()
                    h.fact(z3.And(k >= 0, k < K[io]))
                    if have[io] is None:
                        v.oblige(h, z3.BoolVal(False), 'the lists of the partners are built')
                        continue
                    for p, q in zip(F[nm].m, have[io][j].m):
                        v.oblige(h, p[k] == q[k], 'the object keeps %s' % nm)
            if kind == 'alltoallv':
                ts = {id(t): ls for t, ls, s_ in made.get('triples', [])}
                for io in K:
                    ls = [x for t, x, s_ in made.get('triples', []) if all(a.m[0].eq(b.m[0]) for a, b in ((F[io].f[q], t.f[q]) for q in ('counts', 'displacements', 'map')))]
                    if len(ls) != 1:
                        raise Unsupported('counts and displacements')
                    gp, pr, sz = ls[0]
                    k = v.fresh('k', I)
                    h = g.copy()
                    h.fact(z3.And(k >= 0, k < K[io]))
                    v.oblige(g, z3.And(z3.BoolVal(gp.m[0].eq(grp.m[0])), gp.len == grp.len, pr.len == K[io], sz.len == K[io]), '%s counts and displacements: for the members of the group' % io)
                    v.oblige(h, z3.And(pr.m[0][k] == have[io][0].m[0][k], sz.m[0][k] == have[io][2].m[0][k]), '%s counts and displacements: from the partners and their sizes' % io)
                continue
            sz = F['send_size']
            k = v.fresh('k', I)
            h = g.copy()
            h.fact(z3.And(k >= 0, k < K['send']))
            if alg == 'p2p':
                v.oblige(h, zi(v.vget(sz, k)) <= zi(val(v, g, F['max_send_size'])), 'one message fits in the room reserved for a message', hints=[k])
            else:
                v.oblige(g, zi(val(v, g, F['max_send_size'])) == CNT['in'], 'the room for the messages is that of the input')
            ss = asb(F['self_to_self'])
            v.oblige(g, ss == selfov, 'the own block is recognised')
            for nm, io in (('requests', 'recv'), ('isends', 'send')):
                v.oblige(g, F[nm].len == K[io] - z3.If(selfov, 1, 0), '%s: one per message to or from another rank' % nm)
            loc = F['recv_loc']
            v.oblige(g, z3.And(loc.len >= K['recv'], loc.len >= 1), 'a position in the buffer for every received message')
            h = g.copy()
            h.fact(z3.And(k >= 0, k < K['recv']))
            h.fact(psum(z3.IntVal(0)) == 0)
            v.oblige(h, zi(v.vget(loc, k)) == psum(k), 'the messages are received one after the other: each starts where the sizes before it end', hints=[k])


UNITS += [Unit('make_reshape3d_%s %s <%s>' % (k, p[2:], it), lambda c, k=k, p=p, it=it: u_make(c, k, p, it)) for k in MAKERS for p in ('13direct_packer', '16transpose_packer') for it in ('int', 'long long')]


def u_dispatch(c, backend, it):
    """make_reshape3d: nothing for equal layouts, a local transpose if only the storage order differs, otherwise the requested algorithm with the packer that reorders
    exactly when the orders differ"""
    from contracts.c04 import boxes
    fs = [f for f in c.ast.funcs.get('heffte::make_reshape3d', []) if ('%sE%sEE' % (backend, MANG[it])) in (f.d.get('mangledName') or '')]
    if not fs:
        raise Unsupported('make_reshape3d not found')
    v, st = c.engine(), State()
    cls = 'heffte::box3d<%s>' % it
    ib, ob = boxes(v, 'inboxes', cls), boxes(v, 'outboxes', cls)
    n, me = v.fresh('nprocs', I), v.fresh('me', I)
    st.fact(z3.And(n >= 1, ib.len == n, ob.len == n, me >= 0, me < n))
    il, ol = LV(v.newcell(st, ib)), LV(v.newcell(st, ob))
    comm = Ptr(v.newcell(st, z3.IntVal(0)), (), z3.IntVal(0))
    opts = v.havoc(ptype('heffte::plan_options'), 'options')
    ALG = enumerators(v, 'reshape_algorithm')
    alg = zi(opts.f['algorithm'])
    st.fact(z3.Or(*[alg == x for x in ALG.values()]))
    equal, sameord, holds = v.fresh('same_boxes', B), v.fresh('same_order', B), v.fresh('not_empty', B)
    plan = v.havoc(ptype('heffte::pack_plan_3d<%s>' % it), 'plan')

    def lst(s, a):
        x = v.load(s, a) if isinstance(a, (LV, Ptr)) else a
        for nm, V in (('in', ib), ('out', ob)):
            if len(x.m) == len(V.m) and all(p.eq(q) for p, q in zip(x.m, V.m)):
                return nm
        raise Unsupported('not a list of boxes of the layout')

    def both(s, a, b, what):
        x, y = lst(s, a), lst(s, b)
        v.oblige(s, z3.BoolVal({x, y} == {'in', 'out'}), what)
        return x

    def which(s, a):
        for nm, l in (('in', il), ('out', ol)):
            try:
                return nm, elem_index(v, s, a, l)
            except Unsupported:
                pass
        raise Unsupported('not a box of the lists: %s' % str(v.load(s, a) if isinstance(a, (LV, Ptr)) else a)[:150])

    def c_match(v_, s, fn, this, a):
        both(s, a[0], a[1], 'the two layouts are compared')
        return equal

    def c_ord(v_, s, fn, this, a):
        (x, i), (y, j) = which(s, this), which(s, a[0])
        v.oblige(s, z3.BoolVal({x, y} == {'in', 'out'}), 'the orders of the two layouts are compared')
        v.oblige(s, z3.And(i >= 0, i < n, j >= 0, j < n), 'the boxes exist')
        return sameord

    def maker(kind):
        def h(v_, s, fn, this, a):
            x = [v.load(s, q) if isinstance(q, LV) and k not in (1, 2) else q for k, q in enumerate(a)]
            v.oblige(s, z3.BoolVal(lst(s, x[1]) == 'in' and lst(s, x[2]) == 'out'), 'data moves from the input layout to the output layout')
            v.oblige(s, z3.BoolVal(same_ptr(x[-1], comm)), 'over the communicator of the layout')
            v.oblige(s, asb(x[-2]) == asb(opts.f['use_gpu_aware']), 'with the requested transfer mode')
            if kind == 'pointtopoint':
                v.oblige(s, zi(x[3]) == alg, 'with the requested algorithm')
            tr = '16transpose_packer' in (fn.d.get('mangledName') or '')
            return Ptr(v.newcell(s, Struct('made', {'kind': kind, 'transposed': tr})), (), None)
        return h

    def build(v_, s, fn, this, a):
        x = [v.load(s, q) if isinstance(q, LV) else q for q in a[:4]]
        one = x[3]
        nm, i = which(s, x[2])
        e = v.vget(one, z3.IntVal(0)) if not isinstance(one, Arr) else one.e[0]
        m2, j = which(s, e)
        ln = one.len if not isinstance(one, Arr) else z3.IntVal(len(one.e))
        v.oblige(s, z3.And(zi(x[0]) == 0, zi(x[1]) == 1, zi(ln) == 1, zi(i) == me, zi(j) == me), 'the local block is matched with itself only')
        v.oblige(s, z3.BoolVal(nm == 'out' and m2 == 'in'), 'the plan writes the output order and reads the input order')
        V = v.load(s, a[7])
        P = v.havoc(ptype('std::vector<heffte::pack_plan_3d<%s>>' % it), 'plans')
        s.fact(P.len == z3.If(holds, 1, 0))
        v.store(s, a[7], P)
        build.P = P
    def rank(v_, s, fn, this, a):
        x = v.load(s, a[0]) if isinstance(a[0], LV) else a[0]
        v.oblige(s, z3.BoolVal(same_ptr(x, comm)), 'rank in the communicator of the layout')
        return me

    def tmake(v_, s, cn, a):
        return Struct('made', {'kind': 'transpose', 'plan': v.load(s, a[1]) if isinstance(a[1], LV) else a[1]})
    v.contracts.update({'heffte::match': c_match, cls + '::ordered_same_as': c_ord, 'heffte::compute_overlap_map_transpose_pack': build, 'heffte::mpi::comm_rank': rank})
    for k in MAKERS:
        v.contracts['heffte::make_reshape3d_' + k] = maker(k)
    v.ctor_intercept['heffte::reshape3d_transpose'] = tmake
    c.live(v, st)
    rets, thr = c.run(v, st, fs[0], None, [Opaque('stream'), il, ol, comm, opts])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'does not throw')
    for g, r in rets:
        if r.cell is None:
            v.oblige(g, z3.And(equal, z3.Or(sameord, z3.Not(holds))), 'nothing to do: the layouts and orders are equal, or this rank holds nothing')
            continue
        o = v.load(g, LV(r.cell))
        k = o.f['kind']
        if k == 'transpose':
            v.oblige(g, z3.And(equal, z3.Not(sameord), holds), 'a local transpose: only the orders differ')
            p, pt = v.vget(build.P, z3.IntVal(0)), ptype('heffte::pack_plan_3d<%s>' % it)
            v.oblige(g, z3.And(*[x == y for x, y in zip(v.flat(o.f['plan'], pt), v.flat(p, pt))]), 'the transpose of the local block')
            continue
        v.oblige(g, z3.Not(equal), 'messages are exchanged only between different layouts')
        want = {'alltoallv': alg == ALG['alltoallv'], 'alltoall': alg == ALG['alltoall'], 'pointtopoint': z3.Or(alg == ALG['p2p'], alg == ALG['p2p_plined'])}[k]
        v.oblige(g, want, 'the requested algorithm is used')
        v.oblige(g, sameord == z3.BoolVal(not o.f['transposed']), 'the data is reordered exactly when the orders differ')
    v.oblige(st, z3.BoolVal(len(rets) >= 8), 'every algorithm is reachable')


UNITS += [Unit('make_reshape3d %s<%s>' % (b, it), lambda c, a=(b, it): u_dispatch(c, *a)) for b, it in (('5stock', 'int'), ('4fftw', 'long long'))]
for _u in UNITS[-2:]:
    _u.driver = 'transform'


def u_compose(c, so, transposed):
    """one message, end to end: what pack (C07) reads and writes with the sender's plan (C08) and what unpack reads and writes with the receiver's plan agree point by point:
    the value of global point p is taken from the position of p in the storage of its owner and put at the position of p in the storage of its new owner"""
    from contracts.c07 import buffer_pos, data_pos, in_block
    from contracts.c08 import expected, PERMS, nonempty_common, overlap_of
    v = c.engine()
    st = State()
    A, Bx = box(v, 'sender'), box(v, 'receiver')
    for x in (A, Bx):
        st.fact(box_inv(x))
    st.fact(nonempty_common(A, Bx))
    PT = 'heffte::pack_plan_3d<int>'

    def plan_of(d):
        ar = lambda l: Arr([zi(x) for x in l])
        return Struct(PT, {'size': ar(d['size']), 'line_stride': d['line_stride'], 'plane_stride': d['plane_stride'], 'buff_line_stride': d.get('buff_line_stride', z3.IntVal(0)),
                           'buff_plane_stride': d.get('buff_plane_stride', z3.IntVal(0)), 'map': ar(d.get('map', [0, 0, 0]))})

    def storage(b, o, p):
        """position of the global point p in a box stored with order o: the first of the order runs fastest"""
        d = [x - l for x, l in zip(p, arr(b, 'low'))]
        s = arr(b, 'size')
        return d[o[0]] + s[o[0]] * (d[o[1]] + s[o[1]] * d[o[2]])
    for ro in (PERMS if transposed else [so]):
        g = st.copy()
        g.fact(z3.And(*[a == b for a, b in zip(arr(A, 'order'), so)]))
        g.fact(z3.And(*[a == b for a, b in zip(arr(Bx, 'order'), ro)]))
        off_s, n_s, ps = expected(v, g, A, Bx, so)
        off_r, n_r, pr = expected(v, g, Bx, A, ro, so if transposed else None)
        ps, pr = plan_of(ps), plan_of(pr)
        tag_ = 'order %s to %s: ' % (''.join(map(str, so)), ''.join(map(str, ro)))
        p = [v.fresh('p', I) for _ in range(3)]
        inside = lambda b: z3.And(*[z3.And(x >= l, x <= h) for x, l, h in zip(p, arr(b, 'low'), arr(b, 'high'))])
        h = g.copy()
        h.fact(z3.And(inside(A), inside(Bx)))
        lo = [z3.If(x > y, x, y) for x, y in zip(arr(A, 'low'), arr(Bx, 'low'))]
        ts, tr = [p[o] - lo[o] for o in so], [p[o] - lo[o] for o in ro]
        v.oblige(h, z3.And(in_block(ps, ts), in_block(pr, tr)), tag_ + 'every common point is packed and unpacked')
        # conversely a point of the packed block is a common point
        q = [v.fresh('q', I) for _ in range(3)]
        y = g.copy()
        y.fact(in_block(pr, q))
        pt = [None] * 3
        for j, o in enumerate(ro):
            pt[o] = lo[o] + q[j]
        v.oblige(y, z3.And(*[z3.And(x >= l, x <= hh) for b in (A, Bx) for x, l, hh in zip(pt, arr(b, 'low'), arr(b, 'high'))]), tag_ + 'nothing but common points is unpacked')
        eqs = {}
        # sizes of the common block are named by expected(): replace them by their definitions
        facts = [e for e in g.facts() if z3.is_eq(e) and z3.is_const(e.arg(0)) and e.arg(0).decl().name().split('!')[0] in ('lo', 'sz')]
        sb = [(e.arg(0), e.arg(1)) for e in facts]
        L, H = [v.fresh('lo', I) for _ in range(3)], [v.fresh('hi', I) for _ in range(3)]

        both = []
        for x, y in ((A, Bx), (Bx, A)):
            lo_, hi_, _ = overlap_of(x, y)
            both += list(zip(lo_, L)) + list(zip(hi_, H))
        v.oblige(State(), z3.And(*[a == b for x, y in zip(overlap_of(A, Bx)[:2], overlap_of(Bx, A)[:2]) for a, b in zip(x, y)]), tag_ + 'the common box does not depend on the side', kind='lemma')

        def norm(e):
            # lower corner and size of the common block as plain symbols: the identities are polynomial in them
            e = z3.substitute(e, *sb)
            return z3.substitute(e, *both)
        k = State()
        for nm, a, b in (('read from the position of the point at its owner', off_s + data_pos(ps, ts), storage(A, so, p)),
                         ('written to the position of the point at its new owner', off_r + data_pos(pr, tr), storage(Bx, ro, p)),
                         ('both sides use the same place of the message', buffer_pos(ps, ts, False), buffer_pos(pr, tr, transposed)),
                         ('both sides agree on the length', n_s, n_r)):
            e = norm(zi(a) - zi(b))
            v.oblige(k, z3.simplify(e, som=True) == 0, tag_ + nm, kind='lemma')


def u_compose_all(c):
    from contracts.c08 import PERMS
    for so in PERMS:
        for tr in (False, True):
            u_compose(c, list(so), tr)


UNITS.append(Unit('one message, end to end', u_compose_all))

NOTE = ('proof for all sizes, batches, group sizes and completion orders: apply_base of the three exchange classes (each with both packers, two index/element type pairs), local transpose, the factories that '
        'build them (lists, receive positions, room for messages, own block), the dispatch in make_reshape3d, workspace sizes and regions, and a lemma that pack and unpack plans of one message agree '
        'point by point for all 36 pairs of storage orders; partial correctness, integers mathematical, other element types by the same template; the composition over all ranks is argued in DESIGN.md')
ASSUMES = ['contracts of MPI_Irecv, MPI_Isend, MPI_Send, MPI_Waitany, MPI_Alltoall, MPI_Alltoallv: data arrives complete at the matching receive, each request completes once',
           'contracts of pack, unpack (C07), of the list builders (C08), of a2a_group and iotripple (C09), of box3d (C01)', 'the input boxes tile the world and so do the output boxes (C05)']
