"""C20: gathering the boxes."""
import z3
from dv.spec import *
from contracts.c04 import boxes, fa, val
from contracts.hs import *

DRIVER = 'transform'
HARNESS = RESHAPE
NOTE = 'proved for every number of ranks and every rank, with MPI_Allgather assumed to follow its MPI contract (block r of every receive buffer is the send buffer of rank r)'
B = {'int': 'heffte::box3d<int>', 'long long': 'heffte::box3d<long long>'}


def leaves(v, b):
    return [x for f in ('low', 'high', 'size', 'order') for x in arr(b, f)]


def eqall(v, a, b):
    return z3.And(*[x == y for x, y in zip(leaves(v, a), leaves(v, b))])


def u_gather(c, it):
    cls = B[it]
    fn = c.fn('heffte::mpi::gather_boxes', targs=[it])
    v = c.engine()
    st = State()
    N, me = v.fresh('ranks', I), v.fresh('me', I)
    st.fact(z3.And(N >= 1, me >= 0, me < N))
    # what each rank supplies; this rank supplies its own arguments
    IN, OUT = boxes(v, 'IN', cls), boxes(v, 'OUT', cls)
    st.fact(z3.And(IN.len == N, OUT.len == N))
    a, b = v.vget(IN, me), v.vget(OUT, me)
    COMM = Ptr(v.newcell(st, z3.IntVal(0)), (), z3.IntVal(0), None, None)
    bytes_box = v.sizeof(cls)
    calls = []

    def comm_size(v_, s, f, th, args):
        x = args[0]
        x = v.load(s, x) if isinstance(x, LV) else x
        v.oblige(s, same_term(x, COMM), 'the size is that of the communicator of the call')
        return N
    v.contracts['heffte::mpi::comm_size'] = comm_size

    def allgather(v_, s, node, x, nodes):
        calls.append(s)
        v.oblige(s, same_term(x[6], COMM), 'allgather: on the communicator of the call')
        v.oblige(s, zi(x[1]) == 2 * bytes_box, 'allgather: two boxes are sent')
        v.oblige(s, zi(x[4]) == 2 * bytes_box, 'allgather: two boxes are received from every rank')
        v.oblige(s, same_term(x[2], x[5]), 'allgather: the same unit on both sides')
        send, recv = x[0], x[3]
        path = tuple(send.path)
        if send.off is None and path and path[-1] == ('i', 0):
            path = path[:-1]
        o = v.load(s, LV(send.cell, path))
        if hasattr(o, 'e'):
            elems = list(o.e)
        elif hasattr(o, 'len') and hasattr(o, 'm'):
            v.oblige(s, o.len >= 2, 'allgather: the send buffer holds two boxes')
            elems = [v.vget(o, 0), v.vget(o, 1)]
        else:
            raise Unsupported('send buffer of MPI_Allgather')
        v.oblige(s, z3.BoolVal(len(elems) >= 2 and (send.off is None or same(send.off, 0))), 'allgather: the send buffer is the start of an array of two boxes')
        v.oblige(s, eqall(v, elems[0], a), 'allgather: the first box sent is the input box of this rank')
        v.oblige(s, eqall(v, elems[1], b), 'allgather: the second box sent is the output box of this rank')
        lv = LV(recv.cell, recv.path)
        V = v.load(s, lv)
        v.oblige(s, zi(recv.off) == 0, 'allgather: received at the start of the buffer')
        v.oblige(s, V.len >= 2 * N, 'allgather: the receive buffer has room for two boxes of every rank')
        G = boxes(v, 'gathered', cls)
        r = z3.Int('r!g')
        s.fact(G.len == V.len)
        s.fact(fa(r, z3.Implies(z3.And(r >= 0, r < N), z3.And(eqall(v, v.vget(G, 2 * r), v.vget(IN, r)), eqall(v, v.vget(G, 2 * r + 1), v.vget(OUT, r)))), [arr(v.vget(IN, r), 'low')[0]]))
        v.store(s, lv, G)
        return z3.IntVal(0)
    v.ext['MPI_Allgather'] = allgather
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [a, b, COMM])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'gather_boxes does not throw')
    v.oblige(st, z3.BoolVal(len(calls) == 1), 'the boxes are exchanged once')
    for g, w in rets:
        w = val(v, g, w)
        for f, S in (('in', IN), ('out', OUT)):
            L = w.f[f]
            v.oblige(g, L.len == N, 'one %sput box per rank' % f)
            q = v.fresh('q', I)
            h = g.copy()
            h.fact(z3.And(q >= 0, q < N))
            e = read_elem(v, h, L, q, [[q]], 'list of %sput boxes' % f)
            v.oblige(h, eqall(v, e, v.vget(S, q)), 'entry r is the %sput box of rank r (corners, sizes and storage order)' % f, hints=[q])


def same_term(x, y):
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return z3.BoolVal(x.cell == y.cell and x.path == y.path and bool(same(x.off, y.off)))
    if z3.is_expr(x) or z3.is_expr(y):
        return zi(x) == zi(y)
    return z3.BoolVal(x == y)


UNITS = [Unit('gather_boxes<int>', lambda c: u_gather(c, 'int')), Unit('gather_boxes<long long>', lambda c: u_gather(c, 'long long'))]
ASSUMES = ['MPI_Allgather: on return block r of the receive buffer of every rank holds the send buffer of rank r; box3d is trivially copyable (its four arrays are its whole value)']
