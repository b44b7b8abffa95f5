"""C09: communication groups."""
import z3
from dv.spec import *
from dv.values import Unsupported
from contracts.c04 import fa, val
from contracts.hs import *

DRIVER = 'reshape'
HARNESS = RESHAPE
IV = ptype('std::vector<int>')


def u_triple(c, it):
    v = c.engine()
    st = State()
    G, P, S = (v.havoc(IV, x) for x in ('group', 'proc', 'sizes'))
    t, u = z3.Ints('t!g u!g')
    st.fact(z3.And(P.len == S.len, G.len >= 0, P.len >= 0))
    at = lambda V, i: zi(v.vget(V, i))
    st.fact(z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < P.len, u >= 0, u < P.len, at(P, t) == at(P, u)), t == u)))
    cls = 'heffte::reshape3d_alltoallv<heffte::tag::cpu, ?, %s>::iotripple' % it
    fn = [f for f in v.ctors(v.cls(cls)) if len([k for k in f.kids if k is not None and k.k == 'ParmVarDecl']) == 3][0]
    obj = LV(v.newcell(st, Struct(cls, {k: v.havoc(IV, k) for k in ('counts', 'displacements', 'map')})))
    c.live(v, st)
    rets, thr = c.run(v, st, fn, obj, [LV(v.newcell(st, x)) for x in (G, P, S)])
    # K(i): the position of member i in the list of partners, -1 if it is not there (the entries of the list are distinct)
    K, ds = z3.Function('K', I, I), z3.Function('dsum', I, I)
    hit = lambda i, k: z3.And(k >= 0, k < P.len, at(P, k) == at(G, i))
    kdef = lambda i, k: z3.And(K(i) >= -1, K(i) < P.len, z3.Implies(K(i) >= 0, hit(i, K(i))), z3.Implies(hit(i, k), K(i) == k))
    cnt = lambda i: z3.If(K(i) >= 0, at(S, K(i)), 0)
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'does not throw')
    for g, _ in rets:
        o = v.load(g, obj)
        for k in ('counts', 'displacements', 'map'):
            v.oblige(g, o.f[k].len == G.len, 'one entry of %s per member' % k)
        b, ws = flat_writes(v, o.f['displacements'].m[0])
        if len(ws) != 1 or len(ws[0].params) != 2:
            raise Unsupported('the displacements are not set by one loop over the group and the partners')
        D = lambda i, k: inst(ws[0], [i, k])[2]
        base = [e for e in g.facts() if not z3.is_quantifier(e)]
        i0 = v.fresh('i0', I)
        inner = induction(v, 'the running offset moves once per member', 'k', lambda k: z3.Implies(z3.And(i0 >= 0, i0 < G.len, k <= P.len), D(i0, k) == D(i0, z3.IntVal(0)) + z3.If(z3.And(K(i0) >= 0, K(i0) < k), at(S, K(i0)), 0)),
                          lambda k: [kdef(i0, k), ds(0) == 0], base + [i0 >= 0, i0 < G.len])
        outer = induction(v, 'the running offset is the sum of the counts before', 'm', lambda m: z3.Implies(m < G.len, D(m, z3.IntVal(0)) == ds(m)),
                          lambda m: [ds(0) == 0, ds(m + 1) == ds(m) + cnt(m), z3.substitute(inner(P.len), (i0, m)), kdef(m, z3.IntVal(0))], base + [P.len >= 0])
        i = v.fresh('i', I)
        h = g.copy()
        h.fact(z3.And(i >= 0, i < G.len))
        h.fact(kdef(i, K(i)))
        y = h.copy()
        y.fact(K(i) >= 0)
        uniq = lambda w_, fr: [kdef(fr[0], fr[1])] if len(fr) == 2 else []
        for k, want in (('map', K(i)), ('counts', at(S, K(i)))):
            x = read_elem(v, y, o.f[k], i, [[i, K(i)]], k, uniq)
            v.oblige(y, zi(x) == want, '%s of a member that is a partner' % k)
        y2 = y.copy()
        y2.fact(z3.substitute(inner(K(i)), (i0, i)))
        y2.fact(outer(i))
        x = read_elem(v, y2, o.f['displacements'], i, [[i, K(i)]], 'displacements', uniq)
        v.oblige(y2, zi(x) == ds(i), 'displacement of a partner: the sum of the counts of the members before it')
        y = h.copy()
        y.fact(K(i) < 0)
        for k, want in (('map', -1), ('counts', 0)):
            b, ws = flat_writes(v, o.f[k].m[0])
            for w in ws:
                fr = [v.fresh('o', I) for _ in w.params]
                d2, i2, x2 = inst(w, fr)
                y3 = y.copy()
                y3.fact(z3.And(d2, i2 == i))
                for f in uniq(w, fr):
                    y3.fact(f)
                v.oblige(y3, x2 == want, 'no %s for a member that is not a partner' % k)
            v.oblige(y, z3.Select(b, i) == want, 'no %s for a member that is not a partner (initial value)' % k)


UNITS = [Unit('iotripple<%s>' % it, lambda c, it=it: u_triple(c, it)) for it in ('int', 'long long')]

from contracts.c10 import elem_index
from contracts.c08 import counter, ground_at


class Group:
    """the marking loops of a2a_group.  OV(i, j): the input box of i and the output box of j share a point (the contract of collide: C01, C08).
    The set of marked ranks is the least set that contains the partners of this rank and is closed under links; the list holds exactly the marked ranks."""

    def __init__(self, v, n, S, R):
        self.v, self.n, self.S, self.R = v, n, S, R
        self.OV = v.fresh_fn('overlap', I, I, B)
        self.Q = v.fresh_fn('closed_set', I, B)
        self.row = None
        self.final = None

    def link(self, a, b):
        return z3.Or(self.OV(a, b), self.OV(b, a))

    def rng(self, j):
        return z3.And(j >= 0, j < self.n)

    def seed(self, j):
        t = z3.Int('t!seed')
        at = lambda V, i: zi(self.v.vget(V, i))
        return z3.Or(*[z3.Exists([t], z3.And(t >= 0, t < V.len, at(V, t) == j)) for V in (self.S, self.R)])

    def c_collide(self, inb, outb):
        def h(v, st, fn, this, args):
            for a, b, rev in ((inb, outb, False), (outb, inb, True)):
                try:
                    i, j = elem_index(v, st, this, a), elem_index(v, st, args[0], b)
                except Unsupported:
                    continue
                v.oblige(st, z3.And(self.rng(i), self.rng(j)), 'the boxes that are compared exist')
                self.row = (i, j)
                return Opaque(('overlap', (j, i) if rev else (i, j)))
            raise Unsupported('collide of boxes that are not the input box of one rank and the output box of another')
        return h

    def c_empty(self, v, st, fn, this, args):
        o = v.load(st, this) if isinstance(this, LV) else this
        if not isinstance(o, Opaque) or o.what[0] != 'overlap':
            return NotImplemented
        return z3.Not(self.OV(*o.what[1]))

    def hook(self, v, st, node, order, N):
        mk = [l for l in order if l.kind == 'varr' and l.x0.sort() == z3.ArraySort(I, B)]
        rs = [l for l in order if l.kind == 'varr' and l.x0.sort() == z3.ArraySort(I, I)]
        ln = [l for l in order if l.kind == 'vlen']
        if len(mk) != 1 or len(rs) != 1 or len(ln) != 1:
            return None
        mk, rs, ln = mk[0], rs[0], ln[0]
        M, A, L = (lambda g, l=l: v.leaf_get(g, l) for l in (mk, rs, ln))
        j, k, q, p = z3.Ints('j!h k!h q!h p!h')
        M0, A0, L0 = mk.x0, rs.x0, zi(ln.x0)
        Lz = lambda g: zi(L(g))
        n, rng, link, Q = self.n, self.rng, self.link, self.Q
        inv = [
            ('a marked rank stays marked', lambda g, T: fa(j, z3.Implies(z3.And(rng(j), M0[j]), M(g)[j]))),
            ('the list only grows', lambda g, T: z3.And(Lz(g) >= L0, fa(k, z3.Implies(z3.And(k >= 0, k < L0), A(g)[k] == A0[k])))),
            ('the list holds marked ranks', lambda g, T: fa(k, z3.Implies(z3.And(k >= 0, k < Lz(g)), z3.And(rng(A(g)[k]), M(g)[A(g)[k]])))),
            ('every marked rank is in the list', lambda g, T: fa(j, z3.Implies(z3.And(rng(j), M(g)[j]), z3.Exists([k], z3.And(k >= 0, k < Lz(g), A(g)[k] == j))))),
            ('marked ranks belong to every set that holds the partners and is closed under links', lambda g, T: fa(j, z3.Implies(z3.And(rng(j), M(g)[j]), Q(j)))),
        ]
        self.final = mk.X(zi(N))      # the last loop that marks ranks determines the group
        Nz = simp(zi(N))

        def same(a, b):
            sv = z3.Solver()
            sv.set('timeout', 2000)
            sv.add(b >= 0, a != b)
            return sv.check() == z3.unsat
        for V, nm in ((self.S, 'destinations'), (self.R, 'sources')):
            if same(Nz, zi(V.len)):
                inv.append(('the %s so far are marked' % nm, lambda g, T, V=V: fa(q, z3.Implies(z3.And(q >= 0, q < T), M(g)[zi(v.vget(V, q))]))))
        ad = [l for l in order if l.kind == 'z' and l.x0.sort() == B]
        closed = lambda g: fa([k, p], z3.Implies(z3.And(k >= 0, k < Lz(g), rng(p), link(A(g)[k], p)), M(g)[p]))
        if same(Nz, n) and self.row is not None:
            cur = [r for r in self.row if z3.is_select(r)]
            if len(cur) != 1:
                return inv
            cur = cur[0]
            inv += [('the links of the current rank up to here are followed', lambda g, T: fa(p, z3.Implies(z3.And(p >= 0, p < T, link(cur, p)), M(g)[p])))]
        elif same(Nz, L0):
            inv.append(('the links of the first members of the list are followed', lambda g, T: fa([k, p], z3.Implies(z3.And(k >= 0, k < T, rng(p), link(A(g)[k], p)), M(g)[p]))))
        elif len(ad) == 1:
            inv.append(('when nothing was added all links are followed', lambda g, T: z3.Or(asb(v.leaf_get(g, ad[0])), closed(g))))
        return inv


def u_group(c, it):
    v = c.engine()
    v.assert_mode = 'oblige'
    st = State()
    cls = 'heffte::box3d<%s>' % it
    fn = c.fn('heffte::a2a_group', targs=[it])
    ib, ob = (v.havoc(ptype('std::vector<%s>' % cls), x) for x in ('inboxes', 'outboxes'))
    S, R = (v.havoc(IV, x) for x in ('send_proc', 'recv_proc'))
    n = zi(ib.len)
    st.fact(z3.And(n >= 1, ob.len == n, S.len >= 0, R.len >= 0))
    t, u = z3.Ints('t!g u!g')
    at = lambda V, i: zi(v.vget(V, i))
    for V in (S, R):
        st.fact(fa(t, z3.Implies(z3.And(t >= 0, t < V.len), z3.And(at(V, t) >= 0, at(V, t) < n))))
    il, ol = LV(v.newcell(st, ib)), LV(v.newcell(st, ob))
    G = Group(v, n, S, R)
    # Q: any set of ranks that holds the partners and is closed under links
    for V in (S, R):
        st.fact(fa(t, z3.Implies(z3.And(t >= 0, t < V.len), G.Q(at(V, t)))))
    st.fact(fa([t, u], z3.Implies(z3.And(G.rng(t), G.rng(u), G.Q(t), G.link(t, u)), G.Q(u))))
    v.contracts['heffte::box3d::collide'] = v.contracts['collide'] = G.c_collide(il, ol)
    v.contracts['heffte::box3d::empty'] = v.contracts['empty'] = G.c_empty
    v.loop_hooks.append(G.hook)
    v.keep_recursive = lambda lf, order: lf.kind in ('varr', 'vlen') and any(o.kind == 'varr' and o.x0.sort() == z3.ArraySort(I, B) for o in order)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, S)), LV(v.newcell(st, R)), il, ol])
    for g, _ in thr:
        v.oblige(g, z3.BoolVal(False), 'does not throw')
    for g, r in rets:
        M = G.final
        if M is None:
            raise Unsupported('no loop that marks ranks')
        C, hit, inst_of = counter(v, r)
        x, y, k = v.fresh('x', I), v.fresh('y', I), v.fresh('k', I)
        for V, nm in ((S, 'destination'), (R, 'source')):
            h = g.copy()
            h.fact(z3.And(x >= 0, x < V.len))
            v.oblige(h, M[at(V, x)], 'every %s is in the group' % nm)
        h = g.copy()
        h.fact(z3.And(G.rng(x), G.rng(y), M[x], G.link(x, y)))
        v.oblige(h, M[y], 'a rank that shares a point with a member is in the group')
        h = g.copy()
        h.fact(z3.And(G.rng(x), M[x]))
        v.oblige(h, G.Q(x), 'no other rank is in the group: it is contained in every closed set that holds the partners')
        # the list: exactly the marked ranks, ascending
        z = ground_at(g, [x, hit(k), hit(k + 1)])
        h = z.copy()
        h.fact(z3.And(k >= 0, k < r.len))
        h.fact(inst_of(k))
        u = hit(k)
        e = zi(read_elem(v, h, r, k, [[u]], 'the list'))
        v.oblige(h, z3.And(e == u, G.rng(u), M[u]), 'every entry of the list is a member')
        h = h.copy()
        h.fact(k + 1 < r.len)
        h.fact(inst_of(k + 1))
        w = hit(k + 1)
        e2 = zi(read_elem(v, h, r, k + 1, [[w]], 'the list'))
        v.oblige(h, e < e2, 'the list is ascending, so it is the same on every rank that computes the same set')
        h = z.copy()
        h.fact(z3.And(G.rng(x), M[x]))
        e3 = zi(read_elem(v, h, r, C(x), [[x]], 'the list'))
        v.oblige(h, z3.And(C(x) >= 0, C(x) < r.len, e3 == x), 'every member is in the list')


def u_same(c):
    """ranks of one group compute the same group: a consequence of 'least closed set that holds the ranks linked to me' for a symmetric link relation"""
    v = c.engine()
    st = State()
    G, K = z3.Function('in_group_of', I, I, B), z3.Function('linked', I, I, B)
    a, b, x, y, q = z3.Ints('a b x!q y!q z!q')
    st.fact(z3.And(fa([x, y], K(x, y) == K(y, x)), fa([x, y], z3.Implies(K(x, y), G(x, y))), fa([q, x, y], z3.Implies(z3.And(G(q, x), K(x, y)), G(q, y)))))

    def least(r, P):
        return z3.Implies(z3.And(fa(x, z3.Implies(K(r, x), P(x))), fa([x, y], z3.Implies(z3.And(P(x), K(x, y)), P(y)))), fa(x, z3.Implies(G(r, x), P(x))))
    h = st.copy()
    h.fact(least(b, lambda t: G(a, t)))
    h.fact(G(a, b))
    c.live(v, h)
    w = v.fresh('w', I)
    v.oblige(h, z3.Implies(G(b, w), G(a, w)), 'lemma: the group of a member is contained in mine', kind='lemma', where='lemma')
    sub_ = fa([q, x, y], z3.Implies(z3.And(G(q, x), G(x, y)), G(q, y)))
    h = st.copy()
    h.fact(sub_)
    h.fact(least(a, lambda t: G(t, a)))
    h.fact(G(a, b))
    v.oblige(h, G(b, a), 'lemma: I am in the group of every member of mine', kind='lemma', where='lemma')
    h.fact(G(b, a))
    v.oblige(h, G(a, w) == G(b, w), 'lemma: the members of one group compute the same group, so every process of it makes the same collective calls', kind='lemma', where='lemma')


UNITS += [Unit('a2a_group<%s>' % it, lambda c, it=it: u_group(c, it)) for it in ('int', 'long long')] + [Unit('one group, one list', u_same)]

NOTE = ('proof for all numbers of ranks and all boxes: a2a_group returns, ascending, exactly the least set of ranks that holds the partners and is closed under links (both index types); a lemma '
        'derives that all members compute the same list; iotripple (counts, displacements, map) for all groups and partner lists; partial correctness (termination is assumed), integers mathematical')
ASSUMES = ['collide/empty decide whether two boxes share a point (contracts proved under C01 and C08)', 'the partner lists hold exactly the ranks that share a point (C08) and ranks of the communicator only']
