"""C15: the pre- and post-processing of the cosine and sine transforms.

For a line of length L the contract gives the value of every entry of the extended signal as a closed formula of the
line (the even/odd symmetric extension) and of every extracted coefficient, and says that nothing else is written."""
from contracts.hs import *
import z3
from dv.spec import *
from dv.values import Unsupported, same

DRIVER = 'packer'
HARNESS = PIPELINE
TECHNIQUE = 'contract-based deductive verification'
RULE = 'one unit per processor and precision: value of every entry of the extended line, of every extracted entry, frame, extended length'
COS, SIN, COS1 = ('heffte::cpu_%s_pre_pos_processor' % x for x in ('cos', 'sin', 'cos1'))


def table(cls, L):
    """length of the extended line; entry p of the real extension; entry p of the complex one; extracted entries"""
    ext = 4 * (L - 1) if cls == COS1 else 4 * L
    zero = z3.RealVal(0)
    if cls == COS1:
        # x_0 0 x_1 0 ... x_{L-1} 0 ... x_1 0
        re = lambda a, m: [(2 * m + 1, m < ext / 2, zero), (2 * m, m < L, a[m]), (ext - 2 * m, z3.And(m >= 1, m < L - 1), a[m])]
        wit = lambda p: [(p - 1) / 2, p / 2, (ext - p) / 2]
        cx = lambda a, p: (z3.If(p < L, a[p], a[2 * (L - 1) - p]), zero)
        post_f = lambda r, i_, i: r[i]
        post_b = lambda a, i: a[2 * i]
    else:
        # 0 x_0 0 x_1 ... x_{L-1} 0 +-x_{L-1} ... +-x_0
        sg = 1 if cls == COS else -1
        re = lambda a, m: [(2 * m, m < 2 * L, zero), (2 * m + 1, m < L, a[m]), (ext - 2 * m - 1, m < L, sg * a[m])]
        wit = lambda p: [p / 2, (p - 1) / 2, (ext - p - 1) / 2]
        post_b = lambda a, i: a[2 * i + 1]
        if cls == COS:
            cx = lambda a, p: (z3.If(p < L, a[p], z3.If(p == L, zero, -a[2 * L - p])), zero)
            post_f = lambda r, i_, i: r[i]
        else:
            cx = lambda a, p: (zero, z3.If(z3.Or(p == 0, p == 2 * L), zero, -z3.If(p <= L, a[p - 1], a[2 * L - p - 1])))
            post_f = lambda r, i_, i: -i_[i + 1]
    return ext, (re, wit), cx, post_f, post_b


def entry(v, s, m0, m1, off, p, cond, want, frame, what):
    """m1[off+p] == want for every p with cond; every other position q with frame(q) keeps its contents"""
    g = s.copy()
    g.fact(cond)
    v.oblige(g, z3.Select(m1, off + p) == want, what, hints=[off + p])
    q = v.fresh('q', I)
    g = s.copy()
    g.fact(frame(q))
    v.oblige(g, z3.Select(m1, off + q) == z3.Select(m0, off + q), what + ': nothing else is written', hints=[off + q])


def methods(c, cls, T_):
    for meth in ('pre_forward', 'post_forward', 'pre_backward', 'post_backward'):
        v, st = c.engine(), State()
        fn = c.fn(cls + '::' + meth, targs=[T_])
        L = v.fresh('length', I)
        st.fact(L >= (2 if cls == COS1 else 1))
        et = ptype(T_)
        ct = T('complex', et)
        si = ct if meth == 'post_forward' else et
        so = ct if meth == 'pre_backward' else et
        src, dst = v.havoc(T('vec', si), 'in'), v.havoc(T('vec', so), 'out')
        io, oo = v.fresh('io', I), v.fresh('oo', I)
        sc, dc = v.newcell(st, src), v.newcell(st, dst)
        c.live(v, st)
        rets, thr = c.run(v, st, fn, None, [NULL, L, Ptr(sc, (), io), Ptr(dc, (), oo)])
        ext, re, cx, post_f, post_b = table(cls, L)
        a = _Off(src.m, io)
        p = v.fresh('p', I)
        for s, _ in thr:
            v.oblige(s, z3.BoolVal(False), meth + ' does not throw')
        for s, _ in rets:
            v.oblige(s, z3.BoolVal(same(s.cells[sc], src)), meth + ': the input is unchanged')
            out = s.cells[dc].m
            if meth == 'pre_forward':
                m = v.fresh('m', I)
                for k, (pos, dom, val) in enumerate(re[0](a, m)):
                    g = s.copy()
                    g.fact(z3.And(m >= 0, dom))
                    v.oblige(g, z3.Select(out[0], oo + pos) == val, 'symmetric extension of the line (%s)' % ('zeros', 'line', 'mirror image')[k], hints=[oo + pos])
                g = State()
                g.fact(z3.And(L >= (2 if cls == COS1 else 1), p >= 0, p < ext))
                v.oblige(g, z3.Or(*[z3.And(w >= 0, z3.substitute(dom, (m, w)), z3.substitute(pos, (m, w)) == p) for (pos, dom, _), w in zip(re[0](a, m), re[1](p))]), 'the three parts make up the whole segment')
                q = v.fresh('q', I)
                g = s.copy()
                g.fact(z3.Or(q < 0, q > ext))
                v.oblige(g, z3.Select(out[0], oo + q) == z3.Select(dst.m[0], oo + q), 'nothing outside the segment is written', hints=[oo + q])
                if cls != COS1:
                    # one entry past the segment: it is the leading zero of the next line's extension
                    v.oblige(s, z3.Or(z3.Select(out[0], oo + ext) == 0, z3.Select(out[0], oo + ext) == z3.Select(dst.m[0], oo + ext)), 'the entry after the segment is zero or untouched', hints=[oo + ext])
                else:
                    v.oblige(s, z3.Select(out[0], oo + ext) == z3.Select(dst.m[0], oo + ext), 'the entry after the segment is untouched', hints=[oo + ext])
            elif meth == 'pre_backward':
                top = ext / 2 + 1
                w = cx(a, p)
                for k, nm in ((0, 'real'), (1, 'imaginary')):
                    entry(v, s, dst.m[k], out[k], oo, p, z3.And(p >= 0, p < top), w[k], lambda q: z3.Or(q < 0, q >= top), 'coefficients of the extension, %s part' % nm)
            else:
                w = post_f(_Off(src.m[:1], io), _Off(src.m[1:], io) if len(src.m) > 1 else None, p) if meth == 'post_forward' else post_b(a, p)
                entry(v, s, dst.m[0], out[0], oo, p, z3.And(p >= 0, p < L), w, lambda q: z3.Or(q < 0, q >= L), 'extracted entries (%s)' % meth)
    # extended length and extended box
    v, st = c.engine(), State()
    L = v.fresh('length', I)
    st.fact(L >= 1)
    for s, r in c.run(v, st, c.fn(cls + '::compute_extended_length'), None, [L])[0]:
        v.oblige(s, r == table(cls, L)[0], 'length of the extended line')


class _Off:
    def __init__(self, m, off):
        self.m, self.off = m, off

    def __getitem__(self, i):
        return z3.Select(self.m[0], self.off + i)


def ext_box(c, cls, it):
    v, st = c.engine(), State()
    fn = c.fn('heffte::make_extended_box', targs=[cls.replace('heffte::', ''), it]) if c.ast.find('heffte::make_extended_box', targs=[cls.replace('heffte::', ''), it]) else c.fn('heffte::make_extended_box', targs=[cls, it])
    b = box(v, 'b', 'heffte::box3d<%s>' % it)
    st.fact(box_inv(b))
    for s, r in c.run(v, st, fn, None, [LV(v.newcell(st, b))])[0]:
        o = arr(b, 'order')
        sz, rs = arr(b, 'size'), arr(r, 'size')
        v.oblige(s, box_inv(r), 'extended box: sizes and order are consistent')
        v.oblige(s, pick(rs, o[0]) == table(cls, pick(sz, o[0]))[0], 'extended box: the lines have the extended length')
        v.oblige(s, z3.And(pick(rs, o[1]) == pick(sz, o[1]), pick(rs, o[2]) == pick(sz, o[2]), eqorder(b, r)), 'extended box: the same lines in the same order')


def unit(cls, T_):
    def f(c):
        methods(c, cls, T_)
        for it in ('int', 'long long'):
            ext_box(c, cls, it)
    return Unit('%s<%s>' % (cls.split('::')[1], T_), f)


UNITS = [unit(k, t) for k in (COS, SIN, COS1) for t in ('float', 'double')]
