"""Models (contracts taken from the C++ standard) of the library operations the verified code uses.
These are trusted: they are listed in every evidence file."""
import re, itertools
import z3
from .values import *
from . import values as V
from . import simd

_ids = itertools.count(1)


def _args(eng, st, nodes):
    return [eng.ev(st, a) for a in nodes if a.k != 'CXXDefaultArgExpr']


def vec_of(eng, et, items):
    v = eng.empty_vec(et)
    if isinstance(v, Arr):
        return Arr(list(items))
    for i, x in enumerate(items):
        v = eng.vset(v, z3.IntVal(i), x)
    return Vec(v.t, z3.IntVal(len(items)), v.m)


def const_vec(eng, et, n, val):
    fl = eng.flat(val, et)
    return Vec(et, zi(n), [z3.K(I, x) for x in fl])


# ------------------------------------------------------------------ construction
def construct(eng, st, n, t, kids, ct):
    kids = [k for k in kids if k.k != 'CXXDefaultArgExpr']
    if t.kind in ('vec', 'valarray'):
        eng.models_used.add('std::' + {'vec': 'vector', 'valarray': 'valarray'}[t.kind])
        if not kids:
            return eng.empty_vec(t.a)
        k0 = kids[0]
        v0 = eng.ev(st, k0)
        if isinstance(v0, Arr):      # initializer list
            return vec_of(eng, t.a, v0.e)
        if isinstance(v0, Vec):
            return v0
        if isinstance(v0, Ptr):
            if len(kids) == 2:
                v1 = eng.ev(st, kids[1])
                if isinstance(v1, Ptr) and v1.cell == v0.cell:
                    src = eng.load(st, LV(v0.cell, v0.path))
                    ln = simp(zi(v1.off) - zi(v0.off))
                    if conc(v0.off) == 0:
                        return Vec(t.a, ln, src.m)
                    return bulk_copy(eng, st, eng.empty_vec(t.a), z3.IntVal(0), ln, src, zi(v0.off), ln)
            raise Unsupported('range construction')
        if len(kids) == 1 and t.kind == 'vec' and t.a.kind == 'ptr':
            # a list of opaque handles (MPI_Request): only its length matters
            return Vec(ptype('int'), simp(zi(v0)), [z3.K(I, z3.IntVal(0))])
        if len(kids) >= 2:
            val = eng.ev(st, kids[1])
            if t.kind == 'valarray':
                return const_vec(eng, t.a, val, v0)
        else:
            val = eng.default(t.a) if not (t.a.kind == 'rec' and eng.cls(t.a.name) is not None and t.kind == 'vec') else default_elem(eng, st, t.a)
        try:
            return const_vec(eng, t.a, v0, val)
        except Unsupported:
            c = conc(simp(zi(v0)))
            if c is None:
                raise
            return Arr([val] * c)
    if t.kind == 'complex':
        vs = [eng.ev(st, k) for k in kids]
        if len(vs) == 1 and isinstance(vs[0], Struct):
            return vs[0]
        r = [eng.flat(v, T('real'))[0] for v in vs] + [z3.RealVal(0)] * 2
        return Struct('complex', {'re': r[0], 'im': r[1]})
    if t.kind in ('uptr', 'ptr', 'iter'):
        vs = [eng.ev(st, k) for k in kids]
        if not vs or vs[0] is None:
            return NULL
        return vs[0]
    if t.kind == 'str':
        return Opaque('string')
    if t.kind == 'arr':
        if not kids:
            return eng.uninit(t)
        return eng.ev(st, kids[0])
    if t.kind == 'rec' and t.a:
        vs = [eng.ev(st, k) for k in kids]
        if not vs:
            return eng.default(t)
        if len(vs) == 1 and isinstance(vs[0], Struct):
            return vs[0]
        return Struct(t.name, {k: v for k, v in zip(eng.tuple_names(t), vs)})
    if t.kind == 'lambda' or t.kind == 'func':
        return eng.ev(st, kids[0])
    if t.kind == 'rec' and (t.name.startswith('std::') or '_Bit' in t.name):
        for k in kids:
            try:
                eng.ev(st, k)
            except Unsupported:
                pass
        if t.name.startswith('std::function') and kids:
            return eng.ev(st, kids[0])
        return Opaque(t.name)
    raise Unsupported('construct %r (%s)' % (t, ct))


def default_elem(eng, st, t):
    cn = eng.cls(t.name)
    c0 = eng.find_ctor(cn, 0)
    if c0 is not None:
        return eng.construct(st, t, [], c0)
    return eng.default(t)


# ------------------------------------------------------------------ bulk writes
def bulk_copy(eng, st, dst, doff, dlen, src, soff, n):
    """new Vec value equal to dst except dst[doff+u] = src[soff+u], 0<=u<n (ranges do not overlap)"""
    return eng.bulk_write(st, dst, doff, n, lambda u: [z3.Select(m, zi(soff) + u) for m in src.m], dlen)


# ------------------------------------------------------------------ free functions
def call(eng, st, n, rd, argnodes):
    name = rd.get('name')
    eng.models_used.add(name)
    f = globals().get('f_' + name)
    if f is not None:
        return f(eng, st, n, argnodes)
    if name.startswith(('_mm', '__builtin_ia32_')):
        r = simd.call(eng, st, n, name, argnodes)
        if r is not NotImplemented:
            return r
    h = eng.ext.get(name)
    if h is not None:
        return h(eng, st, n, [eng.ev(st, a) for a in argnodes], argnodes)
    raise Unsupported('external function %s' % name)


def f_move(eng, st, n, a):
    if len(a) == 1:
        return eng.lv(st, a[0])
    raise Unsupported('move algorithm')


f_forward = f_move


def _minmax(eng, st, n, a, op):
    if len(a) == 1:
        v = eng.ev(st, a[0])
        es = v.e if isinstance(v, Arr) else None
        if es is None:
            raise Unsupported('min/max of list')
        r = es[0]
        for x in es[1:]:
            c = (x < r) if op == 'min' else (x > r)
            r = z3.If(c, x, r)
        return simp(r)
    x, y = eng.ev(st, a[0]), eng.ev(st, a[1])
    x, y = eng.coerce(x, y)
    c = simp((y < x) if op == 'min' else (x < y))
    cc = conc(c)
    if cc is not None:
        return y if cc else x
    if eng.quick(st, c, 60):
        return y
    if eng.quick(st, z3.Not(c), 60):
        return x
    return z3.If(c, y, x)


def f_min(eng, st, n, a):
    return _minmax(eng, st, n, a, 'min')


def f_max(eng, st, n, a):
    # numeric_limits<T>::max()
    if not a:
        t = ptype(n.qt)
        return z3.IntVal(2 ** ((t.n or 32) - (0 if t.name == 'u' else 1)) - 1)
    return _minmax(eng, st, n, a, 'max')


def f_swap(eng, st, n, a):
    x, y = eng.lv(st, a[0]), eng.lv(st, a[1])
    vx, vy = eng.load(st, x), eng.load(st, y)
    eng.store(st, x, vy)
    eng.store(st, y, vx)


def f_exchange(eng, st, n, a):
    x = eng.lv(st, a[0])
    v = eng.ev(st, a[1])
    o = eng.load(st, x)
    eng.store(st, x, v)
    return o


def f_to_string(eng, st, n, a):
    return Opaque('string')


def f_sqrt(eng, st, n, a):
    from .execu import SQRT
    v = eng.flat(eng.ev(st, a[0]), T('real'))[0]
    return SQRT(v)


def f_abs(eng, st, n, a):
    v = eng.ev(st, a[0])
    if isz(v):
        return z3.If(v >= 0, v, -v)
    from .execu import SQRT
    return SQRT(simp(v.f['re'] * v.f['re'] + v.f['im'] * v.f['im']))


def f_norm(eng, st, n, a):
    v = eng.ev(st, a[0])
    return v.f['re'] * v.f['re'] + v.f['im'] * v.f['im'] if isinstance(v, Struct) else v * v


def f_real(eng, st, n, a):
    v = eng.ev(st, a[0])
    return v.f['re'] if isinstance(v, Struct) else v


def f_imag(eng, st, n, a):
    v = eng.ev(st, a[0])
    return v.f['im'] if isinstance(v, Struct) else z3.RealVal(0)


def f_conj(eng, st, n, a):
    v = eng.ev(st, a[0])
    return Struct('complex', {'re': v.f['re'], 'im': -v.f['im']})


def f_make_unique(eng, st, n, a):
    t = ptype(n.qt)
    cn = eng.cls(t.a.name)
    if cn is None:
        raise Unsupported('make_unique')
    vs = [eng.lv(st, x) for x in a]
    cs = [c for c in eng.ctors(cn) if len(eng.ast.params(c)) == len(a) and not c.d.get('isImplicit')]
    h = eng.ctor_intercept.get(re.sub('<.*>', '', cn.d['_q']))
    if h:
        return Ptr(eng.newcell(st, h(eng, st, cn, vs), 'h'))
    if len(cs) != 1:
        # forwarders: accept default arguments
        cs = [c for c in eng.ctors(cn) if len(eng.ast.params(c)) >= len(a) and not c.d.get('isImplicit')]
    if not cs:
        raise Unsupported('make_unique ctor')
    v = eng.construct(st, t.a, vs, cs[0])
    return Ptr(eng.newcell(st, v, 'h'))


def _dst(eng, st, p):
    """pointer -> (sequence LV, sequence value)"""
    if isinstance(p, LV):
        p = eng.addr(p)
    if not isinstance(p, Ptr) or p.cell is None or p.off is None:
        raise Unsupported('destination %r' % p)
    l = LV(p.cell, p.path)
    return l, eng.load(st, l)


def copy_n(eng, st, src, cnt, dst):
    if isinstance(src, LV):
        src = eng.addr(src)
    if isinstance(dst, LV):
        dst = eng.addr(dst)
    if src.view != dst.view or src.view is not None:
        raise Unsupported('copy_n through a view')
    ls, vs = _dst(eng, st, src)
    ld, vd = _dst(eng, st, dst)
    cnt = zi(cnt)
    if eng.check_bounds:
        for p, v in ((src, vs), (dst, vd)):
            ln = v.len if isinstance(v, Vec) else z3.IntVal(len(v.e))
            eng.oblige(st, z3.Implies(cnt > 0, z3.And(zi(p.off) >= 0, zi(p.off) + cnt <= ln)), 'copied range inside the sequence', kind='safety')
    if isinstance(vd, Arr) or isinstance(vs, Arr):
        c = conc(simp(cnt))
        if c is None:
            raise Unsupported('copy_n on std::array')
        for i in range(c):
            eng.store(st, LV(ld.cell, ld.path + (('i', simp(zi(dst.off) + i)),)), eng.getpath(vs, (('i', simp(zi(src.off) + i)),)))
    else:
        nv = bulk_copy(eng, st, vd, zi(dst.off), vd.len, vs, zi(src.off), cnt)
        eng.store(st, ld, nv)
    if not eng.quick(st, cnt >= 0, 60):
        cnt = z3.If(cnt > 0, cnt, z3.IntVal(0))
    return eng.padd(st, dst, cnt)


def f_copy_n(eng, st, n, a):
    src, cnt, dst = [eng.ev(st, x) for x in a]
    return copy_n(eng, st, src, cnt, dst)


def f_copy(eng, st, n, a):
    b, e, d = [eng.ev(st, x) for x in a]
    return copy_n(eng, st, b, eng.binop(st, '-', e, b), d)


def f_fill_n(eng, st, n, a):
    dst, cnt, val = [eng.ev(st, x) for x in a]
    ld, vd = _dst(eng, st, dst)
    fl = eng.flat(val, vd.t)
    eng.store(st, ld, eng.bulk_write(st, vd, zi(dst.off), zi(cnt), lambda u: fl, vd.len))
    return eng.padd(st, dst, zi(cnt))


def f_fill(eng, st, n, a):
    b, e, val = [eng.ev(st, x) for x in a]
    cnt = eng.binop(st, '-', e, b)
    ld, vd = _dst(eng, st, b)
    if isinstance(vd, Arr):
        for i in range(len(vd.e)):
            eng.store(st, LV(ld.cell, ld.path + (('i', i),)), val)
        return None
    fl = eng.flat(val, vd.t)
    eng.store(st, ld, eng.bulk_write(st, vd, zi(b.off), cnt, lambda u: fl, vd.len))


def f_distance(eng, st, n, a):
    b, e = [eng.ev(st, x) for x in a]
    return eng.binop(st, '-', e, b)


def _it_loop(eng, st, b, e, body, n):
    c = ('alg', next(_ids))
    st.cells[c] = b
    return c, eng.loop(st, lambda s: eng.binop(s, '!=', s.cells[c], e), lambda s: body(s, eng.load(s, eng.deref(s, s.cells[c]))),
                       lambda s: s.cells.__setitem__(c, eng.padd(s, s.cells[c], 1)), n)


def _single(eng, st, outs):
    """continue with the single normal outcome in place"""
    if len(outs) != 1 or outs[0][1] is not None:
        raise Unsupported('algorithm with several outcomes')
    s = outs[0][0]
    st.cells, st.pc, st.trace = s.cells, s.pc, s.trace


def _pred(eng, st, f, args):
    if isinstance(f, Closure):
        return eng.call_closure(st, f, args)
    if isinstance(f, PyFunc):
        return eng.call_pyfunc(st, f, args)
    raise Unsupported('functor %r' % f)


def f_count_if(eng, st, n, a):
    b, e, f = [eng.ev(st, x) for x in a]
    cc = ('alg', next(_ids))
    st.cells[cc] = z3.IntVal(0)

    def body(s, x):
        r = eng.truth(_pred(eng, s, f, [x]))
        s.cells[cc] = simp(z3.If(r, s.cells[cc] + 1, s.cells[cc]))
        return [(s, None)]
    _, outs = _it_loop(eng, st, b, e, body, n)
    _single(eng, st, outs)
    return st.cells[cc]


def f_accumulate(eng, st, n, a):
    vs = [eng.ev(st, x) for x in a]
    b, e, init = vs[:3]
    t = ptype(a[2].qt)
    cc = ('alg', next(_ids))
    st.cells[cc] = init

    def body(s, x):
        if len(vs) == 4:
            s.cells[cc] = _pred(eng, s, vs[3], [s.cells[cc], x])
        else:
            s.cells[cc] = eng.conv(s, eng.binop(s, '+', s.cells[cc], x), t)
        return [(s, None)]
    _, outs = _it_loop(eng, st, b, e, body, n)
    _single(eng, st, outs)
    return st.cells[cc]


def _quant(eng, st, n, a, mode):
    b, e, f = [eng.ev(st, x) for x in a]
    cc = ('alg', next(_ids))
    st.cells[cc] = z3.BoolVal(mode != 'any')

    def body(s, x):
        r = simp(eng.truth(_pred(eng, s, f, [x])))
        if mode == 'any':
            s.cells[cc] = simp(z3.If(r, True, s.cells[cc]))
        elif mode == 'all':
            s.cells[cc] = simp(z3.If(r, s.cells[cc], False))
        else:
            s.cells[cc] = simp(z3.If(r, False, s.cells[cc]))
        return [(s, None)]
    _, outs = _it_loop(eng, st, b, e, body, n)
    _single(eng, st, outs)
    return st.cells[cc]


def f_any_of(eng, st, n, a):
    return _quant(eng, st, n, a, 'any')


def f_all_of(eng, st, n, a):
    return _quant(eng, st, n, a, 'all')


def f_none_of(eng, st, n, a):
    return _quant(eng, st, n, a, 'none')


def f_begin(eng, st, n, a):
    return _begin(eng, st, eng.lv(st, a[0]))


def f_end(eng, st, n, a):
    return _end(eng, st, eng.lv(st, a[0]))


def f___assert_fail(eng, st, n, a):
    from .execu import AllThrow
    if eng.assert_mode == 'oblige':
        eng.oblige(st, z3.BoolVal(False), 'assertion holds', kind='assert')
        raise AllThrow()
    eng.side.append((st.copy(), Out('throw', 'abort')))
    raise AllThrow()


def f___builtin_expect(eng, st, n, a):
    return eng.ev(st, a[0])


def f_pow(eng, st, n, a):
    raise Unsupported('pow')


# ------------------------------------------------------------------ methods
def _begin(eng, st, l):
    if isinstance(l, Union):
        return Union([(c, _begin(eng, st, x)) for c, x in l.alts])
    return Ptr(l.cell, l.path, z3.IntVal(0))


def _len(eng, st, l):
    v = eng.load(st, l)
    if isinstance(v, Vec):
        return v.len
    if isinstance(v, Arr):
        return z3.IntVal(len(v.e))
    raise Unsupported('size of %r' % v)


def _end(eng, st, l):
    if isinstance(l, Union):
        return Union([(c, _end(eng, st, x)) for c, x in l.alts])
    return Ptr(l.cell, l.path, _len(eng, st, l))


def method(eng, st, n, this, name, base, argnodes):
    argnodes = [a for a in argnodes if a.k != 'CXXDefaultArgExpr']
    v = eng.load(st, this) if isinstance(this, (LV, Union)) else this
    if isinstance(v, (Vec, Arr)):
        eng.models_used.add('sequence::' + name)
        return seq_method(eng, st, n, this, v, name, argnodes)
    if isinstance(v, (Ptr, Union)):
        if name == 'get':
            return v
        if name == 'operator bool':
            return eng.truth(v)
        if name == 'reset':
            nv = eng.ev(st, argnodes[0]) if argnodes else NULL
            eng.store(st, this, nv)
            return None
        if name == 'release':
            eng.store(st, this, NULL)
            return v
    if isinstance(v, Struct) and v.cls == 'complex':
        if name == 'real' and not argnodes:
            return v.f['re']
        if name == 'imag' and not argnodes:
            return v.f['im']
        if name in ('real', 'imag'):
            x = eng.flat(eng.ev(st, argnodes[0]), T('real'))[0]
            f = dict(v.f)
            f['re' if name == 'real' else 'im'] = x
            eng.store(st, this, Struct('complex', f))
            return None
    if isz(v) and name == 'operator bool':
        return zb(v)
    if isinstance(v, Opaque) and v.what in ('string', 'exception'):
        return Opaque('string')
    raise Unsupported('method %s on %r' % (name, v if isinstance(v, Opaque) else type(v).__name__))


def seq_method(eng, st, n, this, v, name, argnodes):
    if name == 'size':
        return _len(eng, st, this)
    if name == 'empty':
        return simp(_len(eng, st, this) == 0)
    if name in ('begin', 'cbegin', 'data'):
        return _begin(eng, st, this)
    if name in ('end', 'cend'):
        return _end(eng, st, this)
    if name in ('reserve', 'shrink_to_fit'):
        for a in argnodes:
            eng.ev(st, a)
        return None
    if name in ('at', 'operator[]'):
        return _sub(eng, st, this, zi(eng.ev(st, argnodes[0])))
    if name == 'front':
        if eng.check_bounds:
            eng.oblige(st, _len(eng, st, this) > 0, 'front() of a non-empty sequence', kind='safety')
        return _sub(eng, st, this, z3.IntVal(0), chk=False)
    if name == 'back':
        if eng.check_bounds:
            eng.oblige(st, _len(eng, st, this) > 0, 'back() of a non-empty sequence', kind='safety')
        return _sub(eng, st, this, simp(_len(eng, st, this) - 1), chk=False)
    if name == 'fill':
        x = eng.ev(st, argnodes[0])
        if isinstance(v, Arr):
            eng.store(st, this, Arr([x] * len(v.e)))
            return None
    if name == 'clear':
        if isinstance(v, Arr):
            eng.store(st, this, Arr([]))
        else:
            eng.store(st, this, Vec(v.t, z3.IntVal(0), v.m))
        return None
    if name == 'pop_back':
        eng.store(st, this, Vec(v.t, simp(v.len - 1), v.m))
        return None
    if name in ('push_back', 'emplace_back'):
        if isinstance(v, Vec):
            if name == 'push_back':
                x = eng.ev_init(st, argnodes[0], v.t)
            else:
                x = _emplace(eng, st, v.t, argnodes)
            v = eng.load(st, this)
            nv = Vec(v.t, simp(v.len + 1), [z3.Store(m, v.len, y) for m, y in zip(v.m, eng.flat(x, v.t))])
            eng.store(st, this, nv)
            if name == 'emplace_back':
                return LV(this.cell, this.path + (('i', v.len),))
        else:
            x = eng.ev(st, argnodes[0])
            v = eng.load(st, this)
            eng.store(st, this, Arr(v.e + [x]))
        return None
    if name == 'resize':
        k = zi(eng.ev(st, argnodes[0]))
        val = eng.ev(st, argnodes[1]) if len(argnodes) > 1 else eng.default(v.t)
        if isinstance(v, Vec):
            if conc(simp(k)) == 0 or eng.quick(st, k <= v.len, 100):
                eng.store(st, this, Vec(v.t, k, v.m))
                return None
            nv = Vec(v.t, k, v.m)
            fl = eng.flat(val, v.t)
            nv = eng.bulk_write(st, nv, v.len, simp(k - v.len), lambda u: fl, k)
            eng.store(st, this, nv)
            return None
    if name == 'assign' and isinstance(v, Vec) and len(argnodes) == 2:
        k = eng.ev(st, argnodes[0])
        val = eng.ev(st, argnodes[1])
        if isz(k):
            eng.store(st, this, const_vec(eng, v.t, k, val))
            return None
    if name == 'swap':
        o = eng.lv(st, argnodes[0])
        a, b = eng.load(st, this), eng.load(st, o)
        eng.store(st, this, b)
        eng.store(st, o, a)
        return None
    if name == 'sum' and isinstance(v, Vec) and conc(v.len) is not None:
        s = z3.Select(v.m[0], z3.IntVal(0))
        for i in range(1, conc(v.len)):
            s = s + z3.Select(v.m[0], z3.IntVal(i))
        return simp(s)
    if name == 'cshift' and isinstance(v, Vec) and conc(v.len) is not None:
        k, L = conc(eng.ev(st, argnodes[0])), conc(v.len)
        return vec_of(eng, v.t, [simp(z3.Select(v.m[0], z3.IntVal((i + k) % L))) for i in range(L)])
    raise Unsupported('sequence method ' + name)


def _emplace(eng, st, t, argnodes):
    if t.kind == 'rec' and eng.cls(t.name) is not None:
        cn = eng.cls(t.name)
        cs = [c for c in eng.ctors(cn) if len(eng.ast.params(c)) == len(argnodes) and not c.d.get('isImplicit')]
        if len(argnodes) == 1 and ptype(argnodes[0].qt) == t:
            return eng.ev(st, argnodes[0])
        if len(cs) == 1:
            args = [eng.arg(st, a, p) for a, p in eng.zip_args(argnodes, cs[0])]
            return eng.construct(st, t, args, cs[0])
        # overloads: by parameter types
        for c in cs:
            if all(ptype(p.qt) == ptype(a.qt) for a, p in eng.zip_args(argnodes, c)):
                args = [eng.arg(st, a, p) for a, p in eng.zip_args(argnodes, c)]
                return eng.construct(st, t, args, c)
        raise Unsupported('emplace_back')
    if len(argnodes) == 1:
        return eng.ev(st, argnodes[0])
    if t.a and t.kind == 'rec':
        return Struct(t.name, {k: eng.ev(st, a) for k, a in zip(eng.tuple_names(t), argnodes)})
    raise Unsupported('emplace_back')


def _sub(eng, st, l, i, chk=True):
    if isinstance(l, Union):
        return Union([(c, _sub(eng, st, x, i, chk)) for c, x in l.alts])
    if eng.check_bounds and chk:
        v = eng.load(st, l)
        if isinstance(v, Vec):
            eng.oblige(st, z3.And(i >= 0, i < v.len), 'vector index in range', kind='safety')
        elif conc(simp(i)) is None:
            eng.oblige(st, z3.And(i >= 0, i < len(v.e)), 'array index in range', kind='safety')
    return LV(l.cell, l.path + (('i', i),))


# ------------------------------------------------------------------ operators
def _raw(eng, st, n):
    """lvalue of a vector<bool> element hidden under prvalue wrappers"""
    while n.k in ('MaterializeTemporaryExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr', 'CXXBindTemporaryExpr', 'CXXConstructExpr') and eng.first(n) is not None:
        n = eng.first(n)
    if n.k == 'CXXOperatorCallExpr':
        r = eng.do_opcall(st, n)
        if isinstance(r, LV):
            return r
    return None


def opcall(eng, st, n, op, a, rd):
    if op == '=':
        l = None
        if 'Bit_reference' in a[0].qt or '_Bit_reference' in a[0].qtraw or 'reference' in a[0].qtraw:
            l = _raw(eng, st, a[0])
        v = eng.ev(st, a[1])
        if l is None:
            l = eng.lv(st, a[0])
        if isinstance(v, Opaque) and v.what == 'uninit':
            pass
        old = eng.load(st, l)
        if isinstance(old, Struct) and old.cls == 'complex' and isz(v):
            v = eng.conv(st, v, T('complex'))
        if isz(old) and isz(v) and old.sort() == B:
            v = zb(v)
        eng.store(st, l, v)
        return l
    if op == '[]':
        b = eng.lv(st, a[0])
        v = eng.load(st, b)
        i = zi(eng.ev(st, a[1]))
        if isinstance(v, (Ptr, Union)):
            return eng.deref(st, v, i)
        return _sub(eng, st, b, i)
    if op == '*' and len(a) == 1 or op == '->':
        v = eng.ev(st, a[0])
        return eng.deref(st, v) if op == '*' else v
    if op in ('++', '--') :
        l = eng.lv(st, a[0])
        old = eng.load(st, l)
        eng.store(st, l, eng.padd(st, old, 1 if op == '++' else -1))
        return old if len(a) == 2 else l
    if op in ('+=', '-=', '*=', '/='):
        l = eng.lv(st, a[0])
        y = eng.ev(st, a[1])
        x = eng.load(st, l)
        eng.store(st, l, eng.binop(st, op[0], x, y) if not isinstance(x, Struct) else eng.carith(op[0], x, y))
        return l
    if op in ('<<', '>>') and ptype(a[0].qt).kind not in ('int',):
        for x in a:
            try:
                eng.ev(st, x)
            except Unsupported:
                pass
        return LV(eng.newcell(st, Opaque('ostream')))
    if op == '()':
        f = eng.ev(st, a[0])
        return eng.call_value(st, f, a[1:])
    vs = [eng.ev(st, x) for x in a]
    if len(vs) == 2:
        x, y = vs
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op == '+':
                return Opaque('string')
            raise Unsupported('operator%s on opaque' % op)
        if isinstance(x, Vec) and isinstance(y, Vec) and op in '+-*/' and conc(x.len) is not None:      # valarray
            L = conc(x.len)
            return vec_of(eng, x.t, [eng.arith(op, simp(z3.Select(x.m[0], z3.IntVal(i))), simp(z3.Select(y.m[0], z3.IntVal(i))), st) for i in range(L)])
        if op in ('+', '-', '*', '/') and (isinstance(x, Struct) or isinstance(y, Struct)):
            return eng.carith(op, x, y)
        if op in ('==', '!=') and (isinstance(x, Vec) or isinstance(y, Vec)):
            raise Unsupported('vector comparison')
        return eng.binop(st, op, x, y)
    if len(vs) == 1:
        if op == '-' and isinstance(vs[0], Struct):
            return Struct(vs[0].cls, {k: -b for k, b in vs[0].f.items()})
        if op == '!':
            return z3.Not(eng.truth(vs[0]))
    raise Unsupported('operator ' + op)
