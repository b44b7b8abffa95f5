"""Symbolic values, types and states."""
import re, itertools
import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """A construct outside the verifier's reach (never a violation)."""


# ------------------------------------------------------------------ types
def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INTS = {'int', 'long', 'long long', 'unsigned int', 'unsigned', 'unsigned long', 'unsigned long long', 'short',
        'unsigned short', 'char', 'signed char', 'unsigned char', 'size_t', 'std::size_t', 'ptrdiff_t', 'long int', 'ssize_t',
        'std::ptrdiff_t', '__int128', 'MPI_Request', 'MPI_Comm', 'MPI_Datatype', 'std::streamsize', 'difference_type', 'size_type'}
BITS = {'int': 32, 'short': 16, 'char': 8, 'signed char': 8, 'long': 64, 'long long': 64}


class T:
    """kind: int,bool,real,complex,arr,vec,ptr,uptr,rec,void,lambda,func,valarray,iter,str,opaque"""
    __slots__ = ('kind', 'a', 'n', 'name')

    def __init__(self, kind, a=None, n=None, name=None):
        self.kind, self.a, self.n, self.name = kind, a, n, name

    def __repr__(self):
        return '%s(%s,%s,%s)' % (self.kind, self.a, self.n, self.name)

    def __eq__(self, o):
        return isinstance(o, T) and (self.kind, self.a, self.n, self.name) == (o.kind, o.a, o.n, o.name)

    def __hash__(self):
        return hash((self.kind, self.n, self.name))


_tc = {}


def strip_cv(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for w in ('const ', 'volatile ', 'typename ', 'struct ', 'class ', 'enum '):
            if s.startswith(w):
                s = s[len(w):].strip()
                ch = True
        for w in (' const', ' volatile', ' __restrict'):
            if s.endswith(w):
                s = s[:-len(w)].strip()
                ch = True
        if s.endswith('*const'):
            s = s[:-5].strip()
            ch = True
    return s


VECTORS = {'__m128': ('float', 4), '__m256': ('float', 8), '__m512': ('float', 16), '__m128d': ('double', 2), '__m256d': ('double', 4), '__m512d': ('double', 8)}


def ptype(s):
    if s in _tc:
        return _tc[s]
    r = _ptype(s)
    _tc[s] = r
    return r


def _ptype(s0):
    s = strip_cv(s0)
    if s.endswith('&&'):
        return ptype(s[:-2])
    if s.endswith('&'):
        return ptype(s[:-1])
    if s.startswith('(lambda at') or s.startswith('(lambda'):
        if s.endswith(')'):
            return T('lambda', name=s)
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m:
        return T('arr', ptype(m.group(1)), int(m.group(2)))
    m = re.match(r'^(.*)\[\]$', s)
    if m:
        return T('ptr', ptype(m.group(1)))
    m = re.match(r'^__attribute__\(\(__vector_size__\((\d+) \* sizeof\((\w+)\)\)\)\) (\w+)$', s)
    if m:
        return T('arr', ptype(m.group(3)), int(m.group(1)))
    if s in VECTORS:
        return T('arr', T('real', name=VECTORS[s][0]), VECTORS[s][1])
    if s.endswith('*'):
        return T('ptr', ptype(s[:-1]))
    if s in INTS:
        return T('int', n=32 if s in ('int', 'unsigned', 'unsigned int') else 64, name='u' if ('unsigned' in s or 'size_t' in s and 's' != s[0] or s == 'size_type') else 's')
    if s == 'bool' or s == '_Bool' or s == 'std::_Bit_reference' or s == 'vector<bool>::reference':
        return T('bool')
    if s in ('float', 'double', 'long double'):
        return T('real', name=s)
    if s == 'void':
        return T('void')
    if s in ('std::string', 'std::basic_string<char>'):
        return T('str')
    m = re.match(r'^(?:std::)?(?:__cxx11::)?([\w:]+)\s*<(.*)>$', s)
    if m:
        n, args = m.group(1), split_args(m.group(2))
        n = n.replace('__gnu_cxx::', '')
        if n == 'array':
            mm = re.match(r'^(\d+)', args[1])
            return T('arr', ptype(args[0]), int(mm.group(1)) if mm else None)
        if n == 'vector':
            return T('vec', ptype(args[0]))
        if n in ('unique_ptr', 'shared_ptr'):
            return T('uptr', ptype(args[0]))
        if n == 'complex' and 'stock' not in s:
            return T('complex', ptype(args[0]))
        if n == 'valarray':
            return T('valarray', ptype(args[0]))
        if n == '__normal_iterator':
            return T('iter', ptype(args[0]))
        if n == 'initializer_list':
            return T('vec', ptype(args[0]))
        if n == 'pair':
            return T('rec', name='std::pair<%s>' % ', '.join(args), a=tuple(ptype(x) for x in args))
        if n == 'tuple':
            return T('rec', name='std::tuple<%s>' % ', '.join(args), a=tuple(ptype(x) for x in args))
    return T('rec', name=s)


# ------------------------------------------------------------------ values
class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return '%s{%s}' % (self.cls, ', '.join('%s=%r' % kv for kv in self.f.items()))


class Arr:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = list(e)

    def __repr__(self):
        return 'Arr%r' % (self.e,)


class Vec:
    """A sequence: symbolic length + one SMT array per leaf of the element type."""
    __slots__ = ('t', 'len', 'm')

    def __init__(self, t, ln, m):
        self.t, self.len, self.m = t, ln, list(m)

    def __repr__(self):
        return 'Vec<%r>(len=%s)' % (self.t, self.len)


class Ptr:
    """Pointer / iterator. cell None: null.  off None: pointer to a single object."""
    __slots__ = ('cell', 'path', 'off', 'null', 'view')

    def __init__(self, cell, path=(), off=None, null=None, view=None):
        self.cell, self.path, self.off, self.null, self.view = cell, tuple(path), off, null, view

    def __repr__(self):
        return 'Ptr(%s,%s,%s,%s%s)' % (self.cell, self.path, self.off, self.null, (',' + self.view) if self.view else '')


NULL = Ptr(None)


class Union:
    """Guarded union of values that cannot be merged into one term."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(%r)' % (self.alts,)


class Closure:
    __slots__ = ('node', 'env', 'fn')

    def __init__(self, node, env, fn):
        self.node, self.env, self.fn = node, env, fn


class PyFunc:
    """a native callable value"""
    def __init__(self, f):
        self.f = f


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class LV:
    __slots__ = ('cell', 'path', 'view')

    def __init__(self, cell, path=(), view=None):
        self.cell, self.path, self.view = cell, tuple(path), view

    def __repr__(self):
        return 'LV(%s,%s)' % (self.cell, self.path)


def ints(x):
    return z3.IntVal(x)


def isz(x):
    return isinstance(x, z3.ExprRef)


def conc(x):
    """python int/bool if the term is a literal"""
    if isinstance(x, bool) or isinstance(x, int):
        return x
    if not isz(x):
        return None
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


_simp_cache = {}


def simp(x):
    if not isz(x):
        return x
    return z3.simplify(x)


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isz(x) and x.sort() == I:
        return x != 0
    if isz(x) and x.sort() == R:
        return x != 0
    return x


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isz(x) and x.sort() == B:
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


class State:
    __slots__ = ('cells', 'pc', 'trace')

    def __init__(self):
        self.cells = {}
        self.pc = []
        self.trace = []

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        return s

    def cond(self, c):
        c = simp(zb(c))
        if not z3.is_true(c):
            self.pc.append(('c', c))

    def fact(self, f):
        if not z3.is_true(f):
            self.pc.append(('f', f))

    def facts(self):
        return [e for _, e in self.pc]


class Out:
    """control outcome of a statement"""
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val

    def __repr__(self):
        return 'Out(%s,%r)' % (self.kind, self.val)


BRK, CONT = Out('brk'), Out('cont')


class CannotMerge(Exception):
    pass


def is_null(p):
    """z3 Bool: pointer is null"""
    if isinstance(p, Union):
        r = z3.BoolVal(False)
        for c, v in reversed(p.alts):
            r = z3.If(c, is_null(v), r)
        return r
    if p.cell is None:
        return z3.BoolVal(True)
    return p.null if p.null is not None else z3.BoolVal(False)


def ite(c, a, b):
    if a is b:
        return a
    cc = conc(c)
    if cc is True:
        return a
    if cc is False:
        return b
    if isz(a) or isz(b) or isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        if isinstance(a, (int, bool)) and not isz(a):
            a = z3.BoolVal(a) if isinstance(a, bool) else z3.IntVal(a)
        if isinstance(b, (int, bool)) and not isz(b):
            b = z3.BoolVal(b) if isinstance(b, bool) else z3.IntVal(b)
        if not (isz(a) and isz(b)):
            raise CannotMerge('%r / %r' % (a, b))
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            if a.sort() == B or b.sort() == B:
                a, b = zi(a), zi(b)
            elif a.sort() == R or b.sort() == R:
                a = z3.ToReal(a) if a.sort() == I else a
                b = z3.ToReal(b) if b.sort() == I else b
            else:
                raise CannotMerge('sorts')
        return z3.If(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct) and set(a.f) == set(b.f):
        return Struct(a.cls, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
        return Arr([ite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Vec) and isinstance(b, Vec) and len(a.m) == len(b.m):
        return Vec(a.t, ite(c, a.len, b.len), [ite(c, x, y) for x, y in zip(a.m, b.m)])
    if isinstance(a, (Ptr, Union)) and isinstance(b, (Ptr, Union)):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell is None and b.cell is None:
                return a
            if a.cell is None:
                return Ptr(b.cell, b.path, b.off, z3.Or(c, is_null(b)), b.view)
            if b.cell is None:
                return Ptr(a.cell, a.path, a.off, z3.Or(z3.Not(c), is_null(a)), a.view)
            if a.cell == b.cell and a.view == b.view and len(a.path) == len(b.path) and all(
                    x[0] == y[0] and (x[1] is y[1] or (not isz(x[1]) and not isz(y[1]) and x[1] == y[1]) or (isz(x[1]) and isz(y[1]) and x[1].eq(y[1]))) for x, y in zip(a.path, b.path)) and \
                    (a.off is None) == (b.off is None):
                off = None if a.off is None else ite(c, a.off, b.off)
                nl = None if (a.null is None and b.null is None) else z3.If(c, is_null(a), is_null(b))
                return Ptr(a.cell, a.path, off, nl, a.view)
        al = a.alts if isinstance(a, Union) else [(z3.BoolVal(True), a)]
        bl = b.alts if isinstance(b, Union) else [(z3.BoolVal(True), b)]
        return Union([(simp(z3.And(c, g)), v) for g, v in al] + [(simp(z3.And(z3.Not(c), g)), v) for g, v in bl])
    if a is None and b is None:
        return None
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a
    if isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node:
        return a
    if isinstance(a, LV) and isinstance(b, LV) and a.cell == b.cell and a.path == b.path:
        return a
    raise CannotMerge('%r / %r' % (type(a), type(b)))


def same(a, b):
    """structural identity (sound under-approximation of equality)"""
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Vec) and isinstance(b, Vec):
        return same(a.len, b.len) and len(a.m) == len(b.m) and all(same(x, y) for x, y in zip(a.m, b.m))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.cell != b.cell or a.view != b.view or len(a.path) != len(b.path):
            return False
        for x, y in zip(a.path, b.path):
            if x[0] != y[0] or not (x[1] == y[1] if not isz(x[1]) and not isz(y[1]) else same(x[1], y[1])):
                return False
        if (a.off is None) != (b.off is None):
            return False
        if a.off is not None and not same(a.off, b.off):
            return False
        if a.cell is None:
            return True
        return same(is_null(a), is_null(b))
    if isinstance(a, Union) and isinstance(b, Union):
        return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if not isz(a) and not isz(b) and isinstance(a, (int, bool, str)) and isinstance(b, (int, bool, str)):
        return a == b
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    if isinstance(a, LV) and isinstance(b, LV):
        return a.cell == b.cell and len(a.path) == len(b.path)
    return False
