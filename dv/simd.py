"""Lane semantics of the x86 vector intrinsics (Intel's Intrinsics Guide, in exact arithmetic): trusted models.
A register is an Arr with one real per lane.  -0.0 is the constant NEGZERO, so that xor with it is a change of sign."""
import re
import z3
from .values import *

NEGZERO = z3.Real('negative_zero')
_K = {'ps': 4, 'pd': 2}      # lanes of 128 bits


def _int(eng, x):
    c = conc(simp(zi(x)))
    if c is None:
        raise Unsupported('immediate that is not a constant')
    return c


def _lit0(x):
    x = simp(x)
    return z3.is_rational_value(x) and x.as_fraction() == 0


def _bits(op, a, b):
    out = []
    for x, y in zip(a, b):
        if x.eq(NEGZERO):
            x, y = y, x
        if _lit0(x):
            x, y = y, x
        if _lit0(y):                    # neutral for or, xor
            out.append(x)
        elif op == 'xor' and y.eq(NEGZERO):
            out.append(z3.RealVal(0) if x.eq(NEGZERO) else simp(-x))
        else:
            raise Unsupported('bitwise operation on general lanes')
    return out


def lanes(eng, v):
    if isinstance(v, Arr):
        return v.e
    raise Unsupported('vector register %r' % (v,))


def _at(eng, st, p, i):
    if isinstance(p, LV):
        p = eng.addr(p)
    return eng.deref(st, eng.padd(st, p, i))


def _alt(f, g, *rows):
    return [(g if i % 2 else f)(*xs) for i, xs in enumerate(zip(*rows))]


ARITH = {
    'add': lambda a, b: [x + y for x, y in zip(a, b)], 'sub': lambda a, b: [x - y for x, y in zip(a, b)],
    'mul': lambda a, b: [x * y for x, y in zip(a, b)], 'div': lambda a, b: [x / y for x, y in zip(a, b)],
    'addsub': lambda a, b: _alt(lambda x, y: x - y, lambda x, y: x + y, a, b),
    'fmadd': lambda a, b, c: [x * y + z for x, y, z in zip(a, b, c)], 'fmsub': lambda a, b, c: [x * y - z for x, y, z in zip(a, b, c)],
    'fnmadd': lambda a, b, c: [z - x * y for x, y, z in zip(a, b, c)], 'fnmsub': lambda a, b, c: [-z - x * y for x, y, z in zip(a, b, c)],
    'fmaddsub': lambda a, b, c: _alt(lambda x, y, z: x * y - z, lambda x, y, z: x * y + z, a, b, c),
    'fmsubadd': lambda a, b, c: _alt(lambda x, y, z: x * y + z, lambda x, y, z: x * y - z, a, b, c),
    'xor': lambda a, b: _bits('xor', a, b), 'or': lambda a, b: _bits('or', a, b),
}


def _groups(k, *rows):
    for g in range(0, len(rows[0]), k):
        yield [r[g:g + k] for r in rows]


def shuffle(op, k, a, b=None, imm=0):
    out = []
    for i, g in enumerate(_groups(k, *([a] if b is None else [a, b]))):
        x = g[0]
        y = g[-1]
        if op == 'permil':
            out += [x[(imm >> (2 * j)) & 3] for j in range(4)] if k == 4 else [x[(imm >> (2 * i + j)) & 1] for j in range(2)]
        elif op == 'shuf':
            out += [(x if j < 2 else y)[(imm >> (2 * j)) & 3] for j in range(4)] if k == 4 else [x[(imm >> (2 * i)) & 1], y[(imm >> (2 * i + 1)) & 1]]
        elif op == 'hadd':
            out += [r[j] + r[j + 1] for r in (x, y) for j in range(0, k, 2)]
        elif op == 'hsub':
            out += [r[j] - r[j + 1] for r in (x, y) for j in range(0, k, 2)]
        elif op == 'unpacklo':
            out += [r[j] for j in range(k // 2) for r in (x, y)]
        elif op == 'unpackhi':
            out += [r[j] for j in range(k // 2, k) for r in (x, y)]
        elif op in ('moveldup', 'movedup'):
            out += [x[j - j % 2] for j in range(k)]
        elif op == 'movehdup':
            out += [x[j - j % 2 + 1] for j in range(k)]
        elif op == 'dp':
            s = None
            for j in range(k):
                if (imm >> (4 + j)) & 1:
                    s = x[j] * y[j] if s is None else s + x[j] * y[j]
            s = z3.RealVal(0) if s is None else s
            out += [s if (imm >> j) & 1 else z3.RealVal(0) for j in range(k)]
        else:
            raise Unsupported('vector shuffle ' + op)
    return out


def call(eng, st, n, name, argnodes):
    """result, or NotImplemented if the name is not a vector intrinsic"""
    m = re.match(r'^_mm(256|512)?_(mask_)?([a-z]+[a-z0-9]*)_(ps|pd)$', name)
    if m:
        width, mask, op, ty = int(m.group(1) or 128), m.group(2), m.group(3), m.group(4)
        k = _K[ty]
        N = width // 128 * k
        a = [eng.ev(st, x) for x in argnodes]
        if mask:
            if op == 'blend':
                im = _int(eng, a[0])
                return Arr([y if (im >> i) & 1 else x for i, (x, y) in enumerate(zip(lanes(eng, a[1]), lanes(eng, a[2])))])
            raise Unsupported('external function ' + name)
        if op == 'setzero':
            return Arr([z3.RealVal(0)] * N)
        if op in ('loadu', 'load'):
            return Arr([eng.load(st, _at(eng, st, a[0], i)) for i in range(N)])
        if op in ('storeu', 'store'):
            for i, x in enumerate(lanes(eng, a[1])):
                eng.store(st, _at(eng, st, a[0], i), x)
            return None
        if op == 'set1':
            return Arr([a[0]] * N)
        if op == 'setr':
            return Arr(a)
        if op == 'set':
            return Arr(list(reversed(a)))
        r = [lanes(eng, x) for x in a]
        if any(len(x) != N for x in r):
            raise Unsupported('vector width in ' + name)
        if op == 'sqrt':
            from .execu import SQRT
            return Arr([SQRT(simp(x)) for x in r[0]])
        if op in ARITH:
            return Arr([simp(x) if z3.is_rational_value(simp(x)) else x for x in ARITH[op](*r)])
        if op in ('hadd', 'hsub', 'unpacklo', 'unpackhi', 'moveldup', 'movehdup', 'movedup'):
            return Arr(shuffle(op, k, *r))
        raise Unsupported('external function ' + name)
    m = re.match(r'^__builtin_ia32_(vpermil|dp|blend|shuf)(ps|pd|p)(ps|pd|s|d)?(256|512)?$', name)
    if m:
        op, ty = m.group(1), 'ps' if name.rstrip('0123456789').endswith('s') else 'pd'
        a = [eng.ev(st, x) for x in argnodes]
        im = _int(eng, a[-1])
        r = [lanes(eng, x) for x in a[:-1]]
        if op == 'blend':
            return Arr([y if (im >> i) & 1 else x for i, (x, y) in enumerate(zip(*r))])
        return Arr(shuffle({'vpermil': 'permil'}.get(op, op), _K[ty], *r, imm=im))
    return NotImplemented
