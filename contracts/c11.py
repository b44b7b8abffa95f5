"""C11: the transform pipeline runs every stage once, in order, on the right data.

compute_transform is verified for every combination of inactive redistributions and missing 1-D stages, for any sizes,
batch and layout of the workspace (contracts/ctrun.py); the public calls hand it the right arrays, redistributions and
stages, and the constructors wire redistribution and stage i to the shapes and the dimension of stage i (contracts/ct.py)."""
import os
from contracts.hs import *
from contracts.ct import *
from contracts.ctrun import u_ct

DRIVER = 'transform'
HARNESS = PIPELINE
TECHNIQUE = 'contract-based deductive verification'
RULE = 'one unit per overload of compute_transform, direction and aliasing (every combination of inactive redistributions and missing stages inside; the float / long long instantiations in the thorough tier), per class for the public calls and the constructors'


def units(which):
    out = []
    S = {'c2c': 'const std::complex<%s> *, std::complex<%s> *', 'r2r': 'const %s *, %s *', 'r2c': 'const %s *, std::complex<%s> *', 'c2r': 'const std::complex<%s> *, %s *'}
    for kind, ds, ips in (('c2c', ('forward', 'backward'), (0, 1)), ('r2r', ('forward', 'backward'), (0, 1)), ('r2c', ('forward',), (0,)), ('c2r', ('backward',), (0,))):
        for T_, it in (('double', 'int'), ('float', 'long long')) if os.environ.get('VERIF_TIER') == 'thorough' else (('double', 'int'),):
            for d in ds:
                for ip in ips:
                    out.append(Unit('compute_transform %s %s, %s, %s%s' % (kind, T_, it, d, ', in place' if ip else ''), u_ct(S[kind] % (T_, T_), T_, it, kind, d, ip, which)))
    return out


PUBLIC = (('fft3d<heffte::backend::stock, int>', 'int', (('std::complex<double>', 'std::complex<double>'), ('double', 'std::complex<double>'))),
          ('fft3d<heffte::backend::fftw, long long>', 'long long', (('std::complex<float>', 'std::complex<float>'), ('float', 'std::complex<float>'))),
          ('fft3d<heffte::backend::stock_cos, int>', 'int', (('double', 'double'),)),
          ('fft3d_r2c<heffte::backend::stock, int>', 'int', (('double', 'std::complex<double>'), ('float', 'std::complex<float>'))))
CTORS = (('fft3d<heffte::backend::stock, int>', 'int', False), ('fft3d<heffte::backend::fftw, long long>', 'long long', False), ('fft3d<heffte::backend::mkl, int>', 'int', False),
         ('fft3d<heffte::backend::stock_cos, int>', 'int', False), ('fft3d<heffte::backend::fftw_sin, int>', 'int', False),
         ('fft3d_r2c<heffte::backend::stock, int>', 'int', True), ('fft3d_r2c<heffte::backend::fftw, long long>', 'long long', True))
sh_ = lambda s: s.replace('heffte::backend::', '')
UNITS = units('C11') + [Unit('%s: forward and backward' % sh_(cls), u_public(cls, it, pairs, 'C11')) for cls, it, pairs in PUBLIC] \
    + [Unit('%s constructors: wiring' % sh_(cls), u_wiring(cls, it, 'C11', r)) for cls, it, r in CTORS]
