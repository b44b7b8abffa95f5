"""C12: the reported workspace is always sufficient and never aliased.

Every access of compute_transform - sources, destinations and workspaces of the redistributions, data and scratch of the
1-D stages, copies - stays inside the array it is given, and the regions one operation uses at the same time are disjoint,
for every combination of inactive redistributions and missing stages and for any sizes (contracts/ctrun.py); the
constructors report sizes for which that holds (contracts/ct.py)."""
from contracts.hs import *
from contracts.ct import *
from contracts.c11 import units, CTORS, sh_

DRIVER = 'transform'
HARNESS = PIPELINE
TECHNIQUE = 'contract-based deductive verification'
RULE = 'one unit per overload of compute_transform, direction and aliasing: bounds and disjointness of every access (the float / long long instantiations in the thorough tier); one per class for the reported sizes'
UNITS = units('C12') + [Unit('%s constructors: reported sizes' % sh_(cls), u_wiring(cls, it, 'C12', r)) for cls, it, r in CTORS]
