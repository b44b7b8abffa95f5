"""C17: kernels of the built-in FFT."""
from contracts.hs import *

HARNESS = STOCK
UNITS = []
LEVEL = 'exploration'
TECHNIQUE = BOUNDED_TECH
NOTE = BOUNDED_NOTE
