"""Loading the AST of a driver.  With DV_CACHE set (development only) the parsed AST is kept under a key
made of the contents of the driver and of every source of /repo; checks run without it."""
import os, hashlib, pickle, sys, glob
from . import astload

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def source_files():
    out = []
    for d in ('include', 'src', '_build/include'):
        for r, _, fs in os.walk(os.path.join(astload.REPO, d)):
            out += [os.path.join(r, f) for f in fs if f.endswith(('.h', '.cpp', '.hpp', '.in', '.cu'))]
    return sorted(out)


def source_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def driver_text(name):
    return open(os.path.join(HERE, 'drivers', name + '.cpp')).read().replace('"/repo/', '"%s/' % astload.REPO)


def flags(text):
    """extra parser flags a driver asks for, and the filter of dumped declarations"""
    import re
    m = re.search(r'^// dv-flags: (.*)$', text, re.M)
    return m.group(1).split() if m else []


def load(name):
    text = driver_text(name)
    cache = os.environ.get('DV_CACHE')
    if not cache:
        return astload.load(text, flags(text))
    sys.setrecursionlimit(200000)
    k = hashlib.sha256((text + source_hash() + open(astload.__file__).read()).encode()).hexdigest()[:24]
    p = os.path.join(cache, k + '.pkl')
    if os.path.exists(p):
        return pickle.load(open(p, 'rb'))
    a = astload.load(text, flags(text))
    os.makedirs(cache, exist_ok=True)
    pickle.dump(a, open(p, 'wb'))
    return a
