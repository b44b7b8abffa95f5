"""Running contracts: every unit puts one or more real functions under contract, the engine generates the
obligations from the current source, and every obligation must be discharged."""
import os, sys, time, traceback, multiprocessing
import z3
from .values import *
from .execu import AllThrow, Engine
from .loops import Verifier, forall
from . import solve, astload

sys.setrecursionlimit(200000)

DRIVER = '''#include "heffte.h"
#include "/repo/src/heffte_reshape3d.cpp"
#include "/repo/src/heffte_plan_logic.cpp"
#include "/repo/src/heffte_compute_transform.cpp"
'''


class Unit:
    def __init__(self, name, fn, functions=(), note=None, heavy=False, timeout=20):
        self.name, self.fn, self.functions, self.note, self.heavy, self.timeout = name, fn, functions, note, heavy, timeout


class Ctx:
    """what a unit sees"""

    def __init__(self, ast, unit, thorough=False):
        self.ast, self.unit, self.thorough = ast, unit, thorough
        self.engines = []
        self.vac = []
        self.extra = []

    def engine(self, **kw):
        v = Verifier(self.ast)
        for k, x in kw.items():
            setattr(v, k, x)
        self.engines.append(v)
        return v

    def fn(self, q, targs=None, sig=None, mangled=None):
        r = self.ast.find(q, targs=targs, sig=sig)
        if mangled:
            r = [f for f in r if mangled in (f.d.get('mangledName') or '')]
        if not r:
            raise Unsupported('function under contract not found: %s %s %s' % (q, targs or '', sig or ''))
        return r[0]

    def live(self, v, st, what='precondition'):
        """vacuity guard: the facts of this state must not be contradictory"""
        self.vac.append((what, list(st.facts())))

    def run(self, v, st, fn, this, args):
        """outcomes of the real function: ([(state, value)], [(state, throw)])"""
        v.cur_where = '%s (%s:%s)' % (fn.d.get('_q', '?'), os.path.basename(fn.file or '?'), fn.line)
        outs = v.run_fn(st, v.ast.definition(fn) or fn, this, args)
        rets = [(s, o.val if o is not None else None) for s, o in outs if o is None or o.kind == 'ret']
        thr = [(s, o) for s, o in outs if o is not None and o.kind == 'throw']
        for s, _ in rets:
            self.live(v, s, 'normal outcome of ' + fn.d.get('_q', '?'))
        return rets, thr


def enumerators(v, enum):
    """name -> value of an enumeration, as declared in the source"""
    return {k.name: conc(v.enum_val({'id': k.id, 'name': k.name})) for k in v.enum_decl(enum).kids if k is not None and k.k == 'EnumConstantDecl'}


def box(v, name='A', cls='heffte::box3d<int>'):
    return v.havoc(ptype(cls), name)


def arr(s, f):
    return s.f[f].e


def box_inv(b):
    """class invariant of box3d: size is derived from the corners and order is a permutation of 0,1,2"""
    lo, hi, sz, od = (arr(b, f) for f in ('low', 'high', 'size', 'order'))
    return z3.And(*([sz[i] == hi[i] - lo[i] + 1 for i in range(3)] + [is_perm(od)]))


def is_perm(od):
    return z3.And(*([z3.And(o >= 0, o <= 2) for o in od] + [z3.Distinct(*od)]))


def inb(p, b):
    lo, hi = arr(b, 'low'), arr(b, 'high')
    return z3.And(*[z3.And(lo[i] <= p[i], p[i] <= hi[i]) for i in range(3)])


def nonempty(b):
    lo, hi = arr(b, 'low'), arr(b, 'high')
    return z3.And(*[lo[i] <= hi[i] for i in range(3)])


def pick(arrv, i):
    """arr[i] for a 3-vector and a symbolic index"""
    return z3.If(i == 0, arrv[0], z3.If(i == 1, arrv[1], arrv[2]))


def point(v, n='p'):
    return [v.fresh(n, I) for _ in range(3)]


def asb(r):
    """a returned truth value as a formula"""
    if isinstance(r, bool):
        return z3.BoolVal(r)
    return r if z3.is_bool(r) else zi(r) != 0


def eqb(a, b):
    return z3.And(*[x == y for f in ('low', 'high') for x, y in zip(arr(a, f), arr(b, f))])


def eqorder(a, b):
    return z3.And(*[x == y for x, y in zip(arr(a, 'order'), arr(b, 'order'))])


# ------------------------------------------------------------------ running
def run_unit(ast, unit, thorough, budget):
    t0 = time.time()
    res = {'unit': unit.name, 'functions': [], 'inlined': [], 'obligations': [], 'error': None, 'assumptions': [], 'models': [], 'contracts': [], 'note': unit.note, 'loops': [], 'vacuity': []}
    ctx = Ctx(ast, unit, thorough)
    try:
        unit.fn(ctx)
    except Unsupported as e:
        res['error'] = 'outside the verifier\'s reach: %s' % e
    except AllThrow:
        res['error'] = 'every path of the function throws'
    except z3.Z3Exception as e:
        res['error'] = 'verifier error: %s' % e
        res['trace'] = traceback.format_exc()[-1500:]
    except Exception as e:
        res['error'] = 'verifier error: %s %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-1500:]
    obls = []
    for v in ctx.engines:
        for o in v.obls:
            o.defs = v
            obls.append(o)
        res['inlined'] += sorted({'%s (%s:%s)' % (q, os.path.basename(f or '?'), l) for q, f, l in v.inlined})
        res['assumptions'] += sorted(v.assumptions)
        res['models'] += sorted(str(x) for x in v.models_used)
        res['contracts'] += sorted(v.used_contracts)
        res['loops'] += [list(map(str, l)) for l in v.loopstat][:40]
    res['gen_time'] = round(time.time() - t0, 2)
    t1 = time.time()
    solve.discharge(obls, timeout=unit.timeout, workers=3)
    res['solve_time'] = round(time.time() - t1, 2)
    for o in obls:
        d = {'name': o.name, 'kind': o.kind, 'where': o.where, 'status': o.status, 'solver': o.solver, 'time': round(o.time, 3)}
        if o.status != 'proved':
            d['goal'] = str(o.goal)[:1500]
            if o.model is not None:
                d['model'] = [(str(x), str(o.model[x])[:80]) for x in o.model.decls()][:60]
        res['obligations'].append(d)
    # vacuity
    seen = set()
    step = max(1, len(ctx.vac) // 24)
    for what, facts in ctx.vac[::step]:
        key = tuple(sorted(f.get_id() for f in facts))
        if key in seen:
            continue
        seen.add(key)
        s = z3.Solver()
        s.set('timeout', 1500)
        for f in facts:
            s.add(f)
        r = s.check()
        res['vacuity'].append((what, str(r)))
    if res['error'] is None:
        if ctx.vac and all(r == 'unsat' for _, r in res['vacuity']):
            res['error'] = 'vacuous: the facts of every outcome are contradictory'
        if not obls:
            res['error'] = 'no obligation was generated'
    res['total_time'] = round(time.time() - t0, 2)
    return res


_G = {}


def _work(i):
    return i, run_unit(_G['ast'], _G['units'][i], _G['thorough'], _G['budget'])


def run_units(ast, units, thorough=False, jobs=6, budget=600):
    _G.update(ast=ast, units=units, thorough=thorough, budget=budget)
    out = [None] * len(units)
    t0 = time.time()
    if jobs == 1:
        for i in range(len(units)):
            out[i] = run_unit(ast, units[i], thorough, budget)
        return out
    procs = {}
    mp = multiprocessing.get_context('fork')
    pend = list(range(len(units)))

    def child(i, conn):
        try:
            r = run_unit(ast, units[i], thorough, budget)
        except BaseException as e:
            r = {'unit': units[i].name, 'obligations': [], 'error': 'verifier error: %s' % e, 'trace': traceback.format_exc()[-1500:]}
        conn.send(r)
        conn.close()
    while pend or procs:
        while pend and len(procs) < jobs:
            i = pend.pop(0)
            a, b = mp.Pipe()
            p = mp.Process(target=child, args=(i, b))
            p.start()
            b.close()
            procs[i] = (p, a, time.time())
        for i, (p, a, t) in list(procs.items()):
            if a.poll(0.05):
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = {'unit': units[i].name, 'obligations': [], 'error': 'verifier process died'}
                p.join()
                del procs[i]
            elif time.time() - t > budget:
                p.kill()
                p.join()
                out[i] = {'unit': units[i].name, 'obligations': [], 'error': 'verifier ran out of its time budget'}
                del procs[i]
    return out


# ------------------------------------------------------------------ lemmas and array reading
class Lemma:
    """a closed statement proved once as its own obligation, then used as ground instances"""

    def __init__(self, v, name, vs, hyps, concl):
        self.vs, self.hyps, self.concl = list(vs), hyps, concl
        st = State()
        for h in hyps:
            st.fact(h)
        v.oblige(st, concl, 'lemma: ' + name, kind='lemma', where='lemma')

    def at(self, *vals):
        pr = list(zip(self.vs, [zi(x) for x in vals]))
        f = z3.Implies(z3.And(*self.hyps) if self.hyps else z3.BoolVal(True), self.concl)
        return z3.substitute(f, *pr)


def radix_lemma(v):
    a, b, x, y, p = z3.Ints('la lb lx ly lp')
    return Lemma(v, 'mixed radix digits are unique', [a, b, x, y, p],
                 [a >= 0, a < p, b >= 0, b < p, a + p * x == b + p * y], z3.And(a == b, x == y))


def mulmono_lemma(v):
    a, b, c = z3.Ints('ma mb mc')
    return Lemma(v, 'product with a non-negative number is monotone', [a, b, c], [a <= b, c >= 0], a * c <= b * c)


def flat_writes(v, A, depth=0):
    """(base array, write families oldest first) of an array term, following every registered description"""
    from .loops import W
    if z3.is_store(A):
        b, ws = flat_writes(v, A.arg(0), depth)
        return b, ws + [W([], z3.BoolVal(True), A.arg(1), A.arg(2))]
    if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_ITE:
        c = A.arg(0)
        b1, w1 = flat_writes(v, A.arg(1), depth)
        b2, w2 = flat_writes(v, A.arg(2), depth)
        if b1.eq(b2):
            # common prefix of both branches is kept unguarded
            n = 0
            while n < len(w1) and n < len(w2) and w1[n] is w2[n]:
                n += 1
            g = lambda w, q: W(w.params, z3.And(q, w.dom), w.idx, w.val)
            return b1, w1[:n] + [g(w, c) for w in w1[n:]] + [g(w, z3.Not(c)) for w in w2[n:]]
    ai = v.info(A)
    if ai is not None:
        b, ws = flat_writes(v, ai.base, depth + 1)
        return b, ws + list(ai.ws)
    return A, []


def inst(w, vals):
    pr = list(zip(w.params, [zi(x) for x in vals]))
    s = lambda e: simp(z3.substitute(e, *pr)) if pr else e
    return s(w.dom), s(w.idx), s(w.val)


def read_leaf(v, st, A, idx, cands, name, hints=None):
    """value of array term A at idx where one write family is known to cover it.  Obligations: a candidate
    parameter tuple writes idx, and every write to idx writes the same value.  Returns the value."""
    base, ws = flat_writes(v, A)
    if not ws:
        return z3.Select(A, idx)
    best = None
    for w in ws:
        for c in cands:
            if len(c) != len(w.params):
                continue
            d, i, x = inst(w, c)
            if v.quick(st, z3.And(d, i == idx), 400, hops=3):
                best = (w, c, d, i, x)
                break
        if best:
            break
    if best is None:
        for w in ws:
            for c in cands:
                if len(c) == len(w.params):
                    d, i, x = inst(w, c)
                    if proves(st, z3.And(d, i == idx), 3, list(c) + [idx]):
                        best = (w, c, d, i, x)
                        break
            if best:
                break
    if best is None:
        v.oblige(st, z3.BoolVal(False), name + ': the element is written (no write found)')
        return z3.Select(A, idx)
    w, c, d, i, x = best
    v.oblige(st, z3.And(d, i == idx), name + ': the element is written', hints=list(c) + [idx])
    for w2 in ws:
        fr = [v.fresh('o', I) for _ in w2.params]
        d2, i2, x2 = inst(w2, fr)
        if x2.eq(x):
            continue
        s = st.copy()
        s.fact(z3.And(d2, i2 == idx))
        if hints:
            for h in hints(w2, fr):
                s.fact(h)
        eqp = z3.And(*[a == b for a, b in zip(fr, c)]) if len(fr) == len(c) and w2 is w else None
        if eqp is not None and proves(s, eqp, 2):
            v.oblige(s, eqp, name + ': written once')
        else:
            v.oblige(s, x2 == x, name + ': every write to it carries the same value')
    return x


def has_quant(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def proves(st, goal, sec=3, at=()):
    s = z3.Solver()
    s.set('timeout', int(sec * 1000))
    for e in st.facts():
        if not z3.is_quantifier(e):
            s.add(e)
        elif e.is_forall() and e.num_vars() == 1 and e.var_sort(0) == I:
            for x in at:
                b = z3.substitute_vars(e.body(), zi(x))
                if not has_quant(b):
                    s.add(b)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def read_elem(v, st, vec, idx, cands, name, hints=None):
    """like read_leaf for a whole element; identical obligations of the leaves are emitted once"""
    key = set()
    vals = []
    for m in vec.m:
        n0 = len(v.obls)
        vals.append(read_leaf(v, st, m, idx, cands, name, hints))
        keep = []
        for o in v.obls[n0:]:
            k = o.goal.sexpr()
            if k in key:
                continue
            key.add(k)
            keep.append(o)
        del v.obls[n0:]
        v.obls += keep
    return v.unflat(vals, vec.t)


def induction(v, name, n, stmt, defs, hyps=()):
    """stmt(m) for every m >= 0, proved by induction over m: base and step are obligations, defs(m) are instances of
    recursive definitions.  Returns the instance function."""
    st = State()
    for h in list(hyps) + list(defs(z3.IntVal(0))):
        st.fact(h)
    v.oblige(st, stmt(z3.IntVal(0)), 'lemma: %s (base)' % name, kind='lemma', where='lemma')
    m = v.fresh(n, I)
    st = State()
    for h in list(hyps) + list(defs(m)) + [m >= 0, stmt(m)]:
        st.fact(h)
    v.oblige(st, stmt(m + 1), 'lemma: %s (step)' % name, kind='lemma', where='lemma')
    return lambda x: z3.Implies(zi(x) >= 0, stmt(zi(x)))
