"""VC generator: symbolic execution of clang AST functions, modular over contracts."""
import os, re, itertools
import z3
from .values import *
from . import values as V

TDIV = z3.Function('tdiv', I, I, I)
TMOD = z3.Function('tmod', I, I, I)
SQRT = z3.Function('sqrt', R, R)
COMMON = frozenset(('tdiv', 'tmod', 'sqrt'))


class Ref:
    """binding of a reference variable"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class Frame:
    _n = itertools.count(1)

    def __init__(self, fn, captures=None, this=None):
        self.id = next(Frame._n)
        self.fn = fn
        self.captures = captures or {}
        self.this = this


_EMPTY = frozenset()


class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'kind', 'where', 'status', 'solver', 'time', 'model', 'extra', 'defs', 'gq', 'hints')

    def __init__(self, name, hyps, goal, kind='post', where=None, extra=None):
        self.name, self.hyps, self.goal, self.kind, self.where = name, hyps, goal, kind, where
        self.status, self.solver, self.time, self.model, self.extra = None, None, 0.0, None, extra
        self.gq = None
        self.hints = None


class Engine:
    MAXDEPTH = 40

    def __init__(self, ast):
        self.ast = ast
        self.contracts = {}        # name -> callable
        self.obls = []
        self.frames = []
        self.ncell = itertools.count(1)
        self.fresh_log = []        # creation order of fresh symbols
        self.nfresh = itertools.count(1)
        self.side = []             # outcomes (throws) produced inside expressions
        self.inlined = set()
        self.used_contracts = set()
        self.models_used = set()
        self.arrinfo = {}          # fresh array symbol name -> ArrInfo (write-set summary)
        self.loop_hooks = []       # candidate invariant providers
        self.check_bounds = False
        self.depth = 0
        self.ax = []               # global axioms
        self.quick_ms = 300
        self.narrow = False
        self.events = None
        self.intercept = {}        # (class/func name) -> handler for methods on opaque objects
        self.ctor_intercept = {}
        self.noalias = True
        self.assumptions = set()
        self.defs = {}
        self._symc = {}
        self.universal = []
        self._univ_ids = set()
        self._qc = {}
        self.nquick = 0
        self.leafcache = {}
        self.divids = set()
        self._keepdiv = []
        self.cur_where = None

    # ------------------------------------------------------------ fresh symbols
    def fresh(self, name, sort):
        c = z3.Const('%s!%d' % (name, next(self.nfresh)), sort)
        self.fresh_log.append(c.decl())
        return c

    def fresh_fn(self, name, *sorts):
        f = z3.Function('%s!%d' % (name, next(self.nfresh)), *sorts)
        self.fresh_log.append(f)
        return f

    def newcell(self, st, v, tag='t'):
        c = '%s%d' % (tag, next(self.ncell))
        st.cells[c] = v
        return c

    # ------------------------------------------------------------ classes
    def cls(self, name):
        for cand in (name, 'heffte::' + name, name.replace('<>', '<int>'), 'heffte::' + name.replace('<>', '<int>')):
            if cand in self.ast.classes:
                return self.ast.classes[cand]
        # last resort: match on the tail, tolerate namespace qualification differences
        key = re.sub(r'\bheffte::', '', name.replace('<>', '<int>')).replace(' ', '')
        # the printer writes a template-template argument as '?'
        key2 = re.sub(r'\b(direct|transpose)_packer(?=[,>])', '?', key)
        # and an enumerator as its value
        key3 = re.sub(r'\b([a-z_]+)::([a-z0-9_]+)(?=[,>])', self._enum_arg, key)
        for q, n in self.ast.classes.items():
            if re.sub(r'\bheffte::', '', q).replace(' ', '') in (key, key2, key3):
                return n
        # the printer leaves out a defaulted index type
        m = re.fullmatch(r'(?:heffte::)?(fft[23]d(?:_r2c)?)<([\w:]+)>', name)
        if m:
            return self.ast.classes.get('heffte::%s<%s, int>' % m.groups())
        return None

    def _enum_arg(self, m):
        try:
            for k in self.enum_decl(m.group(1)).kids:
                if k is not None and k.k == 'EnumConstantDecl' and k.name == m.group(2):
                    return str(z3.simplify(self.enum_val({'id': k.id, 'name': k.name})))
        except Exception:
            pass
        return m.group(0)

    def fields(self, cn):
        """[(name, T, node)] including bases"""
        out = []
        for b in cn.d.get('bases', []):
            bt = b['type'].get('desugaredQualType') or b['type']['qualType']
            bc = self.cls(bt)
            if bc is not None:
                out += self.fields(bc)
        for c in cn.kids:
            if c is not None and c.k == 'FieldDecl':
                out.append((c.name or ('anon' + c.id), ptype(c.qt), c))
        return out

    def leaves(self, t):
        if t.kind == 'int':
            return [I]
        if t.kind == 'bool':
            return [B]
        if t.kind == 'real':
            return [R]
        if t.kind == 'complex':
            return [R, R]
        if t.kind == 'arr':
            return self.leaves(t.a) * t.n
        if t.kind in ('vec', 'valarray'):
            return [I] + [z3.ArraySort(I, s) for s in self.leaves(t.a)]
        if t.kind == 'ptr' or t.kind == 'opaque':
            return [I]
        if t.kind == 'rec':
            if t.a:
                return [s for x in t.a for s in self.leaves(x)]
            cn = self.cls(t.name)
            if cn is None:
                if self.is_enum(t.name) or t.name.startswith('ompi_') or t.name.startswith('MPI'):
                    return [I]
                raise Unsupported('type ' + t.name)
            r = []
            for n, ft, _ in self.fields(cn):
                r += self.leaves(ft)
            return r
        raise Unsupported('leaf type %r' % t)

    def is_enum(self, name):
        return self.enum_decl(name) is not None

    def enum_decl(self, name):
        if not hasattr(self, '_enums'):
            self._enums = {}
            for n in self.ast.byid.values():
                if n.k == 'EnumDecl' and n.name:
                    self._enums[n.name] = n
        return self._enums.get(name.split('::')[-1])

    def flat(self, v, t):
        if t.kind in ('int',):
            return [zi(v)]
        if t.kind == 'bool':
            return [zb(v)]
        if t.kind == 'real':
            v = zi(v)
            return [z3.ToReal(v) if v.sort() == I else v]
        if t.kind == 'complex':
            if isz(v) and v.sort() in (R, I):
                return [z3.ToReal(v) if v.sort() == I else v, z3.RealVal(0)]
            return [v.f['re'], v.f['im']]
        if t.kind == 'arr':
            return [x for e in v.e for x in self.flat(e, t.a)]
        if t.kind in ('vec', 'valarray'):
            return [zi(v.len)] + list(v.m)
        if t.kind in ('ptr', 'opaque'):
            if isz(v):
                return [zi(v)]
            raise Unsupported('pointer stored in a symbolic container')
        if t.kind == 'rec':
            if t.a:
                return [x for k, ft in zip(self.tuple_names(t), t.a) for x in self.flat(v.f[k], ft)]
            cn = self.cls(t.name)
            if cn is None:
                return [zi(v)]
            return [x for n, ft, _ in self.fields(cn) for x in self.flat(v.f[n], ft)]
        raise Unsupported('flat %r' % t)

    def tuple_names(self, t):
        if t.name.startswith('std::pair'):
            return ['first', 'second']
        return ['_%d' % i for i in range(len(t.a))]

    def unflat(self, l, t):
        l = list(l)

        def go(t):
            if t.kind in ('int', 'bool', 'real', 'ptr', 'opaque'):
                return l.pop(0)
            if t.kind == 'complex':
                return Struct('complex', {'re': l.pop(0), 'im': l.pop(0)})
            if t.kind == 'arr':
                return Arr([go(t.a) for _ in range(t.n)])
            if t.kind in ('vec', 'valarray'):
                n = l.pop(0)
                return Vec(t.a, n, [l.pop(0) for _ in self.leaves(t.a)])
            if t.kind == 'rec':
                if t.a:
                    return Struct(t.name, {k: go(ft) for k, ft in zip(self.tuple_names(t), t.a)})
                cn = self.cls(t.name)
                if cn is None:
                    return l.pop(0)
                return Struct(cn.d['_q'], {n: go(ft) for n, ft, _ in self.fields(cn)})
            raise Unsupported('unflat %r' % t)
        return go(t)

    def havoc(self, t, name):
        """fresh symbolic value of type t"""
        if t.kind in ('vec', 'valarray'):
            n = self.fresh(name + '.len', I)
            return Vec(t.a, n, [self.fresh('%s.%d' % (name, k), z3.ArraySort(I, s)) for k, s in enumerate(self.leaves(t.a))])
        return self.unflat([self.fresh('%s.%d' % (name, k), s) for k, s in enumerate(self.leaves(t))], t)

    def default(self, t, st=None):
        """value-initialised (zero) value"""
        if t.kind == 'int' or t.kind == 'opaque':
            return z3.IntVal(0)
        if t.kind == 'bool':
            return z3.BoolVal(False)
        if t.kind == 'real':
            return z3.RealVal(0)
        if t.kind == 'complex':
            return Struct('complex', {'re': z3.RealVal(0), 'im': z3.RealVal(0)})
        if t.kind == 'arr':
            return Arr([self.default(t.a) for _ in range(t.n)])
        if t.kind in ('vec', 'valarray'):
            return self.empty_vec(t.a)
        if t.kind in ('ptr', 'uptr', 'iter'):
            return NULL
        if t.kind == 'str':
            return Opaque('string')
        if t.kind == 'rec':
            if t.a:
                return Struct(t.name, {k: self.default(ft) for k, ft in zip(self.tuple_names(t), t.a)})
            cn = self.cls(t.name)
            if cn is None:
                if self.is_enum(t.name):
                    return z3.IntVal(0)
                return Opaque(t.name)
            return Struct(cn.d['_q'], {n: self.default(ft) for n, ft, _ in self.fields(cn)})
        return Opaque(repr(t))

    def empty_vec(self, et):
        try:
            ls = self.leaves(et)
        except Unsupported:
            return Arr([])   # list of non-flattenable things
        return Vec(et, z3.IntVal(0), [z3.K(I, self.zero(s)) for s in ls])

    def zero(self, s):
        if s == I:
            return z3.IntVal(0)
        if s == B:
            return z3.BoolVal(False)
        if s == R:
            return z3.RealVal(0)
        if isinstance(s, z3.ArraySortRef):
            return z3.K(s.domain(), self.zero(s.range()))
        raise Unsupported('zero of sort %s' % s)

    # ------------------------------------------------------------ access paths
    def vget(self, vec, i):
        return self.unflat([z3.Select(m, zi(i)) for m in vec.m], vec.t)

    def vset(self, vec, i, v):
        fl = self.flat(v, vec.t)
        return Vec(vec.t, vec.len, [z3.Store(m, zi(i), x) for m, x in zip(vec.m, fl)])

    def getpath(self, v, path):
        for k, (kind, x) in enumerate(path):
            if kind == 'f':
                if not isinstance(v, Struct):
                    raise Unsupported('field %s of %r' % (x, type(v).__name__))
                if x not in v.f:
                    raise Unsupported('field %s missing in %s' % (x, v.cls))
                v = v.f[x]
            else:
                if isinstance(v, Arr):
                    c = conc(simp(zi(x))) if isz(x) else x
                    if c is not None:
                        if not (0 <= c < len(v.e)):
                            raise Unsupported('array index %s out of range' % c)
                        v = v.e[c]
                    else:
                        r = v.e[-1]
                        for j in range(len(v.e) - 2, -1, -1):
                            r = ite(x == j, v.e[j], r)
                        v = r
                elif isinstance(v, Vec):
                    v = self.vget(v, x)
                else:
                    raise Unsupported('index of %r' % type(v).__name__)
        return v

    def setpath(self, v, path, nv):
        if not path:
            return nv
        (kind, x), rest = path[0], path[1:]
        if kind == 'f':
            if not isinstance(v, Struct):
                raise Unsupported('field write')
            f = dict(v.f)
            f[x] = self.setpath(v.f[x], rest, nv)
            return Struct(v.cls, f)
        if isinstance(v, Arr):
            c = conc(simp(zi(x))) if isz(x) else x
            e = list(v.e)
            if c is not None:
                if not (0 <= c < len(e)):
                    raise Unsupported('array index out of range')
                e[c] = self.setpath(e[c], rest, nv)
            else:
                for j in range(len(e)):
                    e[j] = ite(x == j, self.setpath(e[j], rest, nv), e[j])
            return Arr(e)
        if isinstance(v, Vec):
            if not rest:
                return self.vset(v, x, nv)
            return self.vset(v, x, self.setpath(self.vget(v, x), rest, nv))
        raise Unsupported('index write of %r' % type(v).__name__)

    def load(self, st, lv):
        if isinstance(lv, Union):
            alts = [(c, self.load(st, p)) for c, p in lv.alts]
            r = alts[-1][1]
            for c, v in reversed(alts[:-1]):
                r = ite(c, v, r)
            return r
        if isinstance(lv, Ptr):
            lv = self.deref(st, lv)
        if lv.cell not in st.cells:
            raise Unsupported('dangling cell %r' % (lv.cell,))
        v = st.cells[lv.cell]
        if isinstance(v, Ref):
            raise Unsupported('ref cell')
        if lv.view == 'real':
            return self.view_load(v, lv)
        if isinstance(v, (Ptr, Union)) and lv.path and lv.path[0][0] == 'i' and False:
            pass
        return self.getpath(v, lv.path)

    def view_load(self, v, lv):
        """complex array seen as an array of reals (reinterpret_cast)"""
        seq = self.getpath(v, lv.path[:-1])
        i = zi(lv.path[-1][1])
        if isinstance(seq, Struct) and seq.cls == 'complex':
            return simp(z3.If(i == 0, seq.f['re'], seq.f['im']))
        if not isinstance(seq, Vec) or seq.t.kind != 'complex':
            raise Unsupported('real view of %r' % seq)
        return z3.If(i % 2 == 0, z3.Select(seq.m[0], i / 2), z3.Select(seq.m[1], i / 2))

    def store(self, st, lv, v):
        if isinstance(lv, Union):
            for c, p in lv.alts:
                old = self.load(st, p)
                self.store(st, p, ite(c, v, old))
            return
        if isinstance(lv, Ptr):
            lv = self.deref(st, lv)
        if lv.cell not in st.cells:
            raise Unsupported('dangling cell %r' % (lv.cell,))
        if lv.view == 'real':
            base = LV(lv.cell, lv.path[:-1])
            seq = self.load(st, base)
            i = zi(lv.path[-1][1])
            re, im = seq.m
            nv = Vec(seq.t, seq.len, [z3.If(i % 2 == 0, z3.Store(re, i / 2, v), re), z3.If(i % 2 == 0, im, z3.Store(im, i / 2, v))])
            st.cells[lv.cell] = self.setpath(st.cells[lv.cell], base.path, nv)
            return
        st.cells[lv.cell] = self.setpath(st.cells[lv.cell], lv.path, v)

    def deref(self, st, p, idx=None):
        """pointer (+ optional index) -> LV"""
        if isinstance(p, Union):
            alts = []
            for c, q in p.alts:
                if isinstance(q, Ptr) and q.cell is None:
                    self.oblige(st, z3.Not(c), 'non-null pointer', kind='safety')
                else:
                    alts.append((c, self.deref(st, q, idx)))
            if not alts:
                raise Unsupported('null dereference')
            return alts[0][1] if len(alts) == 1 else Union(alts)
        if isinstance(p, LV):
            if idx is None:
                return p
            return LV(p.cell, p.path + (('i', idx),), p.view)
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.cell is None:
            self.oblige(st, z3.BoolVal(False), 'non-null pointer', kind='safety')
            raise Unsupported('null dereference')
        if p.null is not None:
            self.oblige(st, z3.Not(is_null(p)), 'non-null pointer', kind='safety')
        if p.off is None:
            if idx is not None and conc(idx) != 0:
                raise Unsupported('index of object pointer')
            return LV(p.cell, p.path, p.view)
        off = p.off if idx is None else simp(zi(p.off) + zi(idx))
        if self.check_bounds and p.view is None:
            self.bound_check(st, LV(p.cell, p.path), off, 'pointer')
        return LV(p.cell, p.path + (('i', off),), p.view)

    def bound_check(self, st, seqlv, idx, what):
        seq = self.load(st, seqlv)
        n = seq.len if isinstance(seq, Vec) else (z3.IntVal(len(seq.e)) if isinstance(seq, Arr) else None)
        if n is None:
            return
        self.oblige(st, z3.And(zi(idx) >= 0, zi(idx) < n), 'index in range (%s)' % what, kind='safety')

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind='post', where=None, extra=None, hints=None):
        goal = zb(goal)
        if z3.is_true(simp(goal)):
            goal = z3.BoolVal(True)
        self.obls.append(Obligation(name, list(st.facts()) + self.universal, goal, kind, where or self.where(), extra))
        self.obls[-1].hints = hints

    def where(self):
        for f in reversed(self.frames):
            if f.fn is not None:
                return '%s (%s:%s)' % (f.fn.d.get('_q', '?'), os.path.basename(f.fn.file or '?'), f.fn.line)
        return self.cur_where or '?'

    # symbols of a fact (cached; the cache keeps the term alive so that ids stay unique)
    def symset(self, e):
        """(term, its uninterpreted symbols, contains a quantifier); memoised for every subterm"""
        memo = self._symc
        r = memo.get(e.get_id())
        if r is not None:
            return r
        todo = [e]
        while todo:
            x = todo[-1]
            k = x.get_id()
            if k in memo:
                todo.pop()
                continue
            q = z3.is_quantifier(x)
            ch = [x.body()] if q else x.children()
            miss = [c for c in ch if c.get_id() not in memo]
            if miss:
                todo += miss
                continue
            acc = None
            for c in ch:
                m = memo[c.get_id()]
                q = q or m[2]
                if acc is None:
                    acc = m[1]
                elif not m[1] <= acc:
                    acc = acc | m[1]
            if acc is None:
                acc = _EMPTY
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n not in COMMON and n not in acc:
                    acc = acc | {n}
            memo[k] = (x, acc, q)
            todo.pop()
        return memo[e.get_id()]

    def univ(self, f):
        """a fact that holds in every state (an instance of a proved lemma over ghost functions)"""
        i = f.get_id()
        if i not in self._univ_ids:
            self._univ_ids.add(i)
            self.universal.append(f)

    def quick(self, st, goal, ms=None, hops=2, quant=False):
        """cheap validity test used for simplification only (False = unknown).  Deterministic resource limit."""
        g = simp(zb(goal))
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        syms = set(self.symset(g)[1])
        facts = []
        for e in st.facts() + self.universal:
            r = self.symset(e)
            if r[2] and not quant:
                continue
            facts.append(r)
        used = [False] * len(facts)
        for _ in range(hops):
            new = set()
            for i, r in enumerate(facts):
                if not used[i] and (not r[1] or r[1] & syms):
                    used[i] = True
                    new |= r[1]
            if new <= syms:
                break
            syms |= new
        fs = [r[0] for r, u in zip(facts, used) if u]
        key = (g.get_id(), frozenset(e.get_id() for e in fs))
        if key in self._qc:
            return self._qc[key][0]
        s = z3.Solver()
        s.set('rlimit', (ms or self.quick_ms) * 2500)
        s.set('timeout', 20000)
        for e in fs:
            s.add(e)
        s.add(z3.Not(g))
        self.nquick += 1
        r = s.check() == z3.unsat
        self._qc[key] = (r, g, fs)
        return r

    def sum_steps(self, exprs):
        """unfolding instances S(a) = S(a-1)+d(a-1), S(a+1) = S(a)+d(a) for the ground prefix sums that occur"""
        out, seen, done = [], set(), set()
        todo = list(exprs)
        while todo:
            x = todo.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    si = self.sym(x.decl().name())
                    if si and si.get('kind') in ('sum', 'count') and x.get_id() not in done and x.num_args() == len(si['params']):
                        done.add(x.get_id())
                        ar = x.children()
                        a = ar[-1]
                        pr = list(zip(si['params'][:-1], ar[:-1]))
                        d = z3.substitute(si['d'], *pr) if pr else si['d']
                        T = si['params'][-1]
                        S = x.decl()
                        f = lambda k: S(*(ar[:-1] + [k]))
                        out.append(z3.Implies(a > 0, x == f(a - 1) + z3.substitute(d, (T, a - 1))))
                        out.append(z3.Implies(a >= 0, f(a + 1) == x + z3.substitute(d, (T, a))))
                todo += x.children()
        return out

    def div_closure(self, exprs):
        """instances of the definition of truncated division for the quotients that occur"""
        out, seen, done = [], set(), set()
        quantified = False
        todo = [(e, False) for e in exprs]
        while todo:
            x, inq = todo.pop()
            if (x.get_id(), inq) in seen:
                continue
            seen.add((x.get_id(), inq))
            if z3.is_quantifier(x):
                todo.append((x.body(), True))
                continue
            if z3.is_app(x):
                if x.num_args() == 2 and x.decl().name() in ('tdiv', 'tmod'):
                    if inq:
                        quantified = True
                    else:
                        k = (x.arg(0).get_id(), x.arg(1).get_id())
                        if k not in done:
                            done.add(k)
                            out.append(self.div_axiom(x.arg(0), x.arg(1)))
                todo += [(y, inq) for y in x.children()]
        if quantified:
            a, b = z3.Ints('a!dv b!dv')
            ax = self.div_axiom(a, b)
            out.append(z3.ForAll([a, b], ax, patterns=[TDIV(a, b)]))
            out.append(z3.ForAll([a, b], ax, patterns=[TMOD(a, b)]))
        return out

    def taut(self, g):
        s = z3.Solver()
        s.set('rlimit', 20000)
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    # definitional facts of auxiliary symbols, produced on demand
    def define(self, decl, facts):
        self.defs[decl.name() if hasattr(decl, 'name') else decl] = facts

    def def_facts(self, name):
        d = self.defs.get(name)
        if d is None:
            return []
        if callable(d):
            self.defs[name] = []      # recursion guard
            d = d()
            self.defs[name] = d
        return d

    def closure_defs(self, exprs):
        """all definitional facts of the symbols occurring (transitively) in exprs"""
        seen, out = set(), []
        todo = set()
        for e in exprs:
            todo |= self.symset(e)[1]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for f in self.def_facts(n):
                out.append(f)
                todo |= self.symset(f)[1] - seen
        return out

    def feasible(self, st, ms=None):
        s = z3.Solver()
        s.set('timeout', ms or self.quick_ms)
        for e in st.facts():
            if not z3.is_quantifier(e):
                s.add(e)
        return s.check() != z3.unsat

    # ------------------------------------------------------------ merging
    def merge(self, states, base_len):
        """merge states that share the first base_len path entries"""
        if len(states) == 1:
            return states[0]
        res = None
        exts = []
        for s in states:
            ext = s.pc[base_len:]
            d = [e for k, e in ext if k == 'c']
            exts.append((z3.And(*d) if len(d) > 1 else (d[0] if d else z3.BoolVal(True)), [e for k, e in ext if k == 'f']))
        out = State()
        out.pc = list(states[0].pc[:base_len])
        common = set(states[0].cells)
        for s in states[1:]:
            common &= set(s.cells)
        for c in common:
            v = states[-1].cells[c]
            for s, (d, _) in list(zip(states, exts))[-2::-1]:
                w = s.cells[c]
                if isinstance(w, Ref) or isinstance(v, Ref):
                    if isinstance(w, Ref) and isinstance(v, Ref) and (same(w.lv, v.lv)):
                        continue
                    if w is v:
                        continue
                    v = None
                    break
                if w is v or same(w, v):
                    continue
                try:
                    v = ite(d, w, v)
                except CannotMerge:
                    if isinstance(c, tuple) or str(c).startswith('t'):
                        # locals of unmergeable kind: caller decides
                        raise
                    raise
            if v is not None:
                out.cells[c] = v
        tr = states[0].trace
        for s in states[1:]:
            if len(s.trace) != len(tr) or any(x is not y for x, y in zip(s.trace, tr)):
                raise CannotMerge('trace')
        out.trace = list(tr)
        ds = [d for d, _ in exts]
        if len(ds) > 1:
            dis = simp(z3.Or(*ds))
            if not z3.is_true(dis) and not self.taut(dis):
                out.pc.append(('c', dis))
        for (d, fs) in exts:
            for f in fs:
                out.pc.append(('f', z3.Implies(d, f) if not z3.is_true(d) else f))
        return out

    keep_paths = False        # contract's choice: join paths only where the stores agree

    def same_cells(self, states):
        a = states[0].cells
        for s in states[1:]:
            for c, x in a.items():
                y = s.cells.get(c)
                if x is y:
                    continue
                if y is None or repr(x) != repr(y):
                    return False
        return True

    def try_merge(self, results, base_len):
        """results: [(state, outcome)] -> merge all normal ones (and all same-kind brk/cont)"""
        groups = {}
        other = []
        for s, o in results:
            if o is None or o.kind in ('brk', 'cont'):
                groups.setdefault(o.kind if o else None, []).append((s, o))
            else:
                other.append((s, o))
        out = []
        for k, l in groups.items():
            if len(l) == 1:
                out += l
                continue
            if self.keep_paths and not self.same_cells([s for s, _ in l]):
                out += l
                continue
            try:
                m = self.merge([s for s, _ in l], base_len)
                out.append((m, l[0][1]))
            except CannotMerge:
                out += l
        return out + other

    # ------------------------------------------------------------ calling
    def call(self, st, fn, this, args, node=None):
        """execute the real function fn on argument values/LVs; returns its (merged) value.
        abnormal outcomes go to self.side"""
        q = fn.d.get('_q', fn.name or '?')
        for key in self.contract_keys(fn, q):
            if key in self.contracts:
                h = self.contracts[key]
                self.used_contracts.add(key)
                r = h(self, st, fn, this, args)
                if r is not NotImplemented:
                    return r
        d = self.ast.definition(fn)
        if d is None:
            if fn.d.get('explicitlyDefaulted') or fn.d.get('isImplicit'):
                return None
            raise Unsupported('no body for ' + q)
        return self.inline(st, d, this, args)

    def contract_keys(self, fn, q):
        base = q
        while re.search(r'<[^<>]*>', base):
            base = re.sub(r'<[^<>]*>', '', base)
        return [q, base, base.split('::')[-1]]

    def bind_params(self, st, fr, fn, args):
        ps = self.ast.params(fn)
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
            else:
                init = [c for c in p.kids if c is not None]
                if not init:
                    raise Unsupported('missing argument')
                a = self.ev(st, init[-1])
            q = p.qtraw
            isref = q.rstrip().endswith('&') or (p.qt.rstrip().endswith('&'))
            cell = (fr.id, p.id)
            if isref:
                if isinstance(a, LV) or (isinstance(a, Union) and all(isinstance(x, LV) for _, x in a.alts)):
                    st.cells[cell] = Ref(a)
                else:
                    st.cells[cell] = Ref(LV(self.newcell(st, a)))
            else:
                if isinstance(a, LV):
                    a = self.load(st, a)
                st.cells[cell] = a

    def inline(self, st, fn, this, args, captures=None):
        outs = self.run_fn(st, fn, this, args, captures)
        rets, base = [], None
        for s, o in outs:
            if o is not None and o.kind == 'throw':
                self.side.append((s, o))
            else:
                rets.append((s, o))
        if not rets:
            raise AllThrow()
        return self.join_returns(st, rets)

    def join_returns(self, st, rets):
        """merge return states into st (in place) and return the merged value"""
        bl = getattr(self, '_last_base', 0)
        if len(rets) == 1:
            s, o = rets[0]
            st.cells, st.pc, st.trace = s.cells, s.pc, s.trace
            return o.val if o is not None else None
        base_len = self._common(rets)
        # put return value in a cell so that merge handles it
        vals = []
        for s, o in rets:
            v = o.val if o is not None else None
            s.cells['__ret'] = v if v is not None else Opaque('void')
            if isinstance(v, LV):
                s.cells['__ret'] = Ptr(v.cell, v.path, None, None, v.view) if not isinstance(v, Ptr) else v
        lvret = any(isinstance(o.val, LV) for s, o in rets if o is not None)
        m = self.merge([s for s, _ in rets], base_len)
        v = m.cells.pop('__ret', None)
        st.cells, st.pc, st.trace = m.cells, m.pc, m.trace
        if lvret:
            if isinstance(v, Ptr):
                v = LV(v.cell, v.path, v.view)
            elif isinstance(v, Union):
                v = Union([(c, LV(p.cell, p.path, p.view)) for c, p in v.alts])
        if isinstance(v, Opaque) and v.what == 'void':
            v = None
        return v

    def _common(self, rets):
        pcs = [s.pc for s, _ in rets]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        return n

    def run_fn(self, st, fn, this, args, captures=None):
        """list of (state, outcome) of the function body started from a copy of st"""
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth (recursion without a contract: %s)' % fn.d.get('_q'))
        self.inlined.add((fn.d.get('_q') or fn.name or 'lambda', fn.file, fn.line))
        fr = Frame(fn, captures, this)
        s = st.copy()
        self.frames.append(fr)
        self.depth += 1
        saved_side, self.side = self.side, []
        try:
            self.bind_params(s, fr, fn, args)
            pre = self.side
            self.side = []
            if fn.k == 'CXXConstructorDecl':
                self.ctor_inits(s, fn, this)
            pre += self.side
            self.side = []
            body = self.ast.body(fn)
            outs = self.ex(s, body)
            res = [(a, o) for a, o in pre]
            for a, o in outs:
                if o is None:
                    res.append((a, Out('ret', None)))
                elif o.kind in ('ret', 'throw'):
                    res.append((a, o))
                else:
                    raise Unsupported('stray ' + o.kind)
            for a, o in res:
                for c in [c for c in a.cells if isinstance(c, tuple) and c[0] == fr.id]:
                    # locals die (unless referenced by a returned pointer: keep)
                    pass
            return res
        finally:
            self.frames.pop()
            self.depth -= 1
            self.side = saved_side

    # ------------------------------------------------------------ constructors
    def construct(self, st, t, args, ctor=None, node=None, argnodes=None):
        """value of class type t from already evaluated args"""
        cn = self.cls(t.name)
        if cn is None:
            raise Unsupported('construct ' + t.name)
        q = cn.d['_q']
        h = self.ctor_intercept.get(q) or self.ctor_intercept.get(re.sub('<.*>', '', q))
        if h:
            return h(self, st, cn, args)
        obj = Struct(q, {n: self.uninit(ft) for n, ft, _ in self.fields(cn)})
        cell = self.newcell(st, obj)
        if ctor is None:
            # default/aggregate construction: member initialisers
            self.default_members(st, cn, LV(cell))
            return st.cells[cell]
        self.call_ctor(st, ctor, LV(cell), args)
        return st.cells[cell]

    def call_ctor(self, st, ctor, lv, args):
        d = self.ast.definition(ctor)
        if d is None:
            if ctor.d.get('explicitlyDefaulted') or ctor.d.get('isImplicit'):
                cn = self.owner_class(ctor)
                self.default_members(st, cn, lv)
                return
            raise Unsupported('constructor without body ' + str(ctor.d.get('_q')))
        self.inline(st, d, lv, args)

    def owner_class(self, m):
        p = m.parent
        while p is not None and p.k not in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl'):
            p = p.parent
        pid = m.d.get('parentDeclContextId')
        if pid and pid in self.ast.byid:
            return self.ast.byid[pid]
        return p

    def uninit(self, t):
        if t.kind == 'arr':
            return Arr([self.uninit(t.a) for _ in range(t.n)])
        if t.kind in ('vec', 'valarray'):
            return self.empty_vec(t.a)
        if t.kind in ('uptr',):
            return NULL
        if t.kind == 'rec' and not t.a:
            cn = self.cls(t.name)
            if cn is not None:
                return Struct(cn.d['_q'], {n: self.uninit(ft) for n, ft, _ in self.fields(cn)})
            if not self.is_enum(t.name):
                return Opaque(t.name)
        if t.kind in ('ptr', 'iter'):
            return Opaque('uninit ptr')
        if t.kind == 'str':
            return Opaque('string')
        try:
            return self.havoc(t, 'uninit')
        except Unsupported:
            return Opaque('uninit')

    def default_members(self, st, cn, lv):
        for n, ft, fd in self.fields(cn):
            init = [c for c in fd.kids if c is not None and not c.k.endswith('Attr')]
            if init and fd.d.get('hasInClassInitializer'):
                self.frames.append(Frame(None, {}, lv))
                try:
                    self.store(st, LV(lv.cell, lv.path + (('f', n),)), self.ev(st, init[-1]))
                finally:
                    self.frames.pop()
            elif ft.kind == 'rec' and not ft.a:
                c2 = self.cls(ft.name)
                if c2 is not None:
                    d = self.find_ctor(c2, 0)
                    if d is not None:
                        self.store(st, LV(lv.cell, lv.path + (('f', n),)), self.construct(st, ft, [], d))

    def find_ctor(self, cn, nargs):
        for c in self.ctors(cn):
            if len(self.ast.params(c)) == nargs:
                return c
        return None

    def ctors(self, cn):
        out = []
        for c in cn.kids:
            if c is None:
                continue
            if c.k == 'CXXConstructorDecl':
                out.append(c)
            if c.k == 'FunctionTemplateDecl':
                out += [x for x in c.kids if x is not None and x.k == 'CXXConstructorDecl' and self.ast.targs(x)]
        return out

    def ctor_inits(self, st, fn, this):
        cn = self.owner_class(fn)
        done = set()
        for ci in fn.kids:
            if ci is None or ci.k != 'CXXCtorInitializer':
                continue
            init = [c for c in ci.kids if c is not None]
            ai = ci.d.get('anyInit')
            if ai:
                nm = ai.get('name') or ('anon' + ai['id'])
                lv = LV(this.cell, this.path + (('f', nm),))
                fd = self.ast.byid.get(ai['id'])
                if fd is not None and fd.qt.rstrip().endswith('&'):
                    st.cells[this.cell] = self.setpath(st.cells[this.cell], lv.path, Opaque('ref'))
                    self.store(st, lv, self.addr(self.lv(st, init[0])))
                    done.add(nm)
                    continue
                if not init:
                    continue
                if fd is not None and init[0].k == 'CXXDefaultInitExpr':
                    k = [c for c in fd.kids if c is not None]
                    v = self.ev(st, k[-1]) if k else self.default(ptype(fd.qt))
                else:
                    v = self.ev_init(st, init[0], ptype(fd.qt) if fd is not None else None)
                self.store(st, lv, v)
                done.add(nm)
            elif ci.d.get('baseInit'):
                bt = ci.d['baseInit'].get('desugaredQualType') or ci.d['baseInit']['qualType']
                self.base_init(st, bt, init, this)
            elif ci.d.get('delegatingInit'):
                e = init[0]
                while e.k in ('ExprWithCleanups',):
                    e = e.kids[0]
                ct = self.resolve_ctor(e, cn)
                args = [self.arg(st, a, p) for a, p in self.zip_args(e.kids, ct)]
                self.call_ctor(st, ct, this, args)
        return

    def base_init(self, st, bt, init, this):
        bc = self.cls(bt)
        if bc is None:
            return
        e = init[0] if init else None
        while e is not None and e.k in ('ExprWithCleanups',):
            e = e.kids[0]
        if e is None or e.k not in ('CXXConstructExpr', 'CXXInheritedCtorInitExpr'):
            return
        ct = self.resolve_ctor(e, bc)
        if ct is None:
            return
        args = [self.arg(st, a, p) for a, p in self.zip_args(e.kids, ct)]
        if self.ast.definition(ct) is None:
            return
        self.call_ctor(st, ct, this, args)

    def zip_args(self, nodes, fn):
        ps = self.ast.params(fn)
        nodes = [n for n in nodes if n is not None]
        return [(a, ps[i] if i < len(ps) else None) for i, a in enumerate(nodes)]

    def arg(self, st, node, p):
        if node.k == 'CXXDefaultArgExpr':
            k = [c for c in node.kids if c is not None]
            if k:
                return self.ev(st, k[0])
            init = [c for c in p.kids if c is not None] if p is not None else []
            if not init:
                raise Unsupported('default argument')
            return self.ev(st, init[-1])
        if p is not None and (p.qtraw.rstrip().endswith('&') or p.qt.rstrip().endswith('&')):
            return self.lv(st, node)
        return self.ev(st, node)

    def resolve_ctor(self, e, cn):
        want = (e.d.get('ctorType') or {}).get('qualType')
        cs = self.ctors(cn)
        for c in cs:
            if c.d['type']['qualType'] == want:
                return c
        norm = lambda s: re.sub(r'\s+', '', re.sub(r'\bheffte::|noexcept', '', s or ''))
        for c in cs:
            if norm(c.d['type']['qualType']) == norm(want):
                return c
        n = len([k for k in e.kids if k is not None])
        c2 = [c for c in cs if len(self.ast.params(c)) == n and not c.d.get('isImplicit')]
        if len(c2) == 1:
            return c2[0]
        return None


class AllThrow(Exception):
    """every path of a call throws"""
