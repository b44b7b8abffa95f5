"""Statements and expressions."""
import re
import z3
from .values import *
from .execu import Engine, Ref, Frame, AllThrow, TDIV, TMOD, SQRT
from . import stdmodel, simd

TRANSPARENT = {'ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr'}
SIZEOF = {'int': 4, 'unsigned int': 4, 'float': 4, 'double': 8, 'long long': 8, 'unsigned long': 8, 'long': 8, 'char': 1, 'bool': 1,
          'std::complex<float>': 8, 'std::complex<double>': 16}


class Exec(Engine):
    # ================================================================ statements
    def ex(self, st, n):
        """-> [(state, outcome)]"""
        m = getattr(self, 'x_' + n.k, None)
        saved, self.side = self.side, []
        try:
            try:
                if m is not None:
                    res = m(st, n)
                else:
                    self.ev(st, n, discard=True)
                    res = [(st, None)]
            except AllThrow:
                res = []
            return res + self.side
        finally:
            self.side = saved

    def seq(self, st, nodes):
        cur = [(st, None)]
        done = []
        for n in nodes:
            if n is None:
                continue
            nxt = []
            for s, _ in cur:
                for s2, o in self.ex(s, n):
                    (nxt if o is None else done).append((s2, o))
            cur = nxt
            if not cur:
                break
        return cur + done

    def x_CompoundStmt(self, st, n):
        return self.seq(st, n.kids)

    def x_NullStmt(self, st, n):
        return [(st, None)]

    def x_DeclStmt(self, st, n):
        for d in n.kids:
            if d is None:
                continue
            if d.k == 'VarDecl':
                self.decl_var(st, d)
            elif d.k == 'DecompositionDecl':
                self.decl_decomp(st, d)
            elif d.k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EnumDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d.k)
        return [(st, None)]

    def decl_var(self, st, d):
        init = [c for c in d.kids if c is not None and not c.k.endswith('Attr')]
        t = ptype(d.qt)
        cell = (self.frames[-1].id, d.id)
        if t.kind == 'rec' and t.name.split('::')[-1] in ('add_trace',):
            st.cells[cell] = Opaque('trace')
            return
        if d.qtraw.rstrip().endswith('&') or d.qt.rstrip().endswith('&'):
            st.cells[cell] = Ref(self.lv(st, init[0]))
            return
        if not init:
            st.cells[cell] = self.uninit(t)
            if t.kind in ('rec',) and not t.a and self.cls(t.name) is not None:
                cn = self.cls(t.name)
                c0 = self.find_ctor(cn, 0)
                if c0 is not None:
                    st.cells[cell] = self.construct(st, t, [], c0)
            return
        if d.d.get('init') == 'call' and init[0].k not in ('CXXConstructExpr',):
            pass
        st.cells[cell] = self.ev_init(st, init[0], t)

    def decl_decomp(self, st, d):
        init = [c for c in d.kids if c is not None and c.k != 'BindingDecl']
        binds = [c for c in d.kids if c is not None and c.k == 'BindingDecl']
        isref = d.qtraw.rstrip().endswith('&')
        base = self.lv(st, init[0]) if isref else LV(self.newcell(st, self.ev(st, init[0])))
        v = self.load(st, base)
        if isinstance(v, Arr):
            paths = [('i', i) for i in range(len(v.e))]
        elif isinstance(v, Struct):
            paths = [('f', k) for k in v.f]
        else:
            raise Unsupported('structured binding')
        for b, p in zip(binds, paths):
            st.cells[(self.frames[-1].id, b.id)] = Ref(LV(base.cell, base.path + (p,)))

    def x_ReturnStmt(self, st, n):
        k = [c for c in n.kids if c is not None]
        if not k:
            return [(st, Out('ret', None))]
        fn = self.frames[-1].fn
        rt = self.ret_type(fn)
        if rt.rstrip().endswith('&'):
            v = self.lv(st, k[0])
        else:
            v = self.ev_init(st, k[0], ptype(rt) if rt and 'auto' not in rt else None)
        return [(st, Out('ret', v))]

    def ret_type(self, fn):
        if fn is None:
            return ''
        q = (fn.d.get('type') or {}).get('desugaredQualType') or (fn.d.get('type') or {}).get('qualType', '')
        m = re.match(r'^auto (\(.*\)).*-> (.*)$', q)
        if m:
            return m.group(2)
        # strip parameter list: first '(' at depth 0 of <>
        d = 0
        for i, ch in enumerate(q):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0 and i > 0:
                return q[:i].strip()
        return q

    def x_IfStmt(self, st, n):
        kids = list(n.kids)
        if n.d.get('hasInit'):
            r = self.ex(st, kids.pop(0))
            st = r[0][0]
        if n.d.get('hasVar'):
            self.ex(st, kids.pop(0))
        c = self.cond(st, kids[0])
        then = kids[1]
        els = kids[2] if len(kids) > 2 else None
        return self.branch(st, c, lambda s: self.ex(s, then) if then is not None else [(s, None)],
                           lambda s: self.ex(s, els) if els is not None else [(s, None)])

    def branch(self, st, c, then, els):
        cc = conc(simp(c))
        if cc is True:
            return then(st)
        if cc is False:
            return els(st)
        c = simp(c)
        if len(st.pc) and self.decide_pc:
            if self.quick(st, c, 60):
                return then(st)
            if self.quick(st, z3.Not(c), 60):
                return els(st)
        base = len(st.pc)
        a, b = st.copy(), st.copy()
        a.pc.append(('c', c))
        b.pc.append(('c', z3.Not(c)))
        res = []
        for s, f in ((a, then), (b, els)):
            if self.prune and not self.feasible(s, 100):
                continue
            res += f(s)
        return self.try_merge(res, base)

    decide_pc = True
    prune = False

    def cond(self, st, n):
        return zb(self.ev(st, n))

    def x_SwitchStmt(self, st, n):
        kids = [k for k in n.kids if k is not None]
        v = self.ev(st, kids[0])
        body = kids[-1]
        # flatten labels
        items = []   # (labels, stmt)

        def add(s):
            labels = []
            while s is not None and s.k in ('CaseStmt', 'DefaultStmt'):
                ks = [k for k in s.kids if k is not None]
                if s.k == 'CaseStmt':
                    labels.append(ks[0])
                    s = ks[-1] if len(ks) > 1 else None
                else:
                    labels.append('default')
                    s = ks[0] if ks else None
            items.append((labels, s))
        for s in body.kids:
            if s is not None:
                add(s)
        cases = []
        conds = []
        for i, (labels, _) in enumerate(items):
            for l in labels:
                if l == 'default':
                    cases.append((None, i))
                else:
                    c = zi(v) == zi(self.ev(st, l))
                    cases.append((c, i))
                    conds.append(c)
        res = []
        base = len(st.pc)
        anyd = False
        for c, i in cases:
            g = c if c is not None else (z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True))
            anyd = anyd or c is None
            g = simp(g)
            if z3.is_false(g):
                continue
            s = st.copy()
            s.cond(g)
            res += self.seq(s, [x for _, x in items[i:]])
        if not anyd:
            s = st.copy()
            g = simp(z3.Not(z3.Or(*conds)))
            if not z3.is_false(g):
                s.cond(g)
                res.append((s, None))
        res = [(s, None if (o is not None and o.kind == 'brk') else o) for s, o in res]
        return self.try_merge(res, base)

    def x_BreakStmt(self, st, n):
        return [(st, BRK)]

    def x_ContinueStmt(self, st, n):
        return [(st, CONT)]

    def e_CXXThrowExpr(self, st, n):
        self.side += self.x_CXXThrowExpr(st, n)
        raise AllThrow()

    def x_CXXThrowExpr(self, st, n):
        k = [c for c in n.kids if c is not None]
        return [(st, Out('throw', strip_cv(k[0].qt) if k else 'rethrow'))]

    def x_CXXTryStmt(self, st, n):
        body, handlers = n.kids[0], n.kids[1:]
        res = self.ex(st, body)
        out = []
        for s, o in res:
            if o is None or o.kind != 'throw':
                out.append((s, o))
                continue
            for h in handlers:
                var = h.kids[0] if h.kids and h.kids[0] is not None and h.kids[0].k == 'VarDecl' else None
                ok = var is None or self.exc_matches(o.val, var.qt)
                if ok:
                    if var is not None:
                        s.cells[(self.frames[-1].id, var.id)] = Opaque('exception')
                    out += self.ex(s, h.kids[-1])
                    break
            else:
                out.append((s, o))
        return out

    EXC = {'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::runtime_error': ['std::exception'],
           'std::logic_error': ['std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'],
           'std::domain_error': ['std::logic_error', 'std::exception'], 'std::length_error': ['std::logic_error', 'std::exception'],
           'std::bad_alloc': ['std::exception'], 'std::range_error': ['std::runtime_error', 'std::exception'],
           'std::overflow_error': ['std::runtime_error', 'std::exception']}

    def exc_matches(self, thrown, caught):
        c = strip_cv(caught).rstrip('&').strip()
        c = strip_cv(c)
        return thrown == c or c in self.EXC.get(thrown, [])

    # ---------------------------------------------------------------- loops
    def x_ForStmt(self, st, n):
        init, cvar, cond, inc, body = (list(n.kids) + [None] * 5)[:5]
        if init is not None:
            r = self.ex(st, init)
            if len(r) != 1 or r[0][1] is not None:
                raise Unsupported('for-init')
            st = r[0][0]
        return self.loop(st, (lambda s: self.cond(s, cond)) if cond is not None else (lambda s: z3.BoolVal(True)),
                         lambda s: self.ex(s, body) if body is not None else [(s, None)],
                         (lambda s: self.ev(s, inc, discard=True)) if inc is not None else (lambda s: None), n)

    def x_WhileStmt(self, st, n):
        kids = [k for k in n.kids if k is not None]
        cond, body = kids[-2], kids[-1]
        return self.loop(st, lambda s: self.cond(s, cond), lambda s: self.ex(s, body), lambda s: None, n)

    def x_DoStmt(self, st, n):
        body, cond = n.kids[0], n.kids[1]
        res = self.ex(st, body)
        out = []
        for s, o in res:
            if o is None or o.kind == 'cont':
                out += self.loop(s, lambda q: self.cond(q, cond), lambda q: self.ex(q, body), lambda q: None, n)
            elif o.kind == 'brk':
                out.append((s, None))
            else:
                out.append((s, o))
        return out

    def x_CXXForRangeStmt(self, st, n):
        kids = n.kids
        # init, range decl, begin decl, end decl, cond, inc, loopvar decl, body
        rng, beg, end, cond, inc, var, body = kids[-7:]
        for d in kids[:-7] + [rng, beg, end]:
            if d is not None:
                r = self.ex(st, d)
                st = r[0][0]

        def bd(s):
            r = self.ex(s, var)
            out = []
            for s2, o in r:
                if o is not None:
                    out.append((s2, o))
                else:
                    out += self.ex(s2, body) if body is not None else [(s2, None)]
            return out
        return self.loop(st, lambda s: self.cond(s, cond), bd, lambda s: self.ev(s, inc, discard=True), n)

    # ================================================================ expressions
    def ev(self, st, n, discard=False):
        m = getattr(self, 'e_' + n.k, None)
        if m is None:
            if n.d.get('valueCategory') in ('lvalue', 'xvalue') and hasattr(self, 'l_' + n.k):
                if discard:
                    return self.lv(st, n)
                return self.rv(st, self.lv(st, n))
            raise Unsupported('expression %s' % n.k)
        if n.d.get('valueCategory') in ('lvalue', 'xvalue') and hasattr(self, 'l_' + n.k):
            l = self.lv(st, n)
            if discard:
                return l
            return self.rv(st, l)
        return m(st, n)

    def rv(self, st, l):
        if isinstance(l, (LV,)):
            return self.load(st, l)
        if isinstance(l, Union) and all(isinstance(x, LV) for _, x in l.alts):
            return self.load(st, l)
        return l

    def lv(self, st, n):
        m = getattr(self, 'l_' + n.k, None)
        if m is not None and (n.d.get('valueCategory') in ('lvalue', 'xvalue') or n.k in ('MaterializeTemporaryExpr', 'VarDecl')):
            r = m(st, n)
            if isinstance(r, (LV, Union)):
                return r
            return LV(self.newcell(st, r))
        v = self.ev(st, n)
        if isinstance(v, LV):
            return v
        return LV(self.newcell(st, v))

    def ev_init(self, st, n, t):
        """initialise an object of type t from expression n"""
        while n.k in TRANSPARENT:
            n = self.first(n)
        if n.k == 'InitListExpr':
            return self.init_list(st, n, ptype(n.qt) if n.qt and n.qt != 'void' else t)
        v = self.ev(st, n)
        return v

    # --- transparent wrappers
    def first(self, n):
        for k in n.kids:
            if k is not None and k.k != 'NonTypeTemplateParmDecl':
                return k

    def _transparent_e(self, st, n):
        return self.ev(st, self.first(n))

    def _transparent_l(self, st, n):
        return self.lv(st, self.first(n))

    def e_MaterializeTemporaryExpr(self, st, n):
        return self.ev(st, self.first(n))

    def l_MaterializeTemporaryExpr(self, st, n):
        v = self.ev(st, self.first(n))
        if isinstance(v, LV):
            return v
        return LV(self.newcell(st, v))

    # --- literals
    def e_IntegerLiteral(self, st, n):
        return z3.IntVal(int(n.d['value']))

    def e_CharacterLiteral(self, st, n):
        return z3.IntVal(int(n.d['value']))

    def e_CXXBoolLiteralExpr(self, st, n):
        return z3.BoolVal(bool(n.d['value']))

    def e_FloatingLiteral(self, st, n):
        return z3.RealVal(str(n.d['value']))

    def e_StringLiteral(self, st, n):
        return Opaque('string')

    def l_StringLiteral(self, st, n):
        return LV(self.newcell(st, Opaque('string')))

    def e_PredefinedExpr(self, st, n):
        return Opaque('string')

    l_PredefinedExpr = l_StringLiteral

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return NULL

    def e_GNUNullExpr(self, st, n):
        return NULL

    def e_CXXScalarValueInitExpr(self, st, n):
        return self.default(ptype(n.qt))

    def e_ImplicitValueInitExpr(self, st, n):
        return self.default(ptype(n.qt))

    def e_CXXDefaultArgExpr(self, st, n):
        k = self.first(n)
        if k is None:
            raise Unsupported('default arg')
        return self.ev(st, k)

    def e_CXXDefaultInitExpr(self, st, n):
        k = self.first(n)
        if k is None:
            raise Unsupported('default init')
        return self.ev(st, k)

    def e_SourceLocExpr(self, st, n):
        return z3.IntVal(0)

    def e_TypeTraitExpr(self, st, n):
        raise Unsupported('type trait')

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.d.get('name') != 'sizeof':
            raise Unsupported(n.d.get('name'))
        at = n.d.get('argType')
        q = (at.get('desugaredQualType') or at['qualType']) if at else self.first(n).qt
        return z3.IntVal(self.sizeof(q))

    def sizeof(self, q):
        q = strip_cv(q)
        if q in SIZEOF:
            return SIZEOF[q]
        t = ptype(q)
        if t.kind == 'arr':
            return t.n * self.sizeof_t(t.a)
        return self.sizeof_t(t)

    def sizeof_t(self, t):
        if t.kind == 'int':
            return t.n // 8
        if t.kind == 'bool':
            return 1
        if t.kind == 'real':
            return 4 if t.name == 'float' else 8
        if t.kind == 'complex':
            return 2 * self.sizeof_t(t.a)
        if t.kind == 'arr':
            return t.n * self.sizeof_t(t.a)
        if t.kind == 'ptr':
            return 8
        if t.kind == 'rec':
            cn = self.cls(t.name)
            if cn is not None:
                off, al = 0, 1
                for _, ft, _ in self.fields(cn):
                    s = self.sizeof_t(ft)
                    a = min(8, self.align_t(ft))
                    off = (off + a - 1) // a * a + s
                    al = max(al, a)
                return (off + al - 1) // al * al
        raise Unsupported('sizeof %r' % t)

    def align_t(self, t):
        if t.kind == 'arr':
            return self.align_t(t.a)
        if t.kind == 'rec':
            cn = self.cls(t.name)
            if cn is not None:
                return max([self.align_t(ft) for _, ft, _ in self.fields(cn)] + [1])
        return self.sizeof_t(t)

    # --- names
    def var(self, st, id):
        fr = self.frames[-1]
        c = (fr.id, id)
        if c in st.cells:
            v = st.cells[c]
            return v.lv if isinstance(v, Ref) else LV(c)
        if id in fr.captures:
            return fr.captures[id]
        return None

    def l_DeclRefExpr(self, st, n):
        rd = n.d['referencedDecl']
        l = self.var(st, rd['id'])
        if l is not None:
            return l
        if rd['kind'] == 'EnumConstantDecl':
            return LV(self.newcell(st, self.enum_val(rd)))
        d = self.ast.byid.get(rd['id'])
        if rd['kind'] in ('VarDecl', 'BindingDecl') and d is not None:
            # namespace-scope / static constant
            init = [c for c in d.kids if c is not None and not c.k.endswith('Attr') and c.k not in ('TemplateArgument',)]
            cell = ('g', rd['id'])
            if cell not in st.cells:
                if init and ('const' in d.qtraw or d.d.get('constexpr') or d.d.get('inline')):
                    st.cells[cell] = self.ev_init(st, init[-1], ptype(d.qt))
                else:
                    st.cells[cell] = self.havoc(ptype(d.qt), 'global_' + (d.name or ''))
            return LV(cell)
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return LV(self.newcell(st, PyFunc(('fn', rd))))
        if rd['kind'] == 'VarDecl':
            g = ('g', rd['id'])
            if g not in st.cells:
                nm = rd.get('name')
                t = ptype((rd.get('type') or {}).get('desugaredQualType') or (rd.get('type') or {}).get('qualType', ''))
                if nm in ('value',) and t.kind == 'bool':
                    st.cells[g] = self.trait_value(n)
                elif nm in ('cerr', 'cout', 'endl') or t.kind == 'rec':
                    st.cells[g] = Opaque(nm)
                else:
                    st.cells[g] = self.havoc(t, 'global_' + str(nm))
                if nm == 'value':
                    c = self.newcell(st, st.cells.pop(g))
                    return LV(c)
            return LV(g)
        raise Unsupported('name %s %s' % (rd['kind'], rd.get('name')))

    def e_DeclRefExpr(self, st, n):
        rd = n.d['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            return self.enum_val(rd)
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return PyFunc(('fn', rd))
        return self.load(st, self.l_DeclRefExpr(st, n))

    def trait_value(self, n):
        from . import traits
        return z3.BoolVal(traits.value(self, n))

    def enum_val(self, rd):
        d = self.ast.byid.get(rd['id'])
        if d is None or d.parent is None:
            h = getattr(self, 'enum_ext', {}).get(rd.get('name'))
            if h is not None:
                return z3.IntVal(h)
            raise Unsupported('enum constant ' + rd.get('name'))
        val = -1
        for c in d.parent.kids:
            if c is None or c.k != 'EnumConstantDecl':
                continue
            k = self.first(c)
            if k is not None:
                x = conc(simp(self.ev(State(), k)))
                val = x
            else:
                val += 1
            if c is d:
                return z3.IntVal(val)
        raise Unsupported('enum')

    def this_lv(self, st):
        for f in reversed(self.frames):
            if f.this is not None:
                return f.this
            if f.fn is not None:
                break
        raise Unsupported('this')

    def e_CXXThisExpr(self, st, n):
        l = self.this_lv(st)
        if isinstance(l, LV):
            return Ptr(l.cell, l.path, None, None, l.view)
        return l

    def l_MemberExpr(self, st, n):
        k = self.first(n)
        rd = n.d.get('referencedMemberDecl')
        d = self.ast.byid.get(rd)
        if n.d.get('isArrow'):
            p = self.ev(st, k)
            base = self.deref(st, p)
        else:
            base = self.lv(st, k)
        if d is not None and d.k == 'VarDecl':     # static member
            init = [c for c in d.kids if c is not None]
            return LV(self.newcell(st, self.ev(st, init[-1])))
        nm = n.name
        if d is not None and not nm:
            nm = 'anon' + d.id
        if isinstance(base, Union):
            return Union([(c, self.follow(st, LV(b.cell, b.path + (('f', nm),), b.view), d)) for c, b in base.alts])
        l = LV(base.cell, base.path + (('f', nm),), base.view)
        return self.follow(st, l, d)

    def follow(self, st, l, d):
        if d is not None and d.k == 'FieldDecl' and d.qtraw.rstrip().endswith('&'):
            p = self.load(st, l)
            if isinstance(p, Ptr):
                return self.deref(st, p)
        return l

    def e_MemberExpr(self, st, n):
        if n.d.get('valueCategory') == 'prvalue':
            k = self.first(n)
            v = self.ev(st, k)
            if isinstance(v, Struct) and n.name in v.f:
                return v.f[n.name]
            # enum member or bound member function
            d = self.ast.byid.get(n.d.get('referencedMemberDecl'))
            if d is not None and d.k == 'EnumConstantDecl':
                return self.enum_val({'id': d.id, 'name': d.name})
            raise Unsupported('member ' + str(n.name))
        return self.load(st, self.l_MemberExpr(st, n))

    def l_ArraySubscriptExpr(self, st, n):
        a, b = n.kids
        if ptype(a.qt).kind == 'arr':       # a lane of a vector register
            l = self.lv(st, a)
            return LV(l.cell, l.path + (('i', zi(self.ev(st, b))),), l.view)
        pa = self.ev(st, a)
        ib = self.ev(st, b)
        if isz(pa):
            pa, ib = ib, pa
        return self.deref(st, pa, zi(ib))

    e_ArraySubscriptExpr = lambda self, st, n: self.load(st, self.l_ArraySubscriptExpr(st, n))

    def addr(self, l):
        if isinstance(l, Union):
            return Union([(c, self.addr(x)) for c, x in l.alts])
        if isinstance(l, Ptr):
            return l
        if l.path and l.path[-1][0] == 'i':
            return Ptr(l.cell, l.path[:-1], l.path[-1][1], None, l.view)
        return Ptr(l.cell, l.path, None, None, l.view)

    # --- operators
    def e_UnaryOperator(self, st, n):
        op = n.d['opcode']
        k = self.first(n)
        if op == '&':
            return self.addr(self.lv(st, k))
        if op in ('++', '--'):
            l = self.lv(st, k)
            old = self.load(st, l)
            new = self.padd(st, old, 1 if op == '++' else -1)
            self.store(st, l, new)
            return old if n.d.get('isPostfix') else new
        if op == '*':
            return self.load(st, self.deref(st, self.ev(st, k)))
        v = self.ev(st, k)
        if op == '-':
            if isinstance(v, Struct):
                return Struct(v.cls, {a: -b for a, b in v.f.items()})
            if isz(v) and v.sort() == R and z3.is_rational_value(v) and v.as_fraction() == 0:
                self.univ(simd.NEGZERO == 0)
                return simd.NEGZERO
            return simp(-zi(v))
        if op == '+':
            return v
        if op == '!':
            return simp(z3.Not(self.truth(v)))
        if op == '~':
            return -zi(v) - 1
        raise Unsupported('unary ' + op)

    def truth(self, v):
        if isinstance(v, (Ptr, Union)):
            return z3.Not(is_null(v))
        return zb(v)

    def l_UnaryOperator(self, st, n):
        op = n.d['opcode']
        k = self.first(n)
        if op == '*':
            return self.deref(st, self.ev(st, k))
        if op in ('++', '--') and not n.d.get('isPostfix'):
            l = self.lv(st, k)
            self.store(st, l, self.padd(st, self.load(st, l), 1 if op == '++' else -1))
            return l
        if op in ('__extension__', '__real', '__imag'):
            return self.lv(st, k)
        raise Unsupported('unary lvalue ' + op)

    def padd(self, st, a, k):
        if isinstance(a, Union):
            return Union([(c, self.padd(st, x, k)) for c, x in a.alts])
        if isinstance(a, LV):
            a = self.addr(a)
        if isinstance(a, Ptr):
            if a.off is None:
                if conc(k) == 0:
                    return a
                raise Unsupported('arithmetic on object pointer')
            return Ptr(a.cell, a.path, simp(zi(a.off) + zi(k)), a.null, a.view)
        return self.arith('+', a, z3.IntVal(k) if isinstance(k, int) else k)

    def coerce(self, a, b):
        a, b = zi(a), zi(b)
        if isz(a) and isz(b) and a.sort() != b.sort():
            if a.sort() == R and b.sort() == I:
                b = z3.ToReal(b)
            elif b.sort() == R and a.sort() == I:
                a = z3.ToReal(a)
        return a, b

    def arith(self, op, a, b, st=None):
        if isinstance(a, Struct) or isinstance(b, Struct):
            return self.carith(op, a, b)
        a, b = self.coerce(a, b)
        if not (isz(a) and isz(b)):
            raise Unsupported('arith on %r, %r' % (a, b))
        if op == '+':
            return simp(a + b)
        if op == '-':
            return simp(a - b)
        if op == '*':
            return simp(a * b)
        if a.sort() == R:
            if op == '/':
                return simp(a / b)
            raise Unsupported('real ' + op)
        if op == '/':
            return self.cdiv(st, a, b)
        if op == '%':
            return self.cmod(st, a, b)
        ca, cb = conc(simp(a)), conc(simp(b))
        if op == '<<' and cb is not None:
            return simp(a * (1 << cb))
        if op == '>>' and cb is not None:
            return simp(a / (1 << cb))      # arithmetic shift = floor division
        if op == '&' and cb is not None and (cb + 1) & cb == 0 and cb >= 0:
            return simp(a % (cb + 1))
        if op == '&' and ca is not None and (ca + 1) & ca == 0 and ca >= 0:
            return simp(b % (ca + 1))
        if ca is not None and cb is not None:
            return z3.IntVal({'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
        if op in ('&', '|', '^', '<<', '>>'):
            nm = {'&': 'bitand', '|': 'bitor', '^': 'bitxor', '<<': 'shl', '>>': 'shr'}[op]
            return z3.Function(nm, I, I, I)(a, b)
        raise Unsupported('arith ' + op)

    def carith(self, op, a, b):
        def cx(v):
            if isinstance(v, Struct):
                return v.f['re'], v.f['im']
            v = zi(v)
            return (z3.ToReal(v) if v.sort() == I else v), z3.RealVal(0)
        (ar, ai), (br, bi) = cx(a), cx(b)
        if op == '+':
            r = ar + br, ai + bi
        elif op == '-':
            r = ar - br, ai - bi
        elif op == '*':
            r = ar * br - ai * bi, ar * bi + ai * br
        elif op == '/' and conc(simp(bi == 0)) is True:
            r = ar / br, ai / br
        elif op == '/':
            d = br * br + bi * bi
            r = (ar * br + ai * bi) / d, (ai * br - ar * bi) / d
        else:
            raise Unsupported('complex ' + op)
        return Struct('complex', {'re': simp(r[0]), 'im': simp(r[1])})

    @staticmethod
    def div_axiom(a, b):
        q, r = TDIV(a, b), TMOD(a, b)
        return z3.And(z3.Implies(z3.And(b > 0, a >= 0), z3.And(a == b * q + r, r >= 0, r < b, q >= 0, q <= a)),
                      z3.Implies(z3.And(b > 0, a >= 0, a < b), z3.And(q == 0, r == a)),
                      z3.Implies(z3.And(b > 0, a >= b, a < 2 * b), z3.And(q == 1, r == a - b)),
                      z3.Implies(b == 1, z3.And(q == a, r == 0)),
                      z3.Implies(z3.And(b > 0, a < 0), z3.And(a == b * q + r, r <= 0, r > -b, q <= 0)))

    def divfacts(self, st, a, b):
        if st is None:
            return
        f = self.div_axiom(a, b)
        self.divids.add(f.get_id())
        self._keepdiv.append(f)
        st.fact(f)

    def nonneg(self, st, a):
        c = conc(simp(a))
        if c is not None:
            return c >= 0
        return st is not None and self.quick(st, a >= 0, 50)

    def cdiv(self, st, a, b):
        cb = conc(simp(b))
        if cb is not None and cb > 0:
            ca = conc(simp(a))
            if ca is not None:
                q = abs(ca) // cb
                return z3.IntVal(q if ca >= 0 else -q)
            if cb == 1:
                return a
            if self.nonneg(st, a):
                return simp(a / cb)
            return z3.If(a >= 0, a / cb, -((-a) / cb))
        self.divfacts(st, a, b)
        return TDIV(a, b)

    def cmod(self, st, a, b):
        cb = conc(simp(b))
        if cb is not None and cb > 0:
            ca = conc(simp(a))
            if ca is not None:
                q = abs(ca) % cb
                return z3.IntVal(q if ca >= 0 else -q)
            if self.nonneg(st, a):
                return simp(a % cb)
            return z3.If(a >= 0, a % cb, -((-a) % cb))
        self.divfacts(st, a, b)
        return TMOD(a, b)

    def e_BinaryOperator(self, st, n):
        op = n.d['opcode']
        x, y = n.kids
        if op == '=':
            return self.load(st, self.l_BinaryOperator(st, n))
        if op in ('&&', '||'):
            a = self.truth(self.ev(st, x))
            ca = conc(simp(a))
            if ca is True and op == '&&':
                return self.truth(self.ev(st, y))
            if ca is False and op == '&&':
                return z3.BoolVal(False)
            if ca is True:
                return z3.BoolVal(True)
            if ca is False:
                return self.truth(self.ev(st, y))
            b = self.guarded_ev(st, a if op == '&&' else z3.Not(a), y)
            b = self.truth(b)
            return simp(z3.And(a, b)) if op == '&&' else simp(z3.Or(a, b))
        if op == ',':
            self.ev(st, x, discard=True)
            return self.ev(st, y)
        a = self.ev(st, x)
        b = self.ev(st, y)
        return self.binop(st, op, a, b, n)

    def guarded_ev(self, st, g, y):
        """evaluate y under condition g; side effects of y are guarded"""
        base = len(st.pc)
        a, b = st.copy(), st.copy()
        a.pc.append(('c', simp(g)))
        b.pc.append(('c', simp(z3.Not(g))))
        v = self.ev(a, y)
        m = self.merge([a, b], base)
        st.cells, st.pc, st.trace = m.cells, m.pc, m.trace
        return v

    def binop(self, st, op, a, b, n=None):
        if isinstance(a, LV):
            a = self.addr(a)
        if isinstance(b, LV):
            b = self.addr(b)
        pa, pb = isinstance(a, (Ptr, Union)), isinstance(b, (Ptr, Union))
        if pa or pb:
            return self.ptrop(st, op, a, b)
        if op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'):
            if op in ('&', '|', '^') and isz(a) and isz(b) and a.sort() == B and b.sort() == B:
                return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
            return self.arith(op, a, b, st)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of opaque')
        if isinstance(a, (Struct, Arr)) or isinstance(b, (Struct, Arr)):
            e = self.struct_eq(a, b)
            return e if op == '==' else z3.Not(e)
        if isz(a) and isz(b) and a.sort() == B and b.sort() == B and op in ('==', '!='):
            return simp(a == b) if op == '==' else simp(a != b)
        a, b = self.coerce(a, b)
        if n is not None and n.kids and n.kids[0] is not None and 'unsigned' in (n.kids[0].qt or '') and op in ('<', '<=', '>', '>='):
            for v in (a, b):
                if conc(simp(v)) is None and self.has_sub(v):
                    self.oblige(st, v >= 0, 'unsigned operand does not wrap', kind='safety')
        r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}
        if op not in r:
            raise Unsupported('binary ' + op)
        return simp(r[op]())

    def has_sub(self, v):
        todo = [v]
        k = 0
        while todo and k < 200:
            e = todo.pop()
            k += 1
            if z3.is_int_value(e) and e.as_long() < 0:
                return True
            if z3.is_sub(e) or z3.is_app_of(e, z3.Z3_OP_UMINUS):
                return True
            todo += e.children()
        return False

    def struct_eq(self, a, b):
        if isinstance(a, Struct):
            return z3.And(*[self.struct_eq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, Arr):
            return z3.And(*[self.struct_eq(x, y) for x, y in zip(a.e, b.e)])
        if isz(a):
            a, b = self.coerce(a, b)
            return a == b
        raise Unsupported('equality')

    def ptrop(self, st, op, a, b):
        if op in ('==', '!='):
            r = self.ptr_eq(a, b)
            return simp(r if op == '==' else z3.Not(r))
        if op in ('+', '-') and isz(b):
            return self.padd(st, a, simp(zi(b) if op == '+' else -zi(b)))
        if op == '+' and isz(a):
            return self.padd(st, b, a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell:
            x, y = zi(a.off), zi(b.off)
            return simp({'-': lambda: x - y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]())
        raise Unsupported('pointer operation ' + op)

    def ptr_eq(self, a, b):
        if isinstance(a, Union):
            r = z3.BoolVal(False)
            for c, x in reversed(a.alts):
                r = z3.If(c, self.ptr_eq(x, b), r)
            return r
        if isinstance(b, Union):
            return self.ptr_eq(b, a)
        if isz(a) or isz(b):
            if isz(a) and conc(simp(zi(a))) == 0:
                return is_null(b)
            if isz(b) and conc(simp(zi(b))) == 0:
                return is_null(a)
            raise Unsupported('pointer/integer comparison')
        if a.cell is None:
            return is_null(b)
        if b.cell is None:
            return is_null(a)
        if a.cell != b.cell:
            return z3.And(is_null(a), is_null(b)) if (a.null is not None and b.null is not None) else z3.BoolVal(False)
        if a.off is None or b.off is None:
            return z3.BoolVal(same(a, b))
        return zi(a.off) == zi(b.off)

    def l_BinaryOperator(self, st, n):
        op = n.d['opcode']
        x, y = n.kids
        if op == '=':
            v = self.ev(st, y)
            l = self.lv(st, x)
            self.store(st, l, v)
            return l
        if op == ',':
            self.ev(st, x, discard=True)
            return self.lv(st, y)
        raise Unsupported('lvalue ' + op)

    def l_CompoundAssignOperator(self, st, n):
        op = n.d['opcode'][:-1]
        x, y = n.kids
        b = self.ev(st, y)
        l = self.lv(st, x)
        a = self.load(st, l)
        v = self.binop(st, op, a, b)
        t = ptype(x.qt)
        self.store(st, l, self.conv(st, v, t))
        return l

    def e_CompoundAssignOperator(self, st, n):
        return self.load(st, self.l_CompoundAssignOperator(st, n))

    def e_ConditionalOperator(self, st, n):
        return self.condop(st, n, self.ev)

    def l_ConditionalOperator(self, st, n):
        return self.condop(st, n, self.lv)

    def condop(self, st, n, f):
        c = simp(self.truth(self.ev(st, n.kids[0])))
        cc = conc(c)
        if cc is None and self.decide_pc and st.pc:
            if self.quick(st, c, 60):
                cc = True
            elif self.quick(st, z3.Not(c), 60):
                cc = False
        if cc is True:
            return f(st, n.kids[1])
        if cc is False:
            return f(st, n.kids[2])
        base = len(st.pc)
        a, b = st.copy(), st.copy()
        a.pc.append(('c', c))
        b.pc.append(('c', z3.Not(c)))
        va = vb = None
        ta = tb = False
        try:
            va = f(a, n.kids[1])
        except AllThrow:
            ta = True
        try:
            vb = f(b, n.kids[2])
        except AllThrow:
            tb = True
        if ta and tb:
            raise AllThrow()
        if ta or tb:
            m = b if ta else a
            st.cells, st.pc, st.trace = m.cells, m.pc, m.trace
            return vb if ta else va
        isl = isinstance(va, LV) or isinstance(vb, LV)
        if isl:
            va = self.addr(va) if isinstance(va, LV) else va
            vb = self.addr(vb) if isinstance(vb, LV) else vb
        m = self.merge([a, b], base)
        st.cells, st.pc, st.trace = m.cells, m.pc, m.trace
        r = ite(c, va, vb)
        if isl:
            def back(p):
                if p.off is not None:
                    return LV(p.cell, p.path + (('i', p.off),), p.view)
                return LV(p.cell, p.path, p.view)
            if isinstance(r, Union):
                return Union([(g, back(p)) for g, p in r.alts])
            return back(r)
        return r

    # --- casts
    def e_ImplicitCastExpr(self, st, n):
        return self.cast(st, n)

    def l_ImplicitCastExpr(self, st, n):
        if n.d.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion'):
            return self.lv(st, self.first(n))
        raise Unsupported('lvalue cast ' + n.d.get('castKind', ''))

    def cast(self, st, n):
        ck = n.d.get('castKind')
        k = self.first(n)
        if ck == 'LValueToRValue':
            return self.load(st, self.lv(st, k))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.ev(st, k)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(st, k)
        if ck == 'ArrayToPointerDecay':
            l = self.lv(st, k)
            return Ptr(l.cell, l.path, z3.IntVal(0), None, l.view)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev(st, k, discard=True)
            return None
        v = self.ev(st, k)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'IntegralToBoolean', 'FloatingToIntegral', 'BooleanToSignedIntegral', 'FloatingToBoolean'):
            return self.conv(st, v, ptype(n.qt), n, ck)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return self.truth(v)
        if ck in ('FloatingRealToComplex', 'FloatingComplexCast'):
            return v
        if ck == 'BitCast':
            return self.bitcast(st, v, k.qt, n.qt)
        if ck == 'Dependent':
            return v
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            return v
        raise Unsupported('cast ' + str(ck))

    def bitcast(self, st, v, frm, to):
        a, b = ptype(frm), ptype(to)
        if isinstance(v, Union):
            return Union([(c, self.bitcast(st, x, frm, to)) for c, x in v.alts])
        if not isinstance(v, Ptr) or v.cell is None:
            return v
        if a.kind == 'ptr' and b.kind == 'ptr':
            # complex numbers of the FFT libraries
            if v.view is None and any(self.is_cplx(x) and y.kind == 'rec' and y.name in ('fftw_complex', 'fftwf_complex', '_Complex float', '_Complex double') for x, y in ((a.a, b.a), (b.a, a.a))):
                return v
            if a.a == b.a or b.a.kind == 'void' or a.a.kind == 'void':
                return v
            if v.off is None:
                if b.a.kind == 'real' and v.view is None and a.a.kind != 'real':      # parts of a complex number, lanes of a vector register
                    obj = self.load(st, LV(v.cell, v.path))
                    if isinstance(obj, Arr):
                        return Ptr(v.cell, v.path, z3.IntVal(0), v.null)
                    if isinstance(obj, Struct) and obj.cls == 'complex':
                        return Ptr(v.cell, v.path, z3.IntVal(0), v.null, 'real')
                return v
            ka, kb = a.a.kind, b.a.kind
            if self.is_cplx(a.a) and kb == 'real' and v.view is None:
                return Ptr(v.cell, v.path, simp(2 * zi(v.off)), v.null, 'real')
            if ka == 'real' and self.is_cplx(b.a) and v.view == 'real':
                return Ptr(v.cell, v.path, simp(zi(v.off) / 2), v.null, None)
            if self.is_cplx(a.a) and self.is_cplx(b.a):
                return v
            return self.bitcast_hook(st, v, a, b)
        return v

    def bitcast_hook(self, st, v, a, b):
        raise Unsupported('reinterpretation %r -> %r' % (a, b))

    def is_cplx(self, t):
        return t.kind == 'complex'

    def conv(self, st, v, t, n=None, ck=None):
        if not isz(v) and not isinstance(v, (int, bool)):
            return v
        if isinstance(v, (int, bool)):
            v = z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v)
        if t.kind == 'bool':
            return zb(v)
        if t.kind == 'int':
            if v.sort() == R:
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            v = zi(v)
            if self.narrow and t.n == 32 and n is not None:
                k = self.first(n)
                kt = ptype(k.qt)
                if kt.kind == 'int' and kt.n == 64 and conc(simp(v)) is None:
                    self.oblige(st, z3.And(v >= -2**31, v < 2**31), 'no value is lost in conversion to a 32-bit integer', kind='narrow')
            return v
        if t.kind == 'real':
            v = zi(v)
            return z3.ToReal(v) if v.sort() == I else v
        if t.kind == 'complex':
            return Struct('complex', {'re': v if v.sort() == R else z3.ToReal(zi(v)), 'im': z3.RealVal(0)})
        return v

    def e_CStyleCastExpr(self, st, n):
        return self.cast(st, n)

    e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXFunctionalCastExpr = e_BuiltinBitCastExpr = e_CStyleCastExpr

    def l_CXXStaticCastExpr(self, st, n):
        return self.lv(st, self.first(n))

    l_CXXConstCastExpr = l_CStyleCastExpr = l_CXXFunctionalCastExpr = l_CXXStaticCastExpr

    def l_CXXReinterpretCastExpr(self, st, n):
        raise Unsupported('reinterpret reference')

    # --- construction
    def e_InitListExpr(self, st, n):
        return self.init_list(st, n, ptype(n.qt))

    def init_list(self, st, n, t):
        kids = [k for k in n.kids if k is not None]
        if t is None:
            raise Unsupported('untyped init list')
        if t.kind == 'arr':
            if len(kids) == 1 and kids[0].k == 'InitListExpr' and ptype(kids[0].qt).kind == 'arr' and ptype(kids[0].qt).n == t.n and not (t.a.kind == 'arr'):
                return self.init_list(st, kids[0], ptype(kids[0].qt))
            if len(kids) == 1 and ptype(kids[0].qt) == t:
                return self.ev(st, kids[0])
            f = n.d.get('array_filler')
            ks = [k for k in kids]
            e = [self.ev_init(st, k, t.a) for k in ks[:t.n]]
            while len(e) < t.n:
                e.append(self.default(t.a))
            return Arr(e)
        if t.kind == 'rec':
            cn = self.cls(t.name)
            if t.a:
                return Struct(t.name, {k: self.ev_init(st, x, ft) for k, x, ft in zip(self.tuple_names(t), kids, t.a)})
            if cn is not None:
                fs = self.fields(cn)
                f = {}
                for i, (nm, ft, fd) in enumerate(fs):
                    if i < len(kids):
                        if kids[i].k == 'CXXDefaultInitExpr':
                            f[nm] = self.ev(st, self.first(fd))
                        else:
                            f[nm] = self.ev_init(st, kids[i], ft)
                    else:
                        f[nm] = self.default(ft)
                return Struct(cn.d['_q'], f)
        if len(kids) == 1:
            return self.ev(st, kids[0])
        if not kids:
            return self.default(t)
        raise Unsupported('init list of %r' % t)

    def e_CXXStdInitializerListExpr(self, st, n):
        k = self.first(n)
        v = self.ev(st, k)
        return v

    def e_CXXConstructExpr(self, st, n):
        t = ptype(n.qt)
        kids = [k for k in n.kids if k is not None]
        ct = (n.d.get('ctorType') or {}).get('qualType', '')
        # copy / move
        if len(kids) == 1 and self.is_copy(ct, n, t, kids[0]):
            return self.ev(st, kids[0])
        if t.kind == 'lambda':
            return self.ev(st, kids[0])
        if t.kind == 'rec' and t.name.split('::')[-1] == 'add_trace':
            return Opaque('trace')
        if t.kind == 'rec' and not t.a:
            cn = self.cls(t.name)
            if cn is not None:
                ctor = self.resolve_ctor(n, cn)
                q = cn.d['_q']
                h = self.ctor_intercept.get(q) or self.ctor_intercept.get(re.sub('<.*>', '', q))
                if ctor is None:
                    if h:
                        return h(self, st, cn, [self.ev(st, k) for k in kids])
                    if not kids:
                        return self.construct(st, t, [], None)
                    raise Unsupported('constructor of ' + t.name + ' ' + ct)
                args = [self.arg(st, a, p) for a, p in self.zip_args(kids, ctor)]
                return self.construct(st, t, args, ctor)
        return stdmodel.construct(self, st, n, t, kids, ct)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def is_copy(self, ct, n, t, k):
        m = re.match(r'^void \((.*)\)( noexcept.*)?$', ct)
        if not m:
            return False
        a = m.group(1).strip()
        if not a.endswith('&'):
            return False
        if k.k == 'InitListExpr' or k.k == 'CXXStdInitializerListExpr':
            return False
        kt = ptype(k.qt)
        if kt == t:
            return True
        if t.kind == 'rec' and kt.kind == 'rec':
            a, b = self.cls(t.name), self.cls(kt.name)
            if a is not None and a is b:
                return True
        if t.kind in ('uptr',) and kt.kind == 'uptr':
            return True
        if t.kind == 'iter' and kt.kind == 'iter':
            return True
        return False

    def e_CXXNewExpr(self, st, n):
        t = ptype(n.qt)
        kids = [k for k in n.kids if k is not None]
        if n.d.get('isArray'):
            ln = self.ev(st, kids[0])
            t = self.resolved_elem(t)
            cell = self.newcell(st, Vec(t.a, zi(ln), [self.fresh('new', z3.ArraySort(I, s)) for s in self.leaves(t.a)]), 'h')
            return Ptr(cell, (), z3.IntVal(0))
        v = self.ev(st, kids[0]) if kids else self.uninit(t.a)
        cell = self.newcell(st, v, 'h')
        return Ptr(cell)

    def resolved_elem(self, t):
        """pointer type whose element class is spelled with a constant of the enclosing class (biFuncNode<float, L>)"""
        try:
            self.leaves(t.a)
            return t
        except Unsupported:
            pat = re.escape(re.sub(r'^heffte::', '', t.a.name or ''))
            pat = re.sub(r'(?<=,\\ )[A-Z](?=>)', r'[0-9]+', pat)
            for q in sorted(self.ast.classes):
                if re.fullmatch('(heffte::)?' + pat, q):
                    return ptype(q + ' *')
            raise

    def e_CXXDeleteExpr(self, st, n):
        k = self.first(n)
        v = self.ev(st, k)
        h = getattr(self, 'delete_hook', None)
        if h is not None:
            h(st, v, k.qt)
        return None

    def e_LambdaExpr(self, st, n):
        rec = n.kids[0]
        op = None
        fields = []
        for c in rec.kids:
            if c is None:
                continue
            if c.k == 'CXXMethodDecl' and c.name == 'operator()':
                op = c
            if c.k == 'FunctionTemplateDecl' and c.name == 'operator()':
                raise Unsupported('generic lambda')
            if c.k == 'FieldDecl':
                fields.append(c)
        caps = {}
        capn = [k for k in n.kids[1:] if k is not None and k.k != 'CompoundStmt']
        fr = self.frames[-1]
        this = None
        for f, c in zip(fields, capn):
            e = c
            while e.k in ('ImplicitCastExpr', 'ParenExpr', 'CXXConstructExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenListExpr', 'InitListExpr') and self.first(e) is not None:
                e = self.first(e)
            if e.k == 'CXXThisExpr':
                this = self.this_lv(st)
                continue
            if e.k != 'DeclRefExpr':
                raise Unsupported('capture ' + e.k)
            did = e.d['referencedDecl']['id']
            l = self.lv(st, e)
            if not f.qtraw.rstrip().endswith('&'):
                l = LV(self.newcell(st, self.load(st, l), 'cap'))
            caps[did] = l
        # variables of enclosing lambdas
        return Closure(n, (caps, this, fr), op)

    def call_closure(self, st, clo, args):
        if isinstance(clo, PyFunc):
            return self.call_pyfunc(st, clo, args)
        caps, this, fr = clo.env
        c2 = dict(fr.captures)
        c2.update(caps)
        saved = None
        return self.inline(st, clo.fn, this, args, c2)

    def call_pyfunc(self, st, f, args):
        if isinstance(f.f, tuple) and f.f[0] == 'fn':
            rd = f.f[1]
            d = self.ast.byid.get(rd['id'])
            if d is not None:
                return self.call(st, d, None, args)
            raise Unsupported('call through std function')
        return f.f(self, st, args)

    # --- calls
    def callee(self, n):
        k = n
        while k is not None and k.k in ('ImplicitCastExpr', 'ParenExpr'):
            k = self.first(k)
        return k

    def e_CallExpr(self, st, n):
        r = self.do_call(st, n)
        return self.rv(st, r) if n.d.get('valueCategory') == 'prvalue' else r

    def l_CallExpr(self, st, n):
        r = self.do_call(st, n)
        if isinstance(r, (LV, Union)):
            return r
        return LV(self.newcell(st, r))

    def do_call(self, st, n):
        kids = [k for k in n.kids if k is not None]
        c = self.callee(kids[0])
        if c.k == 'DeclRefExpr':
            rd = c.d['referencedDecl']
            d = self.ast.byid.get(rd['id'])
            if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                if d is not None and '_q' in d.d:
                    args = [self.arg(st, a, p) for a, p in self.zip_args(kids[1:], d)]
                    return self.call(st, d, None, args)
                return stdmodel.call(self, st, n, rd, kids[1:])
            v = self.load(st, self.lv(st, c))
            return self.call_value(st, v, kids[1:])
        if c.k == 'UnresolvedLookupExpr':
            raise Unsupported('unresolved call')
        v = self.ev(st, c)
        return self.call_value(st, v, kids[1:])

    def call_value(self, st, v, argnodes):
        if isinstance(v, Closure):
            args = [self.arg(st, a, p) for a, p in self.zip_args(argnodes, v.fn)]
            return self.call_closure(st, v, args)
        if isinstance(v, PyFunc):
            if isinstance(v.f, tuple):
                d = self.ast.byid.get(v.f[1]['id'])
                if d is not None:
                    args = [self.arg(st, a, p) for a, p in self.zip_args(argnodes, d)]
                    return self.call(st, d, None, args)
            return self.call_pyfunc(st, v, [self.ev(st, a) for a in argnodes])
        raise Unsupported('call of %r' % v)

    def e_CXXMemberCallExpr(self, st, n):
        r = self.do_mcall(st, n)
        return self.rv(st, r) if n.d.get('valueCategory') == 'prvalue' else r

    def l_CXXMemberCallExpr(self, st, n):
        r = self.do_mcall(st, n)
        if isinstance(r, (LV, Union)):
            return r
        return LV(self.newcell(st, r))

    def do_mcall(self, st, n):
        kids = [k for k in n.kids if k is not None]
        me = kids[0]
        while me.k in ('ParenExpr',):
            me = self.first(me)
        if me.k != 'MemberExpr':
            raise Unsupported('member call ' + me.k)
        base = self.first(me)
        d = self.ast.byid.get(me.d.get('referencedMemberDecl'))
        if me.d.get('isArrow'):
            p = self.ev(st, base)
            h = self.opaque_method(st, p, d, me.name, kids[1:], n)
            if h is not None:
                return h[0]
            this = self.deref(st, p)
        else:
            this = self.lv(st, base)
        if d is not None and '_q' in d.d:
            if d.k == 'CXXConversionDecl' or True:
                h = self.opaque_lv_method(st, this, d, me.name, kids[1:], n)
                if h is not None:
                    return h[0]
            args = [self.arg(st, a, p) for a, p in self.zip_args(kids[1:], d)]
            d = self.devirt(st, d, this)
            return self.call(st, d, this, args)
        return stdmodel.method(self, st, n, this, me.name, base, kids[1:])

    def devirt(self, st, d, this):
        if d.d.get('virtual') and isinstance(this, LV):
            v = self.load(st, this)
            if isinstance(v, Struct):
                cn = self.cls(v.cls)
                if cn is not None:
                    for c in cn.kids:
                        if c is not None and c.k == 'CXXMethodDecl' and c.name == d.name and c.d['type']['qualType'] == d.d['type']['qualType']:
                            return c
        return d

    def opaque_method(self, st, p, d, name, argnodes, n):
        """hook: methods on opaque ghost objects; return [value] or None"""
        return None

    def opaque_lv_method(self, st, this, d, name, argnodes, n):
        return None

    def e_CXXOperatorCallExpr(self, st, n):
        r = self.do_opcall(st, n)
        return self.rv(st, r) if n.d.get('valueCategory') == 'prvalue' else r

    def l_CXXOperatorCallExpr(self, st, n):
        r = self.do_opcall(st, n)
        if isinstance(r, (LV, Union)):
            return r
        return LV(self.newcell(st, r))

    def do_opcall(self, st, n):
        kids = [k for k in n.kids if k is not None]
        c = self.callee(kids[0])
        rd = c.d['referencedDecl']
        d = self.ast.byid.get(rd['id'])
        op = rd['name'][len('operator'):]
        if d is not None and d.k in ('CXXMethodDecl', 'FunctionDecl'):
            par = d.parent
            islam = op == '()' and d.name == 'operator()' and par is not None and par.parent is not None and par.parent.k == 'LambdaExpr'
            if islam:
                clo = self.load(st, self.lv(st, kids[1]))
                if not isinstance(clo, Closure):
                    raise Unsupported('lambda value')
                args = [self.arg(st, a, p) for a, p in self.zip_args(kids[2:], clo.fn)]
                return self.call_closure(st, clo, args)
            if '_q' in d.d:
                if d.k == 'CXXMethodDecl':
                    if (d.d.get('isImplicit') or d.d.get('explicitlyDefaulted')) and op == '=':
                        l = self.lv(st, kids[1])
                        self.store(st, l, self.ev(st, kids[2]))
                        return l
                    this = self.lv(st, kids[1])
                    args = [self.arg(st, a, p) for a, p in self.zip_args(kids[2:], d)]
                    return self.call(st, d, this, args)
                args = [self.arg(st, a, p) for a, p in self.zip_args(kids[1:], d)]
                return self.call(st, d, None, args)
        return stdmodel.opcall(self, st, n, op, kids[1:], rd)


for _k in TRANSPARENT:
    setattr(Exec, 'e_' + _k, Exec._transparent_e)
    setattr(Exec, 'l_' + _k, Exec._transparent_l)
