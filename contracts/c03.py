"""C03: process grids."""
import z3
from dv.spec import *
from dv.execu import TDIV, TMOD

DRIVER = 'geometry'
HARNESS = [{'name': 'geometry', 'sources': ['src/heffte_plan_logic.cpp'], 'timeout': 120}]


def counts_in(v, e):
    """the counting functions behind a length expression: [(T, Cnt, info)]"""
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.num_args() == 1:
            si = v.sym(x.decl().name()) or {}
            if si.get('kind') == 'count':
                out.append((x.arg(0), x.decl(), si))
        todo += x.children()
    return out


def u_factors(c):
    fn = c.fn('heffte::get_factors')
    v = c.engine()
    st = State()
    n = v.fresh('n', I)
    st.fact(n >= 1)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [n])
    for s, _ in thr:
        v.oblige(s, z3.BoolVal(False), 'get_factors does not throw')
    for s, r in rets:
        v.oblige(s, r.len >= 1, 'the list of factorizations is not empty')
        k = v.fresh('k', I)
        cn = counts_in(v, r.len)
        g = s.copy()
        g.fact(z3.And(k >= 0, k < r.len))
        T, C, si = cn[0]
        h = si['hit'](k)
        for case, cn_ in (('listed by the loop', k < C(T)), ('listed after the loop', k >= C(T))):
            gg = g.copy()
            gg.fact(cn_)
            gg.fact(z3.Implies(z3.And(T >= 0, k < C(T)), z3.And(h >= 0, h < T, z3.substitute(si['cond'], (si['params'][0], h)), C(h) == k)))
            a, b = read_elem(v, gg, r, k, [[h], []], '(' + case + ') get_factors', lambda w, fr: [C(fr[0]) == C(fr[0])] if fr else []).e
            v.oblige(gg, z3.And(a * b == n, a >= 1, b >= 1), '(' + case + ') every entry is a factorization of n into positive numbers')
        # completeness
        d, e = v.fresh('d', I), v.fresh('e', I)
        q = z3.Int('q!k')
        h = s.copy()
        h.fact(z3.And(d >= 1, e >= 1, d * e == n))
        h.fact(v.div_axiom(n, d))
        h.fact(radix_lemma(v).at(0, TMOD(n, d), e, TDIV(n, d), d))
        v.oblige(h, z3.And(d <= n, e == tdiv(n, d), tmod(n, d) == 0), 'lemma: a divisor pair', kind='lemma')
        h.fact(z3.And(d <= n))
        h.fact(z3.And(d <= n, e == tdiv(n, d), tmod(n, d) == 0))
        w = C(d - 1)
        x, y = read_elem(v, h, r, w, [[d - 1]], 'a divisor', lambda w_, fr: [C(fr[0]) == C(fr[0])] if fr else []).e
        v.oblige(h, z3.And(w >= 0, w < r.len, x == d, y == e), 'every factorization of n is listed')


def tdiv(a, b):
    return TDIV(a, b)


def tmod(a, b):
    return TMOD(a, b)


def factors_contract(v, st, fn, this, args):
    """contract of get_factors, proved in u_factors"""
    n = args[0]
    if isinstance(n, LV):
        n = v.load(st, n)
    v.oblige(st, n >= 1, 'precondition of get_factors: n >= 1', kind='pre')
    r = v.havoc(ptype('std::vector<std::array<int, 2>>'), 'factors')
    k = z3.Int('k!f')
    A, Bm = r.m
    st.fact(r.len >= 1)
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < r.len), z3.And(A[k] * Bm[k] == n, A[k] >= 1, Bm[k] >= 1)), patterns=[A[k], Bm[k]]))
    st.fact(z3.And(A[0] * Bm[0] == n, A[0] >= 1, Bm[0] >= 1))
    at = v.fresh_fn('position', I, I)
    d, e = z3.Ints('d!f e!f')
    P = z3.Function('factor_pair', I, I, B)
    st.fact(z3.ForAll([d, e], z3.Implies(z3.And(P(d, e), d >= 1, e >= 1, d * e == n), z3.And(at(d) >= 0, at(d) < r.len, A[at(d)] == d, Bm[at(d)] == e)), patterns=[P(d, e)]))
    v.factors = (r, at, P, n)
    return r


def area(a, b):
    return a * b + a + b


def u_procgrid(c):
    fn = c.fn('heffte::make_procgrid')
    v = c.engine()
    v.contracts['heffte::get_factors'] = factors_contract
    st = State()
    n = v.fresh('num_procs', I)
    st.fact(n >= 1)
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [n])
    for s, _ in thr:
        v.oblige(s, z3.BoolVal(False), 'make_procgrid does not throw')
    for s, r in rets:
        a, b = r.e
        v.oblige(s, z3.And(a >= 1, b >= 1, a * b == n), 'the 2-D grid multiplies to the number of ranks')
        d, e = v.fresh('d', I), v.fresh('e', I)
        h = s.copy()
        h.fact(z3.And(d >= 1, e >= 1, d * e == n, v.factors[2](d, e)))
        v.oblige(h, area(a, b) <= area(d, e), 'the 2-D grid has the smallest area (sum of the two factors) of all factorizations')


def u_procgrid2d(c, it='int'):
    fn = c.fn('heffte::make_procgrid2d', targs=[it])
    v = c.engine()
    v.contracts['heffte::get_factors'] = factors_contract
    st = State()
    w = box(v, 'w', 'heffte::box3d<%s>' % it)
    st.fact(box_inv(w))
    st.fact(nonempty(w))
    d = v.fresh('direction', I)
    st.fact(z3.And(d >= 0, d <= 2))
    g = v.havoc(ptype('std::array<int, 2>'), 'grid')
    st.fact(z3.And(g.e[0] >= 1, g.e[1] >= 1))
    # product of positive numbers is positive
    lem = Lemma(v, 'product of positive numbers is positive', z3.Ints('pa pb'), [z3.Int('pa') >= 1, z3.Int('pb') >= 1], z3.Int('pa') * z3.Int('pb') >= 1)
    st.fact(lem.at(*g.e))
    c.live(v, st)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, w)), d, LV(v.newcell(st, g))])
    z = arr(w, 'size')
    o1, o2 = z3.If(d == 0, z[1], z[0]), z3.If(d == 2, z[1], z[2])
    fits = lambda a, b: z3.And(a <= o1, b <= o2)
    n = g.e[0] * g.e[1]
    for s, r in rets:
        x = r.e
        p1, p2 = z3.If(d == 0, x[1], x[0]), z3.If(d == 2, x[1], x[2])
        v.oblige(s, z3.And(*[y >= 1 for y in x]), 'grid factors are positive')
        v.oblige(s, pick(x, d) == 1, 'one rank along the pencil direction')
        v.oblige(s, p1 * p2 == n, 'the grid keeps the number of ranks')
        v.oblige(s, z3.And(*[y <= q for y, q in zip(x, z)]), 'no more ranks than indexes along any dimension')
        v.oblige(s, z3.Implies(fits(*g.e), z3.And(p1 == g.e[0], p2 == g.e[1])), 'the candidate grid is used whenever it fits')
        if hasattr(v, 'factors'):
            a, b = v.fresh('a', I), v.fresh('b', I)
            h = s.copy()
            h.fact(z3.And(a >= 1, b >= 1, a * b == n, fits(a, b), z3.Not(fits(*g.e)), v.factors[2](a, b)))
            v.oblige(h, area(p1, p2) <= area(a, b), 'otherwise the smallest-area admissible grid is used')
    for s, o in thr:
        a, b = v.fresh('a', I), v.fresh('b', I)
        h = s.copy()
        h.fact(z3.And(a >= 1, b >= 1, a * b == n))
        if hasattr(v, 'factors'):
            h.fact(v.factors[2](a, b))
        v.oblige(h, z3.Not(fits(a, b)), 'fails only if no factorization fits')


def u_min_surface(c, it='int'):
    fn = c.fn('heffte::proc_setup_min_surface', targs=[it])
    v = c.engine()
    st = State()
    w = box(v, 'w', 'heffte::box3d<%s>' % it)
    st.fact(box_inv(w))
    st.fact(nonempty(w))
    n = v.fresh('num_procs', I)
    st.fact(n >= 1)
    z = arr(w, 'size')
    c.live(v, st)
    mx = 2 ** 31 - 1 if it == 'int' else 2 ** 63 - 1
    surf = lambda a, b, k: TDIV(z[0], a) * TDIV(z[1], b) + TDIV(z[1], b) * TDIV(z[2], k) + TDIV(z[2], k) * TDIV(z[0], a)
    rad = radix_lemma(v)
    pos = Lemma(v, 'product of positive numbers is at least each factor', z3.Ints('pa pb'), [z3.Int('pa') >= 1, z3.Int('pb') >= 1], z3.And(z3.Int('pa') * z3.Int('pb') >= z3.Int('pb'), z3.Int('pa') * z3.Int('pb') >= z3.Int('pa')))

    def divisors(h, a, b, k):
        """n = a b k: what the divisions of the code see (instances of the definition of division and of the lemmas)"""
        f = [v.div_axiom(n, a), v.div_axiom(TDIV(n, a), b), v.div_axiom(n, a * b), pos.at(a, b), pos.at(b, k), pos.at(a, b * k),
             rad.at(0, TMOD(n, a), b * k, TDIV(n, a), a), rad.at(0, TMOD(TDIV(n, a), b), k, TDIV(TDIV(n, a), b), b), rad.at(0, TMOD(n, a * b), k, TDIV(n, a * b), a * b)]
        g = h.copy()
        for x in f:
            g.fact(x)
        goal = z3.And(TDIV(n, a) == b * k, TMOD(n, a) == 0, TMOD(TDIV(n, a), b) == 0, TDIV(n, a * b) == k, b <= TDIV(n, a), a <= n)
        bare = State()
        for x in f + [a >= 1, b >= 1, k >= 1, a * b * k == n, n >= 1]:
            bare.fact(x)
        v.oblige(bare, goal, 'lemma: divisions of a product', kind='lemma', where='lemma')
        h.fact(goal)
    rets, thr = c.run(v, st, fn, None, [LV(v.newcell(st, w)), n])
    adm = lambda a, b, k: z3.And(a >= 1, b >= 1, k >= 1, a * b * k == n, a <= z[0], b <= z[1], k <= z[2])
    for s, r in rets:
        x = r.e
        v.oblige(s, x[0] * x[1] * x[2] == n, 'the 3-D grid uses every rank')
        v.oblige(s, z3.And(*[y >= 1 for y in x]), 'the 3-D grid has positive factors')
        v.oblige(s, z3.And(*[y <= q for y, q in zip(x, z)]), 'the 3-D grid fits the world')
        a, b, k = [v.fresh(q, I) for q in 'abk']
        h = s.copy()
        h.fact(adm(a, b, k))
        divisors(h, a, b, k)
        v.oblige(h, surf(*x) <= surf(a, b, k), 'no admissible grid has a smaller surface', hints=[simp(a - 1), simp(b - 1)])
    for s, o in thr:
        a, b, k = [v.fresh(q, I) for q in 'abk']
        h = s.copy()
        h.fact(z3.And(adm(a, b, k), surf(a, b, k) < mx))
        divisors(h, a, b, k)
        # the minimum the loops have seen bounds the surface of the admissible grid; then it is attained by a candidate
        for best in folds(v, h):
            g = h.copy()
            v.oblige(g, best <= surf(a, b, k), 'the search has seen every admissible grid', hints=[simp(a - 1), simp(b - 1)])
            h.fact(best <= surf(a, b, k))
            g = s.copy()
            v.oblige(g, best >= mx, 'no candidate was accepted')
            h.fact(best >= mx)
        v.oblige(h, z3.BoolVal(False), 'fails only if no admissible grid exists', hints=[simp(a - 1), simp(b - 1)])


def folds(v, st):
    """ground results of the minimum searches that the path condition of st talks about"""
    by = {}
    for n, i in [(n, v.sym(n)) for n in list(v.syminfo)]:
        if i and i.get('kind') == 'fold':
            by.setdefault(i['arg'].name(), n)  # copies lifted into an outer loop come later
    res, seen, todo = {}, set(), [f for f in st.facts() if not z3.is_quantifier(f)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().name() in by:
                f = z3.Function(by[x.decl().name()], I, I)(x.arg(0))
                res[f.sexpr()] = f
            todo += x.children()
    return list(res.values())


UNITS = [
    Unit('get_factors', u_factors),
    Unit('make_procgrid', u_procgrid),
    Unit('make_procgrid2d<int>', u_procgrid2d),
    Unit('make_procgrid2d<long long>', lambda c: u_procgrid2d(c, 'long long')),
    Unit('proc_setup_min_surface<int>', u_min_surface),
]
