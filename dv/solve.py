"""Discharging obligations: in-process z3 first, then a pool of z3 / cvc5 processes on SMT-LIB text."""
import os, subprocess, tempfile, time, threading, queue
from concurrent.futures import ThreadPoolExecutor
import z3
from .loops import uninterp

Z3BIN = 'z3-new'
CVC5 = 'cvc5'


def relevant(hyps, goal, hops=3, skip=frozenset(('tdiv', 'tmod', 'sqrt'))):
    """hypotheses connected to the goal by shared symbols (dropping hypotheses is sound)"""
    syms = set(uninterp(goal)) - skip
    if not syms:
        return list(hyps)
    hs = [(h, set(uninterp(h)) - skip) for h in hyps]
    used = [False] * len(hs)
    for _ in range(hops):
        new = set()
        for i, (h, s) in enumerate(hs):
            if not used[i] and (s & syms or not s):
                used[i] = True
                new |= s
        if not new - syms:
            break
        syms |= new
    return [h for (h, _), u in zip(hs, used) if u]


def _apps(e, out, seen, inq=0):
    """ground applications of uninterpreted symbols and selects (terms under quantifiers only if closed)"""
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if x.num_args() and (k == z3.Z3_OP_UNINTERPRETED or k == z3.Z3_OP_SELECT) and _closed(x):
                out.setdefault(_key(x), {})[x.get_id()] = x
            todo += x.children()


def _key(x):
    return x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else 'select ' + (x.arg(0).decl().name() if z3.is_app(x.arg(0)) else '?')


_cl = {}


def _closed(x):
    r = _cl.get(x.get_id())
    if r is not None and r[0].eq(x):
        return r[1]
    if z3.is_var(x):
        v = False
    elif z3.is_quantifier(x):
        v = False
    else:
        v = all(_closed(c) for c in x.children())
    _cl[x.get_id()] = (x, v)
    return v


def _patterns(q):
    """applications in the body of q whose arguments are bound variables (or closed terms) and cover all variables"""
    n = q.num_vars()
    pats, parts, seen, todo = [], [], set(), [q.body()]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if x.num_args() and (k == z3.Z3_OP_UNINTERPRETED or k == z3.Z3_OP_SELECT) and x.decl().name() not in ('tdiv', 'tmod'):
                vs = set()
                ok = True
                for a in x.children():
                    if z3.is_var(a):
                        vs.add(z3.get_var_index(a))
                    elif not _closed(a):
                        ok = False
                if ok and len(vs) == n:
                    pats.append(x)
                elif ok and vs:
                    parts.append((x, vs))
            todo += x.children()
    return pats, parts


def ground(hyps, goal, hints=(), rounds=4, cap=600):
    """the quantifier-free hypotheses plus instances of the quantified ones found by syntactic matching (dropping
    the rest is sound)"""
    qs, gs = [], []
    todo = list(hyps)
    while todo:
        h = todo.pop(0)
        if z3.is_quantifier(h):
            if h.is_forall():
                qs.append((h,) + _patterns(h))
        elif z3.is_and(h):
            todo += h.children()
        else:
            gs.append(h)
    apps, seen = {}, set()
    for e in gs + [goal] + list(hints):
        _apps(e, apps, seen)
    done = set()
    n = 0

    def add(q, vals):
        nonlocal n
        k = (q.get_id(), tuple(v.get_id() for v in vals))
        if k in done or n >= cap:
            return None
        done.add(k)
        n += 1
        # bound variable i (de Bruijn) is substituted by vals in declaration order reversed
        return z3.simplify(z3.substitute_vars(q.body(), *reversed(vals)), som=False) if False else z3.substitute_vars(q.body(), *reversed(vals))

    def match(p, t, nv):
        m = {}
        for a, b in zip(p.children(), t.children()):
            if z3.is_var(a):
                i = z3.get_var_index(a)
                if i in m and not m[i].eq(b):
                    return None
                if a.sort() != b.sort():
                    return None
                m[i] = b
            elif not a.eq(b):
                return None
        return m
    for rd in range(rounds):
        new = []
        extra = []
        for q, pats, parts in qs:
            nv = q.num_vars()
            for p in pats:
                for t in list(apps.get(_key(p), {}).values()):
                    m = match(p, t, nv)
                    if m is not None and len(m) == nv:
                        r = add(q, [m[nv - 1 - i] for i in range(nv)])
                        if r is not None:
                            new.append(r)
            if not pats and parts and nv <= 3:
                # two partial patterns
                for i1 in range(len(parts)):
                    for i2 in range(i1 + 1, len(parts)):
                        if len(parts[i1][1] | parts[i2][1]) < nv:
                            continue
                        for t1 in list(apps.get(_key(parts[i1][0]), {}).values())[:12]:
                            m1 = match(parts[i1][0], t1, nv)
                            if m1 is None:
                                continue
                            for t2 in list(apps.get(_key(parts[i2][0]), {}).values())[:12]:
                                m2 = match(parts[i2][0], t2, nv)
                                if m2 is None or any(k in m1 and not m1[k].eq(m2[k]) for k in m2):
                                    continue
                                m = dict(m1)
                                m.update(m2)
                                if len(m) == nv:
                                    r = add(q, [m[nv - 1 - i] for i in range(nv)])
                                    if r is not None:
                                        new.append(r)
            if not pats and rd < 2 and hints and nv <= 3:
                hs = [h for h in hints if h.sort() == z3.IntSort()]
                import itertools
                if len(hs) ** nv <= 64:
                    for c in itertools.product(hs, repeat=nv):
                        if all(q.var_sort(i) == c[i].sort() for i in range(nv)):
                            r = add(q, list(c))
                            if r is not None:
                                new.append(r)
        if not new:
            break
        for r in new:
            st = [r]
            while st:
                x = st.pop()
                if z3.is_and(x):
                    st += x.children()
                elif z3.is_quantifier(x):
                    if x.is_forall():
                        qs.append((x,) + _patterns(x))
                elif z3.is_implies(x) and z3.is_quantifier(x.arg(1)) and x.arg(1).is_forall():
                    # guard => forall: push the guard inside
                    q = x.arg(1)
                    vs = [z3.FreshConst(q.var_sort(i), 'gv') for i in range(q.num_vars())]
                    body = z3.substitute_vars(q.body(), *reversed(vs))
                    qq = z3.ForAll(vs, z3.Implies(x.arg(0), body))
                    qs.append((qq,) + _patterns(qq))
                else:
                    gs.append(x)
                    _apps(x, apps, seen)
    return gs


def linear(exprs):
    """every non-linear product becomes an application of an uninterpreted function (sound: any model of the
    original is a model of the abstraction)"""
    fs = {}
    cache = {}
    depth = [0]

    def go(x):
        r = cache.get(x.get_id())
        if r is not None:
            return r[1]
        if not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_MUL:
                k, vs = [], []
                for c in ch:
                    (k if z3.is_int_value(c) or z3.is_rational_value(c) else vs).append(c)
                ite = [i for i, t in enumerate(vs) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE]
                if len(vs) > 1 and ite and depth[0] < 6:
                    # products with a conditional factor: distribute
                    i = ite[0]
                    c0 = vs[i].arg(0)

                    def pick(t, br):
                        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).eq(c0):
                            t = t.arg(br)
                        return t
                    depth[0] += 1
                    mk = lambda br: go(z3.simplify(z3.Product(*(k + [pick(t, br) for t in vs])), som=True))
                    r = z3.If(c0, mk(1), mk(2))
                    depth[0] -= 1
                elif len(vs) > 1:
                    vs.sort(key=lambda t: t.get_id())
                    key = (len(vs), str(vs[0].sort()))
                    f = fs.setdefault(key, z3.Function('nl_%d_%s' % key, *([vs[0].sort()] * (len(vs) + 1))))
                    t = f(*vs)
                    for c in k:
                        t = c * t
                    r = t
                else:
                    r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
            else:
                r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else (x.decl()(*ch) if not z3.is_and(x) and not z3.is_or(x) else (z3.And(*ch) if z3.is_and(x) else z3.Or(*ch)))
        cache[x.get_id()] = (x, r)
        return r
    return [go(z3.simplify(e, som=True, arith_lhs=False)) for e in exprs]


def has_q(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def smt2(hyps, goal, logic=None):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def run_cmd(cmd, text, timeout):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(text)
    f.close()
    t = time.time()
    try:
        p = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(f.name)
    return out, time.time() - t


def attempt(o, quick_ms):
    s = z3.Solver()
    s.set('timeout', quick_ms)
    for h in o.hyps:
        s.add(h)
    s.add(z3.Not(o.goal))
    t = time.time()
    r = s.check()
    o.time += time.time() - t
    return r, s


def discharge(obls, quick_ms=1500, timeout=40, workers=6, want_model=True, budget=None):
    """sets o.status in {proved, refuted, unknown}"""
    t0 = time.time()
    left = []
    for o in obls:
        if o.status == 'proved':
            continue
        if z3.is_true(o.goal):
            o.status, o.solver = 'proved', 'simplifier'
            continue
        eng = getattr(o, 'defs', None)
        if eng is not None:
            o.hyps = o.hyps + eng.closure_defs([o.goal] + o.hyps) if False else o.hyps
            base = relevant(o.hyps, o.goal)
            dfs = eng.closure_defs([o.goal] + base)
            dfs += eng.sum_steps([o.goal] + base + dfs)
            dfs += eng.div_closure([o.goal] + base + dfs)
            rel = base + dfs
            o.hyps = o.hyps + dfs
        else:
            rel = relevant(o.hyps, o.goal)
        full = o.hyps
        o.hyps = rel
        r, s = attempt(o, quick_ms)
        o.hyps = full
        if r == z3.unsat:
            o.status, o.solver = 'proved', 'z3'
            continue
        # then the quantifier-free hypotheses only, with products as opaque terms (most path conditions need no more)
        qf = [h for h in rel if not has_q(h)]
        if len(qf) < len(rel):
            try:
                la = linear(qf + [o.goal]) if not has_q(o.goal) else None
            except z3.Z3Exception:
                la = None
            if la is not None:
                sv = z3.Solver()
                sv.set('timeout', 400)
                for g in la[:-1]:
                    sv.add(g)
                sv.add(z3.Not(la[-1]))
                t = time.time()
                r = sv.check()
                o.time += time.time() - t
                if r == z3.unsat:
                    o.status, o.solver = 'proved', 'z3'
                    continue
        if any(z3.is_quantifier(h) for h in rel) or getattr(o, 'hints', None):
            # quantifier-free attempt on matched instances
            gq = ground(rel, o.goal, getattr(o, 'hints', None) or ())
            gq = [g for g in gq if not has_q(g)]
            g0 = list(gq)
            if eng is not None:
                gq += [f for f in eng.div_closure([o.goal] + gq) if not has_q(f)]
            for gs in (g0, gq):
                try:
                    la = linear(gs + [o.goal])
                    sv = z3.Solver()
                    sv.set('timeout', quick_ms)
                    for g in la[:-1]:
                        sv.add(g)
                    sv.add(z3.Not(la[-1]))
                    t = time.time()
                    r = sv.check()
                    o.time += time.time() - t
                    if r == z3.unsat:
                        break
                except z3.Z3Exception:
                    pass
            if r == z3.unsat:
                o.status, o.solver = 'proved', 'z3'
                continue
            nia = lambda: z3.Tactic('qfnia').solver()
            for mk, ms, gs in ((nia, quick_ms, g0), (nia, quick_ms, gq), (z3.Solver, 3 * quick_ms, gq)):
                try:
                    sv = mk()
                    sv.set('timeout', ms)
                    for g in gs:
                        sv.add(g)
                    sv.add(z3.Not(o.goal))
                    t = time.time()
                    r = sv.check()
                    o.time += time.time() - t
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    break
            if r == z3.unsat:
                o.status, o.solver = 'proved', 'z3'
                continue
            o.gq = gq
        left.append((o, rel))
    if not left:
        return

    def work(a):
        o, rel, texts = a
        stages = []
        if getattr(o, 'gq', None):
            tq = texts[2]
            stages += [([Z3BIN, '-T:%d' % timeout], tq, 'z3'), ([CVC5, '--tlimit=%d' % (timeout * 1000)], tq, 'cvc5')]
        stages += [([Z3BIN, '-T:%d' % timeout], texts[0], 'z3'), ([CVC5, '--tlimit=%d' % (timeout * 1000)], texts[0], 'cvc5')]
        if texts[1] != texts[0]:
            stages.append(([Z3BIN, '-T:%d' % timeout], texts[1], 'z3'))
        stages.append(([Z3BIN, '-T:%d' % timeout, 'smt.random_seed=7', 'smt.arith.solver=2'], texts[1], 'z3'))
        sat = False
        for cmd, tx, nm in stages:
            if budget and time.time() - t0 > budget:
                break
            out, dt = run_cmd(cmd, tx, timeout)
            o.time += dt
            if out == 'unsat':
                o.status, o.solver = 'proved', nm
                return
            if out == 'sat' and tx is texts[1]:
                sat = True
                break
        o.status = 'refuted' if sat else 'unknown'
    jobs = [(o, rel, (smt2(rel, o.goal), smt2(o.hyps, o.goal), smt2(o.gq, o.goal) if getattr(o, 'gq', None) else None)) for o, rel in left]
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, jobs))
    if want_model:
        for o, rel in left:
            if o.status == 'refuted':
                r, s = attempt(o, 10000)
                if r == z3.sat:
                    o.model = s.model()
