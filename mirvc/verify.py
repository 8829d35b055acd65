"""Contracts, proof obligations and their discharge. One Spec = one function of the crate with its contract."""
import json, os, re, subprocess, sys, tempfile, time, traceback
from z3 import *
from sym import *
import exec as EX
from exec import Exec, State, conj, short, bound_vars
from mir import base_ty, norm_ty, split_top

SPECS = []            # in registration order


class Spec:
    """fn: canonical key of the function; pre/post: python functions producing formulas over the symbolic arguments and the result.
    post(X, r, *args) -> [(clause name, formula)].   For &mut parameters the argument is a cell: old value in X.old[i], new value through X.new(i)."""

    def __init__(self, prop, fn, pre=None, post=None, split=False, subst=None, contracts=(), types=None, invariants=None, timeout=20, name=None, body=None, replay=None, gen=None, lemma=None, note=None,
                 opaque=(), overflow=False, crate='jagua', use=None, ret=None):
        self.__dict__.update(locals()); del self.__dict__['self']
        self.props = prop if isinstance(prop, (list, tuple)) else [prop]
        self.id = name or fn
        SPECS.append(self)


class Contract:
    """contract used at call sites instead of the body"""

    def __init__(self, key, post=None, pre=None, ret=None, uf=True, modifies=(), assumed=False, name=None):
        self.key, self.post, self.pre, self.ret, self.uf, self.modifies, self.assumed = key, post, pre, ret, uf, modifies, assumed

    def apply(self, X, args, st, dty):
        vals = [X.deref_all(st, a) for a in args]
        if self.pre:
            for i, f in enumerate(self.pre(X, *vals)): X.obl(f'precondition[{i}] of {self.key}', st, f)
        s = st
        news = {}
        if self.modifies:
            s = st.copy()
            for k in self.modifies:
                r = args[k]
                if not isinstance(r, Ref): raise Unsupported(f'{self.key}: argument {k} is not a mutable reference')
                nv = X.sym(X.ty_of(vals[k]), f'{self.key}.arg{k}')
                X.write(s, r.cell, r.path, nv); news[k] = nv
        rty = self.ret or dty
        if rty is None or X.strip(rty) == '()' : r = Agg('()', [])
        elif rty.startswith('&mut') and self.modifies: r = args[self.modifies[0]]
        elif self.uf and not self.modifies:
            sc = flatten(X, vals)
            srt = [e.sort() for e in sc]
            r = X.mk(rty, (lambda so, p: Function(f'{p}', *srt, so)(*sc)) if sc else (lambda so, p: Const(p, so)), f'{self.key}')
        else: r = X.sym(rty, self.key)
        if self.post:
            save = (getattr(X, 'old', None), getattr(X, 'new', None))
            if self.modifies: X.old, X.new = {k: vals[k] for k in self.modifies}, (lambda k: news[k])
            try: posts = list(self.post(X, r, *vals))
            finally: X.old, X.new = save
            for f in posts:
                if isinstance(f, tuple): f = f[1]
                if self.modifies or not (X.binders or X.lazy): s = s.assume(f)
                else: X.fact(Implies(conj(X.beyond(st.pc)), f))
        return [(r, s)]


def flatten(X, v):
    """z3 expressions making up a value"""
    if isinstance(v, (list, tuple)): return [e for x in v for e in flatten(X, x)]
    if is_scalar(v): return [v]
    if isinstance(v, Agg):
        out = [IntVal(v.variant[0])] if v.variant else []
        if v.ty.startswith('closure@'): raise Unsupported('closure as an argument of a contract')
        return out + [e for x in v.fields for e in flatten(X, x)]
    if isinstance(v, Obj): return [X.to_obj(v).term]
    if isinstance(v, Ite):
        t = X.ty_of(v)
        return [X.to_obj(v).term] if not X.is_value(t) else [If(v.c, a, b) for a, b in zip(flatten(X, v.a), flatten(X, v.b))]
    if isinstance(v, (FnItem, Undef)): return []
    if isinstance(v, It): raise Unsupported('iterator as an argument of a contract')
    raise Unsupported(f'flatten {v!r}')


def from_spec(s, modifies=()):
    """the contract a caller may use: the spec's precondition, and those postconditions that mention no auxiliary variable"""
    def post(X, r, *vals):
        if s.use: return s.use(X, r, *vals)
        return [f for n, f in s.post(X, r, *vals) if not aux(f)]
    return Contract(s.fn, post=post, pre=(lambda X, *v: formulas(s.pre(X, *v))) if s.pre else None, modifies=modifies)


def is_mut(t): return t.strip().startswith('&mut') or (t.strip().startswith("&'") and ' mut ' in t.split('<')[0])


def aux(f):
    seen, work = set(), [f]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if is_quantifier(x): work.append(x.body()); continue
        if is_app(x):
            if x.num_args() == 0 and x.decl().kind() == Z3_OP_UNINTERPRETED and (x.decl().name().startswith('any_') or x.decl().name() in ('d', 'm')): return True
            work += x.children()
    return False


def pure(X, key, *vals):
    """the result of a contracted function, for use in specifications"""
    c = X.contracts[key]
    pre, c.pre = c.pre, None
    g = conj(formulas(pre(X, *vals))) if pre else BoolVal(True)
    try: r, s = c.apply(X, list(vals), State().assume(g), c.ret)[0]
    finally: c.pre = pre
    for f in s.pc[1:]: X.fact(Implies(g, f))
    return r


def find_fn(crate, key):
    X = Exec(crate)
    f, _ = X.lookup(key, key)
    return f


class Result:
    def __init__(self, spec): self.spec, self.obls, self.error, self.used, self.time, self.inputs = spec, [], None, {}, 0.0, None


def formulas(items): return [x[1] if isinstance(x, tuple) else x for x in items]


def generate(crate, spec, table):
    """-> (Exec, [(name, hypotheses, goal)], inputs, outcome info)"""
    f = find_fn(crate, spec.fn)
    if f is None: raise Unsupported(f'function {spec.fn} not found (renamed or removed)')
    cts = {}
    for k in spec.contracts:
        if isinstance(k, Contract): cts[k.key] = k; continue
        c = next((s for s in SPECS if s.fn == k and s.post), None)
        if c is None: raise Unsupported(f'no contract for {k}')
        g = find_fn(crate, k)
        cts[k] = from_spec(c, tuple(i for i, (_, t) in enumerate(g.params) if is_mut(t)) if g is not None else ())
        if g is not None: cts[k].ret = g.ret
    X = Exec(crate, contracts=cts, subst=spec.subst or {}, invariants=spec.invariants or {}, split=spec.split, overflow=spec.overflow)
    st = State()
    args, vals, inputs = [], [], []
    X.old = {}
    for i, (l, t) in enumerate(f.params):
        nm = next((n for n, p in f.debug if p == l), f'arg{i}')
        ty = (spec.types or {}).get(i, t)
        v = X.sym_named(ty, nm)
        inputs.append((nm, ty, v))
        vals.append(v)
        if is_mut(t):
            cell = ('arg', i); st.store[cell] = v; X.old[i] = v; args.append(Ref(cell, ()))
        else: args.append(v)
    X.inputs = vals
    pre = formulas(spec.pre(X, *vals)) if spec.pre else []
    for p in pre: st = st.assume(p)
    X.base_pc = st.pc
    outs = X.run(f, args, st)
    goals = []
    for k, (r, s) in enumerate(outs):
        X.state = s
        X.new = lambda i, s=s: X.deref_all(s, args[i])
        r2 = X.deref_all(s, r)
        for name, g in (spec.post(X, r2, *vals) if spec.post else []):
            goals.append((name, s.pc, g, r2))
    for name, pc, g in X.obls: goals.append((name, pc, g, None))
    X.fn = f
    return X, goals, inputs, pre, outs


def has_quant_or_uf(es):
    seen, work, q, uf = set(), list(es), False, False
    while work:
        e = work.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if is_quantifier(e): q = True; work.append(e.body()); continue
        if is_app(e):
            if e.num_args() and e.decl().kind() == Z3_OP_UNINTERPRETED: uf = True
            work += e.children()
    return q, uf


class Facts:
    """the background facts, indexed by the constants they mention"""

    def __init__(self, X, inputs_pre):
        self.all = list(X.facts); self.memo = {}; self.weak = [f.get_id() in X.weak for f in self.all]
        self.inp = set()
        for e in inputs_pre: self.inp |= self.consts(e)
        self.cs = [self.consts(f) for f in self.all]

    def consts(self, e):
        k = e.get_id()
        if k in self.memo: return self.memo[k][1]
        out, seen, work = set(), set(), [e]
        while work:
            x = work.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if is_quantifier(x): work.append(x.body()); continue
            if is_app(x):
                if x.num_args() == 0 and x.decl().kind() == Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                work += x.children()
        self.memo[k] = (e, out)
        return out

    def near(self, seed):
        """facts reached from the seed through constants that are not inputs of the function (a smaller, still sound set of hypotheses)"""
        cur = set()
        for e in seed: cur |= self.consts(e)
        used = [False] * len(self.all); ch = True
        while ch:
            ch = False
            for i, c in enumerate(self.cs):
                if used[i] or self.weak[i]: continue
                loc = c - self.inp
                if not loc or loc & cur: used[i] = True; cur |= c; ch = True
        return [f for f, u in zip(self.all, used) if u]


def prove(F, pc, g, timeout):
    """-> status, model or reason, seconds, hypotheses used"""
    t0 = time.time()
    if any(g.eq(h) for h in pc): return 'proved', None, 0.0, list(pc)
    sg = simplify(g)
    if is_true(sg) or any(is_false(simplify(h)) for h in pc if not is_quantifier(h)): return 'proved', None, time.time() - t0, list(pc)
    cs = cases(g)
    if len(cs) > 1:                          # one obligation per path that leads to the answer
        rs = [prove(F, list(pc) + [c], h, timeout / 2) for c, h in cs]
        if all(r[0] == 'proved' for r in rs): return 'proved', None, time.time() - t0, F.all + list(pc)
    near = F.near(list(pc) + [g])
    if len(near) < len(F.all) * 0.9 or any(F.weak):
        hy = near + list(pc)
        st, info, dt = solve(hy, g, timeout * 0.6)
        if st == 'proved': return st, info, time.time() - t0, hy
    ls = last_split(g)
    if ls and all(prove(F, list(pc) + [c], h, timeout / 2)[0] == 'proved' for c, h in ls): return 'proved', None, time.time() - t0, F.all + list(pc)
    hy = F.all + list(pc)
    st, info, dt = solve(hy, g, timeout)
    return st, info, time.time() - t0, hy


def last_split(g):
    """a goal about all positions below a length as the last position and those before (as after a push)"""
    if not (is_quantifier(g) and g.is_forall() and g.num_vars() == 1 and g.var_sort(0) == IntSort() and is_implies(g.body())): return None
    k = FreshInt('at'); b = substitute_vars(g.body(), k); h = b.arg(0)
    for c in (h.children() if is_and(h) else [h]):
        if is_app(c) and c.decl().kind() == Z3_OP_LT and c.arg(0).eq(k) and not contains(c.arg(1), k): return [(k == c.arg(1) - 1, substitute(b, (k, c.arg(1) - 1))), (k < c.arg(1) - 1, b)]
    return None


def contains(e, k): return e.eq(k) or any(contains(c, k) for c in e.children())


def cases(g, most=8):
    """a goal If(c, a, b) => h as the cases c, a => h and not c, b => h"""
    if not (is_implies(g) and has_quant_or_uf([g])[0]): return []
    out, work = [], [([], g.arg(0))]
    while work:
        cond, a = work.pop()
        if is_app(a) and a.decl().kind() == Z3_OP_ITE: work += [(cond + [a.arg(0)], a.arg(1)), (cond + [Not(a.arg(0))], a.arg(2))]
        elif not is_false(a): out.append((And(*cond, a) if cond else a, g.arg(1)))
        if len(out) + len(work) > most: return []
    return out


def solve(hyps, goal, timeout, want_model=True):
    """-> ('proved'|'refuted'|'unknown', model or reason, seconds)"""
    t0 = time.time()
    neg = Not(goal)
    hs = relevant(hyps, [neg] + [h for h in hyps if False]) if False else list(hyps)
    q, uf = has_quant_or_uf(hs + [neg])
    raw = (hs, neg)
    if uf and not q and not has_term(hs + [neg]):
        hs2 = ackermann(hs + [neg]); hs, neg = hs2[:-1], hs2[-1]
        uf = False
    tries = []
    if not q and not uf:
        tries = [('old', 0.1), ('QF_NRA', 0.4), (None, 0.5)] if has_int(hs + [neg]) else [('QF_NRA', 0.5), (None, 0.5)]
    else: tries = [('ematch', 0.1), ('old', 0.05), (None, 0.55), ('seed', 0.3)] if q else [('old', 0.1), (None, 0.6), ('seed', 0.3)]
    reason = ''
    for lg, frac in tries:
        if lg == 'QF_NRA': s = Tactic('qfnra-nlsat').solver() if not has_int(hs + [neg]) else SolverFor('QF_NIRA')
        elif lg in ('seed', 'ematch'):
            s = Solver(); s.set('random_seed', 7 if lg == 'seed' else 0); s.set('smt.mbqi', False); s.set('auto_config', False)
        else:
            s = Solver()
            if lg == 'old': s.set('smt.arith.solver', 2)
        s.set('timeout', int(timeout * 1000 * frac))
        s.add(*(raw[0] if lg == 'old' else hs)); s.add(raw[1] if lg == 'old' else neg)
        try: r = s.check()
        except Z3Exception as e: reason = str(e); continue
        if r == unsat: return 'proved', None, time.time() - t0
        if r == sat: return 'refuted', s.model(), time.time() - t0
        reason = s.reason_unknown()
    return 'unknown', reason, time.time() - t0


def has_term(es):
    seen, work = set(), list(es)
    while work:
        e = work.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if e.sort() == Term and e.num_args() == 0 and False: return True
        work += e.children()
    return False


def ackermann(es):
    """replace applications of uninterpreted functions by constants, with the congruence instances (quantifier-free input)"""
    apps = {}
    seen, work = set(), list(es)
    while work:
        e = work.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if is_app(e) and e.num_args() and e.decl().kind() == Z3_OP_UNINTERPRETED: apps[e.get_id()] = e
        work += e.children()
    if len(apps) > 60: return es
    order = sorted(apps.values(), key=lambda e: len(str(e)), reverse=False)
    sub, cons, done = [], [], []
    for e in order:                                # inner applications first
        c = Const(f'ack!{e.get_id()}', e.sort())
        args = [substitute(a, *sub) if sub else a for a in e.children()]
        for f, a2, c2 in done:
            if f.eq(e.decl()): cons.append(Implies(And(*[x == y for x, y in zip(args, a2)]), c == c2))
        done.append((e.decl(), args, c))
        e2 = e.decl()(*args)
        sub.append((e, c))
        if not e2.eq(e): sub.append((e2, c))
    out = []
    for e in es:
        for a, c in reversed(sub): e = substitute(e, (a, c)) if False else e
        out.append(substitute_all(e, apps, {e0.get_id(): c for e0, (_, _, c) in zip(order, done)}))
    return cons + out


def substitute_all(e, apps, cmap):
    memo = {}
    def go(x):
        k = x.get_id()
        if k in memo: return memo[k]
        if k in cmap: r = cmap[k]
        elif x.num_args() == 0: r = x
        else:
            ch = [go(c) for c in x.children()]
            r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
        memo[k] = r
        return r
    return go(e)


def has_int(es):
    seen, work = set(), list(es)
    while work:
        e = work.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if e.sort() == IntSort() and not is_int_value(e): return True
        work += e.children() if not is_quantifier(e) else [e.body()]
    return False


def mval(m, e):
    v = m.eval(e, model_completion=True)
    if is_int_value(v): return v.as_long()
    if is_rational_value(v): return float(v.as_fraction())
    if is_algebraic_value(v): return float(v.approx(12).as_fraction())
    if is_true(v): return True
    if is_false(v): return False
    return str(v)


def concretise(X, m, v):
    if is_scalar(v): return mval(m, v)
    if isinstance(v, Agg): return [concretise(X, m, x) for x in v.fields]
    return str(v)


def safe_flatten(X, v):
    try: return flatten(X, v)
    except Unsupported: return []


def in_parallel(one, n, pool):
    """results of one(0..n-1), computed by forked workers that share the pool's tokens"""
    if pool is None or n < 4: return [one(k) for k in range(n)]
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    w = min(pool.size, (n + 1) // 2)
    nxt = ctx.Value('i', 0); pipes = []
    def run(tx):
        out = {}
        while True:
            with nxt.get_lock():
                k = nxt.value; nxt.value += 1
            if k >= n: break
            pool.take()
            try: out[k] = one(k)
            finally: pool.give()
        tx.send(json.dumps(out, default=str)); tx.close()
    ps = []
    pool.give()                              # the generating process only waits from here on
    try:
        for _ in range(w):
            rx, tx = ctx.Pipe(False); p = ctx.Process(target=run, args=(tx,)); p.start(); tx.close(); ps.append((p, rx))
        out = {}
        for p, rx in ps:
            try: out.update({int(k): v for k, v in json.loads(rx.recv()).items()})
            except EOFError: pass
            p.join()
    finally: pool.take()
    return [out.get(k, {'name': f'obligation {k}', 'status': 'unknown', 'time': 0, 'reason': 'worker died'}) for k in range(n)]


def may_replay(pool): return pool is None or pool.replays.value < 6        # until a replay confirms, a few attempts


class Pool:
    """tokens shared by all processes; `held` counts those of one spec, so that they can be given back when its processes are killed"""

    def __init__(self, size, sem=None):
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        self.size, self.sem, self.held, self.replays, self.fails, self.until = size, sem or ctx.Semaphore(size), ctx.Value('i', 0), ctx.Value('i', 0), ctx.Value('i', 0), None

    def child(self): return Pool(self.size, self.sem)

    def take(self):
        self.sem.acquire()
        with self.held.get_lock(): self.held.value += 1

    def give(self):
        with self.held.get_lock(): self.held.value -= 1
        self.sem.release()


SHAPES = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shapes.json')


def reshaped(spec, X):
    """the loops (and consumers of iterators) at which invariants were used, where they differ from those the invariants were written for: invariants are
    attached by position, so then they say nothing about the code any more"""
    if not spec.invariants or not os.path.exists(SHAPES): return []
    ref = json.load(open(SHAPES)).get(spec.id)
    return [] if ref is None else sorted(set(ref) ^ X.inv_sites)


def check(crate, spec, table, budget=None, confirm=None, cross=None, pool=None):
    res = Result(spec)
    t0 = time.time()
    try:
        X, goals, inputs, pre, outs = generate(crate, spec, table)
    except Unsupported as e:
        res.error = f'unsupported: {e}'; res.time = time.time() - t0; return res
    except (KeyError, ValueError, IndexError, TypeError, AttributeError, Z3Exception, RecursionError) as e:
        res.error = f'unsupported: engine: {type(e).__name__}: {e} @ {traceback.format_exc().strip().splitlines()[-3].strip()}'; res.time = time.time() - t0; return res
    if not goals:
        res.error = 'no obligations generated'; return res
    res.used = {k: sorted(v) for k, v in X.used.items()}; res.reshaped = reshaped(spec, X)
    # vacuity: the preconditions are satisfiable
    s = Solver(); s.set('timeout', 5000); s.add(*pre)
    res.vacuous = s.check() == unsat
    if spec.lemma: X.facts += formulas(spec.lemma(X, *[v for _, _, v in inputs]))
    F = Facts(X, [e for _, _, v in inputs for e in safe_flatten(X, v)])
    todo = [(sub, pc, gg, r) for name, pc, g, r in goals for sub, gg in split_goal(name, g)]

    def one(k):
        name, pc, gg, r = todo[k]
        if pool and (pool.fails.value >= 6 or pool.until and time.time() > pool.until): return {'name': name, 'status': 'skipped', 'time': 0.0, 'reason': 'enough failures' if pool.fails.value >= 6 else 'out of time'}
        st, info, dt, hyps = prove(F, pc, gg, spec.timeout)
        if pool and st != 'proved':
            with pool.fails.get_lock(): pool.fails.value += 1
        o = {'name': name, 'status': st, 'time': round(dt, 3)}
        if cross and st == 'proved': o['cross'] = cross(hyps, gg)
        if st == 'refuted':
            o['input'] = {nm: concretise(X, info, v) for nm, _, v in inputs}
            o['model'] = str(info)[:2000]
            nice = nicer(X, hyps, gg, inputs)
            if nice is not None:
                o['input'] = {nm: concretise(X, nice, v) for nm, _, v in inputs}
            if confirm and may_replay(pool): o['replay'] = confirm(crate, spec, X, X.fn, inputs, nice if nice is not None else info, name, gg)
            if pool and not o.get('replay', {}).get('confirmed'):
                with pool.replays.get_lock(): pool.replays.value += 1
            elif pool: pool.replays.value = 100
        elif st == 'unknown': o['reason'] = str(info)
        return o

    res.obls = in_parallel(one, len(todo), pool)
    if any(o['status'] == 'skipped' for o in res.obls) and not any(o['status'] in ('refuted', 'unknown') for o in res.obls): res.error = 'timeout'
    # reachability: at least one outcome is feasible
    s = Solver(); s.set('timeout', 5000)
    if len(outs) and not any(check_sat(X, o[1]) for o in outs): res.vacuous = True
    res.time = time.time() - t0
    return res


def check_sat(X, st):
    s = Solver(); s.set('timeout', 3000); s.add(*[f for f in X.facts if not is_quantifier(f)]); s.add(*st.pc)
    return s.check() != unsat


def split_goal(name, g):
    if is_and(g) and g.num_args() <= 8: return [(f'{name}#{i}', c) for i, c in enumerate(g.children())]
    return [(name, g)]


def nicer(X, hyps, g, inputs):
    """a counterexample over small dyadic numbers, so that the replay on f32 is exact"""
    leaves = []
    for _, _, v in inputs:
        try: leaves += [e for e in flatten(X, v) if e.sort() == RealSort()]
        except Unsupported: return None
    if not leaves: return None
    for den, lim in ((1, 8), (4, 64)):
        s = Solver(); s.set('timeout', 4000)
        s.add(*hyps); s.add(Not(g))
        for i, e in enumerate(leaves):
            k = Int(f'nice!{i}'); s.add(e == ToReal(k) / den, k >= -lim, k <= lim)
        if s.check() == sat: return s.model()
    return None
