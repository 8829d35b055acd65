"""Contracts of the convex hull (C17): monotone chain. CR(a, b, c) is the cross product, LX(a, b) the lexicographic order; both are folded, with the
few facts on them that the chain argument needs proved as separate obligations (on the formulas) and used as axioms on the symbols."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv
from spec_geo import P

R, I, B = RealSort(), IntSort(), BoolSort()
CR = Function('CR', *[R] * 6, R)
LX = Function('LX', *[R] * 4, B)
cross_f = lambda a, b, c, d, e, f: (c - a) * (f - b) - (d - b) * (e - a)
lex_f = lambda a, b, c, d: Or(a < c, And(a == c, b <= d))


# ---------------------------------------------------------------- facts on cross products
def facts(cr, lx):
    """[(name, number of points, formula over the points)]; s: the order may be that of the sorted points or the reverse one"""
    out = []
    for s in (0, 1):
        le = (lambda p, q: lx(*p, *q)) if s == 0 else (lambda p, q: lx(*q, *p))
        t = ' (reverse order)' if s else ''
        out += [('popping keeps points beyond' + t, 4, lambda a, b, z, q: Implies(And(cr(*a, *b, *z) <= 0, cr(*a, *b, *q) >= 0, cr(*b, *z, *q) >= 0), cr(*a, *z, *q) >= 0)),
                ('popping keeps points between' + t, 4, lambda a, b, z, q, le=le: Implies(And(le(a, q), le(q, b), le(b, z), cr(*a, *b, *q) >= 0, cr(*a, *b, *z) <= 0), cr(*a, *z, *q) >= 0)),
                ('a left turn keeps points before' + t, 4, lambda a, b, z, q, le=le: Implies(And(le(a, b), le(q, b), le(b, z), cr(*a, *b, *q) >= 0, cr(*a, *b, *z) > 0), cr(*b, *z, *q) >= 0)),
                ('left turns add up' + t, 4, lambda a, b, c, z, le=le: Implies(And(le(a, b), le(b, c), le(c, z), cr(*a, *b, *c) > 0, cr(*b, *c, *z) >= 0), cr(*a, *b, *z) >= 0))][1 if s else 0:]
    out += [('zero at the end points', 2, lambda a, b: And(cr(*a, *b, *a) == 0, cr(*a, *b, *b) == 0)),
            ('the order is total', 2, lambda a, b: And(Or(lx(*a, *b), lx(*b, *a)), Implies(And(lx(*a, *b), lx(*b, *a)), And(a[0] == b[0], a[1] == b[1])))),
            ('the order is transitive', 3, lambda a, b, c: Implies(And(lx(*a, *b), lx(*b, *c)), lx(*a, *c)))]
    return out


def turn_facts(cr, lx):
    """at an extreme point: a straight angle there means that everything is on one line"""
    ne = lambda p, q: Or(p[0] != q[0], p[1] != q[1]); out = []
    for s in (0, 1):
        le = (lambda p, q: lx(*p, *q)) if s == 0 else (lambda p, q: lx(*q, *p))
        out.append((f'a straight angle at an extreme point{" (reverse order)" if s else ""}', 4, lambda a, z, c, q, le=le: Implies(And(le(a, z), le(c, z), ne(a, z), ne(c, z), cr(*a, *z, *c) == 0, cr(*a, *z, *q) >= 0, cr(*z, *c, *q) >= 0), And(cr(*a, *z, *q) == 0, cr(*z, *c, *q) == 0))))
    return out + [('cyclic', 3, lambda a, b, c: And(cr(*a, *b, *c) == cr(*b, *c, *a), cr(*a, *b, *b) == 0, cr(*a, *b, *a) == 0, cr(*a, *a, *b) == 0))]


def pts(n, tag='any_'): return [(Real(f'{tag}x{i}'), Real(f'{tag}y{i}')) for i in range(n)]


def lemmas(): return [(f'lemma: {n}', f(*pts(k))) for n, k, f in facts(cross_f, lex_f) + turn_facts(cross_f, lex_f)]


PAT = {'popping keeps points beyond': lambda a, b, z, q: [CR(*a, *b, *z), CR(*a, *z, *q)], 'popping keeps points between': lambda a, b, z, q: [CR(*a, *b, *z), CR(*a, *z, *q)],
       'a left turn keeps points before': lambda a, b, z, q: [CR(*a, *b, *z), CR(*b, *z, *q)], 'left turns add up': lambda a, b, c, z: [CR(*a, *b, *c), CR(*b, *c, *z)],
       'zero at the end points': lambda a, b: [LX(*a, *b)], 'the order is total': lambda a, b: [LX(*a, *b)], 'the order is transitive': lambda a, b, c: [LX(*a, *b), LX(*b, *c)]}


def axioms():
    out = []
    for n, k, f in facts(CR, LX):
        if 'transitive' in n: continue                # used in instances only
        p = pts(k, f'?{k}'); t = PAT[n.replace(' (reverse order)', '')](*p)
        out.append(ForAll([v for q in p for v in q], f(*p), patterns=[MultiPattern(*t) if len(t) > 1 else t[0]]))
    return out


C_CROSS = Contract('cross', post=lambda X, r, a, b, c: [r == CR(*P(a), *P(b), *P(c))], ret='f32')           # the contract proved next, folded
Spec('C17', 'cross', post=lambda X, r, a, b, c: [('cross product of the two directions', r == cross_f(*P(a), *P(b), *P(c)))] + lemmas(), split=True)

# ---------------------------------------------------------------- one step of the chain
E = lambda X, h, i: P(X.elem(h, i))
n_ = lambda X, h: X.length(h)
LE = lambda s: (lambda p, q: LX(*p, *q)) if s == 0 else (lambda p, q: LX(*q, *p))


def chain(X, h, s, tag):
    """ordered, with left turns only"""
    i = Int(f'?c{tag}'); j = Int(f'?d{tag}'); n = n_(X, h)
    return And(ForAll([i, j], Implies(And(0 <= i, i <= j, j < n), LE(s)(E(X, h, i), E(X, h, j))), patterns=[MultiPattern(E(X, h, i)[0], E(X, h, j)[0])]), ForAll([i], Implies(And(0 <= i, i + 2 < n), CR(*E(X, h, i), *E(X, h, i + 1), *E(X, h, i + 2)) > 0)))


def above(X, h, s, q, tag):
    """q lies between the ends of the chain and on or to the left of each of its edges"""
    i = Int(f'?a{tag}'); n = n_(X, h)
    return And(n >= 1, LE(s)(E(X, h, IntVal(0)), q), LE(s)(q, E(X, h, n - 1)), ForAll([i], Implies(And(0 <= i, i + 1 < n), CR(*E(X, h, i), *E(X, h, i + 1), *q) >= 0)))


def grow_pre(X, h, np, s):
    i = Int(f'?gb{s}')
    return And(chain(X, h, s, f'gp{s}'), ForAll([i], Implies(And(0 <= i, i < n_(X, h)), LE(s)(E(X, h, i), P(np))), patterns=[E(X, h, i)[0]]))


def grow_post(X, r, h, np):
    i = Int('?gr'); qx, qy = Reals('?gqx ?gqy'); q = (qx, qy); m = n_(X, r); out = [('the new point is last', And(m >= 1, E(X, r, m - 1)[0] == P(np)[0], E(X, r, m - 1)[1] == P(np)[1])),
        ('the rest is a beginning of the chain', And(m <= n_(X, h) + 1, Implies(n_(X, h) >= 1, m >= 2), ForAll([i], Implies(And(0 <= i, i < m - 1), X.eq(X.elem(r, i), X.elem(h, i))))))]
    for s in (0, 1):
        g = grow_pre(X, h, np, s); t = ' (reverse order)' if s else ''
        c = chain(X, r, s, f'go{s}').children()
        out += [('ordered' + t, Implies(g, c[0])), ('left turns only' + t, Implies(g, c[1])),
                ('the new point is left of every edge' + t, Implies(g, above(X, r, s, P(np), f'gn{s}'))),
                ('what was left of every edge still is' + t, Implies(g, ForAll([qx, qy], Implies(above(X, h, s, q, f'gh{s}'), above(X, r, s, q, f'gq{s}')))))]
    return out


def inv_grow(X, st, env):
    h0, h, np = X.inputs[0], env['h'], env['np']; i = Int('?gi'); qx, qy = Reals('?iqx ?iqy'); q = (qx, qy); m = n_(X, h)
    out = [And(m <= n_(X, h0), Implies(n_(X, h0) >= 1, m >= 1)), ForAll([i], Implies(And(0 <= i, i < m), X.eq(X.elem(h, i), X.elem(h0, i))))]
    for s in (0, 1):
        g = grow_pre(X, h0, np, s); top = E(X, h, m - 1)
        out.append(Implies(And(g, m >= 1), ForAll([qx, qy], Implies(And(above(X, h0, s, q, f'ia{s}'), LE(s)(top, q)), CR(*top, *P(np), *q) >= 0))))
    return out


def ind_down(P_, top, i):
    """induction from top down to 0"""
    return Implies(And(P_(top), ForAll([i], Implies(And(0 <= i, i < top, P_(i + 1)), P_(i)))), ForAll([i], Implies(And(0 <= i, i <= top), P_(i))))


def post_grow(X, r, h, np):
    m = n_(X, r); i = Int('?in')
    X.fact(ind_down(lambda k: CR(*E(X, r, k), *E(X, r, k + 1), *P(np)) >= 0, m - 3, i))
    x, y = Reals('?tx ?ty'); l = E(X, h, n_(X, h) - 1)
    for s in (0, 1): X.fact(ForAll([x, y], Implies(And(LE(s)((x, y), l), LE(s)(l, P(np))), LE(s)((x, y), P(np))), patterns=[LE(s)((x, y), l)]))      # instances of transitivity
    return grow_post(X, r, h, np)


Spec('C17', 'grow_convex_hull', post=post_grow, lemma=lambda X, h, np: axioms(), contracts=[C_CROSS], invariants={('grow_convex_hull', 0): Inv(inv_grow)}, timeout=60)

# ---------------------------------------------------------------- the whole hull
def grow_use(X, r, h, np): return [f for _, f in grow_post(X, r, h, np)]


C_GROW = Contract('grow_convex_hull', post=grow_use, ret='Vec<Point>', uf=False)


def inv_fold(s):
    def f(X, st, env):
        h, it, k = env['acc'], env['it'], env['#']; i, j = Ints(f'?fi{s} ?fj{s}'); n = n_(X, h)
        e = lambda i: P(X.deref_all(st, it.get(i)))
        eq = lambda p, q: And(p[0] == q[0], p[1] == q[1])
        N = it.n; pt = e if s == 0 else (lambda i: e(simplify(N - 1 - i))); done = And(0 <= j, j < k) if s == 0 else And(N - k <= j, j < N)      # the points met so far, by their place among the sorted ones
        return [(n == 0) == (k == 0), Implies(k >= 2, n >= 2), Implies(k >= 1, And(eq(E(X, h, IntVal(0)), e(IntVal(0))), eq(E(X, h, n - 1), e(k - 1)))), chain(X, h, s, f'fo{s}'),
                ForAll([i], Implies(And(0 <= i, i < n), Exists([j], And(done, eq(E(X, h, i), pt(j))))), patterns=[E(X, h, i)[0]]),
                ForAll([j], Implies(done, above(X, h, s, pt(j), f'fa{s}')))]
    return f


def post_hull(X, r, v):
    i, j = Ints('?hi ?hj'); n = n_(X, v); L = n_(X, r); nx = If(i + 1 == L, 0, i + 1)
    out = [('every vertex is one of the points', ForAll([i], Implies(And(0 <= i, i < L), Exists([j], And(0 <= j, j < n, X.eq(X.elem(r, i), X.elem(v, j))))))),
           ('at least two vertices', Implies(n >= 2, L >= 2)),
           ('every point is on or to the left of every edge', Implies(n >= 2, ForAll([i, j], Implies(And(0 <= i, i + 1 < L, 0 <= j, j < n), CR(*E(X, r, i), *E(X, r, i + 1), *E(X, v, j)) >= 0)))),
           ('every point is on or to the left of the closing edge', Implies(n >= 2, ForAll([j], Implies(And(0 <= j, j < n), CR(*E(X, r, L - 1), *E(X, r, IntVal(0)), *E(X, v, j)) >= 0))))]
    # left turns: MARK is any predicate, hence the clause holds without it; it only serves to instantiate the facts
    at = lambda k: E(X, r, If(k < 0, k + L, If(k >= L, k - L, k))); q0, a, z, c, q1 = [at(i + d) for d in (-1, 0, 1, 2, 3)]
    (_, _, j0), (_, _, j1), (_, _, cyc) = turn_facts(CR, LX)
    X.fact(ForAll([i], Implies(MARK(i), And(*[f(a, z, c, q) for f in (j0, j1) for q in (q0, q1)], cyc(q0, a, z), cyc(a, z, q0), cyc(z, c, q1), cyc(q1, z, c), cyc(a, z, c))), patterns=[MARK(i)]))
    out += [(f'a left turn at every vertex, unless there are only two ({w})', Implies(And(n >= 2, L >= 3), ForAll([i], Implies(And(0 <= i, i < L, MARK(i), g), CR(*a, *z, *c) > 0)))) for w, g in (('a beginning', i + 2 < L), ('towards the first', i + 2 == L), ('at the first', i + 1 == L))]
    return out


MARK = Function('MARK', I, B)


def lex_def():
    a, b, c, d = Reals('?la ?lb ?lc ?ld'); return [ForAll([a, b, c, d], LX(a, b, c, d) == lex_f(a, b, c, d), patterns=[LX(a, b, c, d)])]


Spec('C17', 'convex_hull_from_points', post=post_hull, lemma=lambda X, v: lex_def(), contracts=[C_GROW], invariants={('convex_hull_from_points', s): Inv(inv_fold(s)) for s in (0, 1)}, timeout=60)

# ---------------------------------------------------------------- extended segments and the bounding circle
UX, UY, DD = (Function(n, R, R, R, R, R) for n in ('UX', 'UY', 'DD'))              # unit direction and length of a segment
e4 = lambda e: (*P(e.fields[0]), *P(e.fields[1]))
e_ok = lambda a, b, c, d: Or(a != c, b != d)


def post_extend(front):
    def f(X, r, e, d):
        a, b, c, g = e4(e); p, q, s, t = e4(r); l = Real('any_l'); dx, dy, nx, ny = c - a, g - b, s - p, t - q
        return [('the other end stays', And(s == c, t == g) if front else And(p == a, q == b)), ('on the same line', dx * ny == dy * nx), ('in the same direction', dx * nx + dy * ny > 0),
                ('longer by the given distance', Implies(And(l >= 0, l * l == dx * dx + dy * dy), nx * nx + ny * ny == (l + d) * (l + d)))]
    return f


def use_extend(front):
    def f(X, r, e, d):
        a, b, c, g = e4(e); p, q, s, t = e4(r); o = (a, b, c, g); w = (p, q, s, t)
        key = lambda v: tuple(simplify(x).get_id() for x in v)
        dirs = X.memo.setdefault('directions', {}); src = dirs.get(key(o), o); dirs[key(w)] = src; X.memo.setdefault('keep', []).append((o, w))      # the segment whose direction this one has
        ux, uy = UX(*src), UY(*src)
        return [And(s == c, t == g, p == a - d * ux, q == b - d * uy) if front else And(p == a, q == b, s == c + d * ux, t == g + d * uy), e_ok(*w), UX(*w) == ux, UY(*w) == uy, DD(*w) == DD(*o) + d] + unit(*src)
    return f


def unit(a, b, c, d):
    """what UX, UY, DD stand for"""
    o = (a, b, c, d); return [DD(*o) >= 0, Implies(e_ok(*o), And(c - a == DD(*o) * UX(*o), d - b == DD(*o) * UY(*o), DD(*o) > 0, UX(*o) * UX(*o) + UY(*o) * UY(*o) == 1))]


for k, front in (('Edge::extend_at_front', True), ('Edge::extend_at_back', False)):
    Spec(['C17', 'C03'], k, pre=lambda X, e, d: [e_ok(*e4(e)), d >= 0], post=post_extend(front), split=True)
C_EXT = [Contract(k, pre=lambda X, e, d: [e_ok(*e4(e)), d >= 0], post=use_extend(fr), ret='Edge', uf=False) for k, fr in (('Edge::extend_at_front', True), ('Edge::extend_at_back', False))]        # folded
C_DIST = Contract('Point::distance', post=lambda X, r, p, q: [r >= 0, r == If(e_ok(*P(p), *P(q)), DD(*P(p), *P(q)), 0)] + unit(*P(p), *P(q)), ret='f32')
C_DIAM = Contract('<Edge as Shape>::diameter', post=lambda X, r, e: [r >= 0, r == If(e_ok(*e4(e)), DD(*e4(e)), 0)] + unit(*e4(e)), ret='f32')
C_MID = Contract('<Edge as Shape>::centroid', post=lambda X, r, e: [2 * P(r)[0] == e4(e)[0] + e4(e)[2], 2 * P(r)[1] == e4(e)[1] + e4(e)[3]], ret='Point')
Spec(['C17', 'C03'], '<Edge as Shape>::centroid', post=lambda X, r, e: [('the middle of the segment', And(2 * P(r)[0] == e4(e)[0] + e4(e)[2], 2 * P(r)[1] == e4(e)[1] + e4(e)[3]))])
Spec(['C17', 'C15'], 'Edge::reverse', post=lambda X, r, e: [('start and end exchanged', And(*[x == y for x, y in zip(e4(r), e4(e)[2:] + e4(e)[:2])]))])

CIN = Function('CIN', *[R] * 6, B)                                                       # disc in disc
cin = lambda x, y, r, a, b, s: And(s >= r, (x - a) * (x - a) + (y - b) * (y - b) <= (s - r) * (s - r))
c3 = lambda c: (*P(c.fields[0]), c.fields[1])


def disc_trans(f):
    return lambda p, q, s: Implies(And(f(*p, *q), f(*q, *s)), f(*p, *s))


def cin_ax():
    v = [(Real(f'?bx{i}'), Real(f'?by{i}'), Real(f'?br{i}')) for i in range(3)]
    return [ForAll([x for t in v for x in t], disc_trans(CIN)(*v), patterns=[MultiPattern(CIN(*v[0], *v[1]), CIN(*v[0], *v[2]))]), ForAll(list(v[0]), CIN(*v[0], *v[0]), patterns=[CIN(*v[0], *v[0])])]


def step(f, ux, uy, D):
    """the circle around two circles neither of which contains the other, their centres D apart in direction (ux, uy)"""
    return lambda o, c, b: Implies(And(ux * ux + uy * uy == 1, D > 0, o[2] >= 0, c[2] >= 0, c[0] == o[0] + D * ux, c[1] == o[1] + D * uy, o[2] <= D + c[2], c[2] <= D + o[2], 2 * b[0] == 2 * o[0] + D * ux + c[2] * ux - o[2] * ux, 2 * b[1] == 2 * o[1] + D * uy + c[2] * uy - o[2] * uy, 2 * b[2] == D + o[2] + c[2]), And(f(*o, *b), f(*c, *b)))


def nested(f, ux, uy, D):
    return lambda o, c: Implies(Or(And(ux * ux + uy * uy == 1, D >= 0, c[0] == o[0] + D * ux, c[1] == o[1] + D * uy, c[2] >= D + o[2]), And(c[0] == o[0], c[1] == o[1], c[2] >= o[2])), f(*o, *c))


def inv_bc(X, st, env):
    b, v, k = env['bounding_circle'], X.inputs[0], env['#']; j = Int('?bj')
    o = X.memo.get('bc'); X.memo['bc'] = b; c = env.get('circle')
    if o is not None and isinstance(c, Agg):                            # an instance of the lemma for the step just made
        e = (*c3(o)[:2], *c3(c)[:2]); u = (UX(*e), UY(*e), DD(*e)); X.fact(step(CIN, *u)(c3(o), c3(c), c3(b))); X.fact(nested(CIN, *u)(c3(o), c3(c))); X.fact(nested(CIN, -u[0], -u[1], u[2])(c3(c), c3(o)))
    return [k >= 1, c3(b)[2] >= 0, ForAll([j], Implies(And(0 <= j, j < k), CIN(*c3(X.elem(v, j)), *c3(b))))]


def post_bc(X, r, v):
    j = Int('?bp')
    return [('contains every circle', ForAll([j], Implies(And(0 <= j, j < n_(X, v)), CIN(*c3(X.elem(v, j)), *c3(r)))))]


def post_cnew(X, r, p, rad):
    w = [tuple(Real(f'any_{n}{i}') for n in 'xyr') for i in range(3)]; u = Reals('any_ux any_uy any_D')
    return [('centre and radius as given', And(c3(r)[0] == P(p)[0], c3(r)[1] == P(p)[1], c3(r)[2] == rad)), ('lemma: discs in discs', disc_trans(cin)(*w)), ('lemma: around two circles', step(cin, *u)(*w)), ('lemma: one in the other', nested(cin, *u)(*w[:2])), ('lemma: reflexive', cin(*w[0], *w[0]))]


Spec('C17', 'Circle::new', post=post_cnew, split=True)
Spec('C17', 'Circle::bounding_circle', types={0: 'Vec<Circle>'}, pre=lambda X, v: [n_(X, v) >= 1, ForAll([Int('?b0')], Implies(And(0 <= Int('?b0'), Int('?b0') < n_(X, v)), c3(X.elem(v, Int('?b0')))[2] >= 0))], post=post_bc, lemma=lambda X, v: cin_ax(),
     contracts=C_EXT + [C_DIST, C_DIAM, C_MID], invariants={('circle::bounding_circle', 0): Inv(inv_bc)}, split=True, timeout=60)


# ---------------------------------------------------------------- indices of the hull's vertices
C_HULL = Contract('convex_hull_from_points', post=lambda X, r, v: [f for n, f in post_hull(X, r, v) if n.startswith('every vertex')], ret='Vec<Point>')


def idx_ok(X, ix, m, sh):
    v = X.fieldn(sh, 'points'); h = X.memo['hull'] = X.memo.get('hull') or pure(X, 'convex_hull_from_points', v); k = Int('?ik')
    return And(X.length(ix) == m, ForAll([k], Implies(And(0 <= k, k < m), And(0 <= X.elem(ix, k), X.elem(ix, k) < n_(X, v), X.eq(X.elem(v, X.elem(ix, k)), X.elem(h, k))))))


def post_idx(X, r, sh):
    c = idx_ok(X, r, n_(X, idx_ok(X, r, IntVal(0), sh) is not None and X.memo['hull']), sh)
    return [('as many as the hull has vertices', c.arg(0)), ('each names the vertex of the hull in its place', c.arg(1))]


Spec('C17', 'convex_hull_indices', post=post_idx, contracts=[C_HULL], invariants={('convex_hull_indices', 0): Inv(lambda X, st, env: [idx_ok(X, env['indices'], env['#'], X.inputs[0])])})


# ---------------------------------------------------------------- diameter
C_SQD = Contract('Point::sq_distance', post=lambda X, r, p, q: [r >= 0], ret='f32')
PAIRED = Function('PAIRED', I, B)                 # any predicate: the clause holds without it, it only names the place of a pair


def post_diam(X, r, v):
    h = pure(X, 'convex_hull_from_points', v); i, j = Ints('?da ?db'); d = lambda p, q: pure(X, 'Point::sq_distance', p, q)
    pos = X.memo.get('pairs'); pos = pos if pos is not None else (lambda i, j: i); k = And(0 <= i, i < j, j < n_(X, h))
    return [('not negative', r >= 0), ('no two vertices of the hull are farther apart', ForAll([i, j], Implies(And(k, PAIRED(pos(i, j))), d(X.elem(h, i), X.elem(h, j)) <= r * r))), ('attained by two vertices of the hull', Exists([i, j], And(k, d(X.elem(h, i), X.elem(h, j)) == r * r)))]


Spec(['C16'], 'SimplePolygon::calculate_diameter', post=post_diam, contracts=[C_HULL, C_SQD])
