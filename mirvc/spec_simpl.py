"""Contracts of the simplification (C18)."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv
from models import opt
from spec_geo import P
from spec_hpg import bound

R, I, B = RealSort(), IntSort(), BoolSort()
tm = lambda X, v: X.to_obj(v).term
cross = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
isv = lambda X, e, n, ty='CornerType': X.discr(e) == X.crate.enums[ty].index(n)
pt = lambda X, v, i: tuple(P(X.elem(v, i)))


# ---------------------------------------------------------------- corners
def post_ct(X, r, ps):
    c = cross(*[tuple(P(X.elem(ps, IntVal(k)))) for k in range(3)])
    return [('concave: a right turn', isv(X, r, 'Concave') == (c < 0)), ('collinear: no turn', isv(X, r, 'Collinear') == (c == 0)), ('convex: a left turn', isv(X, r, 'Convex') == (c > 0))]


Spec('C18', 'CornerType::from', post=post_ct, split=True)
e4 = lambda e: (tuple(P(e.fields[0])), tuple(P(e.fields[1])))


def post_front(X, r, l1, l2):
    (a, b), (c, d) = e4(l1), e4(l2); some, p = opt(X, r); D = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0]); p = tuple(P(p)) if isinstance(p, Agg) else (RealVal(0), RealVal(0))
    T, U = Reals('any_T any_U')
    on = lambda p, a, b, t: And(p[0] == b[0] + t * (b[0] - a[0]), p[1] == b[1] + t * (b[1] - a[1]))
    q = (b[0] + T * (b[0] - a[0]), b[1] + T * (b[1] - a[1]))
    return [('on the line of the first segment', Implies(some, cross(a, b, p) == 0)), ('on the line of the second segment', Implies(some, cross(c, d, p) == 0)),
            ('beyond the end of the first segment', Implies(some, (p[0] - b[0]) * (b[0] - a[0]) + (p[1] - b[1]) * (b[1] - a[1]) > 0)), ('beyond the end of the second segment', Implies(some, (p[0] - d[0]) * (d[0] - c[0]) + (p[1] - d[1]) * (d[1] - c[1]) > 0)),
            ('found if there is one', Implies(And(D != 0, T > 0, U > 0, on(q, c, d, U)), some))]


Spec('C18', 'calculate_intersection_in_front', post=post_front, split=True, pre=lambda X, l1, l2: [])


# ---------------------------------------------------------------- candidates
CF = ('Concave', 'ConvexConvex', 'Collinear')
ci = lambda X, c: [X.field(c, k, 'usize') for k in range(3)]                # the three indices of a corner
cor = lambda X, c, var, k=0: X.field(c, k, 'Corner', var)
kind = lambda X, c, n: isv(X, c, n, 'Candidate')
inb = lambda X, v, c: And(*[And(0 <= i, i < X.length(v)) for i in ci(X, c)])
inside_all = lambda X, v, c: And(*[Implies(kind(X, c, n), And(*[inb(X, v, cor(X, c, n, k)) for k in range(2 if n == 'ConvexConvex' else 1)])) for n in CF])
succ = lambda X, c: And(ci(X, cor(X, c, 'ConvexConvex', 0))[2] == ci(X, cor(X, c, 'ConvexConvex', 1))[1], ci(X, cor(X, c, 'ConvexConvex', 0))[1] == ci(X, cor(X, c, 'ConvexConvex', 1))[0])
C_FRONT = Contract('calculate_intersection_in_front', ret='Option<Point>')
mkedge = lambda p, q: Agg('Edge', [p, q])


def post_rv(X, r, v, cs):
    c1, c2 = [X.field(cs, k, 'Corner') for k in (0, 1)]; a, b = ci(X, c1), ci(X, c2); el = lambda i: X.elem(v, i)
    s, p = opt(X, pure(X, 'calculate_intersection_in_front', mkedge(el(a[0]), el(a[1])), mkedge(el(b[2]), el(b[1]))))
    return [('the corners are successive', And(a[2] == b[1], a[1] == b[0])), ('a vertex exactly if the outer edges meet in front', (X.discr(r) == 0) == s), ('where they meet', Implies(s, X.eq(X.field(r, 0, 'Point', 'Ok'), p)))]


Spec('C18', 'replacing_vertex_convex_convex_candidate', pre=lambda X, v, cs: [inb(X, v, X.field(cs, 0, 'Corner')), inb(X, v, X.field(cs, 1, 'Corner'))], post=post_rv, contracts=[C_FRONT])
C_RV = Contract('replacing_vertex_convex_convex_candidate', ret='Result<Point, InvalidCandidate>')
rv = lambda X, v, c: pure(X, 'replacing_vertex_convex_convex_candidate', v, Agg('(,)', [cor(X, c, 'ConvexConvex', 0), cor(X, c, 'ConvexConvex', 1)]))


def removed(X, v, w, i, j):
    """w is v without its i-th element (index j)"""
    n = X.length(v); return And(X.length(w) == n - 1, ForAll([j], Implies(And(0 <= j, j < n - 1), X.eq(X.elem(w, j), X.elem(v, If(j < i, j, j + 1))))))


def post_exec(X, r, v, c):
    j = Int('?ex'); n = X.length(v); a, b = [ci(X, cor(X, c, 'ConvexConvex', k))[1] for k in (0, 1)]; new = X.field(rv(X, v, c), 0, 'Point', 'Ok')
    out = [(f'{k.lower()}: the middle vertex goes, the others stay in order', Implies(kind(X, c, k), removed(X, v, r, ci(X, cor(X, c, k))[1], j))) for k in ('Concave', 'Collinear')]
    # the two vertices are next to each other, cyclically: the second one is replaced, the first one goes
    body = lambda f: ForAll([j], Implies(And(0 <= j, j < n - 1), f))
    src = If(j < a, j, j + 1)
    out.append(('convex: the two vertices are replaced by the new one, the others stay in order', Implies(And(kind(X, c, 'ConvexConvex'), a != b), And(X.length(r) == n - 1, body(X.eq(X.elem(r, j), ite_(src == b, new, X.elem(v, src))))))))
    return out


def ite_(c, a, b): return Agg('Point', [If(c, x, y) for x, y in zip(P(a), P(b))])


Spec('C18', 'execute_candidate', pre=lambda X, v, c: [inside_all(X, v, c)], post=post_exec, contracts=[C_RV])


def post_delta(X, r, v, c):
    ok = simplify(X.discr(r) == 0); val = RealVal(0) if is_false(ok) else X.field(r, 0, 'NotNan<f32>', 'Ok'); absv = lambda x: If(x < 0, -x, x)
    a = ci(X, cor(X, c, 'Concave')); b1, b2 = ci(X, cor(X, c, 'ConvexConvex', 0)), ci(X, cor(X, c, 'ConvexConvex', 1)); q = rv(X, v, c); new = tuple(P(X.field(q, 0, 'Point', 'Ok')))
    return [('collinear: none', Implies(kind(X, c, 'Collinear'), And(ok, val == 0))), ('concave: the triangle cut off', Implies(kind(X, c, 'Concave'), And(ok, 2 * val == absv(cross(*[pt(X, v, i) for i in a]))))),
            ('convex: no value without a new vertex', Implies(kind(X, c, 'ConvexConvex'), ok == (X.discr(q) == 0))), ('convex: the triangle added', Implies(And(kind(X, c, 'ConvexConvex'), ok), 2 * val == absv(cross(pt(X, v, b1[1]), new, pt(X, v, b2[1])))))]


Spec('C18', 'calculate_area_delta', pre=lambda X, v, c: [inside_all(X, v, c)], post=post_delta, contracts=[C_RV], split=True)

COL = '<Edge as CollidesWith<Edge>>::collides_with'
C_COL = Contract(COL, ret='bool')


def post_valid(X, r, v, c):
    i = Int('?cv'); n = X.length(v); el = lambda k: X.elem(v, k); st, en = el(i), el(X.binop('Rem', i + 1, n)); ed = mkedge(st, en); rg = And(0 <= i, i < n)
    a = ci(X, cor(X, c, 'Concave')); b1, b2 = ci(X, cor(X, c, 'ConvexConvex', 0)), ci(X, cor(X, c, 'ConvexConvex', 1)); q = rv(X, v, c); new = X.field(q, 0, 'Point', 'Ok')
    away = lambda ks: And(*[Not(X.eq(p, el(k))) for k in ks for p in (st, en)])
    free = lambda ks, es: bound(X, [i], lambda: ForAll([i], Implies(And(rg, away(ks)), And(*[Not(pure(X, COL, ed, e)) for e in es]))))
    return [('collinear: always', Implies(kind(X, c, 'Collinear'), r)), ('concave: exactly if the new edge meets no edge away from the corner', Implies(kind(X, c, 'Concave'), r == free(a, [mkedge(el(a[0]), el(a[2]))]))),
            ('convex: exactly if there is a new vertex and its two edges meet no edge away from the corners', Implies(kind(X, c, 'ConvexConvex'), r == And(X.discr(q) == 0, free([b1[1], b1[0], b2[1], b2[2]], [mkedge(el(b1[0]), new), mkedge(new, el(b2[2]))]))))]


Spec('C18', 'candidate_is_valid', pre=lambda X, v, c: [inside_all(X, v, c)], post=post_valid, contracts=[C_RV, C_COL])


# ---------------------------------------------------------------- the loop
CTF = 'CornerType::from'
C_CT = Contract(CTF, ret='CornerType')
C_AREA = Contract('SimplePolygon::calculate_area', ret='f32')
C_DELTA = Contract('calculate_area_delta', pre=lambda X, v, c: [inside_all(X, v, c)], ret='Result<NotNan<f32>, InvalidCandidate>')
C_VALID = Contract('candidate_is_valid', pre=lambda X, v, c: [inside_all(X, v, c)], ret='bool')
C_EXEC = Contract('execute_candidate', pre=lambda X, v, c: [inside_all(X, v, c)], post=lambda X, r, v, c: [Implies(Implies(kind(X, c, 'ConvexConvex'), ci(X, cor(X, c, 'ConvexConvex', 0))[1] != ci(X, cor(X, c, 'ConvexConvex', 1))[1]), X.length(r) == X.length(v) - 1)], ret='Vec<Point>')
absr = lambda x: If(x < 0, -x, x)
C_NEW = Contract('SimplePolygon::new', pre=lambda X, v: [REACH(tm(X, X.fieldn(X.inputs[0], 'points')), tm(X, v))], post=lambda X, r, v: [X.length(X.fieldn(r, 'points')) == X.length(v), X.fieldn(r, 'area') == absr(pure(X, 'SimplePolygon::calculate_area', v))], ret='SimplePolygon')
REACH = Function('REACH', Term, Term, B)              # (outline, outline): the second arises from the first by proper steps
prv, nx = (lambda i, n: If(i == 0, n - 1, i - 1)), (lambda i, n: If(i == n - 1, IntVal(0), i + 1))
inflate = lambda X, mode: isv(X, mode, 'Inflate', 'PolySimplMode')


def corner_ok(X, c, n, up):
    """a corner of the outline, on the left (inflate) or on the right"""
    a, b, d = ci(X, c); return And(0 <= b, b < n, a == If(up, prv(b, n), nx(b, n)), d == If(up, nx(b, n), prv(b, n)))


def ctype(X, v, c): return pure(X, CTF, Agg('[]', [X.elem(v, i) for i in ci(X, c)]))


def proper(X, v, c, up):
    """a candidate of the outline: a concave corner, a collinear corner, or two successive convex corners"""
    n = X.length(v); out = []
    for k in CF:
        cs = [cor(X, c, k, j) for j in range(2 if k == 'ConvexConvex' else 1)]
        out.append(Implies(kind(X, c, k), And(*[corner_ok(X, x, n, up) for x in cs], *[isv(X, ctype(X, v, x), 'Convex' if k == 'ConvexConvex' else k) for x in cs], *([ci(X, cs[0])[2] == ci(X, cs[1])[1]] if k == 'ConvexConvex' else []))))
    return And(*out)


PROPER = Function('PROPER', Term, Term, B)           # proper for the mode asked for, folded
def within(X, v, shape, d): a = X.fieldn(shape, 'area'); return absr(pure(X, 'SimplePolygon::calculate_area', v) - a) <= d * a


def steps(X, shape, mode, d):
    """REACH: the outline itself; and what executing a proper, valid candidate makes of a reachable outline of four or more vertices, while the area stays within the budget"""
    t0 = tm(X, X.fieldn(shape, 'points')); w, c = Consts('?sw ?sc', Term); v, k = Obj(w, 'std::vec::Vec<geometry::primitives::point::Point>'), Obj(c, 'util::polygon_simplification::Candidate')

    def body():
        nw = pure(X, 'execute_candidate', v, k)
        return Implies(And(REACH(t0, w), X.length(v) >= 4, PROPER(w, c), pure(X, 'candidate_is_valid', v, k), within(X, nw, shape, d)), REACH(t0, tm(X, nw))), tm(X, nw)
    f, p = bound(X, [w, c], body)
    return [REACH(t0, t0), ForAll([w, c], f, patterns=[p]), ForAll([w, c], PROPER(w, c) == bound(X, [w, c], lambda: proper(X, v, k, inflate(X, mode))), patterns=[PROPER(w, c)])]


def inv_simpl(X, st, env):
    s, mode, d = X.inputs; ref = env['ref_points']; t0 = tm(X, X.fieldn(s, 'points'))
    return [REACH(t0, tm(X, ref)), X.length(ref) == X.length(X.fieldn(s, 'points')) - env['#'], Or(X.length(ref) >= 3, X.eq(ref, X.fieldn(s, 'points'))), Or(X.eq(ref, X.fieldn(s, 'points')), within(X, ref, s, d))]


def inv_flip(X, st, env):
    n = X.length(env['ref_points']); cs = env['corners']; j = Int('?fl')
    return [X.length(cs) == n, ForAll([j], Implies(And(0 <= j, j < n), bound(X, [j], lambda: And(ci(X, X.elem(cs, j))[1] == n - 1 - j, corner_ok(X, X.elem(cs, j), n, j >= env['#'])))))]


def inv_cands(X, st, env):
    s, mode, d = X.inputs; v, cs, ca = env['ref_points'], env['corners'], env['candidates']; j = Int('?ic'); n = X.length(v); p = env['#']; pc = env['prev_corner']; up = inflate(X, mode)
    return [ForAll([j], Implies(And(0 <= j, j < X.length(ca)), bound(X, [j], lambda: PROPER(tm(X, v), tm(X, X.elem(ca, j)))))), corner_ok(X, pc, n, up), X.eq(env['prev_corner_type'], ctype(X, v, pc)), Implies(p < n, ci(X, pc)[1] == ci(X, X.elem(cs, p))[0])]


def post_simpl(X, r, s, mode, d):
    v = X.fieldn(s, 'points'); t0 = tm(X, v); n = X.length(v); rp = X.fieldn(r, 'points'); a = X.fieldn(s, 'area')
    return [('no more vertices', X.length(rp) <= n), ('three or more if there were', Implies(n >= 3, X.length(rp) >= 3)), ('the area within the budget', absr(X.fieldn(r, 'area') - a) <= d * a)]


C_SA = Contract('<SimplePolygon as Shape>::area', post=lambda X, r, s: [r == X.fieldn(s, 'area')], ret='f32')


def pre_simpl(X, s, mode, d):
    return [X.length(X.fieldn(s, 'points')) >= 3, X.fieldn(s, 'area') > 0, X.fieldn(s, 'area') == pure(X, 'SimplePolygon::calculate_area', X.fieldn(s, 'points')), d >= 0, d < 1] + steps(X, s, mode, d)


Spec('C18', 'simplify_shape', pre=pre_simpl, post=post_simpl, contracts=[C_CT, C_AREA, C_DELTA, C_VALID, C_EXEC, C_NEW],
     invariants={('simplify_shape', 0): Inv(inv_simpl), ('simplify_shape', 1): Inv(inv_cands), ('simplify_shape', 2): Inv(inv_flip)})
