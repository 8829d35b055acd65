"""Contracts of simple polygons: derived data (C16), motion (C15), distances (C13)."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv
from models import opt, aeq
from spec_geo import pos_of, INT, EXT, mat, rigid, app, ptm, circ_moved, P, rect, sq
from spec_qt import ONE, npts, vx, edge4, nxt

R, I, B = RealSort(), IntSort(), BoolSort()
MAXF = RealVal('340282346638528859811704183484516925440')
np_ = lambda X, v: X.length(v)
pt = lambda X, v, i: X.elem(v, i).fields


# ---------------------------------------------------------------- bounding box
def tight(X, v, n, box, tag='tb'):
    """the box of the first n points"""
    i = Int(f'?{tag}'); a, b, c, d = box; x, y = pt(X, v, i); r = And(0 <= i, i < n)
    return [ForAll([i], Implies(r, And(a <= x, x <= c, b <= y, y <= d))), Exists([i], And(r, x == a)), Exists([i], And(r, y == b)), Exists([i], And(r, x == c)), Exists([i], And(r, y == d))]


def finite(X, v, tag='fi'):
    i = Int(f'?{tag}'); x, y = pt(X, v, i)
    return ForAll([i], Implies(And(0 <= i, i < np_(X, v)), And(-MAXF < x, x < MAXF, -MAXF < y, y < MAXF)))


def inv_bbox(X, st, env):
    v, p = env['points'], env['#']; box = [env[k] for k in ('x_min', 'y_min', 'x_max', 'y_max')]; i = Int('?ib'); x, y = pt(X, v, i)
    t = tight(X, v, p, box, 'ib')
    return [t[0], Implies(p > 0, And(*t[1:])), Implies(p == 0, And(box[0] == MAXF, box[1] == MAXF, box[2] == -MAXF, box[3] == -MAXF))]


Spec(['C16', 'C15'], 'SimplePolygon::generate_bounding_box', pre=lambda X, v: [np_(X, v) >= 1, finite(X, v)], post=lambda X, r, v: [(n, f) for n, f in zip(('contains every point', 'touches a point on the left', 'touches a point at the bottom', 'touches a point on the right', 'touches a point at the top'), tight(X, v, np_(X, v), rect(X, r)))],
     invariants={('simple_polygon::generate_bounding_box', 0): Inv(inv_bbox)})


# ---------------------------------------------------------------- sums over the vertices
def term_fn(name, f):
    """a sum over the edges of a vertex list: SUM(v, i) = sum of f over the first i edges, defined by recursion"""
    S = Function(name, Term, I, R)

    def of(X, v, i):
        t = X.to_obj(v).term
        if (name, t.get_id()) not in X.memo:
            X.memo[(name, t.get_id())] = t
            X.facts.append(S(t, 0) == 0)
        n = np_(X, v)
        for k in (i, simplify(i - 1)) if is_expr(i) else ():             # the instances of SUM(k + 1) = SUM(k) + f(edge k) that an induction step uses
            X.fact(Implies(And(0 <= k, k < n), S(t, k + 1) == S(t, k) + f(*pt(X, v, k), *pt(X, v, nxt(k, n)))))
        return S(t, i)
    return of


SHOE = term_fn('shoelace', lambda x, y, u, w: x * w - u * y)            # twice the signed area
CX = term_fn('momentx', lambda x, y, u, w: (x + u) * (x * w - u * y))
CY = term_fn('momenty', lambda x, y, u, w: (y + w) * (x * w - u * y))


def inv_area(X, st, env):
    # the code sums (y+y')(x-x') = (xy'-x'y) + (xy - x'y'); the second part telescopes
    v, p, s = env['points'], env['#'], env['sigma']; n = np_(X, v); x, y = pt(X, v, If(p == n, IntVal(0), p)); a, b = pt(X, v, IntVal(0))
    return [s == SHOE(X, v, p) + a * b - x * y]


Spec('C16', 'SimplePolygon::calculate_area', pre=lambda X, v: [np_(X, v) >= 1], post=lambda X, r, v: [('half the shoelace sum', 2 * r == SHOE(X, v, np_(X, v)))], invariants={('simple_polygon::calculate_area', 0): Inv(inv_area)})


def inv_cen(X, st, env):
    v, p = X.fieldn(env['self'], 'points'), env['#']
    return [env['c_x'] == CX(X, v, p), env['c_y'] == CY(X, v, p)]


def post_cen(X, r, s):
    v = X.fieldn(s, 'points'); n = np_(X, v); a = X.fieldn(s, 'area'); x, y = P(r)
    return [('first moment in x over the area', 6 * a * x == CX(X, v, n)), ('first moment in y over the area', 6 * a * y == CY(X, v, n))]


Spec('C16', '<SimplePolygon as Shape>::centroid', pre=lambda X, s: [npts(X, s) >= 3, X.fieldn(s, 'area') > 0], post=post_cen, invariants={('simple_polygon::centroid', 0): Inv(inv_cen)})


# ---------------------------------------------------------------- motion
def edge_moved(X, t, o, n): return And(*[ptm(X, t, a, b) for a, b in zip(o.fields, n.fields)])


def all_moved(X, t, src, dst, moved, lo=None, tag='am'):
    """element i of dst is the moved element i of src, for i below lo"""
    i = Int(f'?{tag}'); return And(X.length(dst) == X.length(src), ForAll([i], Implies(And(0 <= i, i < (X.length(src) if lo is None else lo)), moved(X, t, X.elem(src, i), X.elem(dst, i)))))


def rest_same(X, src, dst, lo, tag='rs'):
    i = Int(f'?{tag}'); return ForAll([i], Implies(And(lo <= i, i < X.length(src)), X.eq(X.elem(src, i), X.elem(dst, i))))


def radii_same(X, a, b, lo, tag='ra'):
    i = Int(f'?{tag}'); return ForAll([i], Implies(And(lo <= i, i < X.length(a)), X.fieldn(X.elem(a, i), 'radius') == X.fieldn(X.elem(b, i), 'radius')))


SUR_KEEP = ('convex_hull_indices', 'n_ff_poles', 'convex_hull_area')


def sur_moved(X, t, src, dst, keep=None):
    f = X.fieldn
    return [('every pole moved', all_moved(X, t, f(src, 'poles'), f(dst, 'poles'), circ_moved)), ('every pier moved', all_moved(X, t, f(src, 'piers'), f(dst, 'piers'), edge_moved)), ('bounding circle moved', circ_moved(X, t, f(src, 'poles_bounding_circle'), f(dst, 'poles_bounding_circle'))),
            ('the rest is kept', And(*[X.eq(f(keep if keep is not None else src, k), f(dst, k)) for k in SUR_KEEP]))]


def inv_mv(field, moved, frm):
    def inv(X, st, env):
        cur, old, t, p = env['self'], X.old[0], env['t'], env['#']; src = env['reference'] if frm else old
        a, b, c = X.fieldn(src, field), X.fieldn(cur, field), X.fieldn(old, field)
        out = [all_moved(X, t, a, b, moved, p, 'iv')]
        if not frm: out += [rest_same(X, a, b, p, 'iw')]
        elif moved is circ_moved: out += [radii_same(X, a, b, p, 'iw')]
        return out
    return Inv(inv, fine=True)


tr_pre = lambda X, s, t: [rigid(mat(X, t))]
Spec(['C15', 'C16'], '<SPSurrogate as Transformable>::transform', pre=tr_pre, post=lambda X, r, s, t: sur_moved(X, t, X.old[0], X.new(0)), invariants={('sp_surrogate::transform', 0): inv_mv('poles', circ_moved, False), ('sp_surrogate::transform', 1): inv_mv('piers', edge_moved, False)})


def trf_pre(X, s, q, t):
    f = X.fieldn
    return [rigid(mat(X, t)), X.length(f(s, 'poles')) == X.length(f(q, 'poles')), X.length(f(s, 'piers')) == X.length(f(q, 'piers')), radii_same(X, f(q, 'poles'), f(s, 'poles'), 0, 'rp'), f(f(s, 'poles_bounding_circle'), 'radius') == f(f(q, 'poles_bounding_circle'), 'radius')]


Spec(['C15', 'C16'], '<SPSurrogate as TransformableFrom>::transform_from', pre=trf_pre, post=lambda X, r, s, q, t: sur_moved(X, t, q, X.new(0), X.old[0]), invariants={('sp_surrogate::transform_from', 0): inv_mv('poles', circ_moved, True), ('sp_surrogate::transform_from', 1): inv_mv('piers', edge_moved, True)})


def post_bb(X, r, v): return [Implies(And(np_(X, v) >= 1, finite(X, v, 'fb')), And(*tight(X, v, np_(X, v), rect(X, r), 'bb')))]


C_BBOX = Contract('SimplePolygon::generate_bounding_box', post=post_bb, ret='AARectangle')


def poly_moved(X, t, src, dst, keep):
    f = X.fieldn; so, s = opt(X, f(src, 'surrogate')); do, d = opt(X, f(dst, 'surrogate')); ko, _ = opt(X, f(keep, 'surrogate')); v = f(dst, 'points')
    return [('every vertex moved', all_moved(X, t, f(src, 'points'), v, ptm)), ('pole of inaccessibility moved', circ_moved(X, t, f(src, 'poi'), f(dst, 'poi'))), ('area and diameter kept', And(f(dst, 'area') == f(keep, 'area'), f(dst, 'diameter') == f(keep, 'diameter'))), ('surrogate neither lost nor made up', do == ko)] + \
        [(f'surrogate: {n}', Implies(do, g)) for n, g in sur_moved(X, t, s, d, None if keep is src else opt(X, f(keep, 'surrogate'))[1])] + \
        [(f'bounding box {n}', Implies(And(np_(X, v) >= 1, finite(X, v, 'pm')), g)) for n, g in zip(('contains every vertex', 'is tight on the left', 'is tight at the bottom', 'is tight on the right', 'is tight at the top'), tight(X, v, np_(X, v), rect(X, f(dst, 'bbox')), 'pt'))]


SPT = '<SPSurrogate as Transformable>::transform'; SPF = '<SPSurrogate as TransformableFrom>::transform_from'
Spec(['C15', 'C16'], '<SimplePolygon as Transformable>::transform', pre=tr_pre, post=lambda X, r, s, t: poly_moved(X, t, X.old[0], X.new(0), X.old[0]), contracts=[C_BBOX, SPT], invariants={('simple_polygon::transform', 0): inv_mv('points', ptm, False)})


def ptrf_pre(X, s, q, t):
    f = X.fieldn; so, sv = opt(X, f(s, 'surrogate')); qo, qv = opt(X, f(q, 'surrogate'))
    return [rigid(mat(X, t)), npts(X, s) == npts(X, q), f(f(s, 'poi'), 'radius') == f(f(q, 'poi'), 'radius'), Implies(so, qo)] + [Implies(so, g) for g in trf_pre(X, sv, qv, t)[1:]]


Spec(['C15', 'C16'], '<SimplePolygon as TransformableFrom>::transform_from', pre=ptrf_pre, post=lambda X, r, s, q, t: poly_moved(X, t, q, X.new(0), X.old[0]), contracts=[C_BBOX, SPF], invariants={('simple_polygon::transform_from', 0): inv_mv('points', ptm, True)})


def post_center(X, r, s):
    p, t = r.fields; m = mat(X, t); v = X.fieldn(s, 'points'); n = np_(X, v); a = X.fieldn(s, 'area')
    return [('a pure translation', And(rigid(m), m[0][0] == 1, m[1][0] == 0)), ('it moves the centroid to the origin in x', -6 * a * m[0][2] == CX(X, v, n)), ('it moves the centroid to the origin in y', -6 * a * m[1][2] == CY(X, v, n))] + [(f'result: {k}', f) for k, f in poly_moved(X, t, s, p, s)]


PT = '<SimplePolygon as Transformable>::transform'
Spec(['C16', 'C15', 'C19'], 'SimplePolygon::center_around_centroid', pre=lambda X, s: [npts(X, s) >= 3, X.fieldn(s, 'area') > 0], post=post_center, contracts=['<SimplePolygon as Shape>::centroid', PT])


# ---------------------------------------------------------------- distances of a polygon
ESQ = f'<Edge as DistanceFrom<Point>>::sq_distance'
PIP = '<SimplePolygon as CollidesWith<Point>>::collides_with'
C_ESQ = Contract(ESQ, post=lambda X, r, e, p: [r >= 0], ret='f32')            # sq_distance of an edge: exact (proved above); here only that it is a function of the edge and the point
C_PIP = Contract(PIP, ret='bool')


def edge_val(X, s, i):
    x, y, u, w = edge4(X, s, i); return Agg('Edge', [Agg('Point', [x, y]), Agg('Point', [u, w])])


def nearest_edge(X, r, s, p):
    i = Int('?ne'); n = npts(X, s)
    X.binders.append(i)
    try: d = pure(X, ESQ, edge_val(X, s, i), p)
    finally: X.binders.pop()
    return [('no edge is closer', ForAll([i], Implies(And(0 <= i, i < n), r <= d))), ('attained at an edge', Exists([i], And(0 <= i, i < n, r == d)))]


distinct_next = lambda X, s: ForAll([Int('?dn')], Implies(And(0 <= Int('?dn'), Int('?dn') < npts(X, s)), Or(edge4(X, s, Int('?dn'))[0] != edge4(X, s, Int('?dn'))[2], edge4(X, s, Int('?dn'))[1] != edge4(X, s, Int('?dn'))[3])))
pd_pre = lambda X, s, p: [npts(X, s) >= 3, distinct_next(X, s)]


def post_psq(root):
    def post(X, r, s, p):
        ins = pure(X, PIP, s, p); q = r * r if root else r
        return [('zero inside', Implies(ins, r == 0)), ('not negative', r >= 0)] + [(n, Implies(Not(ins), f)) for n, f in nearest_edge(X, q, s, p)]
    return post


def post_pborder(root):
    def post(X, r, s, p):
        ins = pure(X, PIP, s, p); v = r.fields[1]
        return [('side', pos_of(X, r) == If(ins, IntVal(INT(X)), IntVal(EXT(X)))), ('not negative', v >= 0)] + nearest_edge(X, v * v if root else v, s, p)
    return post


PD = '<SimplePolygon as DistanceFrom<Point>>'
for k, root, f in (('sq_distance', False, post_psq), ('distance', True, post_psq), ('sq_distance_from_border', False, post_pborder), ('distance_from_border', True, post_pborder)):
    Spec('C13', f'{PD}::{k}', pre=pd_pre, post=f(root), contracts=[C_ESQ, C_PIP])


# ---------------------------------------------------------------- point in polygon: the crossing-parity theorem's hypothesis
def crosses(x1, y1, x2, y2, px, py):
    """the edge passes from one side of the ray's height to the other (lower end included, as in the half-open rule), to the right of the point"""
    d = (x1 - px) * (y2 - y1) + (py - y1) * (x2 - x1)
    return Or(And(y1 < py, Not(y2 < py), d > 0), And(y2 < py, Not(y1 < py), d < 0))


CNT = Function('crossings', Term, R, R, I, I)
CROSS = Function('CROSS', R, R, R, R, R, R, B)          # crosses, kept folded where its definition is not needed
lem1 = lambda f, a, b, c, d, x, y: Implies(And(b == y, a > x), f(a, b, c, d, x, y) == (d < y))
lem2 = lambda f, a, b, c, d, x, y: Implies(And(d == y, c > x), f(a, b, c, d, x, y) == (b < y))


def on_edge(a, b, c, d, x, y):
    dot, ln, cr = (x - a) * (c - a) + (y - b) * (d - b), sq(c - a) + sq(d - b), (x - a) * (d - b) - (y - b) * (c - a)
    return And(cr == 0, dot >= 0, dot <= ln)


def cnt(X, s, p, i):
    v = X.fieldn(s, 'points'); t = X.to_obj(v).term; x, y = P(p); n = npts(X, s)
    X.facts.append(CNT(t, x, y, 0) == 0)
    for k in (i, simplify(i - 1)): X.fact(Implies(And(0 <= k, k < n), CNT(t, x, y, k + 1) == CNT(t, x, y, k) + If(CROSS(*edge4(X, s, k), x, y), 1, 0))); [X.fact(l(CROSS, *edge4(X, s, k), x, y)) for l in (lem1, lem2)]
    return CNT(t, x, y, i)


def pip_pre(X, s, p):
    """coordinates that the tolerant comparison calls equal are equal, and the point is not on the border"""
    i = Int('?pp'); x, y = P(p); a, b, c, d = edge4(X, s, i); box = rect(X, X.fieldn(s, 'bbox'))
    return [npts(X, s) >= 3, distinct_next(X, s), box[0] < box[2], box[1] < box[3], ForAll([i], Implies(And(0 <= i, i < npts(X, s)), And(box[0] <= a, a <= box[2], box[1] <= b, b <= box[3], Or(b == y, Not(aeq(b, y))), Or(a == x, Not(aeq(a, x))), Not(ONE(a, b, c, d, x, y)))))]


def inv_pip(X, st, env): return [env['n_intersections'] == cnt(X, env['self'], env['point'], env['#'])]


def post_pip(X, r, s, p):
    x, y = P(p); a, b, c, d = rect(X, X.fieldn(s, 'bbox')); inb = And(a <= x, x <= c, b <= y, y <= d)
    return [('inside the bounding box, with an odd number of crossings', r == And(inb, cnt(X, s, p, npts(X, s)) % 2 == 1))] + [(f'lemma on crossings at a vertex {i}', l(crosses, *Reals('any_a any_b any_c any_d any_x any_y'))) for i, l in enumerate((lem1, lem2))]


def ray_pre(X, ray, e, on=on_edge):
    """a horizontal ray that reaches beyond the edge, its start not on the edge and no end point of the edge on it"""
    px, py, ex, ey = *P(ray.fields[0]), *P(ray.fields[1]); a, b, c, d = *P(e.fields[0]), *P(e.fields[1])
    return [py == ey, px < ex, a < ex, c < ex, Or(a != c, b != d), Or(b != py, a <= px), Or(d != py, c <= px), Not(on(a, b, c, d, px, py))]


post_ray = lambda X, r, ray, e: [('hit exactly when the edge crosses', r == crosses(*P(e.fields[0]), *P(e.fields[1]), *P(ray.fields[0])))]
KEE = '<Edge as CollidesWith<Edge>>::collides_with'
C_RAY = Contract(KEE, pre=lambda X, ray, e: ray_pre(X, ray, e, ONE), post=lambda X, r, ray, e: [r == CROSS(*P(e.fields[0]), *P(e.fields[1]), *P(ray.fields[0]))], ret='bool')       # the contract proved next, folded
Spec('C12', KEE, name='<Edge as CollidesWith<Edge>>::collides_with (ray)', pre=ray_pre, post=post_ray, split=True)
Spec('C12', PIP, pre=pip_pre, post=post_pip, invariants={('simple_polygon::collides_with', 0): Inv(inv_pip)}, contracts=[C_RAY], split=True, timeout=60)


# ---------------------------------------------------------------- construction
Spec(['C16', 'C12'], 'SimplePolygon::get_edge', pre=lambda X, s, i: [i < npts(X, s)], post=lambda X, r, s, i: [('from the vertex to the next one', And(*[x == y for x, y in zip((*P(r.fields[0]), *P(r.fields[1])), edge4(X, s, i))]))])
shoe2 = lambda X, v: SHOE(X, v, np_(X, v))
C_AREA = Contract('SimplePolygon::calculate_area', pre=lambda X, v: [np_(X, v) >= 1], post=lambda X, r, v: [2 * r == shoe2(X, v)], ret='f32')
C_BBOX = Contract('SimplePolygon::generate_bounding_box', ret='AARectangle')
C_DIA = Contract('SimplePolygon::calculate_diameter', ret='f32')
C_POI = Contract('SimplePolygon::calculate_poi', ret='Circle')


def rev_claim(X, v, w, k):
    """the first k edges of the reversed list against the last k before the closing one of the list"""
    n = np_(X, v); return SHOE(X, w, k) == SHOE(X, v, n - 1 - k) - SHOE(X, v, n - 1)


def post_spnew(X, r, v):
    f = lambda n: X.fieldn(r, n); w = f('points'); n = np_(X, v); i, j = Ints('?na ?nb'); k = Int('any_k'); cw = shoe2(X, v) < 0
    same = lambda g: ForAll([i], Implies(And(0 <= i, i < n), X.eq(X.elem(w, i), X.elem(v, g(i)))))
    rev = And(np_(X, w) == n, n >= 3, same(lambda i: n - 1 - i))
    V, W = X.sym('Vec<Point>', 'anyV'), X.sym('Vec<Point>', 'anyW'); m = np_(X, V)
    at = lambda q: And(*[a == b for a, b in zip(pt(X, W, q), pt(X, V, m - 1 - q))])
    out = [('as many vertices as given, at least three', And(np_(X, w) == n, n >= 3)), ('no vertex twice', ForAll([i, j], Implies(And(0 <= i, i < j, j < n), Not(X.eq(X.elem(v, i), X.elem(v, j)))))), ('an area', shoe2(X, v) != 0),
           ('the given order, or its reverse if that is clockwise', And(Implies(Not(cw), same(lambda i: i)), Implies(cw, same(lambda i: n - 1 - i)))),
           ('lemma: reversal, induction base', rev_claim(X, V, W, IntVal(0))),
           ('lemma: reversal, induction step', Implies(And(np_(X, W) == m, at(k), at(k + 1), 0 <= k, k < m - 1, rev_claim(X, V, W, k)), rev_claim(X, V, W, k + 1)))]
    concl = Implies(rev, rev_claim(X, v, w, n - 1))                     # by the two obligations before
    return out + [('counter-clockwise with the exact area', Implies(concl, And(f('area') > 0, 2 * f('area') == shoe2(X, w)))),
                  ('bounding box, diameter and pole of these vertices', And(X.eq(f('bbox'), pure(X, 'SimplePolygon::generate_bounding_box', w)), f('diameter') == pure(X, 'SimplePolygon::calculate_diameter', w), X.eq(f('poi'), pure(X, 'SimplePolygon::calculate_poi', w, f('diameter'))))),
                  ('no surrogate yet', Not(opt(X, f('surrogate'))[0]))]


Spec('C16', 'SimplePolygon::new', post=post_spnew, contracts=[C_AREA, C_BBOX, C_DIA, C_POI])
