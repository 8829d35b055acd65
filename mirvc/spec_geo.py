"""Contracts of the geometric primitives (C12, C13, C14, C15). Each postcondition is written from the property statement, in terms of the point
sets denoted by the operands, not from the code."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj
from models import TOL, zabs, sqrt_of

P = lambda p: (p.fields[0], p.fields[1])


def edge(e): return P(e.fields[0]) + P(e.fields[1])


def rect(X, r): return tuple(X.fieldn(r, n) for n in ('x_min', 'y_min', 'x_max', 'y_max'))


def circ(X, c): return P(X.fieldn(c, 'center')) + (X.fieldn(c, 'radius'),)


def E_valid(X, e):
    a, b, c, d = edge(e); return Or(a != c, b != d)


def R_valid(X, r):
    a, b, c, d = rect(X, r); return And(a < c, b < d)


def C_valid(X, c): return circ(X, c)[2] >= 0


def sq(x): return x * x
def mx(a, b): return If(a >= b, a, b)
def mn(a, b): return If(a <= b, a, b)


T, U = Real('any_t'), Real('any_u')       # arbitrary parameters: free in a goal = universally quantified
AX, AY = Real('any_x'), Real('any_y')     # an arbitrary point of the plane
t01 = And(T >= 0, T <= 1)
u01 = And(U >= 0, U <= 1)


def seg_pt(e, t):
    x1, y1, x2, y2 = edge(e); return x1 + t * (x2 - x1), y1 + t * (y2 - y1)


def in_rect(X, r, x, y):
    a, b, c, d = rect(X, r); return And(a <= x, x <= c, b <= y, y <= d)


def in_circ(X, c, x, y):
    cx, cy, r = circ(X, c); return sq(x - cx) + sq(y - cy) <= sq(r)


# =================================================================== C13 distances
def sqdist_seg(r, e, p):
    """r is the squared distance of p to the closest point of the segment"""
    x, y = P(p); x1, y1, x2, y2 = edge(e)
    dot, ln = (x - x1) * (x2 - x1) + (y - y1) * (y2 - y1), sq(x2 - x1) + sq(y2 - y1)
    cr = (x - x1) * (y2 - y1) - (y - y1) * (x2 - x1)
    return And(Implies(dot <= 0, r == sq(x - x1) + sq(y - y1)), Implies(dot >= ln, r == sq(x - x2) + sq(y - y2)), Implies(And(dot > 0, dot < ln), r * ln == cr * cr))


def post_sqdist(X, r, e, p):
    x, y = P(p); ax, ay = seg_pt(e, T)
    return [('no point of the segment is closer', Implies(t01, r <= sq(ax - x) + sq(ay - y))),
            ('the distance is attained on the segment', sqdist_seg(r, e, p)), ('not negative', r >= 0)]


ED = '<Edge as DistanceFrom<Point>>'
e_pre = lambda X, e, p: [E_valid(X, e)]
Spec('C13', f'{ED}::sq_distance', pre=e_pre, post=post_sqdist, split=True)
Spec('C13', f'{ED}::distance', pre=e_pre, post=lambda X, r, e, p: [('not negative', r >= 0)] + [(n, f) for n, f in post_sqdist(X, r * r, e, p) if 'negative' not in n], split=True)


def pos_of(X, t): return X.discr(t.fields[0])          # GeoPosition: Exterior=0, Interior=1 (order read from the source below)


def EXT(X): return X.crate.enums['GeoPosition'].index('Exterior')
def INT(X): return X.crate.enums['GeoPosition'].index('Interior')


Spec('C13', f'{ED}::sq_distance_from_border', pre=e_pre, post=lambda X, r, e, p: [('an edge has no interior', pos_of(X, r) == EXT(X))] + post_sqdist(X, r.fields[1], e, p), split=True)
Spec('C13', f'{ED}::distance_from_border', pre=e_pre, post=lambda X, r, e, p: [('an edge has no interior', pos_of(X, r) == EXT(X)), ('not negative', r.fields[1] >= 0)] + [(n, f) for n, f in post_sqdist(X, sq(r.fields[1]), e, p) if 'negative' not in n], split=True)

Spec('C13', 'Edge::closest_point_on_edge', pre=e_pre, split=True, post=lambda X, r, e, p: [
    ('lies on the line of the segment', (P(r)[0] - edge(e)[0]) * (edge(e)[3] - edge(e)[1]) == (P(r)[1] - edge(e)[1]) * (edge(e)[2] - edge(e)[0])),
    ('lies within the segment', And(P(r)[0] >= mn(edge(e)[0], edge(e)[2]), P(r)[0] <= mx(edge(e)[0], edge(e)[2]), P(r)[1] >= mn(edge(e)[1], edge(e)[3]), P(r)[1] <= mx(edge(e)[1], edge(e)[3]))),
    ('no point of the segment is closer', Implies(t01, sq(P(r)[0] - P(p)[0]) + sq(P(r)[1] - P(p)[1]) <= sq(seg_pt(e, T)[0] - P(p)[0]) + sq(seg_pt(e, T)[1] - P(p)[1])))])

Spec('C13', 'Point::sq_distance', post=lambda X, r, a, b: [('sum of squares', r == sq(P(a)[0] - P(b)[0]) + sq(P(a)[1] - P(b)[1]))])
Spec('C13', 'Point::distance', post=lambda X, r, a, b: [('euclidean', And(r >= 0, r * r == sq(P(a)[0] - P(b)[0]) + sq(P(a)[1] - P(b)[1])))])

# rectangles
RD = '<AARectangle as DistanceFrom<Point>>'


def rect_sq(X, r, p):
    a, b, c, d = rect(X, r); x, y = P(p)
    dx = If(x < a, a - x, If(x > c, x - c, RealVal(0))); dy = If(y < b, b - y, If(y > d, y - d, RealVal(0)))
    return sq(dx) + sq(dy)


def post_rsq(X, r, R, p):
    x, y = P(p)
    a, b, c, d = rect(X, R); cx, cy = mx(a, mn(x, c)), mx(b, mn(y, d))
    return [('no point of the rectangle is closer', Implies(in_rect(X, R, AX, AY), r <= sq(AX - x) + sq(AY - y))), ('attained at the clamped point', r == sq(cx - x) + sq(cy - y)), ('not negative', r >= 0)]


r_pre = lambda X, r, *_: [R_valid(X, r)]
Spec('C13', f'{RD}::sq_distance', pre=r_pre, post=post_rsq, split=True)
Spec('C13', f'{RD}::distance', pre=r_pre, post=lambda X, r, R, p: [('not negative', r >= 0)] + [(n, f) for n, f in post_rsq(X, r * r, R, p) if 'negative' not in n], split=True)


def post_rborder(square):
    def post(X, r, R, p):
        a, b, c, d = rect(X, R); x, y = P(p); v = r.fields[1]
        s = v if square else v * v
        ins = in_rect(X, R, x, y)
        m = mn(mn(x - a, c - x), mn(y - b, d - y))
        return [('side', pos_of(X, r) == If(ins, IntVal(INT(X)), IntVal(EXT(X)))),
                ('outside: distance to the rectangle', Implies(Not(ins), s == rect_sq(X, R, p))),
                ('inside: distance to the nearest side', Implies(ins, s == m * m)), ('not negative', v >= 0)]
    return post


Spec('C13', f'{RD}::sq_distance_from_border', pre=r_pre, post=post_rborder(True))
Spec('C13', f'{RD}::distance_from_border', pre=r_pre, post=post_rborder(False), split=True)

# circles
CD = '<Circle as DistanceFrom<Point>>'
c_pre = lambda X, c, *_: [C_valid(X, c)]


def post_cdist(square):
    def post(X, r, c, p):
        cx, cy, rad = circ(X, c); x, y = P(p)
        d2 = sq(x - cx) + sq(y - cy)
        if square:
            return [('zero inside', Implies(d2 <= sq(rad), r == 0)), ('outside: square of the distance', Implies(d2 > sq(rad), r == sq(sqrt_of(X, d2) - rad)))]
        return [('zero inside', Implies(d2 <= sq(rad), r == 0)), ('outside: distance to the disc', Implies(d2 > sq(rad), And(r >= 0, sq(r + rad) == d2)))]
    return post


Spec('C13', f'{CD}::distance', pre=c_pre, post=post_cdist(False), split=True)
Spec('C13', f'{CD}::sq_distance', pre=c_pre, post=post_cdist(True), split=True)


def post_cborder(square):
    def post(X, r, c, p):
        cx, cy, rad = circ(X, c); x, y = P(p); v = r.fields[1]
        d2 = sq(x - cx) + sq(y - cy); d = sqrt_of(X, d2)
        return [('side', pos_of(X, r) == If(d2 <= sq(rad), IntVal(INT(X)), IntVal(EXT(X)))), ('distance to the circle line', v == (sq(d - rad) if square else zabs(d - rad)))]
    return post


Spec('C13', f'{CD}::distance_from_border', pre=c_pre, post=post_cborder(False), split=True)
Spec('C13', f'{CD}::sq_distance_from_border', pre=c_pre, post=post_cborder(True), split=True)

CC = '<Circle as DistanceFrom<Circle>>'
cc_pre = lambda X, a, b: [C_valid(X, a), C_valid(X, b)]


def cc(X, a, b):
    ax, ay, ar = circ(X, a); bx, by, br = circ(X, b); return sq(ax - bx) + sq(ay - by), ar + br


def ccd(X, a, b):
    """(distance of the centres, sum of the radii)"""
    d2, rs = cc(X, a, b); return sqrt_of(X, d2), rs


def gap(X, d, rs): return mx(d - rs, RealVal(0))


Spec('C13', f'{CC}::distance', pre=cc_pre, split=True, post=lambda X, r, a, b: [('gap between the discs, zero when they meet', r == gap(X, *ccd(X, a, b)))])
Spec('C13', f'{CC}::sq_distance', pre=cc_pre, split=True, post=lambda X, r, a, b: [('square of the gap', r == sq(gap(X, *ccd(X, a, b))))])
Spec('C13', f'{CC}::distance_from_border', pre=cc_pre, split=True, post=lambda X, r, a, b: [('side', pos_of(X, r) == If(ccd(X, a, b)[0] < ccd(X, a, b)[1], IntVal(INT(X)), IntVal(EXT(X)))), ('separation or penetration depth', r.fields[1] == zabs(ccd(X, a, b)[0] - ccd(X, a, b)[1]))])
Spec('C13', f'{CC}::sq_distance_from_border', pre=cc_pre, split=True, post=lambda X, r, a, b: [('square', r.fields[1] == sq(ccd(X, a, b)[0] - ccd(X, a, b)[1]))])

CE = '<Circle as DistanceFrom<Edge>>'
ce_pre = lambda X, c, e: [C_valid(X, c), E_valid(X, e)]


KED = f'{ED}::distance'


def ced(X, c, e):
    """(distance of the centre to the segment, by the contract of Edge::distance; radius)"""
    return pure(X, KED, e, X.fieldn(c, 'center')), circ(X, c)[2]


Spec('C13', f'{CE}::distance', pre=ce_pre, contracts=[KED], post=lambda X, r, c, e: [('gap between disc and segment, zero when they meet', r == mx(ced(X, c, e)[0] - ced(X, c, e)[1], RealVal(0)))])
Spec('C13', f'{CE}::sq_distance', pre=ce_pre, contracts=[KED], post=lambda X, r, c, e: [('square of the gap', r == sq(mx(ced(X, c, e)[0] - ced(X, c, e)[1], RealVal(0))))])
Spec('C13', f'{CE}::distance_from_border', pre=ce_pre, contracts=[KED], post=lambda X, r, c, e: [('side', pos_of(X, r) == If(ced(X, c, e)[0] < ced(X, c, e)[1], IntVal(INT(X)), IntVal(EXT(X)))), ('separation or penetration depth', r.fields[1] == zabs(ced(X, c, e)[0] - ced(X, c, e)[1]))])
Spec('C13', f'{CE}::sq_distance_from_border', pre=ce_pre, contracts=[KED], post=lambda X, r, c, e: [('square', r.fields[1] == sq(ced(X, c, e)[0] - ced(X, c, e)[1]))])

# =================================================================== C12 collision predicates
def cross_terms(e1, e2):
    x1, y1, x2, y2 = edge(e1); x3, y3, x4, y4 = edge(e2)
    D = (x2 - x1) * (y4 - y3) - (y2 - y1) * (x4 - x3)
    tn = (x3 - x1) * (y4 - y3) - (y3 - y1) * (x4 - x3)          # e1(tn/D) = e2(un/D)  (Cramer)
    un = (x3 - x1) * (y2 - y1) - (y3 - y1) * (x2 - x1)
    return D, tn, un


def between0(n, D): return If(D > 0, And(n >= 0, n <= D), And(n <= 0, n >= D))


def meet(e1, e2):
    D, tn, un = cross_terms(e1, e2); return And(D != 0, between0(tn, D), between0(un, D))


def shares_tu(e1, e2):
    a, b = seg_pt(e1, T), seg_pt(e2, U); return And(t01, u01, a[0] == b[0], a[1] == b[1])


ee_pre = lambda X, a, b, *_: [E_valid(X, a), E_valid(X, b)]


def post_ee(X, r, a, b):
    D, tn, un = cross_terms(a, b)
    return [('true exactly when the crossing point of the lines lies on both segments', r == meet(a, b)), ('a common point of non-parallel segments is found', Implies(And(D != 0, shares_tu(a, b)), r)), ('parallel segments never collide', Implies(D == 0, Not(r)))]


Spec('C12', '<Edge as CollidesWith<Edge>>::collides_with', pre=ee_pre, post=post_ee, split=True)


def post_at(X, r, a, b):
    from models import opt
    c, p = opt(X, r)
    out = [('some exactly when the segments cross', c == meet(a, b))]
    if not isinstance(p, Undef):
        px, py = P(p); x1, y1, x2, y2 = edge(a); x3, y3, x4, y4 = edge(b)
        onl = lambda x, y, q, w, z, v: (x - q) * (v - w) == (y - w) * (z - q)
        out += [('the point lies on the first line', Implies(c, onl(px, py, x1, y1, x2, y2))), ('the point lies on the second line', Implies(c, onl(px, py, x3, y3, x4, y4))),
                ('the point is the common point', Implies(And(c, shares_tu(a, b)), And(px == seg_pt(a, T)[0], py == seg_pt(a, T)[1])))]
    return out


Spec('C12', 'Edge::collides_at', pre=ee_pre, post=post_at, split=True)


def rect_meets_seg(X, R, e):
    """separating axis theorem for a segment and a rectangle (both convex)"""
    a, b, c, d = rect(X, R); x1, y1, x2, y2 = edge(e)
    s = [(px - x1) * (y2 - y1) - (py - y1) * (x2 - x1) for px in (a, c) for py in (b, d)]
    return And(mx(x1, x2) >= a, mn(x1, x2) <= c, mx(y1, y2) >= b, mn(y1, y2) <= d, Or(*[v >= 0 for v in s]), Or(*[v <= 0 for v in s]))


KEE, KRE = '<Edge as CollidesWith<Edge>>::collides_with', '<AARectangle as CollidesWith<Edge>>::collides_with'
Spec('C12', KRE, pre=lambda X, R, e: [R_valid(X, R), E_valid(X, e)], contracts=[KEE], split=True, timeout=40, use=lambda X, r, R, e: [r == rect_meets_seg(X, R, e)], post=lambda X, r, R, e: [
    ('a segment that meets the rectangle is found', Implies(rect_meets_seg(X, R, e), r)), ('true only when no axis separates segment and rectangle', Implies(r, rect_meets_seg(X, R, e)))])
Spec('C12', '<Edge as CollidesWith<AARectangle>>::collides_with', pre=lambda X, e, R: [R_valid(X, R), E_valid(X, e)], contracts=[KRE], post=lambda X, r, e, R: [('as the test with the operands exchanged', r == pure(X, KRE, R, e))])


def post_rr(X, r, a, b):
    A, B = rect(X, a), rect(X, b)
    wx, wy = mx(A[0], B[0]), mx(A[1], B[1])
    return [('a common point is found', Implies(And(in_rect(X, a, AX, AY), in_rect(X, b, AX, AY)), r)), ('true only with a common point', Implies(r, And(in_rect(X, a, wx, wy), in_rect(X, b, wx, wy))))]


rr_pre = lambda X, a, b: [R_valid(X, a), R_valid(X, b)]
Spec(['C12', 'C14'], '<AARectangle as CollidesWith<AARectangle>>::collides_with', pre=rr_pre, post=post_rr)
Spec('C12', '<AARectangle as CollidesWith<Point>>::collides_with', pre=r_pre, post=lambda X, r, R, p: [('membership', r == in_rect(X, R, *P(p)))])
Spec('C12', '<Circle as CollidesWith<Point>>::collides_with', pre=c_pre, post=lambda X, r, c, p: [('membership', r == in_circ(X, c, *P(p)))])
Spec('C12', '<Circle as CollidesWith<Circle>>::collides_with', pre=cc_pre, split=True, post=lambda X, r, a, b: [('discs meet iff the centres are at most the radii apart', r == (cc(X, a, b)[0] <= sq(cc(X, a, b)[1]))),
     ('a common point is found', Implies(And(in_circ(X, a, AX, AY), in_circ(X, b, AX, AY)), r))])


def post_cr(X, r, c, R):
    cx, cy, rad = circ(X, c); a, b, e, d = rect(X, R)
    nx, ny = mx(a, mn(cx, e)), mx(b, mn(cy, d))
    return [('a common point is found', Implies(And(in_rect(X, R, AX, AY), in_circ(X, c, AX, AY)), r)), ('true only with a common point', Implies(r, And(in_rect(X, R, nx, ny), in_circ(X, c, nx, ny))))]


Spec('C12', '<Circle as CollidesWith<AARectangle>>::collides_with', pre=lambda X, c, R: [C_valid(X, c), R_valid(X, R)], post=post_cr, timeout=40)


Spec('C12', '<Circle as CollidesWith<Edge>>::collides_with', pre=ce_pre, contracts=[f'{ED}::sq_distance', KED], post=lambda X, r, c, e: [
    ('true exactly when the nearest point of the segment is in the disc', r == (pure(X, f'{ED}::sq_distance', e, X.fieldn(c, 'center')) <= sq(circ(X, c)[2])))])


def near(a, b): return zabs(a - b) <= TOL * mx(mx(zabs(a), zabs(b)), Q(1, 2 ** 126))


def apart(lo, hi): return And(lo > hi, Not(near(lo, hi)))


def post_arr(X, r, a, b):
    A, B = rect(X, a), rect(X, b)
    return [('never misses a contact', Implies(And(in_rect(X, a, AX, AY), in_rect(X, b, AX, AY)), r)),
            ('never reports rectangles apart by more than the tolerance', Implies(r, And(Not(apart(mx(A[0], B[0]), mn(A[2], B[2]))), Not(apart(mx(A[1], B[1]), mn(A[3], B[3]))))))]


Spec('C12', '<AARectangle as AlmostCollidesWith<AARectangle>>::almost_collides_with', pre=rr_pre, post=post_arr, timeout=40)


def post_arp(X, r, R, p):
    a, b, c, d = rect(X, R); x, y = P(p)
    return [('never misses a contact', Implies(in_rect(X, R, x, y), r)), ('never reports a point outside by more than the tolerance', Implies(r, And(Not(apart(a, x)), Not(apart(x, c)), Not(apart(b, y)), Not(apart(y, d)))))]


Spec('C12', '<AARectangle as AlmostCollidesWith<Point>>::almost_collides_with', pre=r_pre, post=post_arp, timeout=40)

# edge extents
for nm, f in (('x_min', lambda e: mn(e[0], e[2])), ('x_max', lambda e: mx(e[0], e[2])), ('y_min', lambda e: mn(e[1], e[3])), ('y_max', lambda e: mx(e[1], e[3]))):
    Spec(['C12', 'C14'], f'Edge::{nm}', post=lambda X, r, e, f=f: [('extreme coordinate', r == f(edge(e)))])

# =================================================================== C14 rectangle algebra
def GR(X, n): return X.crate.enums['GeoRelation'].index(n)


def subset(X, a, b):
    A, B = rect(X, a), rect(X, b); return And(B[0] <= A[0], B[1] <= A[1], A[2] <= B[2], A[3] <= B[3])


def overlap(X, a, b):
    A, B = rect(X, a), rect(X, b); return And(mx(A[0], B[0]) <= mn(A[2], B[2]), mx(A[1], B[1]) <= mn(A[3], B[3]))


def post_rel(X, r, a, b):
    d = X.discr(r)
    return [('disjoint iff no common point', (d == GR(X, 'Disjoint')) == Not(overlap(X, a, b))), ('surrounding only if it contains the other', Implies(d == GR(X, 'Surrounding'), subset(X, b, a))),
            ('enclosed only if the other contains it', Implies(d == GR(X, 'Enclosed'), subset(X, a, b))), ('intersecting only if neither contains the other', Implies(d == GR(X, 'Intersecting'), And(Not(subset(X, a, b)), Not(subset(X, b, a))))), ('a relation', And(d >= 0, d <= 3))]


Spec('C14', 'AARectangle::relation_to', pre=rr_pre, post=post_rel)


def post_arel(X, r, a, b):
    A, B = rect(X, a), rect(X, b)
    d = X.discr(r)
    clear = And(*[Not(near(A[i], B[i])) for i in range(4)])      # no pair of sides within the tolerance
    touch = Or(near(mx(A[0], B[0]), mn(A[2], B[2])), near(mx(A[1], B[1]), mn(A[3], B[3])))
    return [(n, Implies(And(clear, Not(touch)), f)) for n, f in post_rel(X, r, a, b)] + [('leans towards containment', And(Implies(subset(X, b, a), d == GR(X, 'Surrounding')), Implies(And(subset(X, a, b), Not(subset(X, b, a))), Or(d == GR(X, 'Enclosed'), d == GR(X, 'Surrounding'))))),
             ('never misses a contact', Implies(overlap(X, a, b), d != GR(X, 'Disjoint')))]


Spec('C14', 'AARectangle::almost_relation_to', pre=rr_pre, post=post_arel, timeout=60)


def post_quads(X, r, R):
    a, b, c, d = rect(X, R); mxx, myy = (a + c) / 2, (b + d) / 2
    want = [(mxx, myy, c, d), (a, myy, mxx, d), (a, b, mxx, myy), (mxx, b, c, myy)]
    return [(f'quadrant {i + 1}', And(*[x == y for x, y in zip(rect(X, X.elem(r, i)), want[i])])) for i in range(4)]


Spec('C14', 'AARectangle::quadrants', pre=r_pre, post=post_quads)
Spec('C14', 'AARectangle::corners', pre=r_pre, post=lambda X, r, R: [(f'corner {i}', And(P(X.elem(r, i))[0] == w[0], P(X.elem(r, i))[1] == w[1])) for i, w in enumerate([(rect(X, R)[2], rect(X, R)[3]), (rect(X, R)[0], rect(X, R)[3]), (rect(X, R)[0], rect(X, R)[1]), (rect(X, R)[2], rect(X, R)[1])])])


def post_edges(X, r, R):
    a, b, c, d = rect(X, R); co = [(c, d), (a, d), (a, b), (c, b)]
    return [(f'edge {i}', And(*[x == y for x, y in zip(edge(X.elem(r, i)), co[i] + co[(i + 1) % 4])])) for i in range(4)]


Spec('C14', 'AARectangle::edges', pre=r_pre, post=post_edges)


def post_inter(X, r, a, b):
    from models import opt
    c, v = opt(X, r); A, B = rect(X, a), rect(X, b)
    out = [('some iff the interiors meet', c == And(mx(A[0], B[0]) < mn(A[2], B[2]), mx(A[1], B[1]) < mn(A[3], B[3])))]
    if not isinstance(v, Undef): out.append(('exactly the common points', Implies(c, in_rect(X, v, AX, AY) == And(in_rect(X, a, AX, AY), in_rect(X, b, AX, AY)))))
    return out


Spec('C14', 'AARectangle::from_intersection', pre=rr_pre, post=post_inter)
Spec('C14', 'AARectangle::bounding_rectangle', pre=rr_pre, post=lambda X, r, a, b: [('contains both', And(subset(X, a, r), subset(X, b, r))), ('is the smallest', And(*[Or(x == y, x == z) for x, y, z in zip(rect(X, r), rect(X, a), rect(X, b))]))])


def post_square(X, r, R):
    a, b, c, d = rect(X, R); e, f, g, h = rect(X, r); m = mx(c - a, d - b)
    return [('a square on the longer side', And(g - e == m, h - f == m)), ('same centre', And(e + g == a + c, f + h == b + d)), ('contains the original', subset(X, R, r))]


Spec('C14', 'AARectangle::inflate_to_square', pre=r_pre, post=post_square)
Spec('C14', 'AARectangle::scale', pre=lambda X, R, f: [R_valid(X, R), f > 0], post=lambda X, r, R, f: [('same centre', And(rect(X, r)[0] + rect(X, r)[2] == rect(X, R)[0] + rect(X, R)[2], rect(X, r)[1] + rect(X, r)[3] == rect(X, R)[1] + rect(X, R)[3])),
     ('sides times the factor', And(rect(X, r)[2] - rect(X, r)[0] == f * (rect(X, R)[2] - rect(X, R)[0]), rect(X, r)[3] - rect(X, r)[1] == f * (rect(X, R)[3] - rect(X, R)[1])))])
Spec('C14', '<AARectangle as Shape>::centroid', pre=r_pre, post=lambda X, r, R: [('centre', And(2 * P(r)[0] == rect(X, R)[0] + rect(X, R)[2], 2 * P(r)[1] == rect(X, R)[1] + rect(X, R)[3]))])
Spec('C14', '<AARectangle as Shape>::area', pre=r_pre, post=lambda X, r, R: [('width times height', r == (rect(X, R)[2] - rect(X, R)[0]) * (rect(X, R)[3] - rect(X, R)[1]))])
Spec('C14', '<AARectangle as Shape>::diameter', pre=r_pre, post=lambda X, r, R: [('diagonal', And(r >= 0, r * r == sq(rect(X, R)[2] - rect(X, R)[0]) + sq(rect(X, R)[3] - rect(X, R)[1])))])
Spec('C14', '<AARectangle as Shape>::bbox', pre=r_pre, post=lambda X, r, R: [('itself', X.eq(r, R))])
Spec('C14', 'AARectangle::width', pre=r_pre, post=lambda X, r, R: [('width', r == rect(X, R)[2] - rect(X, R)[0])])
Spec('C14', 'AARectangle::height', pre=r_pre, post=lambda X, r, R: [('height', r == rect(X, R)[3] - rect(X, R)[1])])
Spec(['C14', 'C12'], '<Edge as Shape>::bbox', pre=lambda X, e: [E_valid(X, e)], post=lambda X, r, e: [('tight box', And(*[x == y for x, y in zip(rect(X, r), (mn(edge(e)[0], edge(e)[2]), mn(edge(e)[1], edge(e)[3]), mx(edge(e)[0], edge(e)[2]), mx(edge(e)[1], edge(e)[3])))]))])
Spec(['C14', 'C03'], '<Circle as Shape>::bbox', pre=c_pre, post=lambda X, r, c: [('tight box', And(*[x == y for x, y in zip(rect(X, r), (circ(X, c)[0] - circ(X, c)[2], circ(X, c)[1] - circ(X, c)[2], circ(X, c)[0] + circ(X, c)[2], circ(X, c)[1] + circ(X, c)[2]))]))])
Spec('C14', '<Circle as Shape>::diameter', pre=c_pre, post=lambda X, r, c: [('twice the radius', r == 2 * circ(X, c)[2])])
Spec('C13', '<Edge as Shape>::diameter', pre=lambda X, e: [E_valid(X, e)], post=lambda X, r, e: [('length', And(r >= 0, r * r == sq(edge(e)[2] - edge(e)[0]) + sq(edge(e)[3] - edge(e)[1])))])


def post_neigh(X, r):
    return []


# =================================================================== C15 transformations
def mat(X, t): return [[X.elem(X.elem(X.fieldn(t, 'matrix'), i), j) for j in range(3)] for i in range(3)]


def affine(m): return And(m[2][0] == 0, m[2][1] == 0, m[2][2] == 1)


def rigid(m): return And(affine(m), m[0][0] == m[1][1], m[0][1] == -m[1][0], sq(m[0][0]) + sq(m[1][0]) == 1)


def app(m, x, y): return m[0][0] * x + m[0][1] * y + m[0][2], m[1][0] * x + m[1][1] * y + m[1][2]


def moved(m, x, y, xx, yy):
    a, b = app(m, x, y); return And(a == xx, b == yy)


t_pre = lambda X, t, *_: [rigid(mat(X, t))]
SC = lambda X, a: __import__('models').sincos(X, a)


def rotxy(X, ang, x, y):
    s, c = SC(X, ang); return c * x - s * y, s * x + c * y


def post_chain(f):
    """applying the result = applying the old transformation, then the step"""
    def post(X, r, t, *a):
        m, n = mat(X, t), mat(X, r)
        x, y = f(X, *app(m, AX, AY), *a)
        return [('a rigid motion again', rigid(n)), ('old motion, then the step', moved(n, AX, AY, x, y))]
    return post


tr = lambda v: (v.fields[0], v.fields[1])
Spec('C15', 'Transformation::rotate', pre=t_pre, post=post_chain(lambda X, x, y, a: rotxy(X, a, x, y)), timeout=30)
Spec('C15', 'Transformation::translate', pre=t_pre, post=post_chain(lambda X, x, y, v: (x + tr(v)[0], y + tr(v)[1])), timeout=30)


def rt(X, x, y, a, v):
    x, y = rotxy(X, a, x, y); return x + tr(v)[0], y + tr(v)[1]


def trr(X, x, y, v, a): return rotxy(X, a, x + tr(v)[0], y + tr(v)[1])


Spec('C15', 'Transformation::rotate_translate', pre=t_pre, post=post_chain(rt), timeout=30)
Spec('C15', 'Transformation::translate_rotate', pre=t_pre, post=post_chain(trr), timeout=30)
Spec('C15', 'Transformation::transform', pre=lambda X, t, o: [rigid(mat(X, t)), rigid(mat(X, o))], post=post_chain(lambda X, x, y, o: app(mat(X, o), x, y)), timeout=30)
Spec('C15', 'Transformation::transform_from_decomposed', pre=t_pre, post=post_chain(lambda X, x, y, dt: rt(X, x, y, X.fieldn(dt, 'rotation'), X.fieldn(dt, 'translation'))), timeout=30)
Spec('C15', 'Transformation::empty', post=lambda X, r: [('identity', And(rigid(mat(X, r)), moved(mat(X, r), AX, AY, AX, AY)))])
Spec('C15', 'Transformation::from_translation', post=lambda X, r, v: [('translation', And(rigid(mat(X, r)), moved(mat(X, r), AX, AY, AX + tr(v)[0], AY + tr(v)[1])))])
Spec('C15', 'Transformation::from_rotation', post=lambda X, r, a: [('rotation', And(rigid(mat(X, r)), moved(mat(X, r), AX, AY, *rotxy(X, a, AX, AY))))])
Spec('C15', 'Transformation::from_dt', post=lambda X, r, dt: [('rotation, then translation', And(rigid(mat(X, r)), moved(mat(X, r), AX, AY, *rt(X, AX, AY, X.fieldn(dt, 'rotation'), X.fieldn(dt, 'translation')))))])
Spec('C15', 'DTransformation::compose', post=lambda X, r, dt: [('rotation, then translation', And(rigid(mat(X, r)), moved(mat(X, r), AX, AY, *rt(X, AX, AY, X.fieldn(dt, 'rotation'), X.fieldn(dt, 'translation')))))])
Spec('C15', 'DTransformation::new', post=lambda X, r, a, v: [('holds its arguments', And(X.fieldn(r, 'rotation') == a, tr(X.fieldn(r, 'translation'))[0] == tr(v)[0], tr(X.fieldn(r, 'translation'))[1] == tr(v)[1]))])
Spec('C15', 'DTransformation::empty', post=lambda X, r: [('neutral', And(X.fieldn(r, 'rotation') == 0, tr(X.fieldn(r, 'translation'))[0] == 0, tr(X.fieldn(r, 'translation'))[1] == 0))])
Spec('C15', 'DTransformation::rotation', post=lambda X, r, dt: [('accessor', r == X.fieldn(dt, 'rotation'))])
Spec('C15', 'DTransformation::translation', post=lambda X, r, dt: [('accessor', And(tr(r)[0] == tr(X.fieldn(dt, 'translation'))[0], tr(r)[1] == tr(X.fieldn(dt, 'translation'))[1]))])


def post_inv(X, r, t):
    m, n = mat(X, t), mat(X, r); x, y = app(m, AX, AY); u, v = app(n, AX, AY)
    return [('undoes the motion', moved(n, x, y, AX, AY)), ('is undone by the motion', moved(m, u, v, AX, AY)), ('a rigid motion', rigid(n))]


Spec('C15', 'Transformation::inverse', pre=t_pre, post=post_inv, timeout=40)


def post_dec(X, r, t):
    m = mat(X, t); a = X.fieldn(r, 'rotation'); v = X.fieldn(r, 'translation')
    x, y = rt(X, AX, AY, a, v)
    return [('same motion', moved(m, AX, AY, x, y))]


Spec('C15', 'Transformation::decompose', pre=t_pre, post=post_dec, timeout=40)
Spec('C15', 'Transformation::is_empty', post=lambda X, r, t: [('identity matrix', r == And(*[mat(X, t)[i][j] == (1 if i == j else 0) for i in range(3) for j in range(3)]))])

ptm = lambda X, t, o, n: moved(mat(X, t), *P(o), *P(n))
Spec('C15', '<Point as Transformable>::transform', pre=lambda X, p, t: [rigid(mat(X, t))], post=lambda X, r, p, t: [('moved point', ptm(X, t, X.old[0], X.new(0))), ('returns itself', X.eq(r, X.new(0)))])
Spec('C15', '<Point as TransformableFrom>::transform_from', pre=lambda X, p, q, t: [rigid(mat(X, t))], post=lambda X, r, p, q, t: [('moved reference', ptm(X, t, q, X.new(0)))])
F2 = lambda e: (e.fields[0], e.fields[1])
Spec('C15', '<Edge as Transformable>::transform', pre=lambda X, p, t: [rigid(mat(X, t))], post=lambda X, r, p, t: [('both end points moved', And(*[ptm(X, t, a, b) for a, b in zip(F2(X.old[0]), F2(X.new(0)))]))])
Spec('C15', '<Edge as TransformableFrom>::transform_from', pre=lambda X, p, q, t: [rigid(mat(X, t))], post=lambda X, r, p, q, t: [('both end points of the reference moved', And(*[ptm(X, t, a, b) for a, b in zip(F2(q), F2(X.new(0)))]))])


def circ_moved(X, t, o, n): return And(ptm(X, t, X.fieldn(o, 'center'), X.fieldn(n, 'center')), X.fieldn(o, 'radius') == X.fieldn(n, 'radius'))


Spec(['C15', 'C03'], '<Circle as Transformable>::transform', pre=lambda X, p, t: [rigid(mat(X, t))], post=lambda X, r, p, t: [('centre moved, radius kept', circ_moved(X, t, X.old[0], X.new(0)))])
Spec(['C15', 'C03'], '<Circle as TransformableFrom>::transform_from', pre=lambda X, p, q, t: [rigid(mat(X, t)), X.fieldn(p, 'radius') == X.fieldn(q, 'radius')], post=lambda X, r, p, q, t: [('centre of the reference moved, its radius', circ_moved(X, t, q, X.new(0)))])
