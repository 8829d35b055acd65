"""Contracts of the surrogate (C03): poles are discs inside the shape, piers are segments of it."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv
from models import opt
from spec_geo import P, rect
from spec_hpg import bound
from spec_qt import npts, edge4
from spec_poly import PIP, C_AREA, C_BBOX

R, I, B = RealSort(), IntSort(), BoolSort()
ED = '<Edge as DistanceFrom<Point>>::distance'
CD = '<Circle as DistanceFrom<Point>>::distance_from_border'
CC = '<Circle as CollidesWith<Point>>::collides_with'
CEN = '<AARectangle as Shape>::centroid'
C_ED = Contract(ED, post=lambda X, r, e, p: [r >= 0], ret='f32')
C_CD = Contract(CD, post=lambda X, r, c, p: [r.fields[1] >= 0], ret='(GeoPosition, f32)')
C_CC = Contract(CC, ret='bool')
C_CEN = Contract(CEN, ret='Point')
C_RDIA = Contract('<AARectangle as Shape>::diameter', ret='f32')
tm = lambda X, v: X.to_obj(v).term
PIPF = Function('PIPF', Term, R, R, R, R, R, R, B)                       # the answer of the point query; by its contract (spec_poly) it depends on vertices, box and point only
GEF = [Function(f'GEF{k}', Term, I, R) for k in range(4)]                # the i-th edge of a vertex list (contract of get_edge)
key = lambda X, s: (tm(X, X.fieldn(s, 'points')), *rect(X, X.fieldn(s, 'bbox')))
def e4_(e): return [*P(e.fields[0]), *P(e.fields[1])]


C_PIP = Contract(PIP, post=lambda X, r, s, p: [r == PIPF(*key(X, s), *P(p))], ret='bool')
C_GE = Contract('SimplePolygon::get_edge', post=lambda X, r, s, i: [x == f(tm(X, X.fieldn(s, 'points')), i) for f, x in zip(GEF, e4_(r))], ret='Edge')
edge = lambda X, s, i: (lambda v: Agg('Edge', [Agg('Point', v[:2]), Agg('Point', v[2:])]))([f(tm(X, X.fieldn(s, 'points')), i) for f in GEF])


def disc_in(X, s, p, d, poles=None, tag='di'):
    """the disc around p lies in the shape: its centre does, and no edge is closer than d; nor the border of a given pole, outside all of which the centre lies"""
    i = Int(f'?{tag}'); j = Int(f'?{tag}p')
    out = [PIPF(*key(X, s), *P(p)), ForAll([i], Implies(And(0 <= i, i < npts(X, s)), bound(X, [i], lambda: d <= pure(X, ED, edge(X, s, i), p))))]
    if poles is not None: out.append(ForAll([j], Implies(And(0 <= j, j < X.length(poles)), bound(X, [j], lambda: And(Not(pure(X, CC, X.elem(poles, j), p)), d <= pure(X, CD, X.elem(poles, j), p).fields[1])))))
    return And(*out)


def inv_dist(X, st, env):
    it, k, a = env['it'], env['#'], env['acc']; i = Int('?dd')
    return [ForAll([i], Implies(And(0 <= i, i < k), a <= it.get(i))), a >= 0]


def post_pnew(X, r, b, l, s, ps):
    d = X.fieldn(r, 'distance'); c = pure(X, CEN, b)
    return [('box and level as given', And(X.eq(X.fieldn(r, 'bbox'), b), X.fieldn(r, 'level') == l)), ('half the diagonal as radius', 2 * X.fieldn(r, 'radius') == pure(X, '<AARectangle as Shape>::diameter', b)),
            ('a positive distance only for a disc inside the shape and outside the poles', Implies(d > 0, disc_in(X, s, c, d, ps)))]


C4 = [C_GE, C_PIP, C_ED, C_CD, C_CC, C_CEN]
Spec('C03', 'POINode::new', post=post_pnew, contracts=C4 + [C_RDIA], invariants={('poinode::new', 0): Inv(inv_dist), ('poi::new', 0): Inv(inv_dist)})


# ---------------------------------------------------------------- one pole
def node_ok(X, n, s, ps): return Implies(X.fieldn(n, 'distance') > 0, DIN(X, s, pure(X, CEN, X.fieldn(n, 'bbox')), X.fieldn(n, 'distance'), ps))
DISC = Function('DISC', Term, R, R, R, R, Term, R, R, R, B)             # disc_in with poles, folded
def DIN(X, s, p, d, ps): return DISC(*key(X, s), tm(X, ps), *P(p), d)


C_PNEW = Contract('POINode::new', post=lambda X, r, b, l, s, ps: [X.eq(X.fieldn(r, 'bbox'), b), X.fieldn(r, 'level') == l, node_ok(X, r, s, ps)], ret='POINode')
Spec('C03', 'POINode::split', post=lambda X, r, n, s, ps: [('children exactly above the last level', opt(X, r)[0] == (X.fieldn(n, 'level') != 0)), ('every child as constructed', Implies(opt(X, r)[0], And(*[node_ok(X, X.elem(opt(X, r)[1], IntVal(k)), s, ps) for k in range(4)])))],
     contracts=[C_PNEW, C_CEN, Contract('AARectangle::quadrants', ret='[AARectangle; 4]')])
C_PSPL = Contract('POINode::split', post=lambda X, r, n, s, ps: [Implies(opt(X, r)[0], And(*[node_ok(X, X.elem(opt(X, r)[1], IntVal(k)), s, ps) for k in range(4)]))], ret='Option<[POINode; 4]>')


def inv_np(X, st, env):
    s, ps = X.inputs; q = env['queue']; c, b = opt(X, env['best']); got = And(X.fieldn(b, 'radius') > 0, DIN(X, s, X.fieldn(b, 'center'), X.fieldn(b, 'radius'), ps)) if not is_false(simplify(c)) else BoolVal(True); i = Int('?nq')
    return [ForAll([i], Implies(And(0 <= i, i < X.length(q)), bound(X, [i], lambda: node_ok(X, X.elem(q, i), s, ps)))), Implies(c, got)]


Spec('C03', 'generate_next_pole', post=lambda X, r, s, ps: [('a positive radius', X.fieldn(r, 'radius') > 0), ('a disc inside the shape and outside the poles', DIN(X, s, X.fieldn(r, 'center'), X.fieldn(r, 'radius'), ps))],
     contracts=[C_PNEW, C_PSPL, C_CEN, Contract('AARectangle::inflate_to_square', ret='AARectangle')], invariants={('generate_next_pole', 0): Inv(inv_np)})


# ---------------------------------------------------------------- further poles
DSH = Function('DSH', Term, R, R, R, R, R, R, R, B)                                  # the first two clauses of disc_in (inside the shape), folded
def in_shape(X, s, c): return And(X.fieldn(c, 'radius') > 0, DSH(*key(X, s), *P(X.fieldn(c, 'center')), X.fieldn(c, 'radius')))
def all_in(X, s, v, tag='ai'):
    i = Int(f'?{tag}'); return ForAll([i], Implies(And(0 <= i, i < X.length(v)), bound(X, [i], lambda: in_shape(X, s, X.elem(v, i)))))


C_GNP = Contract('generate_next_pole', post=lambda X, r, s, ps: [in_shape(X, s, r)], ret='Circle')
AREA = Contract('<Circle as Shape>::area', ret='f32')
Spec('C03', 'generate_additional_surrogate_poles', pre=lambda X, s, m, g: [in_shape(X, s, X.fieldn(s, 'poi'))], post=lambda X, r, s, m, g: [('every pole is a disc inside the shape', all_in(X, s, r, 'ap')), ('not more than asked for', X.length(r) <= m)], contracts=[C_GNP, C_CD, AREA],
     invariants={('generate_additional_surrogate_poles', 0): Inv(lambda X, st, env: [all_in(X, X.inputs[0], env['all_poles']), X.length(env['all_poles']) == env['#'] + 1]),
                 ('generate_additional_surrogate_poles', 1): Inv(lambda X, st, env: [all_in(X, X.inputs[0], env['unsorted_poles'], 'au'), all_in(X, X.inputs[0], env['sorted_poles'], 'as'), X.length(env['unsorted_poles']) + X.length(env['sorted_poles']) <= X.inputs[1]])})


# ---------------------------------------------------------------- the pole of a polygon, and its surrogate
def post_poi(X, r, v, d): return [('a positive radius', X.fieldn(r, 'radius') > 0), ('a disc inside the polygon with these vertices', DSH(tm(X, v), *rect(X, pure(X, 'SimplePolygon::generate_bounding_box', v)), *P(X.fieldn(r, 'center')), X.fieldn(r, 'radius')))]


Spec(['C03', 'C16'], 'SimplePolygon::calculate_poi', pre=lambda X, v, d: [X.length(v) >= 1], post=post_poi, contracts=[C_GNP, C_AREA, C_BBOX])
C_CHI = Contract('convex_hull_indices', ret='Vec<usize>')
C_GAP = Contract('generate_additional_surrogate_poles', pre=lambda X, s, m, g: [in_shape(X, s, X.fieldn(s, 'poi'))], post=lambda X, r, s, m, g: [all_in(X, s, r, 'ga'), X.length(r) <= m], ret='Vec<Circle>')
C_BC = Contract('Circle::bounding_circle', ret='Circle')
C_PIER = Contract('piers::generate', ret='Vec<Edge>')
C_PNEW2 = Contract('SimplePolygon::new', ret='SimplePolygon')


def post_sur(X, r, s, cfg):
    f = lambda n: X.fieldn(r, n); ps = f('poles'); n = f('n_ff_poles')
    return [('every pole is a disc inside the shape', all_in(X, s, ps, 'sp')), ('the first pole is that of the shape', And(X.length(ps) >= 1, X.eq(X.elem(ps, IntVal(0)), X.fieldn(s, 'poi')))), ('not more fail-fast poles than poles or than asked for', And(n <= X.length(ps), n <= X.fieldn(cfg, 'n_ff_poles'))),
            ('the bounding circle of the poles', X.eq(f('poles_bounding_circle'), pure(X, 'Circle::bounding_circle', ps))), ('the vertices of the hull', X.eq(f('convex_hull_indices'), pure(X, 'convex_hull_indices', s)))]


Spec('C03', 'SPSurrogate::new', pre=lambda X, s, c: [in_shape(X, s, X.fieldn(s, 'poi'))], post=post_sur, contracts=[C_CHI, C_GAP, C_BC, C_PIER, C_PNEW2])
C_SUR = Contract('SPSurrogate::new', pre=lambda X, s, c: [in_shape(X, s, X.fieldn(s, 'poi'))], post=lambda X, r, s, c: [all_in(X, s, X.fieldn(r, 'poles'), 'gs')], ret='SPSurrogate')


def post_gs(X, r, s, cfg):
    o, n = X.old[0], X.new(0); c, su = opt(X, X.fieldn(n, 'surrogate'))
    return [('everything else unchanged', And(*[X.eq(X.fieldn(o, k), X.fieldn(n, k)) for k in ('points', 'bbox', 'area', 'diameter', 'poi')])), ('a surrogate with poles inside the shape', And(c, all_in(X, n, X.fieldn(su, 'poles'), 'gt')))]


Spec(['C03', 'C16'], 'SimplePolygon::generate_surrogate', pre=lambda X, s, c: [in_shape(X, s, X.fieldn(s, 'poi'))], post=post_gs, contracts=[C_SUR])
C_POIF = Contract('SimplePolygon::calculate_poi', pre=lambda X, v, d: [X.length(v) >= 1], post=lambda X, r, v, d: [f for _, f in post_poi(X, r, v, d)], ret='Circle')
Spec(['C03', 'C16'], 'SimplePolygon::new', name='SimplePolygon::new (pole)', post=lambda X, r, v: [('the pole lies inside', in_shape(X, r, X.fieldn(r, 'poi')))], contracts=[C_AREA, C_BBOX, Contract('SimplePolygon::calculate_diameter', ret='f32'), C_POIF])


# ---------------------------------------------------------------- piers
C_AT = Contract('Edge::collides_at', ret='Option<Point>')
C_SC = Contract('Edge::scale', ret='Edge')
C_ECEN = Contract('<Edge as Shape>::centroid', ret='Point')
C_PDIST = Contract('Point::distance', post=lambda X, r, p, q: [r >= 0], ret='f32')
hit = lambda X, s, ray, k: opt(X, pure(X, 'Edge::collides_at', edge(X, s, k), ray))


def clip_ok(X, s, ray, e, wit=None, tag='co'):
    """e: the trimmed segment between two successive points where the ray meets the border, its middle inside the shape; wit: the edges met there, where known"""
    a, b, k = Ints(f'?{tag}a ?{tag}b ?{tag}k'); n = npts(X, s); st = X.fieldn(ray, 'start'); d = lambda y: pure(X, 'Point::distance', st, y)
    def parts(a, b):
        (ha, p), (hb, q), (hk, x) = [hit(X, s, ray, i) for i in (a, b, k)]
        return [('between two points of the border', And(0 <= a, a < n, 0 <= b, b < n, ha, hb, d(p) <= d(q), Not(X.eq(p, q)))), ('trimmed', X.eq(e, pure(X, 'Edge::scale', Agg('Edge', [p, q]), trim(X)))),
                ('with none in between', ForAll([k], Implies(And(0 <= k, k < n, hk), Or(d(x) <= d(p), d(q) <= d(x)))))]
    mid = [('its middle inside the shape', PIPF(*key(X, s), *P(pure(X, '<Edge as Shape>::centroid', e))))]
    if wit: return bound(X, [k], lambda: mid + parts(*wit))
    return mid + [('a trimmed piece of the ray between two successive points of the border', bound(X, [a, b, k], lambda: Exists([a, b], And(*[f for _, f in parts(a, b)]))))]


def trim(X):
    g = X.crate.consts['CLIPPING_TRIM']; return X.run(g, [], __import__('exec').State())[0][0]


def post_clip(X, r, s, ray):
    i = Int('?cl'); w = X.memo.get('places', ()); wit = (w[0][0](2 * w[1][0](i)), w[0][0](2 * w[1][0](i) + 1)) if len(w) == 2 else None
    return [(n, ForAll([i], Implies(And(0 <= i, i < X.length(r)), f))) for n, f in bound(X, [i], lambda: clip_ok(X, s, ray, X.elem(r, i), wit))]


Spec('C03', 'clip', post=post_clip, contracts=[C_PIP, C_GE, C_AT, C_SC, C_ECEN, C_PDIST])
CLIP = Function('CLIP', Term, R, R, R, R, R, R, R, R, B)                 # the segment satisfies clip_ok for some ray, folded
def clipped(X, s, e): return CLIP(*key(X, s), *e4_(e))
def all_clipped(X, s, v, tag): i = Int(f'?{tag}'); return ForAll([i], Implies(And(0 <= i, i < X.length(v)), bound(X, [i], lambda: clipped(X, s, X.elem(v, i)))))


C_CLIP = Contract('clip', post=lambda X, r, s, ray: [all_clipped(X, s, r, 'pk')], ret='Vec<Edge>')
C_PG = [C_CLIP, Contract('generate_ray_transformations', ret='Vec<Transformation>'), Contract('generate_unrepresented_point_grid', ret='Vec<Point>'), Contract('min_distances_to_rays', ret='Vec<f32>'), Contract('min_distances_to_poles', ret='Vec<f32>'), Contract('loss_function', ret='f32'),
        Contract('<Edge as Transformable>::transform_clone', ret='Edge'), Contract('<SimplePolygon as Shape>::centroid', ret='Point'), Contract('AARectangle::inflate_to_square', ret='AARectangle')]
Spec('C03', 'piers::generate', post=lambda X, r, s, n, ps: [('every pier is a clipped ray', all_clipped(X, s, r, 'pp')), ('as many as asked for', X.length(r) == n)], contracts=C_PG,
     invariants={('piers::generate', 0): Inv(lambda X, st, env: [all_clipped(X, X.inputs[0], env['selected_piers'], 'pi'), X.length(env['selected_piers']) == env['#']])})
Spec('C03', 'Edge::scale', post=lambda X, r, e, f: [('the centre stays', And(*[a + b == c + d for a, b, c, d in zip(e4_(r)[:2], e4_(r)[2:], e4_(e)[:2], e4_(e)[2:])])), ('every difference scaled', And(*[b - a == f * (d - c) for a, b, c, d in zip(e4_(r)[:2], e4_(r)[2:], e4_(e)[:2], e4_(e)[2:])]))], split=True)
