"""Contracts of the collision detection engine (C01-C05): queries over the lists of hazards, and the bookkeeping that keeps lists and quadtree in step."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv, Cut
from models import opt
from spec_qt import *

tree = lambda X, c: X.fieldn(c, 'quadtree')
LISTS = ('static_hazards', 'dynamic_hazards')
UNC = 'uncommitted_deregisters'


def hzs(X, c, l): return X.fieldn(c, l)
def hent(X, v, i): return X.fieldn(X.elem(v, i), 'entity')


def inlist(X, v, e, tag, lo=0):
    i = Int(f'?{tag}'); return Exists([i], And(lo <= i, i < X.length(v), X.eq(hent(X, v, i), e)))


def listed_haz(X, c, e, tag='ll'): return Or(*[inlist(X, hzs(X, c, l), e, tag + l[0]) for l in LISTS])


def distinct(X, v, w, tag, lv=0, lw=0):
    i, j = Int(f'?{tag}i'), Int(f'?{tag}j')
    rel = i < j if v is w else BoolVal(True)
    return ForAll([i, j], Implies(And(lv <= i, i < X.length(v), lw <= j, j < X.length(w), rel), Not(X.eq(hent(X, v, i), hent(X, w, j)))))


def cde_inv(X, c, tag='c', un=None, lo=0):
    """the quadtree is good; its root knows exactly the listed hazards (active) and the pending removals (inactive); no entity is listed twice; listed hazards are active and well-formed.
    un, lo: the pending removals are un[lo..] instead of the engine's list (for the loops that drain it)"""
    q = tree(X, c); v = vec(X, haz(X, q)); out = [('the quadtree is good', GOOD(tm(X, q)))]
    st, dy = (hzs(X, c, l) for l in LISTS); un = hzs(X, c, UNC) if un is None else un
    out += named('root vector', vec_inv(X, haz(X, q), tag + 'v')) + [('root entities unique', unique(X, haz(X, q), tag + 'u'))]
    out.append(('the box of the quadtree', And(*[p == r for p, r in zip(rect(X, X.fieldn(q, 'bbox')), rect(X, X.fieldn(c, 'bbox')))])))
    i, k = Int(f'?{tag}i'), Int(f'?{tag}k'); act = lambda k: X.fieldn(X.elem(v, k), 'active')
    for w, on, nm, lo_ in ((st, True, 'static', 0), (dy, True, 'dynamic', 0), (un, False, 'pending', lo)):
        out.append((f'every {nm} hazard is {"active" if on else "inactive"} in the quadtree', ForAll([i], Implies(And(lo_ <= i, i < X.length(w)), Exists([k], And(0 <= k, k < X.length(v), X.eq(ent(X, v, k), hent(X, w, i)), act(k) == BoolVal(on)))))))
    e = ent(X, v, k)
    out.append(('every active hazard of the quadtree is listed', ForAll([k], Implies(And(0 <= k, k < X.length(v), act(k)), Or(inlist(X, st, e, tag + 's'), inlist(X, dy, e, tag + 'd'))))))
    out.append(('every inactive hazard of the quadtree is a pending removal', ForAll([k], Implies(And(0 <= k, k < X.length(v), Not(act(k))), inlist(X, un, e, tag + 'p', lo)))))
    L = lambda w: lo if w is un else 0
    for n, (a, b) in enumerate(((st, st), (dy, dy), (un, un), (st, dy), (st, un), (dy, un))): out.append((f'entities are distinct {n}', distinct(X, a, b, f'{tag}x{n}', L(a), L(b))))
    for w, nm in ((st, 'static'), (dy, 'dynamic'), (un, 'pending')):
        h = X.elem(w, i)
        out.append((f'{nm} hazards are active and well-formed', ForAll([i], Implies(And(L(w) <= i, i < X.length(w)), And(X.fieldn(h, 'active'), wfh(X, h))))))
    return out


def inv_pre(X, c): return [f for _, f in cde_inv(X, c)]


# ---------------------------------------------------------------- queries
def rel_listed(X, c, e, irr, tag='rl'): return And(listed_haz(X, c, e, tag), Not(contains(X, irr, e, tag + 'c')))


def within(X, shape, c):
    a, b = rect(X, X.fieldn(shape, 'bbox')), rect(X, X.fieldn(c, 'bbox'))
    return And(b[0] <= a[0], b[1] <= a[1], a[2] <= b[2], a[3] <= b[3])


def onedge(X, shape, x, y, tag='oe'):
    i = Int(f'?{tag}'); return Exists([i], And(0 <= i, i < npts(X, shape), ONE(*edge4(X, shape, i), x, y)))


def post_edge_int(X, r, c, shape, irr):
    x, y = pts('ei'); i = Int('?eii'); j = Int('?eij'); e = Const('?ee', Term); out = []
    for l in LISTS:
        w = hzs(X, c, l); t = hent(X, w, i)
        out.append((f'complete: an edge meets the border of a relevant {l}', ForAll([i, j, x, y], Implies(And(0 <= i, i < X.length(w), Not(contains(X, irr, t, 'ec')), 0 <= j, j < npts(X, shape), ONE(*edge4(X, shape, j), x, y), BD(tm(X, t), x, y)), r))))
    eo = Obj(e, 'HazardEntity')
    out.append(('sound: an edge meets the region of a relevant hazard', Implies(r, Exists([e, x, y], And(rel_listed(X, c, eo, irr, 'es'), onedge(X, shape, x, y), IN(e, x, y))))))
    return out


Spec('C01', 'CDEngine::poly_collides_by_edge_intersection', pre=lambda X, c, shape, irr: inv_pre(X, c) + poly_box(X, shape) + [within(X, shape, c)] + onseg_def(), post=post_edge_int, contracts=[C_COLLIDES], timeout=60)


def regdef(X, e, shape, tag='rd'):
    """the part of WFH that says what the region of a hazard is"""
    t, s = tm(X, e), tm(X, shape); x, y = pts(tag); i = Int(f'?{tag}i')
    return [ForAll([x, y], BD(t, x, y) == Exists([i], And(0 <= i, i < npts(X, shape), ONE(*edge4(X, shape, i), x, y)))), ForAll([x, y], Implies(BD(t, x, y), IN(t, x, y))),
            ForAll([x, y], Implies(Not(BD(t, x, y)), IN(t, x, y) == If(interior(X, e), INS(s, x, y), Not(INS(s, x, y)))))]


def poi(X, shape): return X.fieldn(X.fieldn(shape, 'poi'), 'center').fields


def valid(X, r): a = rect(X, r); return And(a[0] < a[2], a[1] < a[3])


def GR(X, n): return X.crate.enums['GeoRelation'].index(n)


def contained_formula(X, r, c, shape, h):
    e, hs = X.fieldn(h, 'entity'), X.fieldn(h, 'shape')
    d = X.discr(pure(X, 'AARectangle::almost_relation_to', X.fieldn(hs, 'bbox'), X.fieldn(shape, 'bbox')))
    ps, ph = poi(X, shape), poi(X, hs); t = tm(X, e)
    ins = INS(tm(X, shape), *ph)
    return d, [('the hazard box surrounds the shape: the interior point of the shape decides', Implies(And(d == GR(X, 'Surrounding'), Not(BD(t, *ps))), r == IN(t, *ps))),
               ('the shape surrounds the hazard box: the interior point of the hazard decides', Implies(And(d == GR(X, 'Enclosed'), Not(onedge(X, shape, *ph, 'cf'))), r == If(interior(X, e), ins, Not(ins)))),
               ('neither: only an exterior hazard is hit', Implies(Or(d == GR(X, 'Disjoint'), d == GR(X, 'Intersecting')), r == Not(interior(X, e))))]


def pre_contained(X, c, shape, h):
    e, hs = X.fieldn(h, 'entity'), X.fieldn(h, 'shape')
    return inv_pre(X, c) + [listed_haz(X, c, e, 'pl'), valid(X, X.fieldn(shape, 'bbox')), valid(X, X.fieldn(hs, 'bbox')), inbox(X, X.fieldn(c, 'bbox'), *poi(X, shape))] + regdef(X, e, hs)


AREL = 'AARectangle::almost_relation_to'
Spec(['C01', 'C02'], 'CDEngine::poly_or_hazard_are_contained', pre=pre_contained, post=lambda X, r, c, shape, h: contained_formula(X, r, c, shape, h)[1], contracts=[C_DEFW, C_CONTAINS, AREL], timeout=60)


POH = 'CDEngine::poly_or_hazard_are_contained'
C_POH = Contract(POH, pre=lambda X, c, shape, h: inv_pre(X, c) + [listed_haz(X, c, X.fieldn(h, 'entity'), 'pl'), wfh(X, h), valid(X, X.fieldn(shape, 'bbox')), inbox(X, X.fieldn(c, 'bbox'), *poi(X, shape))],
                 post=lambda X, r, c, shape, h: contained_formula(X, r, c, shape, h)[1], ret='bool')
# inside the callers the answer of the containment test is an uninterpreted predicate of engine, shape and hazard whose meaning is the contract above
C_POHU = Contract(POH, pre=C_POH.pre, ret='bool')


def post_by_cont(X, r, c, shape, irr):
    out = []; i = Int('?bi'); sound = []
    for l in LISTS:
        w = hzs(X, c, l); h = X.elem(w, i); hit = And(0 <= i, i < X.length(w), Not(contains(X, irr, X.fieldn(h, 'entity'), 'bc')), pure(X, POH, c, shape, h))
        out.append((f'complete: a relevant hazard of {l} that contains the shape or is contained', ForAll([i], Implies(hit, r))))
        sound.append(Exists([i], hit))
    return out + [('sound: some relevant hazard contains the shape or is contained', Implies(r, Or(*sound)))]


pre_q = lambda X, c, shape, irr: inv_pre(X, c) + [valid(X, X.fieldn(shape, 'bbox')), inbox(X, X.fieldn(c, 'bbox'), *poi(X, shape))]
Spec(['C01'], 'CDEngine::poly_collides_by_containment', pre=pre_q, post=post_by_cont, contracts=[C_POHU], timeout=60)


def subset(X, a, b):
    A, B_ = rect(X, a), rect(X, b); return And(B_[0] <= A[0], B_[1] <= A[1], A[2] <= B_[2], A[3] <= B_[3])


def post_poly(X, r, c, shape, irr):
    cb, sb = X.fieldn(c, 'bbox'), X.fieldn(shape, 'bbox')
    inside = And(subset(X, sb, cb), Not(subset(X, cb, sb)))
    out = [('a shape that is not within the box of the engine collides', Implies(Not(subset(X, sb, cb)), r))]
    ei, bc = post_edge_int(X, r, c, shape, irr), post_by_cont(X, r, c, shape, irr)
    out += ei[:-1] + bc[:-1]
    # sound: the disjunction of the two soundness statements
    es, bs = ei[-1][1].arg(1), bc[-1][1].arg(1)
    return out + [('sound: outside the box, an edge meets the region of a relevant hazard, or containment', Implies(r, Or(Not(inside), es, bs)))]


pre_poly = lambda X, c, shape, irr: inv_pre(X, c) + [valid(X, X.fieldn(shape, 'bbox')), valid(X, X.fieldn(c, 'bbox')), inbox(X, X.fieldn(shape, 'bbox'), *poi(X, shape))] + poly_box(X, shape) + onseg_def()
Spec('C01', 'CDEngine::poly_collides', pre=pre_poly, post=post_poly, contracts=['CDEngine::poly_collides_by_edge_intersection', 'CDEngine::poly_collides_by_containment', 'AARectangle::relation_to', C_POHU], timeout=60)


# definite answers
def listed_def(X, r, c, q, rel, outside):
    d = X.discr(r); e = Const('?de', Term); eo = Obj(e, 'HazardEntity'); x, y = pts('dq')
    return [('a definite yes is right', Implies(And(d == 0, Not(outside)), Exists([e, x, y], And(rel(eo), inq(X, q, x, y), IN(e, x, y))))),
            ('a definite no is right', Implies(d == 1, And(Not(outside), ForAll([e, x, y], Implies(And(rel(eo), inq(X, q, x, y), inbox(X, X.fieldn(c, 'bbox'), x, y)), Not(IN(e, x, y)))))))]


cb_pre = lambda X, c, *a: inv_pre(X, c) + [valid(X, X.fieldn(c, 'bbox'))]


def post_pdw(X, r, c, p, e):
    out = Not(inbox(X, X.fieldn(c, 'bbox'), *p.fields)); t = tm(X, e); d = X.discr(r)
    return [('outside the engine: no answer', Implies(out, d == 2)), ('a definite yes is right', Implies(d == 0, And(listed_haz(X, c, e, 'pd'), IN(t, *p.fields)))), ('a definite no is right', Implies(And(d == 1, listed_haz(X, c, e, 'pd')), Not(IN(t, *p.fields))))]


def post_edc(X, r, c, q, irr):
    out = Not(And(inbox(X, X.fieldn(c, 'bbox'), *q.fields[0].fields), inbox(X, X.fieldn(c, 'bbox'), *q.fields[1].fields)))
    return [('an end point outside the engine is a definite yes', Implies(out, X.discr(r) == 0))] + listed_def(X, r, c, q, lambda e: rel_listed(X, c, e, irr, 'ed'), out)


def post_cdc(X, r, c, q, irr):
    out = Not(inbox(X, X.fieldn(c, 'bbox'), *q.fields[0].fields))
    return [('a centre outside the engine is a definite yes', Implies(out, X.discr(r) == 0))] + listed_def(X, r, c, q, lambda e: rel_listed(X, c, e, irr, 'cd'), out)


Spec('C04', 'CDEngine::point_definitely_collides_with', pre=cb_pre, post=post_pdw, contracts=[C_DEFW], timeout=60)
Spec('C04', 'CDEngine::edge_definitely_collides', pre=cb_pre, post=post_edc, contracts=[C_DEFC], timeout=60)
Spec('C04', 'CDEngine::circle_definitely_collides', pre=cb_pre, post=post_cdc, contracts=[C_DEFC], timeout=60)


# ---------------------------------------------------------------- collecting hazards
EXT = lambda X: X.crate.enums['HazardEntity'].index('BinExterior')
C_CENTROID = Contract('<T as Shape>::centroid', ret='Point', assumed=True)


def post_within(X, r, c, q, irr, det):
    old, new = X.old[3], X.new(3); n, m = X.length(old), X.length(new); i, j = Int('?wi'), Int('?wj'); x, y = pts('w'); out = []
    e = X.elem(new, j)
    out.append(('what was in the list is kept', And(m >= n, ForAll([i], Implies(And(0 <= i, i < n), X.eq(X.elem(new, i), X.elem(old, i)))))))
    out.append(('nothing is reported twice', ForAll([i, j], Implies(And(n <= j, j < m, 0 <= i, i < j), Not(X.eq(X.elem(new, i), X.elem(new, j)))))))
    cen = pure(X, '<T as Shape>::centroid', q)
    outside = And(Not(inbox(X, X.fieldn(c, 'bbox'), *cen.fields)), n == 0, m == 1)
    out.append(('only relevant hazards that the query meets, or the exterior for a query outside the engine', ForAll([j], Implies(And(n <= j, j < m), And(Not(contains(X, irr, e, 'wn')), Or(And(listed_haz(X, c, e, 'wl'), Exists([x, y], And(inq(X, q, x, y), IN(tm(X, e), x, y)))), And(outside, X.discr(e) == EXT(X))))))))
    for l in LISTS:
        w = hzs(X, c, l); t = hent(X, w, i)
        out.append((f'every relevant hazard of {l} whose border the query meets in the box is in the list', ForAll([i, x, y], Implies(And(0 <= i, i < X.length(w), Not(contains(X, irr, t, 'wc')), inq(X, q, x, y), inbox(X, X.fieldn(c, 'bbox'), x, y), BD(tm(X, t), x, y)), contains(X, new, t, 'wk')))))
    out.append(('a query outside the engine that meets nothing is reported to meet the exterior', Implies(And(Not(inbox(X, X.fieldn(c, 'bbox'), *cen.fields)), Not(X.crate and contains_ext(X, irr))), m >= 1)))
    return out


def contains_ext(X, v):
    k = Int('?xk'); return Exists([k], And(0 <= k, k < X.length(v), X.discr(X.elem(v, k)) == EXT(X)))


Spec('C02', 'CDEngine::hazards_within', pre=cb_pre, post=post_within, contracts=[C_COLLECT, C_CENTROID], timeout=60)


def coll_common(X, old, irr, new, ok, tag):
    """new = old ++ irr ++ distinct elements, none of them already there, each ok"""
    n, q, m = X.length(old), X.length(irr), X.length(new); i, j = Int(f'?{tag}i'), Int(f'?{tag}j')
    return [m >= n + q, ForAll([i], Implies(And(0 <= i, i < n), X.eq(X.elem(new, i), X.elem(old, i)))), ForAll([i], Implies(And(0 <= i, i < q), X.eq(X.elem(new, n + i), X.elem(irr, i)))), ForAll([i], Implies(And(n <= i, i < n + q), X.eq(X.elem(new, i), X.elem(irr, i - n)))),
            ForAll([i, j], Implies(And(n + q <= j, j < m, 0 <= i, i < j), Not(X.eq(X.elem(new, i), X.elem(new, j))))), ForAll([j], Implies(And(n + q <= j, j < m), ok(X.elem(new, j))))]


def meets_listed(X, c, pred, new, tag):
    """every listed hazard satisfying pred(entity) is in new"""
    out = []; i = Int(f'?{tag}i')
    for l in LISTS:
        w = hzs(X, c, l); t = hent(X, w, i)
        out.append(ForAll([i], Implies(And(0 <= i, i < X.length(w), pred(t)), contains(X, new, t, tag + 'c'))))
    return out


def edge_hit(X, shape, e, upto, tag, what=None):
    j = Int(f'?{tag}j'); x, y = pts(tag)
    return Exists([j, x, y], And(0 <= j, j < upto, ONE(*edge4(X, shape, j), x, y), (BD if what is None else what)(tm(X, e), x, y)))


def edge_complete(X, c, shape, upto, new, tag):
    out = []; i, j = Int(f'?{tag}i'), Int(f'?{tag}j'); x, y = pts(tag)
    for l in LISTS:
        w = hzs(X, c, l); t = hent(X, w, i)
        out.append(ForAll([i, j, x, y], Implies(And(0 <= i, i < X.length(w), 0 <= j, j < upto, ONE(*edge4(X, shape, j), x, y), BD(tm(X, t), x, y)), contains(X, new, t, tag + 'c'))))
    return out


def cont_hit(X, c, shape, e, tag):
    i = Int(f'?{tag}'); out = []
    for l in LISTS:
        w = hzs(X, c, l); h = X.elem(w, i)
        out.append(Exists([i], And(0 <= i, i < X.length(w), X.eq(hent(X, w, i), e), pure(X, POH, c, shape, h))))
    return Or(*out)


def inv_cp1(X, st, env):
    c, shape, irr, new, old, p = env['self'], env['shape'], env['irrelevant_hazards'], env['detected'], X.old[3], env['#']
    return coll_common(X, old, irr, new, lambda e: And(listed_haz(X, c, e, 'c1l'), edge_hit(X, shape, e, npts(X, shape), 'c1h', IN)), 'c1') + edge_complete(X, c, shape, p, new, 'c1e')


def inv_cp2(X, st, env):
    c, shape, irr, new, old, p = env['self'], env['shape'], env['irrelevant_hazards'], env['detected'], X.old[3], env['#']
    i = Int('?c2i'); out = coll_common(X, old, irr, new, lambda e: And(listed_haz(X, c, e, 'c2l'), Or(edge_hit(X, shape, e, npts(X, shape), 'c2h', IN), cont_hit(X, c, shape, e, 'c2c'))), 'c2') + edge_complete(X, c, shape, npts(X, shape), new, 'c2e')
    off = IntVal(0)
    for l in LISTS:
        w = hzs(X, c, l); h = X.elem(w, i)
        out.append(ForAll([i], Implies(And(0 <= i, i < X.length(w), i + off < p, pure(X, POH, c, shape, h)), contains(X, new, hent(X, w, i), 'c2k'))))
        off = off + X.length(w)
    return out


def post_cpc(X, r, c, shape, irr, det):
    old, new = X.old[3], X.new(3); n, m = X.length(old), X.length(new); i, j = Int('?ci'), Int('?cj'); x, y = pts('cp'); out = []
    e = X.elem(new, j)
    out.append(('what was in the list is kept', And(m >= n, ForAll([i], Implies(And(0 <= i, i < n), X.eq(X.elem(new, i), X.elem(old, i)))))))
    out.append(('nothing is reported twice', ForAll([i, j], Implies(And(n <= j, j < m, 0 <= i, i < j), Not(X.eq(X.elem(new, i), X.elem(new, j)))))))
    out.append(('only relevant hazards are added', ForAll([j], Implies(And(n <= j, j < m), And(listed_haz(X, c, e, 'cpl'), Not(contains(X, irr, e, 'cpi')))))))
    out.append(('only hazards whose region an edge meets, or containment', ForAll([j], Implies(And(n <= j, j < m), Or(edge_hit(X, shape, e, npts(X, shape), 'cph', IN), cont_hit(X, c, shape, e, 'cpc'))))))
    for l in LISTS:
        w = hzs(X, c, l); h = X.elem(w, i); t = hent(X, w, i); rel = And(0 <= i, i < X.length(w), Not(contains(X, irr, t, 'cpn')))
        out.append((f'every relevant hazard of {l} whose border an edge meets is in the list', ForAll([i, j, x, y], Implies(And(rel, 0 <= j, j < npts(X, shape), ONE(*edge4(X, shape, j), x, y), BD(tm(X, t), x, y)), contains(X, new, t, 'cpk')))))
        out.append((f'every relevant hazard of {l} that contains the shape or is contained is in the list', ForAll([i], Implies(And(rel, pure(X, POH, c, shape, h)), contains(X, new, t, 'cpk')))))
    return out


pre_cpc = lambda X, c, shape, irr, det: pre_poly(X, c, shape, irr) + [within(X, shape, c)]
Spec('C02', 'CDEngine::collect_poly_collisions', pre=pre_cpc, post=post_cpc, contracts=[C_COLLECT, C_POHU], invariants={('cd_engine::collect_poly_collisions', 0): Inv(inv_cp1), ('cd_engine::collect_poly_collisions', 1): Inv(inv_cp2)}, timeout=60)


# ---------------------------------------------------------------- registering and deregistering hazards (C05)
C_HREG = Contract('HazardProximityGrid::register_hazard', ret='()', modifies=(0,))
C_HDEREG = Contract('HazardProximityGrid::deregister_hazard', ret='()', modifies=(0,))
hpg_dirty = lambda X, g: X.length(X.fieldn(g, 'uncommitted_deregisters')) > 0
C_HFLUSH = Contract('HazardProximityGrid::flush_deregisters', post=lambda X, r, g, it: [Not(hpg_dirty(X, X.new(0)))], ret='()', modifies=(0,))
NODE_ACT = {on: Contract(f'QTNode::{nm}', pre=lambda X, node, e, on=on: [GOOD(tm(X, node))] + pre_act(on)(X, node, e), post=lambda X, r, node, e, on=on: post_node_act(on, True)(X, r, node, e) + [('', unique(X, haz(X, X.new(0)), 'nu'))], ret='()', modifies=(0,)) for on, nm in ((True, 'activate_hazard'), (False, 'deactivate_hazard'))}


def same_list(X, v, w, tag):
    i = Int(f'?{tag}'); return And(X.length(v) == X.length(w), ForAll([i], Implies(And(0 <= i, i < X.length(v)), X.eq(X.elem(v, i), X.elem(w, i)))))


def members(X, new, old, gone, extra, tag):
    """entities of new = entities of old without gone, plus extra (entities or None)"""
    e = Const(f'?{tag}e', Term); eo = Obj(e, 'HazardEntity')
    base = inlist(X, old, eo, tag + 'o')
    if gone is not None: base = And(base, Not(X.eq(eo, gone)))
    if extra is not None: base = Or(base, X.eq(eo, extra))
    return ForAll([e], inlist(X, new, eo, tag + 'n') == base)


def keeps_frame(X, old, new):
    return [('the static hazards stay', same_list(X, hzs(X, old, 'static_hazards'), hzs(X, new, 'static_hazards'), 'ks')), ('the box stays', And(*[p == q for p, q in zip(rect(X, X.fieldn(old, 'bbox')), rect(X, X.fieldn(new, 'bbox')))]))]


def pre_cde_reg(X, c, h):
    e = X.fieldn(h, 'entity'); un = hzs(X, c, UNC); i = Int('?pri')
    return inv_pre(X, c) + [Not(listed_haz(X, c, e, 'pr')), X.fieldn(h, 'active'), wfh(X, h)]


def post_cde_reg(X, r, c, h):
    old, new = X.old[0], X.new(0); e = X.fieldn(h, 'entity'); d = 'dynamic_hazards'
    return cde_inv(X, new, 'rn') + keeps_frame(X, old, new) + [('the dynamic hazards are the old ones and the new one', members(X, hzs(X, new, d), hzs(X, old, d), None, e, 'rd')), ('the entity is no longer pending', members(X, hzs(X, new, UNC), hzs(X, old, UNC), e, None, 'ru')), ('one more hazard', X.length(hzs(X, new, d)) == X.length(hzs(X, old, d)) + 1)]


Spec('C05', 'CDEngine::register_hazard', pre=pre_cde_reg, post=post_cde_reg, contracts=[C_NREG, NODE_ACT[True], C_QFROM, C_HREG], timeout=60)


def pre_cde_dereg(X, c, e, now): return inv_pre(X, c) + [inlist(X, hzs(X, c, 'dynamic_hazards'), e, 'pd')]


def post_cde_dereg(X, r, c, e, now):
    old, new = X.old[0], X.new(0); d = 'dynamic_hazards'
    eo = Obj(Const('?dqe', Term), 'HazardEntity')
    pend = ForAll([eo.term], inlist(X, hzs(X, new, UNC), eo, 'dqn') == Or(inlist(X, hzs(X, old, UNC), eo, 'dqo'), And(Not(now), X.eq(eo, e))))
    return cde_inv(X, new, 'rn') + keeps_frame(X, old, new) + [('the dynamic hazards are the old ones without it', members(X, hzs(X, new, d), hzs(X, old, d), e, None, 'dd')), ('it is pending unless committed at once', pend), ('one hazard less', X.length(hzs(X, new, d)) == X.length(hzs(X, old, d)) - 1)]


Spec('C05', 'CDEngine::deregister_hazard', pre=pre_cde_dereg, post=post_cde_dereg, contracts=[C_NDEREG, NODE_ACT[False], C_HDEREG], timeout=60)


def hpg(X, c): return opt(X, X.fieldn(c, 'haz_prox_grid'))


def inv_commit(X, st, env):
    c, p, old = env['self'], env['#'], X.old[0]
    d = 'dynamic_hazards'
    return [f for _, f in cde_inv(X, c, 'ic', hzs(X, old, UNC), p) + keeps_frame(X, old, c)] + [X.length(hzs(X, c, UNC)) == 0, same_list(X, hzs(X, old, d), hzs(X, c, d), 'ids')]


def post_commit(X, r, c):
    old, new = X.old[0], X.new(0); d = 'dynamic_hazards'
    return cde_inv(X, new, 'rn') + keeps_frame(X, old, new) + [('the dynamic hazards stay', same_list(X, hzs(X, old, d), hzs(X, new, d), 'cs')), ('nothing is pending', X.length(hzs(X, new, UNC)) == 0), ('the proximity grid is up to date', Implies(hpg(X, new)[0], Not(hpg_dirty(X, hpg(X, new)[1]))))]


Spec('C05', 'CDEngine::commit_deregisters', pre=lambda X, c: inv_pre(X, c), post=post_commit, contracts=[C_NDEREG, C_HFLUSH], invariants={('cd_engine::commit_deregisters', 0): Inv(inv_commit)}, timeout=60)


def sgrid(X, s): return opt(X, X.fieldn(s, 'grid'))


def post_snapshot(X, r, c):
    old, new = X.old[0], X.new(0); d = 'dynamic_hazards'; g, gv = hpg(X, new); sg, sv = sgrid(X, r)
    out = cde_inv(X, new, 'rn') + keeps_frame(X, old, new) + [('the dynamic hazards stay', same_list(X, hzs(X, old, d), hzs(X, new, d), 'cs')), ('nothing is pending', X.length(hzs(X, new, UNC)) == 0),
           ('the snapshot has the dynamic hazards', same_list(X, X.fieldn(r, d), hzs(X, old, d), 'cr')), ('the snapshot has a grid iff the engine has one', sg == g)]
    if not isinstance(sv, Undef): out.append(('the snapshot has the grid of the engine', Implies(g, X.eq(sv, X.fieldn(gv, 'grid')))))
    return out


Spec('C05', 'CDEngine::create_snapshot', pre=lambda X, c: inv_pre(X, c), post=post_snapshot, contracts=['CDEngine::commit_deregisters'], timeout=60)


# restoring: the lists of the engine become those of the snapshot
C_HRESTORE = Contract('HazardProximityGrid::restore', pre=lambda X, g, n: [X.length(X.fieldn(X.fieldn(g, 'grid'), 'cells')) == X.length(X.fieldn(n, 'cells'))], post=lambda X, r, g, n: [Not(hpg_dirty(X, X.new(0))), X.eq(X.fieldn(X.new(0), 'grid'), n)], ret='()', modifies=(0,))


def snap_list(X, s): return X.fieldn(s, 'dynamic_hazards')


def pre_restore(X, c, s):
    w = snap_list(X, s); i = Int('?sni'); g, gv = hpg(X, c); sg, sv = sgrid(X, s)
    return inv_pre(X, c) + [distinct(X, w, w, 'snd'), distinct(X, hzs(X, c, 'static_hazards'), w, 'sns'), ForAll([i], Implies(And(0 <= i, i < X.length(w)), And(X.fieldn(X.elem(w, i), 'active'), wfh(X, X.elem(w, i))))),
                            Implies(g, And(sg, X.length(X.fieldn(X.fieldn(gv, 'grid'), 'cells')) == X.length(X.fieldn(sv, 'cells'))))]


def forall_e(tag, f):
    e = Const(f'?{tag}', Term); return ForAll([e], f(Obj(e, 'HazardEntity')))


def post_restore(X, r, c, s):
    old, new = X.old[0], X.new(0); g, gv = hpg(X, new)
    out = cde_inv(X, new, 'rn') + keeps_frame(X, old, new) + [('exactly the hazards of the snapshot are registered', forall_e('rse', lambda e: memb(X, hzs(X, new, 'dynamic_hazards'), e) == memb(X, snap_list(X, s), e))), ('nothing is pending', X.length(hzs(X, new, UNC)) == 0),
           ('the engine has a grid iff it had one', g == hpg(X, old)[0])]
    if not isinstance(gv, Undef): out += [('the grid is that of the snapshot', Implies(g, X.eq(X.fieldn(gv, 'grid'), sgrid(X, s)[1]))), ('the grid is up to date', Implies(g, Not(hpg_dirty(X, gv))))]
    return out


def setof(X, v, e, tag, lo=0, hi=None):
    i = Int(f'?{tag}'); return Exists([i], And(lo <= i, i < (X.length(v) if hi is None else hi), X.eq(X.elem(v, i), e)))


def set_distinct(X, v, tag):
    i, j = Int(f'?{tag}i'), Int(f'?{tag}j'); return ForAll([i, j], Implies(And(0 <= i, i < j, j < X.length(v)), Not(X.eq(X.elem(v, i), X.elem(v, j)))))


def inpre(X, v, e, p, tag):
    i = Int(f'?{tag}'); return Exists([i], And(0 <= i, i < p, X.eq(hent(X, v, i), e)))


def memb(X, v, e, *_):
    """some hazard of the list has the entity, as a defined symbol (witness function and introduction rule as background facts)"""
    t = tm(X, v); M, W = Function('memb', Term, Term, B), Function('membw', Term, Term, I); x, k = Const('?mx', Term), Int('?mk')
    if ('memb', t.get_id()) not in X.memo:
        X.memo[('memb', t.get_id())] = t
        o = Obj(t, 'Vec<Hazard>'); n = X.length(o); ek = tm(X, hent(X, o, k)); w = W(t, x); ite = has_ite(t)
        f = Implies(M(t, x), And(0 <= w, w < n, tm(X, hent(X, o, w)) == x)); g = Implies(And(0 <= k, k < n), M(t, ek))
        X.facts.append(ForAll([x], f) if ite else ForAll([x], f, patterns=[M(t, x)]))
        X.facts.append(ForAll([k], g) if ite else ForAll([k], g, patterns=[tm(X, X.elem(o, k))]))
    return M(t, tm(X, e))


def memb_from(X, v, e, p, tag):
    """some hazard from position p on has the entity"""
    i = Int(f'?{tag}'); return Exists([i], And(p <= i, i < X.length(v), X.eq(hent(X, v, i), e)))


def add_ok(X, add, c, tag, lo=0):
    i = Int(f'?{tag}'); st = hzs(X, c, 'static_hazards'); h = X.elem(add, i)
    return [distinct(X, add, add, tag + 'd', lo, lo), distinct(X, st, add, tag + 's', 0, lo), ForAll([i], Implies(And(lo <= i, i < X.length(add)), And(X.fieldn(h, 'active'), wfh(X, h))))]


DY = 'dynamic_hazards'


def same_hpg(X, a, b): return X.eq(X.fieldn(a, 'haz_prox_grid'), X.fieldn(b, 'haz_prox_grid'))


def inv_r0(X, st, env):
    c, s, rem, add, p = env['self'], env['snapshot'], env['hazards_to_remove'], env['hazards_to_add'], env['#']; old = X.old[0]; w = snap_list(X, s); od = hzs(X, old, DY)
    return [set_distinct(X, rem, 'r0r'), forall_e('r0', lambda e: setof(X, rem, e, 'r0a') == And(memb(X, od, e), Not(inpre(X, w, e, p, 'r0c')))),
            forall_e('r0x', lambda e: memb(X, add, e) == And(Not(memb(X, od, e)), inpre(X, w, e, p, 'r0f')))] + add_ok(X, add, old, 'r0g')


def inv_r1(X, st, env):
    c, rem, p = env['self'], env['hazards_to_remove'], env['#']; old = X.old[0]
    return [f for _, f in cde_inv(X, c, 'i1') + keeps_frame(X, old, c)] + [same_hpg(X, c, old)] + [forall_e('r1', lambda e: memb(X, hzs(X, c, DY), e) == And(memb(X, hzs(X, old, DY), e), Not(setof(X, rem, e, 'r1c', hi=p)))), same_list(X, hzs(X, old, UNC), hzs(X, c, UNC), 'r1u')]


def inv_r2(X, st, env):
    c, s, add, p = env['self'], env['snapshot'], env['hazards_to_add'], env['#']; old = X.old[0]
    return [f for _, f in cde_inv(X, c, 'i2', hzs(X, old, UNC), p) + keeps_frame(X, old, c)] + [same_hpg(X, c, old)] + add_ok(X, add, c, 'r2g') + [X.length(hzs(X, c, UNC)) == 0, distinct(X, hzs(X, c, DY), add, 'r2d'),
            forall_e('r2', lambda e: Or(memb(X, hzs(X, c, DY), e), memb(X, add, e)) == memb(X, snap_list(X, s), e))]


def inv_r3(X, st, env):
    c, s, p = env['self'], env['snapshot'], env['#']; old = X.old[0]; add = env['hazards_to_add']
    return [f for _, f in cde_inv(X, c, 'i3') + keeps_frame(X, old, c)] + [same_hpg(X, c, old)] + add_ok(X, add, c, 'r3g', p) + [X.length(hzs(X, c, UNC)) == 0, distinct(X, hzs(X, c, DY), add, 'r3d', 0, p),
            forall_e('r3', lambda e: Or(memb(X, hzs(X, c, DY), e), inlist(X, add, e, 'r3b', p)) == memb(X, snap_list(X, s), e))]


Spec('C05', 'CDEngine::restore', pre=pre_restore, post=post_restore, contracts=[C_NDEREG, C_NREG, NODE_ACT[True], C_QFROM, C_HRESTORE], invariants={('cd_engine::restore', i): Inv(f) for i, f in enumerate((inv_r0, inv_r1, inv_r2, inv_r3))}, timeout=60, split='top')


# a new engine
C_HNEW = Contract('HazardProximityGrid::new', ret='HazardProximityGrid')


def inv_new(X, st, env):
    q, p, sh, box = env['qt_root'], env['#'], env['static_hazards'], env['bbox']; v = vec(X, haz(X, q)); i, k = Int('?ni'), Int('?nk')
    return [GOOD(tm(X, q))] + vec_inv(X, haz(X, q), 'nv') + [unique(X, haz(X, q), 'nu'), And(*[a == b for a, b in zip(rect(X, X.fieldn(q, 'bbox')), rect(X, box))]),
            ForAll([i], Implies(And(0 <= i, i < p), Exists([k], And(0 <= k, k < X.length(v), X.eq(ent(X, v, k), hent(X, sh, i)), X.fieldn(X.elem(v, k), 'active'))))),
            ForAll([k], Implies(And(0 <= k, k < X.length(v)), And(X.fieldn(X.elem(v, k), 'active'), Exists([i], And(0 <= i, i < p, X.eq(ent(X, v, k), hent(X, sh, i)))))))]


def pre_cnew(X, box, sh, cfg):
    i = Int('?cni')
    return [valid(X, box), distinct(X, sh, sh, 'cnd'), ForAll([i], Implies(And(0 <= i, i < X.length(sh)), And(X.fieldn(X.elem(sh, i), 'active'), wfh(X, X.elem(sh, i)))))]


Spec('C05', 'CDEngine::new', pre=pre_cnew, post=lambda X, r, box, sh, cfg: cde_inv(X, r, 'nn') + [('the static hazards are those given', same_list(X, hzs(X, r, 'static_hazards'), sh, 'ns')), ('no dynamic hazards', X.length(hzs(X, r, DY)) == 0), ('nothing is pending', X.length(hzs(X, r, UNC)) == 0)],
     contracts=[C_NEW, C_NREG, C_QFROM, C_HNEW], invariants={('cd_engine::new', 0): Inv(inv_new)}, timeout=60)


# ---------------------------------------------------------------- the surrogate of a shape
TRC = {k: f'<{k} as Transformable>::transform_clone' for k in ('Circle', 'Edge')}
# inside the callers, moving a pole or a pier is an uninterpreted function whose meaning is the contract of transform (C15)
C_TRC = [Contract(v, ret=k) for k, v in TRC.items()]


def parts(X, sur):
    """(kind, list, length) of the fail-fast parts"""
    return [('Circle', X.fieldn(sur, 'poles'), X.fieldn(sur, 'n_ff_poles')), ('Edge', X.fieldn(sur, 'piers'), X.length(X.fieldn(sur, 'piers')))]


def part_hit(X, c, sur, t, pred, kind, v, n, tag):
    """a moved part of the kind contains a point satisfying pred"""
    i = Int(f'?{tag}'); x, y = pts(tag)
    return [i, x, y], And(0 <= i, i < n, inq(X, pure(X, TRC[kind], X.elem(v, i), t), x, y), pred(x, y))


def sur_complete(X, r, c, sur, t, irr, upto, tag):
    out = []; j = Int(f'?{tag}j')
    for (kind, v, n), m in zip(parts(X, sur), upto):
        for l in LISTS:
            w = hzs(X, c, l); e = hent(X, w, j)
            vs, b = part_hit(X, c, sur, t, lambda x, y: And(inbox(X, X.fieldn(c, 'bbox'), x, y), BD(tm(X, e), x, y)), kind, v, n if m is None else m, tag)
            out.append((f'complete: a fail-fast {kind} meets the border of a relevant hazard of {l}', ForAll([j] + vs, Implies(And(0 <= j, j < X.length(w), Not(contains(X, irr, e, tag + 'c')), b), r))))
    return out


def sur_sound(X, c, sur, t, irr, tag):
    e = Const(f'?{tag}e', Term); eo = Obj(e, 'HazardEntity'); out = []
    for kind, v, n in parts(X, sur):
        vs, b = part_hit(X, c, sur, t, lambda x, y: And(IN(e, x, y), rel_listed(X, c, eo, irr, tag + 'r')), kind, v, n, tag)
        out.append(Exists([e] + vs, b))
    return Or(*out)


def pre_sur(X, c, sur, t, *a): return inv_pre(X, c) + [0 <= X.fieldn(sur, 'n_ff_poles'), X.fieldn(sur, 'n_ff_poles') <= X.length(X.fieldn(sur, 'poles'))]


def inv_sur(k):
    def inv(X, st, env):
        p = env['#']; return [f for _, f in sur_complete(X, BoolVal(False), env['self'], env['base_surrogate'], env['transform'], env['irrelevant_hazards'], [p, IntVal(0)] if k == 0 else [None, p], f's{k}')]
    return inv


Spec('C03', 'CDEngine::surrogate_collides', pre=pre_sur, post=lambda X, r, c, sur, t, irr: sur_complete(X, r, c, sur, t, irr, [None, None], 'sc') + [('sound: a fail-fast part meets the region of a relevant hazard', Implies(r, sur_sound(X, c, sur, t, irr, 'ss')))],
     contracts=[C_COLLIDES] + C_TRC, invariants={('cd_engine::surrogate_collides', k): Inv(inv_sur(k)) for k in (0, 1)}, timeout=60)


def sur_in(X, c, sur, t, e, tag):
    out = []
    for kind, v, n in parts(X, sur):
        vs, b = part_hit(X, c, sur, t, lambda x, y: IN(tm(X, e), x, y), kind, v, n, tag + kind[0]); out.append(Exists(vs, b))
    return Or(*out)


def sur_collected(X, c, sur, t, irr, new, upto, tag):
    out = []; j = Int(f'?{tag}j')
    for (kind, v, n), m in zip(parts(X, sur), upto):
        for l in LISTS:
            w = hzs(X, c, l); e = hent(X, w, j)
            vs, b = part_hit(X, c, sur, t, lambda x, y: And(inbox(X, X.fieldn(c, 'bbox'), x, y), BD(tm(X, e), x, y)), kind, v, n if m is None else m, tag)
            rel = BoolVal(True) if irr is None else Not(contains(X, irr, e, tag + 'c'))
            out.append((f'every relevant hazard of {l} whose border a fail-fast {kind} meets is in the list', ForAll([j] + vs, Implies(And(0 <= j, j < X.length(w), rel, b), contains(X, new, e, tag + 'k')))))
    return out


def inv_csur(k):
    def inv(X, st, env):
        c, sur, t, irr, new, old, p = env['self'], env['base_surrogate'], env['transform'], env['irrelevant_hazards'], env['detected'], X.old[4], env['#']
        return coll_common(X, old, irr, new, lambda e: And(listed_haz(X, c, e, f'cs{k}l'), sur_in(X, c, sur, t, e, f'cs{k}')), f'cs{k}') + [f for _, f in sur_collected(X, c, sur, t, None, new, [p, IntVal(0)] if k == 0 else [None, p], f'cz{k}')]
    return inv


def post_csur(X, r, c, sur, t, irr, det):
    old, new = X.old[4], X.new(4); n, m = X.length(old), X.length(new); i, j = Int('?csi'), Int('?csj'); e = X.elem(new, j)
    return [('what was in the list is kept', And(m >= n, ForAll([i], Implies(And(0 <= i, i < n), X.eq(X.elem(new, i), X.elem(old, i)))))),
            ('nothing is reported twice', ForAll([i, j], Implies(And(n <= j, j < m, 0 <= i, i < j), Not(X.eq(X.elem(new, i), X.elem(new, j)))))),
            ('only relevant hazards are added', ForAll([j], Implies(And(n <= j, j < m), And(listed_haz(X, c, e, 'csl'), Not(contains(X, irr, e, 'csn')))))),
            ('only hazards whose region a fail-fast part meets', ForAll([j], Implies(And(n <= j, j < m), sur_in(X, c, sur, t, e, 'csm'))))] + sur_collected(X, c, sur, t, irr, new, [None, None], 'cq')


Spec(['C02', 'C03'], 'CDEngine::collect_surrogate_collisions', pre=pre_sur, post=post_csur, contracts=[C_COLLECT] + C_TRC, invariants={('cd_engine::collect_surrogate_collisions', k): Inv(inv_csur(k)) for k in (0, 1)}, timeout=60)


# the combined query: first the surrogate, then the shape itself (written to the buffer); nothing else decides
SC, PC = 'CDEngine::surrogate_collides', 'CDEngine::poly_collides'
C_SCU = Contract(SC, ret='bool')
C_PCU = Contract(PC, ret='bool')
MOVED = Function('MOVED', Term, *[R] * 9, Term)          # the shape moved by a transformation
TF = '<SimplePolygon as TransformableFrom>::transform_from'


def moved(X, s, t):
    m = X.fieldn(t, 'matrix')
    return Obj(MOVED(tm(X, s), *[X.elem(X.elem(m, IntVal(i)), IntVal(j)) if not isinstance(m, Agg) else m.fields[i].fields[j] for i in range(3) for j in range(3)]), 'SimplePolygon')


C_TF = Contract(TF, post=lambda X, r, b, s, t: [X.eq(X.new(0), moved(X, s, t))], ret='&mut SimplePolygon', modifies=(0,))


C_SUR = Contract('SimplePolygon::surrogate', pre=lambda X, p: [opt(X, X.fieldn(p, 'surrogate'))[0]], ret='&SPSurrogate')


def post_sop(X, r, c, ref, t, buf, irr):
    s = pure(X, SC, c, pure(X, 'SimplePolygon::surrogate', ref), t, irr); p = pure(X, PC, c, moved(X, ref, t), irr); new = X.new(3)
    return [('true iff the surrogate or the moved shape collides', r == Or(s, p)), ('the buffer holds the moved shape when the shape was looked at', Implies(Not(s), X.eq(new, moved(X, ref, t))))]


Spec(['C03', 'C01'], 'CDEngine::surrogate_or_poly_collides', pre=lambda X, c, ref, t, buf, irr: [opt(X, X.fieldn(ref, 'surrogate'))[0]], post=post_sop, contracts=[C_SCU, C_PCU, C_TF, C_SUR])
