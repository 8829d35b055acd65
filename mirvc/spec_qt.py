"""Contracts of the quadtree (C01, C02, C04): the hazard vector, presence order, node queries."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv, Cut
from models import opt
from mir import base_ty

B, I, R = BoolSort(), IntSort(), RealSort()


def rect(X, r): return [X.fieldn(r, n) for n in ('x_min', 'y_min', 'x_max', 'y_max')]


PRES = {'None': 0, 'Partial': 1, 'Entire': 2}


def presd(X, p):
    """strength of a presence: None < Partial < Entire"""
    vs = X.crate.enums['QTHazPresence']
    d = X.discr(p)
    return If(d == vs.index('None'), IntVal(0), If(d == vs.index('Partial'), IntVal(1), IntVal(2)))


def strength(X, h): return presd(X, X.fieldn(h, 'presence'))


def vec(X, hv): return X.fieldn(hv, 'hazards')
def nact(X, hv): return X.fieldn(hv, 'n_active')


def vec_inv(X, hv, tag='v'):
    """active hazards first, strongest first within each part; n_active counts the active ones"""
    v, n = vec(X, hv), nact(X, hv); ln = X.length(v)
    i, j = Int(f'?{tag}i'), Int(f'?{tag}j')
    act = lambda k: X.fieldn(X.elem(v, k), 'active')
    st = lambda k: strength(X, X.elem(v, k))
    return [n >= 0, n <= ln,
            ForAll([i], Implies(And(0 <= i, i < ln), act(i) == (i < n))),
            ForAll([i, j], Implies(And(0 <= i, i < j, j < ln, (i < n) == (j < n)), st(i) >= st(j)))]


def contains(X, v, e, tag='c'):
    k = Int(f'?{tag}k')
    return Exists([k], And(0 <= k, k < X.length(v), X.eq(X.elem(v, k), e)))


def post_strongest(X, r, hv, irr):
    c, h = opt(X, r)
    v, n = vec(X, hv), nact(X, hv)
    j, w = Int('?sj'), Int('?sw')
    rel = lambda k: Not(contains(X, irr, X.fieldn(X.elem(v, k), 'entity')))
    out = [('none only if every active hazard is ignored', Implies(Not(c), ForAll([j], Implies(And(0 <= j, j < n), Not(rel(j))))))]
    if not isinstance(h, Undef):
        out += [('the result is an active hazard of the vector', Implies(c, Exists([w], And(0 <= w, w < n, X.eq(X.elem(v, w), h))))),
                ('the result is not ignored', Implies(c, Not(contains(X, irr, X.fieldn(h, 'entity'))))),
                ('no relevant active hazard is stronger', Implies(c, ForAll([j], Implies(And(0 <= j, j < n, rel(j)), strength(X, h) >= strength(X, X.elem(v, j))))))]
    return out


Spec(['C01', 'C02', 'C04'], 'QTHazardVec::strongest', pre=lambda X, hv, irr: vec_inv(X, hv), post=post_strongest)
Spec(['C01', 'C02', 'C04'], 'QTHazardVec::active_hazards', pre=lambda X, hv: vec_inv(X, hv), post=lambda X, r, hv: [('the active part', And(X.length(r) == nact(X, hv), ForAll([Int('?k')], Implies(And(Int('?k') >= 0, Int('?k') < nact(X, hv)), X.eq(X.elem(r, Int('?k')), X.elem(vec(X, hv), Int('?k')))))))])


def post_get(X, r, hv, e):
    c, h = opt(X, r); v, n = vec(X, hv), nact(X, hv); j = Int('?gj'); w = Int('?gw')
    out = [('none only if no active hazard has the entity', Implies(Not(c), ForAll([j], Implies(And(0 <= j, j < n), Not(X.eq(X.fieldn(X.elem(v, j), 'entity'), e))))))]
    if not isinstance(h, Undef): out.append(('an active hazard of the entity', Implies(c, And(X.eq(X.fieldn(h, 'entity'), e), Exists([w], And(0 <= w, w < n, X.eq(X.elem(v, w), h)))))))
    return out


Spec(['C01', 'C04'], 'QTHazardVec::get', pre=lambda X, hv, e: vec_inv(X, hv), post=post_get)
Spec(['C01', 'C05'], 'QTHazardVec::has_only_entire_hazards', post=lambda X, r, hv: [('all entire', r == ForAll([Int('?k')], Implies(And(Int('?k') >= 0, Int('?k') < X.length(vec(X, hv))), strength(X, X.elem(vec(X, hv), Int('?k'))) == 2)))])
Spec(['C01', 'C05'], 'QTHazardVec::is_empty', post=lambda X, r, hv: [('no hazards', r == (X.length(vec(X, hv)) == 0))])
Spec(['C01', 'C05'], 'QTHazardVec::new', post=lambda X, r: [('empty', And(X.length(vec(X, r)) == 0, nact(X, r) == 0))])
Spec(['C01', 'C02', 'C04', 'C05'], 'order_by_descending_strength', post=lambda X, r, a, b: [
    ('active before inactive, then stronger before weaker', X.discr(r) == If(X.fieldn(a, 'active') == X.fieldn(b, 'active'), If(strength(X, a) > strength(X, b), IntVal(255), If(strength(X, a) < strength(X, b), IntVal(1), IntVal(0))), If(X.fieldn(a, 'active'), IntVal(255), IntVal(1))))])


# ---------------------------------------------------------------- mutation of the hazard vector
def same_elem(X, v, i, w, j): return X.eq(X.elem(v, i), X.elem(w, j))


def post_add(X, r, hv, h):
    old, new = X.old[0], X.new(0)
    v, w = vec(X, old), vec(X, new)
    i, k = Int('?ai'), Int('?ak')
    n = X.length(v)
    return [(f'vector stays sorted by activeness and strength {t}', f) for t, f in enumerate(vec_inv(X, new, 'w'))] + [
        ('one more hazard', X.length(w) == n + 1),
        ('the new hazard is in the vector', Exists([k], And(0 <= k, k <= n, X.eq(X.elem(w, k), h)))),
        ('every hazard stays in the vector', ForAll([i], Implies(And(0 <= i, i < n), Exists([k], And(0 <= k, k <= n, same_elem(X, v, i, w, k)))))),
        ('nothing else enters the vector', ForAll([k], Implies(And(0 <= k, k <= n), Or(X.eq(X.elem(w, k), h), Exists([i], And(0 <= i, i < n, same_elem(X, v, i, w, k))))))),
        ('entities stay unique when the new entity is not in the vector', Implies(And(unique(X, old, 'o'), Not(has(X, old, X.fieldn(h, 'entity')))), unique(X, new, 'w')))]


Spec(['C01', 'C02', 'C04', 'C05'], 'QTHazardVec::add', pre=lambda X, hv, h: vec_inv(X, hv), post=post_add)


def ent(X, v, i): return X.fieldn(X.elem(v, i), 'entity')


def unique(X, hv, tag='u'):
    v = vec(X, hv); i, j = Int(f'?{tag}i'), Int(f'?{tag}j')
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < X.length(v)), Not(X.eq(ent(X, v, i), ent(X, v, j)))))


def has(X, hv, e, tag='h'):
    v = vec(X, hv); k = Int(f'?{tag}k')
    return Exists([k], And(0 <= k, k < X.length(v), X.eq(ent(X, v, k), e)))


def kept(X, old, new, e):
    """exactly the hazards of other entities are kept, unchanged"""
    v, w = vec(X, old), vec(X, new); i, k = Int('?ki'), Int('?kk')
    return [('hazards of other entities are kept', ForAll([i], Implies(And(0 <= i, i < X.length(v), Not(X.eq(ent(X, v, i), e))), Exists([k], And(0 <= k, k < X.length(w), same_elem(X, v, i, w, k)))))),
            ('no hazard of another entity appears', ForAll([k], Implies(And(0 <= k, k < X.length(w), Not(X.eq(ent(X, w, k), e))), Exists([i], And(0 <= i, i < X.length(v), same_elem(X, v, i, w, k))))))]


def post_remove(X, r, hv, e):
    old, new = X.old[0], X.new(0); c, h = opt(X, r)
    out = [(f'vector stays sorted by activeness and strength {t}', f) for t, f in enumerate(vec_inv(X, new, 'w'))]
    return out + [('some iff the entity was present', c == has(X, old, e)), ('the entity is gone', Not(has(X, new, e))), ('entities stay unique', unique(X, new, 'w'))] + kept(X, old, new, e)


u_pre = lambda X, hv, e: vec_inv(X, hv) + [unique(X, hv)]
Spec(['C01', 'C02', 'C04', 'C05'], 'QTHazardVec::remove', pre=u_pre, post=post_remove)


def post_activate(on):
    def post(X, r, hv, e):
        old, new = X.old[0], X.new(0); v, w = vec(X, old), vec(X, new); i, k = Int('?qi'), Int('?qk')
        out = [(f'vector stays sorted by activeness and strength {t}', f) for t, f in enumerate(vec_inv(X, new, 'w'))]
        return out + [('true iff the entity was present', r == has(X, old, e)), ('entities stay unique', unique(X, new, 'w'))] + kept(X, old, new, e) + [
            (f'the hazard of the entity is {"active" if on else "inactive"} now, its presence as before', ForAll([i], Implies(And(0 <= i, i < X.length(v), X.eq(ent(X, v, i), e)), Exists([k], And(0 <= k, k < X.length(w), X.eq(ent(X, w, k), e), X.fieldn(X.elem(w, k), 'active') == BoolVal(on), X.eq(X.fieldn(X.elem(w, k), 'presence'), X.fieldn(X.elem(v, i), 'presence'))))))),
            ('no hazard of the entity appears', ForAll([k], Implies(And(0 <= k, k < X.length(w), X.eq(ent(X, w, k), e)), has(X, old, e))))]
    return post


def a_pre(on):
    def pre(X, hv, e):
        v = vec(X, hv); i = Int('?pi')
        return u_pre(X, hv, e) + [ForAll([i], Implies(And(0 <= i, i < X.length(v), X.eq(ent(X, v, i), e)), X.fieldn(X.elem(v, i), 'active') == BoolVal(not on)))]
    return pre


Spec(['C01', 'C02', 'C04', 'C05'], 'QTHazardVec::activate_hazard', pre=a_pre(True), post=post_activate(True), contracts=['QTHazardVec::add'])
Spec(['C01', 'C02', 'C04', 'C05'], 'QTHazardVec::deactivate_hazard', pre=a_pre(False), post=post_activate(False), contracts=['QTHazardVec::add'])


# =================================================================== the tree
# Points of the plane are pairs of reals. INQ(q, x, y): the point belongs to the query shape q. IN(e, x, y): it belongs to the closed region of the hazard entity e; BD(e, x, y): it lies
# on the border of e. PE(p, x, y): it lies on one of the edges listed in the partial presence p. GOOD(n): the node n (with its whole subtree) satisfies node_inv; inside the proof of a
# body GOOD(self) is unfolded once, the children stay folded - GOOD is the least predicate with GOOD(n) <=> node_inv(n), trees being finite.
Term3 = lambda n: Function(n, Term, R, R, B)
INQ, IN, BD, PE = Term3('INQ'), Term3('IN'), Term3('BD'), Term3('PE')
DISK = Function('DISK', *[RealSort()] * 5, BoolSort())     # the point (last two) lies in the closed disk (centre, radius)
GOOD = Function('GOOD', Term, B)
POK = Function('POK', Term, B)                    # the edge list of a partial presence is valid and its shape lies in its bounding box (ix_ok, poly_box)
SHAPED = Function('SHAPED', Term, Term, B)        # region_axioms of an entity and its shape, for every box
tm = lambda X, v: X.to_obj(v).term


def inbox(X, r, x, y):
    a, b, c, d = rect(X, r); return And(a <= x, x <= c, b <= y, y <= d)


def inq(X, q, x, y):
    """the point belongs to the query shape"""
    if isinstance(q, Agg):
        b = base_ty(q.ty)
        if b == 'Edge': return ONE(*q.fields[0].fields, *q.fields[1].fields, x, y)
        if b == 'Circle': return DISK(*q.fields[0].fields, q.fields[1], x, y)
        if b == 'Point': return And(x == q.fields[0], y == q.fields[1])
        if b == 'AARectangle': return inb(tuple(rect(X, q)), x, y)
    return INQ(tm(X, q), x, y)


def pts(tag=''): return Real(f'?px{tag}'), Real(f'?py{tag}')


def partial(X, h): return X.field(X.fieldn(h, 'presence'), 0, 'PartialQTHaz', 'Partial')


def haz_ok(X, h, box, tag='z'):
    """what the presence of a hazard in a node says about its region within the node's box"""
    e = tm(X, X.fieldn(h, 'entity')); x, y = pts(tag); s = strength(X, h); p = tm(X, partial(X, h))
    ib = inb(box, x, y) if isinstance(box, tuple) else inbox(X, box, x, y)
    return [Implies(s == 1, POK(p)), Implies(s == 1, SHAPED(e, tm(X, shape_of(X, partial(X, h))))), Implies(s == 2, ForAll([x, y], Implies(ib, IN(e, x, y)))),
            Implies(s == 0, ForAll([x, y], Implies(ib, Not(IN(e, x, y))))),
            Implies(s == 1, ForAll([x, y], And(Implies(PE(p, x, y), IN(e, x, y)), Implies(And(BD(e, x, y), ib), PE(p, x, y)))))]


def kids(X, node):
    c, v = opt(X, X.fieldn(node, 'children'))
    if isinstance(v, Undef): return BoolVal(False), []
    return c, v.fields if isinstance(v, Agg) else [X.elem(v, IntVal(i)) for i in range(4)]


def haz(X, node): return X.fieldn(node, 'hazards')


def ev(X, node, i): return X.elem(vec(X, haz(X, node)), i)


def vlen(X, node): return X.length(vec(X, haz(X, node)))


def link(X, node, c, cs, tag):
    """every region point of a hazard of the node lies in a child that knows the hazard with the same activity; hazards of children come from the node"""
    i, k = Int(f'?l{tag}i'), Int(f'?l{tag}k'); x, y = pts(f'l{tag}')
    h = ev(X, node, i); e = X.fieldn(h, 'entity')
    there = [Exists([k], And(0 <= k, k < vlen(X, ch), X.eq(X.fieldn(ev(X, ch, k), 'entity'), e), X.fieldn(ev(X, ch, k), 'active') == X.fieldn(h, 'active'))) for ch in cs]
    if not cs: return []
    out = [Implies(c, ForAll([i, x, y], Implies(And(0 <= i, i < vlen(X, node), inbox(X, X.fieldn(node, 'bbox'), x, y), IN(tm(X, e), x, y)), Or(*[And(inbox(X, X.fieldn(ch, 'bbox'), x, y), t) for ch, t in zip(cs, there)]))))]
    for ch in cs:
        g = ev(X, ch, k)
        out.append(Implies(c, ForAll([k], Implies(And(0 <= k, k < vlen(X, ch)), Exists([i], And(0 <= i, i < vlen(X, node), X.eq(e, X.fieldn(g, 'entity')), X.fieldn(h, 'active') == X.fieldn(g, 'active')))))))
    return out


def node_inv(X, node, tag='n'):
    i = Int(f'?{tag}i'); x, y = pts(tag)
    c, cs = kids(X, node)
    out = vec_inv(X, haz(X, node), tag) + [unique(X, haz(X, node), tag + 'u')]
    h = ev(X, node, i)
    out += [ForAll([i], Implies(And(0 <= i, i < vlen(X, node)), f)) for f in haz_ok(X, h, X.fieldn(node, 'bbox'), tag + 'h')]
    out += link(X, node, c, cs, tag)
    out += [Implies(c, GOOD(tm(X, ch))) for ch in cs]
    for j, ch in enumerate(cs): out += [Implies(c, f) for f in vec_inv(X, haz(X, ch), f'{tag}c{j}')]
    nb = rect(X, X.fieldn(node, 'bbox'))
    out += [nb[0] < nb[2], nb[1] < nb[3]]
    if not cs: return out
    t, b = tiled(X, [X.fieldn(ch, 'bbox') for ch in cs])
    return out + [Implies(c, And(t, *[p == q for p, q in zip(b, nb)]))]


def meets_rect(X, r, q, box):
    x, y = pts('m'); t = tm(X, q); b = rect(X, box)
    wx, wy = Function('meetx', Term, R, R, R, R, R), Function('meety', Term, R, R, R, R, R)
    return [('yes', Implies(r, And(INQ(t, wx(t, *b), wy(t, *b)), inbox(X, box, wx(t, *b), wy(t, *b))))), ('no', ForAll([x, y], Implies(And(INQ(t, x, y), inbox(X, box, x, y)), r)))]


def meets_partial(X, r, ph, q):
    x, y = pts('m'); t, p = tm(X, q), tm(X, ph)
    wx, wy = Function('pmeetx', Term, Term, R), Function('pmeety', Term, Term, R)
    return [('yes', Implies(r, And(INQ(t, wx(t, p), wy(t, p)), PE(p, wx(t, p), wy(t, p))))), ('no', ForAll([x, y], Implies(And(INQ(t, x, y), PE(p, x, y)), r)))]


MEET_RECT = Contract('<T as CollidesWith<AARectangle>>::collides_with', post=meets_rect, ret='bool', assumed=True)
MEET_PARTIAL = Contract('<PartialQTHaz as CollidesWith<T>>::collides_with', pre=lambda X, ph, q: [POK(tm(X, ph))], post=meets_partial, ret='bool')


def relevant_at(X, node, k, irr): return And(0 <= k, k < nact(X, haz(X, node)), Not(contains(X, irr, X.fieldn(ev(X, node, k), 'entity'), 'r')))


def post_collides(X, r, node, q, irr):
    c, e = opt(X, r); t = tm(X, q); x, y = pts('c'); k = Int('?ck')
    out = [('complete: a relevant hazard whose border the query meets in the box', ForAll([k, x, y], Implies(And(relevant_at(X, node, k, irr), inq(X, q, x, y), inbox(X, X.fieldn(node, 'bbox'), x, y), BD(tm(X, X.fieldn(ev(X, node, k), 'entity')), x, y)), c)))]
    if not isinstance(e, Undef):
        out += [('sound: the answer is a relevant hazard', Implies(c, Exists([k], And(relevant_at(X, node, k, irr), X.eq(X.fieldn(ev(X, node, k), 'entity'), e))))),
                ('sound: the query meets its region', Implies(c, Exists([x, y], And(inq(X, q, x, y), IN(tm(X, e), x, y)))))]
    return out


BDIN = lambda X: [ForAll(list(pts('b')) + [Const('?be', Term)], Implies(BD(Const('?be', Term), *pts('b')), IN(Const('?be', Term), *pts('b'))))]
fold_pre = lambda X, node, *a: [GOOD(tm(X, node))]
C_COLLIDES = Contract('QTNode::collides', pre=fold_pre, post=post_collides, ret='Option<&HazardEntity>')
Spec(['C01', 'C03'], 'QTNode::collides', pre=lambda X, node, q, irr: node_inv(X, node) + BDIN(X), post=post_collides, contracts=['QTHazardVec::strongest', 'QTHazardVec::active_hazards', MEET_RECT, MEET_PARTIAL, C_COLLIDES], timeout=60)


def post_def(X, r, node, q, relevant):
    """relevant(k): the k-th hazard of the node counts"""
    t = tm(X, q); x, y = pts('d'); k = Int('?dk'); d = X.discr(r)
    e = tm(X, X.fieldn(ev(X, node, k), 'entity'))
    return [('a definite yes is right', Implies(d == 0, Exists([k, x, y], And(relevant(k), inq(X, q, x, y), IN(e, x, y))))),
            ('a definite no is right', Implies(d == 1, ForAll([k, x, y], Implies(And(relevant(k), inq(X, q, x, y), inbox(X, X.fieldn(node, 'bbox'), x, y)), Not(IN(e, x, y))))))]


def post_defc(X, r, node, q, irr): return post_def(X, r, node, q, lambda k: relevant_at(X, node, k, irr))
def post_defw(X, r, node, q, e): return post_def(X, r, node, q, lambda k: And(0 <= k, k < nact(X, haz(X, node)), X.eq(X.fieldn(ev(X, node, k), 'entity'), e)))


C_DEFC = Contract('QTNode::definitely_collides', pre=fold_pre, post=post_defc, ret='Tribool')
C_DEFW = Contract('QTNode::definitely_collides_with', pre=fold_pre, post=post_defw, ret='Tribool')
Spec('C04', 'QTNode::definitely_collides', pre=lambda X, node, q, irr: node_inv(X, node) + BDIN(X), post=post_defc, contracts=['QTHazardVec::strongest', MEET_RECT, C_DEFC], timeout=60)
Spec(['C04', 'C01'], 'QTNode::definitely_collides_with', pre=lambda X, node, q, e: node_inv(X, node) + BDIN(X), post=post_defw, contracts=['QTHazardVec::get', MEET_RECT, C_DEFW], timeout=60)


def added(X, old, new, ok, tag='a'):
    """new = old followed by distinct elements not in old, each satisfying ok(entity)"""
    i, j = Int(f'?{tag}i'), Int(f'?{tag}j'); n, m = X.length(old), X.length(new)
    el = lambda v, k: X.elem(v, k)
    return [('what was in the list is kept', And(m >= n, ForAll([i], Implies(And(0 <= i, i < n), X.eq(el(new, i), el(old, i)))))),
            ('nothing is reported twice', ForAll([i, j], Implies(And(n <= j, j < m, 0 <= i, i < j), Not(X.eq(el(new, i), el(new, j)))))),
            ('only relevant hazards that the query meets are added', ForAll([j], Implies(And(n <= j, j < m), ok(el(new, j)))))]


def post_collect(X, r, node, q, det):
    old, new = X.old[2], X.new(2); t = tm(X, q); x, y = pts('k'); k = Int('?kk')
    def ok(e): return And(Exists([k], And(0 <= k, k < nact(X, haz(X, node)), X.eq(X.fieldn(ev(X, node, k), 'entity'), e))), Exists([x, y], And(inq(X, q, x, y), IN(tm(X, e), x, y))))
    return added(X, old, new, ok) + [('every hazard whose border the query meets in the box is in the list', ForAll([k, x, y], Implies(And(0 <= k, k < nact(X, haz(X, node)), inq(X, q, x, y), inbox(X, X.fieldn(node, 'bbox'), x, y), BD(tm(X, X.fieldn(ev(X, node, k), 'entity')), x, y)), contains(X, new, X.fieldn(ev(X, node, k), 'entity'), 'kc'))))]


def inv_collect(X, st, env):
    node, q, new, old, p = env['self'], env['entity'], env['detected'], X.old[2], env['#']
    t = tm(X, q); x, y = pts('v'); k = Int('?vk')
    def ok(e): return And(Exists([k], And(0 <= k, k < nact(X, haz(X, node)), X.eq(X.fieldn(ev(X, node, k), 'entity'), e))), Exists([x, y], And(inq(X, q, x, y), IN(tm(X, e), x, y))))
    return [f for _, f in added(X, old, new, ok, 'b')] + [ForAll([k, x, y], Implies(And(0 <= k, k < p, inq(X, q, x, y), inbox(X, X.fieldn(node, 'bbox'), x, y), BD(tm(X, X.fieldn(ev(X, node, k), 'entity')), x, y)), contains(X, new, X.fieldn(ev(X, node, k), 'entity'), 'vc')))]


C_COLLECT = Contract('QTNode::collect_collisions', pre=fold_pre, post=post_collect, ret='()', modifies=(2,))
Spec('C02', 'QTNode::collect_collisions', pre=lambda X, node, q, det: node_inv(X, node) + BDIN(X) + [GOOD(tm(X, node))], post=post_collect, contracts=['QTHazardVec::strongest', 'QTHazardVec::active_hazards', MEET_RECT, MEET_PARTIAL, C_COLLECT],
     invariants={('qt_node::collect_collisions', 0): Inv(inv_collect)}, timeout=60)


# ---------------------------------------------------------------- partial presences: the listed edges
ONE = Function('ONSEG', R, R, R, R, R, R, B)      # the point (last two) lies on the segment (first four)


def npts(X, p): return X.length(X.fieldn(p, 'points'))
def vx(X, p, i): return X.elem(X.fieldn(p, 'points'), i).fields
def nxt(i, n): return If(i + 1 == n, IntVal(0), i + 1)
def edge4(X, p, i): return [*vx(X, p, i), *vx(X, p, nxt(i, npts(X, p)))]


def onseg_def(X=None):
    """the consequence of the definition used here: a point of a segment lies in the box spanned by its end points"""
    a, b, c, d = Reals('?oa ?ob ?oc ?od'); x, y = pts('o')
    mn, mx = (lambda p, q: If(p <= q, p, q)), (lambda p, q: If(p <= q, q, p))
    return [ForAll([a, b, c, d, x, y], Implies(ONE(a, b, c, d, x, y), And(mn(a, c) <= x, x <= mx(a, c), mn(b, d) <= y, y <= mx(b, d))), patterns=[ONE(a, b, c, d, x, y)])]


def poly_box(X, p, tag='pb'):
    i = Int(f'?{tag}'); x, y = vx(X, p, i)
    return [npts(X, p) >= 3, ForAll([i], Implies(And(0 <= i, i < npts(X, p)), inbox(X, X.fieldn(p, 'bbox'), x, y)))]


def shape_of(X, ph): return X.fieldn(ph, 'shape')


def has_ite(t):
    return (is_app(t) and t.decl().kind() == Z3_OP_ITE) or any(has_ite(c) for c in t.children())


def mem(X, v, i):
    """membership in a Vec<usize>, as a defined symbol"""
    if isinstance(v, Undef): return BoolVal(False)
    t = tm(X, v); M = Function('mem', Term, I, B); j, k = Int('?mj'), Int('?mk')
    if ('mem', t.get_id()) not in X.memo:
        X.memo[('mem', t.get_id())] = t
        o = Obj(t, 'Vec<usize>')
        body = M(t, j) == Exists([k], And(0 <= k, k < X.length(o), X.elem(o, k) == j))
        X.facts.append(ForAll([j], body) if has_ite(t) else ForAll([j], body, patterns=[M(t, j)]))
        if has_ite(t): X.facts.append(ForAll([k], Implies(And(0 <= k, k < X.length(o)), M(t, X.elem(o, k)))))
        else: X.facts.append(ForAll([k], Implies(And(0 <= k, k < X.length(o)), M(t, X.elem(o, k))), patterns=[X.elem(o, k)]))
    return M(t, i)


def listed(X, ph, i, tag='li'):
    """edge index i is relevant in the partial presence"""
    ed = X.fieldn(ph, 'edges'); vs = X.crate.enums['RelevantEdges']; k = Int(f'?{tag}')
    ix = X.field(ed, 0, 'Vec<usize>', 'Some')
    return And(0 <= i, i < npts(X, shape_of(X, ph)), Or(X.discr(ed) == vs.index('All'), mem(X, ix, i)))


def pe_def(X, ph, tag='pe'):
    i = Int(f'?{tag}i'); x, y = pts(tag); p = tm(X, ph)
    return [ForAll([x, y], PE(p, x, y) == Exists([i], And(listed(X, ph, i, tag + 'l'), ONE(*edge4(X, shape_of(X, ph), i), x, y))))]


def ix_ok(X, ph):
    ed = X.fieldn(ph, 'edges'); k = Int('?ixk'); ix = X.field(ed, 0, 'Vec<usize>', 'Some'); vs = X.crate.enums['RelevantEdges']
    if isinstance(ix, Undef): return []
    return [Implies(X.discr(ed) == vs.index('Some'), And(X.length(ix) >= 1, ForAll([k], Implies(And(0 <= k, k < X.length(ix)), And(X.elem(ix, k) >= 0, X.elem(ix, k) < npts(X, shape_of(X, ph)))))))]


def meets_edge(X, r, q, e):
    x, y = pts('me'); t = tm(X, q); b = [*e.fields[0].fields, *e.fields[1].fields]
    wx, wy = Function('emeetx', Term, R, R, R, R, R), Function('emeety', Term, R, R, R, R, R)
    return [('yes', Implies(r, And(INQ(t, wx(t, *b), wy(t, *b)), ONE(*b, wx(t, *b), wy(t, *b))))), ('no', ForAll([x, y], Implies(And(INQ(t, x, y), ONE(*b, x, y)), r)))]


MEET_EDGE = Contract('<T as CollidesWith<Edge>>::collides_with', post=meets_edge, ret='bool', assumed=True)


def post_partial(X, r, ph, q):
    x, y = pts('m'); t, p = tm(X, q), tm(X, ph)
    return [('yes only if the query meets a listed edge', Implies(r, Exists([x, y], And(INQ(t, x, y), PE(p, x, y))))), ('no only if it meets none', ForAll([x, y], Implies(And(INQ(t, x, y), PE(p, x, y)), r)))]


Spec(['C01', 'C02', 'C03'], '<PartialQTHaz as CollidesWith<T>>::collides_with', pre=lambda X, ph, q: pe_def(X, ph) + ix_ok(X, ph) + poly_box(X, shape_of(X, ph)) + onseg_def(), post=post_partial, contracts=[MEET_RECT, MEET_EDGE], timeout=60)


# ---------------------------------------------------------------- constricting a hazard to the quadrants of its box
INS = Function('INS', Term, R, R, B)              # the point lies in the interior of the polygon


def tiled(X, qs):
    """the four boxes are the quadrants (in Cartesian order) of a box, which is returned with the condition"""
    (a0, b0, c0, d0), (a1, b1, c1, d1), (a2, b2, c2, d2), (a3, b3, c3, d3) = [rect(X, q) for q in qs]
    cond = And(a0 == c1, c1 == c2, c2 == a3, b0 == b1, b1 == d2, d2 == d3, c0 == c3, d0 == d1, a1 == a2, b2 == b3, a2 < c2, b2 < d2, a0 < c0, b0 < d0)
    return cond, (a2, b2, c0, d0)


def inb(b, x, y): return And(b[0] <= x, x <= b[2], b[1] <= y, y <= b[3])


def pe_val(X, ph, x, y, tag):
    i = Int(f'?{tag}i')
    return Exists([i], And(listed(X, ph, i, tag + 'l'), ONE(*edge4(X, shape_of(X, ph), i), x, y)))


def haz_ok_val(X, h, b, tag):
    e = tm(X, X.fieldn(h, 'entity')); x, y = pts(tag); s = strength(X, h); ph = partial(X, h)
    out = [('fully present: every point of the box is in the region', Implies(s == 2, ForAll([x, y], Implies(inb(b, x, y), IN(e, x, y))))),
           ('absent: no point of the box is in the region', Implies(s == 0, ForAll([x, y], Implies(inb(b, x, y), Not(IN(e, x, y))))))]
    if not isinstance(ph, Undef):
        out += [('partially present: the listed edges belong to the region', Implies(s == 1, ForAll([x, y], Implies(pe_val(X, ph, x, y, tag + 'p'), IN(e, x, y))))),
                ('partially present: every border point in the box is on a listed edge', Implies(s == 1, ForAll([x, y], Implies(And(BD(e, x, y), inb(b, x, y)), pe_val(X, ph, x, y, tag + 'q'))))),
                ('partially present: the edge list is valid', Implies(s == 1, conj(ix_ok(X, ph))))]
    return out


def interior(X, e):
    vs = X.crate.enums['HazardEntity']; return X.discr(e) != vs.index('BinExterior')


def region_axioms(X, e, shape, boxes):
    """what 'region' and 'border' mean for a hazard: the border is the polygon's edges; the region is the closed inside (or, for the bin exterior, the closed outside);
    a box that the border does not meet is entirely inside or entirely outside (connectedness: the one topological fact assumed); the inside lies in the bounding box"""
    t, s = tm(X, e), tm(X, shape); x, y = pts('ra'); x2, y2 = pts('rb'); i = Int('?rai')
    out = [ForAll([x, y], BD(t, x, y) == Exists([i], And(0 <= i, i < npts(X, shape), ONE(*edge4(X, shape, i), x, y)))),
           ForAll([x, y], Implies(BD(t, x, y), IN(t, x, y)), patterns=[IN(t, x, y), BD(t, x, y)]),
           ForAll([x, y], Implies(Not(BD(t, x, y)), IN(t, x, y) == If(interior(X, e), INS(s, x, y), Not(INS(s, x, y)))), patterns=[IN(t, x, y), INS(s, x, y)]),
           ForAll([x, y], Implies(INS(s, x, y), inbox(X, X.fieldn(shape, 'bbox'), x, y)))]
    if boxes: cx, cy = boxes[0][0], boxes[0][1]       # the corner that the four quadrants share
    for b in boxes:
        out.append(Implies(ForAll([x, y], Implies(inb(b, x, y), Not(BD(t, x, y)))), ForAll([x, y], Implies(inb(b, x, y), IN(t, x, y) == IN(t, cx, cy)), patterns=[IN(t, x, y)])))
    return out


def post_contains(X, r, shape, p):
    x, y = p.fields; s = tm(X, shape); i = Int('?pci')
    return [Implies(Not(Exists([i], And(0 <= i, i < npts(X, shape), ONE(*edge4(X, shape, i), x, y)))), r == INS(s, x, y))]


def post_rect_edge(X, r, box, e):
    x, y = pts('re'); b = [*e.fields[0].fields, *e.fields[1].fields]; a = rect(X, box)
    wx, wy = Function('rmeetx', *[R] * 9), Function('rmeety', *[R] * 9)
    return [Implies(r, And(inbox(X, box, wx(*a, *b), wy(*a, *b)), ONE(*b, wx(*a, *b), wy(*a, *b)))), ForAll([x, y], Implies(And(inbox(X, box, x, y), ONE(*b, x, y)), r))]


C_CONTAINS = Contract('<SimplePolygon as CollidesWith<Point>>::collides_with', post=post_contains, ret='bool')
C_RECTEDGE = Contract('<AARectangle as CollidesWith<Edge>>::collides_with', post=post_rect_edge, ret='bool')


def pres_list(X, o, shape):
    """(well-formed, is Some, list membership) of an Option<QTHazPresence> under construction: absent, or a partial presence of the shape with a list of edges"""
    c, p = opt(X, o)
    if isinstance(p, Undef): return Not(c), c, lambda i: BoolVal(False)
    vs = X.crate.enums['QTHazPresence']; ph = X.field(p, 0, 'PartialQTHaz', 'Partial')
    if isinstance(ph, Undef): return Not(c), c, lambda i: BoolVal(False)
    ed = X.fieldn(ph, 'edges')
    return Implies(c, And(X.discr(p) == vs.index('Partial'), X.eq(X.fieldn(ph, 'shape'), shape), X.discr(ed) == X.crate.enums['RelevantEdges'].index('Some'), conj(ix_ok(X, ph)))), c, lambda i: And(c, listed(X, ph, i, 'pl'))


def MEETS(box, e):
    """the closed box and the edge (8 reals) share a point"""
    return Function('RMEET', *[R] * 8, B)(*box, *e)


def meets_def(X, box, e, tag='md'):
    x, y = pts(tag); return MEETS(box, e) == Exists([x, y], And(inb(box, x, y), ONE(*e, x, y)))


C_RECTEDGE2 = Contract('<AARectangle as CollidesWith<Edge>>::collides_with', post=lambda X, r, box, e: [r == MEETS(rect(X, box), [*e.fields[0].fields, *e.fields[1].fields])], ret='bool')


def pre_add_edge(X, ei, shape, qs, ps):
    return [ei >= 0, ei < npts(X, shape), npts(X, shape) >= 3] + [pres_list(X, p, shape)[0] for p in ps.fields]


def post_add_edge(X, r, ei, shape, qs, ps):
    out = []; i = Int('?aei')
    for k in range(4):
        ok, c, L = pres_list(X, r.fields[k], shape); _, c0, L0 = pres_list(X, ps.fields[k], shape)
        m = MEETS(rect(X, qs.fields[k]), edge4(X, shape, ei))
        out += [(f'quadrant {k}: well-formed', ok), (f'quadrant {k}: present iff an edge meets it', c == Or(c0, m)), (f'quadrant {k}: lists the edge iff it meets the quadrant', ForAll([i], L(i) == Or(L0(i), And(i == ei, m))))]
    return out


Spec(['C01', 'C02', 'C04'], 'QTHazard::add_edge_to_q_presences', pre=pre_add_edge, post=post_add_edge, contracts=[C_RECTEDGE2], timeout=60)


def selfshape(X, h): return shape_of(X, partial(X, h))


def pre_constrict(X, h, qs):
    cond, b = tiled(X, qs.fields)
    e = X.fieldn(h, 'entity'); sh = selfshape(X, h); i = Int('?pci')
    out = [cond] + [f for _, f in haz_ok_val(X, h, b, 'pc')]
    out += [Implies(strength(X, h) == 1, f) for f in region_axioms(X, e, sh, [tuple(rect(X, q)) for q in qs.fields]) + poly_box(X, sh)] + onseg_def()
    for q in qs.fields:
        a = [Real(f'?mq{k}') for k in range(4)]
        x, y = pts('mq'); m = MEETS(rect(X, q), a)
        out += [ForAll(a, Implies(m, Exists([x, y], And(inbox(X, q, x, y), ONE(*a, x, y)))), patterns=[m]),
                ForAll(a + [x, y], Implies(And(inbox(X, q, x, y), ONE(*a, x, y)), m), patterns=[ONE(*a, x, y)])]
    return out


def post_constrict(X, r, h, qs):
    cond, b = tiled(X, qs.fields); e = X.fieldn(h, 'entity'); t = tm(X, e); x, y = pts('po'); out = []
    cs = []
    for k in range(4):
        c, g = opt(X, r.fields[k]); cs.append(c)
        if isinstance(g, Undef): continue
        out.append((f'quadrant {k}: same entity and activity, present', Implies(c, And(X.eq(X.fieldn(g, 'entity'), e), X.fieldn(g, 'active') == X.fieldn(h, 'active'), strength(X, g) >= 1))))
        out += [(f'quadrant {k}: {n}', Implies(c, f)) for n, f in haz_ok_val(X, g, tuple(rect(X, qs.fields[k])), f'po{k}')]
        gp = partial(X, g)
        if not isinstance(gp, Undef): out.append((f'quadrant {k}: a partial presence is of the same shape', Implies(And(c, strength(X, g) == 1), X.eq(shape_of(X, gp), selfshape(X, h)))))
    out.append(('every region point of the box is in a quadrant that keeps the hazard', ForAll([x, y], Implies(And(inb(b, x, y), IN(t, x, y)), Or(*[And(c, inbox(X, q, x, y)) for c, q in zip(cs, qs.fields)])))))
    return out


def inv_constrict(use_list):
    def inv(X, st, env):
        h, qs, ps, p = env['self'], env['quadrants'], env['q_presences'], env['#']; sh = selfshape(X, h); i, j = Ints('?ici ?icj'); out = []
        ix = X.field(X.fieldn(partial(X, h), 'edges'), 0, 'Vec<usize>', 'Some')
        seen = Exists([j], And(0 <= j, j < p, X.elem(ix, j) == i)) if use_list else And(0 <= i, i < p)
        for k in range(4):
            ok, c, L = pres_list(X, ps.fields[k], sh)
            out += [ok, Implies(c, Exists([i], L(i))), ForAll([i], Implies(And(0 <= i, i < npts(X, sh)), L(i) == And(seen, MEETS(rect(X, qs.fields[k]), edge4(X, sh, i)))), patterns=[vx(X, sh, i)[0]])]
        return out
    return inv


def cut_constrict(X, st, env):
    h, qs, ps, p = env['self'], env['quadrants'], env['q_presences'], env['#']; ph = partial(X, h); sh = shape_of(X, ph); i = Int('?cci'); out = []
    t = tm(X, X.fieldn(h, 'entity')); cx, cy = rect(X, qs.fields[0])[:2]; vs = X.crate.enums['QTHazPresence']
    out.append(strength(X, h) == 1)
    for k in range(4):
        c, g = opt(X, ps.fields[k])
        sel = lambda j: listed(X, ph, j, 'cl')
        noedge = ForAll([i], Implies(sel(i), Not(MEETS(rect(X, qs.fields[k]), edge4(X, sh, i)))), patterns=[vx(X, sh, i)[0]])
        x, y = pts('cu')
        out.append(Implies(noedge, ForAll([x, y], Implies(inbox(X, qs.fields[k], x, y), IN(t, x, y) == IN(t, cx, cy)), patterns=[IN(t, x, y)])))
        out.append(Implies(Not(c), And(p <= k, noedge)))
        if isinstance(g, Undef): continue
        d = X.discr(g)
        out += [Implies(And(c, d == vs.index('Entire')), And(noedge, IN(t, cx, cy))), Implies(And(c, d == vs.index('None')), And(noedge, Not(IN(t, cx, cy))))]
        gp = X.field(g, 0, 'PartialQTHaz', 'Partial')
        if isinstance(gp, Undef): continue
        out.append(Implies(And(c, d == vs.index('Partial')), And(X.eq(shape_of(X, gp), sh), conj(ix_ok(X, gp)), ForAll([i], Implies(And(0 <= i, i < npts(X, sh)), listed(X, gp, i, 'cg') == And(sel(i), MEETS(rect(X, qs.fields[k]), edge4(X, sh, i)))), patterns=[vx(X, sh, i)[0]]))))
    return out


Spec(['C01', 'C02', 'C04'], 'QTHazard::constrict', pre=pre_constrict, post=post_constrict, contracts=['QTHazard::add_edge_to_q_presences', C_CONTAINS], invariants={('qt_hazard::constrict', 1): Inv(inv_constrict(False)), ('qt_hazard::constrict', 2): Inv(inv_constrict(True)), ('qt_hazard::constrict', 3): Cut(cut_constrict, ['q_presences'], forget=True)}, timeout=60, split='top')


# ---------------------------------------------------------------- changing the tree keeps the invariant
def same_box(X, a, b): return And(*[p == q for p, q in zip(rect(X, X.fieldn(a, 'bbox')), rect(X, X.fieldn(b, 'bbox')))])


def named(prefix, fs): return [(f'{prefix} {i}', f) for i, f in enumerate(fs)]


def post_node_dereg(fold):
    def post(X, r, node, e):
        old, new = X.old[0], X.new(0)
        out = [('', GOOD(tm(X, new)))] + named('', vec_inv(X, haz(X, new), 'dq')) + [('', unique(X, haz(X, new), 'dqu'))] if fold else named('the tree invariant holds', node_inv(X, new))
        return out + [('the box stays', same_box(X, old, new)), ('the entity is gone', Not(has(X, haz(X, new), e))), *kept(X, haz(X, old), haz(X, new), e)]
    return post


def pre_node(X, node, *a): return node_inv(X, node, 'pn')


C_NDEREG = Contract('QTNode::deregister_hazard', pre=lambda X, node, e: [GOOD(tm(X, node))], post=post_node_dereg(True), ret='()', modifies=(0,))
Spec(['C01', 'C02', 'C04', 'C05'], 'QTNode::deregister_hazard', pre=pre_node, post=post_node_dereg(False), contracts=['QTHazardVec::remove', 'QTHazardVec::is_empty', 'QTHazardVec::has_only_entire_hazards', C_NDEREG], timeout=60, split='top')


def post_node_act(on, fold):
    def post(X, r, node, e):
        old, new = X.old[0], X.new(0)
        out = [('', GOOD(tm(X, new)))] + named('', vec_inv(X, haz(X, new), 'aq')) + [('', unique(X, haz(X, new), 'aqu'))] if fold else named('the tree invariant holds', node_inv(X, new))
        v, w = vec(X, haz(X, old)), vec(X, haz(X, new)); i, k = Int('?qi'), Int('?qk')
        return out + [('the box stays', same_box(X, old, new)), *kept(X, haz(X, old), haz(X, new), e),
            ('the hazard of the entity has the new activity', ForAll([i], Implies(And(0 <= i, i < X.length(v), X.eq(ent(X, v, i), e)), Exists([k], And(0 <= k, k < X.length(w), X.eq(ent(X, w, k), e), X.fieldn(X.elem(w, k), 'active') == BoolVal(on)))))),
            ('every hazard of the entity has the new activity', ForAll([k], Implies(And(0 <= k, k < X.length(w), X.eq(ent(X, w, k), e)), X.fieldn(X.elem(w, k), 'active') == BoolVal(on)))),
            ('no hazard of the entity appears', ForAll([k], Implies(And(0 <= k, k < X.length(w), X.eq(ent(X, w, k), e)), has(X, haz(X, old), e))))]
    return post


def pre_act(on):
    def pre(X, node, e):
        v = vec(X, haz(X, node)); i = Int('?pi')
        return [ForAll([i], Implies(And(0 <= i, i < X.length(v), X.eq(ent(X, v, i), e)), X.fieldn(X.elem(v, i), 'active') == BoolVal(not on)))]
    return pre


for _on, _nm in ((True, 'activate_hazard'), (False, 'deactivate_hazard')):
    _c = Contract(f'QTNode::{_nm}', pre=lambda X, node, e, on=_on: [GOOD(tm(X, node))] + pre_act(on)(X, node, e), post=post_node_act(_on, True), ret='()', modifies=(0,))
    Spec(['C01', 'C02', 'C04', 'C05'], f'QTNode::{_nm}', pre=lambda X, node, e, on=_on: pre_node(X, node) + pre_act(on)(X, node, e), post=post_node_act(_on, False), contracts=[f'QTHazardVec::{_nm}', _c], timeout=60, split='top')


# ---------------------------------------------------------------- registering a hazard
def pre_cons(X, h, qs):
    cond, b = tiled(X, qs.fields)
    return [cond] + haz_ok(X, h, b, 'kc')


def post_cons(X, r, h, qs):
    cond, b = tiled(X, qs.fields); e = X.fieldn(h, 'entity'); t = tm(X, e); x, y = pts('kp'); out = []; cs = []
    for k in range(4):
        c, g = opt(X, r.fields[k]); cs.append(c)
        out.append(Implies(c, And(X.eq(X.fieldn(g, 'entity'), e), X.fieldn(g, 'active') == X.fieldn(h, 'active'))))
        out += [Implies(c, f) for f in haz_ok(X, g, tuple(rect(X, qs.fields[k])), f'kp{k}')]
    out.append(ForAll([x, y], Implies(And(inb(b, x, y), IN(t, x, y)), Or(*[And(c, inbox(X, q, x, y)) for c, q in zip(cs, qs.fields)]))))
    return out


C_CONSTRICT = Contract('QTHazard::constrict', pre=pre_cons, post=post_cons, ret='[Option<QTHazard>; 4]')


def carries(X, node, h, tag):
    """the node knows the hazard's entity with the hazard's activity"""
    k = Int(f'?{tag}'); g = ev(X, node, k)
    return Exists([k], And(0 <= k, k < vlen(X, node), X.eq(X.fieldn(g, 'entity'), X.fieldn(h, 'entity')), X.fieldn(g, 'active') == X.fieldn(h, 'active')))


def only_as(X, node, h, tag):
    k = Int(f'?{tag}'); g = ev(X, node, k)
    return ForAll([k], Implies(And(0 <= k, k < vlen(X, node), X.eq(X.fieldn(g, 'entity'), X.fieldn(h, 'entity'))), X.fieldn(g, 'active') == X.fieldn(h, 'active')))


def post_node_reg(fold):
    def post(X, r, node, h):
        old, new = X.old[0], X.new(0); e = X.fieldn(h, 'entity')
        out = [('', GOOD(tm(X, new)))] + named('', vec_inv(X, haz(X, new), 'rq')) + [('', unique(X, haz(X, new), 'rqu'))] if fold else named('the tree invariant holds', node_inv(X, new))
        return out + [('the box stays', same_box(X, old, new)), ('the hazard is in the node', carries(X, new, h, 'rc')), ('only with its own activity', only_as(X, new, h, 'ro'))] + kept(X, haz(X, old), haz(X, new), e)
    return post


def pre_reg(X, node, h): return [Not(has(X, haz(X, node), X.fieldn(h, 'entity')))] + haz_ok(X, h, X.fieldn(node, 'bbox'), 'pr')


C_NREG = Contract('QTNode::register_hazard', pre=lambda X, node, h: [GOOD(tm(X, node))] + pre_reg(X, node, h), post=post_node_reg(True), ret='()', modifies=(0,))


def kidlist(X, o):
    c, v = opt(X, o)
    if isinstance(v, Undef): return BoolVal(False), []
    return c, v.fields if isinstance(v, Agg) else [X.elem(v, IntVal(i)) for i in range(4)]


def pre_rtc(X, ch, h):
    c, cs = kidlist(X, ch)
    t, b = tiled(X, [X.fieldn(k, 'bbox') for k in cs])
    out = [t] + [GOOD(tm(X, k)) for k in cs] + haz_ok(X, h, b, 'tc') + [Not(has(X, haz(X, k), X.fieldn(h, 'entity'))) for k in cs]
    return [Implies(c, f) for f in out]


def post_rtc(X, r, ch, h):
    o, n = X.old[0], X.new(0); c, cs = kidlist(X, o); c2, ds = kidlist(X, n); e = X.fieldn(h, 'entity'); x, y = pts('tq')
    out = [('children appear or vanish', c2 == c)]
    if not ds: return out
    t, b = tiled(X, [X.fieldn(k, 'bbox') for k in cs])
    for i, (a, d) in enumerate(zip(cs, ds)):
        out += [(f'child {i}: the tree invariant holds', Implies(c, GOOD(tm(X, d))))] + [(f'child {i}: vector sorted {j}', Implies(c, f)) for j, f in enumerate(vec_inv(X, haz(X, d), f'tq{i}'))]
        out += [(f'child {i}: the box stays', Implies(c, same_box(X, a, d))), (f'child {i}: only with its own activity', Implies(c, only_as(X, d, h, 'to')))] + [(f'child {i}: {m}', Implies(c, f)) for m, f in kept(X, haz(X, a), haz(X, d), e)]
    out.append(('every region point in the box is in a child that knows the hazard', Implies(c, ForAll([x, y], Implies(And(inb(b, x, y), IN(tm(X, e), x, y)), Or(*[And(inbox(X, X.fieldn(d, 'bbox'), x, y), carries(X, d, h, 'tr')) for d in ds]))))))
    return out


Spec(['C01', 'C02', 'C04', 'C05'], 'register_to_children', pre=lambda X, ch, h: pre_rtc(X, ch, h) + [Implies(kidlist(X, ch)[0], f) for k, d in enumerate(kidlist(X, ch)[1]) for f in vec_inv(X, haz(X, d), f'tv{k}')], post=post_rtc, contracts=[C_CONSTRICT, C_NREG], timeout=60, split='top')


def post_new(fold):
    def post(X, r, level, box):
        out = [('', GOOD(tm(X, r)))] + named('', vec_inv(X, haz(X, r), 'nq')) + [('', unique(X, haz(X, r), 'nqu'))] if fold else named('the tree invariant holds', node_inv(X, r))
        return out + [('the box', And(*[p == q for p, q in zip(rect(X, X.fieldn(r, 'bbox')), rect(X, box))])), ('no hazards', vlen(X, r) == 0), ('no children', Not(opt(X, X.fieldn(r, 'children'))[0]))]
    return post


pre_new = lambda X, level, box: [rect(X, box)[0] < rect(X, box)[2], rect(X, box)[1] < rect(X, box)[3]]
C_NEW = Contract('QTNode::new', pre=pre_new, post=post_new(True), ret='QTNode')
Spec(['C01', 'C02', 'C04', 'C05'], 'QTNode::new', pre=pre_new, post=post_new(False))


def inv_reg(X, st, env):
    node, old, p = env['self'], X.old[0], env['#']
    c, cs = kids(X, node); nb = rect(X, X.fieldn(old, 'bbox')); out = [c, X.eq(haz(X, node), haz(X, old)), same_box(X, node, old)]
    t, b = tiled(X, [X.fieldn(k, 'bbox') for k in cs])
    out += [t, And(*[u == w for u, w in zip(b, nb)])]
    i, k = Int('?gi'), Int('?gk'); x, y = pts('g'); h = ev(X, old, i)
    for j, ch in enumerate(cs):
        g = ev(X, ch, k)
        out += [GOOD(tm(X, ch))] + vec_inv(X, haz(X, ch), f'g{j}')
        out.append(ForAll([k], Implies(And(0 <= k, k < vlen(X, ch)), Exists([i], And(0 <= i, i < p, X.eq(X.fieldn(h, 'entity'), X.fieldn(g, 'entity')), X.fieldn(h, 'active') == X.fieldn(g, 'active'))))))
    out.append(ForAll([i, x, y], Implies(And(0 <= i, i < p, inb(nb, x, y), IN(tm(X, X.fieldn(h, 'entity')), x, y)), Or(*[And(inbox(X, X.fieldn(ch, 'bbox'), x, y), carries(X, ch, h, 'gc')) for ch in cs]))))
    return out


Spec(['C01', 'C02', 'C04', 'C05'], 'QTNode::register_hazard', pre=lambda X, node, h: pre_node(X, node) + pre_reg(X, node, h) + [X.fieldn(node, 'level') >= 0], post=post_node_reg(False), contracts=['register_to_children', 'QTHazardVec::add', C_NEW],
     invariants={('qt_node::register_hazard', 0): Inv(inv_reg)}, timeout=60, split='top')


# ---------------------------------------------------------------- a hazard as it enters the root
def from_post(X, r, h):
    x, y = pts('fq'); e = tm(X, X.fieldn(h, 'entity')); ph = partial(X, r)
    out = [('same entity', X.eq(X.fieldn(r, 'entity'), X.fieldn(h, 'entity'))), ('active', X.fieldn(r, 'active')), ('partially present', strength(X, r) == 1), ('of the same shape', X.eq(selfshape(X, r), X.fieldn(h, 'shape')))]
    return out + [('its edges belong to the region', ForAll([x, y], Implies(pe_val(X, ph, x, y, 'fp'), IN(e, x, y)))), ('every border point is on a listed edge', ForAll([x, y], Implies(BD(e, x, y), pe_val(X, ph, x, y, 'fp')))), ('the edge list is valid', conj(ix_ok(X, ph)))]


Spec(['C01', 'C02', 'C04', 'C05'], '<PartialQTHaz as From<T>>::from', types={0: '&Hazard'}, post=lambda X, r, h: [('all edges of the shape', And(X.discr(X.fieldn(r, 'edges')) == X.crate.enums['RelevantEdges'].index('All'), X.eq(X.fieldn(r, 'shape'), X.fieldn(h, 'shape'))))])
Spec(['C01', 'C02', 'C04', 'C05'], '<QTHazard as From<T>>::from', types={0: '&Hazard'}, pre=lambda X, h: region_axioms(X, X.fieldn(h, 'entity'), X.fieldn(h, 'shape'), []) , post=from_post, )


# the same in folded form: WFH(entity, shape) stands for region_axioms and poly_box, so that haz_ok holds for every box
WFH = Function('WFH', Term, Term, B)


def wfh(X, h): return WFH(tm(X, X.fieldn(h, 'entity')), tm(X, X.fieldn(h, 'shape')))


def qfrom_post(X, r, h):
    x, y = pts('fq'); e = tm(X, X.fieldn(h, 'entity')); p = tm(X, partial(X, r))
    return [X.eq(X.fieldn(r, 'entity'), X.fieldn(h, 'entity')), X.fieldn(r, 'active'), strength(X, r) == 1, POK(p), SHAPED(e, tm(X, shape_of(X, partial(X, r)))), ForAll([x, y], Implies(PE(p, x, y), IN(e, x, y))), ForAll([x, y], Implies(BD(e, x, y), PE(p, x, y)))]


C_QFROM = Contract('<QTHazard as From<Hazard>>::from', pre=lambda X, h: [wfh(X, h)], post=qfrom_post, ret='QTHazard')
