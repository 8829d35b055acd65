"""Contracts of layouts, problems and solutions: bookkeeping (C06, C07), strips (C08)."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv, base_ty
from models import opt, slot_parts, slot_find
from spec_hpg import bound, HE, isv, VAR
from spec_geo import P, rect

R, I, B = RealSort(), IntSort(), BoolSort()
BP, SP, PG, PP = 'BPProblem', 'SPProblem', 'ProblemGeneric', 'ProblemGenericPrivate'


def forall(X, name, n, f):
    k = Int(f'?{name}'); return ForAll([k], Implies(And(0 <= k, k < n), bound(X, [k], lambda: f(k))))


def same_but(X, a, b, *skip):
    """a and b agree in every field but those named"""

    return And(*[X.eq(X.fieldn(a, f), X.fieldn(b, f)) for f, _ in X.crate.structs[base_ty(X.strip(X.ty_of(a)))] if f not in skip])


def counted(X, old, new, field, at, by, tag):
    """the vector field changes by `by` at one place and nowhere else"""
    v, w = X.fieldn(old, field), X.fieldn(new, field)
    return [('same length', X.length(v) == X.length(w)), (f'{field} changes by {by} at the id', X.elem(w, at) == X.elem(v, at) + by), (f'{field} changes nowhere else', forall(X, tag, X.length(v), lambda k: Implies(k != at, X.elem(w, k) == X.elem(v, k))))]


def upd_spec(fn, field, by, **kw):
    Spec(['C07', 'C06'], fn, post=lambda X, r, p, i: counted(X, X.old[0], X.new(0), field, i, by, 'cn') + [('nothing else changes', same_but(X, X.old[0], X.new(0), field))], **kw)


for P_ in (BP, SP):
    for f, by in (('register_included_item', -1), ('deregister_included_item', 1)):
        upd_spec(f'{PP}::{f}', 'missing_item_qtys', by, subst={'Self': P_}, types={0: f'&mut {P_}'}, name=f'<{P_} as {PP}>::{f}')
upd_spec(f'{BP}::register_bin', 'bin_qtys', -1)
upd_spec(f'{BP}::deregister_bin', 'bin_qtys', 1)


# ---------------------------------------------------------------- layouts
PIENT = Function('PIENT', I, R, R, R, Term)       # the hazard entity of an item id at a transformation
OWN = Function('OWN', Term, Term)                 # the shape an entity stands for
REG = Function('REG', Term, Term, B)              # the engine holds an active hazard of the entity (listed among its dynamic hazards; contract of CDEngine::register_hazard and others)
CDEOK = Function('CDEOK', Term, B)                # the invariant of the engine (cde_inv of spec_cde), folded
SREG = Function('SREG', Term, Term, B)            # the snapshot of an engine lists the entity
tm = lambda X, v: X.to_obj(v).term
dt3 = lambda X, d: [X.fieldn(d, 'rotation'), *X.fieldn(d, 'translation').fields]


def ent_of(X, pi): return PIENT(X.fieldn(pi, 'item_id'), *dt3(X, X.fieldn(pi, 'd_transf')))


def ent_term(X, e):
    """entity -> term; only placed items are named by PIENT"""
    if isinstance(e, Agg) and e.variant and e.variant[1] == 'PlacedItem': return PIENT(e.fields[0], *dt3(X, e.fields[1]))
    return tm(X, e)


def forall_t(X, name, f): e = Const(f'?{name}', Term); return ForAll([e], f(e))


C_LREG = Contract('CDEngine::register_hazard', pre=lambda X, c, h: [CDEOK(tm(X, c)), Not(REG(tm(X, c), ent_term(X, X.fieldn(h, 'entity')))), X.fieldn(h, 'active'), tm(X, X.fieldn(h, 'shape')) == OWN(ent_term(X, X.fieldn(h, 'entity')))],
                  post=lambda X, r, c, h: [CDEOK(tm(X, X.new(0))), forall_t(X, 'lr', lambda e: REG(tm(X, X.new(0)), e) == Or(REG(tm(X, X.old[0]), e), e == ent_term(X, X.fieldn(h, 'entity'))))], ret='()', modifies=(0,))
C_LDEREG = Contract('CDEngine::deregister_hazard', pre=lambda X, c, e, now: [CDEOK(tm(X, c)), REG(tm(X, c), ent_term(X, e))], post=lambda X, r, c, e, now: [CDEOK(tm(X, X.new(0))), forall_t(X, 'ld', lambda x: REG(tm(X, X.new(0)), x) == And(REG(tm(X, X.old[0]), x), x != ent_term(X, e)))], ret='()', modifies=(0,))
C_LREST = Contract('CDEngine::restore', pre=lambda X, c, s: [CDEOK(tm(X, c))], post=lambda X, r, c, s: [CDEOK(tm(X, X.new(0))), forall_t(X, 'ls', lambda x: REG(tm(X, X.new(0)), x) == SREG(tm(X, s), x))], ret='()', modifies=(0,))
C_LSNAP = Contract('CDEngine::create_snapshot', pre=lambda X, c: [CDEOK(tm(X, c))], post=lambda X, r, c: [CDEOK(tm(X, X.new(0))), forall_t(X, 'lc', lambda x: And(REG(tm(X, X.new(0)), x) == REG(tm(X, X.old[0]), x), SREG(tm(X, r), x) == REG(tm(X, X.old[0]), x)))], ret='CDESnapshot', modifies=(0,))
placed = lambda X, l: slot_parts(X, X.fieldn(l, 'placed_items'))


def mirrors(X, slots, reg, tag):
    """exactly the placed items are registered, no two of them alike"""
    v, n, _ = slot_parts(X, slots); i, j = Int(f'?{tag}i'), Int(f'?{tag}j')
    en = lambda k: bound(X, [k], lambda: ent_of(X, X.elem(v, k))); ok = lambda k: And(0 <= k, k < n)
    return [('every placed item is registered', ForAll([i], Implies(ok(i), reg(en(i))))), ('nothing else is registered', forall_t(X, tag, lambda e: Implies(reg(e), Exists([i], And(ok(i), en(i) == e))))),
            ('no two placed items are alike', ForAll([i, j], Implies(And(ok(i), ok(j), i != j), en(i) != en(j))))]


def lay_inv(X, l, tag): return [('the engine is consistent', CDEOK(tm(X, X.fieldn(l, 'cde'))))] + mirrors(X, X.fieldn(l, 'placed_items'), lambda e: REG(tm(X, X.fieldn(l, 'cde')), e), tag)
fs = lambda ps: [f for _, f in ps]


DTC = 'DTransformation::compose'
C_COMP = Contract(DTC, ret='Transformation')
TRP = '<SimplePolygon as Transformable>::transform_clone'
C_TRP = Contract('<SimplePolygon as TransformableFrom>::transform_clone' if False else TRP, ret='SimplePolygon')
moved = lambda X, item, d: pure(X, TRP, X.fieldn(item, 'shape'), pure(X, DTC, d))


def post_pinew(X, r, item, d):
    f = X.fieldn
    return [('the id of the item', f(r, 'item_id') == f(item, 'id')), ('the transformation given', X.eq(f(r, 'd_transf'), d)), ('the shape, moved accordingly', tm(X, f(r, 'shape')) == tm(X, moved(X, item, d))), ('the filter of the item', X.eq(f(r, 'hazard_filter'), f(item, 'hazard_filter')))]


Spec(['C06', 'C07', 'C19', 'C21'], 'PlacedItem::new', post=post_pinew, contracts=[C_COMP, C_TRP])


def inserted(X, old, new, key, tag, what):
    """the slot map new is old with one value more, at the key; what(pi) holds of it"""
    (vo, n, ko), (vn, m, kn) = slot_parts(X, old), slot_parts(X, new); p = Int(f'?{tag}p'); j = Int(f'?{tag}j')
    sh = lambda a, b: And(X.eq(X.elem(vn, a), X.elem(vo, b)), X.eq(kn(a), ko(b)))
    body = lambda: And(0 <= p, p <= n, X.eq(kn(p), key), what(X.elem(vn, p)), ForAll([j], Implies(And(0 <= j, j < p), sh(j, j))), ForAll([j], Implies(And(p <= j, j < n), sh(j + 1, j))))
    return [('one more item', m == n + 1), ('the others keep key, item and order', Exists([p], bound(X, [p, j], body)))]


def is_placed(X, pi, item_id, d, shape=None): return And(X.fieldn(pi, 'item_id') == item_id, X.eq(X.fieldn(pi, 'd_transf'), d), BoolVal(True) if shape is None else tm(X, X.fieldn(pi, 'shape')) == shape)


def pre_lplace(X, l, item, d): e = PIENT(X.fieldn(item, 'id'), *dt3(X, d)); return fs(lay_inv(X, l, 'pl')) + [Not(REG(tm(X, X.fieldn(l, 'cde')), e)), OWN(e) == tm(X, moved(X, item, d))]


def post_lplace(X, r, l, item, d):
    old, new = X.old[0], X.new(0)
    return lay_inv(X, new, 'qn') + inserted(X, X.fieldn(old, 'placed_items'), X.fieldn(new, 'placed_items'), r, 'li', lambda pi: is_placed(X, pi, X.fieldn(item, 'id'), d)) + [('id and bin stay', same_but(X, old, new, 'placed_items', 'cde'))]


C_PINEW = Contract('PlacedItem::new', post=post_pinew, ret='PlacedItem')
Spec(['C05', 'C06', 'C07'], 'Layout::place_item', pre=pre_lplace, post=post_lplace, contracts=[C_LREG, C_PINEW, C_COMP, C_TRP], timeout=40)


def taken(X, old, new, key, r, tag):
    (vo, n, ko), (vn, m, kn) = slot_parts(X, old), slot_parts(X, new); p = Int(f'?{tag}p'); j = Int(f'?{tag}j')
    sh = lambda a, b: And(X.eq(X.elem(vn, a), X.elem(vo, b)), X.eq(kn(a), ko(b)))
    body = lambda: And(0 <= p, p < n, X.eq(ko(p), key), X.eq(X.elem(vo, p), r), ForAll([j], Implies(And(0 <= j, j < p), sh(j, j))), ForAll([j], Implies(And(p <= j, j < m), sh(j, j + 1))))
    return [('one item less', m == n - 1), ('the item of the key is returned, the others keep key, item and order', Exists([p], bound(X, [p, j], body)))]


def post_lremove(X, r, l, key, now):
    old, new = X.old[0], X.new(0)
    return lay_inv(X, new, 'qn') + taken(X, X.fieldn(old, 'placed_items'), X.fieldn(new, 'placed_items'), key, r, 'lt') + [('id and bin stay', same_but(X, old, new, 'placed_items', 'cde'))]


Spec(['C05', 'C06', 'C07'], 'Layout::remove_item', pre=lambda X, l, k, now: fs(lay_inv(X, l, 'pl')), post=post_lremove, contracts=[C_LDEREG], timeout=40)
Spec(['C07'], 'Layout::is_empty', post=lambda X, r, l: [('no items', r == (placed(X, l)[1] == 0))])
snap_inv = lambda X, s, tag: mirrors(X, X.fieldn(s, 'placed_items'), lambda e: SREG(tm(X, X.fieldn(s, 'cde_snapshot')), e), tag)


def same_slots(X, a, b, tag):
    (va, n, ka), (vb, m, kb) = slot_parts(X, a), slot_parts(X, b); return And(n == m, forall(X, tag, n, lambda k: And(X.eq(X.elem(va, k), X.elem(vb, k)), X.eq(ka(k), kb(k)))))


def post_lsnap(X, r, l):
    old, new = X.old[0], X.new(0); f = X.fieldn
    return lay_inv(X, new, 'qn') + snap_inv(X, r, 'qs') + [('id and bin', And(f(r, 'id') == f(old, 'id'), X.eq(f(r, 'bin'), f(old, 'bin')))), ('the placed items', same_slots(X, f(r, 'placed_items'), f(old, 'placed_items'), 'qp')), ('the layout keeps its items', same_slots(X, f(new, 'placed_items'), f(old, 'placed_items'), 'qo')), ('nothing else changes', same_but(X, old, new, 'cde', 'placed_items'))]


C_USAGE = Contract('Layout::usage', ret='f32')
Spec(['C06', 'C05'], 'Layout::create_snapshot', pre=lambda X, l: fs(lay_inv(X, l, 'pl')), post=post_lsnap, contracts=[C_LSNAP, C_USAGE], timeout=40)


def post_lrest(X, r, l, s):
    old, new = X.old[0], X.new(0); f = X.fieldn
    return lay_inv(X, new, 'qn') + [('the placed items of the snapshot', same_slots(X, f(new, 'placed_items'), f(s, 'placed_items'), 'qp')), ('id and bin stay', same_but(X, old, new, 'placed_items', 'cde'))]


Spec(['C06', 'C05'], 'Layout::restore', pre=lambda X, l, s: [CDEOK(tm(X, X.fieldn(l, 'cde')))] + fs(snap_inv(X, s, 'ps')), post=post_lrest, contracts=[C_LREST], timeout=40)


# ---------------------------------------------------------------- new layouts
def base_ok(X, bin_):
    c = tm(X, X.fieldn(bin_, 'base_cde')); return [CDEOK(c), forall_t(X, 'bo', lambda e: Not(REG(c, e)))]


def post_lnew(X, r, i, b): return lay_inv(X, r, 'qn') + [('no items', placed(X, r)[1] == 0), ('the id given', X.fieldn(r, 'id') == i), ('the bin given', X.eq(X.fieldn(r, 'bin'), b)), ('the engine of the empty bin', tm(X, X.fieldn(r, 'cde')) == tm(X, X.fieldn(b, 'base_cde')))]


Spec(['C06', 'C07', 'C05'], 'Layout::new', pre=lambda X, i, b: base_ok(X, b), post=post_lnew)
C_LNEW = Contract('Layout::new', pre=lambda X, i, b: base_ok(X, b), post=post_lnew, ret='Layout')
C_LRESTORE = Contract('Layout::restore', pre=lambda X, l, s: [X.fieldn(l, 'id') == X.fieldn(s, 'id'), CDEOK(tm(X, X.fieldn(l, 'cde')))] + fs(snap_inv(X, s, 'ps')), post=post_lrest, ret='()', modifies=(0,))


def post_lfrom(X, r, s):
    f = X.fieldn; return lay_inv(X, r, 'qn') + [('the placed items of the snapshot', same_slots(X, f(r, 'placed_items'), f(s, 'placed_items'), 'qp')), ('its id', f(r, 'id') == f(s, 'id')), ('its bin', X.eq(f(r, 'bin'), f(s, 'bin')))]


Spec(['C06'], 'Layout::from_snapshot', pre=lambda X, s: base_ok(X, X.fieldn(s, 'bin')) + fs(snap_inv(X, s, 'ps')), post=post_lfrom, contracts=[C_LNEW, C_LRESTORE], timeout=40)
Spec(['C06', 'C07'], 'Layout::clone_with_id', post=lambda X, r, l, i: [('the id given', X.fieldn(r, 'id') == i), ('everything else is copied', same_but(X, l, r, 'id'))])


def inv_cb(X, st, env):
    l, p, old = env['self'], env['#'], X.old[0]; v, n, _ = placed(X, l); i = Int('?cbi'); c = tm(X, X.fieldn(l, 'cde')); en = lambda k: bound(X, [k], lambda: ent_of(X, X.elem(v, k))); ok = lambda k: And(0 <= k, k < p)
    return [CDEOK(c), X.eq(X.fieldn(l, 'placed_items'), X.fieldn(old, 'placed_items')), X.fieldn(l, 'id') == X.fieldn(old, 'id'), X.eq(X.fieldn(l, 'bin'), X.inputs[1]),
            ForAll([i], Implies(ok(i), REG(c, en(i)))), forall_t(X, 'cbe', lambda e: Implies(REG(c, e), Exists([i], And(ok(i), en(i) == e))))]


def own_shapes(X, l): v, n, _ = placed(X, l); return forall(X, 'ow', n, lambda k: tm(X, X.fieldn(X.elem(v, k), 'shape')) == OWN(ent_of(X, X.elem(v, k))))


def post_cb(X, r, l, b): old, new = X.old[0], X.new(0); return lay_inv(X, new, 'qn') + [('the items stay', X.eq(X.fieldn(new, 'placed_items'), X.fieldn(old, 'placed_items'))), ('the bin is the new one', X.eq(X.fieldn(new, 'bin'), b)), ('the id stays', X.fieldn(new, 'id') == X.fieldn(old, 'id'))]


Spec(['C05', 'C06'], 'Layout::change_bin', pre=lambda X, l, b: fs(lay_inv(X, l, 'pl')) + base_ok(X, b) + [own_shapes(X, l)], post=post_cb, contracts=[C_LREG], invariants={('layout::change_bin', 0): Inv(inv_cb)}, timeout=40)


# ---------------------------------------------------------------- bin packing: demand, stock, layouts
LOK = Function('LOK', Term, Term, B)              # lay_inv of a layout with these placed items and this engine, folded
lok = lambda X, l: LOK(tm(X, X.fieldn(l, 'placed_items')), tm(X, X.fieldn(l, 'cde')))
CNT = Function('CNT', Term, I, I, I)              # number of items of an id among the first so many placed items
lays = lambda X, p: X.fieldn(p, 'layouts')


def has_ite(e): return is_app(e) and (e.decl().kind() == Z3_OP_ITE or any(has_ite(c) for c in e.children()))


def plain(X, p):
    """no conditional in a pattern"""
    if not (is_expr(p) and has_ite(p)): return p
    q = FreshInt('cntp'); X.facts.append(q == p); return q


def count(X, slots, p, k):
    """CNT, unfolded once"""
    v, n, _ = slot_parts(X, slots); j = Int('?cnt'); t = v.term
    p = plain(X, p)
    c = CNT(t, p, j)
    body = lambda: c == If(p <= 0, IntVal(0), CNT(t, p - 1, j) + If(X.fieldn(X.elem(v, p - 1), 'item_id') == j, 1, 0))
    X.facts.append(ForAll([j], bound(X, [j], body), patterns=[c]))
    return CNT(t, p, k)


def demand(X, old, new, change, tag):
    """missing_item_qtys changes by change(id)"""
    v, w = X.fieldn(old, 'missing_item_qtys'), X.fieldn(new, 'missing_item_qtys')
    return [('demand keeps its length', X.length(v) == X.length(w)), ('demand changes exactly by the items', forall(X, tag, X.length(v), lambda k: X.elem(w, k) == X.elem(v, k) + change(k)))]


def stock(X, old, new, change, tag):
    v, w = X.fieldn(old, 'bin_qtys'), X.fieldn(new, 'bin_qtys')
    return [('stock keeps its length', X.length(v) == X.length(w)), ('stock changes exactly by the bins', forall(X, tag, X.length(v), lambda k: X.elem(w, k) == X.elem(v, k) + change(k)))]


def same_vec(X, a, b, tag): return And(X.length(a) == X.length(b), forall(X, tag, X.length(a), lambda k: X.eq(X.elem(a, k), X.elem(b, k))))


bin_id = lambda X, l: X.fieldn(X.fieldn(l, 'bin'), 'id')


def post_reglay(X, r, p, l):
    old, new = X.old[0], X.new(0); n = X.length(lays(X, old)); s = X.fieldn(l, 'placed_items'); m = slot_parts(X, s)[1]
    return [('the layout is added at the end', And(X.length(lays(X, new)) == n + 1, X.eq(X.elem(lays(X, new), n), l))), ('the other layouts stay', forall(X, 'rl', n, lambda k: X.eq(X.elem(lays(X, new), k), X.elem(lays(X, old), k)))), ('its index', And(X.discr(r) == 0, X.field(r, 0, 'usize', 'Real') == n)),
            *demand(X, old, new, lambda k: -count(X, s, m, k), 'rd'), *stock(X, old, new, lambda k: If(k == bin_id(X, l), IntVal(-1), IntVal(0)), 'rs'), ('nothing else changes', same_but(X, old, new, 'layouts', 'missing_item_qtys', 'bin_qtys'))]


def inv_fe(sign):
    """for_each over the placed items: demand so far"""
    def inv(X, st, env):
        old, p = X.old[0], env['#']; new = X.read(st, ('arg', 0), ()); l = env['layout']; s = X.fieldn(l, 'placed_items')
        return [f for _, f in demand(X, old, new, lambda k: sign * count(X, s, p, k), 'fe')]
    return inv


Spec(['C07'], f'{BP}::register_layout', post=post_reglay, invariants={('problems::bin_packing::register_layout', 0): Inv(inv_fe(-1), fine=True)}, timeout=40)


def ids(X, p): return X.fieldn(p, 'unmodified_layout_ids')
def has_id(X, v, i, tag): k = Int(f'?{tag}'); return Exists([k], And(0 <= k, k < X.length(v), X.elem(v, k) == i))
HASID = Function('HASID', Term, I, B)            # has_id, folded
def hasid(X, v, i, tag): return HASID(tm(X, v), i)
def forget_id(X, old, new, i, tag, has=hasid): e = Int(f'?{tag}e'); return ('the layout no longer counts as unmodified, the others do as before', ForAll([e], has(X, ids(X, new), e, tag + 'n') == And(e != i, has(X, ids(X, old), e, tag + 'o'))))
def ids_distinct(X, p, tag): i, j = Int(f'?{tag}i'), Int(f'?{tag}j'); v = ids(X, p); return ForAll([i, j], Implies(And(0 <= i, i < j, j < X.length(v)), X.elem(v, i) != X.elem(v, j)))


def post_lhc(X, i, has): return [forget_id(X, X.old[0], X.new(0), i, 'fg', has), ('ids stay distinct', ids_distinct(X, X.new(0), 'uo')), ('nothing else changes', same_but(X, X.old[0], X.new(0), 'unmodified_layout_ids'))]


Spec(['C06', 'C07'], f'{BP}::layout_has_changed', pre=lambda X, p, i: [ids_distinct(X, p, 'ud')], post=lambda X, r, p, i: post_lhc(X, i, has_id))


def cut(X, a, b, i, tag):
    """the vector b is a without position i"""
    n = X.length(a); return And(X.length(b) == n - 1, forall(X, tag, n - 1, lambda k: And(Implies(k < i, X.eq(X.elem(b, k), X.elem(a, k))), Implies(k >= i, X.eq(X.elem(b, k), X.elem(a, k + 1))))))


def dereg_effect(X, old, new, i, l, tag, extra=lambda k: IntVal(0)):
    rem = lambda p: X.fieldn(p, 'uncommitted_removed_layouts'); n = X.length(rem(X and old)); s = X.fieldn(l, 'placed_items'); m = slot_parts(X, s)[1]
    return [('the layout is gone, the others stay in order', cut(X, lays(X, old), lays(X, new), i, tag + 'c')), *demand(X, old, new, lambda k: count(X, s, m, k) + extra(k), tag + 'd'), *stock(X, old, new, lambda k: If(k == bin_id(X, l), IntVal(1), IntVal(0)), tag + 's'),
            ('it is kept for a restore', And(X.length(rem(new)) == n + 1, X.eq(X.elem(rem(new), n), l), forall(X, tag + 'r', n, lambda k: X.eq(X.elem(rem(new), k), X.elem(rem(old), k)))))]


real = lambda X, li: X.field(li, 0, 'usize', 'Real')
def post_dereg(X, r, p, li):
    old, new = X.old[0], X.new(0); i = real(X, li); l = X.elem(lays(X, old), i)
    return [('only a real layout can be removed', X.discr(li) == 0), *dereg_effect(X, old, new, i, l, 'dl'), forget_id(X, old, new, X.fieldn(l, 'id'), 'fg'), ('ids stay distinct', ids_distinct(X, new, 'uo')), ('nothing else changes', same_but(X, old, new, 'layouts', 'missing_item_qtys', 'bin_qtys', 'unmodified_layout_ids', 'uncommitted_removed_layouts'))]


C_LHC = Contract(f'{BP}::layout_has_changed', pre=lambda X, p, i: [ids_distinct(X, p, 'ud')], post=lambda X, r, p, i: fs(post_lhc(X, i, hasid)), ret='()', modifies=(0,))
for f in ('deregister_layout', 'remove_layout'):
    Spec(['C07', 'C06'], f'{BP}::{f}', pre=lambda X, p, li: [ids_distinct(X, p, 'ud')], post=post_dereg, contracts=[C_LHC] + (['BPProblem::deregister_layout'] if f == 'remove_layout' else []), invariants={('problems::bin_packing::deregister_layout', 0): Inv(inv_fe(1), fine=True)}, timeout=40)


# placing and removing items
POPT = 'PlacingOption'
Spec(['C06', 'C07', 'C19'], f'{POPT}::from_placed_item', post=lambda X, r, li, pi: [('the layout given', X.eq(X.fieldn(r, 'layout_idx'), li)), ('the id of the item', X.fieldn(r, 'item_id') == X.fieldn(pi, 'item_id')), ('its transformation', X.eq(X.fieldn(r, 'd_transf'), X.fieldn(pi, 'd_transf')))])
lid = lambda X, l: X.fieldn(l, 'id')
items_of = lambda X, p: X.fieldn(X.fieldn(p, 'instance'), 'items')


def prob_inv(X, p, tag):
    """layouts consistent, their ids distinct and not above the counter"""
    v, c = lays(X, p), X.fieldn(p, 'layout_id_counter'); n = X.length(v); i, j = Int(f'?{tag}i'), Int(f'?{tag}j'); t = X.fieldn(p, 'template_layouts'); w = X.fieldn(p, 'uncommitted_removed_layouts')
    return [('every layout mirrors its engine', forall(X, tag + 'l', n, lambda k: lok(X, X.elem(v, k)))), ('removed layouts keep consistent engines', forall(X, tag + 'r', X.length(w), lambda k: lok(X, X.elem(w, k)))), ('templates mirror their engine', forall(X, tag + 't', X.length(t), lambda k: lok(X, X.elem(t, k)))),
            ('layout ids stay below the counter', forall(X, tag + 'c', n, lambda k: lid(X, X.elem(v, k)) <= c)), ('layout ids are distinct', ForAll([i, j], Implies(And(0 <= i, i < j, j < n), bound(X, [i, j], lambda: lid(X, X.elem(v, i)) != lid(X, X.elem(v, j)))))), ('unmodified ids are distinct', ids_distinct(X, p, tag + 'u'))]


def free_at(X, l, item, d): e = PIENT(X.fieldn(item, 'id'), *dt3(X, d)); return [Not(REG(tm(X, X.fieldn(l, 'cde')), e)), OWN(e) == tm(X, moved(X, item, d))]


def pi_at(X, l, item, d): return [lok(X, l)] + free_at(X, l, item, d)


C_LPLACE = Contract('Layout::place_item', pre=pi_at, post=lambda X, r, l, item, d: [lok(X, X.new(0))] + fs(inserted(X, X.fieldn(X.old[0], 'placed_items'), X.fieldn(X.new(0), 'placed_items'), r, 'li', lambda pi: is_placed(X, pi, X.fieldn(item, 'id'), d))) + [same_but(X, X.old[0], X.new(0), 'placed_items', 'cde')], ret='PItemKey', modifies=(0,))
C_LREMOVE = Contract('Layout::remove_item', pre=lambda X, l, k, now: [lok(X, l)], post=lambda X, r, l, k, now: [lok(X, X.new(0))] + fs(taken(X, X.fieldn(X.old[0], 'placed_items'), X.fieldn(X.new(0), 'placed_items'), k, r, 'lt')) + [same_but(X, X.old[0], X.new(0), 'placed_items', 'cde')], ret='PlacedItem', modifies=(0,))
po = lambda X, o: (X.fieldn(o, 'layout_idx'), X.fieldn(o, 'item_id'), X.fieldn(o, 'd_transf'))
tmpl = lambda X, p: X.fieldn(p, 'template_layouts')
item_at = lambda X, p, i: X.field(X.elem(items_of(X, p), i), 0, 'Item')


def pre_bplace(X, p, o):
    li, it, d = po(X, o); item = item_at(X, p, it); real_, i = X.discr(li) == 0, real(X, li); j = X.field(li, 0, 'usize', 'Template'); t = X.elem(tmpl(X, p), j)
    return fs(prob_inv(X, p, 'pv')) + [X.fieldn(item, 'id') == it, Implies(real_, And(*free_at(X, X.elem(lays(X, p), i), item, d))), Implies(Not(real_), And(*free_at(X, t, item, d))), Implies(Not(real_), slot_parts(X, X.fieldn(t, 'placed_items'))[1] == 0)]


def post_bplace(X, r, p, o):
    old, new = X.old[0], X.new(0); li, it, d = po(X, o); isr, i = X.discr(li) == 0, real(X, li); n = X.length(lays(X, old)); ri, key = X.field(r, 0, 'LayoutIndex'), X.field(r, 1, 'PItemKey')
    at = If(isr, i, n); t = X.elem(tmpl(X, old), X.field(li, 0, 'usize', 'Template')); was = X.elem(lays(X, old), i); l = X.elem(lays(X, new), at); what = lambda pi: is_placed(X, pi, it, d)
    return [('a real layout is reported', And(X.discr(ri) == 0, real(X, ri) == at)), ('a layout more if a new bin was opened', X.length(lays(X, new)) == If(isr, n, n + 1)), ('the other layouts stay', forall(X, 'bl', n, lambda k: Implies(k != at, X.eq(X.elem(lays(X, new), k), X.elem(lays(X, old), k))))),
            ('the layout has the item more', Implies(isr, And(*fs(inserted(X, X.fieldn(was, 'placed_items'), X.fieldn(l, 'placed_items'), key, 'bi', what)), lid(X, l) == lid(X, was), X.eq(X.fieldn(l, 'bin'), X.fieldn(was, 'bin'))))),
            ('the new layout has the item alone', Implies(Not(isr), And(*fs(inserted(X, X.fieldn(t, 'placed_items'), X.fieldn(l, 'placed_items'), key, 'bj', what)), X.eq(X.fieldn(l, 'bin'), X.fieldn(t, 'bin'))))),
            *demand(X, old, new, lambda k: If(k == it, IntVal(-1), IntVal(0)), 'bd'), *stock(X, old, new, lambda k: If(And(Not(isr), k == bin_id(X, t)), IntVal(-1), IntVal(0)), 'bs'), forget_id(X, old, new, lid(X, l), 'bf'), *prob_inv(X, new, 'qv'),
            ('nothing else changes', same_but(X, old, new, 'layouts', 'missing_item_qtys', 'bin_qtys', 'unmodified_layout_ids', 'layout_id_counter'))]


Spec(['C06', 'C07'], f'<{BP} as {PG}>::place_item', pre=pre_bplace, post=post_bplace, contracts=[C_LPLACE, C_LHC, f'{BP}::register_layout', C_COMP, C_TRP], split='top', timeout=60)


def pre_bremove(X, p, li, k, now): return fs(prob_inv(X, p, 'pv'))


def post_bremove(X, r, p, li, key, now):
    """two cases: the layout keeps other items, or it was the last and the layout goes, its bin back to the stock"""
    old, new = X.old[0], X.new(0); i = real(X, li); n = X.length(lays(X, old)); was = X.elem(lays(X, old), i); s = X.fieldn(was, 'placed_items'); last = slot_parts(X, s)[1] == 1; l = X.elem(lays(X, new), i); ro = po(X, r)
    rem = lambda p: X.fieldn(p, 'uncommitted_removed_layouts'); m = X.length(rem(old)); v, _, ko = slot_parts(X, s); q = Int('?rq')
    here = lambda f: Exists([q], bound(X, [q], lambda: And(0 <= q, q < slot_parts(X, s)[1], X.eq(ko(q), key), f(X.elem(v, q)))))
    return [('only from a real layout', X.discr(li) == 0), ('the placing option of the item removed', And(X.eq(ro[0], li), here(lambda pi: And(X.fieldn(pi, 'item_id') == ro[1], X.eq(X.fieldn(pi, 'd_transf'), ro[2]))))),
            ('the layout has the item less', Implies(Not(last), And(X.length(lays(X, new)) == n, lid(X, l) == lid(X, was), X.eq(X.fieldn(l, 'bin'), X.fieldn(was, 'bin')), less(X, s, X.fieldn(l, 'placed_items'), key, 'bt')))),
            ('the other layouts stay', Implies(Not(last), forall(X, 'ol', n, lambda k: Implies(k != i, X.eq(X.elem(lays(X, new), k), X.elem(lays(X, old), k)))))),
            ('an empty layout goes', Implies(last, cut(X, lays(X, old), lays(X, new), i, 'oc'))), ('it is kept for a restore', If(last, And(X.length(rem(new)) == m + 1, lid(X, X.elem(rem(new), m)) == lid(X, was)), X.eq(rem(new), rem(old)))), ('the earlier removed layouts stay', forall(X, 'oe', m, lambda k: X.eq(X.elem(rem(new), k), X.elem(rem(old), k)))),
            *demand(X, old, new, lambda k: If(k == ro[1], IntVal(1), IntVal(0)), 'od'), *stock(X, old, new, lambda k: If(And(last, k == bin_id(X, was)), IntVal(1), IntVal(0)), 'os'), forget_id(X, old, new, lid(X, was), 'of'), *prob_inv(X, new, 'qv'),
            ('nothing else changes', same_but(X, old, new, 'layouts', 'missing_item_qtys', 'bin_qtys', 'unmodified_layout_ids', 'uncommitted_removed_layouts'))]


def less(X, old, new, key, tag):
    (vo, n, ko), (vn, m, kn) = slot_parts(X, old), slot_parts(X, new); p = Int(f'?{tag}p'); j = Int(f'?{tag}j')
    sh = lambda a, b: And(X.eq(X.elem(vn, a), X.elem(vo, b)), X.eq(kn(a), ko(b)))
    return And(m == n - 1, Exists([p], bound(X, [p, j], lambda: And(0 <= p, p < n, X.eq(ko(p), key), ForAll([j], Implies(And(0 <= j, j < p), sh(j, j))), ForAll([j], Implies(And(p <= j, j < m), sh(j, j + 1)))))))


Spec(['C06', 'C07'], f'<{BP} as {PG}>::remove_item', pre=pre_bremove, post=post_bremove, contracts=[C_LREMOVE, C_LHC, f'{BP}::deregister_layout'], split='top', timeout=60)


def post_reset(X, r, p, i):
    old, new = X.old[0], X.new(0); v, n = ids(X, new), X.length(lays(X, old)); ref = X.fieldn(new, 'unmodified_layouts_ref_solution')
    return [('every layout counts as unmodified', And(X.length(v) == n, forall(X, 'ru', n, lambda k: X.elem(v, k) == lid(X, X.elem(lays(X, old), k))))), ('relative to the solution', And(opt(X, ref)[0], opt(X, ref)[1] == i)), ('nothing else changes', same_but(X, old, new, 'unmodified_layout_ids', 'unmodified_layouts_ref_solution'))]


Spec(['C06'], f'{BP}::reset_unmodified_layouts', post=post_reset)


def post_bnew(X, r, inst):
    f = X.fieldn; it, bn = f(inst, 'items'), f(inst, 'bins'); n, m = X.length(it), X.length(bn); t = f(r, 'template_layouts'); b = lambda k: X.field(X.elem(bn, k), 0, 'Bin'); qb = lambda k: X.field(X.elem(bn, k), 1, 'usize'); qi = lambda k: X.field(X.elem(it, k), 1, 'usize')
    return [('all demand is missing', And(X.length(f(r, 'missing_item_qtys')) == n, forall(X, 'nm', n, lambda k: X.elem(f(r, 'missing_item_qtys'), k) == qi(k)))), ('all stock is left', And(X.length(f(r, 'bin_qtys')) == m, forall(X, 'nb', m, lambda k: X.elem(f(r, 'bin_qtys'), k) == qb(k)))),
            ('no layouts', X.length(lays(X, r)) == 0), ('an empty template per bin', And(X.length(t) == m, forall(X, 'nt', m, lambda k: And(X.eq(f(X.elem(t, k), 'bin'), b(k)), slot_parts(X, f(X.elem(t, k), 'placed_items'))[1] == 0)))), ('the instance given', X.eq(f(r, 'instance'), inst)), *prob_inv(X, r, 'qv')]


def pre_bnew(X, inst):
    it, bn = X.fieldn(inst, 'items'), X.fieldn(inst, 'bins'); big = 2 ** 63
    return [forall(X, 'pq', X.length(it), lambda k: X.field(X.elem(it, k), 1, 'usize') < big), forall(X, 'pb', X.length(bn), lambda k: BASEOK(tm(X, X.fieldn(X.field(X.elem(bn, k), 0, 'Bin'), 'base_cde'))))]


BASEOK = Function('BASEOK', Term, B)              # base_ok, folded
C_LNEWF = Contract('Layout::new', pre=lambda X, i, b: [BASEOK(tm(X, X.fieldn(b, 'base_cde')))], post=lambda X, r, i, b: [lok(X, r)] + fs(post_lnew(X, r, i, b)[4:]), ret='Layout')
Spec(['C07', 'C06'], f'{BP}::new', pre=pre_bnew, post=post_bnew, contracts=[C_LNEWF])


def post_placed(X, r, p):
    v, it = X.fieldn(p, 'missing_item_qtys'), items_of(X, p)
    return [('demand minus missing, by item', And(r.n == X.length(v), forall(X, 'pp', X.length(v), lambda k: r.get(k) == X.field(X.elem(it, k), 1, 'usize') - X.elem(v, k))))]


for P_ in (BP, SP):
    kw = dict(subst={'Self': P_}, types={0: f'&{P_}'})
    Spec(['C07'], f'{PG}::placed_item_qtys', pre=lambda X, p: [forall(X, 'pq', X.length(X.fieldn(p, 'missing_item_qtys')), lambda k: X.elem(X.fieldn(p, 'missing_item_qtys'), k) <= X.field(X.elem(items_of(X, p), k), 1, 'usize'))], post=post_placed, name=f'<{P_} as {PG}>::placed_item_qtys', **kw)


# ---------------------------------------------------------------- sums over layouts: usage and cost
AREAS = Function('AREAS', Term, I, R)             # sum of the areas of the first so many placed items
area = lambda X, pi: X.fieldn(X.fieldn(pi, 'shape'), 'area')


def rec_sum(X, F, t, k, term, zero):
    """F(t, k) = sum of term(i) over i < k, unfolded at k"""
    X.facts.append(F(t, k) == If(k <= 0, zero, F(t, k - 1) + term(k - 1))); return F(t, k)


def areas(X, slots, k): v, _, _ = slot_parts(X, slots); return rec_sum(X, AREAS, v.term, k, lambda i: area(X, X.elem(v, i)), RealVal(0))
def usage_of(X, l): s = X.fieldn(l, 'placed_items'); return areas(X, s, slot_parts(X, s)[1]) / X.fieldn(X.fieldn(l, 'bin'), 'area')


Spec(['C07'], 'Layout::usage', pre=lambda X, l: [X.fieldn(X.fieldn(l, 'bin'), 'area') != 0], post=lambda X, r, l: [('item area over bin area', r == usage_of(X, l))], invariants={('layout::usage', 0): Inv(lambda X, st, env: [env['acc'] == areas(X, X.fieldn(X.inputs[0], 'placed_items'), env['#'])])})
COST = Function('COST', Term, I, I)
def cost(X, v, k): return rec_sum(X, COST, tm(X, v), k, lambda i: X.fieldn(X.fieldn(X.elem(v, i), 'bin'), 'value'), IntVal(0))
Spec(['C07'], f'{PG}::used_bin_cost', post=lambda X, r, p: [('sum of the values of the bins in use', r == cost(X, lays(X, p), X.length(lays(X, p))))], invariants={(f'{PG}::used_bin_cost', 0): Inv(lambda X, st, env: [env['acc'] == cost(X, lays(X, X.inputs[0]), env['#'])])}, subst={'Self': BP}, types={0: f'&{BP}'}, name=f'<{BP} as {PG}>::used_bin_cost')
BAREA, UAREA = Function('BAREA', Term, I, R), Function('UAREA', Term, I, R)
barea = lambda X, l: X.fieldn(X.fieldn(l, 'bin'), 'area')
def tot_bin(X, v, k): return rec_sum(X, BAREA, tm(X, v), k, lambda i: barea(X, X.elem(v, i)), RealVal(0))
def tot_use(X, v, k): return rec_sum(X, UAREA, tm(X, v), k, lambda i: barea(X, X.elem(v, i)) * pure(X, 'Layout::usage', X.elem(v, i)), RealVal(0))
def inv_pu(X, st, env): v, k = lays(X, X.inputs[0]), env['#']; a = env['acc']; return [a.fields[0] == tot_bin(X, v, k), a.fields[1] == tot_use(X, v, k)]
def post_pu(X, r, p): v = lays(X, p); n = X.length(v); return [('used area over the area of the bins', Implies(tot_bin(X, v, n) != 0, r == tot_use(X, v, n) / tot_bin(X, v, n))), ('nothing changes', X.eq(X.new(0), X.old[0]))]
Spec(['C07'], f'{PG}::usage', post=post_pu, contracts=[C_USAGE], invariants={(f'{PG}::usage', 0): Inv(inv_pu)}, subst={'Self': BP}, types={0: f'&mut {BP}'}, name=f'<{BP} as {PG}>::usage')


# ---------------------------------------------------------------- solutions
SO = 'Solution'
inst_items = lambda X, i: X.fieldn(i, 'items')
qty = lambda X, i, k: X.field(X.elem(inst_items(X, i), k), 1, 'usize')
QSUM = Function('QSUM', Term, I, I)
pq = lambda X, s: X.fieldn(s, 'placed_item_qtys')
def qsum(X, v, k): return rec_sum(X, QSUM, tm(X, v), k, lambda i: X.elem(v, i), IntVal(0))
Spec(['C07'], f'{SO}::n_items_placed', post=lambda X, r, s: [('sum of the quantities', r == qsum(X, pq(X, s), X.length(pq(X, s))))], invariants={('solution::n_items_placed', 0): Inv(lambda X, st, env: [env['acc'] == qsum(X, pq(X, X.inputs[0]), env['#'])])})
for I_ in ('BPInstance', 'SPInstance'):
    Spec(['C07'], f'{SO}::is_complete', types={1: f'&{I_}'}, pre=lambda X, s, i: [X.length(pq(X, s)) == X.length(inst_items(X, i))], post=lambda X, r, s, i: [('complete iff no item is short', r == forall(X, 'ic', X.length(pq(X, s)), lambda k: X.elem(pq(X, s), k) >= qty(X, i, k)))], name=f'{SO}::is_complete ({I_})')


# ---------------------------------------------------------------- problems in general
def post_stock(X, r, p):
    t, q = tmpl(X, p), X.fieldn(p, 'bin_qtys'); n = X.length(t)
    return [('templates in order', r.n == n), ('exactly those whose bin is in stock', forall(X, 'ts', n, lambda k: r.keep(k) == (X.elem(q, bin_id(X, X.elem(t, k))) != 0))), ('by their index', forall(X, 'ti', n, lambda k: Implies(r.keep(k), And(X.discr(r.get(k)) == 1, X.field(r.get(k), 0, 'usize', 'Template') == k))))]


def stocked(X, p): t, q = tmpl(X, p), X.fieldn(p, 'bin_qtys'); return [forall(X, 'sb', X.length(t), lambda k: And(bin_id(X, X.elem(t, k)) < X.length(q), bin_id(X, X.elem(t, k)) >= 0))]


Spec(['C07'], f'{PG}::template_layout_indices_with_stock', pre=stocked, post=post_stock, subst={'Self': BP}, types={0: f'&{BP}'}, name=f'<{BP} as {PG}>::template_layout_indices_with_stock')


# ---------------------------------------------------------------- strip packing
lay = lambda X, p: X.fieldn(p, 'layout')


def pre_splace(X, p, o): li, it, d = po(X, o); item = item_at(X, p, it); return pi_at(X, lay(X, p), item, d) + [X.fieldn(item, 'id') == it]


strip0 = lambda X, li: And(X.discr(li) == 0, real(X, li) == 0)
def post_splace(X, r, p, o):
    old, new = X.old[0], X.new(0); li, it, d = po(X, o); a, b = lay(X, old), lay(X, new)
    return [('only the strip', strip0(X, li)), ('the strip is reported', strip0(X, X.field(r, 0, 'LayoutIndex'))), ('the layout mirrors its engine', lok(X, b)), *inserted(X, X.fieldn(a, 'placed_items'), X.fieldn(b, 'placed_items'), X.field(r, 1, 'PItemKey'), 'si', lambda pi: is_placed(X, pi, it, d)), ('id and bin stay', same_but(X, a, b, 'placed_items', 'cde')),
            *demand(X, old, new, lambda k: If(k == it, IntVal(-1), IntVal(0)), 'sd'), ('nothing else changes', same_but(X, old, new, 'layout', 'missing_item_qtys'))]


def post_sremove(X, r, p, li, key, now):
    old, new = X.old[0], X.new(0); a, b = lay(X, old), lay(X, new); s = X.fieldn(a, 'placed_items'); ro = po(X, r); v, n, ko = slot_parts(X, s); q = Int('?rq')
    return [('only the strip', strip0(X, li)), ('the layout mirrors its engine', lok(X, b)), ('the layout has the item less', less(X, s, X.fieldn(b, 'placed_items'), key, 'st')), ('the placing option of the item removed', And(X.eq(ro[0], li), Exists([q], bound(X, [q], lambda: And(0 <= q, q < n, X.eq(ko(q), key), X.fieldn(X.elem(v, q), 'item_id') == ro[1], X.eq(X.fieldn(X.elem(v, q), 'd_transf'), ro[2])))))), ('id and bin stay', same_but(X, a, b, 'placed_items', 'cde')),
            *demand(X, old, new, lambda k: If(k == ro[1], IntVal(1), IntVal(0)), 'sd'), ('nothing else changes', same_but(X, old, new, 'layout', 'missing_item_qtys'))]


Spec(['C06', 'C07', 'C08'], f'<{SP} as {PG}>::place_item', pre=pre_splace, post=post_splace, contracts=[C_LPLACE, C_COMP, C_TRP], timeout=40)
Spec(['C06', 'C07', 'C08'], f'<{SP} as {PG}>::remove_item', pre=lambda X, p, li, k, now: [lok(X, lay(X, p))], post=post_sremove, contracts=[C_LREMOVE], timeout=40)
bbx = lambda X, s: X.fieldn(s, 'bbox')


# occupied range: the least interval that holds the boxes of all placed items
def rng_of(X, l, p): v, n, _ = placed(X, l); return v, n, lambda k, side: X.fieldn(bbx(X, X.fieldn(X.elem(v, k), 'shape')), side)


def inv_or(X, st, env):
    v, n, side = rng_of(X, X.inputs[0], None); p, a, b = env['#'], env['min_x'], env['max_x']; k, j = Int('?ok'), Int('?oj')
    return [Implies(p == 0, And(a == FM, b == -FM)), ForAll([k], Implies(And(0 <= k, k < p), And(a <= side(k, 'x_min'), b >= side(k, 'x_max')))), Implies(p > 0, Exists([k], And(0 <= k, k < p, a == side(k, 'x_min')))), Implies(p > 0, Exists([j], And(0 <= j, j < p, b == side(j, 'x_max'))))]


def post_or(X, r, l):
    v, n, side = rng_of(X, l, None); c, t = opt(X, r); k, j = Int('?rk'), Int('?rj'); a, b = X.field(t, 0, 'f32'), X.field(t, 1, 'f32'); ok = lambda i: And(0 <= i, i < n)
    return [('none iff no items', c == (n > 0)), ('it holds every item', Implies(c, ForAll([k], Implies(ok(k), And(a <= side(k, 'x_min'), b >= side(k, 'x_max')))))), ('it starts at an item', Implies(c, Exists([k], And(ok(k), a == side(k, 'x_min'))))), ('it ends at an item', Implies(c, Exists([j], And(ok(j), b == side(j, 'x_max')))))]


FM = RealVal(2 ** 128 - 2 ** 104)
def finite_items(X, l): v, n, side = rng_of(X, l, None); return forall(X, 'fi', n, lambda k: And(side(k, 'x_min') < FM, side(k, 'x_max') > -FM))
Spec(['C08'], 'occupied_range', pre=lambda X, l: [finite_items(X, l)], post=post_or, invariants={('problems::strip_packing::occupied_range', 0): Inv(inv_or), ('strip_packing::occupied_range', 0): Inv(inv_or), ('occupied_range', 0): Inv(inv_or)})


C_OR = Contract('occupied_range', pre=lambda X, l: [finite_items(X, l)], post=lambda X, r, l: fs(post_or(X, r, l)), ret='std::option::Option<(f32, f32)>')
width_of = lambda X, l: pure(X, 'occupied_width', l)


def post_ow(X, r, l):
    """the width of the least interval: it covers every pair of items, and two items attain it"""
    v, n, side = rng_of(X, l, None); k, j = Int('?wk'), Int('?wj'); ok = And(0 <= k, k < n, 0 <= j, j < n)
    return [('zero without items', Implies(n == 0, r == 0)), ('it covers every pair of items', Implies(n > 0, ForAll([k, j], Implies(ok, r >= side(j, 'x_max') - side(k, 'x_min'))))), ('two items attain it', Implies(n > 0, Exists([k, j], And(ok, r == side(j, 'x_max') - side(k, 'x_min')))))]


Spec(['C08'], 'occupied_width', pre=lambda X, l: [finite_items(X, l)], post=post_ow, contracts=[C_OR])


# ---------------------------------------------------------------- changing the strip
HITS = Function('HITS', Term, Term, B)            # a shape collides with a hazard (given by its entity and its shape)
EXTHIT = Function('EXTHIT', R, R, R, R, Term, B)  # a shape collides with the outside of the strip of this rectangle
stat = lambda X, c: X.fieldn(c, 'static_hazards')
entt = lambda X, h: ent_term(X, X.fieldn(h, 'entity'))
bext = lambda X, h: isv(X, X.fieldn(h, 'entity'), 'BinExterior')
C_SHAPE = 'SimplePolygon::from'


def only_ext(X, c, rc):
    """the sole static hazard is the outside of the rectangle"""
    s = stat(X, c); h = X.elem(s, IntVal(0)); x = Const('?oxs', Term)
    return [X.length(s) == 1, bext(X, h), X.fieldn(h, 'active'), ForAll([x], HITS(tm(X, h), x) == EXTHIT(*rect(X, rc), x))]


def dyn(X, c): return X.fieldn(c, 'dynamic_hazards')
def ignored(X, irr, e, tag): k = Int(f'?{tag}'); return Exists([k], bound(X, [k], lambda: And(0 <= k, k < X.length(irr), X.eq(X.elem(irr, k), e))))


def post_pc(X, r, c, shape, irr):
    """what the query is asked (C01): does an active hazard that is not to be ignored meet the shape"""
    k, j = Int('?pk'), Int('?pj'); s, d = stat(X, c), dyn(X, c); hit = lambda v, i, t: bound(X, [i], lambda: And(0 <= i, i < X.length(v), X.fieldn(X.elem(v, i), 'active'), Not(ignored(X, irr, X.fieldn(X.elem(v, i), 'entity'), t)), HITS(tm(X, X.elem(v, i)), tm(X, shape))))
    return [r == Or(Exists([k], hit(s, k, 'pki')), Exists([j], hit(d, j, 'pji')))]


def no_ext(X, c): return forall(X, 'ne', X.length(dyn(X, c)), lambda k: Not(bext(X, X.elem(dyn(X, c), k))))
C_PCOL = Contract('CDEngine::poly_collides', post=post_pc, ret='bool')
C_CPC = Contract('CDEngine::collect_poly_collisions', ret='()', modifies=(3,))
C_FSTRIP = Contract('Bin::from_strip', post=lambda X, r, rc, cfg: [X.eq(bbx(X, X.fieldn(r, 'outer')), rc), *base_ok(X, r), *only_ext(X, X.fieldn(r, 'base_cde'), rc), X.length(dyn(X, X.fieldn(r, 'base_cde'))) == 0], ret='Bin')
fine_dyn = lambda X, c: [X.eq(stat(X, X.new(0)), stat(X, X.old[0]))]


def regs(X, old, new, e): c = lambda l: tm(X, X.fieldn(l, 'cde')); return forall_t(X, 'rg', lambda x: REG(c(new), x) == Or(REG(c(old), x), x == e))


def post_lplace2(X, r, l, item, d):
    old, new = X.old[0], X.new(0); c = lambda l: X.fieldn(l, 'cde')
    return [('the static hazards stay', X.eq(stat(X, c(new)), stat(X, c(old)))), ('exactly the item is registered in addition', regs(X, old, new, PIENT(X.fieldn(item, 'id'), *dt3(X, d)))), ('no outside among the dynamic hazards', no_ext(X, c(new)))]


def post_lreg2(X, c, h): return [X.eq(stat(X, X.new(0)), stat(X, X.old[0])), Implies(And(no_ext(X, X.old[0]), Not(bext(X, h))), no_ext(X, X.new(0)))]


C_LREG2 = Contract('CDEngine::register_hazard', pre=C_LREG.pre, post=lambda X, r, c, h: C_LREG.post(X, r, c, h) + post_lreg2(X, c, h), ret='()', modifies=(0,))
Spec(['C08'], 'Layout::place_item', pre=lambda X, l, item, d: pre_lplace(X, l, item, d) + [no_ext(X, X.fieldn(l, 'cde'))], post=post_lplace2, contracts=[C_LREG2, C_PINEW, C_COMP, C_TRP], timeout=40, name='Layout::place_item (hazards)')


# place_item of the strip, as modify_strip uses it
def pre_sp2(X, p, o): return pre_splace(X, p, o) + [no_ext(X, X.fieldn(lay(X, p), 'cde'))]
def post_sp2(X, r, p, o):
    old, new = X.old[0], X.new(0); li, it, d = po(X, o); c = lambda p: X.fieldn(lay(X, p), 'cde')
    return post_splace(X, r, p, o) + [('the static hazards stay', X.eq(stat(X, c(new)), stat(X, c(old)))), ('exactly the item is registered in addition', regs(X, lay(X, old), lay(X, new), PIENT(it, *dt3(X, d)))), ('no outside among the dynamic hazards', no_ext(X, c(new)))]


C_LPLACE2 = Contract('Layout::place_item', pre=lambda X, l, item, d: pi_at(X, l, item, d) + [no_ext(X, X.fieldn(l, 'cde'))], post=lambda X, r, l, item, d: C_LPLACE.post(X, r, l, item, d) + fs(post_lplace2(X, r, l, item, d)), ret='PItemKey', modifies=(0,))
Spec(['C08'], f'<{SP} as {PG}>::place_item', pre=pre_sp2, post=lambda X, r, p, o: post_sp2(X, r, p, o)[-3:], contracts=[C_LPLACE2, C_COMP, C_TRP], timeout=40, name=f'<{SP} as {PG}>::place_item (hazards)')
C_SPLACE = Contract(f'<{SP} as {PG}>::place_item', pre=pre_sp2, post=lambda X, r, p, o: fs(post_sp2(X, r, p, o)), ret='(LayoutIndex, PItemKey)', modifies=(0,))

KC = Function('KC', Term, I, I, R, R, R, R, I)    # of the first so many items of the old strip, those of an id that the new strip keeps
KN = Function('KN', Term, I, R, R, R, R, I)       # all that it keeps


def old_items(X): v, n, _ = placed(X, lay(X, X.old[0])); return v, n


def kept(X, k):
    """item k of the old strip does not collide with the outside of the new one"""
    old = X.old[0]; v, _ = old_items(X); pi = X.elem(v, k); it = item_at(X, old, X.fieldn(pi, 'item_id')); return Not(EXTHIT(*rect(X, X.inputs[1]), tm(X, moved(X, it, X.fieldn(pi, 'd_transf')))))


def kcount(X, p, k):
    v, _ = old_items(X); j = Int('?kc'); p = plain(X, p); rc = rect(X, X.inputs[1]); c = KC(v.term, p, j, *rc)
    X.facts.append(ForAll([j], bound(X, [j], lambda: c == If(p <= 0, IntVal(0), KC(v.term, p - 1, j, *rc) + If(And(X.fieldn(X.elem(v, p - 1), 'item_id') == j, kept(X, p - 1)), 1, 0))), patterns=[c])); return KC(v.term, p, k, *rc)


def ktotal(X, p): v, _ = old_items(X); rc = rect(X, X.inputs[1]); X.facts.append(KN(v.term, p, *rc) == If(p <= 0, IntVal(0), KN(v.term, p - 1, *rc) + If(kept(X, p - 1), 1, 0))); return KN(v.term, p, *rc)
oent = lambda X, k: ent_of(X, X.elem(old_items(X)[0], k))


def reset_demand(X, p, upto):
    """missing_item_qtys holds the full demand, up to a place"""
    old = X.old[0]; m = X.fieldn(p, 'missing_item_qtys'); return [X.length(m) == X.length(X.fieldn(old, 'missing_item_qtys')), forall(X, 'rq', upto, lambda k: X.elem(m, k) == X.field(X.elem(items_of(X, old), k), 1, 'usize'))]


def inv_ms_fe(X, st, env): return reset_demand(X, X.read(st, ('arg', 0), ()), env['#'])


def ms_state(X, p, upto, tag):
    old = X.old[0]; l = lay(X, p); c = X.fieldn(l, 'cde'); e, j = Const(f'?{tag}e', Term), Int(f'?{tag}j'); m, om = X.fieldn(p, 'missing_item_qtys'), X.fieldn(old, 'missing_item_qtys')
    return [('the layout mirrors its engine', lok(X, l)), ('the strip is the rectangle', X.eq(bbx(X, X.fieldn(X.fieldn(l, 'bin'), 'outer')), X.inputs[1])), ('a new layout id', lid(X, l) == X.fieldn(old, 'layout_id_counter') + 1),
            ('exactly the items that fit are there', ForAll([e], REG(tm(X, c), e) == Exists([j], bound(X, [j], lambda: And(0 <= j, j < upto, kept(X, j), oent(X, j) == e))))), ('their number', placed(X, l)[1] == ktotal(X, upto)),
            ('demand keeps its length', X.length(m) == X.length(om)), ('missing is the demand less the items kept', forall(X, tag + 'm', X.length(om), lambda k: X.elem(m, k) == X.field(X.elem(items_of(X, old), k), 1, 'usize') - kcount(X, upto, k))), ('the instance stays', X.eq(X.fieldn(p, 'instance'), X.fieldn(old, 'instance')))]


def inv_ms(X, st, env):
    p = env['self']; c = X.fieldn(lay(X, p), 'cde')
    return fs(ms_state(X, p, env['#'], 'mi')) + only_ext(X, c, X.inputs[1]) + [no_ext(X, c), X.fieldn(p, 'layout_id_counter') == X.fieldn(X.old[0], 'layout_id_counter') + 1, X.fieldn(p, 'solution_id_counter') == X.fieldn(X.old[0], 'solution_id_counter')]


def pre_ms(X, p, rc):
    v, n, _ = placed(X, lay(X, p)); it = lambda k: item_at(X, p, X.fieldn(X.elem(v, k), 'item_id')); q = items_of(X, p)
    return fs(lay_inv(X, lay(X, p), 'pm')) + [X.length(q) == X.length(X.fieldn(p, 'missing_item_qtys')), forall(X, 'pmi', n, lambda k: And(X.fieldn(it(k), 'id') == X.fieldn(X.elem(v, k), 'item_id'), X.fieldn(X.elem(v, k), 'item_id') >= 0, X.fieldn(X.elem(v, k), 'item_id') < X.length(q), OWN(ent_of(X, X.elem(v, k))) == tm(X, moved(X, it(k), X.fieldn(X.elem(v, k), 'd_transf'))))), forall(X, 'pmq', X.length(q), lambda k: X.field(X.elem(q, k), 1, 'usize') < 2 ** 62)]


MS = 'problems::strip_packing::modify_strip'
C_LNEW2 = Contract('Layout::new', pre=lambda X, i, b: base_ok(X, b), post=lambda X, r, i, b: [lok(X, r)] + fs(post_lnew(X, r, i, b)), ret='Layout')
Spec(['C08', 'C07'], f'{SP}::modify_strip', pre=pre_ms, post=lambda X, r, p, rc: ms_state(X, X.new(0), old_items(X)[1], 'mo'), contracts=[C_PCOL, C_CPC, C_FSTRIP, C_LNEW2, C_SPLACE, C_COMP, C_TRP], invariants={(MS, 0): Inv(inv_ms), (MS, 1): Inv(inv_ms_fe, fine=True)}, timeout=60)


MSREL = Function('MSREL', Term, Term, R, R, R, R, B)          # what modify_strip does (ms_state), folded
strip_box = lambda X, p: bbx(X, X.fieldn(X.fieldn(lay(X, p), 'bin'), 'outer'))
C_MS = Contract(f'{SP}::modify_strip', pre=lambda X, p, rc: [SPOK(tm(X, p)), valid_r(X, rc)], post=lambda X, r, p, rc: [MSREL(tm(X, X.old[0]), tm(X, X.new(0)), *rect(X, rc)), X.eq(strip_box(X, X.new(0)), rc)], ret='()', modifies=(0,))
SPOK = Function('SPOK', Term, B)                              # pre_ms, folded
def valid_r(X, rc): a, b, c, d = rect(X, rc); return And(a <= c, b <= d)


def resized(X, how):
    def post(X, r, p, w):
        old, new = X.old[0], X.new(0); o = rect(X, strip_box(X, old)); n = rect(X, strip_box(X, new))
        return [('exactly a change of the strip', MSREL(tm(X, old), tm(X, new), *n)), ('the width is the one asked for', n[2] - n[0] == w), ('the height stays', And(n[1] == o[1], n[3] == o[3])), *how(X, old, o, n)]
    return post


finp = lambda X, p: finite_items(X, lay(X, p))
spre = lambda X, p, w: [SPOK(tm(X, p)), w > 0, valid_r(X, strip_box(X, p))]
Spec(['C08'], f'{SP}::modify_strip_in_back', pre=spre, post=resized(None, lambda X, p, o, n: [('the front stays', n[0] == o[0])]), contracts=[C_MS])
Spec(['C08'], f'{SP}::modify_strip_at_front', pre=spre, post=resized(None, lambda X, p, o, n: [('the back stays', n[2] == o[2])]), contracts=[C_MS])


def centred(X, p, o, n):
    v, m, side = rng_of(X, lay(X, p), None); k, j = Int('?ck'), Int('?cj'); ok = And(0 <= k, k < m, 0 <= j, j < m); z = Int('?cz')
    return [('centred on the items', Implies(m > 0, Exists([k, j], And(ok, n[0] + n[2] == side(k, 'x_min') + side(j, 'x_max'), ForAll([z], Implies(And(0 <= z, z < m), And(side(k, 'x_min') <= side(z, 'x_min'), side(z, 'x_max') <= side(j, 'x_max')))))))), ('centred on the origin without items', Implies(m == 0, n[0] + n[2] == 0))]


C_OWC = Contract('occupied_width', pre=lambda X, l: [finite_items(X, l)], post=lambda X, r, l: fs(post_ow(X, r, l)), ret='f32')
Spec(['C08'], f'{SP}::modify_strip_centered', pre=lambda X, p, w: spre(X, p, w) + [finp(X, p)], post=resized(None, centred), contracts=[C_MS, C_OR, C_OWC], timeout=40)


def post_fit(X, r, p):
    old, new = X.old[0], X.new(0); n = rect(X, strip_box(X, new)); o = rect(X, strip_box(X, old)); v, m, side = rng_of(X, lay(X, old), None)
    return [('exactly a change of the strip', MSREL(tm(X, old), tm(X, new), *n)), ('no item is lost', placed(X, lay(X, new))[1] == m), ('the height stays', And(n[1] == o[1], n[3] == o[3])), ('the items lie within', Implies(m > 0, forall(X, 'ft', m, lambda k: And(n[0] <= side(k, 'x_min'), side(k, 'x_max') <= n[2]))))]


def post_msc(X, r, p, w): return fs(resized(None, centred)(X, r, p, w))


def boxes(X, p): v, m, side = rng_of(X, lay(X, p), None); return forall(X, 'bx', m, lambda k: side(k, 'x_min') < side(k, 'x_max'))
C_MSC = Contract(f'{SP}::modify_strip_centered', pre=lambda X, p, w: spre(X, p, w) + [finp(X, p)], post=post_msc, ret='()', modifies=(0,))
C_TOL = Contract('FPA::tolerance', post=lambda X, r: [r > 0], ret='f32')
Spec(['C08'], f'{SP}::fit_strip', pre=lambda X, p: [SPOK(tm(X, p)), valid_r(X, strip_box(X, p)), finp(X, p), boxes(X, p), placed(X, lay(X, p))[1] > 0], post=post_fit, contracts=[C_MSC, C_OWC, C_TOL], timeout=40)
Spec(['C08'], f'{SP}::strip_width', post=lambda X, r, p: [('the width of the strip', r == rect(X, strip_box(X, p))[2] - rect(X, strip_box(X, p))[0])])
Spec(['C08'], f'{SP}::strip_height', post=lambda X, r, p: [('the height of the strip', r == rect(X, strip_box(X, p))[3] - rect(X, strip_box(X, p))[1])])
for f, q in (('occupied_range', post_or), ('occupied_width', post_ow)):
    Spec(['C08'], f'{SP}::{f}', pre=lambda X, p: [finp(X, p)], post=(lambda q: lambda X, r, p: q(X, r, lay(X, p)))(q), contracts=[C_OR, C_OWC])


def post_snew(X, r, inst, w, cfg):
    f = X.fieldn; it = f(inst, 'items'); n = X.length(it); m = f(r, 'missing_item_qtys'); b = rect(X, strip_box(X, r))
    return [('all demand is missing', And(X.length(m) == n, forall(X, 'nm', n, lambda k: X.elem(m, k) == X.field(X.elem(it, k), 1, 'usize')))), ('no items', placed(X, lay(X, r))[1] == 0), ('the strip starts at the origin, as wide as asked, as high as the instance says', And(b[0] == 0, b[1] == 0, b[2] == w, b[3] == f(inst, 'strip_height'))), ('the layout mirrors its engine', lok(X, lay(X, r))), ('the instance given', X.eq(f(r, 'instance'), inst))]


Spec(['C08', 'C07'], f'{SP}::new', pre=lambda X, i, w, c: [w > 0, X.fieldn(i, 'strip_height') > 0, forall(X, 'pq', X.length(X.fieldn(i, 'items')), lambda k: X.field(X.elem(X.fieldn(i, 'items'), k), 1, 'usize') < 2 ** 63)], post=post_snew, contracts=[C_FSTRIP, C_LNEW2])


# ---------------------------------------------------------------- solutions of a strip
SNOK = Function('SNOK', Term, Term, B)            # snap_inv of a snapshot with these items and this engine snapshot, folded
snok = lambda X, s: SNOK(tm(X, X.fieldn(s, 'placed_items')), tm(X, X.fieldn(s, 'cde_snapshot')))
C_LSNAPF = Contract('Layout::create_snapshot', pre=lambda X, l: [lok(X, l)], post=lambda X, r, l: [lok(X, X.new(0)), snok(X, r)] + fs(post_lsnap(X, r, l)[7:]), ret='LayoutSnapshot', modifies=(0,))
C_LRESTF = Contract('Layout::restore', pre=lambda X, l, s: [lid(X, l) == lid(X, s), lok(X, l), snok(X, s)], post=lambda X, r, l, s: [lok(X, X.new(0))] + fs(post_lrest(X, r, l, s)[4:]), ret='()', modifies=(0,))
C_LFROMF = Contract('Layout::from_snapshot', pre=lambda X, s: [snok(X, s), BASEOK(tm(X, X.fieldn(X.fieldn(s, 'bin'), 'base_cde')))], post=lambda X, r, s: [lok(X, r)] + fs(post_lfrom(X, r, s)[4:]), ret='Layout')
snaps = lambda X, s: X.fieldn(s, 'layout_snapshots')


def same_lay(X, l, s, tag): return And(lid(X, l) == lid(X, s), X.eq(X.fieldn(l, 'bin'), X.fieldn(s, 'bin')), same_slots(X, X.fieldn(l, 'placed_items'), X.fieldn(s, 'placed_items'), tag))


def quantities(X, p, s):
    """the solution records what is placed"""
    m, q, it = X.fieldn(p, 'missing_item_qtys'), pq(X, s), items_of(X, p)
    return [('quantities placed', And(X.length(q) == X.length(m), forall(X, 'qp', X.length(m), lambda k: X.elem(q, k) == X.field(X.elem(it, k), 1, 'usize') - X.elem(m, k)))), ('quantities asked for', And(X.length(X.fieldn(s, 'target_item_qtys')) == X.length(it), forall(X, 'qt', X.length(it), lambda k: X.elem(X.fieldn(s, 'target_item_qtys'), k) == X.field(X.elem(it, k), 1, 'usize'))))]


def pre_q(X, p): m = X.fieldn(p, 'missing_item_qtys'); return [X.length(m) == X.length(items_of(X, p)), forall(X, 'pq', X.length(m), lambda k: And(X.elem(m, k) <= X.field(X.elem(items_of(X, p), k), 1, 'usize'), X.field(X.elem(items_of(X, p), k), 1, 'usize') < 2 ** 62))]


C_PUSE = lambda P_: Contract(f'<{P_} as {PG}>::usage', ret='f32')


def post_screate(X, r, p, o):
    old, new = X.old[0], X.new(0); s = X.elem(snaps(X, r), IntVal(0))
    return [('one layout, as it is', And(X.length(snaps(X, r)) == 1, same_lay(X, lay(X, old), s, 'sl'))), ('the snapshot is consistent', snok(X, s)), ('the layout stays', And(lok(X, lay(X, new)), same_lay(X, lay(X, old), lay(X, new), 'sm'))), *quantities(X, old, r), ('a new id', X.fieldn(r, 'id') == X.fieldn(old, 'solution_id_counter') + 1), ('the counter advances', X.fieldn(new, 'solution_id_counter') == X.fieldn(r, 'id')), ('nothing else changes', same_but(X, old, new, 'layout', 'solution_id_counter'))]


Spec(['C06', 'C07'], f'<{SP} as {PG}>::create_solution', pre=lambda X, p, o: pre_q(X, p) + [lok(X, lay(X, p))], post=post_screate, contracts=[C_LSNAPF, C_PUSE(SP)], timeout=40)


def restored_demand(X, old, p, s, upto): m, om = X.fieldn(p, 'missing_item_qtys'), X.fieldn(old, 'missing_item_qtys'); return [X.length(m) == X.length(om), forall(X, 'rq', upto, lambda k: X.elem(m, k) == X.field(X.elem(items_of(X, old), k), 1, 'usize') - X.elem(pq(X, s), k))]
def inv_rs_fe(X, st, env): return restored_demand(X, X.old[0], X.read(st, ('arg', 0), ()), X.inputs[1], env['#'])


def post_srestore(X, r, p, s):
    old, new = X.old[0], X.new(0); sn = X.elem(snaps(X, s), IntVal(0)); l = lay(X, new)
    return [('the items of the solution', same_slots(X, X.fieldn(l, 'placed_items'), X.fieldn(sn, 'placed_items'), 'rp')), ('its layout id', lid(X, l) == lid(X, sn)), ('its bin', X.eq(X.fieldn(l, 'bin'), X.fieldn(sn, 'bin'))), ('the layout mirrors its engine', lok(X, l)), ('missing is the demand less what the solution placed', And(*restored_demand(X, old, new, s, X.length(X.fieldn(old, 'missing_item_qtys'))))), ('nothing else changes', same_but(X, old, new, 'layout', 'missing_item_qtys'))]


def pre_srestore(X, p, s):
    sn = X.elem(snaps(X, s), IntVal(0)); m = X.fieldn(p, 'missing_item_qtys')
    return [lok(X, lay(X, p)), snok(X, sn), BASEOK(tm(X, X.fieldn(X.fieldn(sn, 'bin'), 'base_cde'))), X.length(snaps(X, s)) == 1, X.length(m) == X.length(items_of(X, p)), X.length(pq(X, s)) == X.length(m), Implies(lid(X, lay(X, p)) == lid(X, sn), X.eq(X.fieldn(lay(X, p), 'bin'), X.fieldn(sn, 'bin'))),
            forall(X, 'ps', X.length(m), lambda k: And(X.field(X.elem(items_of(X, p), k), 1, 'usize') < 2 ** 62, X.elem(pq(X, s), k) < 2 ** 62, X.elem(pq(X, s), k) >= 0))]


RS = 'problems::strip_packing::restore_to_solution'
Spec(['C06'], f'<{SP} as {PG}>::restore_to_solution', pre=pre_srestore, post=post_srestore, contracts=[C_LRESTF, C_LFROMF], invariants={(RS, 0): Inv(inv_rs_fe, fine=True)}, timeout=40)


# ---------------------------------------------------------------- solutions of a bin packing problem
CS = 'problems::bin_packing::create_solution'


def snap_of(X, l, s, tag): return And(snok(X, s), same_lay(X, l, s, tag))


def inv_cs(X, st, env):
    """the layouts seen so far have a matching snapshot and stay as they are; the rest is untouched"""
    old, p, out = X.old[0], env['#'], env['acc']; new = X.read(st, ('arg', 0), ()); o, n = lays(X, old), lays(X, new); m = X.length(o)
    return [X.length(n) == m, X.length(out) == p, forall(X, 'ca', m, lambda k: And(lok(X, X.elem(n, k)), same_lay(X, X.elem(o, k), X.elem(n, k), 'cb'))), forall(X, 'cc', p, lambda k: snap_of(X, X.elem(o, k), X.elem(out, k), 'cd')), same_but(X, old, new, 'layouts', 'solution_id_counter'), X.fieldn(new, 'solution_id_counter') == X.fieldn(old, 'solution_id_counter') + 1]


def pre_bcreate(X, p, o):
    """unmodified layouts match their snapshot in the reference solution (the invariant behind the reuse of snapshots)"""
    c, s = opt(X, o); return fs(prob_inv(X, p, 'pv')) + pre_q(X, p) + [Implies(c, f) for f in unmodified(X, p, snaps(X, s))]


def unmodified(X, p, sn):
    """an unmodified layout occurs in the reference solution, with a snapshot that matches"""
    v, u = lays(X, p), ids(X, p); k, j, i = Int('?bk'), Int('?bj'), Int('?bi'); at = And(0 <= k, k < X.length(v), 0 <= i, i < X.length(u)); hit = lambda: bound(X, [k, i], lambda: lid(X, X.elem(v, k)) == X.elem(u, i)); inj = And(0 <= j, j < X.length(sn)); eq = lambda: bound(X, [j, k], lambda: lid(X, X.elem(sn, j)) == lid(X, X.elem(v, k)))
    return [ForAll([k, i], Implies(And(at, hit()), Exists([j], And(inj, eq())))), ForAll([k, i, j], Implies(And(at, hit(), inj, eq()), bound(X, [j, k], lambda: snap_of(X, X.elem(v, k), X.elem(sn, j), 'bx'))))]


def post_bcreate(X, r, p, o):
    old, new = X.old[0], X.new(0); a, b, s = lays(X, old), lays(X, new), snaps(X, r); n = X.length(a); q = X.fieldn(old, 'bin_qtys'); ref = X.fieldn(new, 'unmodified_layouts_ref_solution')
    return [('a matching snapshot per layout', And(X.length(s) == n, forall(X, 'qs', n, lambda k: snap_of(X, X.elem(a, k), X.elem(s, k), 'qz')))), ('the layouts stay', And(X.length(b) == n, forall(X, 'ql', n, lambda k: And(lok(X, X.elem(b, k)), same_lay(X, X.elem(a, k), X.elem(b, k), 'qy'))))), *quantities(X, old, r), ('the stock', same_vec(X, X.fieldn(r, 'bin_qtys'), q, 'qb')), ('a new id', X.fieldn(r, 'id') == X.fieldn(old, 'solution_id_counter') + 1), ('the counter advances', X.fieldn(new, 'solution_id_counter') == X.fieldn(r, 'id')),
            ('it is the reference from now on', And(opt(X, ref)[0], opt(X, ref)[1] == X.fieldn(r, 'id'))), ('every layout is unmodified', And(X.length(ids(X, new)) == n, forall(X, 'qi', n, lambda k: X.elem(ids(X, new), k) == lid(X, X.elem(a, k))))), ('nothing else changes', same_but(X, old, new, 'layouts', 'solution_id_counter', 'unmodified_layout_ids', 'unmodified_layouts_ref_solution'))]


Spec(['C06', 'C07'], f'<{BP} as {PG}>::create_solution', pre=pre_bcreate, post=post_bcreate, contracts=[C_LSNAPF, C_PUSE(BP)], invariants={(CS, 0): Inv(inv_cs), (CS, 1): Inv(inv_cs)}, timeout=60)


# ---------------------------------------------------------------- restoring a bin packing problem to a solution
RB = 'problems::bin_packing::restore_to_solution'


class RS_:
    """vocabulary of restore_to_solution"""
    def __init__(self, X): self.X = X; self.old, self.sol = X.old[0], X.inputs[1]; self.O, self.S = lays(X, self.old), snaps(X, self.sol); self.n, self.m = X.length(self.O), X.length(self.S); self.q = 0
    def v(self, *names): self.q += 1; return [Int(f'?r{x}{self.q}') for x in names]
    def oid(self, k): return self.lid(self.O, k)
    def sid(self, j): return self.lid(self.S, j)
    def lid(self, v, k): return bound(self.X, [k], lambda: lid(self.X, self.X.elem(v, k))) if is_const(k) and str(k).startswith('?') else lid(self.X, self.X.elem(v, k))
    def inS(self, x): j, = self.v('j'); return Exists([j], And(0 <= j, j < self.m, self.sid(j) == x))
    def inL(self, L, x): k, = self.v('k'); return Exists([k], And(0 <= k, k < self.X.length(L), self.lid(L, k) == x))
    def inV(self, V, x, upto=None): i, = self.v('i'); return Exists([i], And(0 <= i, i < (self.X.length(V) if upto is None else upto), self.X.elem(V, i) == x))

    def distinct(self, L): a, b = self.v('a', 'b'); return ForAll([a, b], Implies(And(0 <= a, a < b, b < self.X.length(L)), self.lid(L, a) != self.lid(L, b)))

    def matched(self, L, upto):
        """layouts that share their id with a snapshot equal it"""
        X = self.X; k, j = self.v('k', 'j'); return ForAll([k, j], Implies(And(0 <= k, k < upto, 0 <= j, j < self.m, self.lid(L, k) == self.sid(j)), bound(X, [k, j], lambda: same_lay(X, X.elem(L, k), X.elem(self.S, j), f'rx{self.q}'))))

    def all(self, L, f): k, = self.v('k'); return ForAll([k], Implies(And(0 <= k, k < self.X.length(L)), bound(self.X, [k], lambda: f(k))))
    def oks(self, L): return self.all(L, lambda k: lok(self.X, self.X.elem(L, k)))


def match_all(X, L):
    r = RS_(X); j, = r.v('j')
    return [('the layouts mirror their engines', r.oks(L)), ('only layouts of the solution', r.all(L, lambda k: r.inS(lid(X, X.elem(L, k))))), ('each as the solution has it', r.matched(L, X.length(L))), ('every layout of the solution is there', ForAll([j], Implies(And(0 <= j, j < r.m), r.inL(L, r.sid(j))))), ('no layout twice', r.distinct(L))]


def inv_scr(X, st, env):
    r = RS_(X); new = env['self']; L, p = lays(X, new), env['#']; k, = r.v('k')
    return [X.length(L) == p, r.oks(L), ForAll([k], Implies(And(0 <= k, k < p), bound(X, [k], lambda: same_lay(X, X.elem(L, k), X.elem(r.S, k), 'sx')))), same_but(X, r.old, new, 'layouts')]


def inv_a(X, st, env):
    r = RS_(X); new = X.read(st, ('arg', 0), ()); L, p = lays(X, new), env['#']; IN, NS = env['ids_in_prob_in_sol'], env['ids_in_prob_not_sol']; k, j = r.v('k', 'j'); i, = r.v('i')
    return [X.length(L) == r.n, r.all(L, lambda k: And(lid(X, X.elem(L, k)) == lid(X, X.elem(r.O, k)), X.eq(X.fieldn(X.elem(L, k), 'bin'), X.fieldn(X.elem(r.O, k), 'bin')), lok(X, X.elem(L, k)), Implies(k >= p, X.eq(X.elem(L, k), X.elem(r.O, k))))), r.matched(L, p),
            r.all(IN, lambda i: And(r.inS(X.elem(IN, i)), r.inL(r.O, X.elem(IN, i)))), ForAll([k, j], Implies(And(0 <= k, k < p, 0 <= j, j < r.m, r.oid(k) == r.sid(j)), r.inV(IN, r.oid(k)))), ForAll([i, j], Implies(And(0 <= i, i < X.length(NS), 0 <= j, j < r.m), X.elem(NS, i) != r.sid(j))), ForAll([k], Implies(And(0 <= k, k < p), Or(r.inS(r.oid(k)), r.inV(NS, r.oid(k))))), same_but(X, r.old, new, 'layouts')]


def inv_b(X, st, env):
    r = RS_(X); new = X.read(st, ('arg', 0), ()); L, p = lays(X, new), env['#']; NS = env['ids_in_prob_not_sol']; k, i, j = r.v('k', 'i', 'j')
    return [r.all(L, lambda k: And(lok(X, X.elem(L, k)), r.inL(r.O, lid(X, X.elem(L, k))))), ForAll([k, i], Implies(And(0 <= k, k < X.length(L), 0 <= i, i < p), X.elem(NS, i) != r.lid(L, k))), r.matched(L, X.length(L)), r.distinct(L), ForAll([k, j], Implies(And(0 <= k, k < r.n, 0 <= j, j < r.m, r.oid(k) == r.sid(j)), r.inL(L, r.oid(k)))), same_but(X, r.old, new, 'layouts')]


def inv_c(X, st, env):
    r = RS_(X); new = X.read(st, ('arg', 0), ()); L, p = lays(X, new), env['#']; IN = env['ids_in_prob_in_sol']; REM = X.fieldn(new, 'uncommitted_removed_layouts'); k, j, i = r.v('k', 'j', 'i'); z, = r.v('z')
    return [r.oks(L), r.all(L, lambda k: r.inS(lid(X, X.elem(L, k)))), r.matched(L, X.length(L)), r.distinct(L), r.all(L, lambda k: Or(r.inV(IN, lid(X, X.elem(L, k))), Exists([z], And(0 <= z, z < p, r.sid(z) == lid(X, X.elem(L, k)))))), ForAll([i], Implies(And(0 <= i, i < X.length(IN)), r.inL(L, X.elem(IN, i)))), ForAll([j], Implies(And(0 <= j, j < p), r.inL(L, r.sid(j)))), r.oks(REM), bins_match(X, REM), same_but(X, r.old, new, 'layouts', 'uncommitted_removed_layouts')]


def bins_match(X, L): r = RS_(X); k, j = r.v('k', 'j'); return ForAll([k, j], Implies(And(0 <= k, k < X.length(L), 0 <= j, j < r.m, r.lid(L, k) == r.sid(j)), bound(X, [k, j], lambda: X.eq(X.fieldn(X.elem(L, k), 'bin'), X.fieldn(X.elem(r.S, j), 'bin')))))


def pre_brestore(X, p, s):
    r = RS_(X); m = X.fieldn(p, 'missing_item_qtys'); ref = opt(X, X.fieldn(p, 'unmodified_layouts_ref_solution')); inc = And(ref[0], ref[1] == X.fieldn(s, 'id'))
    return fs(prob_inv(X, p, 'pv')) + [r.distinct(r.S), r.all(r.S, lambda j: And(snok(X, X.elem(r.S, j)), BASEOK(tm(X, X.fieldn(X.fieldn(X.elem(r.S, j), 'bin'), 'base_cde'))))), Implies(inc, And(*unmodified(X, p, r.S), bins_match(X, r.O), bins_match(X, X.fieldn(p, 'uncommitted_removed_layouts')))),
            X.length(m) == X.length(items_of(X, p)), X.length(pq(X, s)) == X.length(m), forall(X, 'ps', X.length(m), lambda k: And(X.field(X.elem(items_of(X, p), k), 1, 'usize') < 2 ** 62, X.elem(pq(X, s), k) < 2 ** 62, X.elem(pq(X, s), k) >= 0))]


def post_brestore(X, r, p, s):
    old, new = X.old[0], X.new(0); L = lays(X, new); ref = X.fieldn(new, 'unmodified_layouts_ref_solution'); u = ids(X, new)
    return match_all(X, L) + [('missing is the demand less what the solution placed', And(*restored_demand(X, old, new, s, X.length(X.fieldn(old, 'missing_item_qtys'))))), ('the stock of the solution', same_vec(X, X.fieldn(new, 'bin_qtys'), X.fieldn(s, 'bin_qtys'), 'rb')), ('nothing is pending', X.length(X.fieldn(new, 'uncommitted_removed_layouts')) == 0),
            ('the solution is the reference', And(opt(X, ref)[0], opt(X, ref)[1] == X.fieldn(s, 'id'))), ('every layout is unmodified', And(X.length(u) == X.length(L), forall(X, 'ru', X.length(u), lambda k: X.elem(u, k) == lid(X, X.elem(L, k))))), ('nothing else changes', same_but(X, old, new, 'layouts', 'missing_item_qtys', 'bin_qtys', 'unmodified_layout_ids', 'unmodified_layouts_ref_solution', 'uncommitted_removed_layouts'))]


Spec(['C06', 'C07'], f'<{BP} as {PG}>::restore_to_solution', pre=pre_brestore, post=post_brestore, contracts=[C_LRESTF, C_LFROMF, f'{BP}::reset_unmodified_layouts'], invariants={(RB, 0): Inv(inv_scr), (RB, 1): Inv(inv_a), (RB, 2): Inv(inv_c), (RB, 3): Inv(inv_b), (RB, 4): Inv(inv_rs_fe, fine=True)}, timeout=90)
