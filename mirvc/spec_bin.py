"""Contracts of bins and items: the hazards a bin offers (C21)."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv
from models import opt
from spec_hpg import bound, isv, qual

R, I, B = RealSort(), IntSort(), BoolSort()
OFF = Function('OFF', Term, I, I, I)              # (zones per quality, start, k): where the hazards of the k-th entry begin


def off(X, qz, s, k):
    t = X.to_obj(qz).term; n = X.length(qz); p, q, j = Ints('?op ?oq ?oj')
    some_ = lambda i: opt(X, X.elem(qz, i))
    if ('off', t.get_id()) not in X.memo:
        X.memo[('off', t.get_id())] = t; X.facts.append(OFF(t, s, 0) == s)
        # nothing is added by entries that are absent (by induction)
        X.facts.append(ForAll([p, q], Implies(And(0 <= p, p <= q, q <= n, ForAll([j], Implies(And(p <= j, j < q), Not(some_(j)[0])))), OFF(t, s, p) == OFF(t, s, q)), patterns=[MultiPattern(OFF(t, s, p), OFF(t, s, q))]))
        X.facts.append(ForAll([p, q], Implies(And(0 <= p, p < q, q <= n), OFF(t, s, p) + If(some_(p)[0], X.length(X.fieldn(some_(p)[1], 'zones')), 0) <= OFF(t, s, q)), patterns=[MultiPattern(OFF(t, s, p), OFF(t, s, q))]))
    for i in (k, simplify(k - 1)):
        c, z = some_(i); X.fact(Implies(And(0 <= i, i < n), OFF(t, s, i + 1) == OFF(t, s, i) + If(c, X.length(X.fieldn(z, 'zones')), 0)))
    return OFF(t, s, k)


shp = lambda X, h: X.to_obj(X.fieldn(h, 'shape')).term
tm = lambda X, v: X.to_obj(v).term
hid = lambda X, e: X.field(e, 0, 'usize', 'BinHole')
zid = lambda X, e: X.field(e, 1, 'usize', 'InferiorQualityZone')


def listed(X, hz, outer, holes, qz, upto, inner=None):
    """the hazards of the exterior, of all holes, of the entries before upto and, of the entry upto itself, the first `inner`"""
    i, k, d = Ints('?li ?lk ?ld'); nh = X.length(holes); s = nh + 1
    h0 = X.elem(hz, IntVal(0)); hi = X.elem(hz, i + 1)
    out = [X.length(hz) == off(X, qz, s, upto) + (inner if inner is not None else 0), isv(X, X.fieldn(h0, 'entity'), 'BinExterior'), X.fieldn(h0, 'active'), shp(X, h0) == tm(X, outer),
           ForAll([i], Implies(And(0 <= i, i < nh), bound(X, [i], lambda: And(isv(X, X.fieldn(hi, 'entity'), 'BinHole'), hid(X, X.fieldn(hi, 'entity')) == i, X.fieldn(hi, 'active'), shp(X, hi) == tm(X, X.elem(holes, i))))))]

    def zone(k, d):
        c, z = opt(X, X.elem(qz, k)); h = X.elem(hz, OFF(tm(X, qz), s, k) + d); e = X.fieldn(h, 'entity')
        return And(isv(X, e, 'InferiorQualityZone'), qual(X, e) == X.fieldn(z, 'quality'), zid(X, e) == d, X.fieldn(h, 'active'), shp(X, h) == tm(X, X.elem(X.fieldn(z, 'zones'), d)))
    zl = lambda k: X.length(X.fieldn(opt(X, X.elem(qz, k))[1], 'zones'))
    out.append(ForAll([k, d], Implies(And(0 <= k, k < upto, opt(X, X.elem(qz, k))[0], 0 <= d, d < zl(k)), bound(X, [k, d], lambda: zone(k, d)))))
    if inner is not None: out.append(ForAll([d], Implies(And(0 <= d, d < inner), bound(X, [d], lambda: zone(upto, d)))))
    return out


NAMES = ['one hazard per exterior, hole and zone', 'the exterior first', 'active', 'with the shape of the outline', 'the holes in order', 'the zones of every quality in order']
Spec('C21', 'generate_bin_hazards', post=lambda X, r, o, h, q: list(zip(NAMES, listed(X, r, o, h, q, X.length(q)))),
     invariants={('generate_bin_hazards', 0): Inv(lambda X, st, env: listed(X, env['hazards'], *X.inputs, env['#'])), ('generate_bin_hazards', 1): Inv(lambda X, st, env: listed(X, env['hazards'], *X.inputs, outer_pos(X, env), env['#']))})


def outer_pos(X, env):
    """index of the entry being unfolded"""
    its = [v for v in env['__locals'].values() if isinstance(v, It) and v.kind == 'it' and v.keep and not is_int_value(simplify(v.pos))]
    return simplify(its[0].pos - 1)


# ---------------------------------------------------------------- construction of bins and items
C_GBH = Contract('generate_bin_hazards', ret='Vec<Hazard>')
C_CDEN = Contract('CDEngine::new', ret='CDEngine')
C_SQ = Contract('AARectangle::inflate_to_square', ret='AARectangle')
AREAS = Function('areas', Term, I, R)             # sum of the areas of the first k shapes


def areas(X, v, k):
    t = tm(X, v); X.fact(AREAS(t, 0) == 0)
    for i in (k, simplify(k - 1)): X.fact(Implies(And(0 <= i, i < X.length(v)), AREAS(t, i + 1) == AREAS(t, i) + X.fieldn(X.elem(v, i), 'area')))
    return AREAS(t, k)


def zones_of(X, arr, qzs, m):
    """entry q of the array is the zone of quality q among the first m given ones, if there is one"""
    j, q = Ints('?zj ?zq'); e = X.elem(qzs, j); Q = X.fieldn(e, 'quality'); c, z = opt(X, X.elem(arr, Q)); n = X.length(arr); c2, _ = opt(X, X.elem(arr, q))
    k = Int('?zk'); Qk = X.fieldn(X.elem(qzs, k), 'quality'); l = X.length(qzs)
    return [n == 10, ForAll([j, k], Implies(And(0 <= j, j < l, 0 <= k, k < l, j != k), Q != Qk), patterns=[MultiPattern(Q, Qk)]), ForAll([j], Implies(And(0 <= j, j < l), And(0 <= Q, Q < n)), patterns=[Q]),
            ForAll([j], Implies(And(0 <= j, j < m), bound(X, [j], lambda: And(0 <= Q, Q < n, c, X.eq(z, e))))),
            ForAll([q], Implies(And(0 <= q, q < n, c2), Exists([j], And(0 <= j, j < m, Q == q))))]


def post_bin(X, r, id_, outer, value, pre, holes, qzs, cfg):
    f = lambda n: X.fieldn(r, n); i = Int('?bn'); ho = f('holes'); bb = X.fieldn(outer, 'bbox'); arr = f('quality_zones')
    hz = pure(X, 'generate_bin_hazards', outer, ho, arr); sq = pure(X, 'AARectangle::inflate_to_square', bb)
    return [('id, outline, value and pre-transformation as given', And(f('id') == id_, X.eq(f('outer'), outer), f('value') == value, X.eq(f('pretransform'), pre))),
            ('the holes as given', And(X.length(ho) == X.length(holes), ForAll([i], Implies(And(0 <= i, i < X.length(ho)), X.eq(X.elem(ho, i), X.elem(holes, i)))))),
            ('net area', f('area') == X.fieldn(outer, 'area') - areas(X, ho, X.length(ho))),
            ('every zone under its quality and nothing else', And(*zones_of(X, arr, qzs, X.length(qzs)))),
            ('the engine holds exactly these hazards over the squared bounding box', X.eq(f('base_cde'), pure(X, 'CDEngine::new', sq, hz, cfg)))]


Spec(['C21', 'C19'], 'Bin::new', post=post_bin, contracts=[C_GBH, C_CDEN, C_SQ],
     invariants={('bin::new', 0): Inv(lambda X, st, env: zones_of(X, env['qz'], X.inputs[5], env['#'])), ('bin::new', 1): Inv(lambda X, st, env: [env['acc'] == areas(X, env['holes'], env['#'])])})
def but_sur(X, a, b):
    """the same polygon, whatever its surrogate"""
    return And(*[X.eq(X.fieldn(a, n), X.fieldn(b, n)) for n, _ in X.crate.structs['SimplePolygon'] if n != 'surrogate'])


C_GSU = Contract('SimplePolygon::generate_surrogate', ret='()', modifies=(0,), post=lambda X, r, s, c: [but_sur(X, X.new(0), X.old[0])])


def post_item(X, r, i, s, ar, bq, v, p, c):
    f = lambda n: X.fieldn(r, n)
    return [('id, value, rotations, quality and pre-transformation as given', And(f('id') == i, f('value') == v, X.eq(f('allowed_rotation'), ar), X.eq(f('base_quality'), bq), X.eq(f('pretransform'), p))),
            ('the shape as given', but_sur(X, f('shape'), s)), ('the surrogate configuration as given', X.eq(f('surrogate_config'), c)),
            ('a filter exactly for items with a required quality, with that quality', And(opt(X, f('hazard_filter'))[0] == opt(X, bq)[0], Implies(opt(X, bq)[0], X.field(opt(X, f('hazard_filter'))[1], 0, 'usize') == opt(X, bq)[1])))]


Spec(['C21', 'C19'], 'SimplePolygon::generate_surrogate', name='SimplePolygon::generate_surrogate (frame)', contracts=[Contract('SPSurrogate::new', ret='SPSurrogate')], post=lambda X, r, s, c: [('nothing but the surrogate changes', but_sur(X, X.new(0), X.old[0]))])
Spec(['C21', 'C19'], 'Item::new', contracts=[C_GSU], post=post_item)
Spec(['C21', 'C19'], 'InferiorQualityZone::new', post=lambda X, r, q, s: [('quality as given', X.fieldn(r, 'quality') == q), ('the zones as given', And(X.length(X.fieldn(r, 'zones')) == X.length(s), ForAll([Int('?nz')], Implies(And(0 <= Int('?nz'), Int('?nz') < X.length(s)), X.eq(X.elem(X.fieldn(r, 'zones'), Int('?nz')), X.elem(s, Int('?nz')))))))])
