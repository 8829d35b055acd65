"""Contracts of reading instances and solutions and of writing solutions (C19)."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure, flatten
from exec import Inv
from models import opt, slot_parts
from spec_hpg import bound
from spec_prob import TRP, C_TRP, DTC, C_COMP

f_ = lambda X, v, n: X.fieldn(v, n)

# ------------------------------------------------------------------ coordinates
# A transformation acts on the points of the plane. ACTX/ACTY: where it takes a point; the contracts below are those of C15 (Transformation::*, proved there
# on the matrices), with the action as the only thing known about a transformation.
ACTX, ACTY = [Function(n, Term, RealSort(), RealSort(), RealSort()) for n in ('ActX', 'ActY')]
TT = Function('TheTransformation', *[RealSort()] * 9, Term)


def has_ite(e): return is_app_of(e, Z3_OP_ITE) or any(has_ite(c) for c in e.children())


def tm(X, t):
    """the transformation as one thing: its nine entries"""
    e = flatten(X, t); assert len(e) == 9, e
    if not any(has_ite(x) for x in e): return TT(*e)
    k = ('tt', *[x.get_id() for x in e])                    # a name for it: case distinctions may not occur in patterns
    if k not in X.memo: X.memo[k] = (e, X.fresh(Term, 'tt')); X.fact(X.memo[k][1] == TT(*e))
    return X.memo[k][1]


QX, QY = Reals('?ax ?ay')
RGD = Function('Rigid', Term, BoolSort())


def act(t, x, y): return ACTX(t, x, y), ACTY(t, x, y)


def dact(X, dt):
    t = tm(X, pure(X, DTC, dt)); return lambda x, y: act(t, x, y)


def acts(t, f):
    """t takes every point where f does"""
    u, v = f(QX, QY); return ForAll([QX, QY], And(ACTX(t, QX, QY) == u, ACTY(t, QX, QY) == v), patterns=[ACTX(t, QX, QY), ACTY(t, QX, QY)])


def chain(*fs):
    def go(x, y):
        for f in fs: x, y = f(x, y)
        return x, y
    return go


by = lambda t: (lambda x, y: act(t, x, y))
idt = lambda x, y: (x, y)
C_EMPTY = Contract('Transformation::empty', ret='Transformation', post=lambda X, r: [RGD(tm(X, r)), acts(tm(X, r), idt)])
C_TR = Contract('Transformation::transform', ret='Transformation', pre=lambda X, t, o: [RGD(tm(X, t)), RGD(tm(X, o))], post=lambda X, r, t, o: [RGD(tm(X, r)), acts(tm(X, r), chain(by(tm(X, t)), by(tm(X, o))))])
C_TRD = Contract('Transformation::transform_from_decomposed', ret='Transformation', pre=lambda X, t, d: [RGD(tm(X, t))], post=lambda X, r, t, d: [RGD(tm(X, r)), acts(tm(X, r), chain(by(tm(X, t)), dact(X, d)))])


def inv_of(i, t):
    a, b = act(t, *act(i, QX, QY)); c, d = act(i, *act(t, QX, QY))
    return [ForAll([QX, QY], And(a == QX, b == QY), patterns=[ACTX(i, QX, QY)]), ForAll([QX, QY], And(c == QX, d == QY), patterns=[ACTX(t, QX, QY)])]


C_INV = Contract('Transformation::inverse', ret='Transformation', pre=lambda X, t: [RGD(tm(X, t))], post=lambda X, r, t: [RGD(tm(X, r))] + inv_of(tm(X, r), tm(X, t)))
C_DEC = Contract('Transformation::decompose', ret='DTransformation', pre=lambda X, t: [RGD(tm(X, t))], post=lambda X, r, t: [acts(tm(X, pure(X, DTC, r)), by(tm(X, t)))])
C_CMP = Contract(DTC, ret='Transformation', post=lambda X, r, d: [RGD(tm(X, r))])
TRS = [C_EMPTY, C_TR, C_TRD, C_INV, C_CMP]
rig2 = lambda X, d, i, b: [RGD(tm(X, i)), RGD(tm(X, b))]


def i2a_rel(X, r, d, i, b):
    """file coordinates of the item -> (pre-transformation of the item, placement) -> internal; file coordinates of the bin -> (pre-transformation of the bin) -> the same"""
    p = act(tm(X, b), *act(tm(X, r), QX, QY)); q = dact(X, d)(*act(tm(X, i), QX, QY))
    return ForAll([QX, QY], And(p[0] == q[0], p[1] == q[1]), patterns=[ACTX(tm(X, r), QX, QY)])


def a2i_rel(X, r, d, i, b):
    p = act(tm(X, r), *act(tm(X, i), QX, QY)); q = act(tm(X, b), *dact(X, d)(QX, QY))
    return ForAll([QX, QY], And(p[0] == q[0], p[1] == q[1]), patterns=[ACTX(tm(X, i), QX, QY)])


def hide(g):
    x, y = Reals('!ax !ay'); return substitute_vars(g.body(), y, x)


Spec('C19', 'internal_to_absolute_transform', pre=rig2, contracts=TRS, post=lambda X, r, d, i, b: [
    ('the item of the file, moved by the result, lies where the placed item lies in the bin of the file', hide(i2a_rel(X, r, d, i, b))), ('a rigid motion', RGD(tm(X, r)))])
Spec('C19', 'absolute_to_internal_transform', pre=rig2, contracts=TRS, post=lambda X, r, d, i, b: [
    ('the internal item, moved by the result, lies where the file puts it', hide(a2i_rel(X, r, d, i, b))), ('a rigid motion', RGD(tm(X, r)))])


# a placement written and read again: the absolute transformation being the one written for a placement D (of this item, in this bin), the placement read moves every point as D does
def written(X):
    if not hasattr(X, 'wrt_'): X.wrt_ = X.sym('DTransformation', 'D')
    return X.wrt_


def pre_rt(X, d, i, b):
    D = written(X); r = X.sym('Transformation', 'written')
    return rig2(X, d, i, b) + [RGD(tm(X, r)), i2a_rel(X, r, D, i, b), acts(tm(X, pure(X, DTC, d)), by(tm(X, r)))]


def post_rt(X, r, d, i, b):
    x, y = Reals('!bx !by'); u, v = act(tm(X, pure(X, 'Transformation::inverse', i)), x, y); p = act(tm(X, i), u, v)
    X.fact(And(u == u, ACTX(tm(X, r), *p) == ACTX(tm(X, r), *p)))
    q = dact(X, written(X))(x, y); s = act(tm(X, r), x, y)
    return [('the placement read moves every point as the one written', And(s[0] == q[0], s[1] == q[1]))]


Spec('C19', 'absolute_to_internal_transform', pre=pre_rt, contracts=TRS, post=post_rt, name='absolute_to_internal_transform (round trip)')


# ------------------------------------------------------------------ shapes
vs = lambda X, j: X.field(j, 0, 'std::vec::Vec<(f32, f32)>')
PT = lambda p: (p.fields[0], p.fields[1])


def same_pt(X, a, b): return And(X.field(a, 0, 'f32') == X.field(b, 0, 'f32'), X.field(a, 1, 'f32') == X.field(b, 1, 'f32'))


def n_of(X, j):
    """the number of vertices: a last vertex repeating the first is not counted"""
    v = vs(X, j); n = X.length(v); return If(same_pt(X, X.elem(v, 0), X.elem(v, n - 1)), n - 1, n)


def pts_are(X, r, j):
    i = Int('?jp'); return And(X.length(r) == n_of(X, j), ForAll([i], Implies(And(0 <= i, i < n_of(X, j)), bound(X, [i], lambda: same_pt(X, X.elem(r, i), X.elem(vs(X, j), i))))))


J2P, SPN, SIM = 'json_simple_poly_to_points', 'SimplePolygon::new', 'simplify_shape'
pre_j = lambda X, j: []                 # no vertices at all: panics
Spec('C19', J2P, pre=pre_j, post=lambda X, r, j: [('the vertices of the file, a repeated last one dropped', pts_are(X, r, j))])
C_J2P = Contract(J2P, pre=pre_j, post=lambda X, r, j: [pts_are(X, r, j)], ret='Vec<Point>')
C_SPN, C_SIM = Contract(SPN, ret='SimplePolygon'), Contract(SIM, ret='SimplePolygon')


def shape_of(X, j, cfg, mode):
    """the shape of the file's polygon under this configuration: as given, or simplified in this direction with the configured tolerance"""
    from exec import ite
    s = pure(X, SPN, pure(X, J2P, j)); c = X.discr(cfg) == VARIANT(X, 'PolySimplConfig', 'Disabled')
    t = pure(X, SIM, s, mode, X.field(cfg, 0, 'f32', 'Enabled')); return ite(c, s, t)


def VARIANT(X, e, v): return next(i for i, x in enumerate(X.crate.enums[e]) if (x[0] if isinstance(x, tuple) else x) == v)


CJP = 'convert_json_simple_poly'
Spec('C19', CJP, pre=lambda X, j, c, m: pre_j(X, j), contracts=[C_J2P, C_SPN, C_SIM], post=lambda X, r, j, c, m: [('the polygon of the file, simplified only if configured, in the direction asked for', X.eq(r, shape_of(X, j, c, m)))])
Spec('C19', 'centering_transformation', contracts=[Contract('<SimplePolygon as Shape>::centroid', ret='Point')], post=lambda X, r, s: [
    ('moves the centroid to the origin, without rotation', And(X.fieldn(r, 'rotation') == 0, *[X.field(X.fieldn(r, 'translation'), k, 'f32') == -X.field(pure(X, '<SimplePolygon as Shape>::centroid', s), k, 'f32') for k in (0, 1)]))])


# ------------------------------------------------------------------ items
from spec_bin import post_item, post_bin, but_sur, areas, zones_of, C_GBH, C_CDEN, C_SQ
fs = lambda ps: [f for _, f in ps]
INEW, PTI, CEN = 'Item::new', 'pretransform_item', 'centering_transformation'
C_INEW = Contract(INEW, post=lambda X, r, *a: fs(post_item(X, r, *a)), ret='Item')
C_CEN = Contract(CEN, ret='DTransformation')


def post_pti(X, r, it, t):
    f = X.fieldn
    return [('id, value, rotations, quality and surrogate configuration kept', And(f(r, 'id') == f(it, 'id'), f(r, 'value') == f(it, 'value'), *[X.eq(f(r, n), f(it, n)) for n in ('allowed_rotation', 'base_quality', 'surrogate_config')])),
            ('the shape moved', but_sur(X, f(r, 'shape'), pure(X, TRP, f(it, 'shape'), t))),
            ('the pre-transformation followed by the motion', And(RGD(tm(X, f(r, 'pretransform'))), acts(tm(X, f(r, 'pretransform')), chain(by(tm(X, f(it, 'pretransform'))), by(tm(X, t))))))]


pre_pti = lambda X, it, t: [RGD(tm(X, X.fieldn(it, 'pretransform'))), RGD(tm(X, t))]
Spec('C19', PTI, pre=pre_pti, post=post_pti, contracts=[C_INEW, C_TRP, C_TR])
C_PTI = Contract(PTI, pre=pre_pti, post=lambda X, r, *a: fs(post_pti(X, r, *a)), ret='Item')
MADE = Function('MadeOf', Term, *[RealSort()] * 8, IntSort(), BoolSort())      # SimplePolygon::new gives this polygon for these four points (and this many)
FRM = '<SimplePolygon as From<AARectangle>>::from'




Spec(['C19', 'C08', 'C16'], '<SimplePolygon as From<T>>::from', name='SimplePolygon::from (rectangle)', subst={'T': 'AARectangle'}, types={0: 'AARectangle'}, contracts=[Contract(SPN, ret='SimplePolygon', post=lambda X, r, v: [MADE(X.to_obj(r).term, *[X.field(X.elem(v, IntVal(k)), i, 'f32') for k in range(4) for i in (0, 1)], X.length(v))])],
     post=lambda X, r, t: [('the polygon of the four corners, in this order', MADE(X.to_obj(r).term, *[X.fieldn(t, n) for n in ('x_min', 'y_min', 'x_max', 'y_min', 'x_max', 'y_max', 'x_min', 'y_max')], IntVal(4)))])
C_FROM = Contract(FRM, ret='SimplePolygon')
C_CJP = Contract(CJP, ret='SimplePolygon')
JS = 'JsonShape'
jv = lambda X, s, v: X.discr(s) == VARIANT(X, JS, v)


def const_of(X, enum, v): return Agg(enum, [], (VARIANT(X, enum, v), v))


def rect_shape(X, s):
    """the rectangle of this width and height with its lower left corner in the origin"""
    return pure(X, FRM, Agg('AARectangle', [RealVal(0), RealVal(0), X.field(s, 0, 'f32', 'Rectangle'), X.field(s, 1, 'f32', 'Rectangle')]))


def file_shape(X, s, cfg, mode):
    from exec import ite
    return ite(jv(X, s, 'Rectangle'), rect_shape(X, s), pure(X, CJP, X.field(s, 0, 'JsonSimplePoly', 'SimplePolygon'), cfg, const_of(X, 'PolySimplMode', mode)))


def CENTRED(X, shape, pre, sh):
    """some polygon equal to sh but for its surrogate, moved so that its centroid comes to the origin; pre is that motion"""
    s = Const('?cen', Term); S = Obj(s, 'SimplePolygon'); t = pure(X, DTC, pure(X, CEN, S))
    return Exists([s], bound(X, [s], lambda: And(but_sur(X, S, sh), but_sur(X, shape, pure(X, TRP, S, t)), acts(pre, by(tm(X, t))))))


def rots(X, r, o):
    """none for an empty list or the single angle 0, these angles (in radians) for a list, any for no list"""
    c, l = opt(X, o); d = lambda v: X.discr(r) == VARIANT(X, 'AllowedRotation', v); i = Int('?ro'); k = Real('pi_over_180'); n = X.length(l)
    dl = X.field(r, 0, 'std::vec::Vec<f32>', 'Discrete'); single = Or(n == 0, And(n == 1, X.elem(l, IntVal(0)) == 0))
    return And(Implies(Not(c), d('Continuous')), Implies(And(c, single), d('None')),
               Implies(And(c, Not(single)), And(d('Discrete'), X.length(dl) == n, ForAll([i], Implies(And(0 <= i, i < n), bound(X, [i], lambda: X.elem(dl, i) == X.elem(l, i) * k))))))


def simple(X, s): return And(Or(jv(X, s, 'Rectangle'), jv(X, s, 'SimplePolygon')), Implies(jv(X, s, 'SimplePolygon'), X.length(vs(X, X.field(s, 0, 'JsonSimplePoly', 'SimplePolygon'))) >= 1))


def post_pitem(X, r, p, j, n):
    f = X.fieldn; it, dem = r.fields; sh = file_shape(X, f(j, 'shape'), f(p, 'poly_simpl_config'), 'Inflate'); vc, vv = opt(X, f(j, 'value')); cen = f(p, 'center_polygons')
    pre = tm(X, f(it, 'pretransform'))
    return [('id and demand', And(f(it, 'id') == n, dem == f(j, 'demand'))), ('the value of the file, 0 if none', f(it, 'value') == If(vc, vv, 0)), ('the required quality of the file', X.eq(f(it, 'base_quality'), f(j, 'base_quality'))),
            ('the rotations of the file', rots(X, f(it, 'allowed_rotation'), f(j, 'allowed_orientations'))),
            ('not centred: the shape of the file, simplified outwards at most', Implies(Not(cen), And(but_sur(X, f(it, 'shape'), sh), acts(pre, idt)))),
            ('centred: that shape, moved by what is recorded as its pre-transformation', Implies(cen, CENTRED(X, f(it, 'shape'), pre, sh)))]


Spec('C19', 'Parser::parse_item', pre=lambda X, p, j, n: [simple(X, X.fieldn(j, 'shape'))], post=post_pitem, contracts=[C_FROM, C_CJP, C_INEW, C_PTI, C_CEN, C_CMP, C_EMPTY, C_TRP], timeout=40)


# ------------------------------------------------------------------ bins
BNEW, PTB, IQZ = 'Bin::new', 'pretransform_bin', 'InferiorQualityZone::new'
def as_term(X, v):
    """a vector of known length, as a thing of its own"""
    if isinstance(v, Obj): return v
    k = ('vec', id(v))
    if k not in X.memo:
        o = Obj(X.fresh(Term, 'zones'), 'std::vec::Vec<InferiorQualityZone>'); X.memo[k] = (v, o)
        X.fact(X.length(o) == X.length(v))
        for i in range(len(v.fields)): X.fact(X.eq(X.elem(o, IntVal(i)), v.fields[i]))
    return X.memo[k][1]


C_BNEW = Contract(BNEW, post=lambda X, r, i, o, v, p, h, q, c: fs(post_bin(X, r, i, o, v, p, h, as_term(X, q), c)), ret='Bin')
BINS = [C_GBH, C_CDEN, C_SQ]


def all_of(X, tag, n, f):
    k = Int(f'?{tag}'); return ForAll([k], Implies(And(0 <= k, k < n), bound(X, [k], lambda: f(k))))


def zone_ok(X, b):
    """a zone is stored under its quality"""
    a = X.fieldn(b, 'quality_zones'); return all_of(X, 'zo', X.length(a), lambda q: Implies(opt(X, X.elem(a, q))[0], X.fieldn(opt(X, X.elem(a, q))[1], 'quality') == q))


def post_ptb(X, r, b, t, ground=False):
    f = X.fieldn; ho, hb = f(r, 'holes'), f(b, 'holes'); qr, qb = f(r, 'quality_zones'), f(b, 'quality_zones')

    def zone(q):
        (c, z), (d, y) = opt(X, X.elem(qr, q)), opt(X, X.elem(qb, q)); zs, ys = f(z, 'zones'), f(y, 'zones')
        return And(c == d, Implies(c, And(f(z, 'quality') == q, X.length(zs) == X.length(ys), all_of(X, 'pz', X.length(ys), lambda k: X.eq(X.elem(zs, k), pure(X, TRP, X.elem(ys, k), t))))))
    return [('id and value kept', And(f(r, 'id') == f(b, 'id'), f(r, 'value') == f(b, 'value'))), ('the outline moved', X.eq(f(r, 'outer'), pure(X, TRP, f(b, 'outer'), t))),
            ('the pre-transformation followed by the motion', And(RGD(tm(X, f(r, 'pretransform'))), acts(tm(X, f(r, 'pretransform')), chain(by(tm(X, f(b, 'pretransform'))), by(tm(X, t)))))),
            ('every hole moved', And(X.length(ho) == X.length(hb), all_of(X, 'ph', X.length(hb), lambda k: X.eq(X.elem(ho, k), pure(X, TRP, X.elem(hb, k), t))))),
            ('every zone moved, under its quality', And(X.length(qr) == 10, all_of(X, 'pq', 10, zone)) if not ground else And(X.length(qr) == 10, *[zone(IntVal(q)) for q in range(10)]))]


pre_ptb = lambda X, b, t: [RGD(tm(X, X.fieldn(b, 'pretransform'))), RGD(tm(X, t)), X.length(X.fieldn(b, 'quality_zones')) == 10, zone_ok(X, b)]
Spec('C19', PTB, pre=pre_ptb, post=post_ptb, contracts=[C_BNEW, C_TRP, C_TR, *BINS], timeout=40)
C_PTB = Contract(PTB, pre=pre_ptb, post=lambda X, r, *a: fs(post_ptb(X, r, *a, ground=True)), ret='Bin')
jpoly = lambda X, s: X.field(s, 0, 'JsonPoly', 'Polygon')
md = lambda X, m: const_of(X, 'PolySimplMode', m)


def bin_outline(X, s, cfg):
    from exec import ite
    return ite(jv(X, s, 'Polygon'), pure(X, CJP, X.fieldn(jpoly(X, s), 'outer'), cfg, md(X, 'Deflate')), file_shape(X, s, cfg, 'Deflate'))


def bin_shape_ok(X, s):
    p = jpoly(X, s); inn = X.fieldn(p, 'inner'); ne = lambda j: X.length(vs(X, j)) >= 1
    return And(Or(simple(X, s), And(jv(X, s, 'Polygon'), ne(X.fieldn(p, 'outer')), all_of(X, 'bo', X.length(inn), lambda k: ne(X.elem(inn, k))))))


def zones_file(X, j): z = X.fieldn(j, 'zones'); return z, X.length(z)


def pre_pbin(X, p, j, n):
    z, m = zones_file(X, j); return [bin_shape_ok(X, X.fieldn(j, 'shape')), all_of(X, 'bz', m, lambda k: simple(X, X.fieldn(X.elem(z, k), 'shape')))]


def post_pbin(X, r, p, j, n, cen):
    f = X.fieldn; b, stock = r.fields; cfg = f(p, 'poly_simpl_config'); s = f(j, 'shape'); sc, sv = opt(X, f(j, 'stock'))
    out = bin_outline(X, s, cfg); t = pure(X, DTC, pure(X, CEN, out)); pre = tm(X, f(b, 'pretransform')); mv = lambda x: pure(X, TRP, x, t) if cen else x
    ho = f(b, 'holes'); inn = f(jpoly(X, s), 'inner'); arr = f(b, 'quality_zones'); zf, m = zones_file(X, j)
    k, i = Ints('?zk ?zi'); zsh = lambda k: mv(file_shape(X, f(X.elem(zf, k), 'shape'), cfg, 'Inflate')); Q = lambda k: f(X.elem(zf, k), 'quality')
    zs = lambda q: f(opt(X, X.elem(arr, q))[1], 'zones'); some = lambda q: opt(X, X.elem(arr, q))[0]
    pl = X.memo.get('places', [])                 # where the code's own filter puts each zone: a witness, if there is one per quality

    def at(q):
        g = lambda i: And(0 <= i, i < X.length(zs(IntVal(q))), X.eq(X.elem(zs(IntVal(q)), i), zsh(k)))
        return g(pl[q][1](k)) if len(pl) == 10 else Exists([i], g(i))
    return [('id, and the stock of the file, unlimited if none', And(f(b, 'id') == n, stock == If(sc, sv, 2**64 - 1))),
            ('the outline of the file, simplified inwards at most', X.eq(f(b, 'outer'), mv(out))),
            ('the motion recorded as the pre-transformation', acts(pre, by(tm(X, t)) if cen else idt)),
            ('the holes of the file, simplified outwards at most', And(X.length(ho) == If(jv(X, s, 'Polygon'), X.length(inn), 0), Implies(jv(X, s, 'Polygon'), all_of(X, 'hf', X.length(inn), lambda k: X.eq(X.elem(ho, k), mv(pure(X, CJP, X.elem(inn, k), cfg, md(X, 'Inflate')))))))),
            ('every zone has a known quality', ForAll([k], Implies(And(0 <= k, k < m), bound(X, [k], lambda: And(0 <= Q(k), Q(k) < 10)))))
            ] + [(f'every zone of the file of quality {q}, under its quality', ForAll([k], Implies(And(0 <= k, k < m), bound(X, [k, i], lambda: Implies(Q(k) == q, And(some(IntVal(q)), at(q))))))) for q in range(10)] + [
            (f'only such zones, under quality {q}', ForAll([i], Implies(And(some(IntVal(q)), 0 <= i, i < X.length(zs(IntVal(q)))), bound(X, [k, i], lambda: Exists([k], And(0 <= k, k < m, Q(k) == q, X.eq(X.elem(zs(IntVal(q)), i), zsh(k)))))))) for q in range(10)]


for cen in (False, True):
    Spec('C19', 'Parser::parse_bin', name=f"Parser::parse_bin ({'centring' if cen else 'as given'})", pre=lambda X, p, j, n, cen=cen: pre_pbin(X, p, j, n) + [X.fieldn(p, 'center_polygons') == cen],
         post=lambda X, r, p, j, n, cen=cen: post_pbin(X, r, p, j, n, cen), contracts=[C_FROM, C_CJP, C_BNEW, C_PTB, C_CEN, C_CMP, C_EMPTY, C_TRP, *BINS], timeout=60,
         invariants={('parser::parse_bin', 0): Inv(lambda X, st, env: [env['acc'] == areas(X, env['bin_holes'], env['#'])])})


# ------------------------------------------------------------------ writing solutions
I2A, A2I, DEC, ITEM = 'internal_to_absolute_transform', 'absolute_to_internal_transform', 'Transformation::decompose', '<Instance as InstanceGeneric>::item'
C_I2A, C_A2I, C_DECU, C_ITEM = Contract(I2A, ret='Transformation'), Contract(A2I, ret='Transformation'), Contract(DEC, ret='DTransformation'), Contract(ITEM, ret='Item')
C_TIME = [Contract('Instant::duration_since', ret='Duration', assumed=True), Contract('Duration::as_secs', ret='u64', assumed=True)]


def written_item(X, pi, jp, inst, b):
    f = X.fieldn; it = pure(X, ITEM, inst, f(pi, 'item_id')); d = pure(X, DEC, pure(X, I2A, f(pi, 'd_transf'), f(it, 'pretransform'), f(b, 'pretransform'))); t = f(jp, 'transformation')
    return And(f(jp, 'index') == f(pi, 'item_id'), f(t, 'rotation') == f(d, 'rotation'), X.eq(f(t, 'translation'), f(d, 'translation')))


def written_layout(X, s, l, inst):
    f = X.fieldn; b = f(s, 'bin'); v, n, _ = slot_parts(X, f(s, 'placed_items')); js = f(l, 'placed_items'); c = f(l, 'container'); bp = X.discr(inst) == VARIANT(X, 'Instance', 'BP'); jc = lambda v: X.discr(c) == VARIANT(X, 'JsonContainer', v)
    bb = f(f(b, 'outer'), 'bbox')
    return [And(bp == jc('Bin'), Implies(bp, X.field(c, 0, 'usize', 'Bin') == f(b, 'id')),
                Implies(Not(bp), And(jc('Strip'), X.field(c, 0, 'f32', 'Strip') == f(bb, 'x_max') - f(bb, 'x_min'), X.field(c, 1, 'f32', 'Strip') == f(X.field(inst, 0, 'SPInstance', 'SP'), 'strip_height')))),
            f(f(l, 'statistics'), 'usage') == f(s, 'usage'),
            And(X.length(js) == n, all_of(X, 'wi', n, lambda k: written_item(X, X.elem(v, k), X.elem(js, k), inst, b)))]


def post_cjs(X, r, sol, inst, epoch):
    f = X.fieldn; ss, ls = f(sol, 'layout_snapshots'), f(r, 'layouts'); n = X.length(ss); W = lambda c: all_of(X, 'wl', n, lambda k: written_layout(X, X.elem(ss, k), X.elem(ls, k), inst)[c])
    return [('one layout per layout, in order', X.length(ls) == n), ('usage', f(r, 'usage') == f(sol, 'usage')), ('each with its bin, or the width and height of the strip', W(0)), ('each with its usage', W(1)),
            ('each with exactly its items, each at its absolute position', W(2))]


Spec('C19', 'compose_json_solution', post=post_cjs, contracts=[C_I2A, C_DECU, C_ITEM, *C_TIME], timeout=40)
