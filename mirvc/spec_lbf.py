"""Contracts of the left-bottom-fill optimiser (C20): what it places is free, allowed, and demanded."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv
from models import opt
from spec_geo import P, mat, rigid
from spec_hpg import bound, isv, qual
from spec_cde import MOVED, moved, C_TF, C_SCU, C_SUR

R, I, B = RealSort(), IntSort(), BoolSort()
tm = lambda X, v: X.to_obj(v).term
isk = lambda X, e, n, ty: X.discr(e) == X.crate.enums[ty].index(n)
COS, SIN = Function('cosine', R, R), Function('sine', R, R)
ALT = Function('ALT', Term, R, R, B)                # (item, cosine, sine): those of an angle the item may be turned by


def L(*a, **k): return Spec('C20', *a, crate='lbf', **k)


def alt(X, item, r): return BoolVal(False) if isinstance(r, Undef) else ALT(tm(X, item), COS(r), SIN(r))


def allowed_def(X, item):
    """what ALT means, as far as it is needed to show it"""
    a = X.fieldn(item, 'allowed_rotation'); t = tm(X, item); k = Int('?ad'); c, s = Reals('?adc ?ads'); v = X.field(a, 0, 'Vec<f32>', 'Discrete')
    if isinstance(v, Undef): return [Implies(isk(X, a, 'None', 'AllowedRotation'), ALT(t, COS(RealVal(0)), SIN(RealVal(0)))), Implies(isk(X, a, 'Continuous', 'AllowedRotation'), ForAll([c, s], ALT(t, c, s), patterns=[ALT(t, c, s)]))]
    return [Implies(isk(X, a, 'None', 'AllowedRotation'), ALT(t, COS(RealVal(0)), SIN(RealVal(0)))), Implies(isk(X, a, 'Continuous', 'AllowedRotation'), ForAll([c, s], ALT(t, c, s), patterns=[ALT(t, c, s)])),
            Implies(isk(X, a, 'Discrete', 'AllowedRotation'), ForAll([k], Implies(And(0 <= k, k < X.length(v)), bound(X, [k], lambda: ALT(t, COS(X.elem(v, k)), SIN(X.elem(v, k)))))))]


# ---------------------------------------------------------------- rotations
UNI, NOR = 'UniformRotDistr', 'NormalRotDistr'
C_UNEW = Contract('Uniform::new', ret='Uniform<f32>')
C_NNEW = Contract('Normal::new', ret='Result<Normal<f32>, NormalError>')
C_NM = [C_NNEW, Contract('Normal::mean', ret='f32'), Contract('Normal::std_dev', ret='f32')]
C_US = Contract('<Uniform<f32> as Distribution<f32>>::sample', ret='f32', uf=False, assumed=True)
C_NS = Contract('<Normal<f32> as Distribution<f32>>::sample', ret='f32', uf=False, assumed=True)
PAIRS = (('None', 'None'), ('Range', 'Continuous'), ('Discrete', 'Discrete'))
uvec = lambda X, u: X.field(u, 0, 'Vec<f32>', 'Discrete')


def same_vec(X, v, w, tag):
    if isinstance(v, Undef) or isinstance(w, Undef): return BoolVal(False)
    k = Int(f'?{tag}'); return And(X.length(v) == X.length(w), ForAll([k], Implies(And(0 <= k, k < X.length(v)), X.elem(v, k) == X.elem(w, k))))


def uni_ok(X, u, item):
    a = X.fieldn(item, 'allowed_rotation'); return And(*[isk(X, u, n, UNI) == isk(X, a, m, 'AllowedRotation') for n, m in PAIRS], Implies(isk(X, u, 'Discrete', UNI), same_vec(X, uvec(X, u), X.field(a, 0, 'Vec<f32>', 'Discrete'), 'uo')))


def nor_ok(X, n, item):
    a = X.fieldn(item, 'allowed_rotation'); return And(*[isk(X, n, k, NOR) == isk(X, a, m, 'AllowedRotation') for k, m in PAIRS], Implies(isk(X, n, 'Discrete', NOR), alt(X, item, X.field(n, 0, 'f32', 'Discrete'))))


L(f'{UNI}::from_item', post=lambda X, r, item: [('the rotations of the item', uni_ok(X, r, item))], contracts=[C_UNEW], split=True)


def post_us(X, r, u, rng):
    k = Int('?us'); return [('none: no rotation', Implies(isk(X, u, 'None', UNI), r == 0)), ('discrete: one of the given ones', Implies(isk(X, u, 'Discrete', UNI), Exists([k], And(0 <= k, k < X.length(uvec(X, u)), X.elem(uvec(X, u), k) == r))))]


L(f'{UNI}::sample', post=post_us, contracts=[C_US], split=True)
C_USAMP = Contract(f'{UNI}::sample', post=lambda X, r, u, rng: [f for _, f in post_us(X, r, u, rng)], ret='f32', modifies=(1,))
L(f'{NOR}::from_item', pre=lambda X, item, r, sd: allowed_def(X, item) + [alt(X, item, r)], post=lambda X, n, item, r, sd: [('of the kind of the item; if discrete, the reference', nor_ok(X, n, item))], contracts=C_NM, split=True)
for f in ('set_mean', 'set_stddev'):
    L(f'{NOR}::{f}', post=lambda X, r, n, m: [('the kind stays', And(*[isk(X, X.old[0], k, NOR) == isk(X, X.new(0), k, NOR) for k, _ in PAIRS])), ('a discrete rotation stays', Implies(isk(X, X.old[0], 'Discrete', NOR), X.field(X.old[0], 0, 'f32', 'Discrete') == X.field(X.new(0), 0, 'f32', 'Discrete')))], contracts=C_NM)
L(f'{NOR}::sample', post=lambda X, r, n, rng: [('none: no rotation', Implies(isk(X, n, 'None', NOR), r == 0)), ('discrete: the reference', Implies(isk(X, n, 'Discrete', NOR), r == X.field(n, 0, 'f32', 'Discrete')))], contracts=[C_NS], split=True)

# ---------------------------------------------------------------- samplers
RS, HS, LS = 'UniformAARectSampler', 'HPGSampler', 'LSSampler'
UNIF = Function('UNIF', Term, Term, B)              # (uniform distribution, item): uni_ok, the rotations are those of the item
NORM = Function('NORM', Term, Term, B)              # (normal distribution, item): nor_ok
unif = lambda X, u, item: UNIF(tm(X, u), tm(X, item))
norm = lambda X, n, item: NORM(tm(X, n), tm(X, item))
anyitem = lambda: Obj(Const('?item', Term), 'Item')
C_UFI = Contract(f'{UNI}::from_item', post=lambda X, r, item: [unif(X, r, item)], ret=UNI)
C_NFI = Contract(f'{NOR}::from_item', pre=lambda X, item, r, sd: [alt(X, item, r)], post=lambda X, n, item, r, sd: [norm(X, n, item)], ret=NOR)
C_NSET = [Contract(f'{NOR}::{f}', post=lambda X, r, n, m: [ForAll([Const('?it', Term)], NORM(tm(X, X.old[0]), Const('?it', Term)) == NORM(tm(X, X.new(0)), Const('?it', Term)), patterns=[NORM(tm(X, X.new(0)), Const('?it', Term))])], ret='()', modifies=(0,)) for f in ('set_mean', 'set_stddev')]
DT = 'DTransformation'
rot = lambda X, d: X.fieldn(d, 'rotation')
tra = lambda X, d: (X.fieldn(d, 'translation').fields[0], X.fieldn(d, 'translation').fields[1])
AABB = 'AARectangle'

L(f'{RS}::new', post=lambda X, r, b, item: [('the rotations of the item', unif(X, X.fieldn(r, 'uniform_r'), item))], contracts=[C_UNEW, C_UFI])


def pre_rs(X, s, rng):
    u, it = X.fieldn(s, 'uniform_r'), anyitem(); return [unif(X, u, it), uni_ok(X, u, it)] + allowed_def(X, it)


L(f'{RS}::sample', pre=pre_rs, post=lambda X, r, s, rng: [('an allowed rotation of every item the sampler is for', alt(X, anyitem(), rot(X, r)))], contracts=[C_USAMP, C_US])


def sampled(X, r, u, F): it = Const('?sit', Term); return ForAll([it], Implies(F(tm(X, u), it), ALT(it, COS(rot(X, r)), SIN(rot(X, r)))), patterns=[F(tm(X, u), it)])


C_RSS = Contract(f'{RS}::sample', post=lambda X, r, s, rng: [sampled(X, r, X.fieldn(s, 'uniform_r'), UNIF)], ret=DT, modifies=(1,))
C_RSN = Contract(f'{RS}::new', post=lambda X, r, b, item: [unif(X, X.fieldn(r, 'uniform_r'), item)], ret=RS)


def transl(m): return And(m[0][0] == 1, m[0][1] == 0, m[1][0] == 0, m[1][1] == 1, m[2][0] == 0, m[2][1] == 0, m[2][2] == 1)
def samplers_ok(X, v, item, tag): k = Int(f'?{tag}'); return ForAll([k], Implies(And(0 <= k, k < X.length(v)), bound(X, [k], lambda: unif(X, X.fieldn(X.elem(v, k), 'uniform_r'), item))))
def hpgs(X, s, item, tag): return [('it samples for the item', X.eq(X.fieldn(s, 'item'), item)), ('every cell has the rotations of the item', samplers_ok(X, X.fieldn(s, 'cell_samplers'), item, tag)), ('the pretransform only shifts', transl(mat(X, X.fieldn(s, 'pretransform'))))]


C_CAI = Contract('HPGCell::could_accommodate_item', ret='bool')
C_FI = Contract('AARectangle::from_intersection', ret='Option<AARectangle>')
C_FTR = Contract('Transformation::from_translation', post=lambda X, r, v: [transl(mat(X, r))], ret='Transformation')
C_AREA = Contract('<AARectangle as Shape>::area', ret='f32')


def post_hnew(X, r, item, l):
    c, v = opt(X, r)
    return [] if isinstance(v, Undef) else [(n, Implies(c, f)) for n, f in hpgs(X, v, item, 'hn')]


L(f'{HS}::new', post=post_hnew, contracts=[C_RSN, C_CAI, C_FI, C_FTR, C_AREA, Contract('SimplePolygon::bbox', ret='AARectangle'), Contract('Bin::bbox', ret='AARectangle')], invariants={('hpg_sampler::new', k): Inv(lambda X, st, env: []) for k in range(2)})


def rmat(X, m, r):
    """the linear part is the rotation by the angle"""
    return And(m[0][0] == COS(r), m[0][1] == -SIN(r), m[1][0] == SIN(r), m[1][1] == COS(r), m[2][0] == 0, m[2][1] == 0, m[2][2] == 1)


C_TFD = Contract('Transformation::transform_from_decomposed', post=lambda X, r, t, d: [Implies(transl(mat(X, t)), rmat(X, mat(X, r), rot(X, d))), Implies(rigid(mat(X, t)), rigid(mat(X, r)))], ret='Transformation')
allowed_m = lambda X, item, m: And(rigid(m), ALT(tm(X, item), m[0][0], m[1][0]))
L(f'{HS}::sample', pre=lambda X, s, rng: [f for _, f in hpgs(X, s, anyitem(), 'hs')] + [rigid(mat(X, X.fieldn(s, 'pretransform')))],
  post=lambda X, r, s, rng: [('a rigid motion with an allowed rotation', allowed_m(X, anyitem(), mat(X, r)))] + hpgs(X, X.new(0), anyitem(), 'ht'), contracts=[C_RSS, C_TFD])
L(f'{HS}::tighten', pre=lambda X, s, c: [f for _, f in hpgs(X, s, anyitem(), 'hg')], post=lambda X, r, s, c: hpgs(X, X.new(0), anyitem(), 'hh'), contracts=[C_AREA, Contract('LBFPlacingCost::new', ret='LBFPlacingCost')])
hp_args = lambda X: X.inputs
N3 = C_NM + C_NSET + [C_NFI]
dt_of = lambda X, d: (rot(X, d), *tra(X, d))
nr = lambda X, s: X.fieldn(s, 'normal_r')
L(f'{LS}::new', pre=lambda X, item, d, a, b: [alt(X, item, rot(X, d))], post=lambda X, r, item, d, a, b: [('rotations of the item', norm(X, nr(X, r), item))], contracts=N3)
C_LNEW = Contract(f'{LS}::new', pre=lambda X, item, d, a, b: [alt(X, item, rot(X, d))], post=lambda X, r, item, d, a, b: [norm(X, nr(X, r), item)], ret=LS)
L(f'{LS}::from_defaults', pre=lambda X, item, d, b: [alt(X, item, rot(X, d))], post=lambda X, r, item, d, b: [('rotations of the item', norm(X, nr(X, r), item))], contracts=[C_LNEW])
C_LDEF = Contract(f'{LS}::from_defaults', pre=lambda X, item, d, b: [alt(X, item, rot(X, d))], post=lambda X, r, item, d, b: [norm(X, nr(X, r), item)], ret=LS, uf=False)
keeps = lambda X: ForAll([Const('?kt', Term)], Implies(NORM(tm(X, nr(X, X.old[0])), Const('?kt', Term)), NORM(tm(X, nr(X, X.new(0))), Const('?kt', Term))), patterns=[NORM(tm(X, nr(X, X.new(0))), Const('?kt', Term))])
for f in ('shift_mean', 'set_stddev', 'decay_stddev'):
    L(f'{LS}::{f}', post=lambda X, r, s, *a: [('it stays a sampler for the items it was for', keeps(X))], contracts=N3 + ([Contract(f'{LS}::set_stddev', post=lambda X, r, s, *a: [keeps(X)], ret='()', modifies=(0,))] if f[0] == 'd' else []))
C_LSET = [Contract(f'{LS}::{f}', post=lambda X, r, s, *a: [keeps(X)], ret='()', modifies=(0,)) for f in ('shift_mean', 'decay_stddev')]


def pre_ls(X, s, rng):
    n, it = nr(X, s), anyitem(); return [norm(X, n, it), nor_ok(X, n, it)] + allowed_def(X, it)


C_NSAMP = Contract(f'{NOR}::sample', post=lambda X, r, n, rng: [Implies(isk(X, n, 'None', NOR), r == 0), Implies(isk(X, n, 'Discrete', NOR), r == X.field(n, 0, 'f32', 'Discrete'))], ret='f32', modifies=(1,))
L(f'{LS}::sample', pre=pre_ls, post=lambda X, r, s, rng: [('an allowed rotation of every item the sampler is for', alt(X, anyitem(), rot(X, r))), ('it stays a sampler for the item', norm(X, nr(X, X.new(0)), anyitem()))], contracts=[C_NSAMP, C_NS])
C_LSAMP = Contract(f'{LS}::sample', post=lambda X, r, s, rng: [sampled(X, r, nr(X, X.old[0]), NORM), keeps(X)], ret=DT, modifies=(0, 1))


# ---------------------------------------------------------------- the search in one layout
FREE = Function('FREE', Term, Term, Term, B)        # (engine, shape, item): the query of C01 says no, with only hazards ignored that are irrelevant for the item
QZ = '<QZHazardFilter as HazardFilter>::is_irrelevant'
C_QZ = Contract(QZ, ret='bool')


def all_irr(X, item, v, tag):
    c, f = opt(X, X.fieldn(item, 'hazard_filter')); k = Int(f'?{tag}')
    return ForAll([k], Implies(And(0 <= k, k < X.length(v)), And(c, bound(X, [k], lambda: pure(X, QZ, f, X.elem(v, k))))))


def post_gihq(X, r, f, hs): k = Int('?gq'); return [ForAll([k], Implies(And(0 <= k, k < X.length(r)), bound(X, [k], lambda: pure(X, QZ, f, X.elem(r, k)))))]


it_arg = lambda X: X.inputs[2]
C_GIH = Contract('generate_irrelevant_hazards', post=post_gihq, ret='Vec<HazardEntity>', uf=False)
C_PCF = Contract('CDEngine::poly_collides', post=lambda X, r, c, s, irr: [Implies(And(Not(r), all_irr(X, it_arg(X), irr, 'pi')), FREE(tm(X, c), tm(X, s), tm(X, it_arg(X))))], ret='bool')
C_HNEW = Contract(f'{HS}::new', post=lambda X, r, item, l: [Implies(opt(X, r)[0], f) for _, f in hpgs(X, opt(X, r)[1], item, 'cn')], ret='Option<HPGSampler>')
hps = lambda X, s, tag: [f for _, f in hpgs(X, s, it_arg(X), tag)]
C_HSAMP = Contract(f'{HS}::sample', pre=lambda X, s, rng: hps(X, s, 'cs'), post=lambda X, r, s, rng: [allowed_m(X, it_arg(X), mat(X, r))] + hps(X, X.new(0), 'ct'), ret='Transformation', modifies=(0, 1))
C_HTIGHT = Contract(f'{HS}::tighten', pre=lambda X, s, c: hps(X, s, 'cu'), post=lambda X, r, s, c: hps(X, X.new(0), 'cv'), ret='()', modifies=(0,))
dmat = lambda X, d: [[COS(rot(X, d)), -SIN(rot(X, d)), tra(X, d)[0]], [SIN(rot(X, d)), COS(rot(X, d)), tra(X, d)[1]], [RealVal(0), RealVal(0), RealVal(1)]]
is_mat = lambda X, t, d: And(*[mat(X, t)[i][j] == dmat(X, d)[i][j] for i in range(3) for j in range(3)])
C_DEC = Contract('Transformation::decompose', pre=lambda X, t: [rigid(mat(X, t))], post=lambda X, d, t: [is_mat(X, t, d)], ret=DT)
C_COM = Contract('DTransformation::compose', post=lambda X, t, d: [is_mat(X, t, d)], ret='Transformation')
PGN = '<Problem as ProblemGeneric>::'
C_PF = [Contract(PGN + f, ret=t) for f, t in (('layouts', '&[Layout]'), ('template_layouts', '&[Layout]'), ('bin_qtys', '&[usize]'))]
def lay_of(X, p, i): n, t = (pure(X, PGN + f, p) for f in ('layouts', 'template_layouts')); return ite(X.discr(i) == 0, *[UNDEF if X.field(i, 0, 'usize', k) is UNDEF else X.elem(v, X.field(i, 0, 'usize', k)) for v, k in ((n, 'Real'), (t, 'Template'))])
moved_d = lambda X, item, d: MOVED(tm(X, X.fieldn(item, 'shape')), *[x for r in dmat(X, d) for x in r])


def good(X, o, p, idx, item):
    l = lay_of(X, p, idx); d = X.fieldn(o, 'd_transf')
    return [('in the layout asked for', X.eq(X.fieldn(o, 'layout_idx'), idx)), ('for the item asked for', X.fieldn(o, 'item_id') == X.fieldn(item, 'id')), ('a rotation the item allows', alt(X, item, rot(X, d))),
            ('the item is free there', FREE(tm(X, X.fieldn(l, 'cde')), moved_d(X, item, d), tm(X, item)))]


C_COST = Contract('LBFPlacingCost::from_shape', ret='LBFPlacingCost')


def inv_sl(k):
    def inv(X, st, env):
        p, idx, item = X.inputs[:3]; c, b = opt(X, env['best']); irr = env['irrel_hazards']
        out = [Implies(c, f) for _, f in ([] if isinstance(b, Undef) else good(X, X.field(b, 0, 'PlacingOption'), p, idx, item))] + [all_irr(X, item, irr, f'ir{k}')]
        return out + (hps(X, env['hpg_sampler'], 'iv') if k == 0 else [c, norm(X, nr(X, env['ls_sampler']), item)])
    return inv


def post_sl(X, r, p, idx, item, *_):
    c, o = opt(X, r); return [] if isinstance(o, Undef) else [(n, Implies(c, f)) for n, f in good(X, o, p, idx, item)]


SL = 'lbf_optimizer::sample_layout'
L('sample_layout', pre=lambda X, p, i, item, *_: [opt(X, X.fieldn(X.fieldn(item, 'shape'), 'surrogate'))[0]], post=post_sl, contracts=[C_QZ, *C_PF, C_GIH, C_PCF, C_HNEW, C_HSAMP, C_HTIGHT, C_DEC, C_COM, C_COST, C_SCU, C_SUR, C_TF, C_LDEF, C_LSAMP, Contract('Bin::bbox', ret='AARectangle')] + C_LSET, invariants={('sample_layout', k): Inv(inv_sl(k)) for k in (0, 1)}, timeout=60)


# ---------------------------------------------------------------- the search over the layouts
has_sur = lambda X, item: opt(X, X.fieldn(X.fieldn(item, 'shape'), 'surrogate'))[0]
C_SL = Contract('sample_layout', pre=lambda X, p, i, item, *_: [has_sur(X, item)], post=lambda X, r, p, idx, item, *_: [Implies(opt(X, r)[0], And(*[f for _, f in good(X, opt(X, r)[1], p, idx, item)]))], ret='Option<PlacingOption>', modifies=(4, 5))


def open_layout(X, p, i):
    """a layout of the problem, or a template with stock left"""
    n, t, q = (pure(X, PGN + f, p) for f in ('layouts', 'template_layouts', 'bin_qtys')); a, b = X.field(i, 0, 'usize', 'Real'), X.field(i, 0, 'usize', 'Template')
    return And(Implies(X.discr(i) == 0, And(0 <= a, a < X.length(n))), Implies(X.discr(i) == 1, And(0 <= b, b < X.length(t), X.elem(q, X.fieldn(X.fieldn(X.elem(t, b), 'bin'), 'id')) > 0)))


def post_find(X, r, p, item, *_):
    c, o = opt(X, r); return [] if isinstance(o, Undef) else [(n, Implies(c, f)) for n, f in good(X, o, p, X.fieldn(o, 'layout_idx'), item)[1:] + [('in an open layout', open_layout(X, p, X.fieldn(o, 'layout_idx')))]]


FP = 'find_lbf_placement'
L(FP, pre=lambda X, p, item, *_: [has_sur(X, item)], post=post_find, contracts=[C_SL, C_QZ] + C_PF, invariants={(FP, 0): Inv(lambda X, st, env: [])}, timeout=60)


# ---------------------------------------------------------------- the whole run
OP = 'LBFOptimizer'
ITS = '<Instance as InstanceGeneric>::items'
C_ITS = Contract(ITS, ret='&[(Item,usize)]')
is_sp = lambda X, p: X.discr(p) == 1
def mq(X, p): a, b = (X.field(p, 0, f'{k}Problem', k) for k in ('BP', 'SP')); return ite(X.discr(p) == 0, *[UNDEF if q is UNDEF else X.fieldn(q, 'missing_item_qtys') for q in (a, b)])
itm = lambda X, o, k: X.field(X.elem(pure(X, ITS, X.fieldn(o, 'instance')), k), 0, 'Item')
BIG = 2 ** 31


def run_inv(X, o, tag):
    """one count per item, ids are positions, every item can be searched for"""
    k = Int(f'?{tag}'); v = pure(X, ITS, X.fieldn(o, 'instance')); p = X.fieldn(o, 'problem')
    return [Or(X.discr(p) == 0, X.discr(p) == 1), X.length(mq(X, p)) == X.length(v), ForAll([k], Implies(And(0 <= k, k < X.length(v)), bound(X, [k], lambda: And(X.fieldn(itm(X, o, k), 'id') == k, has_sur(X, itm(X, o, k))))))]


def same_q(X, a, b, tag, at=None):
    k = Int(f'?{tag}'); v, w = mq(X, a), mq(X, b)
    return And(X.discr(a) == X.discr(b), X.length(v) == X.length(w), ForAll([k], Implies(And(0 <= k, k < X.length(v)), X.elem(w, k) == X.elem(v, k) - (If(k == at, 1, 0) if at is not None else 0))))


def pre_place(X, p, o):
    me = X.inputs[0]; i = X.fieldn(o, 'item_id'); item = itm(X, me, i)
    return [And(0 <= i, i < X.length(mq(X, p))), X.elem(mq(X, p), i) > 0] + [f for _, f in good(X, o, p, X.fieldn(o, 'layout_idx'), item)[1:]] + [open_layout(X, p, X.fieldn(o, 'layout_idx'))]


C_FIND = Contract(FP, pre=lambda X, p, item, *_: [has_sur(X, item)], post=lambda X, r, p, item, *_: [f for _, f in post_find(X, r, p, item)], ret='Option<PlacingOption>', modifies=(3, 4))
C_PLACE = Contract(PGN + 'place_item', pre=pre_place, post=lambda X, r, p, o: [same_q(X, X.old[0], X.new(0), 'sp', X.fieldn(o, 'item_id'))], ret='(LayoutIndex,PItemKey)', modifies=(0,))


def post_piq(X, r, p): k = Int('?pq'); return [X.length(r) < BIG, ForAll([k], Implies(And(0 <= k, k < X.length(r)), And(0 <= X.elem(r, k), X.elem(r, k) <= BIG)))]


C_PIQ = Contract(PGN + 'placed_item_qtys', post=post_piq, ret='Vec<usize>', uf=False)
mqf = lambda X, s: X.fieldn(s, 'missing_item_qtys')
def same_m(X, a, b, tag): k = Int(f'?{tag}'); v, w = mqf(X, a), mqf(X, b); return And(X.length(v) == X.length(w), ForAll([k], Implies(And(0 <= k, k < X.length(v)), X.elem(v, k) == X.elem(w, k))))
C_SPM = [Contract(f'SPProblem::{f}', post=lambda X, r, p, *a: [same_m(X, X.old[0], X.new(0), 'sm')], ret='()', modifies=(0,)) for f in ('modify_strip_in_back', 'fit_strip')]
C_SW = Contract('SPProblem::strip_width', ret='f32')
C_CS = Contract(PGN + 'create_solution', post=lambda X, r, p, o: [same_q(X, X.old[0], X.new(0), 'sc')], ret='Solution', modifies=(0,))
C_KEY = [Contract('convex_hull_from_points', ret='Vec<Point>'), Contract('SimplePolygon::new', ret='SimplePolygon'), Contract('<SimplePolygon as Shape>::diameter', ret='f32')]


def done(X, o, at, n, tag): k = Int(f'?{tag}'); p = X.fieldn(o, 'problem'); return Implies(is_sp(X, p), ForAll([k], Implies(And(0 <= k, k < n), bound(X, [k], lambda: X.elem(mq(X, p), at(k)) <= 0))))
def sames(X, o, tag): return [X.eq(X.fieldn(o, 'instance'), X.fieldn(X.inputs[0], 'instance')), X.discr(X.fieldn(o, 'problem')) == X.discr(X.fieldn(X.inputs[0], 'problem'))]


def inv_solve(k):
    def inv(X, st, env):
        o = env['self']; out = run_inv(X, o, f'ri{k}') + sames(X, o, k)
        return out + [done(X, o, env['it'].get, env['#'], f'dn{k}')] if k == 0 else out + [done(X, o, env['iter'].get, env['iter'].pos - 1, f'dn{k}')]
    return inv


def post_solve(X, r, o):
    n = X.new(0); p = X.fieldn(n, 'problem'); k = Int('?ps'); return [('a strip packing run places everything', Implies(is_sp(X, p), ForAll([k], Implies(And(0 <= k, k < X.length(mq(X, p))), bound(X, [k], lambda: X.elem(mq(X, p), k) <= 0)))))]


SO = 'lbf_optimizer::solve'
L(f'{OP}::solve', pre=lambda X, o: run_inv(X, o, 'pr'), post=post_solve, contracts=[C_ITS, C_FIND, C_PLACE, C_PIQ, C_SW, C_CS, C_QZ] + C_SPM + C_KEY + C_PF, invariants={(SO, 0): Inv(inv_solve(0)), (SO, 1): Inv(inv_solve(1)), (SO, 2): Inv(lambda X, st, env: [0 <= env['acc'], env['acc'] <= env['#'] * BIG]), (SO, 3): Inv(lambda X, st, env: [0 <= env['acc'], env['acc'] <= env['#'] * BIG])}, timeout=60)
