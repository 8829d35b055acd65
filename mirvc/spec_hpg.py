"""Contracts of the hazard proximity grid: addressing (C11), cells (C09, C10)."""
from z3 import *
from sym import *
from verify import Spec, Contract, pure
from exec import conj, Inv
from models import opt
from spec_geo import P, rect, circ, sq, pos_of, INT, EXT

R, I, B = RealSort(), IntSort(), BoolSort()


def dims(X, g): return X.fieldn(g, 'n_rows'), X.fieldn(g, 'n_cols')


def post_index(X, r, row, col, nr, nc):
    c, v = opt(X, r)
    return [('Ok exactly inside the grid', c == And(row < nr, col < nc)), ('row-major index', Implies(c, v == row * nc + col)), ('within the cell vector', Implies(c, And(0 <= v, v < nr * nc)))]


nat = lambda *v: [x >= 0 for x in v]
Spec('C11', 'Grid::calculate_index', pre=lambda X, *a: nat(*a), post=post_index)
Spec('C11', 'Grid::to_index', pre=lambda X, g, r, c: nat(r, c, *dims(X, g)), post=lambda X, r, g, row, col: post_index(X, r, row, col, *dims(X, g)))


def post_rowcol(X, r, g, i):
    c, v = opt(X, r); nr, nc = dims(X, g)
    if isinstance(v, Undef): return [('Some exactly inside the grid', c == (i < nr * nc))]
    row, col = v.fields
    return [('Some exactly inside the grid', c == (i < nr * nc)), ('row and column of the cell', Implies(c, And(0 <= row, row < nr, 0 <= col, col < nc))), ('inverse of the index', Implies(c, row * nc + col == i))]


Spec('C11', 'Grid::to_row_col', pre=lambda X, g, i: nat(i, *dims(X, g)), post=post_rowcol)

def post_neigh(X, r, g, i):
    nr, nc = dims(X, g); out = []; ROW, COL = X.binop('Div', i, nc), X.binop('Rem', i, nc)       # row and column of the cell (to_row_col)
    for k, (dr, dc) in enumerate([(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 1), (1, -1), (1, 0), (1, 1)]):
        row, col = ROW + dr, COL + dc; inn = And(0 <= row, row < nr, 0 <= col, col < nc)
        out.append((f'neighbour {k} is the adjacent cell, or the cell itself at the rim', Implies(And(0 <= ROW, ROW < nr, 0 <= COL, COL < nc, i == ROW * nc + COL), X.elem(r, IntVal(k)) == If(inn, row * nc + col, i))))
    return out


Spec('C11', 'Grid::get_neighbors', pre=lambda X, g, i: nat(i, *dims(X, g)), post=post_neigh)


def increasing(X, v, tag='in'):
    i, j = Int(f'?{tag}i'), Int(f'?{tag}j'); return ForAll([i, j], Implies(And(0 <= i, i < j, j < X.length(v)), X.elem(v, i) < X.elem(v, j)))


def post_range(field):
    def post(X, r, g, rg):
        v = X.fieldn(g, field); n = X.length(v); a, b = (r.fields[0], r.fields[1]); lo, hi = (X.field(rg, k, 'f32') for k in (0, 1)); i = Int('?ri')
        return [('indices in the grid', And(0 <= a, a < n, 0 <= b, b < n)), ('every coordinate inside the range is covered', ForAll([i], Implies(And(0 <= i, i < n, lo <= X.elem(v, i), X.elem(v, i) <= hi), And(a <= i, i <= b)))),
                ('the range reaches down to its lower end', Or(a == 0, X.elem(v, a) <= lo)), ('the range reaches up to its upper end', Or(b == n - 1, X.elem(v, b) >= hi)),
                ('no more than needed below', ForAll([i], Implies(And(a < i, i < n), X.elem(v, i) > lo))), ('no more than needed above', ForAll([i], Implies(And(0 <= i, i < b), X.elem(v, i) < hi)))]
    return post


for k, f in (('rows_in_range', 'rows'), ('cols_in_range', 'cols')):
    Spec('C11', f'Grid::{k}', pre=lambda X, g, rg, f=f: [increasing(X, X.fieldn(g, f)), X.length(X.fieldn(g, f)) >= 1, X.fieldn(g, 'n_' + f) == X.length(X.fieldn(g, f))], post=post_range(f))



# ---------------------------------------------------------------- cells
PROX = Function('PROX', R, R, R, R, R, R)          # distance of the point (last two) to the disk (first three), zero inside; folded
CDB = '<Circle as DistanceFrom<Point>>::distance_from_border'
near = lambda X, t: If(pos_of(X, t) == INT(X), RealVal(0), If(t.fields[1] >= 0, t.fields[1], -t.fields[1]))


def prox_def(v, cx, cy, r, x, y):
    d2 = sq(x - cx) + sq(y - cy); return And(v >= 0, Implies(d2 <= sq(r), v == 0), Implies(d2 > sq(r), sq(v + r) == d2))


Spec(['C09', 'C10'], CDB, name=CDB + ' (proximity)', pre=lambda X, c, p: [circ(X, c)[2] >= 0], post=lambda X, r, c, p: [('proximity of the point to the disk', prox_def(near(X, r), *circ(X, c), *P(p)))])
C_CDB = Contract(CDB, post=lambda X, r, c, p: [near(X, r) == PROX(*circ(X, c), *P(p)), PROX(*circ(X, c), *P(p)) >= 0], ret='(GeoPosition, f32)')
CELL_KEEP = ('bbox', 'centroid', 'radius', 'static_uni_prox', 'qz_prox')
UPD = lambda X, n: X.crate.enums['HPGCellUpdate'].index(n)
up = lambda X, c: X.fieldn(c, 'uni_prox').fields


def kept(X, a, b, ks=CELL_KEEP): return conj([X.eq(X.fieldn(a, k), X.fieldn(b, k)) for k in ks])


def update_of(X, r, old, new, prox, ent, margin=0):
    (o, oe), (n, ne) = up(X, old), up(X, new); rad = X.fieldn(old, 'radius'); d = X.discr(r); a, b = Reals('any_x any_y')
    return [('the smaller of the old value and the proximity of the hazard', n == If(prox < o, prox, o)), ('the entity that is closest', And(Implies(prox < o, X.eq(ne, ent)), Implies(prox >= o, X.eq(ne, oe)))), ('affected exactly when the hazard is closer', (d == UPD(X, 'Affected')) == (prox < o)), ('nothing else changes', kept(X, old, new)),
            ('neighbours are ruled out only if none of them can be closer to the hazard', Implies(And(d == UPD(X, 'NeighborsNotAffected'), a >= prox - 2 * rad, b <= o + margin * rad, rad >= 0), a > b))]


def post_pole(X, r, c, h, pole): return update_of(X, r, X.old[0], X.new(0), PROX(*circ(X, pole), *P(X.fieldn(c, 'centroid'))), X.fieldn(h, 'entity'), 2)


Spec(['C09', 'C10'], 'HPGCell::register_hazard_pole', post=post_pole, contracts=[C_CDB])
POLES = '<SimplePolygon>'
HPX = Function('HPX', Term, R, R, R)               # proximity of the point to the poles of a shape's surrogate: the smallest PROX over the poles


def poles_of(X, shape): return X.fieldn(opt(X, X.fieldn(shape, 'surrogate'))[1], 'poles')


def post_dpb(X, r, c, poles):
    i = Int('?dp'); x, y = P(X.fieldn(c, 'centroid')); ok = And(0 <= i, i < X.length(poles)); px = PROX(*circ(X, X.elem(poles, i)), x, y)
    return [('no pole is closer', ForAll([i], Implies(ok, r <= px))), ('attained at a pole', Exists([i], And(ok, r == px))), ('not negative', r >= 0)]


DPB = 'distance_to_surrogate_poles_border'
Spec(['C09', 'C10'], DPB, pre=lambda X, c, poles: [X.length(poles) >= 1], post=post_dpb, contracts=[C_CDB])
C_DPB = Contract(DPB, post=lambda X, r, c, poles: [r == HPX(X.to_obj(poles).term, *P(X.fieldn(c, 'centroid'))), r >= 0], ret='f32')
hpx = lambda X, h, c: HPX(X.to_obj(poles_of(X, X.fieldn(h, 'shape'))).term, *P(X.fieldn(c, 'centroid')))


Spec(['C09', 'C10'], 'HPGCell::register_hazard', post=lambda X, r, c, h: update_of(X, r, X.old[0], X.new(0), hpx(X, h, c), X.fieldn(h, 'entity')), contracts=[C_DPB])


def min_prox(X, r, c, rel):
    qz = X.fieldn(c, 'qz_prox'); u = up(X, c)[0]; n = len(qz.fields)
    return [('no larger than the universal proximity', r <= u), ('no larger than any relevant quality zone proximity', And(*[Implies(rel(k), r <= X.elem(qz, IntVal(k))) for k in range(n)])), ('one of them', Or(r == u, *[And(rel(k), r == X.elem(qz, IntVal(k))) for k in range(n)]))]


def post_hp(X, r, c, q): s, v = opt(X, q); return min_prox(X, r, c, lambda k: Or(Not(s), k < v))
def q_ok(X, c, q): s, v = opt(X, q); return [Implies(s, And(v >= 0, v <= len(X.fieldn(c, 'qz_prox').fields)))]


Spec(['C09', 'C10', 'C21'], 'HPGCell::hazard_proximity', pre=q_ok, post=post_hp, invariants={('hpg_cell::hazard_proximity', 0): Inv(lambda X, st, env: [f for _, f in min_prox(X, env['haz_prox'], env['self'], lambda k: k < env['#'])])})


def post_could(X, r, c, item):
    """false only if no position of the pole of inaccessibility with its centre in the cell (within radius of the centroid) keeps clear of the closest relevant hazard (at hp from the centroid)"""
    f = X.fieldn; poi = f(f(f(item, 'shape'), 'poi'), 'radius'); rad = f(c, 'radius'); hp = pure(X, 'HPGCell::hazard_proximity', c, f(item, 'base_quality')); d, h = Reals('any_x any_y')
    return [('nothing feasible is discarded', Implies(And(d >= 0, d <= rad, h <= hp + d, poi <= h, poi >= 0), Or(r, poi == hp + rad)))]


Spec('C10', 'HPGCell::could_accommodate_item', pre=lambda X, c, item: q_ok(X, c, X.fieldn(item, 'base_quality')), post=post_could, contracts=['HPGCell::hazard_proximity'])


# ---------------------------------------------------------------- a new cell
VAR = lambda X, n: X.crate.enums['HazardEntity'].index(n)
isv = lambda X, e, *ns: Or(*[X.discr(e) == VAR(X, n) for n in ns])
qual = lambda X, e: X.field(e, 0, 'usize', 'InferiorQualityZone')
PDB = '<SimplePolygon as DistanceFrom<Point>>::distance_from_border'
C_PDB = Contract(PDB, post=lambda X, r, s, p: [r.fields[1] >= 0], ret='(GeoPosition, f32)')           # proved for C13; here a function of shape and point
MAXF = RealVal('340282346638528859811704183484516925440')


def haz_pos(X, e): return If(isv(X, e, 'BinExterior'), IntVal(EXT(X)), IntVal(INT(X)))


def static_prox(X, h, c):
    """zero where the point is on the forbidden side of the hazard's border, otherwise the distance to the border"""
    X.binders.append(Int('?si'))
    try: t = pure(X, PDB, X.fieldn(h, 'shape'), c)
    finally: X.binders.pop()
    return If(pos_of(X, t) == haz_pos(X, X.fieldn(h, 'entity')), RealVal(0), t.fields[1])


def inv_cell(X, hs, p, cen, uni, qz):
    i = Int('?si'); h = X.elem(hs, i); e = X.fieldn(h, 'entity'); d = static_prox(X, h, cen); ok = And(0 <= i, i < p); u = And(ok, isv(X, e, 'BinExterior', 'BinHole')); v, ve = uni.fields
    out = [('no universal hazard is closer', ForAll([i], Implies(u, v <= d))), ('the universal value belongs to a hazard', And(v <= MAXF, Or(v == MAXF, Exists([i], And(u, v == d, X.eq(e, ve))))))]
    for k in range(len(qz.fields)):
        z = And(ok, isv(X, e, 'InferiorQualityZone'), qual(X, e) == k); w = qz.fields[k]
        out += [(f'no zone of quality {k} is closer', ForAll([i], Implies(z, w <= d))), (f'the value of quality {k} belongs to a zone', And(w <= MAXF, Or(w == MAXF, Exists([i], And(z, w == d)))))]
    return out


def post_cell(X, r, box, hs):
    f = X.fieldn; a, b, c, d = rect(X, box); x, y = P(f(r, 'centroid'))
    return [('centroid', And(2 * x == a + c, 2 * y == b + d)), ('radius: half the diagonal', And(f(r, 'radius') >= 0, 4 * sq(f(r, 'radius')) == sq(c - a) + sq(d - b))), ('box kept', X.eq(f(r, 'bbox'), box)), ('no items yet', X.eq(f(r, 'uni_prox'), f(r, 'static_uni_prox')))] + inv_cell(X, hs, X.length(hs), f(r, 'centroid'), f(r, 'static_uni_prox'), f(r, 'qz_prox'))


def qz_valid(X, hs):
    i = Int('?qv'); e = X.fieldn(X.elem(hs, i), 'entity'); n = int(X.crate.simple.get('N_QUALITIES', '10_usize').split('_')[0])
    return ForAll([i], Implies(And(0 <= i, i < X.length(hs), isv(X, e, 'InferiorQualityZone')), And(0 <= qual(X, e), qual(X, e) < n)))


Spec(['C09', 'C10'], 'HPGCell::new', pre=lambda X, box, hs: [rect(X, box)[0] < rect(X, box)[2], rect(X, box)[1] < rect(X, box)[3], qz_valid(X, hs)], post=post_cell, contracts=[C_PDB], invariants={('hpg_cell::new', 0): Inv(lambda X, st, env: [f for _, f in inv_cell(X, env['static_hazards'], env['#'], env['centroid'], env['static_uni_prox'], env['qz_prox'])])}, timeout=40)


# ---------------------------------------------------------------- relevance of hazards (C21)
HE = 'HazardEntity'
Spec(['C21', 'C01', 'C09'], f'{HE}::position', post=lambda X, r, e: [('the bin exterior forbids outside, all others inside', X.discr(r) == haz_pos(X, e))])
Spec(['C21', 'C05'], f'{HE}::is_dynamic', post=lambda X, r, e: [('placed items only', r == isv(X, e, 'PlacedItem'))])
Spec(['C21', 'C09'], f'{HE}::is_universal', post=lambda X, r, e: [('all but quality zones', r == Not(isv(X, e, 'InferiorQualityZone')))])
Spec('C21', '<BinHazardFilter as HazardFilter>::is_irrelevant', post=lambda X, r, f, e: [('everything but items', r == Not(isv(X, e, 'PlacedItem')))])
Spec('C21', '<QZHazardFilter as HazardFilter>::is_irrelevant', post=lambda X, r, f, e: [('zones of at least the cutoff quality', r == And(isv(X, e, 'InferiorQualityZone'), qual(X, e) >= (f.fields[0] if isinstance(f, Agg) else X.field(f, 0, 'usize'))))])
Spec('C21', '<EntityHazardFilter as HazardFilter>::is_irrelevant', post=lambda X, r, f, e: [('the listed entities', r == Exists([Int('?ef')], And(0 <= Int('?ef'), Int('?ef') < X.length(X.field(f, 0, 'Vec<HazardEntity>')), X.eq(X.elem(X.field(f, 0, 'Vec<HazardEntity>'), Int('?ef')), e))))])
IRR = {k: Contract(f'<{k}HazardFilter as HazardFilter>::is_irrelevant', ret='bool') for k in ('impl', 'dyn')}


def irrelevant(X, k, f, e, *b):
    X.binders += b
    try: return pure(X, IRR[k].key, f, e)
    finally: del X.binders[len(X.binders) - len(b):]


def post_comb(X, r, f, e):
    v = X.fieldn(f, 'filters'); i = Int('?cf'); return [('some filter deems it irrelevant', r == Exists([i], And(0 <= i, i < X.length(v), irrelevant(X, 'dyn', X.elem(v, i), e, i))))]


def post_gih(X, r, f, hs):
    i, j = Int('?gi'), Int('?gj'); e = X.fieldn(X.elem(hs, i), 'entity'); n, m = X.length(hs), X.length(r)
    return [('every irrelevant hazard is listed', ForAll([i], Implies(And(0 <= i, i < n, irrelevant(X, 'impl', f, e, i)), Exists([j], And(0 <= j, j < m, X.eq(X.elem(r, j), e)))))),
            ('nothing else is listed', ForAll([j], Implies(And(0 <= j, j < m), Exists([i], And(0 <= i, i < n, irrelevant(X, 'impl', f, e, i), X.eq(X.elem(r, j), e))))))]


Spec('C21', '<CombinedHazardFilter as HazardFilter>::is_irrelevant', post=post_comb, contracts=[IRR['dyn']])
Spec('C21', 'generate_irrelevant_hazards', types={1: '&[Hazard]'}, post=post_gih, contracts=[IRR['impl']])


# ---------------------------------------------------------------- several hazards at one cell
def items_of(X, v):
    """an iterator parameter stands for the sequence it yields -> (length, element, kept)"""
    if isinstance(v, It):
        return v.n - v.pos, lambda i: v.get(i + v.pos), (lambda i: v.keep(i + v.pos)) if v.keep else (lambda i: BoolVal(True))
    return X.length(v), lambda i: X.elem(v, i), lambda i: BoolVal(True)


def active(X, hs, i): n, get, kp = items_of(X, hs); return And(0 <= i, i < n, kp(i), X.fieldn(get(i), 'active'))


def exact(X, base, new, cell, hs, tag):
    """new is the smallest of the pair base and the proximities of the active hazards, with its entity"""
    i = Int(f'?{tag}'); _, get, _ = items_of(X, hs); h = get(i); (b, be), (n, ne) = base, new
    return [('not above the starting value', n <= b), ('no active hazard is closer', ForAll([i], Implies(active(X, hs, i), n <= hpx(X, h, cell)))), ('belongs to the start or to an active hazard', Or(And(n == b, X.eq(ne, be)), Exists([i], And(active(X, hs, i), n == hpx(X, h, cell), X.eq(ne, X.fieldn(h, 'entity'))))))]


def haz_fine(X, hs, cell, tag='hf'):
    """what the surrogate guarantees: its bounding circle holds all poles, so it is at least as close"""
    i = Int(f'?{tag}'); _, get, _ = items_of(X, hs); h = get(i); s = X.fieldn(h, 'shape'); so, sv = opt(X, X.fieldn(s, 'surrogate'))
    return ForAll([i], Implies(active(X, hs, i), And(so, isv(X, X.fieldn(h, 'entity'), 'PlacedItem', 'BinHole', 'InferiorQualityZone'), PROX(*circ(X, X.fieldn(sv, 'poles_bounding_circle')), *P(X.fieldn(cell, 'centroid'))) <= hpx(X, h, cell))))


C_RH = Contract('HPGCell::register_hazard', post=lambda X, r, c, h: [(n, f) for n, f in update_of(X, r, X.old[0], X.new(0), hpx(X, h, c), X.fieldn(h, 'entity')) if 'neighbours' not in n], ret='HPGCellUpdate', modifies=(0,))


def inv_rhs(X, st, env):
    c, old, hs, w = env['self'], X.old[0], X.inputs[1], env['bounding_pole_distances']; i, k = Int('?rh'), Int('?rk'); _, get, _ = items_of(X, hs)
    n = X.length(w); p = lambda k: X.elem(w, k); bp = lambda h: PROX(*circ(X, X.fieldn(opt(X, X.fieldn(X.fieldn(h, 'shape'), 'surrogate'))[1], 'poles_bounding_circle')), *P(X.fieldn(old, 'centroid')))
    pend = lambda h, k: And(0 <= k, k < n, X.eq(p(k).fields[0], h))
    h = get(i); u = up(X, c)[0]
    return [kept(X, old, c), u <= up(X, old)[0], exact(X, up(X, old), up(X, c), old, hs, 're')[2][1],
            ForAll([i], Implies(active(X, hs, i), Or(u <= hpx(X, h, old), Exists([k], pend(h, k))))),
            ForAll([k], Implies(And(0 <= k, k < n), And(opt(X, p(k).fields[1])[0], opt(X, p(k).fields[1])[1] == bp(p(k).fields[0]), Exists([i], And(active(X, hs, i), X.eq(get(i), p(k).fields[0]))))))]


Spec(['C09'], 'HPGCell::register_hazards', types={1: '&[Hazard]'}, pre=lambda X, c, hs: [haz_fine(X, hs, c)], post=lambda X, r, c, hs: exact(X, up(X, X.old[0]), up(X, X.new(0)), X.old[0], hs, 'ex') + [('nothing else changes', kept(X, X.old[0], X.new(0)))], contracts=[C_CDB, C_RH], invariants={('hpg_cell::register_hazards', 0): Inv(inv_rhs)}, timeout=60)


def ents(X, v, e, tag):
    i = Int(f'?{tag}'); n, get, kp = items_of(X, v); return Exists([i], And(0 <= i, i < n, kp(i), X.eq(get(i), e)))


def dereg_cell(X, old, new, de, rem, tag):
    st = X.fieldn(old, 'static_uni_prox').fields; hit = ents(X, de, up(X, old)[1], tag + 'h')
    return [('recomputed from the remaining hazards if the closest one leaves', Implies(hit, And(*[f for _, f in exact(X, st, up(X, new), old, rem, tag + 'e')]))), ('otherwise unchanged', Implies(Not(hit), X.eq(X.fieldn(new, 'uni_prox'), X.fieldn(old, 'uni_prox')))), ('nothing else changes', kept(X, old, new))]


C_RHS = Contract('HPGCell::register_hazards', pre=lambda X, c, hs: [haz_fine(X, hs, c)], post=lambda X, r, c, hs: exact(X, up(X, X.old[0]), up(X, X.new(0)), X.old[0], hs, 'ex') + [('', kept(X, X.old[0], X.new(0)))], ret='()', modifies=(0,))
Spec('C09', 'HPGCell::deregister_hazards', types={1: '&[HazardEntity]', 2: '&[Hazard]'}, pre=lambda X, c, de, rem: [haz_fine(X, rem, c)], post=lambda X, r, c, de, rem: dereg_cell(X, X.old[0], X.new(0), de, rem, 'dc'), contracts=[C_RHS])


# ---------------------------------------------------------------- the grid: pending deregisters
HPG = 'HazardProximityGrid'
cells = lambda X, g: X.fieldn(X.fieldn(g, 'grid'), 'cells')
pending = lambda X, g: X.fieldn(g, 'uncommitted_deregisters')
dirty = lambda X, g: X.length(pending(X, g)) != 0
Spec(['C09', 'C05'], f'{HPG}::is_dirty', post=lambda X, r, g: [('exactly while deregisters are pending', r == dirty(X, g))])
Spec(['C09', 'C05'], f'{HPG}::restore', pre=lambda X, g, n: [X.length(cells(X, g)) == X.length(X.fieldn(n, 'cells'))], post=lambda X, r, g, n: [('the grid is the snapshot', X.eq(X.fieldn(X.new(0), 'grid'), n)), ('nothing is pending', Not(dirty(X, X.new(0))))])
GRID_KEEP = ('rows', 'cols', 'n_rows', 'n_cols')


def cell_at(X, g, k): return opt(X, X.elem(cells(X, g), k))


def bound(X, vs, f):
    X.binders += vs
    try: return f()
    finally: del X.binders[len(X.binders) - len(vs):]


def flushed(X, old, new, de, rem, lo, hi, tag):
    """the cells lo..hi of new have dropped the pending hazards"""
    k = Int(f'?{tag}k')
    def f():
        (so, co), (sn, cn) = cell_at(X, old, k), cell_at(X, new, k)
        return [('no cell appears or vanishes', so == sn)] + [(n, Implies(so, g)) for n, g in dereg_cell(X, co, cn, de, rem, tag)]
    return [(n, ForAll([k], Implies(And(lo <= k, k < hi), g))) for n, g in bound(X, [k], f)]


def untouched(X, old, new, lo, tag):
    k = Int(f'?{tag}k'); return ForAll([k], Implies(And(lo <= k, k < X.length(cells(X, old))), bound(X, [k], lambda: X.eq(X.elem(cells(X, old), k), X.elem(cells(X, new), k)))))


def grid_frame(X, old, new):
    go, gn = X.fieldn(old, 'grid'), X.fieldn(new, 'grid')
    return [('the shape of the grid stays', And(X.length(cells(X, old)) == X.length(cells(X, new)), *[X.eq(X.fieldn(go, f), X.fieldn(gn, f)) for f in GRID_KEEP], X.eq(X.fieldn(old, 'bbox'), X.fieldn(new, 'bbox')), X.fieldn(old, 'cell_radius') == X.fieldn(new, 'cell_radius')))]


def cells_fine(X, g, rem):
    k = Int('?cfk'); return [ForAll([k], Implies(And(0 <= k, k < X.length(cells(X, g)), cell_at(X, g, k)[0]), bound(X, [k], lambda: haz_fine(X, rem, cell_at(X, g, k)[1], 'hfc'))))]


def post_flush(X, old, new, de, rem, was):
    n = X.length(cells(X, old))
    return [('nothing is pending', Not(dirty(X, new)))] + grid_frame(X, old, new) + [(a, Implies(was, f)) for a, f in flushed(X, old, new, de, rem, 0, n, 'fl')] + [('without pending hazards nothing changes', Implies(Not(was), untouched(X, old, new, 0, 'fu')))]


def inv_flush(X, st, env):
    g, old = env['self'], X.old[0]; p = env['#']
    return [X.eq(pending(X, g), pending(X, old))] + [f for _, f in grid_frame(X, old, g)] + [f for _, f in flushed(X, old, g, pending(X, old), X.inputs[1], 0, p, 'fi')] + [untouched(X, old, g, p, 'fv')]


C_CDEREG = Contract('HPGCell::deregister_hazards', pre=lambda X, c, de, rem: [haz_fine(X, rem, c)], post=lambda X, r, c, de, rem: dereg_cell(X, X.old[0], X.new(0), de, rem, 'dc'), ret='()', modifies=(0,))
Spec(['C09', 'C05'], f'{HPG}::flush_deregisters', types={1: '&[Hazard]'}, pre=lambda X, g, rem: cells_fine(X, g, rem), post=lambda X, r, g, rem: post_flush(X, X.old[0], X.new(0), pending(X, X.old[0]), rem, dirty(X, X.old[0])), contracts=[C_CDEREG], invariants={('hazard_proximity_grid::flush_deregisters', 0): Inv(inv_flush)}, subst={'T': 'HPGCell'}, timeout=60)


def post_hdereg(X, r, g, e, rem, now):
    old, new = X.old[0], X.new(0); po, pn = pending(X, old), pending(X, new); k = Int('?hdk'); n = X.length(po)
    lazy = And(X.length(pn) == n + 1, X.eq(X.elem(pn, n), e), ForAll([k], Implies(And(0 <= k, k < n), bound(X, [k], lambda: X.eq(X.elem(pn, k), X.elem(po, k))))), untouched(X, old, new, 0, 'hu'))
    return [('otherwise it is pending, the grid unchanged', Implies(Not(now), lazy)), ('processed at once, nothing is pending', Implies(now, Not(dirty(X, new)))), *grid_frame(X, old, new)]


C_FLUSH = Contract(f'{HPG}::flush_deregisters', pre=lambda X, g, rem: cells_fine(X, g, rem), post=lambda X, r, g, rem: post_flush(X, X.old[0], X.new(0), pending(X, X.old[0]), rem, dirty(X, X.old[0])), ret='()', modifies=(0,))
Spec(['C09', 'C05'], f'{HPG}::deregister_hazard', types={2: '&[Hazard]'}, pre=lambda X, g, e, rem, now: cells_fine(X, g, rem), post=post_hdereg, contracts=[C_FLUSH], subst={'T': 'HPGCell'}, timeout=60)
