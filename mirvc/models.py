"""Models of std / dependency functions (the trusted part of the verifier besides z3). Every model states what the function returns; none
reads the code under verification. Floating point is modelled over the reals (listed as an assumption in the evidence)."""
import re
from z3 import *
from sym import *
from mir import base_ty, norm_ty, split_top


class Table:
    def __init__(self): self.rules = []

    def rule(self, *pats):
        def deco(f):
            for p in pats: self.rules.append((re.compile(p), f))
            return f
        return deco

    def dispatch(self, X, key, callee, args, st, dty):
        for p, f in self.rules:
            m = p.fullmatch(key)
            if m:
                r = f(X, m, args, st, dty)
                if r is not None: return r
        return None


MODELS = Table()
rule = MODELS.rule


def E():
    import exec
    return exec


def ret(v, st): return [(v, st)]


def D(X, st, v): return X.deref_all(st, v)


def some(v): return Agg('Option', [v], (1, 'Some'))


NONE = Agg('Option', [], (0, 'None'))
UNIT = Agg('()', [])
LESS, EQUAL, GREATER = (Agg('Ordering', [], (k, n)) for n, k in (('Less', 255), ('Equal', 0), ('Greater', 1)))


# ------------------------------------------------------------------ identity-like
IDK = r'deref|as_ref|borrow|clone|cloned|to_owned|to_vec|as_slice|into_inner|as_deref|into_boxed_slice|into_vec'


@rule(r'<.* as Deref>::deref', r'<.* as AsRef<.*>>::as_ref', r'<.* as Borrow<.*>>::borrow', r'<.* as Clone>::clone', r'.*::to_vec', r'.*::to_owned', r'Vec::as_slice', r'NotNan::into_inner',
      r'(Box|Arc|Rc)::new', r'Arc::downgrade', r'Option::cloned', r'Option::copied', r'<(f32|NotNan<f32>) as (Into|From)<(f32|NotNan<f32>)>>::(into|from)', r'hint::black_box', r'Arc::clone', r'Option::as_ref', r'Option::as_deref', r'<.* as ToOwned>::to_owned', r'Result::as_ref')
def ident(X, m, a, st, dty): return ret(D(X, st, a[0]), st)


@rule(r'<.* as DerefMut>::deref_mut', r'<.* as AsMut<.*>>::as_mut', r'Vec::as_mut_slice', r'<.* as BorrowMut<.*>>::borrow_mut')
def ident_mut(X, m, a, st, dty): return ret(a[0], st)


@rule(r'NotNan::new_unchecked')
def nn_unchecked(X, m, a, st, dty): return ret(a[0], st)


@rule(r'<(.*) as Into<(.*)>>::into')
def into(X, m, a, st, dty):
    if m[1] == m[2]: return ret(a[0], st)
    if X.lookup(m[0], m[0])[0] is not None: return None
    k = f'<{m[2]} as From<{m[1]}>>::from'
    return X.invoke(k, a, st, dty)


@rule(r'(?:\w+)?::(?:new_debug|new_display|new_lower_exp|from_str|from_str_nonconst|new_v1|new_const|none)', r'Arguments::\w+', r'Argument::\w+')
def fmtarg(X, m, a, st, dty): return ret(Agg('fmt', []), st)


@rule(r'NotNan::new')
def nn_new(X, m, a, st, dty): return ret(Agg('Result', [D(X, st, a[0])], (0, 'Ok')), st)


# ------------------------------------------------------------------ f32
def num(X, st, v):
    v = D(X, st, v)
    if isinstance(v, Agg) and len(v.fields) == 1: v = v.fields[0]
    return v


@rule(r'f(?:32|64)::(max|min)', r'<(?:f32|NotNan<f32>|usize) as Ord>::(max|min)', r'cmp::(max|min)', r'OrderedFloat::(max|min)')
def fmaxmin(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1])
    k = next(g for g in m.groups() if g)
    if not is_scalar(x): return None
    return ret(If(x >= y, x, y) if k == 'max' else If(x <= y, x, y), st)


@rule(r'f(?:32|64)::abs', r'isize::abs')
def fabs_(X, m, a, st, dty):
    x = num(X, st, a[0]); return ret(If(x >= 0, x, -x), st)


@rule(r'isize::unsigned_abs')
def uabs(X, m, a, st, dty):
    x = num(X, st, a[0]); return ret(If(x >= 0, x, -x), st)


def sqrt_of(X, x):
    """sqrt as a function symbol with its defining facts"""
    x = simplify(x) if False else x
    f = Function('sqrt', RealSort(), RealSort()) if X.uf_sqrt else None
    s = X.memo.get(('sqrt', x.get_id())) if not X.binders else None
    if s is not None: return s[1]
    s = X.fresh(RealSort(), 'sqrt')
    X.fact(And(s >= 0, Implies(x >= 0, s * s == x)))
    if not X.binders: X.memo[('sqrt', x.get_id())] = (x, s)
    return s


@rule(r'f(?:32|64)::sqrt')
def fsqrt(X, m, a, st, dty): return ret(sqrt_of(X, num(X, st, a[0])), st)


@rule(r'f(?:32|64)::powf')
def fpowf(X, m, a, st, dty): return ret(Function('powf', RealSort(), RealSort(), RealSort())(num(X, st, a[0]), num(X, st, a[1])), st)


@rule(r'f(?:32|64)::powi')
def fpowi(X, m, a, st, dty):
    x, n = num(X, st, a[0]), simplify(a[1])
    if not is_int_value(n) or not 0 <= n.as_long() <= 4: return None
    r = RealVal(1)
    for k in range(n.as_long()): r = x if k == 0 else r * x
    return ret(r, st)


def sincos(X, x):
    k = ('sincos', x.get_id())
    if k in X.memo and not X.binders: return X.memo[k][1]
    s, c = X.fresh(RealSort(), 'sin'), X.fresh(RealSort(), 'cos')
    X.fact(s * s + c * c == 1)
    if not X.binders: X.memo[k] = (x, (s, c))
    return s, c


@rule(r'f(?:32|64)::sin_cos')
def fsincos(X, m, a, st, dty):
    s, c = sincos(X, num(X, st, a[0])); return ret(Agg('tuple', [s, c]), st)


@rule(r'f(?:32|64)::(sin|cos)')
def fsin(X, m, a, st, dty):
    s, c = sincos(X, num(X, st, a[0])); return ret(s if m[1] == 'sin' else c, st)


@rule(r'f(?:32|64)::atan2')
def fatan2(X, m, a, st, dty):
    y, x = num(X, st, a[0]), num(X, st, a[1])
    t = X.fresh(RealSort(), 'atan2')
    s, c = sincos(X, t)
    h = sqrt_of(X, x * x + y * y)
    X.fact(And(Implies(Or(x != 0, y != 0), And(h * s == y, h * c == x)), Implies(And(x == 0, y == 0), And(s == 0, c == 1))))
    return ret(t, st)


@rule(r'f(?:32|64)::(floor|ceil|round|trunc)')
def ffloor(X, m, a, st, dty):
    x = num(X, st, a[0])
    r = X.fresh(IntSort(), m[1]); rr = ToReal(r)
    X.fact({'floor': And(rr <= x, x < rr + 1), 'ceil': And(rr >= x, x > rr - 1), 'round': And(rr - x <= Q(1, 2), x - rr <= Q(1, 2)), 'trunc': And(If(x >= 0, And(rr <= x, x < rr + 1), And(rr >= x, x > rr - 1)))}[m[1]])
    return ret(rr, st)


@rule(r'f(?:32|64)::(is_nan|is_infinite)')
def fisnan(X, m, a, st, dty): return ret(BoolVal(False), st)


@rule(r'f(?:32|64)::is_finite')
def fisfin(X, m, a, st, dty): return ret(BoolVal(True), st)


@rule(r'f(?:32|64)::signum')
def fsign(X, m, a, st, dty):
    x = num(X, st, a[0])
    z = X.fresh(BoolSort(), 'signbit0')
    return ret(If(x > 0, RealVal(1), If(x < 0, RealVal(-1), If(z, RealVal(1), RealVal(-1)))), st)


@rule(r'f(?:32|64)::mul_add')
def fma(X, m, a, st, dty): return ret(num(X, st, a[0]) * num(X, st, a[1]) + num(X, st, a[2]), st)


@rule(r'f(?:32|64)::(recip)')
def frecip(X, m, a, st, dty): return ret(X.fdiv(RealVal(1), num(X, st, a[0])), st)


@rule(r'f(?:32|64)::hypot')
def fhyp(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1]); return ret(sqrt_of(X, x * x + y * y), st)


@rule(r'f(?:32|64)::clamp')
def fclamp(X, m, a, st, dty):
    x, lo, hi = [num(X, st, v) for v in a]
    return ret(If(x < lo, lo, If(x > hi, hi, x)), st)


@rule(r'<(?:f32|f64|usize|isize|i32|u8|NotNan<f32>|T) as (Add|Sub|Mul|Div|Rem)(?:<.*>)?>::\w+')
def arith(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1])
    if not (is_scalar(x) and is_scalar(y)): return None
    return ret(X.binop(m[1], x, y), st)


@rule(r'<(?:f32|f64|NotNan<f32>|isize|T) as Neg>::neg')
def neg(X, m, a, st, dty): return ret(-num(X, st, a[0]), st)


@rule(r'<(?:f32|f64|usize|isize|NotNan<f32>) as (Add|Sub|Mul|Div)Assign(?:<.*>)?>::\w+')
def arith_assign(X, m, a, st, dty):
    r = a[0]; x, y = num(X, st, r), num(X, st, a[1])
    s = st.copy(); X.write(s, r.cell, r.path, X.binop(m[1], x, y)); return ret(UNIT, s)


@rule(r'usize::saturating_sub')
def satsub(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1]); return ret(If(x >= y, x - y, IntVal(0)), st)


@rule(r'(?:usize|u64|u32)::saturating_add')
def satadd(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1]); return ret(x + y, st)


@rule(r'isize::rem_euclid')
def rem_euclid(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1])
    if is_int_value(simplify(y)): return ret(x % y, st)
    r = Function('ieuc', IntSort(), IntSort(), IntSort())(x, y)
    X.fact_on(Implies(y > 0, And(r >= 0, r < y, Implies(And(0 <= x, x < y), r == x), Implies(And(x >= y, x < 2 * y), r == x - y), Implies(And(x < 0, x >= -y), r == x + y))), r)
    return ret(r, st)


@rule(r'usize::abs_diff')
def absdiff(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1]); return ret(If(x >= y, x - y, y - x), st)


@rule(r'(?:usize|u\d+|isize|i\d+)::(?:wrapping|unchecked)_(add|sub|mul)')
def wrapping(X, m, a, st, dty): return None


# ------------------------------------------------------------------ comparisons
def order_val(X, x, y):
    """discriminant of the derived / lexicographic Ord of two values"""
    if isinstance(x, Agg) and isinstance(y, Agg) and x.ty in ('OrderedFloat', 'NotNan', 'Reverse') and len(x.fields) == 1:
        r = order_val(X, x.fields[0], y.fields[0])
        return r if x.ty != 'Reverse' else If(r == 255, IntVal(1), If(r == 1, IntVal(255), IntVal(0)))
    if is_scalar(x) and is_scalar(y): return If(x < y, IntVal(255), If(x == y, IntVal(0), IntVal(1)))
    if isinstance(x, Agg) and isinstance(y, Agg) and x.ty == 'tuple':
        r = IntVal(0)
        for a, b in reversed(list(zip(x.fields, y.fields))):
            o = order_val(X, a, b); r = If(o == 0, r, o)
        return r
    if base_ty(X.ty_of(x)) == 'Option' or isinstance(x, Agg) and x.ty == 'Option':
        cx, vx = opt(X, x); cy, vy = opt(X, y)
        inner = order_val(X, vx, vy) if not isinstance(vx, Undef) and not isinstance(vy, Undef) else IntVal(0)
        return If(And(cx, cy), inner, If(cx, IntVal(1), If(cy, IntVal(255), IntVal(0))))
    raise Unsupported(f'ordering of {x!r}')


def order(x, y): return ite(x < y, LESS, ite(x == y, EQUAL, GREATER))


@rule(r'<(?:f32|f64|NotNan<f32>) as PartialOrd(?:<.*>)?>::partial_cmp', r'<(?:usize|isize|u8|u32|u64|i32) as PartialOrd>::partial_cmp')
def pcmp(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1])
    return ret(some(order(x, y)), st)


@rule(r'<(?:usize|isize|u8|u32|u64|i32|NotNan<f32>|OrderedFloat<f32>) as Ord>::cmp')
def ocmp(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1])
    return ret(order(x, y), st)


@rule(r'<\(.*\) as PartialOrd(?:<.*>)?>::partial_cmp', r'<\(.*\) as Ord>::cmp')
def tuple_cmp(X, m, a, st, dty):
    d = order_val(X, D(X, st, a[0]), D(X, st, a[1])); r = ite(d == 255, LESS, ite(d == 1, GREATER, EQUAL))
    return ret(some(r) if 'partial_cmp' in m[0] else r, st)


@rule(r'<bool as Ord>::cmp')
def bcmp(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1])
    return ret(ite(x == y, EQUAL, ite(x, GREATER, LESS)), st)


@rule(r'Ordering::then')
def othen(X, m, a, st, dty):
    x, y = D(X, st, a[0]), D(X, st, a[1])
    return ret(ite(X.discr(x) == 0, y, x), st)


@rule(r'Ordering::(is_eq|is_ne|is_lt|is_gt|is_le|is_ge)')
def ois(X, m, a, st, dty):
    d = X.discr(D(X, st, a[0]))
    return ret({'is_eq': d == 0, 'is_ne': d != 0, 'is_lt': d == 255, 'is_gt': d == 1, 'is_le': d != 1, 'is_ge': d != 255}[m[1]], st)


@rule(r'Ordering::reverse')
def oreverse(X, m, a, st, dty):
    d = X.discr(D(X, st, a[0]))
    return ret(ite(d == 255, GREATER, ite(d == 1, LESS, EQUAL)), st)


@rule(r'<(?:f32|f64|usize|isize|u8|u32|u64|i32|bool|NotNan<f32>) as Partial(?:Ord|Eq)(?:<.*>)?>::(lt|le|gt|ge|eq|ne)')
def cmpop(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1])
    return ret({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'eq': lambda: x == y, 'ne': lambda: x != y}[m[1]](), st)


@rule(r'<(?:Option|\(|\[|Ordering|Vec|Tribool).* as PartialEq(?:<.*>)?>::(eq|ne)')
def stdeq(X, m, a, st, dty):
    x, y = D(X, st, a[0]), D(X, st, a[1])
    e = X.eq(x, y)
    return ret(e if m[1] == 'eq' else Not(e), st)


@rule(r'<(\w+) as PartialOrd>::(lt|le|gt|ge)')
def derived_cmp(X, m, a, st, dty):
    outs = []
    for r, s in X.invoke(f'<{m[1]} as PartialOrd>::partial_cmp', a, st, 'std::option::Option<std::cmp::Ordering>'):
        c, o = opt(X, r)
        d = X.discr(o)
        outs.append((And(c, {'lt': d == 255, 'le': Or(d == 255, d == 0), 'gt': d == 1, 'ge': Or(d == 1, d == 0)}[m[2]]), s))
    return outs


TOL = Q(34526698, 100000000000)


@rule(r'<f32 as AlmostEqual>::almost_equals', r'almost::equal')
def almost_eq(X, m, a, st, dty):
    x, y = num(X, st, a[0]), num(X, st, a[1])
    return ret(aeq(x, y), st)


def zabs(x): return If(x >= 0, x, -x)


def aeq(x, y):
    ax, ay = zabs(x), zabs(y)
    sc = If(ax > ay, ax, ay)
    mp = Q(1, 2 ** 126)
    return zabs(x - y) < TOL * If(sc > mp, sc, mp)


@rule(r'<f32 as AlmostEqual>::almost_zero', r'almost::zero')
def almost_zero(X, m, a, st, dty): return ret(zabs(num(X, st, a[0])) < TOL, st)


@rule(r'\[.*\]::windows')
def seq_windows(X, m, a, st, dty):
    v = D(X, st, a[0]); k = simplify(a[1])
    if not is_int_value(k): return None
    k = k.as_long()
    return ret(It('it', n=X.length(v) - (k - 1), get=lambda i: Agg('array', [X.elem(v, simplify(i + d)) for d in range(k)]), keep=None, pos=IntVal(0)), st)


@rule(r'RangeInclusive::new')
def rangeincl(X, m, a, st, dty): return ret(Agg('RangeInclusive', [a[0], a[1]]), st)


@rule(r'RangeInclusive::(start|end)')
def rangese(X, m, a, st, dty):
    v = D(X, st, a[0]); return ret(v.fields[0 if m[1] == 'start' else 1] if isinstance(v, Agg) else X.field(v, 0 if m[1] == 'start' else 1, range_ty(X, v)), st)


def range_ty(X, v): return split_top(re.match(r'^[\w:]*<(.*)>$', X.strip(v.ty))[1])[0]


@rule(r'RangeInclusive::contains', r'<RangeInclusive<.*> as RangeBounds<.*>>::contains')
def rangec(X, m, a, st, dty):
    v, x = D(X, st, a[0]), num(X, st, a[1])
    lo, hi = (v.fields[0], v.fields[1]) if isinstance(v, Agg) else (X.field(v, 0, X.ty_of(x)), X.field(v, 1, X.ty_of(x)))
    return ret(And(lo <= x, x <= hi), st)


@rule(r'Range::contains')
def rangec2(X, m, a, st, dty):
    v, x = D(X, st, a[0]), num(X, st, a[1]); return ret(And(v.fields[0] <= x, x < v.fields[1]), st)


# ------------------------------------------------------------------ Option / Result
def opt(X, o, okvar=1):
    """(is Some/Ok, payload)"""
    if isinstance(o, Ite):
        c1, v1 = opt(X, o.a); c2, v2 = opt(X, o.b)
        return If(o.c, c1, c2), ite(o.c, v1, v2)
    if isinstance(o, Agg):
        if o.variant and o.variant[1] in ('Some', 'Ok'): return BoolVal(True), o.fields[0]
        return BoolVal(False), UNDEF
    if isinstance(o, Obj):
        t = X.strip(o.ty)
        m = re.match(r'^(?:[\w:]*::)?(Option|Result)<(.*)>$', t)
        if not m: raise Unsupported(f'option of type {t}')
        pt = split_top(m[2])[0]
        if m[1] == 'Option': return X.discr(o) == 1, X.field(o, 0, pt, 'Some')
        return X.discr(o) == 0, X.field(o, 0, pt, 'Ok')
    raise Unsupported(f'option {o!r}')


@rule(r'(?:Option|Result)::(is_some|is_none|is_ok|is_err)')
def opt_is(X, m, a, st, dty):
    c, _ = opt(X, D(X, st, a[0])); return ret(c if m[1] in ('is_some', 'is_ok') else Not(c), st)


@rule(r'(?:Option|Result)::(unwrap|expect|unwrap_unchecked)')
def opt_unwrap(X, m, a, st, dty):
    c, v = opt(X, D(X, st, a[0]) if not isinstance(a[0], (Agg, Obj, Ite)) else a[0])
    c = simplify(c)
    if X.check_overflow and len(X.cur) == 1: X.obl('unwrap of a Some/Ok value', st, c)
    if is_false(c): return []
    return ret(v, st if is_true(c) else st.assume(c))


@rule(r'(?:Option|Result)::unwrap_or')
def opt_unwrap_or(X, m, a, st, dty):
    c, v = opt(X, a[0]); return ret(ite(simplify(c), v, a[1]), st)


@rule(r'Option::(?:ok_or|ok_or_else)')
def opt_ok_or(X, m, a, st, dty):
    c, v = opt(X, a[0]); return ret(ite(simplify(c), Agg('Result', [v], (0, 'Ok')), Agg('Result', [UNDEF], (1, 'Err'))), st)


@rule(r'<Result<.*> as Try>::branch', r'<Option<.*> as Try>::branch')
def try_branch(X, m, a, st, dty):
    c, v = opt(X, a[0]); c = simplify(c); res = 'Result' if m[0].startswith('<Result') else 'Option'; out = []
    if not is_false(c): out.append((Agg('ControlFlow', [v], (0, 'Continue')), st if is_true(c) else st.assume(c)))
    if not is_true(c): out.append((Agg('ControlFlow', [NONE if res == 'Option' else a[0]], (1, 'Break')), st if is_false(c) else st.assume(Not(c))))
    return out


@rule(r'<(?:Result|Option)<.*> as FromResidual<.*>>::from_residual')
def try_residual(X, m, a, st, dty):
    if m[0].startswith('<Option'): return ret(NONE, st)
    return ret(Agg('Result', [UNDEF], (1, 'Err')), st)


@rule(r'Result::unwrap_or_else')
def res_uoe(X, m, a, st, dty):
    c, v = opt(X, a[0]); c = simplify(c); out = []
    if not is_false(c): out.append((v, st if is_true(c) else st.assume(c)))
    if not is_true(c): out += X.closure(a[1], [UNDEF], st if is_false(c) else st.assume(Not(c)))
    return X.join(out)


@rule(r'Option::map')
def opt_map(X, m, a, st, dty):
    c, v = opt(X, a[0]); c = simplify(c)
    if is_false(c): return ret(NONE, st)
    s = st if is_true(c) else st.assume(c)
    out = [(some(r), s2) for r, s2 in X.closure(a[1], [v], s)]
    if not is_true(c): out.append((NONE, st.assume(Not(c))))
    return X.join(out)


@rule(r'Option::map_or')
def opt_map_or(X, m, a, st, dty):
    c, v = opt(X, a[0]); c = simplify(c)
    if is_false(c): return ret(a[1], st)
    s = st if is_true(c) else st.assume(c)
    out = X.closure(a[2], [v], s)
    if not is_true(c): out = out + [(a[1], st.assume(Not(c)))]
    return X.join(out)


@rule(r'Option::(?:unwrap_or_else|map_or_else)')
def opt_uoe(X, m, a, st, dty): return None


@rule(r'Option::and_then')
def opt_and_then(X, m, a, st, dty):
    c, v = opt(X, a[0]); c = simplify(c)
    if is_false(c): return ret(NONE, st)
    out = X.closure(a[1], [v], st if is_true(c) else st.assume(c))
    if not is_true(c): out = out + [(NONE, st.assume(Not(c)))]
    return X.join(out)


@rule(r'Weak::upgrade')
def weak_upgrade(X, m, a, st, dty):
    alive = X.fresh(BoolSort(), 'alive')
    return ret(ite(alive, some(D(X, st, a[0])), NONE), st)


@rule(r'Option::filter')
def opt_filter(X, m, a, st, dty):
    c, v = opt(X, a[0]); c = simplify(c)
    if is_false(c): return ret(NONE, st)
    out = []
    for r, s in X.closure(a[1], [v], st if is_true(c) else st.assume(c)): out.append((ite(simplify(r), some(v), NONE), s))
    if not is_true(c): out.append((NONE, st.assume(Not(c))))
    return X.join(out)


@rule(r'Option::flatten')
def opt_flatten(X, m, a, st, dty):
    c, v = opt(X, a[0])
    if isinstance(v, Undef): return ret(NONE, st)
    return ret(ite(simplify(c), v, NONE), st)


@rule(r'Option::as_mut')
def opt_as_mut(X, m, a, st, dty):
    r = a[0]
    if not isinstance(r, Ref): return None
    v = X.read(st, r.cell, r.path)
    c, pv = opt(X, v)
    t = X.ty_of(pv) if not isinstance(pv, (Undef, It, Ref)) else '?'
    ref = Ref(r.cell, tuple(r.path) + (('f', 0, t, 'Some'),))
    return ret(ite(simplify(c), some(ref), NONE), st)


@rule(r'Option::take')
def opt_take(X, m, a, st, dty):
    r = a[0]; v = X.read(st, r.cell, r.path); s = st.copy(); X.write(s, r.cell, r.path, NONE); return ret(v, s)


@rule(r'mem::swap')
def memswap(X, m, a, st, dty):
    x, y = a; vx, vy = X.read(st, x.cell, x.path), X.read(st, y.cell, y.path)
    s = st.copy(); X.write(s, x.cell, x.path, vy); X.write(s, y.cell, y.path, vx); return ret(UNIT, s)


@rule(r'mem::(?:replace)')
def memreplace(X, m, a, st, dty):
    x = a[0]; v = X.read(st, x.cell, x.path); s = st.copy(); X.write(s, x.cell, x.path, a[1]); return ret(v, s)


# ------------------------------------------------------------------ panics and logging
@rule(r'panic', r'(?:panicking|rt|result|option)::(?:panic\w*|unreachable\w*|assert_failed\w*|unwrap_failed|expect_failed|begin_panic)', r'core::panicking::.*', r'option::.*_failed')
def panics(X, m, a, st, dty):
    if X.check_overflow and len(X.cur) == 1: X.obl('no explicit panic', st, BoolVal(False))
    return []


@rule(r'<Level as PartialOrd<LevelFilter>>::le')
def loglevel(X, m, a, st, dty): return ret(BoolVal(False), st)      # logging has no effect on results


@rule(r'(?:log::)?max_level')
def maxlevel(X, m, a, st, dty): return ret(Agg('LevelFilter', []), st)


@rule(r'ptr::eq')
def ptreq(X, m, a, st, dty):
    def go(x, y):
        if isinstance(x, Ite): return If(x.c, go(x.a, y), go(x.b, y))
        if isinstance(y, Ite): return If(y.c, go(x, y.a), go(x, y.b))
        if isinstance(x, Obj) and isinstance(y, Obj) and not x.upd and not y.upd:
            if x.term.eq(y.term): return BoolVal(True)         # the same place of the same snapshot
            b = X.fresh(BoolSort(), 'ptreq'); X.fact(Implies(b, X.eq(x, y))); return b
        return X.fresh(BoolSort(), 'ptreq')
    return ret(simplify(go(D(X, st, a[0]), D(X, st, a[1]))), st)


# ------------------------------------------------------------------ sequences
def rng(i, n): return And(i >= 0, i < n)


def it_of(X, st, v, mut=False):
    """iterator over a value that is iterable"""
    if isinstance(v, It): return v
    if isinstance(v, Ref):
        w = X.read(st, v.cell, v.path)
        if isinstance(w, It): return w
        if mut:
            r = v
            return It('it', n=X.length(w), get=lambda i: Ref(r.cell, tuple(r.path) + (('i', i),)), keep=None, pos=IntVal(0))
        return it_of(X, st, w)
    if isinstance(v, Agg) and v.ty in ('Range',):
        lo, hi = v.fields
        return It('it', n=If(hi >= lo, hi - lo, IntVal(0)), get=lambda i: lo + i, keep=None, pos=IntVal(0))
    if isinstance(v, Agg) and v.ty == 'RangeInclusive':
        lo, hi = v.fields
        return It('it', n=If(hi >= lo, hi - lo + 1, IntVal(0)), get=lambda i: lo + i, keep=None, pos=IntVal(0))
    if isinstance(v, (Agg, Obj, Ite)):
        if isinstance(v, Obj) and base_ty(X.strip(v.ty)) in ('SlotMap',): return slot_it(X, v, 'values')
        return It('it', n=X.length(v), get=lambda i: X.elem(v, i), keep=None, pos=IntVal(0))
    raise Unsupported(f'iterate over {v!r}')


@rule(r'\[.*\]::iter', r'<\[.*\] as IntoIterator>::into_iter', r'<Vec<.*> as IntoIterator>::into_iter', r'Vec::iter', r'<.*(?:Iter|IterMut|Map|Filter|Range|Enumerate|Chain|Zip|Skip|Take|Rev|IntoIter|Cloned|Copied|Values|RangeInclusive|StepBy|Flatten|TupleWindows|Drain|Filter|FilterMap|Peekable)<.*> as IntoIterator>::into_iter', r'IndexSet::iter', r'VecDeque::iter', r'<I as IntoIterator>::into_iter', r'<impl.*IntoIterator.* as IntoIterator>::into_iter', r'<impl.* as IntoIterator>::into_iter', r'<<?impl.*IntoIter as IntoIterator>::into_iter')
def seq_iter(X, m, a, st, dty):
    return ret(it_of(X, st, a[0], mut=isinstance(a[0], Ref) and bool(dty and 'IterMut' in dty)), st)


@rule(r'\[.*\]::iter_mut', r'Vec::iter_mut')
def seq_iter_mut(X, m, a, st, dty): return ret(it_of(X, st, a[0], mut=True), st)


@rule(r'(?:Vec|VecDeque|IndexSet|HashSet|\[.*\])::len', r'<.* as ExactSizeIterator>::len')
def seq_len(X, m, a, st, dty):
    v = D(X, st, a[0])
    if isinstance(v, It): return ret(v.n - v.pos, st)
    return ret(X.length(v), st)


@rule(r'(?:Vec|VecDeque|IndexSet|HashSet|\[.*\])::is_empty')
def seq_empty(X, m, a, st, dty): return ret(X.length(D(X, st, a[0])) == 0, st)


@rule(r'<(?:Vec|VecDeque|\[).*> as Index<usize>>::index', r'<\[.*\] as Index<usize>>::index')
def seq_index(X, m, a, st, dty):
    v, i = D(X, st, a[0]), a[1]
    g = simplify(rng(i, X.length(v)))
    if X.check_overflow and len(X.cur) == 1: X.obl('index in bounds', st, g)
    return ret(X.elem(v, i), st if is_true(g) else st.assume(g))


@rule(r'<(?:Vec|VecDeque|\[).*> as IndexMut<usize>>::index_mut')
def seq_index_mut(X, m, a, st, dty):
    r, i = a[0], a[1]
    if not isinstance(r, Ref): raise Unsupported('index_mut on a non-reference')
    v = X.read(st, r.cell, r.path)
    g = simplify(rng(i, X.length(v)))
    return ret(Ref(r.cell, tuple(r.path) + (('i', i),)), st if is_true(g) else st.assume(g))


@rule(r'<(?:Vec|\[).*> as Index<(Range|RangeTo|RangeFrom|RangeFull)(?:<usize>)?>>::index')
def seq_slice(X, m, a, st, dty):
    v, r = D(X, st, a[0]), a[1]
    n = X.length(v)
    lo, hi = IntVal(0), n
    if m[1] == 'Range': lo, hi = r.fields
    elif m[1] == 'RangeTo': hi = r.fields[0]
    elif m[1] == 'RangeFrom': lo = r.fields[0]
    o = Obj(X.fresh(Term, 'slice'), f'[{X.elem_ty(X.ty_of(v))}]')
    j = Int(X.name('?j'))
    X.fact(Implies(And(lo >= 0, lo <= hi, hi <= n), X.length(o) == hi - lo))
    X.fact(Implies(And(j >= 0, j < hi - lo), X.eq(X.elem(o, j), X.elem(v, lo + j))))
    return ret(o, st.assume(And(lo <= hi, hi <= n)))


@rule(r'(?:Vec|VecDeque|\[.*\])::get')
def seq_get(X, m, a, st, dty):
    v, i = D(X, st, a[0]), a[1]
    if not is_scalar(i): return None
    return ret(ite(simplify(rng(i, X.length(v))), some(X.elem(v, i)), NONE), st)


@rule(r'(?:Vec|\[.*\])::get_mut')
def seq_get_mut(X, m, a, st, dty):
    r, i = a[0], a[1]; v = X.read(st, r.cell, r.path)
    if not is_scalar(i): return None
    return ret(ite(simplify(rng(i, X.length(v))), some(Ref(r.cell, tuple(r.path) + (('i', i),))), NONE), st)


@rule(r'(?:Vec|\[.*\])::(first|last)')
def seq_first(X, m, a, st, dty):
    v = D(X, st, a[0]); n = X.length(v)
    return ret(ite(simplify(n > 0), some(X.elem(v, IntVal(0) if m[1] == 'first' else n - 1)), NONE), st)


@rule(r'Vec::(?:new|with_capacity)')
def vec_new(X, m, a, st, dty):
    if dty is None: return None
    o = Obj(X.fresh(Term, 'vec'), dty); X.fact(X.length(o) == 0)
    return ret(o, st)


@rule(r'Box::new_uninit')
def new_uninit(X, m, a, st, dty):
    cell = ('heap', X.name('box')); s = st.copy(); s.store[cell] = UNDEF
    return ret(Ref(cell, ()), s)


@rule(r'boxed::box_assume_init_into_vec_unsafe')
def vec_literal(X, m, a, st, dty):
    v = D(X, st, a[0]).fields[1].fields[0]
    o = Obj(X.fresh(Term, 'vec'), dty)
    X.fact(X.length(o) == len(v.fields))
    for k, x in enumerate(v.fields): X.fact(X.eq(X.elem(o, IntVal(k)), x))
    return ret(o, st)


@rule(r'vec::from_elem')
def from_elem(X, m, a, st, dty):
    o = Obj(X.fresh(Term, 'vec'), dty); j = Int(X.name('?j'))
    X.fact(X.length(o) == a[1]); X.fact(Implies(rng(j, a[1]), X.eq(X.elem(o, j), a[0])))
    return ret(o, st)


def vec_upd(X, st, r, f):
    v = X.read(st, r.cell, r.path)
    if not isinstance(v, (Obj, Ite)): raise Unsupported(f'vector update of {v!r}')
    o = Obj(X.fresh(Term, 'vec'), X.ty_of(v))
    out = f(v, o)
    s = st.copy(); X.write(s, r.cell, r.path, o)
    return out, s


@rule(r'Vec::push', r'VecDeque::push_back')
def vec_push(X, m, a, st, dty):
    x = a[1]
    v = X.read(st, a[0].cell, a[0].path)
    if isinstance(v, Agg) and v.ty == 'array':
        s = st.copy(); X.write(s, a[0].cell, a[0].path, Agg('array', v.fields + [x])); return ret(UNIT, s)

    def f(v, o):
        n = X.length(v); j = Int(X.name('?j'))
        X.fact(X.length(o) == n + 1); X.fact(X.eq(X.elem(o, n), x)); X.fact(Implies(rng(j, n), X.eq(X.elem(o, j), X.elem(v, j))))
        return UNIT
    _, s = vec_upd(X, st, a[0], f)
    return ret(UNIT, s)


@rule(r'Vec::insert')
def vec_insert(X, m, a, st, dty):
    i, x = a[1], a[2]
    g = [None]

    def f(v, o):
        n = X.length(v); j = Int(X.name('?j')); g[0] = And(i >= 0, i <= n)
        X.fact(X.length(o) == n + 1); X.fact(X.eq(X.elem(o, i), x))
        X.fact(Implies(And(j >= 0, j < i), X.eq(X.elem(o, j), X.elem(v, j))))
        X.fact(Implies(And(j >= i, j < n), X.eq(X.elem(o, j + 1), X.elem(v, j))))
        X.fact(Implies(And(j > i, j <= n), X.eq(X.elem(o, j), X.elem(v, j - 1))))
        return UNIT
    _, s = vec_upd(X, st, a[0], f)
    if X.check_overflow and len(X.cur) == 1: X.obl('insert position in bounds', st, g[0])
    return ret(UNIT, s.assume(g[0]))


@rule(r'Vec::remove')
def vec_remove(X, m, a, st, dty):
    i = a[1]; g = [None]

    def f(v, o):
        n = X.length(v); j = Int(X.name('?j')); g[0] = rng(i, n)
        X.fact(Implies(g[0], X.length(o) == n - 1))
        X.fact(Implies(And(j >= 0, j < i), X.eq(X.elem(o, j), X.elem(v, j))))
        X.fact(Implies(And(j >= i, j < n - 1), X.eq(X.elem(o, j), X.elem(v, j + 1))))
        X.fact(Implies(And(j > i, j < n), X.eq(X.elem(o, j - 1), X.elem(v, j))))
        return X.elem(v, i)
    r, s = vec_upd(X, st, a[0], f)
    if X.check_overflow and len(X.cur) == 1: X.obl('remove position in bounds', st, g[0])
    return ret(r, s.assume(g[0]))


@rule(r'Vec::swap_remove')
def vec_swap_remove(X, m, a, st, dty):
    i = a[1]; g = [None]

    def f(v, o):
        n = X.length(v); j = Int(X.name('?j')); g[0] = rng(i, n)
        X.fact(Implies(g[0], X.length(o) == n - 1))
        X.fact(Implies(And(j >= 0, j < n - 1, j != i), X.eq(X.elem(o, j), X.elem(v, j))))
        X.fact(Implies(i < n - 1, X.eq(X.elem(o, i), X.elem(v, n - 1))))
        return X.elem(v, i)
    r, s = vec_upd(X, st, a[0], f)
    return ret(r, s.assume(g[0]))


@rule(r'(?:Vec|VecDeque|IndexSet)::clear')
def vec_clear(X, m, a, st, dty):
    _, s = vec_upd(X, st, a[0], lambda v, o: X.fact(X.length(o) == 0)); return ret(UNIT, s)


@rule(r'<VecDeque<.*> as From<.*>>::from')
def vd_from(X, m, a, st, dty):
    v = a[0]
    if not dty: return None
    o = Obj(X.fresh(Term, 'deque'), dty); X.fact(X.length(o) == X.length(v))
    if isinstance(v, Agg):
        for k, x in enumerate(v.fields): X.fact(X.eq(X.elem(o, IntVal(k)), x))
    else:
        j = Int(X.name('?j')); X.fact(ForAll([j], Implies(rng(j, X.length(v)), X.eq(X.elem(o, j), X.elem(v, j)))))
    return ret(o, st)


@rule(r'<.* as Fn(?:Mut|Once)?<.*>>::call(?:_mut|_once)?')
def fn_call(X, m, a, st, dty): return X.closure(a[0], list(a[1].fields), st)


@rule(r'VecDeque::(pop_front|pop_back)')
def vd_pop(X, m, a, st, dty):
    g = [None]; front = m[1] == 'pop_front'

    def f(v, o):
        n = X.length(v); j = Int(X.name('?j')); g[0] = n > 0; d = 1 if front else 0
        X.fact(X.length(o) == If(n > 0, n - 1, 0)); X.fact(Implies(rng(j, n - 1), X.eq(X.elem(o, j), X.elem(v, j + d))))
        return X.elem(v, IntVal(0) if front else n - 1)
    r, s = vec_upd(X, st, a[0], f)
    return ret(ite(g[0], some(r), NONE), s)


@rule(r'<(?:Vec|VecDeque)<.*> as Extend<.*>>::extend', r'Vec::extend_from_slice')
def vec_extend(X, m, a, st, dty):
    it = it_of(X, st, D(X, st, a[1]) if isinstance(a[1], Ref) else a[1])
    if it.keep: raise Unsupported('extend by a filtered iterator')

    def f(v, o):
        n, c = X.length(v), it.n - it.pos; j = Int(X.name('?j'))
        X.fact(X.length(o) == n + c); X.fact(Implies(rng(j, n), X.eq(X.elem(o, j), X.elem(v, j))))
        i, inr, w = with_binder(X, it, st, lambda v: v)
        X.fact(ForAll([i], Implies(inr, X.eq(X.elem(o, n + i - it.pos), w))))
        X.binders.append(j)
        try: w2 = it.get(j - n + it.pos)
        finally: X.binders.pop()
        X.fact(ForAll([j], Implies(And(j >= n, j < n + c), X.eq(X.elem(o, j), w2))))
        return UNIT
    _, s = vec_upd(X, st, a[0], f)
    return ret(UNIT, s)


@rule(r'Vec::drain')
def vec_drain(X, m, a, st, dty):
    r = D(X, st, a[1]) if isinstance(a[1], Ref) else a[1]
    out = [None]

    def f(v, o):
        n = X.length(v); j = Int(X.name('?j'))
        lo, hi = IntVal(0), n
        if isinstance(r, Agg) and r.ty == 'Range': lo, hi = r.fields
        elif not (isinstance(r, (Agg, FnItem)) and 'RangeFull' in repr(r)) and not is_full(r): raise Unsupported(f'drain {r!r}')
        out[0] = And(lo >= 0, lo <= hi, hi <= n)
        X.fact(Implies(out[0], X.length(o) == n - (hi - lo)))
        X.fact(Implies(And(j >= 0, j < lo), X.eq(X.elem(o, j), X.elem(v, j))))
        X.fact(Implies(And(j >= lo, j < n - (hi - lo)), X.eq(X.elem(o, j), X.elem(v, j + (hi - lo)))))
        X.fact(Implies(And(j >= hi, j < n), X.eq(X.elem(o, j - (hi - lo)), X.elem(v, j))))
        return It('it', n=hi - lo, get=lambda i: X.elem(v, lo + i), keep=None, pos=IntVal(0))
    it, s = vec_upd(X, st, a[0], f)
    return ret(it, s.assume(out[0]))


def is_full(r): return isinstance(r, Agg) and base_ty(r.ty) == 'RangeFull'


@rule(r'IndexSet::(swap_remove|shift_remove)', r'HashSet::(remove)')
def set_remove(X, m, a, st, dty):
    x = D(X, st, a[1]); b = X.fresh(BoolSort(), 'removed')

    def f(v, o):
        n, k = X.length(v), X.length(o); i, j, l = Int(X.name('?i')), Int(X.name('?j')), Int(X.name('?l'))
        X.fact(b == Exists([i], And(rng(i, n), X.eq(X.elem(v, i), x))))
        X.fact(k == n - If(b, 1, 0))
        X.fact(ForAll([i], Implies(And(rng(i, n), Not(X.eq(X.elem(v, i), x))), Exists([j], And(rng(j, k), X.eq(X.elem(o, j), X.elem(v, i)))))))
        X.fact(ForAll([j], Implies(rng(j, k), And(Not(X.eq(X.elem(o, j), x)), Exists([i], And(rng(i, n), X.eq(X.elem(o, j), X.elem(v, i))))))))
        X.fact(ForAll([j, l], Implies(And(rng(j, k), rng(l, k), j != l), Not(X.eq(X.elem(o, j), X.elem(o, l))))))
        return b
    r, s = vec_upd(X, st, a[0], f)
    return ret(r, s)


@rule(r'Vec::pop')
def vec_pop(X, m, a, st, dty):
    out = [None]

    def f(v, o):
        n = X.length(v); j = Int(X.name('?j'))
        X.fact(X.length(o) == If(n > 0, n - 1, 0)); X.fact(Implies(rng(j, n - 1), X.eq(X.elem(o, j), X.elem(v, j))))
        return ite(n > 0, some(X.elem(v, n - 1)), NONE)
    r, s = vec_upd(X, st, a[0], f)
    return ret(r, s)


@rule(r'\[.*\]::swap')
def seq_swap(X, m, a, st, dty):
    r, i, j = a
    x, y = X.read(st, r.cell, list(r.path) + [('i', i)]), X.read(st, r.cell, list(r.path) + [('i', j)])
    s = st.copy(); X.write(s, r.cell, list(r.path) + [('i', i)], y); X.write(s, r.cell, list(r.path) + [('i', j)], x)
    return ret(UNIT, s)


@rule(r'\[.*\]::contains')
def seq_contains(X, m, a, st, dty):
    v, x = D(X, st, a[0]), D(X, st, a[1])
    n = simplify(X.length(v))
    if is_int_value(n): return ret(Or(*[X.eq(X.elem(v, k), x) for k in range(n.as_long())]) if n.as_long() else BoolVal(False), st)
    i = Int(X.name('?i'))
    return ret(qexists(X, i, And(rng(i, n), X.eq(X.elem(v, i), x))), st)


def qexists(X, i, body):
    b = X.fresh(BoolSort(), 'ex')
    X.fact(b == Exists([i], body))
    return b


@rule(r'\[.*;\d+\]::map')
def arr_map(X, m, a, st, dty):
    v = D(X, st, a[0]); cur = [([], st)]
    for x in v.fields:
        nxt = []
        for vals, s in cur:
            for r, s2 in X.closure(a[1], [x], s): nxt.append((vals + [r], s2))
        cur = nxt
    return X.join([(Agg('array', vals), s) for vals, s in cur])


# ------------------------------------------------------------------ iterators
def compose(it, **kw): return it.rep(**kw)


def memo1(f):
    c = {}

    def g(i):
        k = i.get_id()
        if k not in c: c[k] = (i, f(i))
        return c[k][1]
    return g


def pure(X, clo, st):
    """closure as a python function on symbolic values; guards become facts"""
    def f(*vals):
        v, g = X.closure1(clo, list(vals), st)
        if not is_true(g): X.guards.append(g)
        return v
    return f


def with_binder(X, it, st, f, stop=None):
    """evaluate f(element at a bound index) -> (bound var, in-range condition, value). The closures are assumed not to panic only on elements they are called on:
    in range, kept, and - for a search that stops where stop(value) - not behind a hit"""
    i = Int(X.name('?i')); inr = And(i >= it.pos, i < it.n)
    X.binders.append(i)
    old, X.guards = X.guards, []
    od, X.domain = X.domain, X.domain + [inr]
    try:
        keep = it.keep(i) if it.keep else BoolVal(True)
        g0, X.guards = X.guards, []
        if it.keep: X.domain = X.domain + [keep]
        r = f(it.get(i))
        g1 = X.guards
    finally:
        X.binders.pop(); X.guards = old; X.domain = od
    dom = And(inr, keep) if it.keep else inr
    base = list(X.beyond(st.pc)) + list(od); X.called = None
    if stop is not None and (g0 or g1):
        X.called = lambda last: X.fact(ForAll([i], Implies(conj_(base + [last]), And(Implies(inr, conj_(g0)), Implies(dom, conj_(g1))))))
    else:
        for g in g0: X.fact(Implies(conj_(base + [inr]), g))
        for g in g1: X.fact(Implies(conj_(base + [dom]), g))
    return i, dom, r


def conj_(fs): return E().conj(fs)


def conc(X, it):
    n, p = simplify(it.n), simplify(it.pos)
    if is_int_value(n) and is_int_value(p) and n.as_long() - p.as_long() <= 64: return range(p.as_long(), n.as_long())
    return None


@rule(r'<.* as Iterator>::map')
def it_map(X, m, a, st, dty):
    it = it_of(X, st, a[0]); g = it.get; f = a[1]
    def get(i): return pure(X, f, st)(g(i))
    g2 = memo1(get)
    return ret(it.rep(get=g2, src=(it, f, g2), parts=it.parts and [it_map(X, m, [p, f], st, dty)[0][0] for p in it.parts]), st)


@rule(r'<.* as Iterator>::(cloned|copied|fuse|by_ref|peekable)')
def it_id(X, m, a, st, dty): return ret(it_of(X, st, a[0]) if m[1] != 'by_ref' else a[0], st)


@rule(r'<.* as Iterator>::filter')
def it_filter(X, m, a, st, dty):
    it = it_of(X, st, a[0]); f = a[1]; k0, g = it.keep, it.get
    def keep(i):
        c = pure(X, f, st)(g(i))
        return And(k0(i), c) if k0 else c
    return ret(it.rep(keep=memo1(keep), parts=it.parts and [it_filter(X, m, [p, f], st, dty)[0][0] for p in it.parts]), st)


@rule(r'<.* as Iterator>::filter_map')
def it_filter_map(X, m, a, st, dty):
    it = it_of(X, st, a[0]); f = a[1]; k0, g = it.keep, it.get
    r = memo1(lambda i: pure(X, f, st)(g(i)))
    def keep(i):
        c, _ = opt(X, r(i)); return And(k0(i), c) if k0 else c
    return ret(it.rep(keep=memo1(keep), get=lambda i: opt(X, r(i))[1]), st)


@rule(r'<.* as Iterator>::enumerate')
def it_enum(X, m, a, st, dty):
    it = it_of(X, st, a[0]); g = it.get
    if it.keep: raise Unsupported('enumerate after filter')
    p0 = it.pos
    return ret(it.rep(get=lambda i: Agg('tuple', [i - p0, g(i)])), st)


@rule(r'<.* as Iterator>::zip')
def it_zip(X, m, a, st, dty):
    x, y = it_of(X, st, a[0]), it_of(X, st, a[1])
    if x.keep or y.keep: raise Unsupported('zip after filter')
    g, h = x.get, y.get; px, py = x.pos, y.pos
    nx, ny = x.n - px, y.n - py
    return ret(It('it', n=If(nx <= ny, nx, ny), get=lambda i: Agg('tuple', [g(i + px), h(i + py)]), keep=None, pos=IntVal(0)), st)


@rule(r'<.* as Iterator>::(skip|take)')
def it_skip(X, m, a, st, dty):
    it = it_of(X, st, a[0]); k = a[1]
    if it.keep: raise Unsupported('skip after filter')
    if m[1] == 'skip': return ret(it.rep(pos=If(it.pos + k <= it.n, it.pos + k, it.n)), st)
    return ret(it.rep(n=If(it.pos + k <= it.n, it.pos + k, it.n)), st)


@rule(r'<.* as Iterator>::rev')
def it_rev(X, m, a, st, dty):
    it = it_of(X, st, a[0]); g, n, p = it.get, it.n, it.pos
    k = it.keep
    return ret(It('it', n=n - p, get=lambda i: g(simplify(n - 1 - i)), keep=(lambda i: k(simplify(n - 1 - i))) if k else None, pos=IntVal(0)), st)


@rule(r'<.* as Iterator>::chain')
def it_chain(X, m, a, st, dty):
    x, y = it_of(X, st, a[0]), it_of(X, st, a[1])
    nx, ny = x.n - x.pos, y.n - y.pos; g, h, px, py = x.get, y.get, x.pos, y.pos
    kx, ky = x.keep, y.keep
    keep = None
    if kx or ky: keep = lambda i: If(i < nx, kx(i + px) if kx else BoolVal(True), ky(i - nx + py) if ky else BoolVal(True))
    return ret(It('it', n=nx + ny, get=lambda i: ite(simplify(i < nx), g(i + px), h(i - nx + py)), keep=keep, pos=IntVal(0), parts=(x.parts or [x]) + (y.parts or [y])), st)


@rule(r'<.* as Iterator>::(any|all)')
def it_any(X, m, a, st, dty):
    r0 = a[0]
    it = it_of(X, st, r0); f = a[1]
    c = conc(X, it)
    is_any = m[1] == 'any'
    if c is not None:
        # sequential, closures may branch
        outs, cur = [], [st]
        for k in c:
            nxt = []
            for s in cur:
                kp = it.keep(IntVal(k)) if it.keep else BoolVal(True)
                if it.keep:
                    kp = simplify(kp)
                    if not is_true(kp): nxt.append(s.assume(Not(kp)))
                    if is_false(kp): continue
                for r, s2 in X.closure(f, [it.get(IntVal(k))], s if is_true(kp) else s.assume(kp)):
                    stop = simplify(r if is_any else Not(r))
                    if not is_false(stop): outs.append((BoolVal(is_any), s2 if is_true(stop) else s2.assume(stop)))
                    if not is_true(stop): nxt.append(s2 if is_false(stop) else s2.assume(Not(stop)))
            if nxt and not X.split: nxt = [E().merge(nxt, X)]
            cur = nxt
        return X.join(outs + [(BoolVal(not is_any), s) for s in cur])
    if it.parts:                               # over a chain: part by part
        cur, outs = st, []
        for p in it.parts:
            ((b, s2),) = it_any(X, m, [p, f], cur, dty)
            outs.append((BoolVal(is_any), s2.assume(b if is_any else Not(b)))); cur = s2.assume(Not(b) if is_any else b)
        return X.join(outs + [(BoolVal(not is_any), cur)])
    i, inr, r = with_binder(X, it, st, pure(X, f, st), stop=(lambda r: r) if is_any else Not)
    b = X.fresh(BoolSort(), m[1]); called = X.called
    X.fact(b == (Exists([i], And(inr, r)) if is_any else ForAll([i], Implies(inr, r))))
    if called:                                         # the closure ran, without panic, up to the first hit
        k = X.fresh(IntSort(), 'first'); hit = And(inr, r if is_any else Not(r)); found = b if is_any else Not(b)
        X.fact(Implies(found, And(substitute(hit, (i, k)), ForAll([i], Implies(i < k, Not(hit))))))
        called(Implies(found, i <= k))
    return ret(b, st)


def first_where(X, it, st, pred):
    """(found, idx) of the first kept element satisfying pred"""
    i, inr, r = with_binder(X, it, st, pred, stop=lambda r: r)
    found, idx = X.fresh(BoolSort(), 'found'), X.fresh(IntSort(), 'idx')
    if X.called: X.called(Implies(found, i <= idx))
    hit = lambda e: substitute(And(inr, r), (i, e))
    X.fact(Implies(found, hit(idx)))
    X.fact(Implies(found, ForAll([i], Implies(i < idx, Not(And(inr, r))))))
    X.fact(Implies(Not(found), ForAll([i], Not(And(inr, r)))))
    return found, idx


@rule(r'<.* as Iterator>::(find|position)')
def it_find(X, m, a, st, dty):
    it = it_of(X, st, a[0]); f = a[1]
    c = conc(X, it)
    if c is not None and not it.keep:
        outs, cur = [], [st]
        for k in c:
            nxt = []
            for s in cur:
                v = it.get(IntVal(k))
                for r, s2 in X.closure(f, [v], s):
                    r = simplify(r)
                    val = some(v) if m[1] == 'find' else some(IntVal(k) - it.pos)
                    if not is_false(r): outs.append((val, s2 if is_true(r) else s2.assume(r)))
                    if not is_true(r): nxt.append(s2 if is_false(r) else s2.assume(Not(r)))
            if nxt and not X.split: nxt = [E().merge(nxt, X)]
            cur = nxt
        return X.join(outs + [(NONE, s) for s in cur])
    if m[1] == 'position' and it.keep: raise Unsupported('position after filter')
    def pred(v): return pure(X, f, st)(D(X, st, v))
    found, idx = first_where(X, it, st, pred)
    return ret(ite(found, some(it.get(idx) if m[1] == 'find' else idx - it.pos), NONE), st)


@rule(r'<.* as Iterator>::(min_by|max_by)', r'<.* as Iterator>::(min_by_key|max_by_key)', r'<.* as Iterator>::(min|max)')
def it_minby(X, m, a, st, dty):
    it = it_of(X, st, a[0])
    k = next(g for g in m.groups() if g)
    def cmp(x, y):
        if k in ('min_by', 'max_by'): return X.discr(pure(X, a[1], st)(x, y))
        if k.endswith('_key'):
            kx, ky = pure(X, a[1], st)(x), pure(X, a[1], st)(y)
        else: kx, ky = num(X, st, x), num(X, st, y)
        return order_val(X, kx, ky)
    c = conc(X, it)
    if c is not None and not it.keep:
        best = None
        for j in c:
            v = it.get(IntVal(j))
            if best is None: best = v
            elif k.startswith('min'): best = ite(simplify(cmp(best, v) == 1), v, best)     # the first of equal minima is kept
            else: best = ite(simplify(cmp(best, v) == 1), best, v)                            # the last of equal maxima is kept
        return ret(NONE if best is None else some(best), st)
    idx = X.fresh(IntSort(), 'idx'); found = X.fresh(BoolSort(), 'found')
    i, inr, _ = with_binder(X, it, st, lambda v: BoolVal(True))
    X.fact(Implies(found, substitute(inr, (i, idx)))); X.fact(Implies(Not(found), ForAll([i], Not(inr))))
    w = it.get(idx)
    i2, inr2, r = with_binder(X, it, st, lambda v: cmp(v, w))
    X.fact(Implies(found, ForAll([i2], Implies(inr2, (r != 255) if k.startswith('min') else (r != 1)))))
    return ret(ite(found, some(w), NONE), st)


@rule(r'<.* as Iterator>::fold')
def it_fold(X, m, a, st, dty):
    it = it_of(X, st, a[0]); c = conc(X, it)
    if c is None: return ret(*X.for_each(it, None, st, a[1], lambda s, acc, p: X.closure(a[2], [acc, it.get(p)], s)))
    cur = [(a[1], st)]
    for k in c:
        nxt = []
        for acc, s in cur:
            kp = simplify(it.keep(IntVal(k))) if it.keep else BoolVal(True)
            if not is_false(kp): nxt += X.closure(a[2], [acc, it.get(IntVal(k))], s if is_true(kp) else s.assume(kp))
            if not is_true(kp): nxt.append((acc, s.assume(Not(kp))))
        cur = X.join(nxt)
    return cur


@rule(r'<.* as Iterator>::for_each')
def it_foreach(X, m, a, st, dty):
    it = it_of(X, st, a[0]); c = conc(X, it)
    if c is None: return ret(UNIT, X.for_each(it, a[1], st))
    cur = [st]
    for k in c:
        nxt = []
        for s in cur:
            kp = simplify(it.keep(IntVal(k))) if it.keep else BoolVal(True)
            if not is_false(kp): nxt += [x for _, x in X.closure(a[1], [it.get(IntVal(k))], s if is_true(kp) else s.assume(kp))]
            if not is_true(kp): nxt.append(s.assume(Not(kp)))
        if nxt and not X.split: nxt = [E().merge(nxt, X)]
        cur = nxt
    return [(UNIT, s) for s in cur]


def in_range(v, t):
    bits = 64 if 'size' in t else int(t[1:])
    return And(v >= 0, v < 2 ** bits) if t[0] == 'u' else And(v >= -2 ** (bits - 1), v < 2 ** (bits - 1))


@rule(r'Instant::now')
def now(X, m, a, st, dty): return ret(Obj(X.fresh(Term, 'now'), 'Instant'), st)


@rule(r'<(?:usize|isize|u\d+|i\d+) as Ord>::(max|min)')
def ord_max(X, m, a, st, dty): return ret(If((a[0] >= a[1]) if m[1] == 'max' else (a[0] <= a[1]), a[0], a[1]), st)


@rule(r'<.* as Iterator>::sum')
def it_sum(X, m, a, st, dty):
    it = it_of(X, st, a[0]); c = conc(X, it)
    acc = RealVal(0) if dty in FLOATS else IntVal(0)
    if c is None:
        if dty not in FLOATS and dty not in INTS: return None
        def step(s, acc, p):
            v = acc + num(X, s, it.get(p))
            return [(v, s if dty in FLOATS else s.assume(in_range(v, dty)))]
        return ret(*X.for_each(it, None, st, acc, step))
    for k in c:
        kp = it.keep(IntVal(k)) if it.keep else BoolVal(True)
        v = num(X, st, it.get(IntVal(k)))
        acc = acc + (v if is_true(kp) else If(kp, v, 0))
    return ret(acc, st)


@rule(r'<.* as Iterator>::count')
def it_count(X, m, a, st, dty):
    it = it_of(X, st, a[0])
    if not it.keep: return ret(it.n - it.pos, st)
    return None


@rule(r'<.* as Iterator>::collect', r'<.* as Itertools>::collect_vec', r'<Vec<.*> as FromIterator<.*>>::from_iter')
def it_collect(X, m, a, st, dty):
    it = it_of(X, st, a[0])
    if dty and base_ty(dty) in ('IndexSet', 'HashSet'): return collect_set(X, it, st, dty)
    if it.keep: return collect_filtered(X, it, st, dty)
    c = conc(X, it)
    if c is not None and len(c) <= 16: return ret(Agg('array', [it.get(IntVal(k)) for k in c]), st)
    if not dty or base_ty(dty) not in ('Vec', 'VecDeque'): return None
    o = Obj(X.fresh(Term, 'vec'), dty)
    X.fact(X.length(o) == it.n - it.pos)
    try: i, inr, v = with_binder(X, it, st, lambda v: v)
    except Unsupported as e:
        if 'side effects' not in str(e) or getattr(it, 'src', None) is None or it.src[2] is not it.get: raise
        inner, f, _ = it.src
        def step(s, acc, p):
            out = []
            for v, s2 in X.closure(f, [inner.get(p)], s):
                n = X.length(acc); o = X.seq_like(dty); j = Int(X.name('?j'))
                X.fact(X.length(o) == n + 1); X.fact(X.eq(X.elem(o, n), v)); X.fact(Implies(rng(j, n), X.eq(X.elem(o, j), X.elem(acc, j))))
                out.append((o, s2))
            return out
        e = Obj(X.fresh(Term, 'vec'), dty); X.fact(X.length(e) == 0)
        return ret(*X.for_each(it, None, st, e, step))
    X.fact(ForAll([i], Implies(inr, X.eq(X.elem(o, i - it.pos), v))))
    return ret(o, st)


def collect_set(X, it, st, dty):
    """every element occurs, only those occur, none twice"""
    o = Obj(X.fresh(Term, 'set'), dty)
    src, pos = Function(X.name('src'), IntSort(), IntSort()), Function(X.name('dst'), IntSort(), IntSort())
    i, inr, v = with_binder(X, it, st, lambda v: v)
    j, k = Int(X.name('?j')), Int(X.name('?k')); n = X.length(o)
    X.fact(ForAll([i], Implies(inr, And(rng(pos(i), n), X.eq(X.elem(o, pos(i)), v)))))
    X.fact(ForAll([j], Implies(rng(j, n), And(substitute(inr, (i, src(j))), X.eq(X.elem(o, j), it.get(src(j)))))))
    X.fact(ForAll([j, k], Implies(And(rng(j, n), rng(k, n), j != k), Not(X.eq(X.elem(o, j), X.elem(o, k))))))
    return ret(o, st)


def collect_filtered(X, it, st, dty):
    """set view only: every kept element occurs, and only kept elements occur"""
    if not dty or base_ty(dty) not in ('Vec', 'VecDeque'): return None
    o = Obj(X.fresh(Term, 'vec'), dty)
    src, pos = Function(X.name('src'), IntSort(), IntSort()), Function(X.name('dst'), IntSort(), IntSort())
    i, inr, v = with_binder(X, it, st, lambda v: v)
    j = Int(X.name('?j')); n = X.length(o); X.memo.setdefault('places', []).append((src, pos))
    X.fact(ForAll([i], Implies(inr, And(rng(pos(i), n), X.eq(X.elem(o, pos(i)), v)))))
    X.fact(ForAll([j], Implies(rng(j, n), And(substitute(inr, (i, src(j))), X.eq(X.elem(o, j), it.get(src(j)))))))
    return ret(o, st)


@rule(r'<.* as Iterator>::next')
def it_next(X, m, a, st, dty):
    r = a[0]
    if not isinstance(r, Ref): raise Unsupported('next on a non-reference')
    it = X.read(st, r.cell, r.path)
    if isinstance(it, Agg) and it.ty in ('Range', 'RangeInclusive'): it = it_of(X, st, it)
    if not isinstance(it, It): raise Unsupported(f'next on {it!r}')
    if it.keep:
        c = conc(X, it)
        if c is None:                                   # the next kept element: the first one from here on
            i = Int(X.name('?nk'))
            X.binders.append(i)
            try: kp = it.keep(i)
            finally: X.binders.pop()
            idx, found = X.fresh(IntSort(), 'idx'), X.fresh(BoolSort(), 'found')
            g1 = Implies(found, And(it.pos <= idx, idx < it.n, substitute(kp, (i, idx)), ForAll([i], Implies(And(it.pos <= i, i < idx), Not(kp)))))
            g2 = Implies(Not(found), ForAll([i], Implies(And(it.pos <= i, i < it.n), Not(kp))))
            s = st.assume(g1).assume(g2).copy()
            X.write(s, r.cell, r.path, it.rep(pos=If(found, idx + 1, it.n)))
            return ret(Ite(found, some(it.get(idx)), NONE), s)
        outs, cur = [], st
        for k in c:
            kp = simplify(it.keep(IntVal(k)))
            if not is_false(kp):
                s = (cur if is_true(kp) else cur.assume(kp)).copy()
                X.write(s, r.cell, r.path, it.rep(pos=IntVal(k + 1))); outs.append((some(it.get(IntVal(k))), s))
            if is_true(kp): cur = None; break
            if not is_false(kp): cur = cur.assume(Not(kp))
        if cur is not None:
            s = cur.copy(); X.write(s, r.cell, r.path, it.rep(pos=it.n)); outs.append((NONE, s))
        X.nomerge = True
        return outs
    more = simplify(it.pos < it.n)
    s = st.copy()
    if is_false(more): return ret(NONE, s)
    v = it.get(simplify(it.pos))
    X.write(s, r.cell, r.path, it.rep(pos=simplify(it.pos + 1) if is_true(more) else If(more, it.pos + 1, it.pos)))
    return ret(some(v) if is_true(more) else Ite(more, some(v), NONE), s)


@rule(r'<.* as Itertools>::(tuple_windows)', r'<.* as Itertools>::(circular_tuple_windows)')
def it_tw(X, m, a, st, dty): return None


# ------------------------------------------------------------------ hazard-style enums: TryInto<bool> of Tribool etc. are crate code or specific
@rule(r'<Tribool as TryInto<bool>>::try_into', r'<Tribool as TryFrom<.*>>::try_from')
def tri_into(X, m, a, st, dty):
    d = X.discr(D(X, st, a[0]))
    return ret(ite(d == 2, Agg('Result', [UNDEF], (1, 'Err')), Agg('Result', [d == 0], (0, 'Ok'))), st)


@rule(r'<bool as Into<Tribool>>::into', r'<Tribool as From<bool>>::from')
def tri_from(X, m, a, st, dty):
    return ret(ite(a[0], Agg('Tribool', [], (0, 'True')), Agg('Tribool', [], (1, 'False'))), st)


# ------------------------------------------------------------------ slot maps
def slot_parts(X, v):
    """a slot map: the values in iteration order (a vector with the same term), and their keys"""
    if isinstance(v, Ite):                                # a name for the merged map
        a, b = X.to_obj(v.a), X.to_obj(v.b); t = X.fresh(Term, 'slots'); X.fact(Implies(v.c, t == a.term)); X.fact(Implies(Not(v.c), t == b.term)); v = Obj(t, a.ty)
    m = re.match(r'^(?:[\w:]*::)?SlotMap<(.*)>$', X.strip(v.ty))
    kt, vt = split_top(m[1])
    vals = Obj(v.term, f'std::vec::Vec<{vt}>')
    return vals, X.length(vals), lambda i: Obj(Function('slotkey', Term, IntSort(), Term)(v.term, i), kt)


def slot_it(X, v, what):
    if isinstance(v, Ite):
        a, b = slot_it(X, v.a, what), slot_it(X, v.b, what)
        return It('it', n=If(v.c, a.n, b.n), get=lambda i: ite(v.c, a.get(i), b.get(i)), keep=None, pos=IntVal(0))
    vals, n, key = slot_parts(X, v)
    val = lambda i: X.elem(vals, i)
    g = {'values': val, 'keys': key, 'iter': lambda i: Agg('tuple', [key(i), val(i)])}[what]
    return It('it', n=n, get=g, keep=None, pos=IntVal(0))


@rule(r'(?:Slot|Hop)Map::(values|keys|iter)')
def slotmap_it(X, m, a, st, dty): return ret(slot_it(X, D(X, st, a[0]), m[1]), st)


@rule(r'<.*SlotMap<.*> as IntoIterator>::into_iter')
def slotmap_into(X, m, a, st, dty): return ret(slot_it(X, D(X, st, a[0]), 'iter'), st)


@rule(r'SlotMap::(len|is_empty)')
def slotmap_len(X, m, a, st, dty):
    n = slot_it(X, D(X, st, a[0]), 'values').n
    return ret(n if m[1] == 'len' else n == 0, st)


@rule(r'SlotMap::(?:with_key|new|with_capacity_and_key)')
def slotmap_new(X, m, a, st, dty):
    o = Obj(X.fresh(Term, 'slots'), dty); X.fact(slot_parts(X, o)[1] == 0)
    return ret(o, st)


@rule(r'SlotMap::insert')
def slotmap_insert(X, m, a, st, dty):
    """the value goes to some place in the iteration order, under a key not in use; the others keep key and order"""
    def f(v, o):
        (vv, n, k), (ov, on, ok) = slot_parts(X, v), slot_parts(X, o); p = X.fresh(IntSort(), 'slot'); j = Int(X.name('?j')); key = ok(p)
        X.fact(And(on == n + 1, 0 <= p, p <= n)); X.fact(X.eq(X.elem(ov, p), a[1]))
        X.fact(Implies(And(0 <= j, j < p), And(X.eq(X.elem(ov, j), X.elem(vv, j)), X.eq(ok(j), k(j)))))
        X.fact(Implies(And(p <= j, j < n), And(X.eq(X.elem(ov, j + 1), X.elem(vv, j)), X.eq(ok(j + 1), k(j)))))
        X.fact(Implies(And(p < j, j < on), And(X.eq(X.elem(ov, j), X.elem(vv, j - 1)), X.eq(ok(j), k(j - 1)))))
        X.fact(Implies(And(0 <= j, j < n), Not(X.eq(k(j), key))))
        X.slot = p
        return key
    r, s = vec_upd(X, st, a[0], f)
    return ret(r, s)


def slot_find(X, v, key):
    """(found, position) of a key; keys are distinct"""
    vv, n, k = slot_parts(X, v); found, p = X.fresh(BoolSort(), 'found'), X.fresh(IntSort(), 'slot'); j = Int(X.name('?j'))
    X.fact(Implies(found, And(0 <= p, p < n, X.eq(k(p), key))))
    X.fact(Implies(And(0 <= j, j < n, X.eq(k(j), key)), And(found, j == p)))
    return found, p


@rule(r'SlotMap::(get|contains_key)')
def slotmap_get(X, m, a, st, dty):
    v = D(X, st, a[0]); found, p = slot_find(X, v, D(X, st, a[1]))
    return ret(found if m[1] == 'contains_key' else Ite(found, some(X.elem(slot_parts(X, v)[0], p)), NONE), st)


@rule(r'<SlotMap<.*> as Index<.*>>::index')
def slotmap_index(X, m, a, st, dty):
    v = D(X, st, a[0]); found, p = slot_find(X, v, D(X, st, a[1]))
    return ret(X.elem(slot_parts(X, v)[0], p), st.assume(found))


@rule(r'SlotMap::remove')
def slotmap_remove(X, m, a, st, dty):
    def f(v, o):
        (vv, n, k), (ov, on, ok) = slot_parts(X, v), slot_parts(X, o); found, p = slot_find(X, v, D(X, st, a[1])); j = Int(X.name('?j'))
        X.fact(on == If(found, n - 1, n))
        X.fact(Implies(And(0 <= j, j < on, Or(Not(found), j < p)), And(X.eq(X.elem(ov, j), X.elem(vv, j)), X.eq(ok(j), k(j)))))
        X.fact(Implies(And(found, p <= j, j < on), And(X.eq(X.elem(ov, j), X.elem(vv, j + 1)), X.eq(ok(j), k(j + 1)))))
        X.fact(Implies(And(found, p < j, j < n), And(X.eq(X.elem(ov, j - 1), X.elem(vv, j)), X.eq(ok(j - 1), k(j)))))
        return Ite(found, some(X.elem(vv, p)), NONE)
    r, s = vec_upd(X, st, a[0], f)
    return ret(r, s)


@rule(r'\[.*\]::binary_search_by')
def bsearch(X, m, a, st, dty):
    """std: if the slice is sorted with respect to the comparator, Ok(pos) is the position of some match, Err(pos) the insertion point; otherwise the position is unspecified"""
    v = D(X, st, a[0]); n = X.length(v)
    it = It('it', n=n, get=lambda i: X.elem(v, i), keep=None, pos=IntVal(0))
    i, inr, r = with_binder(X, it, st, lambda x: X.discr(pure(X, a[1], st)(x)))
    rank = lambda d: If(d == 255, IntVal(-1), d)
    rk = lambda e: substitute(rank(r), (i, e))
    j = Int(X.name('?bj'))
    pos, ok = X.fresh(IntSort(), 'bpos'), X.fresh(BoolSort(), 'bok')
    X.fact(And(pos >= 0, pos <= n, Implies(ok, pos < n)))
    sorted_ = ForAll([i, j], Implies(And(0 <= i, i < j, j < n), rk(i) <= rk(j)))
    X.fact(Implies(sorted_, And(Implies(ok, rk(pos) == 0), Implies(Not(ok), ForAll([i], Implies(inr, If(i < pos, rk(i) == -1, rk(i) == 1)))))))
    return ret(ite(ok, Agg('Result', [pos], (0, 'Ok')), Agg('Result', [pos], (1, 'Err'))), st)


@rule(r'<\w+ as Integer>::(is_odd|is_even)')
def parity(X, m, a, st, dty):
    x = num(X, st, a[0]); return ret((x % 2 == 1) if m[1] == 'is_odd' else (x % 2 == 0), st)


@rule(r'\[.*\]::binary_search')
def bsearch_nat(X, m, a, st, dty):
    """as binary_search_by with the natural order of scalars"""
    v, key = D(X, st, a[0]), num(X, st, a[1]); n = X.length(v); i, j = Int(X.name('?bi')), Int(X.name('?bj')); e = lambda k: num(X, st, X.elem(v, k))
    if not is_scalar(key): return None
    pos, ok = X.fresh(IntSort(), 'bpos'), X.fresh(BoolSort(), 'bok')
    X.fact(And(pos >= 0, pos <= n, Implies(ok, pos < n)))
    X.fact(Implies(ForAll([i, j], Implies(And(0 <= i, i < j, j < n), e(i) <= e(j))), And(Implies(ok, e(pos) == key), Implies(Not(ok), ForAll([i], Implies(rng(i, n), If(i < pos, e(i) < key, e(i) > key)))))))
    return ret(ite(ok, Agg('Result', [pos], (0, 'Ok')), Agg('Result', [pos], (1, 'Err'))), st)


def bij(X, it, st, o, sort=False):
    """o holds the elements of it: every element occurs, only those occur"""
    src, pos = Function(X.name('src'), IntSort(), IntSort()), Function(X.name('dst'), IntSort(), IntSort())
    i, inr, v = with_binder(X, it, st, lambda v: v)
    j, k = Int(X.name('?j')), Int(X.name('?k')); n = X.length(o); X.memo.setdefault('places', []).append((src, pos))
    X.fact(ForAll([i], Implies(inr, And(rng(pos(i), n), X.eq(X.elem(o, pos(i)), v)))))
    X.fact(ForAll([j], Implies(rng(j, n), And(substitute(inr, (i, src(j))), X.eq(X.elem(o, j), it.get(src(j)))))))
    return src, pos, j, k, n


@rule(r'<\[(Option<.*>);(\d+)\] as Default>::default')
def arr_default(X, m, a, st, dty):
    o = Obj(X.fresh(Term, 'arr'), dty or f'[{m[1]}; {m[2]}]'); j = Int(X.name('?j')); n = int(m[2])
    X.fact(X.length(o) == n); X.fact(ForAll([j], Implies(And(0 <= j, j < n), Not(opt(X, X.elem(o, j))[0]))))
    return ret(o, st)


@rule(r'<.* as Itertools>::unique')
def it_unique(X, m, a, st, dty):
    it = it_of(X, st, a[0])
    t = X.ty_of(it.get(IntVal(0)))
    o = Obj(X.fresh(Term, 'uniq'), f'std::vec::Vec<{t}>')
    src, pos, j, k, n = bij(X, it, st, o)
    X.fact(ForAll([j, k], Implies(And(rng(j, n), rng(k, n), j != k), Not(X.eq(X.elem(o, j), X.elem(o, k))))))
    X.fact(ForAll([j, k], Implies(And(rng(j, n), rng(k, n), j < k), src(j) < src(k))))        # first occurrences, in order
    if not it.keep: X.fact(And(n <= it.n - it.pos, Implies(n == it.n - it.pos, ForAll([j], Implies(rng(j, n), src(j) == j + it.pos)))))
    return ret(it_of(X, st, o), st)


@rule(r'<.* as Itertools>::sorted_by_key')
def it_sorted_key(X, m, a, st, dty):
    it = it_of(X, st, a[0]); v0 = it.get(IntVal(0)); t = X.ty_of(D(X, st, v0))
    if isinstance(v0, Ref): return None
    o = Obj(X.fresh(Term, 'sorted'), f'std::vec::Vec<{t}>')
    src, pos, j, k, n = bij(X, it, st, o)
    if not it.keep: X.fact(n == it.n - it.pos)
    X.fact(ForAll([j, k], Implies(And(rng(j, n), rng(k, n), j < k), src(j) != src(k)))); X.fact(ForAll([j], Implies(rng(j, n), pos(src(j)) == j)))
    io = It('it', n=n, get=lambda i: X.elem(o, i), keep=None, pos=IntVal(0))
    i1, r1, k1 = with_binder(X, io, st, lambda v: num(X, st, pure(X, a[1], st)(v)))
    i2 = Int(X.name('?i')); X.fact(ForAll([i1, i2], Implies(And(r1, rng(i2, n), i1 < i2), k1 <= substitute(k1, (i1, i2)))))
    return ret(io, st)


@rule(r'\[.*\]::chunks')
def slice_chunks(X, m, a, st, dty):
    v = D(X, st, a[0]); c = simplify(a[1])
    if not is_int_value(c) or c.as_long() < 1: return None
    c = c.as_long(); n = X.length(v); F = Function(X.name('chunk'), IntSort(), Term); t = f'[{X.elem_ty(X.ty_of(v))}]'
    k, j = Int(X.name('?k')), Int(X.name('?j')); o = Obj(F(k), t); N = (n + c - 1) / c
    X.binders.append(k)
    try:
        X.fact(ForAll([k], Implies(rng(k, N), X.length(o) == If(c * k + c <= n, IntVal(c), n - c * k)), patterns=[F(k)]))
        for d in range(min(c, 8)): X.fact(ForAll([k], Implies(And(rng(k, N), c * k + d < n), X.eq(X.elem(o, IntVal(d)), X.elem(v, c * k + d))), patterns=[F(k)]))
    finally: X.binders.pop()
    if c > 8: return None
    return ret(It('it', n=N, get=lambda i: Obj(F(i), t), keep=None, pos=IntVal(0)), st)


@rule(r'<.* as Iterator>::flat_map')
def it_flat_map(X, m, a, st, dty):
    r = it_map(X, m, a, st, dty); it = r[0][0]; i0 = it.get(IntVal(0))
    if not (isinstance(i0, Obj) and base_ty(X.strip(i0.ty)) == 'Vec'): return it_flatten(X, m, [it], st, dty)
    # the elements of the vectors, one vector after the other
    nm = X.name('flat'); fst, snd = Function(nm + '.1', IntSort(), IntSort()), Function(nm + '.2', IntSort(), IntSort()); at = Function(nm + '.i', IntSort(), IntSort(), IntSort())
    n = X.fresh(IntSort(), 'flat'); q, j = Int(X.name('?q')), Int(X.name('?j'))
    i, inr, v = with_binder(X, it, st, lambda v: v); ln = X.length(v); sub = lambda e, x: substitute(e, (i, x))
    X.fact(n >= 0); X.fact(ForAll([q], Implies(rng(q, n), And(sub(inr, fst(q)), snd(q) >= 0, snd(q) < sub(ln, fst(q)))), patterns=[fst(q)]))
    X.fact(ForAll([i, j], Implies(And(inr, j >= 0, j < ln), And(rng(at(i, j), n), fst(at(i, j)) == i, snd(at(i, j)) == j)), patterns=[at(i, j)]))
    p, p2 = Int(X.name('?q')), Int(X.name('?q')); X.fact(ForAll([p, p2], Implies(And(rng(p, n), rng(p2, n), p < p2), Or(fst(p) < fst(p2), And(fst(p) == fst(p2), snd(p) < snd(p2)))), patterns=[MultiPattern(fst(p), fst(p2))]))
    return ret(It('it', n=n, get=lambda k: X.elem(it.get(fst(k)), snd(k)), keep=None, pos=IntVal(0)), st)


@rule(r'<.* as Itertools>::sorted')
def it_sorted(X, m, a, st, dty):
    it = it_of(X, st, a[0])
    if it.keep: return None
    v0 = it.get(IntVal(0))
    if not is_scalar(v0): return None
    o = Obj(X.fresh(Term, 'sorted'), f'std::vec::Vec<{X.ty_of(v0)}>')
    src, pos, j, k, n = bij(X, it, st, o)
    X.fact(n == it.n - it.pos)
    X.fact(ForAll([j, k], Implies(And(rng(j, n), rng(k, n), j < k), And(X.elem(o, j) <= X.elem(o, k), src(j) != src(k)))))
    X.fact(ForAll([j], Implies(rng(j, n), pos(src(j)) == j)))
    return ret(it_of(X, st, o), st)


@rule(r'\[.*\]::sort(?:_unstable)?')
def slice_sort(X, m, a, st, dty):
    """a permutation, in ascending order"""
    def f(v, o):
        if not is_scalar(X.elem(v, IntVal(0))): raise Unsupported('sort of records')
        src, pos, j, k, n = bij(X, It('it', n=X.length(v), get=lambda i: X.elem(v, i), keep=None, pos=IntVal(0)), st, o)
        X.fact(n == X.length(v)); X.fact(ForAll([j, k], Implies(And(rng(j, n), rng(k, n), j < k), And(X.elem(o, j) <= X.elem(o, k), src(j) != src(k))))); X.fact(ForAll([j], Implies(rng(j, n), pos(src(j)) == j)))
    _, s = vec_upd(X, st, a[0], f); return ret(UNIT, s)


@rule(r'\[.*\]::sort(?:_unstable)?_by')
def slice_sort_by(X, m, a, st, dty):
    """a permutation in which no element compares greater than a later one; that the comparator is a total order is an obligation"""
    def f(v, o):
        it = lambda w: It('it', n=X.length(w), get=lambda i: X.elem(w, i), keep=None, pos=IntVal(0))
        src, pos, j, k, n = bij(X, it(v), st, o)
        X.fact(n == X.length(v)); X.fact(ForAll([j, k], Implies(And(rng(j, n), rng(k, n), j < k), src(j) != src(k)))); X.fact(ForAll([j], Implies(rng(j, n), pos(src(j)) == j)))
        def pair(w):
            i1, r1, (i2, r2, d) = with_binder(X, it(w), st, lambda x: with_binder(X, it(w), st, lambda y: X.discr(D(X, st, pure(X, a[1], st)(x, y)))))
            return i1, i2, And(r1, r2), d
        i1, i2, r, d = pair(o); X.fact(ForAll([i1, i2], Implies(And(r, i1 < i2), d != 1)))
        j1, j2, r, d = pair(v); sub = lambda x, y: substitute(d, (j1, x), (j2, y)); j3 = Int(X.name('?i')); nv = X.length(v)
        X.obl('the comparator is a total order', st, ForAll([j1, j2, j3], Implies(And(r, rng(j3, nv)), And((d == 1) == (sub(j2, j1) == 255), Implies(And(d != 1, sub(j2, j3) != 1), sub(j1, j3) != 1)))))
    _, s = vec_upd(X, st, a[0], f); return ret(UNIT, s)


@rule(r'\[.*\]::reverse')
def slice_reverse(X, m, a, st, dty):
    def f(v, o):
        n = X.length(v); j = Int(X.name('?j'))
        X.fact(X.length(o) == n); X.fact(ForAll([j], Implies(rng(j, n), X.eq(X.elem(o, j), X.elem(v, n - 1 - j)))))
    _, s = vec_upd(X, st, a[0], f); return ret(UNIT, s)


@rule(r'<.* as Itertools>::tuple_combinations')
def it_pairs(X, m, a, st, dty):
    """all pairs of elements at two different positions, in some order of their own"""
    it = it_of(X, st, a[0])
    if it.keep or not dty or dty.count('&') > 2: return None
    k = X.name('pair'); fst, snd, pos = Function(k + '.1', IntSort(), IntSort()), Function(k + '.2', IntSort(), IntSort()), Function(k + '.i', IntSort(), IntSort(), IntSort())
    n = X.fresh(IntSort(), 'pairs'); i, j = Int(X.name('?i')), Int(X.name('?j')); lo, hi = it.pos, it.n
    X.fact(n >= 0); X.fact(ForAll([i], Implies(rng(i, n), And(lo <= fst(i), fst(i) < snd(i), snd(i) < hi)), patterns=[fst(i)]))
    X.fact(ForAll([i, j], Implies(And(lo <= i, i < j, j < hi), And(rng(pos(i, j), n), fst(pos(i, j)) == i, snd(pos(i, j)) == j)), patterns=[pos(i, j)]))
    r = It('it', n=n, get=lambda q: Agg('(,)', [it.get(fst(q)), it.get(snd(q))]), keep=None, pos=IntVal(0)); X.memo['pairs'] = pos
    return ret(r, st)


@rule(r'Vec::append')
def vec_append(X, m, a, st, dty):
    w = X.read(st, a[1].cell, a[1].path)
    def f(v, o):
        n, k = X.length(v), X.length(w); j = Int(X.name('?j'))
        X.fact(X.length(o) == n + k); X.fact(ForAll([j], Implies(rng(j, n), X.eq(X.elem(o, j), X.elem(v, j))))); X.fact(ForAll([j], Implies(And(n <= j, j < n + k), X.eq(X.elem(o, j), X.elem(w, j - n)))))
    _, s = vec_upd(X, st, a[0], f)
    def e(v, o): X.fact(X.length(o) == 0)
    _, s = vec_upd(X, s, a[1], e); return ret(UNIT, s)


@rule(r'Vec::retain')
def vec_retain(X, m, a, st, dty):
    """the elements for which the closure says so, in order"""
    v = X.read(st, a[0].cell, a[0].path); X.effects = []
    try: with_binder(X, It('it', n=X.length(v), get=lambda i: X.elem(v, i), keep=None, pos=IntVal(0)), st, pure(X, a[1], st)); eff = X.effects
    finally: X.effects = None
    hav = []
    def wipe(x, y):
        """numbers the closure writes: anything from then on"""
        if same(x, y): return x
        if is_scalar(x): hav.append(X.fresh(x.sort(), 'w')); return hav[-1]
        if isinstance(y, Ite): return wipe(wipe(x, y.a), y.b)
        if isinstance(x, Obj) and isinstance(y, Obj) and x.term.eq(y.term):
            return Obj(x.term, x.ty, x.upd | {k: wipe(x.upd[k], z) if k in x.upd else wipe(z, None) if is_scalar(z) else (_ for _ in ()).throw(Unsupported('closure with side effects')) for k, z in y.upd.items()})
        raise Unsupported('closure with side effects')
    if eff:
        st = st.copy()
        for c, x, y in eff: st.store[c] = wipe(st.store[c], y)
        pred = lambda e: effectless(e)
        def effectless(e):
            X.effects = []
            try: r = pure(X, a[1], st)(e)
            finally: X.effects = None
            seen, work = set(), [r]
            while work:
                q = work.pop()
                if q.get_id() in seen: continue
                seen.add(q.get_id()); work += q.children()
                if any(q.eq(h) for h in hav): raise Unsupported('a closure whose answer depends on what it writes')
            return r
    else: pred = pure(X, a[1], st)
    def f(v, o):
        c = memo1(lambda i: pred(X.elem(v, i)))
        src, pos, j, k, n = bij(X, It('it', n=X.length(v), get=lambda i: X.elem(v, i), keep=c, pos=IntVal(0)), st, o)
        X.fact(n <= X.length(v)); X.fact(ForAll([j, k], Implies(And(rng(j, n), rng(k, n), j < k), src(j) < src(k)))); X.fact(ForAll([j], Implies(rng(j, n), pos(src(j)) == j)))
    _, s = vec_upd(X, st, a[0], f); return ret(UNIT, s)


@rule(r'\[.*\]::(?:clone_from_slice|copy_from_slice)')
def clone_from_slice(X, m, a, st, dty):
    w = D(X, st, a[1]); g = [None]
    def f(v, o):
        n = X.length(v); j = Int(X.name('?j')); g[0] = n == X.length(w); X.fact(X.length(o) == n); X.fact(Implies(rng(j, n), X.eq(X.elem(o, j), X.elem(w, j))))
    _, s = vec_upd(X, st, a[0], f); return ret(UNIT, s.assume(g[0]))


@rule(r'<.* as Iterator>::flatten')
def it_flatten(X, m, a, st, dty):
    """over options: the payloads of those that are Some"""
    it = it_of(X, st, a[0]); g, k0 = it.get, it.keep
    probe = g(IntVal(0)); isref = isinstance(probe, Ref)
    def val(i): v = g(i); return X.read(st, v.cell, v.path) if isinstance(v, Ref) else v
    t = val(IntVal(0))
    if not (isinstance(t, Agg) and t.ty == 'Option' or isinstance(t, (Obj, Ite)) and base_ty(X.strip(X.ty_of(t))) == 'Option'): return None
    def keep(i): c = opt(X, val(i))[0]; return And(k0(i), c) if k0 else c
    def get(i):
        v = g(i)
        if not isinstance(v, Ref): return opt(X, v)[1]
        return Ref(v.cell, tuple(v.path) + (('f', 0, X.ty_of(opt(X, val(i))[1]), 'Some'),))
    return ret(it.rep(keep=memo1(keep), get=get), st)


@rule(r'<.* as Itertools>::contains', r'(?:\[.*\]|Vec|IndexSet|HashSet)::contains')
def it_contains(X, m, a, st, dty):
    it = it_of(X, st, a[0]); x = D(X, st, a[1])
    i, inr, e = with_binder(X, it, st, lambda v: X.eq(D(X, st, v), x))
    b = X.fresh(BoolSort(), 'contains')
    X.fact(b == Exists([i], And(inr, e)))
    return ret(b, st)


@rule(r'<.* as Itertools>::sorted_by_cached_key')
def it_sorted_cached(X, m, a, st, dty):
    """a permutation of the elements (that it is ordered is not stated); the key is computed for every element"""
    it = it_of(X, st, a[0]); t = X.ty_of(D(X, st, it.get(IntVal(0))))
    o = Obj(X.fresh(Term, 'sorted'), f'std::vec::Vec<{t}>')
    src, pos = Function(X.name('src'), IntSort(), IntSort()), Function(X.name('dst'), IntSort(), IntSort())
    i, inr, v = with_binder(X, it, st, lambda v: D(X, st, v))
    j = Int(X.name('?j')); n = X.length(o); X.memo.setdefault('places', []).append((src, pos))
    X.fact(ForAll([i], Implies(inr, And(rng(pos(i), n), src(pos(i)) == i, X.eq(X.elem(o, pos(i)), v)))))
    X.fact(ForAll([j], Implies(rng(j, n), And(substitute(inr, (i, src(j))), pos(src(j)) == j, X.eq(X.elem(o, j), D(X, st, it.get(src(j))))))))
    if not it.keep: X.fact(n == it.n - it.pos)
    return ret(It('it', n=n, get=lambda i: X.elem(o, i), keep=None, pos=IntVal(0)), st)


@rule(r'<\[.*\] as SliceRandom>::choose')
def slice_choose(X, m, a, st, dty):
    """some element, none of an empty slice"""
    v = D(X, st, a[0]); k = X.fresh(IntSort(), 'choice'); n = X.length(v); c = n > 0
    return [(some(X.elem(v, k)), st.assume(And(c, 0 <= k, k < n))), (NONE, st.assume(Not(c)))]


@rule(r'f(?:32|64)::to_radians')
def to_radians(X, m, a, st, dty):
    """degrees times pi/180; pi/180 is a constant of which only its first digits are known"""
    k = Real('pi_over_180'); X.fact_on(And(k > RealVal('0.0174532925'), k < RealVal('0.0174532926')), k); return ret(num(X, st, a[0]) * k, st)
