"""Replays a counterexample on the real code: generates a small program that calls the function with the given arguments, runs it, and rebuilds
the observed result as a value of the verifier."""
import fcntl, json, os, re, struct, subprocess
from z3 import *
from sym import *
from mir import base_ty, split_top

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(V, 'build', 'mvreplay')
HEAD = '''#![allow(unused, dead_code, deprecated)]
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::*;
use jagua_rs::geometry::geo_traits::*;
use ordered_float::NotNan;
use tribool::Tribool;
trait J { fn j(&self) -> String; }
impl J for f32 { fn j(&self) -> String { if self.is_finite() { format!("{:?}", *self as f64) } else { "\\"nan\\"".into() } } }
impl J for f64 { fn j(&self) -> String { if self.is_finite() { format!("{:?}", *self) } else { "\\"nan\\"".into() } } }
impl J for NotNan<f32> { fn j(&self) -> String { self.into_inner().j() } }
impl J for usize { fn j(&self) -> String { self.to_string() } }
impl J for isize { fn j(&self) -> String { self.to_string() } }
impl J for bool { fn j(&self) -> String { self.to_string() } }
impl J for () { fn j(&self) -> String { "[]".into() } }
impl<T: J> J for &T { fn j(&self) -> String { (**self).j() } }
impl<T: J> J for &mut T { fn j(&self) -> String { (**self).j() } }
impl<A: J, B: J> J for (A, B) { fn j(&self) -> String { format!("[{},{}]", self.0.j(), self.1.j()) } }
impl<T: J, const N: usize> J for [T; N] { fn j(&self) -> String { format!("[{}]", self.iter().map(|x| x.j()).collect::<Vec<_>>().join(",")) } }
impl<T: J> J for Option<T> { fn j(&self) -> String { match self { None => "{\\"v\\":\\"None\\",\\"f\\":[]}".into(), Some(x) => format!("{{\\"v\\":\\"Some\\",\\"f\\":[{}]}}", x.j()) } } }
impl J for Point { fn j(&self) -> String { format!("[{},{}]", self.0.j(), self.1.j()) } }
impl J for Edge { fn j(&self) -> String { format!("[{},{}]", self.start.j(), self.end.j()) } }
impl J for Circle { fn j(&self) -> String { format!("[{},{}]", self.center.j(), self.radius.j()) } }
impl J for AARectangle { fn j(&self) -> String { format!("[{},{},{},{}]", self.x_min.j(), self.y_min.j(), self.x_max.j(), self.y_max.j()) } }
impl J for Transformation { fn j(&self) -> String { let m: [[f32; 3]; 3] = unsafe { std::mem::transmute_copy(self) }; format!("[{}]", m.j()) } }
impl J for DTransformation { fn j(&self) -> String { format!("[{},{}]", self.rotation().j(), self.translation().j()) } }
impl J for GeoRelation { fn j(&self) -> String { format!("{{\\"v\\":\\"{:?}\\",\\"f\\":[]}}", self) } }
impl J for GeoPosition { fn j(&self) -> String { format!("{{\\"v\\":\\"{:?}\\",\\"f\\":[]}}", self) } }
'''


class NoReplay(Exception): pass


def f32(v):
    try: b = struct.unpack('<I', struct.pack('<f', float(v)))[0]
    except (ValueError, OverflowError): raise NoReplay('value outside f32')
    return f'f32::from_bits({b:#x})'


def lit(crate, X, ty, v):
    ty = X.strip(ty)
    if isinstance(v, str): raise NoReplay('no concrete value')
    if ty in FLOATS: return f32(v)
    if ty in INTS: return f'{int(v)}{ty}' if v >= 0 else f'({int(v)}{ty})'
    if ty == 'bool': return 'true' if v else 'false'
    m = re.fullmatch(r'\[(.*); (\d+)\]', ty)
    if m: return '[' + ', '.join(lit(crate, X, m[1], x) for x in v) + ']'
    if ty.startswith('('): return '(' + ', '.join(lit(crate, X, t, x) for t, x in zip(split_top(ty[1:-1]), v)) + ',)'
    b = base_ty(ty)
    if b == 'Transformation':
        return 'unsafe { std::mem::transmute::<[[f32; 3]; 3], Transformation>([' + ', '.join('[' + ', '.join(f32(x) for x in r) + ']' for r in v[0]) + ']) }'
    if b == 'DTransformation': return f'DTransformation::new({f32(v[0])}, ({f32(v[1][0])}, {f32(v[1][1])}))'
    if b == 'Point': return f'Point({f32(v[0])}, {f32(v[1])})'
    fs = crate.structs.get(b)
    if fs is None or b not in ('Edge', 'AARectangle', 'Circle'): raise NoReplay(f'no literal for {ty}')
    return b + ' { ' + ', '.join(f'{n}: {lit(crate, X, t, x)}' for (n, t), x in zip(fs, v)) + ' }'


def program(crate, X, fn, key, inputs):
    """inputs: [(name, type, concrete value)]"""
    body, call, mut = [], [], []
    for i, ((nm, ty, v), (_, pt)) in enumerate(zip(inputs, fn.params)):
        body.append(f'    let mut a{i} = {lit(crate, X, ty, v)};')
        pt = pt.strip()
        if re.match(r"^&('\w+ )?mut ", pt): call.append(f'&mut a{i}'); mut.append(i)
        elif pt.startswith('&'): call.append(f'&a{i}')
        else: call.append(f'a{i}.clone()')
    k = re.sub(r'^(\w+)::(\w+)$', r'\1::\2', key)
    if '::' not in key: raise NoReplay('free function')
    body.append(f'    let r = {k}({", ".join(call)}).j();')
    body.append('    println!("{{\\"r\\":{},\\"m\\":{{' + ','.join(f'\\"{i}\\":{{}}' for i in mut) + '}}}}", r' + ''.join(f', a{i}.j()' for i in mut) + ');')
    return HEAD + 'fn main() {\n' + '\n'.join(body) + '\n}\n'


def run_program(src, tag='r'):
    os.makedirs(os.path.join(DIR, 'src'), exist_ok=True)
    with open(os.path.join(DIR, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(os.path.join(DIR, 'Cargo.toml'), 'w').write('[package]\nname = "mvreplay"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\njagua-rs = { path = "' + os.environ.get("MV_REPO", "/repo") + '/jagua-rs" }\nordered-float = "*"\ntribool = "*"\n')
        lock = os.path.join(DIR, 'Cargo.lock')
        if not os.path.exists(lock): subprocess.run(['cp', os.path.join(V, 'cx', 'Cargo.lock'), lock])
        open(os.path.join(DIR, 'src', 'main.rs'), 'w').write(src)
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=os.path.join(V, 'build', 'mvtgt'))
        r = subprocess.run(['cargo', 'build', '-q'], cwd=DIR, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise NoReplay('replay program does not build: ' + r.stdout[-600:])
        try: r = subprocess.run([os.path.join(V, 'build', 'mvtgt', 'debug', 'mvreplay')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20)
        except subprocess.TimeoutExpired: raise NoReplay('replay timed out')
    if r.returncode: raise NoReplay('the call panicked: ' + r.stdout[-300:])
    return json.loads(r.stdout.strip().split('\n')[-1])


class Rebuild:
    """observed results as symbolic values: a real is any number within the rounding tolerance of the observed f32"""

    def __init__(self, X, scale): self.X, self.cons, self.n, self.scale = X, [], 0, scale

    def value(self, ty, v):
        X = self.X; ty = X.strip(ty)
        if v == 'nan': raise NoReplay('the result is not a number')
        if ty in FLOATS:
            self.n += 1
            e = Real(f'obs!{self.n}'); tol = 1e-4 * (1 + abs(v) + self.scale)
            self.cons += [e >= v - tol, e <= v + tol]
            return e
        if ty in INTS: return IntVal(v)
        if ty == 'bool': return BoolVal(v)
        if ty == '()': return Agg('()', [])
        m = re.fullmatch(r'\[(.*); (\d+)\]', ty)
        if m: return Agg('array', [self.value(m[1], x) for x in v])
        if ty.startswith('('): return Agg('tuple', [self.value(t, x) for t, x in zip([t for t in split_top(ty[1:-1]) if t], v)])
        b = base_ty(ty)
        if isinstance(v, dict):
            if b == 'Option':
                t = re.match(r'^[\w:]*<(.*)>$', ty)[1]
                return Agg('Option', [self.value(t, x) for x in v['f']], (1 if v['v'] == 'Some' else 0, v['v']))
            return Agg(b, [], (X.crate.enums[b].index(v['v']), v['v']))
        if b in X.crate.structs: return Agg(b, [self.value(t, x) for (_, t), x in zip(X.crate.structs[b], v)])
        raise NoReplay(f'no rebuild for {ty}')


def fix_value(e, v):
    if isinstance(v, bool): return e == BoolVal(v)
    if isinstance(v, int): return e == v
    from fractions import Fraction
    return e == Q(*Fraction(struct.unpack('<f', struct.pack('<f', v))[0]).as_integer_ratio())


def is_trig(f, X):
    return any(k[0] == 'sincos' and f.eq(e[1][0] * e[1][0] + e[1][1] * e[1][1] == 1) for k, e in X.memo.items())


def confirm(crate, spec, X, fn, inputs, model, clause, goal):
    """-> dict(confirmed=bool, observed=..., note=...)"""
    from verify import concretise, flatten, mval, formulas
    import math
    over = {}
    for k, e in X.memo.items():              # angles: the model fixes sine and cosine, the angle follows from them
        if k[0] == 'sincos' and is_const(e[0]): over[e[0].get_id()] = math.atan2(mval(model, e[1][0]), mval(model, e[1][1]))
    val = lambda e: over.get(e.get_id(), None) if e.get_id() in over else mval(model, e)
    def concr(v):
        if is_scalar(v): return val(v)
        if isinstance(v, Agg): return [concr(x) for x in v.fields]
        return str(v)
    conc = [(nm, ty, concr(v)) for nm, ty, v in inputs]
    try:
        src = program(crate, X, fn, spec.replay or spec.fn, conc)
        obs = run_program(src)
        leaves = [e for _, _, v in inputs for e in flatten(X, v)]
        fixed = [fix_value(e, val(e)) for e in leaves]
        scale = max([abs(mval(model, e)) for e in leaves if e.sort() == RealSort()] + [0])
        rb = Rebuild(X, scale)
        r = rb.value(fn.ret, obs['r'])
        news = {int(i): rb.value(inputs[int(i)][1], v) for i, v in obs['m'].items()}
        X.new = lambda i: news[i]
        n0 = len(X.facts)
        vals = [v for _, _, v in inputs]
        pre = formulas(spec.pre(X, *vals)) if spec.pre else []
        cl = dict(spec.post(X, r, *vals)).get(clause)
        if cl is None: return dict(confirmed=False, note='clause not found', program=src)
        aux = [fix_value(v, mval(model, v)) for v in (Real('any_t'), Real('any_u'), Real('any_x'), Real('any_y'))]
        trig = []
        for k, e in X.memo.items():
            if k[0] == 'sincos' and is_const(e[0]):
                a = val(e[0]); trig += [c for f, w in ((math.sin(a), e[1][0]), (math.cos(a), e[1][1])) for c in (w >= f - 1e-5, w <= f + 1e-5)]
        base = fixed + aux + rb.cons + trig
        s = Solver(); s.set('timeout', 8000); s.add(*base); s.add(*pre)
        if s.check() != sat: return dict(confirmed=False, note='the counterexample leaves the precondition once rounded to f32', program=src, observed=obs)
        s = Solver(); s.set('timeout', 8000); s.add(*base); s.add(*[f for f in X.facts if not is_quantifier(f) and not (trig and is_trig(f, X))]); s.add(cl)
        c = s.check()
        return dict(confirmed=c == unsat, observed=obs, program=src, note='the observed result violates the clause' if c == unsat else 'the real code satisfies the clause on this input (rounding tolerance included)')
    except NoReplay as e:
        return dict(confirmed=False, note=str(e))
    except Exception as e:
        return dict(confirmed=False, note=f'replay failed: {type(e).__name__}: {e}')
