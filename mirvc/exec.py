"""Symbolic executor over MIR: generates, for one function body and its contract, the verification conditions.
A call is resolved to (1) a contract, (2) a model of a std / dependency function, (3) the body of a crate function (inlined); anything else
is Unsupported, which makes the obligation *undecided* (never an alarm)."""
import json, re, itertools
from fractions import Fraction
from z3 import *
from sym import *
import mir as M
from mir import base_ty, norm_ty, split_top, match_close, parse_place

BIG = RealVal('340282346638528859811704183484516925440')
LOG = []


def conj(fs):
    fs = [f for f in fs if not is_true(f)]
    if not fs: return BoolVal(True)
    return fs[0] if len(fs) == 1 else And(*fs)


def disj(fs):
    fs = [f for f in fs if not is_false(f)]
    if not fs: return BoolVal(False)
    return fs[0] if len(fs) == 1 else Or(*fs)


class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store=None, pc=()): self.store, self.pc = store if store is not None else {}, tuple(pc)
    def copy(self): return State(dict(self.store), self.pc)
    def assume(self, f):
        s = self.copy(); s.pc = self.pc + (f,); return s


def merge(states, X):
    out = states[0]
    for s in states[1:]:
        k = 0
        while k < len(out.pc) and k < len(s.pc) and out.pc[k].eq(s.pc[k]): k += 1
        c1, c2 = conj(out.pc[k:]), conj(s.pc[k:])
        st = {}
        for cell in set(out.store) | set(s.store):
            a, b = out.store.get(cell, UNDEF), s.store.get(cell, UNDEF)
            st[cell] = a if a is b else ite(c1, a, b)
        d = simplify(Or(c1, c2))
        out = State(st, out.pc[:k] + (() if is_true(d) else (d,)))
    return out


class Inv:
    """a loop invariant: inv(X, state, env) -> [formulas]; env maps debug names to values, env['#'] is the position of the loop's iterator (number of elements
    consumed), env['it'] the iterator. The same invariant serves a `for` loop and an equivalent `for_each`."""
    def __init__(self, f, fine=False): self.f, self.fine = f, fine            # fine: the loop forgets only the fields it writes, not the whole objects


class Cut:
    """for a loop of known length, which is unrolled: the assertion f(X, state, env) is proved at every visit of the loop head, after which only it is known about the variables `names`; with forget, only it and the precondition are known at all"""
    def __init__(self, f, names, forget=False): self.f, self.names, self.forget = f, names, forget


class Exec:
    def __init__(self, crate, contracts=None, models=None, subst=None, invariants=None, split=False, inline_depth=12, overflow=False):
        self.crate = crate
        self.contracts = contracts or {}
        self.models = models or {}
        self.subst = subst or {}
        self.invariants = invariants or {}; self.inv_sites = set()
        self.split = split
        self.facts = []
        self.base_pc = ()
        self.weak = set()          # facts left out at first
        self.binders = []          # bound variables currently in scope
        self.obls = []             # (name, guard conj, formula)
        self.n = itertools.count()
        self.depth = 0
        self.inline_depth = inline_depth
        self.used = {'inlined': set(), 'models': set(), 'contracts': set()}
        self.check_overflow = overflow
        self.fidn = itertools.count()
        self.cur = []
        self.unroll_limit = 17
        self.seen = {}
        self.memo = {}
        self.guards = []
        self.domain = []           # what is known about the bound variables in scope (index in range, element kept by the filters)
        self.uf_sqrt = False
        self.frames = []
        self.nfe, self.site = {}, {}              # for_each calls met per function; the call being executed
        self.lazy = 0              # > 0 while a closure is evaluated as a pure function of its arguments

    # ------------------------------------------------------------ symbols
    def name(self, base): return f'{base}!{next(self.n)}'

    def fresh(self, sort, base='k'):
        if self.binders:
            return Function(self.name(base), *[b.sort() for b in self.binders], sort)(*self.binders)
        return Const(self.name(base), sort)

    def fact(self, f):
        if is_true(f): return
        bs = bound_vars(f)
        if bs: f = ForAll(bs, f)
        self.facts.append(f)

    def struct_fields(self, ty): return self.crate.structs.get(base_ty(ty))

    def is_value(self, ty, depth=0):
        ty = self.strip(ty)
        if scalar_sort(ty) is not None: return True
        if depth > 4: return False
        if ty.startswith('(') and ty != '()': return all(self.is_value(t, depth + 1) for t in split_top(ty[1:-1]) if t)
        if re.fullmatch(r'\[.*; \d+\]', ty): return self.is_value(split_top(ty[1:-1], ';')[0], depth + 1)
        b = base_ty(ty)
        if b in ('Box', 'Arc', 'Rc', 'Weak'): return False
        fs = self.crate.structs.get(b)
        if fs is None or '<' in ty and b not in ('NotNan',): return False
        return all(self.is_value(t, depth + 1) for _, t in fs)

    def strip(self, ty):
        ty = ty.strip()
        while True:
            t = re.sub(r"^&('\w+ )?(mut )?", '', ty)
            m = re.match(r'^(?:std::(?:boxed|sync|rc)::)?(?:Box|Arc|Rc|Weak)<(.*)>$', t)
            if m: t = split_top(m[1])[0]
            if t == ty: break
            ty = t.strip()
        b = base_ty(ty)
        if b in ('NotNan', 'OrderedFloat'): return 'f32'
        if ty in self.subst: return self.strip(self.subst[ty])
        if b in ('CDEConfig',): return ty
        al = self.aliases().get(b)
        if al: return self.strip(al)
        return ty

    def aliases(self):
        if not hasattr(self.crate, '_aliases'):
            import os
            al = {}
            for d, _, fs in os.walk(os.path.join(self.crate.root, 'src')):
                for f in fs:
                    if f.endswith('.rs'):
                        for m in re.finditer(r'^\s*(?:pub )?type (\w+) = ([^;]+);', open(os.path.join(d, f)).read(), re.M):
                            al[m[1]] = ' '.join(m[2].split())
            self.crate._aliases = al
        return self.crate._aliases

    def mk(self, ty, gen, prefix, raw=False):
        """a symbolic value of type ty; gen(sort, suffix) makes the z3 expressions"""
        ty = self.strip(ty)
        s = scalar_sort(ty)
        if s is not None:
            e = gen(s, prefix)
            if ty in INTS and ty[0] == 'u': self.fact_on(e >= 0, e)
            return e
        if ty == '()': return Agg('()', [])
        if ty.startswith('('):
            return Agg('tuple', [self.mk(t, gen, f'{prefix}.{i}') for i, t in enumerate(x for x in split_top(ty[1:-1]) if x)])
        m = re.fullmatch(r'\[(.*); (\d+)\]', ty)
        if m: return Agg('array', [self.mk(m[1], gen, f'{prefix}[{i}]') for i in range(int(m[2]))])
        b = base_ty(ty)
        if self.is_value(ty):
            return Agg(b, [self.mk(t, gen, f'{prefix}.{n}') for n, t in self.crate.structs[b]])
        return Obj(gen(Term, prefix), ty)

    def fact_on(self, f, e):
        k = f.get_id()
        if k in self.seen: return
        self.seen[k] = f
        self.fact(f)

    def sym(self, ty, name):
        return self.mk(ty, lambda s, p: (self.fresh(s, p) if True else None), name)

    def sym_named(self, ty, name):
        return self.mk(ty, lambda s, p: Const(p, s), name)

    # ------------------------------------------------------------ projections
    def field(self, v, n, ty, variant=None):
        if v is UNDEF: return UNDEF
        if isinstance(v, Ite): return ite(v.c, self.field(v.a, n, ty, variant), self.field(v.b, n, ty, variant))
        t = ty.strip() if ty else ''
        if re.match(r'^(std::ptr::|core::ptr::)?(Unique|NonNull)<|^(std::boxed::)?BoxRaw<', t) or t.startswith('*const') or t.startswith('*mut'):
            return v
        if isinstance(v, Agg):
            if variant is not None and v.variant is not None and v.variant[1] != variant: return UNDEF
            if n >= len(v.fields): raise Unsupported(f'field {n} of {v}')
            return v.fields[n]
        if isinstance(v, Obj):
            k = (variant, n)
            if k in v.upd: return v.upd[k]
            own = base_ty(self.strip(v.ty)) + (f'::{variant}' if variant else '')
            term = v.term
            return self.mk(ty, lambda s, p: Function(f'{p}:{s.name()}', Term, s)(term), f'{own}.{n}')
        if is_scalar(v) and n == 0: return v            # newtypes over scalars (NotNan)
        raise Unsupported(f'field {n}:{ty} of {v!r}')

    def fieldn(self, v, name):
        """named field, for specifications"""
        if isinstance(v, Ite): return ite(v.c, self.fieldn(v.a, name), self.fieldn(v.b, name))
        t = base_ty(self.strip(v.ty))
        i = self.crate.field(t, name)
        return self.field(v, i, self.crate.structs[t][i][1])

    def discr(self, v):
        if isinstance(v, Ite): return If(v.c, self.discr(v.a), self.discr(v.b))
        if isinstance(v, Agg):
            if v.variant is None: raise Unsupported(f'discriminant of {v!r}')
            return IntVal(v.variant[0])
        if isinstance(v, Obj):
            if 'discr' in v.upd: return v.upd['discr']
            d = Function('discr', Term, IntSort())(v.term)
            b = base_ty(self.strip(v.ty))
            n = len(self.crate.enums.get(b, [])) or (len(STD_ENUMS[b]) if b in STD_ENUMS and b != 'Ordering' else 0)
            if n: self.fact_on(And(d >= 0, d < n), d)
            return d
        if v is UNDEF: return self.fresh(IntSort(), 'undef')
        raise Unsupported(f'discriminant of {v!r}')

    def length(self, v):
        if isinstance(v, Ite): return If(v.c, self.length(v.a), self.length(v.b))
        if isinstance(v, Agg):
            if v.ty == 'array': return IntVal(len(v.fields))
            raise Unsupported(f'len of {v!r}')
        if isinstance(v, Obj):
            l = Function('len', Term, IntSort())(v.term)
            self.fact_on(l >= 0, l)
            return l
        raise Unsupported(f'len of {v!r}')

    def elem_ty(self, ty):
        ty = self.strip(ty)
        m = re.match(r'^(?:[\w:]*::)?(Vec|VecDeque|IndexSet)<(.*)>$', ty)
        if m: return split_top(m[2])[0]
        if ty.startswith('['):
            return split_top(ty[1:-1], ';')[0]
        raise Unsupported(f'element type of {ty}')

    def elem(self, v, i, ty=None):
        if isinstance(i, int): i = IntVal(i)
        if isinstance(v, Ite): return ite(v.c, self.elem(v.a, i, ty), self.elem(v.b, i, ty))
        if isinstance(v, Agg) and v.ty == 'array':
            i = simplify(i)
            if is_int_value(i):
                if not 0 <= i.as_long() < len(v.fields): return UNDEF
                return v.fields[i.as_long()]
            out = v.fields[-1]
            for k in range(len(v.fields) - 2, -1, -1): out = ite(i == k, v.fields[k], out)
            return out
        if isinstance(v, Obj):
            et = ty or self.elem_ty(v.ty)
            term = v.term
            return self.mk(et, lambda s, p: Function(f'{p}:{s.name()}', Term, IntSort(), s)(term, i), f'elem.{re.sub(r"(\w+::)+", "", base_ty(self.strip(et)))}')
        raise Unsupported(f'index into {v!r}')

    def put_field(self, v, n, ty, variant, new):
        if isinstance(v, Ite): return ite(v.c, self.put_field(v.a, n, ty, variant, new), self.put_field(v.b, n, ty, variant, new))
        if isinstance(v, Agg):
            if variant is not None and v.variant is not None and v.variant[1] != variant: return v
            fs = list(v.fields)
            while len(fs) <= n: fs.append(UNDEF)
            fs[n] = new
            return Agg(v.ty, fs, v.variant)
        if isinstance(v, Obj):
            u = dict(v.upd); u[(variant, n)] = new
            return Obj(v.term, v.ty, u)
        if v is UNDEF:
            fs = [UNDEF] * n + [new]
            return Agg('?', fs)
        raise Unsupported(f'field write on {v!r}')

    def seq_like(self, ty, base='seq'): return Obj(self.fresh(Term, base), ty)

    def eq(self, a, b):
        """structural equality as a formula"""
        if a is b: return BoolVal(True)
        if isinstance(a, Ite): return And(Implies(a.c, self.eq(a.a, b)), Implies(Not(a.c), self.eq(a.b, b)))
        if isinstance(b, Ite): return self.eq(b, a)
        if is_scalar(a) and is_scalar(b): return a == b
        if isinstance(a, Agg) and isinstance(b, Agg):
            if (a.variant and a.variant[0]) != (b.variant and b.variant[0]): return BoolVal(False)
            if len(a.fields) != len(b.fields): raise Unsupported(f'eq {a!r} {b!r}')
            return conj([self.eq(x, y) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, Obj) and isinstance(b, Obj):
            if not a.upd and not b.upd: return a.term == b.term
            ks = set(a.upd) | set(b.upd)
            fs = []
            if not a.term.eq(b.term):
                return self.eq(self.to_obj(a), self.to_obj(b))
            for k in ks:
                if k == 'discr': fs.append(self.discr(a) == self.discr(b)); continue
                va = a.upd.get(k, UNDEF); vb = b.upd.get(k, UNDEF)
                ref = va if va is not UNDEF else vb
                ty = self.ty_of(ref)
                fs.append(self.eq(self.field(a, k[1], ty, k[0]), self.field(b, k[1], ty, k[0])))
            return conj(fs)
        if isinstance(a, Agg) and isinstance(b, Obj):
            fs = []
            if a.variant: fs.append(self.discr(b) == a.variant[0])
            for i, x in enumerate(a.fields):
                fs.append(self.eq(x, self.field(b, i, self.ty_of(x), a.variant[1] if a.variant else None)))
            return conj(fs)
        if isinstance(a, Obj) and isinstance(b, Agg): return self.eq(b, a)
        if isinstance(a, Ref) or isinstance(b, Ref): raise Unsupported('eq on references')
        raise Unsupported(f'eq {a!r} {b!r}')

    def ty_of(self, v):
        if is_scalar(v): return {'Real': 'f32', 'Int': 'usize', 'Bool': 'bool'}[v.sort().name()] if v.sort().name() != 'Int' else 'i64'
        if isinstance(v, Obj): return v.ty
        if isinstance(v, Agg):
            if v.ty == 'tuple': return '(' + ', '.join(self.ty_of(x) for x in v.fields) + ',)'
            if v.ty == '()': return '()'
            if v.ty == 'array' and v.fields: return f'[{self.ty_of(v.fields[0])}; {len(v.fields)}]'
            return v.ty
        if isinstance(v, Ite): return self.ty_of(v.a)
        raise Unsupported(f'type of {v!r}')

    def to_obj(self, v):
        """a term denoting the value"""
        if isinstance(v, Obj) and not v.upd: return v
        ty = self.ty_of(v)
        o = Obj(self.fresh(Term, 'val.' + base_ty(ty)), ty)
        if isinstance(v, Ite):
            a, b = self.to_obj(v.a), self.to_obj(v.b)
            return Obj(If(v.c, a.term, b.term), ty)
        if isinstance(v, Agg):
            self.fact(self.eq(v, o))
        elif isinstance(v, Obj):
            fs = self.crate.structs.get(base_ty(self.strip(ty)))
            b = base_ty(self.strip(ty))
            if fs is None and (b in self.crate.enums or b in STD_ENUMS):           # an enum with an updated payload
                self.fact(self.discr(v) == self.discr(o))
                for k, x in v.upd.items():
                    if k != 'discr': self.fact(self.eq(x, self.field(o, k[1], self.ty_of(x), k[0])))
                return o
            if fs is None or any(k == 'discr' or k[0] is not None for k in v.upd): raise Unsupported(f'term of {v!r}')
            for i, (n, t) in enumerate(fs):
                self.fact(self.eq(self.field(v, i, t), self.field(o, i, t)))
        return o

    # ------------------------------------------------------------ places
    def resolve(self, st, fid, place):
        loc, prs = place
        cell, path = (fid, loc), []
        for p in prs:
            if p[0] == 'deref':
                v = self.read(st, cell, path)
                if isinstance(v, Ref): cell, path = v.cell, list(v.path)
                elif isinstance(v, Ite) and (isinstance(v.a, Ref) or isinstance(v.b, Ref)): raise Unsupported('deref of a merged reference')
            elif p[0] == 'field':
                var = None
                if path and path[-1][0] == 'v': var = path.pop()[1]
                path.append(('f', p[1], p[2], var))
            elif p[0] == 'down': path.append(('v', p[1]))
            elif p[0] == 'index': path.append(('i', self.read(st, (fid, p[1]), [])))
            elif p[0] == 'cindex':
                if p[3]: path.append(('ie', p[1]))
                else: path.append(('i', IntVal(p[1])))
            else: raise Unsupported('place ' + str(place))
        return cell, path

    def read(self, st, cell, path):
        v = st.store.get(cell, UNDEF)
        return self.read_val(v, path, st)

    def read_val(self, v, path, st=None):
        for p in path:
            if isinstance(v, Ref) and p[0] == 'f' and 'BoxRaw<' in p[2]: continue
            if isinstance(v, Ref) and st is not None: v = self.read(st, v.cell, v.path)
            if p[0] == 'f': v = self.field(v, p[1], p[2], p[3])
            elif p[0] == 'i': v = self.elem(v, p[1])
            elif p[0] == 'ie': v = self.elem(v, self.length(v) - p[1])
            elif p[0] == 'v': pass
            elif p[0] == 'get':  v = p[1](v)
            else: raise Unsupported('path')
        return v

    def write(self, st, cell, path, new):
        """in place on st"""
        st.store[cell] = self.write_val(st.store.get(cell, UNDEF), list(path), new)

    def write_val(self, v, path, new):
        if not path: return new
        p = path[0]
        if p[0] == 'f':
            old = UNDEF
            if len(path) > 1: old = self.field(v, p[1], p[2], p[3])
            return self.put_field(v, p[1], p[2], p[3], self.write_val(old, path[1:], new))
        if p[0] == 'i':
            old = self.elem(v, p[1]) if len(path) > 1 else UNDEF
            return self.put_elem(v, p[1], self.write_val(old, path[1:], new))
        if p[0] == 'put': return p[2](v, self.write_val(p[1](v), path[1:], new))
        if p[0] == 'get' and len(p) == 3: return p[2](v, self.write_val(p[1](v), path[1:], new))
        if p[0] == 'v': return self.write_val(v, path[1:], new)
        raise Unsupported('write path')

    def put_elem(self, v, i, new):
        if isinstance(v, Agg) and v.ty == 'array':
            i = simplify(i)
            if is_int_value(i):
                fs = list(v.fields); fs[i.as_long()] = new
                return Agg('array', fs)
            return Agg('array', [ite(i == k, new, x) for k, x in enumerate(v.fields)])
        if isinstance(v, (Obj, Ite)):
            o = self.seq_like(self.ty_of(v))
            j = Int(self.name('?j'))
            self.fact(self.length(o) == self.length(v))
            self.fact(self.eq(self.elem(o, i), new) if not isinstance(new, Agg) or True else None)
            self.fact(Implies(j != i, self.eq(self.elem(o, j), self.elem(v, j))))
            return o
        raise Unsupported(f'index write on {v!r}')

    # ------------------------------------------------------------ operands
    def operand(self, st, fid, s):
        s = s.strip()
        if s.startswith('copy ') or s.startswith('move '):
            cell, path = self.resolve(st, fid, parse_place(s[5:]))
            return self.read(st, cell, path)
        if s.startswith('const '): return self.const(s[6:].strip())
        if re.match(r'^[_(]', s):
            cell, path = self.resolve(st, fid, parse_place(s))
            return self.read(st, cell, path)
        if re.match(r'^[A-Za-z<]', s): return FnItem(s)          # a function or constructor used as a value
        raise Unsupported('operand ' + s)

    FCONST = {'MAX': BIG, 'MIN': -BIG, 'PI': RealVal('3.14159265358979323846'), 'FRAC_PI_2': RealVal('1.57079632679489661923'), 'TAU': RealVal('6.28318530717958647692'), 'EPSILON': RealVal(Fraction(1, 2 ** 23)),
              'MIN_POSITIVE': RealVal(Fraction(1, 2 ** 126))}

    def const(self, c):
        if c in ('true', 'false'): return BoolVal(c == 'true')
        if c == '()': return Agg('()', [])
        if (m := re.fullmatch(r'(-?[\d_]+)_(' + '|'.join(INTS) + ')', c)): return IntVal(int(m[1].replace('_', '')))
        if (m := re.fullmatch(r'(-?[\d.]+(?:[eE][+-]?\d+)?)_?f(32|64)', c)): return RealVal(str(Fraction(m[1])))
        if (m := re.fullmatch(r'(?:core|std)::f(?:32|64)::(?:<impl f(?:32|64)>|consts)::(\w+)|f(?:32|64)::(\w+)', c)):
            k = m[1] or m[2]
            if k in self.FCONST: return self.FCONST[k]
            if k in ('INFINITY', 'NEG_INFINITY'):
                inf = Real('INF'); self.fact(inf > BIG)
                return inf if k == 'INFINITY' else -inf
            raise Unsupported('const ' + c)
        if (m := re.fullmatch(r'(?:core|std)::num::<impl (\w+)>::(MAX|MIN)|(\w+)::(MAX|MIN)', c)):
            t, k = m[1] or m[3], m[2] or m[4]
            if t in INTS:
                bits = 64 if 'size' in t else int(t[1:])
                if t[0] == 'u': return IntVal(2 ** bits - 1 if k == 'MAX' else 0)
                return IntVal(2 ** (bits - 1) - 1 if k == 'MAX' else -2 ** (bits - 1))
        if c.startswith('"'): return Agg('str', [])
        if (m := re.fullmatch(r'ZeroSized: \{closure@([^}]*)\}', c)): return Agg('closure@' + m[1], [], (0, json.dumps(self.subst, sort_keys=True)) if self.subst else None)
        if c.startswith('ZeroSized: '): return FnItem(c[11:])
        if c in ORD: return Agg('Ordering', [], (ORD[c], c))
        if c == 'None' or re.fullmatch(r'Option::<.*>::None', c): return NONE
        if (m := re.match(r'^\{alloc(\d+): &', c)) and (g := self.crate.consts.get(self.crate.statics.get(int(m[1]))) or self.crate.consts.get((self.crate.statics.get(int(m[1])) or '').split('::')[-1])) is not None:
            outs = self.run(g, [], State())                  # an immutable static: its initial value
            if len(outs) == 1: return outs[0][0]
        if re.match(r'^\{alloc', c): raise Unsupported('const ' + c)
        pm = re.search(r'(promoted\[\d+\])$', c)
        if pm and self.cur:
            g = self.crate.consts.get(f'{self.cur[-1].name}::{pm[1]}')
            if g is None: raise Unsupported('const ' + c)
            outs = self.run(g, [], State())
            if len(outs) != 1: raise Unsupported('const ' + c)
            return outs[0][0]
        # a constant of the crate (evaluated from its own MIR) or a fn item / unit struct / unit variant
        if re.fullmatch(r'(?:\w+::)*[A-Z][A-Z0-9_]*', c) and c.split('::')[-1] in self.crate.simple: return self.const(self.crate.simple[c.split('::')[-1]])
        f = self.find_const(c)
        if f is not None:
            outs = self.run(f, [], State())
            if len(outs) != 1: raise Unsupported('const ' + c)
            return outs[0][0]
        p = c.split('::')
        if len(p) >= 2:
            e = re.sub(r'<.*>$', '', p[-2]) if not p[-2].startswith('<') else re.sub(r'<.*', '', p[-3])
            vs = self.crate.enums.get(e) or STD_ENUMS.get(e)
            if vs and p[-1] in vs: return Agg(e, [], (vindex(e, vs, p[-1]), p[-1]))
        if c in self.crate.structs or (re.fullmatch(r'[\w:]+', c) and base_ty(c) in self.crate.structs): return Agg(base_ty(c), [])
        return FnItem(c)

    def find_const(self, c):
        ix = getattr(self.crate, '_constix', None)
        if ix is None:
            ix = {}
            for n, g in self.crate.consts.items():
                m = re.search(r'<impl at ([^:>]+):(\d+):[^>]*>', n)
                if m:
                    h = self.crate.impl_header(m[1], int(m[2]))
                    n = n.replace(m[0], base_ty(h[1]) if h and h[0] != 'derive' else '?')
                ix.setdefault(n, g)
            self.crate._constix = ix
        c = re.sub(r'<([^<>]*(?:<[^<>]*>)?[^<>]*) as [^>]*(?:<[^<>]*>)?>', lambda m: base_ty(m[1]), c)
        best = None
        for n, g in ix.items():
            tail = '::'.join(n.split('::')[-2:])
            if n == c or c.endswith('::' + n) or n.endswith('::' + c) or (len(n.split('::')) >= 2 and n.split('::')[-2][:1].isupper() and c.endswith(tail)):
                if best is None or len(n) > len(best[0]): best = (n, g)
        return best[1] if best else None

    # ------------------------------------------------------------ rvalues
    BIN = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'BitAnd', 'BitOr', 'BitXor', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'Shl', 'Shr', 'Cmp', 'Offset'}

    def binop(self, op, a, b, ty=None):
        if op in ('Eq', 'Ne') and not (is_scalar(a) and is_scalar(b)):
            e = self.eq(a, b); return e if op == 'Eq' else Not(e)
        if not (is_scalar(a) and is_scalar(b)): raise Unsupported(f'{op}({a!r}, {b!r})')
        isf = a.sort() == RealSort()
        op = op.replace('Unchecked', '')
        if op == 'Add': return a + b
        if op == 'Sub': return a - b
        if op == 'Mul': return a * b
        if op == 'Div':
            if isf:
                if is_rational_value(simplify(b)) : return a / b
                return self.fdiv(a, b)
            if is_int_value(simplify(b)): return a / b
            q = Function('idiv', IntSort(), IntSort(), IntSort())(a, b); r = self.binop('Rem', a, b)
            self.fact_on(Implies(And(a >= 0, b > 0), And(q >= 0, a == q * b + r)), q)
            return q
        if op == 'Rem' and not isf:
            if is_int_value(simplify(b)): return a % b
            r = Function('irem', IntSort(), IntSort(), IntSort())(a, b)       # symbolic divisor: a function symbol with the instances needed here
            self.fact_on(Implies(And(a >= 0, b > 0), And(r >= 0, r < b, Implies(a < b, r == a), Implies(And(a >= b, a < 2 * b), r == a - b))), r)
            return r
        if op == 'Rem':
            raise Unsupported('float remainder')
        if op == 'Eq': return a == b
        if op == 'Ne': return a != b
        if op in ('Lt', 'Le', 'Gt', 'Ge') and a.sort() == BoolSort(): raise Unsupported('bool order')
        if op == 'Lt': return a < b
        if op == 'Le': return a <= b
        if op == 'Gt': return a > b
        if op == 'Ge': return a >= b
        if a.sort() == BoolSort():
            if op == 'BitAnd': return And(a, b)
            if op == 'BitOr': return Or(a, b)
            if op == 'BitXor': return Xor(a, b)
        if op == 'Shl' and is_int_value(simplify(b)): return a * (2 ** simplify(b).as_long())
        if op == 'Shr' and is_int_value(simplify(b)): return a / (2 ** simplify(b).as_long())
        raise Unsupported(f'{op} on {a.sort()}')

    def fdiv(self, a, b):
        """division: a fresh quotient q with q*b = a when b != 0 (float division by zero gives a value about which nothing is known)"""
        q = self.fresh(RealSort(), 'q')
        self.fact(Implies(b != 0, q * b == a))
        return q

    def rvalue(self, st, fid, s, dest_ty):
        s = s.strip()
        m = re.match(r'^(\w+)\(', s)
        if m and m[1] in self.BIN:
            a, b = [self.operand(st, fid, x) for x in split_top(s[m.end():-1])]
            op = m[1]
            if op.endswith('WithOverflow'):
                r = self.binop(op[:-12], a, b)
                t = split_top(dest_ty[1:-1])[0] if dest_ty else 'usize'
                bits = 64 if 'size' in t else int(t[1:])
                lo, hi = (0, 2 ** bits - 1) if t[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
                return Agg('tuple', [r, Or(r < lo, r > hi)])
            return self.binop(op, a, b)
        if m and m[1] == 'Not':
            a = self.operand(st, fid, s[4:-1])
            if a.sort() != BoolSort(): raise Unsupported('Not on int')
            return Not(a)
        if m and m[1] == 'Neg': return -self.operand(st, fid, s[4:-1])
        if m and m[1] == 'discriminant':
            cell, path = self.resolve(st, fid, parse_place(s[len('discriminant('):-1]))
            v = self.read(st, cell, path)
            if isinstance(v, Ref): v = self.read(st, v.cell, v.path)
            return self.discr(v)
        if m and m[1] in ('Len', 'PtrMetadata'):
            inner = s[m.end():-1]
            v = self.operand(st, fid, inner)
            if isinstance(v, Ref): v = self.read(st, v.cell, v.path)
            return self.length(v)
        if m and m[1] == 'CopyForDeref':
            return self.operand(st, fid, s[m.end():-1])
        if s.startswith('&raw '):
            s2 = re.sub(r'^&raw (const|mut) (\(fake\) )?', '', s)
            cell, path = self.resolve(st, fid, parse_place(s2))
            v = self.read(st, cell, path)
            return Ref(cell, path) if s.startswith('&raw mut') else v
        if s.startswith('&mut ') or s.startswith('&fake '):
            cell, path = self.resolve(st, fid, parse_place(re.sub(r'^&(mut|fake \w+) ', '', s)))
            v = None
            return Ref(cell, path)
        if s.startswith('&'):
            cell, path = self.resolve(st, fid, parse_place(s[1:]))
            v = self.read(st, cell, path)
            if isinstance(v, Ref): v = self.deref_all(st, v)
            return v
        mm = re.match(r'^(.*) as (.*) \((\w+)(?:\(.*\))?\)$', s)
        if mm:
            v = self.operand(st, fid, mm[1]); kind, ty = mm[3], mm[2]
            if kind == 'IntToFloat': return ToReal(v)
            if kind == 'IntToInt':
                if v.sort() == BoolSort(): return If(v, IntVal(1), IntVal(0))
                return v
            if kind == 'FloatToInt':
                r = self.fresh(IntSort(), 'trunc')
                self.fact(And(Implies(v >= 0, And(ToReal(r) <= v, v < ToReal(r) + 1)), Implies(v < 0, (And(r == 0) if ty.strip()[0] == 'u' else And(ToReal(r) >= v, v > ToReal(r) - 1)))))
                return r
            if kind == 'FloatToFloat': return v
            if kind in ('Transmute', 'PointerCoercion', 'PtrToPtr', 'BoxDerefTransmute'): return v
            raise Unsupported('cast ' + kind)
        if s.startswith('copy ') or s.startswith('move ') or s.startswith('const '):
            return self.operand(st, fid, s)
        if s.startswith('no_retag '):
            m = re.match(r'^no_retag copy (\(.*\)|_\d+)$', s)
            if m and dest_ty and base_ty(dest_ty) == 'Box':           # the pointer of a box that is about to be dereferenced in place
                cell, path = self.resolve(st, fid, parse_place(m[1]))
                return Ref(cell, tuple(path))
            return self.rvalue(st, fid, s[9:], dest_ty)
        # aggregates
        if s.startswith('('):
            return Agg('tuple', [self.operand(st, fid, x) for x in split_top(s[1:-1]) if x])
        if s.startswith('['):
            parts = split_top(s[1:-1], ';')
            if len(parts) == 2 and re.fullmatch(r'\d+', parts[1].replace('const ', '').replace('_usize', '')):
                k = int(parts[1].replace('const ', '').replace('_usize', '')); v = self.operand(st, fid, parts[0])
                return Agg('array', [v] * k)
            return Agg('array', [self.operand(st, fid, x) for x in split_top(s[1:-1]) if x])
        if s.startswith('{closure@'):
            j = match_close(s, 0)
            span = s[len('{closure@'):j]
            rest = s[j + 1:].strip()
            fs = []
            if rest.startswith('{'):
                for x in split_top(rest[1:-1]):
                    if x: fs.append(self.operand(st, fid, x.split(':', 1)[1]))
            return Agg('closure@' + span, fs, (0, json.dumps(self.subst, sort_keys=True)) if self.subst else None)      # a closure remembers what the generics stand for
        # struct literal `Path { a: x }`, tuple struct / variant `Path(x)`, unit `Path`
        k = 0
        while k < len(s) and s[k] not in '({':
            if s[k] == '<': k = match_close(s, k)
            k += 1
        path, rest = s[:k].strip(), s[k:].strip()
        fs = []
        if rest.startswith('{'):
            fs = [self.operand(st, fid, x.split(':', 1)[1]) for x in split_top(rest[1:-1]) if x]
        elif rest.startswith('('):
            fs = [self.operand(st, fid, x) for x in split_top(rest[1:-1]) if x]
        segs = split_top(path, '::')
        segs = [x for x in segs if not x.startswith('<')]
        last = re.sub(r'<.*$', '', segs[-1])
        if len(segs) >= 2:
            e = re.sub(r'<.*$', '', segs[-2])
            vs = self.crate.enums.get(e) or STD_ENUMS.get(e)
            if vs and last in vs: return Agg(e, fs, (vindex(e, vs, last), last))
        if dest_ty:
            e = base_ty(self.strip(dest_ty))
            vs = self.crate.enums.get(e) or STD_ENUMS.get(e)
            if vs and last in vs: return Agg(e, fs, (vindex(e, vs, last), last))
        if last in self.crate.structs or re.fullmatch(r'\w+', last): return Agg(last, fs)
        raise Unsupported('rvalue ' + s)

    def deref_all(self, st, v):
        while isinstance(v, Ref): v = self.read(st, v.cell, v.path)
        return v

    # ------------------------------------------------------------ bodies
    def run(self, fn, args, st, subst=None):
        """-> [(return value, state)]"""
        if len(self.cur) > 40: raise Unsupported('inlining too deep')
        old, osp = self.subst, self.split
        if subst: self.subst = {**self.subst, **subst}
        if self.split == 'top' and self.cur: self.split = False      # 'top': paths are kept apart only in the function under proof, outside its loops
        self.cur.append(fn)
        try:
            return self._run(fn, args, st)
        finally:
            self.cur.pop(); self.subst, self.split = old, osp

    def _run(self, fn, args, st):
        fid = next(self.fidn)
        st = st.copy()
        for (l, t), a in zip(fn.params, args): st.store[(fid, l)] = a
        for l, t in fn.locals.items():                # closures without captures are never assigned in MIR
            if t.startswith('{closure@') and t.endswith('}') and (fid, l) not in st.store: st.store[(fid, l)] = Agg(t[1:-1], [], (0, json.dumps(self.subst, sort_keys=True)) if self.subst else None)
        cfg = Cfg.of(fn)
        outs = []
        self.frames.append((fn, fid))
        try: self.walk(fn, fid, cfg, 'bb0', st, outs, None)
        finally: self.frames.pop()
        if not outs: return []
        for _, s in outs:
            for k in [k for k in s.store if k[0] == fid]:
                if k[1] not in ('_0',) and not any(True for _ in ()): pass
        res = []
        for s in outs:
            s = s[1]
            r = s.store.get((fid, '_0'), Agg('()', []))
            s2 = State({k: v for k, v in s.store.items() if k[0] != fid or k[1] == '_0'}, s.pc)
            s2.store[('ret', fid)] = r
            res.append(s2)
        if self.split and not self.binders:
            o = []
            for s in res:
                r = s.store.pop(('ret', fid)); s.store.pop((fid, '_0'), None); o.append((r, s))
            return o
        m = merge(res, self)
        r = m.store.pop(('ret', fid)); m.store.pop((fid, '_0'), None)
        return [(r, m)]

    def walk(self, fn, fid, cfg, start, st0, outs, region):
        """process blocks in reverse post order from `start`; region: (loop head, set of blocks) limits the walk to a loop body, in which
        case the states arriving at the head / leaving the region are returned"""
        pend = {start: [st0]}
        back, exits = [], []
        order = cfg.rpo
        steps = 0
        while pend:
            bb = min(pend, key=lambda b: order[b])
            states = pend.pop(bb)
            if not self.split or self.binders: states = [merge(states, self)] if len(states) > 1 else states
            for st in states:
                if bb in cfg.heads and not (region and region[0] == bb and bb == start and st is st0):
                    succ = self.loop(fn, fid, cfg, bb, st, outs)
                else:
                    succ = self.block(fn, fid, bb, st, outs)
                for (tb, s2) in succ:
                    if region and tb == region[0]: back.append(s2)
                    elif region and tb not in region[1]: exits.append((tb, s2))
                    else: pend.setdefault(tb, []).append(s2)
            steps += 1
            if steps > 20000: raise Unsupported('too many steps')
        return back, exits

    def loop(self, fn, fid, cfg, head, st, outs):
        osp = self.split
        if self.split == 'top': self.split = False
        try: return self.loop_(fn, fid, cfg, head, st, outs)
        finally: self.split = osp

    def loop_(self, fn, fid, cfg, head, st, outs):
        body = cfg.loops[head]
        inv = self.find_inv(fn, cfg, head)
        if inv is None or isinstance(inv, Cut):
            # unroll: only possible when the exit condition becomes concrete
            exits, cur, n = [], [st], 0
            while cur:
                n += 1
                if n > self.unroll_limit: raise Unsupported(f'loop without invariant in {fn.name}')
                nxt = []
                for s in cur:
                    if inv is not None:
                        for i, f in enumerate(inv.f(self, s, self.env(fn, fid, s, head))): self.obl(f'{short(fn.name)} loop {cfg.loop_index[head]} assertion[{i}] before iteration {n}', s, f)
                        s = s.copy()
                        for nm in inv.names:
                            loc = next((p for d, p in fn.debug if d == nm), None)
                            if loc is None or loc not in fn.locals: raise Unsupported(f'no variable {nm} in {fn.name}')
                            s.store[(fid, loc)] = self.sym(fn.locals[loc], nm)
                        if inv.forget and not self.binders: s.pc = self.base_pc
                        for f in inv.f(self, s, self.env(fn, fid, s, head)): s = s.assume(f)
                    b, e = self.walk(fn, fid, cfg, head, s, outs, (head, body))
                    nxt += b; exits += e
                if nxt and (not self.split or self.binders): nxt = [merge(nxt, self)]
                cur = nxt
            return exits
        nm = f'{short(fn.name)} loop {cfg.loop_index[head]}'
        for i, f in enumerate(inv.f(self, st, self.env(fn, fid, st, head))):
            self.obl(f'{nm} invariant[{i}] on entry', st, f)
        # modified cells: found by running the body, to a fixpoint
        mod = {}
        while True:
            h = st.copy()
            for c, tr in mod.items(): h.store[c] = self.havoc_at(st.store.get(c, UNDEF), tr, c, fn.locals.get(c[1]) if c[0] == fid else None)
            nf, no = len(self.facts), len(self.obls)
            hh = h.copy()
            for f in inv.f(self, hh, self.env(fn, fid, hh, head)): hh = hh.assume(f)
            o2 = []
            b, e = self.walk(fn, fid, cfg, head, hh, o2, (head, body))
            if not self.grow(mod, h, b, inv.fine): break
            del self.obls[no:]
        for s in b:
            for i, f in enumerate(inv.f(self, s, self.env(fn, fid, s, head))):
                self.obl(f'{nm} invariant[{i}] preserved', s, f)
        outs.extend(o2)
        return e

    def grow(self, mod, h, outs, fine):
        """add to mod (cell -> None: all of it | {field: (type, subtree)}) what the states outs changed with respect to h; -> anything new?"""
        ch = [False]

        def diff(a, b, t):
            if same(a, b): return t
            if t is None: return None
            if fine and isinstance(a, Obj) and isinstance(b, Obj) and a.term.eq(b.term) and 'discr' not in b.upd:
                t = dict(t)
                for k, nv in b.upd.items():
                    ov = a.upd.get(k)
                    if ov is not None and same(ov, nv): continue
                    ty = t[k][0] if k in t else self.ty_of(nv)
                    ov = ov if ov is not None else self.field(Obj(a.term, a.ty), k[1], ty, k[0])
                    if k not in t: ch[0] = True
                    t[k] = (ty, diff(ov, nv, t.get(k, (ty, {}))[1]))
                return t
            if fine and isinstance(a, Ite) and isinstance(b, Ite) and a.c.eq(b.c):
                t = diff(a.a, b.a, t); return t if t is None else diff(a.b, b.b, t)
            ch[0] = True
            return None
        for s in outs:
            for c, v in s.store.items():
                if c in h.store:
                    if c in mod and mod[c] is None: continue
                    if same(v, h.store[c]): continue
                    if c not in mod: ch[0] = True
                    mod[c] = diff(h.store[c], v, mod.get(c, {}))
        return ch[0]

    def havoc_at(self, v, tree, cell, ty=None):
        if tree is None: return self.havoc(v, cell, ty)
        for k, (t, sub) in tree.items():
            v = self.put_field(v, k[1], t, k[0], self.havoc_at(self.field(v, k[1], t, k[0]), sub, cell))
        return v

    def havoc(self, v, cell, ty=None):
        if v is UNDEF: return UNDEF
        if ty and isinstance(v, (Agg, Ite)) and not is_mut_ty(ty) and '{closure' not in ty and 'std::iter' not in ty and 'std::slice::Iter' not in ty and 'std::ops::Range' not in ty:
            return self.sym(ty, f'h{cell[1]}')
        if is_scalar(v):
            r = self.fresh(v.sort(), f'h{cell[1]}')
            return r
        if isinstance(v, Agg):
            if v.variant is not None:
                return UNDEF
            return Agg(v.ty, [self.havoc(x, cell) for x in v.fields])
        if isinstance(v, Obj): return Obj(self.fresh(Term, f'h{cell[1]}'), v.ty)
        if isinstance(v, It):
            p = self.fresh(IntSort(), 'pos')
            self.fact(And(p >= 0, p <= v.n))
            return v.rep(pos=p)
        if isinstance(v, Ref): raise Unsupported('loop changes a reference')
        if isinstance(v, Ite): return self.havoc(v.a, cell)
        raise Unsupported(f'havoc {v!r}')

    def find_inv(self, fn, cfg, head):
        k = (short(fn.name), cfg.loop_index[head])
        if k in self.invariants: self.inv_sites.add(f'{k[0]} {k[1]} loop')
        return self.invariants.get(k)

    def head_iter(self, fn, head):
        """the local holding the iterator that the head of a for loop advances"""
        stmts, term = fn.blocks[head]
        if 'Iterator>::next(' not in str(term) and 'DoubleEndedIterator>::next_back(' not in str(term): return None
        for x in reversed(stmts):
            m = re.match(r'^_\d+ = &mut (_\d+)$', x)
            if m: return m[1]
        return None

    def env(self, fn, fid, st, head=None):
        e = {}
        for n, p in fn.debug:
            try:
                if p.startswith('const '): v = self.const(p[6:])
                else:
                    cell, path = self.resolve(st, fid, parse_place(p)); v = self.read(st, cell, path)
                v = self.deref_all(st, v)
            except (Unsupported, ValueError): continue
            if v is not UNDEF or n not in e: e[n] = v
        e['__locals'] = {c[1]: v for c, v in st.store.items() if c[0] == fid}
        its = [(int(l[1:]), v) for l, v in e['__locals'].items() if isinstance(v, It) and v.kind == 'it']
        own = self.head_iter(fn, head) if head is not None else None
        if its and '#' not in e:
            e['it'] = next((v for n, v in its if f'_{n}' == own), None) or max(its)[1]
            e['#'] = e['it'].pos
        return e

    def for_each(self, it, clo, st, acc=None, step=None):
        """for_each with a side effect - and fold, sum, a collect whose closure has effects - over an iterator of unknown length: a loop with an invariant.
        acc: the initial value accumulated, step(state, acc, element) -> [(acc, state)]; the invariant finds it as env['acc']"""
        fn, fid = self.frames[-1]
        sites = self.nfe.setdefault(fid, []); site = self.site.get(fid)
        if site not in sites: sites.append(site)
        k = sites.index(site)
        nl = len(Cfg.of(fn).heads)
        inv = self.invariants.get((short(fn.name), nl + k))
        if inv is None: raise Unsupported(f'for_each without invariant in {fn.name}')
        self.inv_sites.add(f"{short(fn.name)} {nl + k} {'for_each' if step is None else 'fold'}")
        nm = f'{short(fn.name)} for_each {k}'; ac = ('acc', next(self.fidn))
        if step is not None: st = st.copy(); st.store[ac] = acc
        def env(s, p):
            e = self.env(fn, fid, s); e['#'] = p; e['it'] = it
            if step is not None: e['acc'] = s.store[ac]
            return e
        for i, f in enumerate(inv.f(self, st, env(st, it.pos))): self.obl(f'{nm} invariant[{i}] on entry', st, f)
        mod = {}
        while True:
            p = self.fresh(IntSort(), 'fpos')
            h = st.copy()
            for c, tr in mod.items(): h.store[c] = self.havoc_at(st.store.get(c, UNDEF), tr, c)
            no = len(self.obls)
            h = h.assume(And(p >= it.pos, p <= it.n))
            for f in inv.f(self, h, env(h, p)): h = h.assume(f)
            b0 = h.assume(p < it.n)
            kp = it.keep(p) if it.keep else BoolVal(True)
            if step is None: outs = [s for _, s in self.closure(clo, [it.get(p)], b0.assume(kp))]
            else:
                outs = []
                for a, s in step(b0.assume(kp), b0.store[ac], p): s = s.copy(); s.store[ac] = a; outs.append(s)
            if it.keep: outs.append(b0.assume(Not(kp)))
            if not self.grow(mod, h, outs, inv.fine): break
            del self.obls[no:]
        for s in outs:
            for i, f in enumerate(inv.f(self, s, env(s, p + 1))): self.obl(f'{nm} invariant[{i}] preserved', s, f)
        h = h.assume(p == it.n)
        if step is None: return h
        h = h.copy(); a = h.store.pop(ac); return a, h

    def beyond(self, pc):
        """the part of a path condition that is not the precondition of the function being verified"""
        k = 0
        while k < len(self.base_pc) and k < len(pc) and pc[k].eq(self.base_pc[k]): k += 1
        return pc[k:]

    def obl(self, name, st, f):
        r = self.beyond(st.pc)
        g = Implies(conj(r), f)
        bs = bound_vars(g)
        if bs: self.obls.append((name, st.pc[:len(st.pc) - len(r)], ForAll(bs, g)))
        else: self.obls.append((name, st.pc, f))

    def block(self, fn, fid, bb, st, outs):
        stmts, term = fn.blocks[bb]
        st = st.copy()
        for s in stmts: self.stmt(fn, fid, st, s)
        return self.term(fn, fid, st, term, outs)

    IGN = ('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'Retag', 'AscribeUserType', 'ConstEvalCounter', 'Coverage', 'assume(', 'backward_incompatible', 'BackwardIncompatible')

    def stmt(self, fn, fid, st, s):
        if s.startswith(self.IGN): return
        parts = split_top(s, ' = ')
        lhs, rhs = parts[0], ' = '.join(parts[1:])
        if lhs.startswith('discriminant('):
            cell, path = self.resolve(st, fid, parse_place(lhs[len('discriminant('):-1]))
            raise Unsupported('set discriminant')
        if lhs.startswith('Deinit('): return
        pl = parse_place(lhs)
        dty = self.place_ty(fn, pl)
        v = self.rvalue(st, fid, rhs, dty)
        if isinstance(v, Agg) and v.ty == '?' : pass
        cell, path = self.resolve(st, fid, pl)
        self.write(st, cell, path, v)

    def place_ty(self, fn, pl):
        loc, prs = pl
        if not prs: return fn.locals.get(loc)
        for p in reversed(prs):
            if p[0] == 'field': return p[2]
        return fn.locals.get(loc)

    def cond_states(self, st, pairs):
        """pairs: [(cond, target)] -> feasible successors"""
        out = []
        for c, t in pairs:
            c = simplify(c)
            if is_false(c): continue
            s = st.copy() if is_true(c) else st.assume(c)
            if self.split and not is_true(c) and not self.binders and not self.feasible(s): continue
            out.append((t, s))
        return out

    def feasible(self, st):
        s = Solver(); s.set('timeout', 400)
        s.add(*[f for f in self.facts if not is_quantifier(f)]); s.add(*st.pc)
        return s.check() != unsat

    def term(self, fn, fid, st, t, outs):
        if t == 'return': outs.append((None, st)); return []
        if t.startswith('goto -> '): return [(t[8:].strip(), st)]
        if t.startswith('unreachable') or t.startswith('resume') or t.startswith('terminate'): return []
        if t.startswith('switchInt('):
            j = match_close(t, t.index('('))
            v = self.operand(st, fid, t[len('switchInt('):j])
            arms = re.match(r'\s*->\s*\[(.*)\]$', t[j + 1:])[1]
            pairs, seen = [], []
            for a in split_top(arms):
                k, tb = [x.strip() for x in a.split(':')]
                if k == 'otherwise': c = conj([Not(x) for x in seen])
                else:
                    if v.sort() == BoolSort(): c = Not(v) if int(k) == 0 else v
                    else: c = v == int(k)
                    seen.append(c)
                pairs.append((c, tb))
            return self.cond_states(st, pairs)
        if t.startswith('drop('):
            m = re.search(r'return: (bb\d+)', t); return [(m[1], st)]
        if t.startswith('assert('):
            j = match_close(t, t.index('('))
            a = split_top(t[len('assert('):j])
            c = a[0]
            neg = c.startswith('!')
            v = self.operand(st, fid, c[1:] if neg else c)
            if neg: v = Not(v)
            if self.check_overflow and len(self.cur) == 1: self.obl(f'{short(fn.name)} does not panic: {a[1] if len(a) > 1 else ""}', st, v)
            m = re.search(r'success: (bb\d+)', t)
            v = simplify(v)
            return [(m[1], st if is_true(v) else st.assume(v))]
        if t.startswith('falseEdge') or t.startswith('falseUnwind'):
            m = re.search(r'\[(?:real: )?(bb\d+)', t); return [(m[1], st)]
        return self.call(fn, fid, st, t)

    # ------------------------------------------------------------ calls
    def call(self, fn, fid, st, t):
        body, dest, tgt = split_call(t)
        callee, argtxt = body
        args = [self.operand(st, fid, a) for a in argtxt]
        dty = self.place_ty(fn, parse_place(dest)) if dest else None
        m = re.search(r'return: (bb\d+)', tgt)
        self.site[fid] = t
        outs = self.invoke(callee, args, st, dty)
        if m is None: return []
        res = []
        for r, s in outs:
            s = s.copy()
            if dest:
                cell, path = self.resolve(s, fid, parse_place(dest))
                self.write(s, cell, path, r)
            res.append((m[1], s))
        return res

    def invoke(self, callee, args, st, dty=None):
        if callee.startswith('const '):
            return self.closure(self.const(callee[6:].strip()), args, st)
        if callee.startswith(('move ', 'copy ')): raise Unsupported('call through a function pointer')
        key = canon(callee, self.subst)
        m = re.match(r'^<dyn\w+ as (.*)$', key)
        if m and args:                                    # dynamic dispatch on a known receiver
            try: ty = base_ty(self.strip(self.ty_of(self.deref_all(st, args[0]))))
            except Unsupported: ty = None
            if ty in self.crate.structs or ty in self.crate.enums: key = callee = f'<{ty} as {m[1]}'
        # 1 contract
        c = self.contracts.get(key)
        if c is None and key.startswith('<'):
            c = self.contracts.get(re.sub(r'^<(\w+)(?:<.*?>)? as .*>::(\w+)$', r'\1::\2', key)) if False else None
        if c is not None and not (len(self.cur) == 0):
            self.used['contracts'].add(key)
            return c.apply(self, args, st, dty)
        # 2 model
        r = MODELS.dispatch(self, key, callee, args, st, dty)
        if r is not None:
            self.used['models'].add(key)
            return r
        # 3 crate function
        f, sub = self.lookup(key, callee)
        m = re.match(r'^<(.*) as PartialEq(<.*>)?>::(eq|ne)$', key)
        if m and f is None and m[3] == 'ne': f, sub = self.lookup(key[:-2] + 'eq', callee)
        if m and f is not None and getattr(f, 'derived', False):
            e = self.eq(self.deref_all(st, args[0]), self.deref_all(st, args[1]))
            self.used['models'].add('derived PartialEq')
            return [(e if m[3] == 'eq' else Not(e), st)]
        if f is not None:
            if any(f is g for g in self.cur): raise Unsupported(f'recursion into {key} without a contract')
            self.used['inlined'].add(short(f.name))
            return self.run(f, args, st, sub)
        raise Unsupported(f'call of {key}')

    def lookup(self, key, callee):
        m = re.match(r'^<(.*) as (.*)>::(\w+)$', key)
        if m:
            sty, tr, meth = m[1], m[2], m[3]
            trb = re.sub(r'<.*$', '', tr)
            best = None
            for f in self.crate.by_method.get(meth, []):
                if not f.trait or not f.self_ty: continue
                ft = norm_ty(re.sub(r"'\w+", '', f.trait))
                if re.sub(r'<.*$', '', ft) != trb: continue
                sub = unify(norm_ty(f.self_ty), sty)
                if sub is None: sub = unify(base_ty(norm_ty(f.self_ty)), re.sub(r'^&+(mut)?', '', sty))
                if sub is None: continue
                s2 = unify(ft, tr)
                if s2 is None and '<' in ft and '<' in tr: continue
                return f, {**sub, **(s2 or {})}
            # default method of a trait of the crate
            for f in self.crate.by_method.get(meth, []):
                if not f.impl and f.name.split('::')[-2:-1] == [trb]: return f, {'Self': sty}
            return None, None
        segs = split_top(key, '::')
        meth = segs[-1]
        if len(segs) >= 2:
            ty = re.sub(r'<.*$', '', segs[-2])
            for f in self.crate.by_method.get(meth, []):
                if f.impl and not f.trait and f.self_ty and base_ty(f.self_ty) == ty: return f, {}
        c = [f for f in self.crate.by_method.get(meth, []) if not f.impl]
        if len(c) > 1 and len(segs) > 1: c = [f for f in c if f.name.split('::')[-2:] == segs[-2:]] or c
        if len(c) == 1: return c[0], {}
        return None, None

    def closure(self, clo, args, st):
        """apply a closure / fn item value -> [(value, state)]"""
        if isinstance(clo, Ref): clo = self.deref_all(st, clo)
        if isinstance(clo, FnItem):
            p = re.sub(r'::<.*>$', '', clo.name).split('::')
            if p[-1] in self.crate.structs: return [(Agg(p[-1], list(args)), st)]
            vs = len(p) > 1 and (self.crate.enums.get(p[-2]) or STD_ENUMS.get(p[-2]))
            if vs and p[-1] in vs: return [(Agg(p[-2], list(args), (vindex(p[-2], vs, p[-1]), p[-1])), st)]
            return self.invoke(clo.name, args, st)
        if not (isinstance(clo, Agg) and clo.ty.startswith('closure@')): raise Unsupported(f'call of {clo!r}')
        span = clo.ty[len('closure@'):]
        f = self.crate.closures.get(span)
        if f is None: raise Unsupported('closure ' + span)
        if len(f.params) - 1 != len(args): raise Unsupported('closure arity')
        return self.run(f, [clo] + list(args), st, json.loads(clo.variant[1]) if clo.variant else None)

    def join(self, outs):
        """merge several outcomes of a call into one (in merge mode)"""
        if len(outs) <= 1 or (self.split and not self.binders): return outs
        k = ('join', next(self.fidn))
        ss = []
        for r, s in outs:
            s = s.copy(); s.store[k] = r; ss.append(s)
        m = merge(ss, self)
        return [(m.store.pop(k), m)]

    effects = None

    def closure1(self, clo, args, st):
        """pure application: one merged outcome, state unchanged except for assumptions -> (value, guard)"""
        old = self.split
        self.split = False
        self.lazy += 1
        try:
            base = State(dict(st.store), st.pc + tuple(self.domain))
            outs = self.closure(clo, args, base)
        finally: self.split = old; self.lazy -= 1
        if not outs: raise Unsupported('closure diverges')
        if len(outs) > 1: raise Unsupported('closure outcomes')
        v, s = outs[0]
        for c, x in s.store.items():
            if c in st.store and not same(x, st.store[c]):
                if self.effects is None: raise Unsupported('closure with side effects')
                self.effects.append((c, st.store[c], x))
        return v, conj(s.pc[len(base.pc):])


STD_ENUMS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'Ordering': ['Less', 'Equal', 'Greater'], 'ControlFlow': ['Continue', 'Break'], 'Tribool': ['True', 'False', 'Indeterminate']}
ORD = {'Less': 255, 'Equal': 0, 'Greater': 1}       # i8 discriminants as MIR prints them


def vindex(enum, vs, name): return ORD[name] if enum == 'Ordering' else vs.index(name)



def is_mut_ty(t): return bool(re.match(r"^&('\w+ )?mut ", t.strip()))


def some(v): return Agg('Option', [v], (1, 'Some'))
NONE = Agg('Option', [], (0, 'None'))


def bound_vars(e):
    """free quantifier variables (constants whose name starts with '?')"""
    out, seen, work = {}, set(), [e]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if is_quantifier(x): work.append(x.body()); continue
        if is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == Z3_OP_UNINTERPRETED and x.decl().name().startswith('?'): out[x.decl().name()] = x
            else: work += x.children()
    return list(out.values())


def short(n):
    m = re.match(r'^(.*?)<impl at ([^:>]+):\d+:\d+: \d+:\d+>::(.*)$', n)
    if m: return m[1] + m[3]
    return n


def split_call(t):
    k = None
    depth = 0
    i = t.rfind(' -> [return')
    if i < 0: i = t.rfind(' -> unwind')
    if i < 0: i = t.rfind(' -> [')
    if i < 0 and (m := re.search(r' -> bb\d+$', t)): i = m.start()      # diverging call: only an unwind target
    if i < 0: raise Unsupported('terminator ' + t)
    tgt, b = t[i:], t[:i]
    parts = split_top(b, ' = ')
    dest = None
    if len(parts) > 1: dest, b = parts[0], ' = '.join(parts[1:])
    k = 0
    while True:
        c = b[k]
        if c in '<{': k = match_close(b, k) + 1; continue
        if c == '(':
            break
        k += 1
    j = match_close(b, k)
    return (b[:k], [a for a in split_top(b[k + 1:j]) if a]), dest, tgt


def canon(callee, subst):
    """canonical key: `Type::method`, `<Type as Trait<Args>>::method` or `fn` - module paths, lifetimes and method generics dropped"""
    c = callee.strip()
    c = re.sub(r"'\w+(, )?", lambda m: '' , c)
    c = c.replace('::<>', '').replace('<>', '')
    if c.startswith('<') :
        j = match_close(c, 0)
        inner, rest = c[1:j], c[j + 1:]
        rest = strip_generics(rest)
        sp = split_top(inner, ' as ')
        if len(sp) == 2:
            s, tr = [norm_ty(x) for x in sp]
            for a, b in subst.items():
                s = re.sub(rf'\b{a}\b', norm_ty(b), s); tr = re.sub(rf'\b{a}\b', norm_ty(b), tr)
            s = re.sub(r'^&+(mut)?', '', s) if re.match(r'^&', s) else s
            return f'<{s} as {tr}>{rest}'
        return norm_ty(inner) + rest
    m = re.match(r'^(.*)<impl (.*)>::(\w+)(::<.*>)?$', c)
    if m:
        t = norm_ty(m[2])
        return f'{t}::{m[3]}'
    c = strip_generics(c)
    segs = split_top(c, '::')
    return '::'.join(segs[-2:]) if len(segs) >= 2 else c


def strip_generics(c):
    out, i = [], 0
    while i < len(c):
        if c.startswith('::<', i):
            i = match_close(c, i + 2) + 1; continue
        out.append(c[i]); i += 1
    return ''.join(out)


def unify(pat, t):
    """pattern type from an impl header against a concrete type; single capitals are variables"""
    pat = re.sub(r'\bfsize\b', 'f32', pat)
    if pat == t: return {}
    if re.fullmatch(r'[A-Z][A-Z0-9]?', pat): return {pat: t}
    m1, m2 = re.match(r'^(&?[\w]+)<(.*)>$', pat), re.match(r'^(&?[\w]+)<(.*)>$', t)
    if m1 and m2 and m1[1] == m2[1]:
        a, b = split_top(m1[2]), split_top(m2[2])
        if len(a) != len(b): return None
        out = {}
        for x, y in zip(a, b):
            s = unify(x, y)
            if s is None: return None
            out.update(s)
        return out
    if pat.startswith('&') and t.startswith('&'): return unify(pat[1:], t[1:])
    return None


class Cfg:
    def __init__(self, fn):
        succ = {}
        for bb, (_, t) in fn.blocks.items():
            t2 = re.sub(r'unwind: bb\d+', '', t)
            t2 = re.sub(r'"(?:[^"\\]|\\.)*"', '', t2)
            if re.search(r'\) -> bb\d+$', t2) and not t2.startswith('goto'): succ[bb] = []; continue
            succ[bb] = re.findall(r'\bbb\d+\b', t2.split('->')[-1]) if '->' in t2 else []
        self.succ = succ
        post, seen = [], {}
        self.heads, backs = set(), []
        # iterative dfs
        stack = [('bb0', iter(succ['bb0']))]
        seen['bb0'] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen[s] = 1; stack.append((s, iter(succ[s]))); break
                elif seen[s] == 1: self.heads.add(s); backs.append((b, s))
            else:
                seen[b] = 2; post.append(b); stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        pred = {}
        for b, ss in succ.items():
            for s in ss: pred.setdefault(s, []).append(b)
        self.loops = {}
        for b, h in backs:
            body = self.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work += pred.get(x, [])
        self.loop_index = {h: i for i, h in enumerate(sorted(self.heads, key=lambda b: int(b[2:])))}

    @staticmethod
    def of(fn):
        if not hasattr(fn, '_cfg'): fn._cfg = Cfg(fn)
        return fn._cfg


from models import MODELS   # noqa: E402
