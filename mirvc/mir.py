"""Parser for the compiler's textual MIR (rustc -Zunpretty=mir) of the crate under verification."""
import os, re

OPEN, CLOSE = '([{<', ')]}>'


def split_top(s, sep=','):
    """split at top level; understands brackets, strings, `->` and `=>`"""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"' or s[j - 1] == '\\': j += 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c in '-=' and i + 1 < n and s[i + 1] == '>':
            cur.append(s[i:i + 2]); i += 2; continue
        if c in OPEN: depth += 1
        elif c in CLOSE: depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append(''.join(cur).strip()); cur = []; i += len(sep); continue
        cur.append(c); i += 1
    t = ''.join(cur).strip()
    if t or out: out.append(t)
    return out


def match_close(s, i):
    """index of the bracket closing the one at s[i]"""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"' or s[i - 1] == '\\': i += 1
        elif c in '-=' and i + 1 < n and s[i + 1] == '>': i += 1
        elif c in OPEN: depth += 1
        elif c in CLOSE:
            depth -= 1
            if depth == 0: return i
        i += 1
    raise ValueError('unbalanced: ' + s)


class Fn:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret   # params: [(local, type)]
        self.locals = {}     # local -> type
        self.debug = []      # (name, place text)
        self.blocks = {}     # bb -> (stmts, terminator)
        self.impl = None     # (file, line) of the enclosing impl block
        self.is_const = False

    def __repr__(self): return f'<fn {self.name}>'


def parse_place(s):
    """place -> (local, [proj...]); proj: ('deref',) ('field',n,type) ('down',variant) ('index',local) ('cindex',i,n,from_end) ('sub',a,b,from_end)"""
    s = s.strip()
    if s.startswith('('):
        j = match_close(s, 0)
        inner, rest = s[1:j].strip(), s[j + 1:]
        if inner.startswith('*'):
            loc, pr = parse_place(inner[1:]); pr = pr + [('deref',)]
        else:
            # field "(P.N: T)", downcast "(P as V)"
            if inner.startswith('('):
                k = match_close(inner, 0) + 1
            else:
                k = re.match(r'_\d+', inner).end()
            while k < len(inner) and inner[k] == '[':
                k = match_close(inner, k) + 1
            base, suf = inner[:k], inner[k:]
            loc, pr = parse_place(base)
            m = re.match(r'\.(\d+): (.*)$', suf, re.S)
            if m: pr = pr + [('field', int(m[1]), m[2].strip())]
            else:
                m = re.match(r' as (variant#(\d+)|\w+)$', suf)
                if not m: raise ValueError('place: ' + s)
                pr = pr + [('down', m[1])]
        base = (loc, pr)
    else:
        m = re.match(r'_\d+', s)
        if not m: raise ValueError('place: ' + s)
        base, rest = (m[0], []), s[m.end():]
    loc, pr = base
    while rest:
        if not rest.startswith('['): raise ValueError('place: ' + s)
        j = match_close(rest, 0); ix, rest = rest[1:j], rest[j + 1:]
        if re.fullmatch(r'_\d+', ix): pr = pr + [('index', ix)]
        elif (m := re.fullmatch(r'(-?)(\d+) of (\d+)', ix)): pr = pr + [('cindex', int(m[2]), int(m[3]), m[1] == '-')]
        elif (m := re.fullmatch(r'(\d+):(-?)(\d*)', ix)): pr = pr + [('sub', int(m[1]), int(m[3] or 0), True)]
        else: raise ValueError('index: ' + s)
    return loc, pr


HDR = re.compile(r'^(?:pub )?(?:const )?(?:unsafe )?(?:async )?(?:extern "[^"]*" )?fn (.*)$')


def beside(text, rel, base):
    """the MIR of a crate that uses another one (`base`), as if it were part of that: paths without the crate's name, source files found from the other's root, memory blocks numbered apart"""
    text = re.sub(rf'\b{base}::', '', text)
    text = re.sub(r'(<impl at |closure@)src/', lambda m: f'{m[1]}{rel}/src/', text)
    return re.sub(r'\balloc(\d+)\b', lambda m: f'alloc9{int(m[1]):06}', text)


class Crate:
    def __init__(self, text, root, more=()):
        """more: (text, root) of crates that use this one"""
        self.root, self.roots = root, [root] + [r for _, r in more]
        for t, r in more: text += '\n' + beside(t, os.path.relpath(r, root), os.path.basename(root).replace('-', '_'))
        self.fns = {}
        self.consts = {}
        self.allocs = {}
        self.statics = {int(m[1]): m[2] for m in re.finditer(r'^alloc(\d+) \(static: ([\w:]+)', text, re.M)}
        self._src = {}
        self.simple = {}                       # constants with a literal value
        for m in re.finditer(r'^const (\w+): [^=\n]* = const (.*);$', text, re.M): self.simple[m[1]] = m[2]
        self.parse(text)
        self.enums = {}
        self.structs = {}
        self.scan_types()
        for k, fs in self.structs.items():
            self.structs[k] = [(n, re.sub(r'; ([A-Z_]+)\]', lambda m: '; ' + re.sub(r'_[ui].*$', '', self.simple.get(m[1], m[1])) + ']', t)) for n, t in fs]
        self.index()

    # ---- source access (impl headers, enum declarations)
    def src(self, f):
        if f not in self._src:
            p = os.path.join(self.root, f)
            self._src[f] = open(p).read() if os.path.exists(p) else ''
        return self._src[f]

    def scan_types(self):
        for d, _, fs in (x for r in self.roots for x in os.walk(os.path.join(r, 'src'))):
            for f in fs:
                if not f.endswith('.rs'): continue
                t = re.sub(r'//[^\n]*', '', re.sub(r'"(?:\\.|[^"\\])*"', '""', open(os.path.join(d, f)).read()))
                for m in re.finditer(r'\benum (\w+)[^{;]*\{', t):
                    j = match_close(t, m.end() - 1)
                    vs = []
                    for v in split_top(re.sub(r'#\[[^\]]*\]', '', t[m.end():j])):
                        if v: vs.append(re.match(r'\w+', v)[0])
                    self.enums[m[1]] = vs
                for m in re.finditer(r'\bstruct (\w+)(?:<[^{;(]*>)?\s*(?:where[^{]*)?\{', t):
                    j = match_close(t, m.end() - 1)
                    fsn = []
                    for v in split_top(re.sub(r'#\[[^\]]*\]', '', t[m.end():j])):
                        v = v.strip()
                        mm = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', v, re.S)
                        if mm: fsn.append((mm[1], ' '.join(mm[2].split())))
                    self.structs[m[1]] = fsn
                for m in re.finditer(r'\bstruct (\w+)(?:<[^{;(]*>)?\s*\(', t):
                    j = match_close(t, m.end() - 1)
                    fsn = [(str(i), ' '.join(re.sub(r'^pub(?:\([^)]*\))?\s+', '', v.strip()).split())) for i, v in enumerate(split_top(t[m.end():j])) if v]
                    self.structs.setdefault(m[1], fsn)

    def field(self, struct, name):
        for i, (n, _) in enumerate(self.structs.get(struct, [])):
            if n == name: return i
        raise KeyError(f'{struct}.{name}')

    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('fn ') or l.startswith('const fn ') or (HDR.match(l) and l.endswith('{')):
                i = self.parse_fn(lines, i, HDR.match(l)[1])
            elif (l.startswith('const ') or l.startswith('static ') or '::promoted[' in l) and l.rstrip().endswith('= {'):
                i = self.parse_const(lines, i)
            elif re.match(r'^alloc\d+ ', l):
                i = self.parse_alloc(lines, i)
            else: i += 1

    def parse_alloc(self, lines, i):
        m = re.match(r'^alloc(\d+) \(.*size: (\d+)', lines[i])
        j = i + 1; data = []
        while j < len(lines) and lines[j].startswith('    '):
            mm = re.match(r'\s+(?:0x[0-9a-f]+ │ )?([0-9a-f_ ]+?)\s+│', lines[j])
            if mm: data += mm[1].split()
            j += 1
        if m: self.allocs[int(m[1])] = (int(m[2]), data)
        return max(j, i + 1)

    def parse_fn(self, lines, i, hdr):
        hdr = hdr.rstrip()
        assert hdr.endswith('{'), hdr
        hdr = hdr[:-1].rstrip()
        # the parameter list is the bracket group after the name; names contain <...> groups and {closure#0}
        k = 0
        while True:
            c = hdr[k]
            if c in '<{': k = match_close(hdr, k) + 1; continue
            if c == '(': break
            k += 1
        name = hdr[:k]
        j = match_close(hdr, k)
        params = []
        for p in split_top(hdr[k + 1:j]):
            if p:
                a, b = p.split(':', 1); params.append((a.strip(), b.strip()))
        m = re.match(r'\s*->\s*(.*)$', hdr[j + 1:])
        f = Fn(name, params, m[1].strip() if m else '()')
        i = self.parse_body(lines, i + 1, f)
        m = re.search(r'<impl at ([^:>]+):(\d+):\d+: \d+:\d+>', name)
        if m: f.impl = (m[1], int(m[2]))
        self.fns.setdefault(name, f)
        return i

    def parse_const(self, lines, i):
        l = lines[i].rstrip()
        m = re.match(r'^(?:const |static )?(.*?): (.*) = \{$', l)
        # the name may contain ': ' inside <impl at ..>; take the last top-level ': '
        body = re.sub(r'^(const|static(?: mut)?) ', '', l[:-len(' = {')])
        parts = split_top(body, ': ')
        f = Fn(parts[0], [], ': '.join(parts[1:]))
        f.is_const = True
        i = self.parse_body(lines, i + 1, f)
        self.consts[f.name] = f
        return i

    def parse_body(self, lines, i, f):
        for l, t in f.params: f.locals[l] = t
        cur = None
        while lines[i] != '}':
            s = lines[i].strip()
            if (m := re.match(r'^bb(\d+)(?: \(cleanup\))?: \{$', s)):
                stmts, term = [], None
                i += 1
                while lines[i].strip() != '}':
                    t = lines[i].strip()
                    while not t.endswith(';'):
                        i += 1; t += ' ' + lines[i].strip()
                    stmts.append(t[:-1]); i += 1
                f.blocks['bb' + m[1]] = (stmts[:-1], stmts[-1] if stmts else 'unreachable')
            elif (m := re.match(r'^let (?:mut )?(_\d+): (.*);$', s)): f.locals[m[1]] = m[2]
            elif (m := re.match(r'^debug (\w+) => (.*);$', s)): f.debug.append((m[1], m[2]))
            i += 1
        return i + 1

    # ---- resolution of calls
    def impl_header(self, file, line):
        t = self.src(file)
        ls = t.split('\n')
        if line > len(ls): return None
        seg = '\n'.join(ls[line - 1:line + 30])
        m = re.match(r'\s*(?:unsafe\s+)?impl\b', seg)
        if not m:
            # derive attribute: #[derive(..)] span points at the trait name inside the attribute
            return ('derive', seg)
        h = seg[m.end():]
        j = h.index('{')
        h = ' '.join(h[:j].split())
        h = re.sub(r'\bwhere\b.*$', '', h).strip()
        if h.startswith('<'): h = h[match_close(h, 0) + 1:].strip()
        if ' for ' in h:
            tr, ty = h.split(' for ', 1)
            return (tr.strip(), ty.strip())
        return (None, h)

    def index(self):
        self.by_method = {}
        for name, f in self.fns.items():
            last = re.sub(r'<impl at [^>]*>', 'IMPL', name)
            meth = last.split('IMPL::', 1)[1] if 'IMPL::' in last else last
            f.trait = f.self_ty = None
            if f.impl:
                h = self.impl_header(*f.impl)
                if h and h[0] == 'derive':
                    f.derived = True
                    f.trait = self.derive_trait(f)
                    f.self_ty = self.derive_self(f)
                elif h:
                    f.trait, f.self_ty = h
            f.meth = meth
            self.by_method.setdefault(meth.split('::')[-1] if '{closure' not in meth else meth, []).append(f)
        self.closures = {}
        for name, f in self.fns.items():
            if '{closure#' in name and f.params:
                m = re.search(r'\{closure@([^}]*)\}', f.params[0][1])
                if m: self.closures[m[1]] = f

    def derive_trait(self, f):
        m = re.search(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>', f.name)
        ls = self.src(m[1]).split('\n')
        return ls[int(m[2]) - 1][int(m[3]) - 1:int(m[5]) - 1]

    def derive_self(self, f):
        m = re.search(r'<impl at ([^:>]+):(\d+):', f.name)
        ls = self.src(m[1]).split('\n')
        for l in ls[int(m[2]) - 1:int(m[2]) + 12]:
            mm = re.match(r'\s*(?:pub(?:\([^)]*\))? )?(?:struct|enum) (\w+)', l)
            if mm: return mm[1]
        return None


def base_ty(t):
    """last path segment of a type, without references, lifetimes and generics"""
    t = t.strip()
    t = re.sub(r"^(&('\w+ )?(mut )?)+", '', t)
    t = re.sub(r"^\*(const|mut) ", '', t)
    if t.startswith('[') or t.startswith('(') or t.startswith('{'): return t
    if t.startswith('dyn '): t = t[4:]
    t = t.split('<', 1)[0]
    return t.split('::')[-1]


def norm_ty(t):
    """strip module paths"""
    t = re.sub(r"'\w+ ?", '', t)
    return re.sub(r'(?:\w+::)+(?=\w)', '', t).replace(' ', '')
