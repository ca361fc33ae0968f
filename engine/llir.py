"""Parser for textual LLVM IR (clang 18 and rustc): types, globals, functions.

Function bodies are split eagerly (cheap, line based) and decoded lazily, one
function at a time, because only a fraction of a module is ever executed.
"""
import re

TOK = re.compile(r'''
  c"(?:[^"\\]|\\.)*"            # char array
 |[%@$]"[^"]*"                  # quoted names
 |"[^"]*"                       # strings
 |[%@$][-a-zA-Z$._0-9]+
 |\#\d+
 |![-a-zA-Z$._0-9]*
 |-?\d+\.\d+(?:e[+-]?\d+)?
 |0x[KMLHR]?[0-9a-fA-F]+
 |-?\d+
 |\.\.\.
 |[a-zA-Z_][a-zA-Z0-9_.]*
 |[][(){}<>,=*:|]
''', re.X)

def tokenize(s):
    return TOK.findall(s)

class Ty:
    __slots__ = ('k', 'n', 'elem', 'elems', 'packed', 'name', '_size', '_align', '_offs')
    def __init__(self, k, n=0, elem=None, elems=None, packed=False, name=None):
        self.k = k; self.n = n; self.elem = elem; self.elems = elems
        self.packed = packed; self.name = name
        self._size = None; self._align = None; self._offs = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k in ('arr', 'vec'): return '[%d x %r]' % (self.n, self.elem)
        if self.k == 'struct': return self.name or '{%s}' % ', '.join(map(repr, self.elems))
        return self.k

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def INT(n):
    t = _ints.get(n)
    if t is None: t = _ints[n] = Ty('int', n)
    return t

def al(n, a): return (n + a - 1) // a * a

def ty_align(t):
    if t._align is not None: return t._align
    if t.k == 'int':
        b = (t.n + 7) // 8
        a = 1
        while a < b and a < (16 if t.n == 128 else 8): a *= 2
    elif t.k in ('ptr', 'double'): a = 8
    elif t.k == 'float': a = 4
    elif t.k == 'half': a = 2
    elif t.k in ('fp128', 'x86_fp80'): a = 16
    elif t.k == 'arr': a = ty_align(t.elem)
    elif t.k == 'vec':
        s = ty_size(t); a = 1
        while a < s: a *= 2
    elif t.k == 'struct':
        a = 1 if t.packed else max([ty_align(e) for e in t.elems] or [1])
    else: a = 1
    t._align = a
    return a

def ty_size(t):
    """alloc size"""
    if t._size is not None: return t._size
    if t.k == 'int': s = al((t.n + 7) // 8, ty_align(t))
    elif t.k in ('ptr', 'double'): s = 8
    elif t.k == 'float': s = 4
    elif t.k == 'half': s = 2
    elif t.k in ('fp128', 'x86_fp80'): s = 16
    elif t.k == 'arr': s = t.n * ty_size(t.elem)
    elif t.k == 'vec': s = (t.n * (t.elem.n if t.elem.k == 'int' else 8 * ty_size(t.elem)) + 7) // 8
    elif t.k == 'struct':
        struct_offs(t); s = t._size
        return s
    else: s = 0
    t._size = s
    return s

def struct_offs(t):
    if t._offs is not None: return t._offs
    o = 0; offs = []
    for e in t.elems:
        if not t.packed: o = al(o, ty_align(e))
        offs.append(o); o += ty_size(e)
    t._offs = offs
    t._size = al(o, ty_align(t)) if not t.packed else o
    return offs

class Const:
    __slots__ = ('k', 'v', 'ty')
    def __init__(self, k, v=None, ty=None): self.k = k; self.v = v; self.ty = ty
    def __repr__(self): return 'Const(%s,%r)' % (self.k, self.v)

ATTR_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'sret', 'byval', 'byref',
              'memory', 'allocsize', 'elementtype', 'preallocated', 'inalloca', 'nofpclass', 'initializes', 'addrspace', 'alignstack', 'inrange'}
ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'returned', 'signext', 'zeroext',
         'inreg', 'immarg', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'dead_on_return', 'allocptr', 'allocalign', 'noext',
         'nofree', 'inbounds', 'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'nusw', 'samesign', 'volatile', 'atomic', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

class P:
    """token stream"""
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.mod = mod
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise SyntaxError('expected %r got %r in %r' % (x, y, ' '.join(self.t[max(0, self.i - 12):self.i + 12])))
    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None: return
            if x in ATTRS: self.i += 1
            elif x in ATTR_PAREN:
                if x == 'align' and self.i + 1 < len(self.t) and self.t[self.i + 1] != '(':
                    self.i += 2
                else:
                    self.i += 1
                    if self.peek() == '(': self.skip_paren()
            elif x.startswith('#') or x.startswith('"'):
                self.i += 1
                if self.peek() == '=': self.i += 2
            else: return
    # -- types
    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace': self.i += 1; self.skip_paren()
        elif x[0] == 'i' and x[1:].isdigit(): t = INT(int(x[1:]))
        elif x == 'void': t = VOID
        elif x in ('float', 'double', 'half', 'fp128', 'x86_fp80'): t = Ty(x)
        elif x == 'label': t = LABEL
        elif x == 'metadata': t = META
        elif x == 'token': t = Ty('token')
        elif x == '[' or (x == '<' and self.peek() != '{'):
            n = int(self.next()); self.expect('x'); e = self.type()
            self.expect(']' if x == '[' else '>')
            t = Ty('arr' if x == '[' else 'vec', n, elem=e)
        elif x == '{' or x == '<':
            packed = x == '<'
            if packed: self.expect('{')
            es = []
            if not self.accept('}'):
                while True:
                    es.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            if packed: self.expect('>')
            t = Ty('struct', elems=es, packed=packed)
        elif x[0] == '%':
            t = self.mod.named_type(x)
        else:
            raise SyntaxError('type? %r in %r' % (x, ' '.join(self.t[max(0, self.i - 10):self.i + 10])))
        # function type?
        if self.peek() == '(' and self.i + 1 < len(self.t):
            # only for call-site function types; caller handles
            pass
        return t
    # -- values
    def value(self, ty):
        self.skip_attrs()
        x = self.next()
        c = x[0]
        if c == '%': return Const('loc', x, ty)
        if c == '@': return Const('glob', x, ty)
        if c.isdigit() or (c == '-' and x[1:2].isdigit()):
            if ty.k == 'int':
                return Const('int', int(x) & ((1 << ty.n) - 1), ty)
            return Const('flt', x, ty)
        if x == 'true': return Const('int', 1, ty)
        if x == 'false': return Const('int', 0, ty)
        if x == 'null': return Const('null', None, ty)
        if x in ('undef', 'poison'): return Const('undef', None, ty)
        if x == 'zeroinitializer': return Const('zero', None, ty)
        if x == 'none': return Const('undef', None, ty)
        if c == 'c' and x[1:2] == '"':
            return Const('str', unescape(x[2:-1]), ty)
        if x == 'splat':
            self.expect('('); t = self.type(); v = self.value(t); self.expect(')')
            return Const('agg', [v] * ty.n, ty)
        if x in ('[', '{') or x == '<':
            close = {'[': ']', '{': '}', '<': '>'}[x]
            packed = False
            if x == '<' and self.peek() == '{':
                self.next(); packed = True; close = '}'
            es = []
            if not self.accept(close):
                while True:
                    t = self.type(); es.append(self.value(t))
                    if self.accept(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return Const('agg', es, ty)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                y = self.next()
                if y == 'inrange' and self.peek() == '(': self.skip_paren()
            self.expect('(')
            bt = self.type(); self.expect(',')
            self.accept('inrange')
            t = self.type(); base = self.value(t); idx = []
            while self.accept(','):
                self.accept('inrange')
                t = self.type(); idx.append((t, self.value(t)))
            self.expect(')')
            return Const('gep', (bt, base, idx), ty)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('('); t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return Const('cast', (x, t, v, t2), ty)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            self.skip_attrs()
            self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return Const('bin', (x, t, a, b), ty)
        if x == 'icmp':
            pred = self.next()
            self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return Const('icmp', (pred, t, a, b), ty)
        if x == 'blockaddress':
            self.expect('('); f = self.next(); self.expect(','); l = self.next(); self.expect(')')
            return Const('baddr', (f, l), ty)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return Const('glob', self.next(), ty)
        if ty.k in ('float', 'double'):
            return Const('flt', x, ty)
        if ty.k == 'metadata' or c == '!':
            # metadata operand: skip to , or )
            d = 0
            while self.peek() is not None and not (d == 0 and self.peek() in (',', ')')):
                y = self.next()
                if y in '({': d += 1
                elif y in ')}': d -= 1
            return Const('undef', None, ty)
        raise SyntaxError('value? %r in %r' % (x, ' '.join(self.t[max(0, self.i - 10):self.i + 10])))
    def tyval(self):
        t = self.type()
        return t, self.value(t)

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('utf-8'); i += 1
    return bytes(out)

class Func:
    __slots__ = ('name', 'params', 'rty', 'lines', 'blocks', 'decoded', 'nregs', 'order', 'vararg', 'entry', 'regix')
    def __init__(self, name): self.name = name; self.decoded = None; self.lines = None

class Glob:
    __slots__ = ('name', 'ty', 'init', 'const', 'external', 'line')
    
class Module:
    def __init__(self, text, prefix=''):
        self.types = {}
        self.type_lines = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self._split(text)
    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            t = Ty('struct', elems=None, name=name)
            self.types[name] = t
            line = self.type_lines.get(name)
            if line is None or line.strip() == 'opaque':
                t.elems = []
            else:
                r = P(tokenize(line), self).type()
                t.elems = r.elems; t.packed = r.packed
                if r.k != 'struct':
                    t.k = r.k; t.n = r.n; t.elem = r.elem
        return t
    def _split(self, text):
        cur = None; lines = None
        for line in text.split('\n'):
            if cur is not None:
                if line == '}':
                    cur = None
                else:
                    lines.append(line)
                continue
            if not line or line[0] == ';': continue
            c = line[0]
            if c == '%':
                m = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)', line)
                if m: self.type_lines[m.group(1)] = m.group(2)
            elif c == '@':
                self._global(line)
            elif line.startswith('define '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                f = Func(normname(m.group(1)))
                f.lines = lines = []
                f.params = line
                cur = f
                self.funcs[f.name] = f
    def _global(self, line):
        m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)', line)
        name = normname(m.group(1)[1:]); rest = m.group(2)
        m2 = re.search(r'(?:^|\s)(global|constant|alias|ifunc)\s', rest)
        if not m2: return
        if m2.group(1) == 'alias':
            m3 = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*(?:,|$)', rest[m2.end():])
            if m3: self.aliases[name] = normname(m3.group(1))
            return
        g = Glob(); g.name = name; g.const = m2.group(1) == 'constant'
        g.external = bool(re.match(r'.*\bexternal\b', rest[:m2.start() + 1])) or 'extern_weak' in rest[:m2.start() + 1]
        g.line = rest[m2.end():]
        g.ty = None; g.init = None
        self.globals[name] = g
    def resolve_global(self, g):
        if g.ty is None:
            p = P(tokenize(g.line), self)
            g.ty = p.type()
            if not g.external and p.peek() is not None and p.peek() != ',':
                g.init = p.value(g.ty)
        return g

def normname(s):
    return s[1:-1] if s.startswith('"') else s
