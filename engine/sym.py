"""Shared symbolic core: word helpers, solver wrapper, layered memory objects.

Integers are Python ints (concrete, unsigned, already masked) or z3 bit-vectors;
i1 values are Python ints 0/1 or z3 Bools.  Every engine (LLVM IR, Go SSA)
builds on these helpers, so that all properties are decided by the same
solver wrapper with the same accounting.
"""
import time, os, sys, re, subprocess
import z3
sys.set_int_max_str_digits(0)

sys.setrecursionlimit(20000)

def is_c(v):
    return type(v) is int

def mask(w):
    return (1 << w) - 1

def bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    return v

def norm(e):
    """simplify and turn literal results into Python ints/bools"""
    if type(e) is int:
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e

def to_bool(v):
    """i1 value -> z3 Bool or Python bool"""
    if type(v) is int:
        return bool(v)
    if z3.is_bool(v):
        return v
    return v == 1

def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v

# ---- arithmetic -------------------------------------------------------------
def add(a, b, w):
    if type(a) is int:
        if type(b) is int: return (a + b) & mask(w)
        if a == 0: return b
    elif type(b) is int and b == 0: return a
    return bv(a, w) + bv(b, w)

def sub(a, b, w):
    if type(b) is int:
        if type(a) is int: return (a - b) & mask(w)
        if b == 0: return a
        return bv(a, w) + z3.BitVecVal((-b) & mask(w), w)
    return bv(a, w) - b

# ABS: products and quotients as uninterpreted functions (what is proved holds for every function in their place)
ABS = False
NAMES = False; NAMED = {}
def absop(n, a, b, w):
    if n in ('mul', 'mulo', 'smulo'):
        if type(a) is int or type(b) is not int and a.get_id() > b.get_id(): a, b = b, a
    r = z3.BitVecSort(w)
    return z3.Function('abs_%s%d' % (n, w), r, r, z3.BoolSort() if n.endswith('o') else r)(bv(a, w), bv(b, w))

def absdiv(a, b, w):
    r = absop('udiv', a, b, w)
    if type(b) is not int or b <= 1: return r
    m = lshr(a, b.bit_length() - 1, w) # no quotient is larger
    return ite(ult(m, r, w), m, r, w)

def abs_axioms(conds, exact):
    """what the uninterpreted products and quotients in conds really are: quotients by constants, or (exact) everything"""
    seen = set(); out = []; stack = list(conds)
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id()); stack.extend(e.children())
        n = e.decl().name() if z3.is_app(e) else ''
        if not n.startswith('abs_'): continue
        a, b = e.arg(0), e.arg(1); w = a.size()
        op = n[4:].rstrip('0123456789')
        if op == 'udiv' and z3.is_bv_value(b):
            r = z3.ZeroExt(8, a) - z3.ZeroExt(8, e) * z3.ZeroExt(8, b)
            out.append(z3.ULT(r, z3.ZeroExt(8, b))); out.append(z3.ULE(e, a))
        elif op == 'urem': out.append(z3.Or(b == 0, z3.ULT(e, b)))
        if exact and not (op == 'udiv' and z3.is_bv_value(b)):
            x = {'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b),
                 'mulo': lambda: z3.Not(z3.BVMulNoOverflow(a, b, False))}.get(op)
            if x: out.append(e == x())
    return out

def mul(a, b, w):
    if type(a) is int:
        if type(b) is int: return (a * b) & mask(w)
        if a == 0: return 0
        if a == 1: return b
    elif type(b) is int:
        if b == 0: return 0
        if b == 1: return a
    if ABS and w >= 64: return absop('mul', a, b, w)
    return bv(a, w) * bv(b, w)

def udiv(a, b, w):
    if type(a) is int and type(b) is int: return a // b if b else mask(w)
    if type(b) is int:
        if b == 1: return a
        if b and b & (b - 1) == 0: return lshr(a, b.bit_length() - 1, w)
    if ABS and w >= 64: return absdiv(a, b, w)
    return z3.UDiv(bv(a, w), bv(b, w))

def urem(a, b, w):
    if type(a) is int and type(b) is int: return a % b if b else a
    if type(b) is int and b and b & (b - 1) == 0: return and_(a, b - 1, w)
    if ABS and w >= 64: return absop('urem', a, b, w)
    return z3.URem(bv(a, w), bv(b, w))

def sdiv(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sx(a, w), sx(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if type(b) is int and 1 < b < (1 << (w - 1)) and b & (b - 1) == 0:
        k = b.bit_length() - 1      # round towards zero
        bias = lshr(ashr(a, w - 1, w), w - k, w)
        return ashr(add(a, bias, w), k, w)
    if ABS and w >= 64 and type(b) is int and b > 1 << (w - 1): return sub(0, sdiv(a, (-b) & mask(w), w), w)
    if ABS and w >= 64 and type(b) is int and 0 < b < 1 << (w - 1): return ite(slt(a, 0, w), sub(0, absdiv(sub(0, a, w), b, w), w), absdiv(a, b, w), w)
    return bv(a, w) / bv(b, w)

def srem(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sx(a, w), sx(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    if ABS and w >= 64 and type(b) is int and 0 < b < 1 << (w - 1): return ite(slt(a, 0, w), sub(0, absop('urem', sub(0, a, w), b, w), w), absop('urem', a, b, w), w)
    return z3.SRem(bv(a, w), bv(b, w))

def and_(a, b, w):
    if w == 1: return band(a, b)
    if type(a) is int:
        if type(b) is int: return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        if b == mask(w): return a
        # low mask: keep as extract/zext, which simplifies better
        if b & (b + 1) == 0:
            n = b.bit_length()
            return z3.ZeroExt(w - n, z3.Extract(n - 1, 0, a))
    return bv(a, w) & bv(b, w)

def or_(a, b, w):
    if w == 1: return bor(a, b)
    if type(a) is int:
        if type(b) is int: return a | b
        a, b = b, a
    if type(b) is int and b == 0: return a
    return bv(a, w) | bv(b, w)

def xor(a, b, w):
    if w == 1: return bxor(a, b)
    if type(a) is int:
        if type(b) is int: return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0: return a
        if b == mask(w): return ~a
    return bv(a, w) ^ bv(b, w)

def shl(a, b, w):
    if type(b) is int:
        if b >= w: return 0
        if b == 0: return a
        if type(a) is int: return (a << b) & mask(w)
        return z3.Concat(z3.Extract(w - 1 - b, 0, a), z3.BitVecVal(0, b))
    return bv(a, w) << b

def lshr(a, b, w):
    if type(b) is int:
        if b >= w: return 0
        if b == 0: return a
        if type(a) is int: return a >> b
        return z3.ZeroExt(b, z3.Extract(w - 1, b, a))
    return z3.LShR(bv(a, w), b)

def ashr(a, b, w):
    if type(b) is int:
        if b == 0: return a
        if b >= w: b = w - 1
        if type(a) is int: return (sx(a, w) >> b) & mask(w)
        return z3.SignExt(b, z3.Extract(w - 1, b, a))
    return bv(a, w) >> b

def zext(a, w, n):
    if w == n: return a
    if type(a) is int: return a
    if w == 1:
        return z3.If(to_bool(a), z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return z3.ZeroExt(n - w, a)

def sext(a, w, n):
    if w == n: return a
    if type(a) is int: return sx(a, w) & mask(n)
    if w == 1:
        return z3.If(to_bool(a), z3.BitVecVal(mask(n), n), z3.BitVecVal(0, n))
    return z3.SignExt(n - w, a)

def trunc(a, w, n):
    if w == n: return a
    if type(a) is int: return a & mask(n)
    if n == 1:
        return norm(z3.Extract(0, 0, a) == 1)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ZERO_EXT:
        c = a.arg(0); cw = c.size()
        if cw == n: return c
        if cw < n: return z3.ZeroExt(n - cw, c)
    return z3.Extract(n - 1, 0, a)

def extract(a, hi, lo, w):
    if hi == w - 1 and lo == 0: return a
    if type(a) is int: return (a >> lo) & mask(hi - lo + 1)
    return z3.Extract(hi, lo, a)

def concat(parts):
    """parts: list of (value,width), most significant first"""
    if all(type(v) is int for v, _ in parts):
        r = 0
        for v, w in parts: r = (r << w) | v
        return r
    if len(parts) == 1: return parts[0][0]
    return z3.Concat(*[bv(v, w) for v, w in parts])

# ---- booleans ---------------------------------------------------------------
def band(a, b):
    if type(a) is int: return b if a else 0
    if type(b) is int: return a if b else 0
    return z3.And(to_bool(a), to_bool(b))

def bor(a, b):
    if type(a) is int: return 1 if a else b
    if type(b) is int: return 1 if b else a
    return z3.Or(to_bool(a), to_bool(b))

def bxor(a, b):
    if type(a) is int: return bnot(b) if a else b
    if type(b) is int: return bnot(a) if b else a
    return z3.Xor(to_bool(a), to_bool(b))

def bnot(a):
    if type(a) is int: return 1 - a
    return z3.Not(to_bool(a))

def ite(c, a, b, w):
    if type(c) is int: return a if c else b
    if type(a) is int and type(b) is int and a == b: return a
    if a is b: return a
    c = to_bool(c)
    if w == 1:
        x = z3.BoolVal(bool(a)) if type(a) is int else to_bool(a)
        y = z3.BoolVal(bool(b)) if type(b) is int else to_bool(b)
        return z3.If(c, x, y)
    return z3.If(c, bv(a, w), bv(b, w))

def eq(a, b, w):
    if type(a) is int and type(b) is int: return int(a == b)
    if w == 1: return bnot(bxor(a, b))
    return norm(bv(a, w) == bv(b, w))

def ult(a, b, w):
    if type(a) is int and type(b) is int: return int(a < b)
    if type(b) is int and b == 0: return 0
    return norm(z3.ULT(bv(a, w), bv(b, w)))

def ule(a, b, w):
    if type(a) is int and type(b) is int: return int(a <= b)
    if type(a) is int and a == 0: return 1
    return norm(z3.ULE(bv(a, w), bv(b, w)))

def slt(a, b, w):
    if type(a) is int and type(b) is int: return int(sx(a, w) < sx(b, w))
    return norm(bv(a, w) < bv(b, w))

def sle(a, b, w):
    if type(a) is int and type(b) is int: return int(sx(a, w) <= sx(b, w))
    return norm(bv(a, w) <= bv(b, w))

def bswap(a, w):
    n = w // 8
    if type(a) is int:
        return int.from_bytes(a.to_bytes(n, 'little'), 'big')
    return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(n)]))

# ---- solver -----------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.asserts = 0          # property queries discharged
        self.assert_unknown = 0
        self.paths = 0
        self.forks = 0
        self.steps = 0
        self.funcs = set()
    def merge(self, o):
        for k in ('queries', 'time', 'unknown', 'asserts', 'assert_unknown', 'paths', 'forks', 'steps'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.funcs |= o.funcs

STATS = Stats()

class PathSolver:
    """One incremental solver that follows the current path (list of conditions)."""
    def __init__(self, timeout_ms=700, hard_ms=12000):
        self.s = z3.Solver(); self.hard_ms = hard_ms; self.hard = None
        self.s.set('timeout', timeout_ms)
        self.stack = []
    def sync(self, pc):
        i = 0
        n = min(len(self.stack), len(pc))
        while i < n and self.stack[i] is pc[i]:
            i += 1
        if len(self.stack) > i:
            self.s.pop(len(self.stack) - i)
            del self.stack[i:]
        for c in pc[i:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)
    def check(self, pc, cond):
        """returns ('sat', model) / ('unsat', None) / ('unknown', None)"""
        h = self.hard
        if h and (len(pc) < h[0] or pc[h[0] - 1] is not h[1]): h = self.hard = None
        if h: return solve(list(pc) + [cond], self.hard_ms, first_ms=150)
        self.sync(pc)
        t = time.time()
        self.s.push()
        self.s.add(cond)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        STATS.queries += 1
        STATS.time += time.time() - t
        if r == z3.sat: return 'sat', m
        if r == z3.unsat: return 'unsat', None
        STATS.queries -= 1
        if pc: self.hard = (len(pc), pc[-1])
        return solve(list(pc) + [cond], self.hard_ms, first_ms=150)

FIRST_MS = 1000
_Z3BIN = '/usr/bin/z3' if os.path.exists('/usr/bin/z3') else None

def solve(conds, timeout_ms=20000, first_ms=FIRST_MS):
    """decide a conjunction with a fresh (non-incremental) solver; queries the library
    does not settle at once go to the z3 4.8 binary, then back to the library"""
    t = time.time()
    STATS.queries += 1
    s = z3.Solver()
    s.set('timeout', min(timeout_ms, first_ms))
    for c in conds: s.add(c)
    r = s.check()
    if r == z3.unknown and timeout_ms > first_ms:
        a = z3.Tactic('qfufbv_ackr').solver() # function applications as variables
        a.set('timeout', min(timeout_ms, 4000))
        for c in conds: a.add(c)
        try: r = a.check()
        except z3.Z3Exception: r = z3.unknown
        if r != z3.unknown: s = a
    if r == z3.unknown and timeout_ms > first_ms and _Z3BIN:
        r2, vals = solve_text(s, timeout_ms)
        if r2 == 'unsat':
            STATS.time += time.time() - t
            return 'unsat', None
        if r2 == 'sat':
            s = z3.Solver(); s.set('timeout', timeout_ms)
            for c in conds: s.add(c)
            s.add(vals)
            r = s.check()
    elif r == z3.unknown and timeout_ms > first_ms:
        s.set('timeout', timeout_ms); r = s.check()
    STATS.time += time.time() - t
    if r == z3.sat: return 'sat', s.model()
    if r == z3.unsat: return 'unsat', None
    STATS.unknown += 1
    return 'unknown', None

def consts_of(conds):
    seen = set(); out = {}
    stack = list(conds)
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        else: stack.extend(x.children())
    return out

def solve_text(s, timeout_ms):
    cs = consts_of(s.assertions())
    names = [n for n, v in cs.items() if z3.is_bv(v)]
    txt = '(set-logic QF_UFBV)\n(set-option :produce-models true)\n' + s.to_smt2()
    if names: txt += '(get-value (%s))\n' % ' '.join(cs[n].sexpr() for n in names)
    try:
        p = subprocess.run([_Z3BIN, '-in', '-T:%d' % max(1, timeout_ms // 1000)], input=txt.encode(), capture_output=True, timeout=timeout_ms / 1000 + 2)
    except subprocess.TimeoutExpired: return 'unknown', None
    out = p.stdout.decode('latin1')
    if out.startswith('unsat'): return 'unsat', None
    if not out.startswith('sat'): return 'unknown', None
    vals = []
    vs = re.findall(r'#x[0-9a-fA-F]+|#b[01]+', out)
    if len(vs) != len(names): return 'unknown', None
    for n, v in zip(names, vs):
        x = int(v[2:], 16) if v[1] == 'x' else int(v[2:], 2)
        vals.append(cs[n] == z3.BitVecVal(x, cs[n].size()))
    return 'sat', vals

# ---- memory objects -----------------------------------------------------------
_uid = [0]
def fresh(prefix, w):
    _uid[0] += 1
    return z3.BitVec("%s!%d" % (prefix, _uid[0]), w)

class MemErr(Exception):
    def __init__(self, kind, msg): self.kind = kind; self.msg = msg

def byte_of(cell):
    """cell = (val, nbytes, k): little-endian byte k of val (nbytes*8 bits)"""
    v, n, k = cell
    if n == 1: return v
    if type(v) is int: return (v >> (8 * k)) & 0xff
    if isinstance(v, PtrBase): return v.byte(k)
    return z3.Extract(8 * k + 7, 8 * k, v)

class PtrBase:
    pass

class Obj:
    """A memory object.  `top` holds bytes at concrete offsets; below it is an
    immutable chain of layers:
       ('dict', cells, below)            frozen concrete-offset bytes
       ('store', off, n, val, below)     symbolic-offset store (LE value)
       ('set', off, len, byte, below)    memset with symbolic range
       ('copy', off, len, srcview, soff, below)  memcpy with symbolic range
       ('zero',) | ('undef', name) | ('fun', f)  base contents
    """
    __slots__ = ('id', 'size', 'top', 'below', 'freed', 'name', 'owner', 'kind', 'const', 'extra')
    def __init__(self, id, size, name, base, owner, kind='heap'):
        self.id = id; self.size = size; self.top = {}; self.below = base
        self.freed = False; self.name = name; self.owner = owner; self.kind = kind
        self.const = False; self.extra = None
    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id = self.id; o.size = self.size; o.freed = self.freed; o.name = self.name
        o.kind = self.kind; o.const = self.const; o.extra = self.extra
        o.owner = owner
        if len(self.top) > 64:
            # freeze so that both share it
            self.below = ('dict', self.top, self.below, self.covered())
            self.top = {}
            o.top = {}
            o.below = self.below
        else:
            o.top = dict(self.top)
            o.below = self.below
        return o
    def covered(self):
        """does the top layer define every byte of the object?"""
        n = self.size
        return type(n) is int and len(self.top) >= n and all(i in self.top for i in range(n))
    def freeze(self):
        if self.top:
            self.below = ('dict', self.top, self.below, self.covered())
            self.top = {}
    def view(self):
        """immutable snapshot usable as a copy source"""
        self.freeze()
        return self.below

def read_cell(layer, top, off):
    """read one byte cell at concrete offset; returns a cell tuple"""
    c = top.get(off) if top is not None else None
    if c is not None: return c
    while True:
        k = layer[0]
        if k == 'dict':
            c = layer[1].get(off)
            if c is not None: return c
            layer = layer[2]
        elif k == 'zero':
            return (0, 1, 0)
        elif k == 'undef':
            return (z3.BitVec("%s@%d" % (layer[1], off), 8), 1, 0)
        elif k == 'fun':
            return (layer[1](off), 1, 0)
        elif k == 'copyc':
            # memcpy with concrete range
            _, doff, n, src, soff, below = layer
            if doff <= off < doff + n:
                return read_cell(src, None, soff + (off - doff))
            layer = below
        elif k == 'setc':
            _, doff, n, byte, below = layer
            if doff <= off < doff + n:
                return (byte, 1, 0)
            layer = below
        else:
            return (read_byte(layer, off), 1, 0)

def canon(off):
    """canonical form of an index, so that equal indices become the same term"""
    if type(off) is int: return off
    e = z3.simplify(off, bv_sort_ac=True, som=True)
    if z3.is_bv_value(e): return e.as_long()
    return e

def read_byte(layer, off):
    """read one byte (as a value) at a possibly symbolic 64-bit offset"""
    k = layer[0]
    off = canon(off)
    if type(off) is int and k in ('dict', 'zero', 'undef', 'fun', 'copyc', 'setc'):
        return byte_of(read_cell(layer, None, off))
    o = bv(off, 64)
    if k == 'dict':
        cells = layer[1]
        # offsets are in bounds, so a snapshot covering the whole object hides what is below
        r = 0 if layer[3] else read_byte(layer[2], off)
        for i, cell in layer[1].items():
            b = byte_of(cell)
            r = ite(norm(o == i), b, r, 8)
        return r
    if k == 'zero': return 0
    if k == 'undef':
        return z3.Select(z3.Array(layer[1], z3.BitVecSort(64), z3.BitVecSort(8)), o)
    if k == 'fun': return layer[1](off)
    if k == 'store':
        _, so, n, val, below = layer
        b = read_byte(below, off)
        d = norm(o - bv(so, 64))
        inr = ult(d, n, 64)
        if type(inr) is int and not inr: return b
        if n == 1: v = val
        elif type(d) is int: v = byte_of((val, n, d))
        else:
            if isinstance(val, PtrBase): val = val.num()
            sh = z3.Extract(8 * n - 1, 0, z3.Concat(z3.BitVecVal(0, 8 * n), d)) if 8 * n <= 64 else z3.ZeroExt(8 * n - 64, d)
            v = norm(z3.Extract(7, 0, z3.LShR(bv(val, 8 * n), sh * 8)))
        return norm_ite(inr, v, b)
    if k in ('set', 'setc'):
        _, so, n, byte, below = layer
        b = read_byte(below, off)
        d = norm(o - bv(so, 64))
        return norm_ite(ult(d, n, 64), byte, b)
    if k in ('copy', 'copyc'):
        _, so, n, src, soff, below = layer
        b = read_byte(below, off)
        d = norm(o - bv(so, 64))
        inr = ult(d, n, 64)
        if type(inr) is int and not inr: return b
        v = read_byte(src, norm(bv(soff, 64) + bv(d, 64)))
        return norm_ite(inr, v, b)
    raise AssertionError(k)

def norm_ite(c, a, b):
    if type(c) is int: return a if c else b
    return ite(c, a, b, 8)

def cells_to_value(cells):
    """little-endian list of cells -> value of 8*len bits (may be a pointer)"""
    n = len(cells)
    v0, n0, k0 = cells[0]
    if n0 == n and k0 == 0:
        for i in range(1, n):
            c = cells[i]
            if c[0] is not v0 or c[2] != i: break
        else:
            return v0
    if all(type(c[0]) is int for c in cells):
        r = 0
        for i, (v, m, k) in enumerate(cells):
            r |= ((v >> (8 * k)) & 0xff) << (8 * i)
        return r
    parts = []      # most significant first: (val, hi, lo, width)
    i = n - 1
    while i >= 0:
        v, m, k = cells[i]
        if type(v) is int:
            parts.append(((v >> (8 * k)) & 0xff, 8)); i -= 1; continue
        j = i
        kk = k
        while j - 1 >= 0 and cells[j - 1][0] is v and cells[j - 1][2] == kk - 1:
            j -= 1; kk -= 1
        if isinstance(v, PtrBase): v = v.num()
        if type(v) is int:
            parts.append(((v >> (8 * kk)) & mask(8 * (k - kk + 1)), 8 * (k - kk + 1)))
        elif m * 8 == 8 * (k - kk + 1):
            parts.append((v, 8 * m))
        else:
            parts.append((z3.Extract(8 * k + 7, 8 * kk, v), 8 * (k - kk + 1)))
        i = j - 1
    r = concat(parts)
    if type(r) is not int and len(parts) > 1:
        r = norm(r)
    return r
