"""Symbolic executor for LLVM IR (text), used for the C++ and the Rust sources.

Forking execution of whole functions from the IR the compiler produces for the
real sources: integer registers are concrete or z3 bit-vectors, memory is the
layered byte model of sym.py, every access is bounds/lifetime checked, and a
branch whose two sides are both satisfiable forks the path.
"""
import z3, sys, time
from sym import *
import sym
from llir import *

class Ptr(PtrBase):
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def num(self):
        base = self.obj << 32
        if type(self.off) is int: return (base + self.off) & mask(64)
        return bv(self.off, 64) + base
    def byte(self, k):
        n = self.num()
        if type(n) is int: return (n >> (8 * k)) & 0xff
        return z3.Extract(8 * k + 7, 8 * k, n)
    def __repr__(self): return 'Ptr(%d,%s)' % (self.obj, self.off)

NULL = Ptr(0, 0)

class Fork(Exception):
    def __init__(self, cond): self.cond = cond

class PathEnd(Exception):
    def __init__(self, kind, msg=''): self.kind = kind; self.msg = msg

class Unsupported(Exception):
    pass

class Frame:
    __slots__ = ('f', 'regs', 'blk', 'ip', 'code', 'prev', 'dst', 'allocas', 'on_ret')
    def clone(self):
        n = Frame.__new__(Frame)
        n.f = self.f; n.regs = self.regs[:]; n.blk = self.blk; n.ip = self.ip; n.code = self.code
        n.prev = self.prev; n.dst = self.dst; n.allocas = self.allocas[:]; n.on_ret = self.on_ret
        return n

class State:
    __slots__ = ('frames', 'mem', 'pc', 'known', 'model', 'events', 'token', 'eng', 'next_id', 'extra', 'steps', 'outs', 'nfork', 'outcome')
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc[:]; s.known = dict(self.known); s.model = self.model
        s.events = self.events[:]; s.eng = self.eng; s.next_id = self.next_id
        s.extra = dict(self.extra); s.steps = self.steps; s.outs = dict(self.outs)
        s.nfork = self.nfork; s.outcome = self.outcome
        s.token = object(); self.token = object()
        return s

    # -- conditions
    def decide(self, cond):
        """Python bool for cond; forks when both values are possible"""
        if type(cond) is int: return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        sb = self.extra.get('subst')
        if sb:
            cond = z3.simplify(z3.substitute(cond, *sb))
            if z3.is_true(cond): return True
            if z3.is_false(cond): return False
        k = self.known.get(cond.get_id())
        if k is not None: return k[0]
        neg = False
        if z3.is_not(cond):
            k = self.known.get(cond.arg(0).get_id())
            if k is not None: return not k[0]
        t, f = self.feasible(cond)
        if t and f:
            raise Fork(cond)
        if t:
            self.known[cond.get_id()] = (True, cond); return True
        if f:
            self.known[cond.get_id()] = (False, cond); return False
        raise PathEnd('infeasible')

    def feasible(self, cond):
        ps = self.eng.ps
        m = self.model
        t = f = None
        if m is not None:
            v = m.eval(cond, model_completion=True)
            if z3.is_true(v): t = True
            elif z3.is_false(v): f = True
        if t is None:
            r, mm = ps.check(self.pc, cond)
            t = r != 'unsat'
            if mm is not None and m is None: self.model = mm
        if f is None:
            r, mm = ps.check(self.pc, z3.Not(cond))
            f = r != 'unsat'
            if mm is not None and self.model is None: self.model = mm
        return t, f

    def assume(self, cond):
        if type(cond) is int:
            if not cond: raise PathEnd('infeasible')
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond): return
        if z3.is_false(cond): raise PathEnd('infeasible')
        if cond.get_id() in self.known and self.known[cond.get_id()][0]: return
        self.pc.append(cond)
        self.known[cond.get_id()] = (True, cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            r, m = self.eng.ps.check(self.pc, z3.BoolVal(True))
            if r == 'unsat': raise PathEnd('infeasible')
            self.model = m

    def get_model(self):
        if self.model is None:
            r, m = self.eng.ps.check(self.pc, z3.BoolVal(True))
            if r == 'unsat': raise PathEnd('infeasible')
            if m is None: raise PathEnd('unknown', 'no model')
            self.model = m
        return self.model

    def concretize(self, v, w=64):
        """concrete value of v on this path, forking over the feasible ones"""
        if type(v) is int: return v
        v = norm(v)
        if type(v) is int: return v
        sb = self.extra.get('subst')
        if sb:
            v = norm(z3.substitute(v, *sb))
            if type(v) is int: return v
        k = self.known.get(v.get_id())
        if k is not None and type(k[0]) is int and k[0] is not True and k[0] is not False: return k[0]
        m = self.get_model()
        c = m.eval(v, model_completion=True).as_long()
        if self.decide(v == z3.BitVecVal(c, w)):
            if self.eng.concretize_offsets: self.pin(v)
            return c
        # decided false although the model says true cannot happen; the other branch re-enters
        raise PathEnd('infeasible')

    def pin(self, v):
        """remember the variables of v whose value the path condition determines"""
        for x in sym.consts_of([v]).values():
            if not z3.is_bv(x): continue
            m = self.get_model()
            c = m.eval(x, model_completion=True)
            r, _ = self.eng.ps.check(self.pc, x != c)
            if r == 'unsat': self.extra['subst'] = self.extra.get('subst', ()) + ((x, c),)

    # -- memory
    def alloc(self, size, name, base=None, kind='heap'):
        i = self.next_id; self.next_id += 1
        if base is None: base = ('undef', 'u%d_%s' % (i, name))
        if kind == 'heap' and self.eng.lock_monitor:
            if 'shared' in self.extra:
                if self.extra.get('lock') or self.extra['shared'] == 1: kind = 'guarded'; self.extra['born'] = dict(self.extra.get('born', ()), **{str(i): self.extra.get('op', 0)})
            elif self.extra.get('lock'): kind = 'guarded'
        self.mem[i] = Obj(i, size, name, base, self.token, kind)
        return Ptr(i, 0)

    def obj(self, p, write=False):
        o = self.mem.get(p.obj)
        if o is None:
            o = self.eng.global_obj(p.obj)
            if o is None:
                raise PathEnd('memerr', 'access through null or wild pointer %r' % (p,))
            if write:
                o = o.clone(self.token)
                self.mem[p.obj] = o
            return o
        if write and o.owner is not self.token:
            o = o.clone(self.token)
            self.mem[p.obj] = o
        return o

    def topt(self, p):
        if type(p) is Ptr: return p
        if type(p) is int:
            if p == 0: return NULL
            return Ptr(p >> 32, p & mask(32))
        raise Unsupported('symbolic pointer %s' % p)

    def access(self, p, n, write):
        """bounds-check; returns object and offset"""
        if type(p) is not Ptr: p = self.topt(p)
        o = self.obj(p, write)
        if self.eng.lock_monitor: self.eng.lock_monitor(self, p, o, write, n)
        if o.freed: raise PathEnd('memerr', 'use of freed/expired object %s' % o.name)
        if write and o.const: raise PathEnd('memerr', 'write to constant %s' % o.name)
        off = p.off
        if type(off) is int:
            if off < 0 or off + n > o.size:
                if n == 0: return o, off
                raise PathEnd('memerr', 'out-of-bounds %s of %d bytes at offset %d of %s[%d]' % ('write' if write else 'read', n, off - (1 << 64) if off >> 63 else off, o.name, o.size))
        else:
            if type(n) is int and n > o.size: ok = False
            else:
                ok = self.decide(ule(off, o.size - n, 64))
            if not ok:
                raise PathEnd('memerr', 'out-of-bounds %s of %d bytes at symbolic offset of %s[%d]' % ('write' if write else 'read', n, o.name, o.size))
            if self.eng.concretize_offsets: off = self.concretize(off)
        return o, off

    def load_bytes(self, p, n):
        o, off = self.access(p, n, False)
        if type(off) is int:
            top = o.top; below = o.below
            c = top.get(off)
            if c is not None and c[1] == n and c[2] == 0:
                # fast path: whole value
                v = c[0]; i = 1
                while i < n:
                    d = top.get(off + i)
                    if d is None or d[0] is not v or d[2] != i: break
                    i += 1
                else:
                    return v
            cells = []
            for i in range(n):
                c = top.get(off + i)
                if c is None: c = read_cell(below, None, off + i)
                cells.append(c)
            return cells_to_value(cells)
        # symbolic offset
        self_view = o.view() if o.owner is self.token else (('dict', o.top, o.below, o.covered()) if o.top else o.below)
        # a store at the very same symbolic offset
        l = self_view
        while l[0] == 'store' and type(l[1]) is not int:
            if l[2] == n and l[1].eq(off): return l[3]
            d = norm(bv(l[1], 64) - off)
            if type(d) is int and (n <= d < (1 << 63) or d >= (1 << 64) - 0 or ((1 << 64) - d) % (1 << 64) >= l[2] and d >> 63):
                l = l[4]; continue
            break
        bs = [read_byte(l, norm(off + i) if i else off) for i in range(n)]
        return norm(concat([(bs[i], 8) for i in range(n - 1, -1, -1)]))

    def store_bytes(self, p, v, n):
        o, off = self.access(p, n, True)
        if type(off) is int:
            top = o.top
            if n == 1:
                top[off] = (v, 1, 0)
            else:
                for k in range(n): top[off + k] = (v, n, k)
        else:
            if isinstance(v, PtrBase): v = v.num()
            o.freeze()
            o.below = ('store', off, n, v, o.below)

    def load(self, p, ty):
        k = ty.k
        if k == 'int':
            n = (ty.n + 7) // 8
            v = self.load_bytes(p, n)
            if ty.n % 8: 
                if isinstance(v, PtrBase): v = v.num()
                v = trunc(v, n * 8, ty.n)
            return v
        if k == 'ptr':
            v = self.load_bytes(p, 8)
            if type(v) is Ptr: return v
            if type(v) is int: return self.topt(v)
            # pointer loaded at symbolic offset: enumerate the offset
            if type(p) is Ptr and type(p.off) is not int:
                c = self.concretize(p.off)
                return self.load(Ptr(p.obj, c), ty)
            s = norm(v)
            if type(s) is int: return self.topt(s)
            return s
        if k == 'struct':
            offs = struct_offs(ty)
            return tuple(self.load(padd(p, o), e) for o, e in zip(offs, ty.elems))
        if k in ('arr', 'vec'):
            s = ty_size(ty.elem)
            if k == 'vec' and ty.elem.k == 'int' and ty.elem.n < 8: raise Unsupported('vec of i%d' % ty.elem.n)
            return tuple(self.load(padd(p, i * s), ty.elem) for i in range(ty.n))
        if k in ('double', 'float'):
            return ('f', self.load_bytes(p, 8 if k == 'double' else 4))
        raise Unsupported('load %r' % ty)

    def store(self, p, v, ty):
        k = ty.k
        if k == 'int':
            w = ty.n; n = (w + 7) // 8
            if w % 8: v = zext(v, w, n * 8) if type(v) is not Ptr else v
            self.store_bytes(p, v, n)
        elif k == 'ptr':
            self.store_bytes(p, v, 8)
        elif k == 'struct':
            for o, e, x in zip(struct_offs(ty), ty.elems, v): self.store(padd(p, o), x, e)
        elif k in ('arr', 'vec'):
            s = ty_size(ty.elem)
            for i in range(ty.n): self.store(padd(p, i * s), v[i], ty.elem)
        elif k in ('double', 'float'):
            self.store_bytes(p, v[1] if type(v) is tuple else 0, 8 if k == 'double' else 4)
        else: raise Unsupported('store %r' % ty)

    def memcpy(self, d, s, n):
        if type(n) is not int:
            n = norm(n)
        if type(n) is int:
            if n == 0: return
            so, soff = self.access(s, n, False)
            do, doff = self.access(d, n, True)
            if so.id == do.id: so = do
            if type(soff) is int and type(doff) is int:
                if n <= 4096:
                    cells = []
                    st = so.top; sb = so.below
                    for i in range(n):
                        c = st.get(soff + i)
                        if c is None: c = read_cell(sb, None, soff + i)
                        cells.append(c)
                    t = do.top
                    for i in range(n): t[doff + i] = cells[i]
                else:
                    sv = so.view() if so.owner is self.token else (('dict', so.top, so.below, so.covered()) if so.top else so.below)
                    do.freeze()
                    do.below = ('copyc', doff, n, sv, soff, do.below)
                return
            sv = so.view() if so.owner is self.token else (('dict', so.top, so.below, so.covered()) if so.top else so.below)
            do.freeze()
            do.below = ('copy', doff, n, sv, soff, do.below)
            return
        # symbolic length
        if not self.decide(bnot(eq(n, 0, 64))): return
        d = self.topt(d); s = self.topt(s)
        so = self.obj(s); do = self.obj(d)
        for o, p, what in ((so, s, 'read'), (do, d, 'write')):
            if o.freed: raise PathEnd('memerr', 'use of freed object %s' % o.name)
            end = norm(bv(p.off, 64) + n)
            ok = band(ule(n, o.size, 64), band(ule(p.off, o.size, 64), ule(end, o.size, 64)))
            if not self.decide(ok):
                raise PathEnd('memerr', 'out-of-bounds memcpy %s of %s[%d]' % (what, o.name, o.size))
        do = self.obj(d, True)
        if do.const: raise PathEnd('memerr', 'write to constant')
        if so.id == do.id: so = do
        sv = so.view() if so.owner is self.token else (('dict', so.top, so.below, so.covered()) if so.top else so.below)
        do.freeze()
        do.below = ('copy', d.off, n, sv, s.off, do.below)

    def memset(self, d, b, n):
        if type(n) is not int: n = norm(n)
        if type(n) is int:
            if n == 0: return
            o, off = self.access(d, n, True)
            if type(off) is int:
                if n <= 4096:
                    c = (b, 1, 0); t = o.top
                    for i in range(n): t[off + i] = c
                else:
                    o.freeze()
                    if off == 0 and n == o.size and type(b) is int and b == 0:
                        o.below = ('zero',)
                    else:
                        o.below = ('setc', off, n, b, o.below)
            else:
                o.freeze(); o.below = ('set', off, n, b, o.below)
            return
        if not self.decide(bnot(eq(n, 0, 64))): return
        d = self.topt(d)
        o = self.obj(d)
        if o.freed: raise PathEnd('memerr', 'use of freed object %s' % o.name)
        end = norm(bv(d.off, 64) + n)
        if not self.decide(band(ule(n, o.size, 64), band(ule(d.off, o.size, 64), ule(end, o.size, 64)))):
            raise PathEnd('memerr', 'out-of-bounds memset of %s[%d]' % (o.name, o.size))
        o = self.obj(d, True)
        o.freeze()
        o.below = ('set', d.off, n, b, o.below)

    def cstr(self, p):
        out = bytearray()
        while True:
            b = self.load_bytes(p, 1)
            if type(b) is not int: raise Unsupported('symbolic string')
            if b == 0: return out.decode('latin1')
            out.append(b); p = padd(p, 1)

    def read_view(self, p, n):
        """list of n byte values"""
        p = self.topt(p)
        return [self.load_bytes(padd(p, i), 1) for i in range(n)]

    def call(self, f, args, dst=None, on_ret=None):
        fr = Frame.__new__(Frame)
        d = f.decoded or self.eng.decode(f)
        fr.f = f; regs = d.proto[:]
        for i, a in enumerate(args[:d.nparams]): regs[i] = a
        # byval parameters: copy
        for i, sz in d.byval:
            np = self.alloc(sz, 'byval')
            self.memcpy(np, args[i], sz)
            regs[i] = np
        fr.regs = regs; fr.blk = 0; fr.ip = 0; fr.code = d.blocks[0]; fr.prev = -1
        fr.dst = dst; fr.allocas = []; fr.on_ret = on_ret
        self.frames.append(fr)
        if len(self.frames) > 400: raise PathEnd('stack-depth', 'recursion too deep')

def padd(p, n):
    if type(n) is int and n == 0: return p
    if type(p) is Ptr: return Ptr(p.obj, add(p.off, n, 64))
    return add(p, n, 64)

class Decoded:
    __slots__ = ('proto', 'nparams', 'blocks', 'labels', 'byval')

CMP = {'eq', 'ne', 'ugt', 'uge', 'ult', 'ule', 'sgt', 'sge', 'slt', 'sle'}

def lock_monitor(st, p, o, write, n):
    if 'shared' in st.extra:
        if o.kind == 'guarded' and st.extra['shared'] == 2: lockset(st, p, o, write, n)
        return
    if o.kind != 'guarded' and st.extra.get('guard') != p.obj: return
    l = st.extra.get('lock')
    if not l and 'guard' in st.extra: raise PathEnd('race', 'shared data (%s) %s without holding the lock' % (o.name, 'written' if write else 'read'))
    if write and l == 'r' and 'guard' in st.extra: raise PathEnd('race', 'shared data (%s) written under a reader lock' % o.name)

def lockset(st, p, o, write, n):
    """Shared objects: a write without the (writer) lock, or a read without it of something another operation
    writes, is a race.  Accesses of the operation that allocated an object do not count (it publishes the object
    by releasing the lock)."""
    op = st.extra.get('op', 0); l = st.extra.get('lock')
    if st.extra.get('born', {}).get(str(p.obj)) == op: return
    if write and l != 'w': raise PathEnd('race', 'shared data (%s) written without holding the lock' % o.name)
    if l and not write: return
    a = (p.off, p.off + n) if type(p.off) is int and type(n) is int else (0, o.size if type(o.size) is int else 1 << 62)
    mine, other = ('lw', 'ur') if write else ('ur', 'lw')
    for ob, lo, hi, k in st.extra.get(other, ()):
        if ob == p.obj and k != op and lo < a[1] and a[0] < hi:
            raise PathEnd('race', 'shared data (%s) read without the lock while another operation may write it' % o.name)
    e = (p.obj, a[0], a[1], op); s = st.extra.get(mine, frozenset())
    if e not in s: st.extra[mine] = s | {e}

def ext_lock(mode):
    def h(st, args, w):
        if not st.eng.lock_monitor: return 0
        if st.extra.get('lock'):
            if st.extra.get('interference'): raise PathEnd('blocked', 'the other thread waits for the lock')
            raise PathEnd('deadlock', 'the lock is taken twice by one operation')
        st.extra['lock'] = mode
        return 0
    return h

def ext_unlock(st, args, w):
    if st.eng.lock_monitor:
        if not st.extra.get('lock'): raise PathEnd('race', 'lock released without being held')
        st.extra['lock'] = None
    return 0

class Engine:
    lock_monitor = None
    concretize_offsets = False
    def __init__(self, text, externals=None, timeout_ms=4000):
        self.m = Module(text)
        self.ps = PathSolver(timeout_ms)
        self.ext = dict(BASE_EXT)
        if externals: self.ext.update(externals)
        self.ext_prefix = []          # list of (predicate, handler)
        self.gid = {}                 # global name -> object id
        self.gobj = {}                # id -> base Obj
        self.fobj = {}                # id -> Func or external name
        self.bobj = {}                # id -> (fname, label)
        self.nextg = 1
        self.bindex = {}
        self.funcs_run = set()
        self.max_steps = 2000000
        self.overrides = {}           # function name -> handler (takes precedence over IR body)
        self.alloc_limit = 1 << 20

    # -- globals
    def glob_ptr(self, name):
        name = normname(name)
        while name in self.m.aliases: name = self.m.aliases[name]
        i = self.gid.get(name)
        if i is None:
            i = self.nextg; self.nextg += 1
            self.gid[name] = i
            if name in self.m.globals:
                self.gobj[i] = None
            else:
                self.fobj[i] = name
        return Ptr(i, 0)

    def block_ptr(self, fname, label):
        k = (normname(fname[1:]), label)
        i = self.bindex.get(k)
        if i is None:
            i = self.nextg; self.nextg += 1
            self.bindex[k] = i; self.bobj[i] = k
        return Ptr(i, 0)

    def global_obj(self, i):
        if i not in self.gobj: return None
        o = self.gobj[i]
        if o is None:
            name = next(n for n, x in self.gid.items() if x == i)
            g = self.m.resolve_global(self.m.globals[name])
            sz = ty_size(g.ty)
            o = Obj(i, sz, '@' + name, ('zero',) if g.init is not None else ('undef', 'g_' + name), None, 'global')
            if g.init is None and g.external: 
                o.below = ('zero',)
            self.gobj[i] = o
            if g.init is not None:
                self.init_const(o, 0, g.init, g.ty)
            o.const = g.const
            o.freeze()
        return o

    def init_const(self, o, off, c, ty):
        k = c.k
        if k in ('zero', 'undef'): return
        if k == 'agg':
            if ty.k == 'struct':
                for so, e, v in zip(struct_offs(ty), ty.elems, c.v): self.init_const(o, off + so, v, e)
            else:
                s = ty_size(ty.elem)
                for i, v in enumerate(c.v): self.init_const(o, off + i * s, v, ty.elem)
            return
        if k == 'str':
            for i, b in enumerate(c.v): o.top[off + i] = (b, 1, 0)
            return
        v = self.constant(c, ty)
        n = ty_size(ty)
        if ty.k == 'int': n = (ty.n + 7) // 8
        if type(v) is tuple and v and v[0] == 'f': v = v[1]
        for i in range(n): o.top[off + i] = (v, n, i)

    def constant(self, c, ty):
        k = c.k
        if k == 'int': return c.v
        if k == 'null': return NULL
        if k == 'glob': return self.glob_ptr(c.v[1:])
        if k in ('undef', 'zero'):
            return self.zero(ty)
        if k == 'agg':
            if ty.k == 'struct': return tuple(self.constant(v, e) for v, e in zip(c.v, ty.elems))
            return tuple(self.constant(v, ty.elem) for v in c.v)
        if k == 'str': return tuple(c.v)
        if k == 'flt': return ('f', self.fbits(c.v, ty))
        if k == 'gep':
            bt, base, idx = c.v
            p = self.constant(base, PTR)
            off = 0; t = bt
            for n, (it, iv) in enumerate(idx):
                v = self.constant(iv, it)
                if n == 0: off += sx(v, it.n) * ty_size(t); continue
                if t.k == 'struct': off += struct_offs(t)[v]; t = t.elems[v]
                else: t = t.elem; off += sx(v, it.n) * ty_size(t)
            return padd(p, off & mask(64))
        if k == 'cast':
            op, t, v, t2 = c.v
            x = self.constant(v, t)
            if op in ('ptrtoint', 'inttoptr', 'bitcast'): 
                if op == 'inttoptr' and type(x) is int: return NULL if x == 0 else Ptr(x >> 32, x & mask(32))
                return x
            if isinstance(x, PtrBase): x = x.num()
            if op == 'trunc': return trunc(x, t.n, t2.n)
            if op == 'zext': return x
            if op == 'sext': return sext(x, t.n, t2.n)
        if k == 'bin':
            op, t, a, b = c.v
            a = self.constant(a, t); b = self.constant(b, t)
            return BINOPS[op](a, b, t.n) if not (isinstance(a, PtrBase) or isinstance(b, PtrBase)) else ptr_bin(op, a, b, t.n)
        if k == 'baddr': return self.block_ptr(*c.v)
        if k == 'icmp':
            pred, t, a, b = c.v
            return do_icmp(None, pred, self.constant(a, t), self.constant(b, t), 64 if t.k == 'ptr' else t.n)
        raise Unsupported('constant %r' % c)

    def fbits(self, s, ty):
        import struct
        if s.startswith('0x'):
            b = int(s, 16)
            if ty.k == 'float':
                return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', b))[0]))[0]
            return b
        f = float(s)
        return struct.unpack('<Q', struct.pack('<d', f))[0] if ty.k == 'double' else struct.unpack('<I', struct.pack('<f', f))[0]

    def zero(self, ty):
        if ty.k == 'int': return 0
        if ty.k == 'ptr': return NULL
        if ty.k == 'struct': return tuple(self.zero(e) for e in ty.elems)
        if ty.k in ('arr', 'vec'): return tuple(self.zero(ty.elem) for _ in range(ty.n))
        return ('f', 0)

    # -- decoding
    def decode(self, f):
        from lldec import decode_function
        return decode_function(self, f)

    # -- running
    def new_state(self):
        s = State.__new__(State)
        s.frames = []; s.mem = {}; s.pc = []; s.known = {}; s.model = None; s.events = []
        s.token = object(); s.eng = self; s.next_id = 1 << 20; s.extra = {}; s.steps = 0; s.outs = {}; s.nfork = 0
        s.outcome = None
        return s

    def run_ctors(self, st):
        g = self.m.globals.get('llvm.global_ctors')
        if g is None: return
        self.m.resolve_global(g)
        if g.init is None or g.init.k != 'agg': return
        fs = []
        for e in g.init.v:
            fs.append((e.v[0].v, normname(e.v[1].v[1:])))
        for _, n in sorted(fs, key=lambda x: x[0]):
            self.run_one(st, n, [])

    def run_one(self, st, name, args):
        """run a function that must not fork; returns its result"""
        r = list(self.explore(st, name, args))
        if len(r) != 1: raise Unsupported('%s forked into %d paths' % (name, len(r)))
        self.last_frames = [f.f.name for f in r[0].frames]
        return r[0].outcome

    def explore(self, st, name, args, on_end=None, max_paths=100000, deadline=None):
        """run function `name`; yields a state per finished path, .outcome=(kind, value)"""
        base = len(st.frames)
        st.call(self.m.funcs[name], args)
        work = [st]
        while work:
            s = work.pop()
            if deadline and time.time() > deadline:
                s.outcome = ('timeout', '')
                yield s
                continue
            r = self.run_path(s, base, work)
            if r is not None:
                s.outcome = r
                STATS.paths += 1
                if r[0] != 'infeasible':
                    yield s

    def run_path(self, s, base, work):
        frames = s.frames
        steps = 0
        try:
            while True:
                fr = frames[-1]
                code = fr.code; regs = fr.regs; ip = fr.ip
                try:
                    while True:
                        op = code[ip]
                        ip += 1
                        if op(s, fr, regs): break
                except Fork as fk:
                    fr.ip = ip - 1
                    STATS.forks += 1
                    c = fk.cond
                    o = s.clone()
                    nc = z3.Not(c)
                    o.pc.append(nc); o.known[c.get_id()] = (False, c)
                    s.pc.append(c); s.known[c.get_id()] = (True, c)
                    m = s.model
                    if m is not None:
                        v = m.eval(c, model_completion=True)
                        if z3.is_true(v): o.model = None
                        else: s.model = None
                    work.append(o)
                    s.nfork += 1; o.nfork += 1
                    if s.nfork > 5000: return ('limit', 'forks')
                    continue
                steps += ip
                if len(frames) <= base:
                    return ('ret', s.extra.pop('_ret', None))
                s.steps += ip
                if s.steps > self.max_steps:
                    return ('limit', 'steps')
        except PathEnd as e:
            return (e.kind, e.msg)
        except Unsupported as e:
            loc = ' <- '.join(f.f.name for f in frames[-4:][::-1])
            return ('unsupported', '%s in %s' % (e, loc))
        finally:
            STATS.steps += steps

def ptr_bin(op, a, b, w):
    if op == 'add':
        if type(a) is Ptr and not isinstance(b, PtrBase): return Ptr(a.obj, add(a.off, b, 64))
        if type(b) is Ptr and not isinstance(a, PtrBase): return Ptr(b.obj, add(b.off, a, 64))
    if op == 'sub':
        if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj: return sub(a.off, b.off, 64)
        if type(a) is Ptr and not isinstance(b, PtrBase): return Ptr(a.obj, sub(a.off, b, 64))
    if op == 'and' and type(a) is Ptr and type(b) is int:
        if b < (1 << 32): return and_(a.off, b, 64)
        if b >> 32 == mask(32): return Ptr(a.obj, and_(a.off, (b & mask(32)), 64) if type(a.off) is int else and_(a.off, b, 64))
    if isinstance(a, PtrBase): a = a.num()
    if isinstance(b, PtrBase): b = b.num()
    return BINOPS[op](a, b, w)

def do_icmp(st, pred, a, b, w):
    if isinstance(a, PtrBase) or isinstance(b, PtrBase):
        if type(a) is Ptr and type(b) is Ptr:
            if a.obj == b.obj:
                a = a.off; b = b.off
            elif pred == 'eq': return 0
            elif pred == 'ne': return 1
            else: a = a.num(); b = b.num()
        else:
            if type(a) is Ptr and (type(b) is int and b == 0): b = NULL
            elif type(b) is Ptr and (type(a) is int and a == 0): a = NULL
            if type(a) is Ptr and type(b) is Ptr and a.obj != b.obj:
                if pred == 'eq': return 0
                if pred == 'ne': return 1
            if isinstance(a, PtrBase): a = a.num()
            if isinstance(b, PtrBase): b = b.num()
    if pred == 'eq': return eq(a, b, w)
    if pred == 'ne': return bnot(eq(a, b, w))
    if w == 1:
        a = zext(a, 1, 8); b = zext(b, 1, 8)
        if pred[0] == 's': a = sext(trunc(a, 8, 1), 1, 8); b = sext(trunc(b, 8, 1), 1, 8)
        w = 8
    if pred == 'ult': return ult(a, b, w)
    if pred == 'ule': return ule(a, b, w)
    if pred == 'ugt': return ult(b, a, w)
    if pred == 'uge': return ule(b, a, w)
    if pred == 'slt': return slt(a, b, w)
    if pred == 'sle': return sle(a, b, w)
    if pred == 'sgt': return slt(b, a, w)
    if pred == 'sge': return sle(b, a, w)
    raise Unsupported(pred)

BINOPS = {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem,
          'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr}

# ---- externals ----------------------------------------------------------------
def ext_noop(st, args, w): return 0

def ext_alloc(st, args, w):
    n = args[0]
    n = st_concrete_size(st, n)
    return st.alloc(n, 'heap')

def st_concrete_size(st, n):
    if type(n) is not int:
        lim = st.eng.alloc_limit
        if not st.decide(ule(n, lim, 64)):
            raise PathEnd('huge-alloc', 'allocation above %d bytes' % lim)
        n = st.concretize(n)
    if n > (1 << 31): raise PathEnd('huge-alloc', str(n))
    return n

def ext_calloc(st, args, w):
    n = st_concrete_size(st, norm(mul(args[0], args[1], 64)))
    return st.alloc(n, 'heap', ('zero',))

def ext_free(st, args, w):
    p = args[0]
    if type(p) is int: p = st.topt(p)
    if p.obj == 0: return 0
    o = st.obj(p, True)
    if o.freed: raise PathEnd('memerr', 'double free of %s' % o.name)
    if not (type(p.off) is int and p.off == 0) or o.kind not in ('heap', 'guarded'):
        raise PathEnd('memerr', 'free of non-heap pointer %s' % o.name)
    o.freed = True
    return 0

def ext_realloc(st, args, w):
    p = st.topt(args[0]); n = st_concrete_size(st, args[1])
    np = st.alloc(n, 'heap')
    if p.obj:
        o = st.obj(p)
        k = min(n, o.size)
        if k: st.memcpy(np, p, k)
        st.obj(p, True).freed = True
    return np

def ext_end(kind):
    def h(st, args, w): raise PathEnd(kind, '')
    return h

def ext_bcmp(st, args, w):
    n = args[2]
    if type(n) is not int:
        n = st.concretize(n)
    a = st.topt(args[0]); b = st.topt(args[1])
    if n == 0: return 0
    # wide compare
    va = load_be(st, a, n); vb = load_be(st, b, n)
    e = eq(va, vb, 8 * n)
    return ite(e, 0, 1, 32)

def load_be(st, p, n):
    bs = [st.load_bytes(padd(p, i), 1) for i in range(n)]
    return norm(concat([(x, 8) for x in bs]))

def ext_memcmp(st, args, w):
    n = args[2]
    if type(n) is not int: n = st.concretize(n)
    if n == 0: return 0
    a = st.topt(args[0]); b = st.topt(args[1])
    va = load_be(st, a, n); vb = load_be(st, b, n)
    e = eq(va, vb, 8 * n); l = ult(va, vb, 8 * n)
    return ite(e, 0, ite(l, mask(32), 1, 32), 32)

def ext_strlen(st, args, w):
    return len(st.cstr(st.topt(args[0])))

def ext_memcpy(st, args, w):
    st.memcpy(args[0], args[1], args[2]); return args[0]
def ext_memset(st, args, w):
    b = args[1]
    st.memset(args[0], trunc(b, 32, 8), args[2]); return args[0]

def ext_memchr(st, args, w):
    p = st.topt(args[0]); c = trunc(args[1], 32, 8); n = st.concretize(args[2])
    for i in range(n):
        if st.decide(eq(st.load_bytes(padd(p, i), 1), c, 8)): return padd(p, i)
    return NULL

BASE_EXT = {
    'malloc': ext_alloc, '_Znwm': ext_alloc, '_Znam': ext_alloc, 'calloc': ext_calloc, 'free': ext_free, 'realloc': ext_realloc,
    '_ZdlPv': ext_free, '_ZdlPvm': ext_free, '_ZdaPv': ext_free, '_ZdaPvm': ext_free,
    'memcmp': ext_memcmp, 'bcmp': ext_bcmp, 'strlen': ext_strlen, 'memcpy': ext_memcpy, 'memmove': ext_memcpy, 'memset': ext_memset,
    'memchr': ext_memchr,
    'abort': ext_end('abort'), '_ZSt9terminatev': ext_end('abort'), '__assert_fail': ext_end('abort'), 'exit': ext_end('abort'),
    '__cxa_pure_virtual': ext_end('abort'),
    '__cxa_atexit': ext_noop, 'pthread_mutex_lock': ext_lock('w'), 'pthread_mutex_unlock': ext_unlock, 'pthread_mutex_trylock': ext_lock('w'),
    'pthread_rwlock_wrlock': ext_lock('w'), 'pthread_rwlock_rdlock': ext_lock('r'), 'pthread_rwlock_unlock': ext_unlock, '__cxa_guard_release': ext_noop,
    'pthread_mutex_init': ext_noop, 'pthread_mutex_destroy': ext_noop,
    '_ZNSt8ios_base4InitC1Ev': ext_noop, '_ZNSt8ios_base4InitD1Ev': ext_noop, 'fprintf': ext_noop, 'fwrite': ext_noop, 'fputs': ext_noop, 'printf': ext_noop, 'puts': ext_noop, 'fputc': ext_noop, 'putchar': ext_noop,
    'fflush': ext_noop,
}
def ext_guard_acquire(st, args, w):
    p = st.topt(args[0])
    v = st.load_bytes(p, 1)
    if type(v) is int and v: return 0
    st.store_bytes(p, 1, 1)
    return 1
BASE_EXT['__cxa_guard_acquire'] = ext_guard_acquire
for n in ('_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc',
          '_ZSt28__throw_bad_array_new_lengthv', '_ZSt25__throw_bad_function_callv', '_ZSt27__throw_bad_optional_accessv', '_ZSt20__throw_system_errori', '_ZSt24__throw_invalid_argumentPKc'):
    BASE_EXT[n] = ext_end('throw')

BASE_EXT['_ZNSt6chrono3_V212system_clock3nowEv'] = ext_noop
BASE_EXT['_ZNSt6chrono3_V212steady_clock3nowEv'] = ext_noop
