"""Engine-side implementation of the harness interface (stubs/cpp/rt/sym.h)."""
import z3, os, subprocess, tempfile, hashlib
from sym import *
import sym
from llsym import *
import llsym

def var(name, w):
    return z3.BitVec(name, w)

_ufs = {}
def ufun(name, inw, outw):
    f = _ufs.get((name, inw, outw))
    if f is None:
        f = _ufs[(name, inw, outw)] = z3.Function(name, z3.BitVecSort(inw), z3.BitVecSort(outw)) if inw else z3.BitVec(name, outw)
    return f

def uf_app(name, arg, inw, outw):
    f = ufun(name, inw, outw)
    return f(bv(arg, inw)) if inw else f

def store_be(st, p, v, n):
    """store BE value v of n bytes at p as byte cells that reassemble cheaply"""
    o, off = st.access(p, n, True)
    if type(off) is not int:
        for i in range(n): st.store_bytes(padd(p, i), extract(v, 8 * (n - i) - 1, 8 * (n - 1 - i), 8 * n), 1)
        return
    if type(v) is int:
        for i in range(n): o.top[off + i] = ((v >> (8 * (n - 1 - i))) & 0xff, 1, 0)
    else:
        for i in range(n): o.top[off + i] = (z3.Extract(8 * (n - i) - 1, 8 * (n - 1 - i), v), 1, 0)

def make_ext(eng):
    E = {}
    E['sym_param'] = lambda st, a, w: st.extra['params'][st.cstr(st.topt(a[0]))]
    def lookup(st, name, w):
        c = st.extra.get('concrete')
        if c is not None: return c.get(name, 0) & mask(w)
        v = st.extra['fixed'].get(name) if 'fixed' in st.extra else None
        if v is not None: return v
        return z3.BitVec(name, w)
    eng.lookup = lookup
    def sym_bytes(st, a, w):
        n = a[1]; name = st.cstr(st.topt(a[2]))
        if n: store_be(st, st.topt(a[0]), lookup(st, name, 8 * n), n)
        return 0
    def sym_bytes_i(st, a, w):
        n = a[1]; name = st.cstr(st.topt(a[2])) + str(st.concretize(a[3]))
        if n: store_be(st, st.topt(a[0]), lookup(st, name, 8 * n), n)
        return 0
    E['sym_bytes'] = sym_bytes; E['sym_bytes_i'] = sym_bytes_i
    E['sym_u64'] = lambda st, a, w: lookup(st, st.cstr(st.topt(a[0])), 64)
    def sym_assume(st, a, w):
        st.assume(norm(bnot(eq(a[0], 0, 64)))); return 0
    E['sym_assume'] = sym_assume
    def sym_uf(st, a, w):
        name = st.cstr(st.topt(a[0])); n = a[2]; m = a[4]
        arg = load_be(st, st.topt(a[1]), n) if n else 0
        store_be(st, st.topt(a[3]), norm(do_uf(st, name, arg, 8 * n, 8 * m)), m)
        return 0
    def do_uf(st, name, arg, n, m):
        c = st.extra.get('concrete')
        if c is not None: return st.extra['ufs'](name, arg, n, m)
        return uf_app(name, arg, n, m)
    E['sym_uf'] = sym_uf
    def sym_ufbytes(st, a, w):
        name = st.cstr(st.topt(a[0])); n = a[2]; mx = a[3]
        arg = load_be(st, st.topt(a[1]), n) if n else 0
        conc = st.extra.get('concrete') is not None
        def f(off):
            x = concat([(arg, 8 * n), (off, 64)]) if n else off
            return st.extra['ufs'](name, x, 8 * n + 64, 8) if conc else uf_app(name, x, 8 * n + 64, 8)
        p = st.alloc(mx, 'ufbytes_' + name, ('fun', f))
        return p
    E['sym_ufbytes'] = sym_ufbytes
    def sym_event(st, a, w):
        name = st.cstr(st.topt(a[0])); n = a[2]
        st.events.append((name, load_be(st, st.topt(a[1]), n) if n else 0, 8 * n, None)); return 0
    E['sym_event'] = sym_event
    def buf(st, p, n):
        p = st.topt(p)
        if type(n) is int and n == 0 or p.obj == 0: return Buf(None, 0, 0)
        o = st.obj(p)
        if type(n) is int: st.access(p, n, False)
        else:
            if st.decide(eq(n, 0, 64)): return Buf(None, 0, 0)
            end = norm(bv(p.off, 64) + n)
            if not st.decide(band(ule(n, o.size, 64), band(ule(p.off, o.size, 64), ule(end, o.size, 64)))):
                raise PathEnd('memerr', 'out-of-bounds output buffer %s[%d]' % (o.name, o.size))
        o = st.obj(p, True)
        return Buf(o.view(), p.off, n)
    eng.buf = buf
    def sym_eventv(st, a, w):
        name = st.cstr(st.topt(a[0])); n = a[2]
        st.events.append((name, load_be(st, st.topt(a[1]), n) if n else 0, 8 * n, buf(st, a[3], a[4]))); return 0
    E['sym_eventv'] = sym_eventv
    def sym_fresh(st, a, w):
        name = st.cstr(st.topt(a[0])); n = a[2]
        k = st.extra.get('#' + name, 0); st.extra['#' + name] = k + 1
        store_be(st, st.topt(a[1]), lookup(st, '%s#%d' % (name, k), 8 * n), n); return 0
    E['sym_fresh'] = sym_fresh
    def sym_fresh_reset(st, a, w):
        for k in [k for k in st.extra if k.startswith('#')]: del st.extra[k]
        return 0
    E['sym_fresh_reset'] = sym_fresh_reset
    def sym_out(st, a, w):
        st.outs[st.cstr(st.topt(a[0]))] = buf(st, a[1], a[2]); return 0
    E['sym_out'] = sym_out
    def sym_out_u64(st, a, w):
        v = a[1]
        if isinstance(v, PtrBase): v = v.num()
        st.outs[st.cstr(st.topt(a[0]))] = v; return 0
    E['sym_out_u64'] = sym_out_u64
    def sym_check(st, a, w):
        st.extra.setdefault('checks', [])
        st.extra['checks'] = st.extra['checks'] + [(st.cstr(st.topt(a[1])), bnot(eq(a[0], 0, 64)), len(st.pc))]
        return 0
    E['sym_check'] = sym_check
    def sym_check_u64(st, a, w):
        x, y = [v.num() if isinstance(v, PtrBase) else v for v in a[:2]]
        st.extra['checks'] = st.extra.get('checks', []) + [(st.cstr(st.topt(a[2])), eq(x, y, 64), len(st.pc))]
        return 0
    E['sym_check_u64'] = sym_check_u64
    def sym_sel(st, a, w):
        c = norm(bnot(eq(a[0], 0, 64))); d = st.topt(a[1]); n = a[3]
        if type(c) is int and not c: return 0
        x = load_be(st, st.topt(a[2]), n)
        if type(c) is not int: x = norm(ite(c, x, load_be(st, d, n), 8 * n))
        store_be(st, d, x, n); return 0
    E['sym_sel'] = sym_sel
    def sym_reach(st, a, w):
        st.extra['reach'] = st.extra.get('reach', ()) + (st.cstr(st.topt(a[0])),); return 0
    E['sym_reach'] = sym_reach
    def sym_guard(st, a, w):
        st.extra['guard'] = st.topt(a[0]).obj; return 0
    E['sym_guard'] = sym_guard
    def sym_interfere(st, a, w):
        st.extra['interference'] = a[0]; return 0
    E['sym_interfere'] = sym_interfere
    def sym_shared(st, a, w):
        st.extra['shared'] = a[0]; return 0
    E['sym_shared'] = sym_shared
    def sym_op(st, a, w):
        if st.extra.get('lock') and st.eng.lock_monitor: raise PathEnd('deadlock', 'an operation ended while holding the lock')
        st.extra['op'] = a[0]; return 0
    E['sym_op'] = sym_op
    def keccak(st, a, w):
        n = a[1]; p = st.topt(a[0])
        MAXK = 256
        if type(n) is int and n > 4096: # long input (creation code): the hash is taken as a function of its length and its ends
            h = MAXK // 2
            d = norm(concat([(load_be(st, p, h), 8 * h), (load_be(st, padd(p, n - h), h), 8 * h)]))
        elif type(n) is int:
            if n > MAXK: raise PathEnd('bound', 'keccak input longer than %d' % MAXK)
            d = load_be(st, p, n) if n else 0
            d = shl(d if type(d) is int else zext(d, 8 * n, 8 * MAXK), 8 * (MAXK - n), 8 * MAXK)
        else:
            if not st.decide(ule(n, MAXK, 64)): raise PathEnd('bound', 'keccak input longer than %d' % MAXK)
            b = buf(st, p, n)
            d = concat([(ite(ult(i, n, 64), b.byte(i), 0, 8), 8) for i in range(MAXK)])
        arg = norm(concat([(n, 64), (d, 8 * MAXK)]))
        store_be(st, st.topt(a[2]), norm(do_uf(st, 'keccak', arg, 64 + 8 * MAXK, 256)), 32)
        return 0
    E['evmsym_keccak'] = keccak
    def exp_(st, a, w):
        x = st.load_bytes(st.topt(a[0]), 32); y = st.load_bytes(st.topt(a[1]), 32)
        if type(x) is int and type(y) is int: r = pow(x, y, 1 << 256)
        else: r = uf_app('exp', concat([(x, 256), (y, 256)]), 512, 256)
        st.store_bytes(st.topt(a[2]), r, 32)
        return 0
    E['evmsym_exp'] = exp_
    E['_ZnwmSt11align_val_t'] = lambda st, a, w: ext_alloc(st, a, w)
    E['_ZdlPvSt11align_val_t'] = ext_free
    E['_ZdlPvmSt11align_val_t'] = ext_free
    return E

class Buf:
    """immutable view of a byte range; n may be symbolic"""
    __slots__ = ('view', 'off', 'n', 'data')
    def __init__(self, view, off, n, data=None): self.view = view; self.off = off; self.n = n; self.data = data
    def byte(self, i):
        if self.data is not None:
            if type(i) is int: return self.data[i] if i < len(self.data) else 0
            raise Unsupported('symbolic index of concrete buffer')
        if self.view is None: return 0
        return read_byte(self.view, norm(add(self.off, i, 64)))
    def be(self, n, at=0):
        """big-endian value of n bytes"""
        if self.data is not None:
            return int.from_bytes(self.data[at:at + n], 'big')
        return norm(concat([(self.byte(at + i), 8) for i in range(n)])) if n else 0

# ---- native build and replay ------------------------------------------------------
CLANG = '/usr/bin/clang++-18'

class Build:
    """compiles harness + sources to IR (and on demand natively)"""
    FLAGS = ['-O1', '-DNDEBUG', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
             '-fno-threadsafe-statics', '-fno-stack-protector', '-fno-strict-aliasing', '-w']
    def __init__(self, work, srcs, incs, entries, defs=(), std='c++20'):
        self.work = work; self.srcs = srcs; self.incs = incs; self.entries = entries; self.defs = list(defs)
        self.std = std; self.exe = None; self._nat = None
    def common(self):
        return ['-std=' + self.std] + ['-I' + i for i in self.incs] + ['-D' + d for d in self.defs]
    def ir(self):
        procs = []
        outs = []
        for i, s in enumerate(self.srcs):
            out = os.path.join(self.work, 'm%d.bc' % i); outs.append(out)
            procs.append(subprocess.Popen([CLANG, '-c', '-emit-llvm', '-o', out, s] + self.FLAGS + self.common(), stderr=subprocess.PIPE, text=True))
        for p in procs:
            err = p.communicate()[1]
            if p.returncode: raise BuildError(err[-4000:])
        ll = os.path.join(self.work, 'all.ll')
        r = subprocess.run(['/usr/bin/llvm-link-18', '-S', '-o', ll] + outs, capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-4000:])
        return open(ll).read()
    def native_start(self):
        """start the native (address-sanitized) replay build in the background"""
        ent = os.path.join(self.work, 'entries.cc')
        with open(ent, 'w') as f:
            for e in self.entries: f.write('extern "C" void %s();\n' % e)
            f.write('struct Entry{const char*name;void(*fn)();};\nEntry sym_entries[]={' + ''.join('{"%s",%s},' % (e, e) for e in self.entries) + '{0,0}};\n')
        rt = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'stubs', 'cpp', 'rt')
        self._objs = []; self._nat = []
        for i, s in enumerate(self.srcs + [ent, os.path.join(rt, 'sym_native.cc')]):
            o = os.path.join(self.work, 'n%d.o' % i); self._objs.append(o)
            self._nat.append(subprocess.Popen([CLANG, '-c', '-o', o, s, '-O1', '-g1', '-fsanitize=address', '-w'] + self.common(), stderr=subprocess.PIPE, text=True))
    def native(self):
        if self.exe: return self.exe
        if self._nat is None: self.native_start()
        for p in self._nat:
            err = p.communicate()[1]
            if p.returncode: raise BuildError(err[-4000:])
        exe = os.path.join(self.work, 'replay')
        r = subprocess.run([CLANG, '-fsanitize=address', '-o', exe] + self._objs + ['-lpthread'], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-4000:])
        self.exe = exe
        return exe

class BuildError(Exception): pass

def model_to_file(path, model, params, var_widths=None, fixed=None):
    """write a solver model as a replay input file"""
    lines = ['param %s %d' % kv for kv in params.items()]
    for k, v in (fixed or {}).items():
        lines.append('var %s %x' % (k, v))
    if model is not None:
        for d in model.decls():
            v = model[d]
            if d.arity() == 0:
                if z3.is_bv_value(v):
                    h = '%x' % v.as_long()
                    n = (v.size() + 7) // 8
                    lines.append('var %s %s' % (d.name(), h.rjust(2 * n, '0')))
            elif isinstance(v, z3.FuncInterp) and d.arity() == 1:
                inw = d.domain(0).size(); outw = d.range().size()
                for i in range(v.num_entries()):
                    e = v.entry(i)
                    a = e.arg_value(0); r = e.value()
                    if z3.is_bv_value(a) and z3.is_bv_value(r):
                        lines.append('uf %s %s %s' % (d.name(), ('%x' % a.as_long()).rjust(inw // 4, '0'), ('%x' % r.as_long()).rjust(outw // 4, '0')))
                ev = v.else_value()
                if ev is not None and z3.is_bv_value(ev):
                    lines.append('ufdef %s %s' % (d.name(), ('%x' % ev.as_long()).rjust(outw // 4, '0')))
    with open(path, 'w') as f: f.write('\n'.join(lines) + '\n')

class ReplayInput:
    """concrete environment read back from a replay file"""
    def __init__(self, path):
        self.params = {}; self.vars = {}; self.ufs = {}; self.ufdef = {}
        for line in open(path):
            t = line.split()
            if not t: continue
            if t[0] == 'param': self.params[t[1]] = int(t[2])
            elif t[0] == 'var': self.vars[t[1]] = int(t[2], 16)
            elif t[0] == 'uf': self.ufs.setdefault(t[1], {})[int(t[2], 16)] = int(t[3], 16)
            elif t[0] == 'ufdef': self.ufdef[t[1]] = int(t[2], 16)
    def var(self, name, w): return self.vars.get(name, 0) & mask(w)
    def uf(self, name, arg, inw, outw):
        if name == 'exp': return pow(arg >> 256, arg & mask(256), 1 << 256)
        t = self.ufs.get(name, {})
        if arg in t: return t[arg]
        return self.ufdef.get(name, 0) & mask(outw)

class NativeResult:
    def __init__(self, text, rc, err=''):
        self.outs = {}; self.events = []; self.checks = []; self.ended = False; self.assume_failed = False; self.rc = rc; self.err = err
        for line in text.splitlines():
            t = line.split(' ')
            if t[0] == 'out': 
                d = bytes.fromhex(t[2][1:]); self.outs[t[1]] = Buf(None, 0, len(d), d)
            elif t[0] == 'outi': self.outs[t[1]] = int(t[2])
            elif t[0] == 'event':
                b = None
                if t[3] != '-':
                    d = bytes.fromhex(t[3][1:]); b = Buf(None, 0, len(d), d)
                self.events.append((t[1], int(t[2], 16) if t[2] else 0, 4 * len(t[2]), b))
            elif t[0] == 'check': l = line.rsplit(' ', 1); self.checks.append((l[0][6:], int(l[1])))
            elif t[0] == 'end': self.ended = True
            elif t[0] == 'assume-failed': self.assume_failed = True

def run_native(exe, entry, path, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
    try:
        a = [exe, entry, path]
        if os.path.basename(exe) == 'goreplay': a = ['/usr/bin/prlimit', '--as=%d' % (6 << 30)] + a   # a Go build: keep gigantic allocations from taking the machine down
        r = subprocess.run(a, capture_output=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return NativeResult('', -1, 'timeout')
    return NativeResult(r.stdout.decode('latin1'), r.returncode, (lambda e: e if len(e) < 4000 else e[:2000] + e[-2000:])(r.stderr.decode('latin1')))
