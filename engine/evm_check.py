"""Scenario runner for EVM interpreters: explores the real code from a symbolic
pre-state and compares every path with evm_spec; counterexamples are replayed
against the natively compiled code before they are reported."""
import os, time, json, traceback, hashlib, multiprocessing as mp
import z3
from sym import *
import sym
import evm_spec
from evm_spec import *
import llrt
from llrt import Buf, ReplayInput, run_native, model_to_file

GAS_MAX = 1 << 54
STATE_EVENTS = {'set_storage', 'set_tstorage', 'selfdestruct', 'call', 'log'}

# ---- proving -------------------------------------------------------------------------
_abs = {}
def abstract(e, cache, side):
    """replace non-constant mul/div/rem by uninterpreted functions (over-approximation)"""
    k = e.get_id()
    r = cache.get(k)
    if r is not None: return r[0]
    stack = [e]
    while stack:
        x = stack[-1]
        if x.get_id() in cache: stack.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in cache]
        if todo: stack.extend(todo); continue
        nch = [cache[c.get_id()][0] for c in ch]
        d = x.decl().kind() if z3.is_app(x) else None
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I) and not all(z3.is_bv_value(c) for c in nch):
            if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(nch[1]) and bin(nch[1].as_long()).count('1') == 1:
                y = x.decl()(*nch)
            else:
                w = x.size()
                # narrow zero-extended operands so that different widths share one function
                y = ufd(d, w)(nch[0], nch[1])
        elif d == z3.Z3_OP_BMUL and sum(1 for c in nch if not z3.is_bv_value(c)) >= 2:
            w = x.size()
            consts = [c for c in nch if z3.is_bv_value(c)]
            vs = sorted([c for c in nch if not z3.is_bv_value(c)], key=lambda c: c.get_id())
            y = vs[0]
            for c in vs[1:]: y = ufd('mul', w)(y, c); side.append((w, y))
            for c in consts: y = y * c
        elif ch:
            y = x.decl()(*nch) if not all(a is b for a, b in zip(ch, nch)) else x
            if d in (z3.Z3_OP_AND, z3.Z3_OP_OR): y = z3.And(*nch) if d == z3.Z3_OP_AND else z3.Or(*nch)
            elif d in (z3.Z3_OP_BADD, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT, z3.Z3_OP_BMUL) and len(nch) > 2:
                if d == z3.Z3_OP_CONCAT: y = z3.Concat(*nch)
                else:
                    y = nch[0]
                    f = {z3.Z3_OP_BADD: lambda a, b: a + b, z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BOR: lambda a, b: a | b, z3.Z3_OP_BXOR: lambda a, b: a ^ b, z3.Z3_OP_BMUL: lambda a, b: a * b}[d]
                    for c in nch[1:]: y = f(y, c)
        else: y = x
        cache[x.get_id()] = (y, x)
        stack.pop()
    return cache[k][0]

def ufd(d, w):
    f = _abs.get((d, w))
    if f is None:
        f = _abs[(d, w)] = z3.Function('abs_%s_%d' % (d, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
    return f

def has_hard(e, seen):
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl().kind()
            if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I): return True
            if d == z3.Z3_OP_BMUL and sum(1 for c in x.children() if not z3.is_bv_value(c)) >= 2: return True
            stack.extend(x.children())
    return False

POOL = [0, 1, 2, 3, 5, 7, 0xff, 1 << 63, mask(64), 1 << 64, (1 << 64) + 1, 1 << 127, 1 << 128, (1 << 128) + 3, mask(128), 1 << 255, (1 << 255) + 1, mask(255), mask(256), mask(256) - 1, mask(256) - 6]

def prove(pc, cond, timeout=8000, pool_vars=(), stats=None):
    """is cond implied by pc?  ('proved'|'refuted'|'unknown', model)"""
    STATS.asserts += 1
    cond = norm(cond)
    if type(cond) is int:
        if cond: return 'proved', None
        neg = z3.BoolVal(True)
    else: neg = z3.Not(to_bool(cond))
    if z3.is_false(neg): return 'proved', None
    conds = list(pc) + [neg]
    seen = set()
    hard = any(has_hard(c, seen) for c in conds)
    if hard:
        cache = {}; side = []
        ab = [abstract(c, cache, side) for c in conds]
        r, m = solve(ab, 6000)
        if r == 'unsat': return 'proved', None
        # concrete candidates for the operands before attempting the exact query
        for m in candidates(conds, pool_vars):
            return 'refuted', m
        r, m = solve(conds, timeout)
    else:
        r, m = solve(conds, timeout)
        if r == 'unknown': r, m = solve(conds, 2 * timeout)
    if r == 'unsat': return 'proved', None
    if r == 'sat': return 'refuted', m
    STATS.assert_unknown += 1
    return 'unknown', None

def candidates(conds, pool_vars, limit=4.0):
    """search a refutation with the hard operands fixed to pool values (solver decides each)"""
    if not pool_vars: return
    t = time.time()
    import itertools, random
    rnd = random.Random(1)
    if len(pool_vars) == 1: combos = [(v,) for v in POOL]
    else:
        combos = [tuple(rnd.choice(POOL) for _ in pool_vars) for _ in range(150)]
        if len(pool_vars) == 2: combos = list(itertools.product(POOL[::-1], POOL))
        rnd.shuffle(combos)
    for c in combos:
        if time.time() - t > limit: return
        sub_ = [(v, z3.BitVecVal(x, v.size())) for v, x in zip(pool_vars, c)]
        cs = []
        bad = False
        for e in conds:
            x = z3.simplify(z3.substitute(e, *sub_))
            if z3.is_false(x): bad = True; break
            if not z3.is_true(x): cs.append(x)
        if bad: continue
        cs += [v == x for v, x in sub_]
        r, m = solve(cs, 1000)
        if r == 'sat': yield m

# ---- assertions -------------------------------------------------------------------
class Ctx:
    """how to quantify over byte positions"""
    def __init__(self, symbolic): self.symbolic = symbolic
    def all_bytes(self, n, f):
        if self.symbolic:
            i = z3.BitVec('idx', 64)
            if type(n) is int and n == 0: return 1
            if type(n) is int and n <= 4:
                r = 1
                for k in range(n): r = band(r, f(k))
                return r
            return bor(bnot(ult(i, n, 64)), f(i))
        for k in range(n):
            if not f(k): return 0
        return 1

def fields_value(fields):
    """split an event into comparable (offset,width,value)"""
    out = []; w = 0
    for v, n, c in fields: w += n
    off = w
    for v, n, c in fields:
        off -= n
        if c: out.append((off, n, v, c))
    return w, out

def event_matches(ctx, e, impl):
    name, val, bits, buf = impl
    if name != e.name: return 0
    w, fs = fields_value(e.fields)
    if w != bits: return 0
    r = 1
    for off, n, v, c in fs:
        x = extract(val, off + n - 1, off, bits)
        if c is True: r = band(r, eq(x, v, n))
        else: r = band(r, eq(and_(x, c, n), and_(v, c, n), n))
    if e.data is not None:
        n, f = e.data
        if buf is None: return 0
        r = band(r, eq(buf.n, n, 64))
        r = band(r, ctx.all_bytes(buf.n, lambda i: eq(buf.byte(i), f(i), 8)))
    return r

def assertions(ctx, m, S, outs, events, want):
    """list of (group, label, condition)"""
    A = []
    def need(g, label, c):
        if g in want: A.append((g, label, norm(c)))
    o = outs
    failed = eq(o['step_status'], FAILED, 64)
    ok = bnot(S.failed)
    need('fail', 'fails exactly when defined (%s)' % ', '.join(sorted(set(r for r, _ in S.fails))), eq(failed, S.failed, 1))
    need('failgas', 'a failed step keeps no gas', bor(bnot(failed), eq(o['gas'], 0, 64)))
    both = band(ok, bnot(failed))
    if type(both) is int and not both: return A
    imp = lambda c: bor(bnot(both), c)
    need('status', 'execution state after the step', imp(eq(o['step_status'], S.status, 64)))
    need('gas', 'gas left', imp(eq(o['gas'], S.gas_left, 64)))
    need('gasrange', 'gas left within supply', imp(sle(0, o['gas'], 64)))
    if S.status != REVERTED:
        need('refund', 'refund counter', imp(eq(o['refund'], add(m.var('refund', 64), S.refund, 64), 64)))
    if S.status == RUNNING:
        need('pc', 'program counter', imp(eq(o['pc'], S.pc, 64)))
        nsp = m.sp - S.pops + len(S.push)
        need('sp', 'stack size', imp(eq(o['sp'], nsp, 64)))
        st = o['stack']
        if type(o['sp']) is int and o['sp'] == nsp:
            for i, v in enumerate(S.push):
                if ('value', i) in want or 'value' in want:
                    A.append(('value', 'result word %d' % i, norm(imp(eq(st.be(32, 32 * (nsp - 1 - i)), v, 256)))))
            if 'deep' in want:
                c = 1
                n = m.sp - S.pops
                for i in range(n):
                    # deeper words keep their value (position from the bottom unchanged)
                    c = band(c, eq(st.be(32, 32 * (n - 1 - i)), m.s(S.pops + i), 256))
                A.append(('deep', 'words below the operands unchanged', norm(imp(c))))
        need('mem', 'memory size', imp(eq(o['memsize'], S.memsize, 64)))
        if 'mem' in want:
            mb = o['mem']
            A.append(('mem', 'memory contents', norm(imp(bor(bnot(eq(o['memsize'], S.memsize, 64)), ctx.all_bytes(o['memsize'], lambda i: eq(mb.byte(i), S.mem(i), 8)))))))
        if 'rd' in want:
            if S.rd is None: n, f = m.rdsize, m.rd
            else: n, f = S.rd
            A.append(('rd', 'return data size', norm(imp(eq(o['rdsize'], n, 64)))))
            A.append(('rd', 'return data', norm(imp(bor(bnot(eq(o['rdsize'], n, 64)), ctx.all_bytes(o['rdsize'], lambda i: eq(o['rd'].byte(i), f(i), 8)))))))
    if S.out is not None and 'out' in want:
        n, f = S.out
        A.append(('out', 'output size', norm(imp(eq(o['outsize'], n, 64)))))
        A.append(('out', 'output', norm(imp(bor(bnot(eq(o['outsize'], n, 64)), ctx.all_bytes(o['outsize'], lambda i: eq(o['out'].byte(i), f(i), 8)))))))
    if 'events' in want:
        st = [e for e in events if e[0] in STATE_EVENTS]
        c = 1
        if len(st) > 1: c = 0
        elif len(st) == 1:
            c = 0
            for e in S.state: c = bor(c, band(e.cond, event_matches(ctx, e, st[0])))
        else:
            for e in S.state: c = band(c, bnot(e.cond))
        A.append(('events', 'state-changing host requests', norm(imp(c))))
    if 'access' in want:
        ac = [e for e in events if e[0].startswith('access_')]
        c = 1
        for x in ac:
            d = 0
            for e in S.access: d = bor(d, band(e.cond, event_matches(ctx, e, x)))
            c = band(c, d)
        if not ac:
            for e in S.access: c = band(c, bnot(e.cond))
        A.append(('access', 'access-list host requests', norm(imp(c))))
    if 'nowrite' in want:
        st = [e for e in events if e[0] in STATE_EVENTS]
        c = 1
        for e in st:
            if e[0] == 'call':
                # calls in read-only mode are read-only, move no value and create nothing
                v = e[1]; b = e[2]
                kind = extract(v, b - 1, b - 64, b); flags = extract(v, b - 65, b - 128, b)
                val = extract(v, b - 800 - 1, b - 800 - 256, b)
                d = band(eq(and_(flags, 1, 64), 1, 64), ult(kind, 3, 64))
                # value is transferred by plain calls only (DELEGATECALL repeats the caller's, CALLCODE stays in place)
                d = band(d, bor(bnot(eq(kind, 0, 64)), eq(val, 0, 256)))
                c = band(c, d)
            else: c = 0
        A.append(('nowrite', 'no state-changing request in read-only mode', norm(bor(bnot(m.static), c))))
    return A

# ---- scenarios ------------------------------------------------------------------------
class Scenario:
    """one exploration: op at pc in a symbolic frame"""
    def __init__(self, op, rev, sp, want, code=None, pc=0, memsize=0, rdsize=0, callout=33, regions='small', static=None, gas=None, fixed=None,
                 extra=None, entry='h_step', pool=(), tag='', fail_only=None):
        self.op = op; self.rev = rev; self.sp = sp; self.want = set(want)
        self.code = code if code is not None else [op]; self.pc = pc
        self.memsize = memsize; self.rdsize = rdsize; self.callout = callout; self.regions = regions
        self.static = static; self.gas = gas; self.fixed = dict(fixed or {}); self.extra = extra
        self.entry = entry; self.pool = pool; self.tag = tag
    def name(self):
        return '%s/%s/sp%d%s' % (NAME.get(self.op, '0x%02x' % self.op), REV_NAMES.get(self.rev, self.rev), self.sp, ('/' + self.tag) if self.tag else '')
    def params(self):
        return dict(codelen=len(self.code), fillat=0, fill=0, fillop=0, sp=self.sp, memsize=self.memsize, rdsize=self.rdsize, pc=self.pc, revision=self.rev, status=0, steps=1,
                    callout_max=self.callout, maxsteps=1)

SMALL = 80
def region_ops(name):
    """stack positions (offset,size) of the memory accesses of an instruction"""
    t = {'SHA3': [(0, 1)], 'CALLDATACOPY': [(0, 2)], 'CODECOPY': [(0, 2)], 'RETURNDATACOPY': [(0, 2)], 'EXTCODECOPY': [(1, 3)], 'MCOPY': [(0, 2), (1, 2)],
         'MLOAD': [(0, 32)], 'MSTORE': [(0, 32)], 'MSTORE8': [(0, 1)], 'RETURN': [(0, 1)], 'REVERT': [(0, 1)], 'CREATE': [(1, 2)], 'CREATE2': [(1, 2)],
         'CALL': [(3, 4), (5, 6)], 'CALLCODE': [(3, 4), (5, 6)], 'DELEGATECALL': [(2, 3), (4, 5)], 'STATICCALL': [(2, 3), (4, 5)]}
    if name.startswith('LOG'): return [(0, 1)]
    return t.get(name, [])

def code_fixed(sc):
    if hasattr(sc, 'allfixed'): return sc.allfixed()
    f = {}
    for i, c in enumerate(sc.code):
        if c is not None: f['code%d' % i] = c
    f.update(sc.fixed)
    return f

def assumptions(sc, S, var):
    """stated bounds on the symbolic inputs"""
    A = []
    g = var('gas', 64)
    lo, hi = sc.gas or (0, GAS_MAX)
    A.append(ule(lo, g, 64)); A.append(ule(g, hi, 64))
    A.append(ule(var('depth', 64), 1024, 64))
    A.append(ule(var('inputsize', 64), 64, 64))
    A.append(ule(var('blobcount', 64), 4, 64))
    for v in ('number', 'timestamp', 'gaslimit'): A.append(ule(var(v, 64), (1 << 62), 64))
    A.append(slt(var('refund', 64), 1 << 50, 64)); A.append(slt((-(1 << 50)) & mask(64), var('refund', 64), 64))
    if sc.static is not None: A.append(eq(and_(var('static', 64), 1, 64), sc.static, 64))
    name = NAME.get(sc.op, '')
    if sc.sp >= OPS.get(sc.op, ('', 0))[1]:
        for (o, z), r in zip(region_ops(name), S.regions):
            if sc.regions == 'small':
                # empty, or small, or beyond anything affordable
                A.append(bor(bor(r.empty, r.huge), ule(r.end, SMALL, 64) if name in ('MLOAD', 'MSTORE', 'MSTORE8') else band(ule(r.off, SMALL, W), ule(r.size, SMALL, W))))
            elif sc.regions == 'tiny':
                A.append(band(ule(r.off, 40, W), ule(r.size, 40, W)))
            elif sc.regions == 'none':
                A.append(r.empty)
    A += S.assume
    if sc.extra: A += sc.extra(var, S)
    return [a for a in A if not (type(a) is int and a)]

class Result:
    def __init__(self): self.time = 0.0; self.viol = []; self.notes = []; self.stats = None; self.paths = 0; self.validated = 0; self.samples = []; self.mismatch = []

def paid_for(m, S):
    """the supply of gas covers growing the memory"""
    oog = bor(S.huge, ult(m.gas, S.memc, 64))
    for r, c in S.fails:
        if r in ('static', 'stack overflow', 'stack underflow', 'undefined'): oog = bor(oog, c)
    return norm(bnot(oog))

class Impl:
    """an interpreter behind the LLVM engine"""
    def __init__(self, eng, st, exe_fn):
        self.eng = eng; self.base = st; self.exe_fn = exe_fn
    def paths(self, sc, assumes, deadline):
        st = self.base.clone(); st.steps = 0
        st.extra['params'] = sc.params(); st.extra['fixed'] = code_fixed(sc)
        st.pc = []; st.known = {}; st.model = None
        for a in assumes: st.pc.append(to_bool(a)); st.known[to_bool(a).get_id()] = (True, to_bool(a))
        self.eng.alloc_limit = 0 if sc.regions == 'threshold' else (1 << 14)
        for s in self.eng.explore(st, sc.entry, [], deadline=deadline): yield s

def machine(sc, var, uf):
    f = code_fixed(sc)
    return Machine(var, uf, sc.params(), lambda i: f['code%d' % i] if 'code%d' % i in f else var('code%d' % i, 8))

def sym_env(sc):
    f = code_fixed(sc)
    return (lambda n, w: f[n] if n in f else z3.BitVec(n, w)), (lambda n, a, i, o: norm(llrt.uf_app(n, a, i, o)))

def check_scenario(impl, sc, workdir, idx, tier, budget=60, validate=1):
    R = Result()
    t0 = time.time()
    var, uf = sym_env(sc)
    m = machine(sc, var, uf)
    S = evm_spec.step(m, sc.op)
    As = assumptions(sc, S, var)
    if any(type(a) is int for a in As): R.notes.append(sc.name() + ': vacuous'); return R
    ctx = Ctx(True)
    pool = [z3.BitVec(n, 256) for n in sc.pool]
    ended = 0
    for s in impl.paths(sc, As, t0 + budget):
        R.paths += 1
        kind, msg = s.outcome
        if kind == 'ret':
            ended += 1
            A = assertions(ctx, m, S, s.outs, s.events, sc.want)
        elif kind == 'huge-alloc':
            ended += 1
            if 'fail' not in sc.want: continue
            A = [('fail', 'memory is only grown once paid for', paid_for(m, S))]
        elif kind in ('memerr', 'ub', 'abort', 'throw', 'stack-depth', 'trap', 'unreachable'):
            A = [('crash', '%s %s' % (kind, msg), 0)]
        elif kind in ('timeout', 'unknown', 'limit', 'bound', 'unsupported'):
            R.notes.append('%s: %s %s' % (sc.name(), kind, msg)); continue
        else:
            R.notes.append('%s: path ended with %s %s' % (sc.name(), kind, msg)); continue
        model = None
        live = [(g, l, c) for g, l, c in A if not (type(c) is int and c)]
        STATS.asserts += len(A) - len(live)
        if live:
            conj = 1
            for g, l, c in live: conj = band(conj, c)
            r, mod = prove(s.pc, conj, 4000 if len(live) > 1 else 12000, pool)
            bad = None
            if r == 'refuted': bad = (mod, [l for g, l, c in live])
            elif r == 'unknown' and len(live) > 1:
                for g, l, c in live:
                    r2, mod = prove(s.pc, c, 12000, pool)
                    if r2 == 'refuted': bad = (mod, [l]); break
                    if r2 == 'unknown': R.notes.append('%s: undecided: %s' % (sc.name(), l))
            elif r == 'unknown': R.notes.append('%s: undecided: %s' % (sc.name(), live[0][1]))
            if bad:
                v = confirm(impl, sc, bad[0], workdir, '%s_%d' % (idx, R.paths), A, s)
                if v is True: R.mismatch.append('%s: %s not reproduced' % (sc.name(), bad[1]))
                elif v: R.viol.append(v)
                if len(R.viol) >= 1: break
        # validate the encoding on a concrete instance of the path
        if kind == 'ret' and R.validated < validate and not R.viol:
            r, mod = solve(s.pc, 2000)
            if mod is not None:
                ok, why = validate_path(impl, sc, mod, s, workdir, '%s_v%d' % (idx, R.paths))
                if ok is None: pass
                elif ok: R.validated += 1; R.samples.append(why)
                else: R.mismatch.append('%s: %s' % (sc.name(), why))
    if not ended and not R.viol: R.notes.append('%s: no path reached the end of the step' % sc.name())
    R.time = time.time() - t0
    return R

def confirm(impl, sc, model, workdir, tag, A, s):
    """replay; returns a violation dict, or True when it does not reproduce"""
    path = os.path.join(workdir, 'cex_%s.txt' % tag)
    model_to_file(path, model, sc.params(), fixed=code_fixed(sc))
    bad = replay(impl.exe_fn(), sc, path)
    if not bad: return True
    return dict(scenario=sc.name(), replay=path, failed=bad, op=NAME.get(sc.op, hex(sc.op)), rev=sc.rev)

def replay(exe, sc, path):
    """run the native build on a replay file; list of violated assertions"""
    n = run_native(exe, sc.entry, path)
    rin = ReplayInput(path)
    if n.assume_failed: return []
    m = machine(sc, rin.var, rin.uf)
    S = evm_spec.step(m, sc.op)
    for a in assumptions(sc, S, rin.var):
        if not a: return []
    if not n.ended:
        if any(x in n.err for x in ('allocation', 'out of memory', 'cannot allocate')) or n.rc == -9:
            return [] if paid_for(m, S) else ['memory is only grown once paid for']
        # a native run that died on a gigantic allocation it had not been paid for is a violation as well
        return ['native run crashed: ' + (n.err.strip().splitlines() or ['exit %d' % n.rc])[0][:200]]
    return [l for g, l, c in assertions(Ctx(False), m, S, n.outs, n.events, sc.want) if not c]

def validate_path(impl, sc, model, s, workdir, tag):
    if any(d.name() == 'exp' for d in model.decls()) or sc.op == 0x0a or 0x0a in (getattr(sc, 'code', None) or []): return None, ''
    path = os.path.join(workdir, 'val_%s.txt' % tag)
    model_to_file(path, model, sc.params(), fixed=code_fixed(sc))
    n = run_native(impl.exe_fn(), sc.entry, path)
    rin = ReplayInput(path)
    if n.assume_failed or not n.ended: os.unlink(path); return (False, 'native run ended differently: ' + n.err[:200])
    names = [d for d in model.decls()]
    def ev(v, w):
        if type(v) is int: return v
        r = model.eval(v, model_completion=True)
        return r.as_long() if z3.is_bv_value(r) else None
    diff = []
    for k, v in s.outs.items():
        if type(v) is Buf:
            nb = n.outs.get(k)
            ln = ev(v.n, 64)
            if nb is None or ln is None or nb.n != ln: diff.append(k + '.len'); continue
            for i in range(0, min(ln, 64)):
                x = ev(v.byte(i), 8)
                if x is not None and x != nb.byte(i): diff.append('%s[%d]' % (k, i)); break
        else:
            x = ev(v, 64)
            if x is not None and x != n.outs.get(k): diff.append('%s %s != %s' % (k, x, n.outs.get(k)))
    os.unlink(path)
    if [e[0] for e in s.events] != [e[0] for e in n.events if e]: diff.append('events')
    if diff: return (False, 'encoding and native run differ: ' + ', '.join(diff[:5]))
    return (True, '%s gas=%s -> status=%s gas=%s' % (sc.name(), rin.vars.get('gas'), n.outs.get('step_status', n.outs.get('e_status')), n.outs.get('gas', n.outs.get('e_gas'))))

# ---- parallel driver ---------------------------------------------------------------------
def run_jobs(fn, njobs, nproc=8, deadline=None, stop_after=3):
    """fork workers; fn(i) -> picklable; yields results as they come"""
    q = mp.Value('i', 0); stop = mp.Value('i', 0)
    rp, wp = [], []
    ctx = mp.get_context('fork')
    out = ctx.Queue()
    def worker():
        while True:
            with q.get_lock():
                i = q.value; q.value += 1
            if i >= njobs or stop.value or (deadline and time.time() > deadline): break
            sym.STATS.__init__()
            try: r = fn(i)
            except Exception: r = ('error', traceback.format_exc()[-1500:])
            out.put((i, r, (sym.STATS.queries, sym.STATS.time, sym.STATS.unknown, sym.STATS.asserts, sym.STATS.assert_unknown, sym.STATS.paths, sym.STATS.forks, sym.STATS.steps, list(sym.STATS.funcs))))
        out.put(None)
        out.close(); out.join_thread()
        os._exit(0)
    ps = []
    for _ in range(min(nproc, max(1, njobs))):
        p = ctx.Process(target=worker, daemon=True); p.start(); ps.append(p)
    live = len(ps)
    import queue as _q
    dead_since = None
    while live:
        try: x = out.get(timeout=5)
        except _q.Empty:
            if not any(p.is_alive() for p in ps): break
            if deadline and time.time() > deadline + 60:
                for p in ps:
                    if p.is_alive(): p.kill()
                break
            continue
        if x is None: live -= 1; continue
        yield x
        if getattr(run_jobs, 'enough', None) and run_jobs.enough(): stop.value = 1
    for p in ps:
        p.join(timeout=1)
        if p.is_alive(): p.kill()
