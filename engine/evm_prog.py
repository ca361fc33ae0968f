"""Whole-frame runs: the same code executed in one go, again with the caches warm, and
by single steps must agree, and the reported outcome must be confined."""
from evm_check import *
from evm_spec import *
import itertools

VARIANTS = ['', '/super-instructions', '/no hash cache', '/no code cache', '/statistics', '/super-instructions+statistics']
class Prog:
    """code: list of ints / None (symbolic byte); expect(m) -> list of (label, fn(outs,var,uf) -> cond)"""
    def __init__(self, name, code, rev=12, gas=1 << 20, hashed=1, steps=1, fixed=None, extra=None, maxsteps=24, callout=33, expect=None, static=0, alts=None, variant=0, fill=None):
        self.nm = name; self.code = code; self.rev = rev; self.gas = gas; self.hashed = hashed; self.steps = steps
        self.fixed = dict(fixed or {}); self.extra = extra; self.maxsteps = maxsteps; self.callout = callout; self.expect = expect; self.static = static
        self.alts = alts or {}; self.variant = variant; self.fill = fill or (0, 0, 0); self.symjump = name.find('fused') >= 0 and 'JUMP' in name
        self.op = -1; self.sp = 0; self.regions = 'any'; self.entry = 'h_stepexec'; self.want = set()
    def name(self): return '%s/%s/%s%s' % (self.nm, REV_NAMES[self.rev], 'cached' if self.hashed else 'plain', ('/by%d' % self.steps if self.steps > 1 else '') + VARIANTS[self.variant])
    def params(self):
        return dict(codelen=len(self.code), fillat=self.fill[0], fill=self.fill[1], fillop=self.fill[2], sp=0, memsize=0, rdsize=0, pc=0, revision=self.rev, status=0, steps=self.steps, callout_max=self.callout,
                    maxsteps=self.maxsteps, hash=self.hashed, variant=self.variant)
    def allfixed(self):
        f = {'code%d' % i: c for i, c in enumerate(self.code) if c is not None}
        if type(self.gas) is int: f['gas'] = self.gas
        if self.static is not None: f['static'] = self.static
        f.update(self.fixed)
        return f

def prog_assumptions(p, var):
    A = []
    if type(p.gas) is tuple: A += [ule(p.gas[0], var('gas', 64), 64), ule(var('gas', 64), p.gas[1], 64)]
    A.append(ule(var('depth', 64), 1023, 64)); A.append(ule(var('inputsize', 64), 64, 64)); A.append(ule(var('blobcount', 64), 4, 64))
    for v in ('number', 'timestamp', 'gaslimit'): A.append(ule(var(v, 64), 1 << 62, 64))
    A.append(eq(var('refund', 64), 0, 64))
    for i, vals in p.alts.items():
        c = 0
        for v in vals: c = bor(c, eq(var('code%d' % i, 8), v, 8))
        A.append(c)
    if p.extra: A += p.extra(var)
    return [norm(a) for a in A if not (type(norm(a)) is int and norm(a))]

def segments(events):
    segs = []
    for e in events:
        if e[0] == 'run': segs.append([])
        elif segs and e[0] != 'release': segs[-1].append(e)
    return segs

def same_buf(a, b, ctx):
    if a is None or b is None: return int(a is b)
    return band(eq(a.n, b.n, 64), ctx.all_bytes(a.n, lambda i: eq(a.byte(i), b.byte(i), 8)))

def same_events(x, y, ctx):
    if len(x) != len(y): return 0
    c = 1
    for a, b in zip(x, y):
        if a[0] != b[0] or a[2] != b[2]: return 0
        c = band(c, eq(a[1], b[1], a[2]) if a[2] else 1)
        if (a[3] is None) != (b[3] is None): return 0
        if a[3] is not None: c = band(c, same_buf(a[3], b[3], ctx))
    return c

def prog_assertions(ctx, p, o, events, var, uf, refund_too=True):
    A = []
    need = lambda l, c: A.append((l, norm(c)))
    g0 = var('gas', 64)
    es = o['e_status']
    ok = eq(es, 0, 64); rv = eq(es, 2, 64); failed = bnot(bor(ok, rv))
    need('gas left is not negative and within the supply plus what calls returned', sle(0, o['e_gas'], 64))
    need('a failed run keeps no gas', bor(bnot(failed), eq(o['e_gas'], 0, 64)))
    need('a run that does not succeed reports no refund', bor(ok, eq(o['e_refund'], 0, 64)))
    need('a failed run has no output', bor(bnot(failed), eq(o['e_outsize'], 0, 64)))
    segs = segments(events)
    if p.hashed or p.variant:
        what = 'default configuration' if p.variant else 'second run with a warm cache'
        need(what + ': status', eq(es, o['f_status'], 64))
        need(what + ': gas', eq(o['e_gas'], o['f_gas'], 64))
        need(what + ': refund', eq(o['e_refund'], o['f_refund'], 64))
        need(what + ': output', band(eq(o['e_outsize'], o['f_outsize'], 64), same_buf(o['e_out'], o['f_out'], ctx)))
        if len(segs) == 3 or p.fill[1] and len(segs) == 2: need(what + ': host requests', same_events(segs[0], segs[1], ctx))
        else: need('as many runs as asked for', 0)
    if 'step_status' in o:
        need('stepping: status', eq(es, o['status'], 64))
        st = o['step_status']
        need('stepping: kind of end', band(bor(bnot(ok), bor(eq(st, STOPPED, 64), eq(st, RETURNED, 64))), band(bor(bnot(rv), eq(st, REVERTED, 64)), bor(bnot(failed), eq(st, FAILED, 64)))))
        need('stepping: gas', bor(failed, eq(o['e_gas'], o['gas'], 64)))
        need('stepping: refund', bor(bnot(ok), eq(o['e_refund'], o['refund'], 64)))
        need('stepping: output', bor(failed, band(eq(o['e_outsize'], o['outsize'], 64), same_buf(o['e_out'], o['out'], ctx))))
        need('stepping: host requests', bor(failed, same_events(segs[0], segs[-1], ctx)) if segs else 0)
    elif not p.fill[1]: need('stepping ends', 0)
    if p.expect:
        for l, c in p.expect(ctx, o, events, var, uf): need(l, c)
    return A

def check_prog(impl, p, workdir, idx, tier, budget=60, validate=1):
    R = Result(); t0 = time.time()
    f = p.allfixed()
    var = lambda n, w: f[n] if n in f else z3.BitVec(n, w)
    uf = lambda n, a, i, o: norm(llrt.uf_app(n, a, i, o))
    As = prog_assumptions(p, var)
    ctx = Ctx(True)
    st = impl.base.clone(); st.steps = 0
    st.extra['params'] = p.params(); st.extra['fixed'] = f
    st.pc = []; st.known = {}; st.model = None
    for a in As: st.pc.append(to_bool(a)); st.known[to_bool(a).get_id()] = (True, to_bool(a))
    impl.eng.alloc_limit = 1 << (20 if p.fill[1] else 14); impl.eng.concretize_offsets = p.symjump; impl.eng.max_steps = 60000000 if p.fill[1] > 2000 else 4000000
    ended = 0
    for s in impl.eng.explore(st, p.entry, [], deadline=t0 + budget):
        R.paths += 1
        kind, msg = s.outcome
        if kind == 'ret':
            ended += 1
            A = prog_assertions(ctx, p, s.outs, s.events, var, uf)
        elif kind in ('memerr', 'ub', 'abort', 'throw', 'stack-depth', 'trap', 'unreachable'):
            A = [('%s %s' % (kind, msg), 0)]
        else:
            R.notes.append('%s: %s %s' % (p.name(), kind, msg)); continue
        live = [(l, c) for l, c in A if not (type(c) is int and c)]
        STATS.asserts += len(A) - len(live)
        if live:
            conj = 1
            for l, c in live: conj = band(conj, c)
            r, mod = prove(s.pc, conj, 8000)
            if r == 'unknown' and len(live) > 1:
                for l, c in live:
                    r2, mod = prove(s.pc, c, 8000)
                    if r2 == 'refuted': r = 'refuted'; break
                    if r2 == 'unknown': R.notes.append('%s: undecided: %s' % (p.name(), l))
            elif r == 'unknown': R.notes.append('%s: undecided: %s' % (p.name(), live[0][0]))
            if r == 'refuted':
                path = os.path.join(workdir, 'cex_%s_%d.txt' % (idx, R.paths))
                model_to_file(path, mod, p.params(), fixed=f)
                bad = replay_prog(impl.exe_fn(), p, path)
                if bad: R.viol.append(dict(scenario=p.name(), replay=path, failed=bad, op=p.nm, rev=p.rev)); break
                R.mismatch.append('%s: %s not reproduced' % (p.name(), [l for l, c in live]))
        if kind == 'ret' and R.validated < validate and not R.viol:
            r, mod = solve(s.pc, 2000)
            if mod is not None:
                ok, why = validate_path(impl, p, mod, s, workdir, '%s_v%d' % (idx, R.paths))
                if ok is None: pass
                elif ok: R.validated += 1; R.samples.append(why)
                else: R.mismatch.append('%s: %s' % (p.name(), why))
    if not ended and not R.viol: R.notes.append('%s: no path reached the end' % p.name())
    R.time = time.time() - t0
    return R

def replay_prog(exe, p, path):
    n = run_native(exe, p.entry, path)
    rin = ReplayInput(path)
    if n.assume_failed: return []
    for a in prog_assumptions(p, rin.var):
        if not a: return []
    if not n.ended: return ['native run crashed: ' + (n.err.strip().splitlines() or ['exit %d' % n.rc])[0][:200]]
    return [l for l, c in prog_assertions(Ctx(False), p, n.outs, n.events, rin.var, rin.uf) if not c]

def push(v, n=None):
    if n is None: n = max(1, (v.bit_length() + 7) // 8)
    return [0x5f + n] + list(v.to_bytes(n, 'big'))
def asm(*xs):
    out = []
    for x in xs:
        if isinstance(x, str): out.append(CODE[x])
        elif isinstance(x, (list, tuple)): out += list(x)
        else: out.append(x)
    return out
RET32 = push(0) + [0x52] + push(32) + push(0) + [0xf3]      # MSTORE at 0 and RETURN 32 bytes
RET = lambda a, b: push(b) + push(a) + [0xf3]

def word(o, i=0): return o['e_out'].be(32, 32 * i)
def returns(values):
    """on success the output consists of these words"""
    def f(ctx, o, ev, var, uf):
        ok = eq(o['e_status'], 0, 64)
        vs = values(var, uf)
        c = eq(o['e_outsize'], 32 * len(vs), 64)
        if type(c) is int and c:
            for i, v in enumerate(vs): c = band(c, eq(word(o, i), v, 256))
        return [('output', bor(bnot(ok), c))]
    return f
def cb(var, i, n=1):
    return zext(concat([(var('code%d' % (i + k), 8), 8) for k in range(n)]), 8 * n, 256)

def programs(tier):
    q = tier == 'quick'
    P = []
    ops2 = ['ADD', 'SUB', 'AND', 'LT', 'BYTE', 'SHL']
    # every instruction on small operands, with a symbolic supply of gas for the cheap ones
    for op in sorted(OPS):
        name, pops, pushes, _, first = OPS[op]
        if first > 12 or name in ('JUMP', 'JUMPI'): continue
        ops = [1] * pops
        if name.startswith('DUP') or name.startswith('SWAP'): ops = list(range(1, pops + 1))
        if op in (0xf1, 0xf2): ops = [0x40, 0x11, 0, 0, 4, 2, 3]
        if op in (0xf4, 0xfa): ops = [0x40, 0x11, 0, 4, 2, 3]
        if name == 'RETURNDATACOPY': ops = [0, 0, 0]
        if name in ('DIV', 'SDIV', 'MOD', 'SMOD', 'MUL', 'EXP', 'ADDMOD', 'MULMOD'): ops = [7] * pops
        code = []
        for v in reversed(ops): code += push(v)
        code += [op] + ([None] * (op - 0x5f) if 0x60 <= op <= 0x7f else [])
        if pushes: code += RET32
        P.append(Prog('one-' + name, code, hashed=1 if not q or op % 4 == 0 else 0, maxsteps=40, steps=1 if op % 3 else 2))
    # arithmetic result through memory
    P.append(Prog('add', asm(0x60, None, 0x60, None, 'ADD', RET32), gas=(0, 60), expect=returns(lambda v, u: [add(cb(v, 1), cb(v, 3), 256)])))
    P.append(Prog('push-wide', asm(0x63, None, None, None, None, 0x61, None, None, 'SUB', RET32), gas=(0, 60), expect=returns(lambda v, u: [sub(cb(v, 6, 2), cb(v, 1, 4), 256)])))
    # jumps: a symbolic target, symbolic instruction bytes between jump and target
    for t in list(range(0, 12)) + [255]:
        P.append(Prog('jump%d' % t, asm(0x60, t, 'JUMP', 0x5b, 0x60, 0x5b, 0x5b, 0x00, 0x5b, 0x61, 0x5b)))
    for a, b, c in itertools.product(*([(0x5b, 0x60, 0x61, 0x7f), (0x5b, 0x60), (0x5b, 0)] if q else [(0x5b, 0x5f, 0x60, 0x61, 0x62, 0x63, 0x7f, 0x80), (0x5b, 0x60, 0), (0x5b, 0x60, 0)])):
        P.append(Prog('jump-over-%02x%02x%02x' % (a, b, c), asm(push(6), 'JUMP', a, b, c, 0x5b, 0x00)))
    P.append(Prog('jump-cache', asm(push(38), 'JUMP', [0] * 35, 0x5b, 'CALLDATASIZE', RET32), expect=returns(lambda v, u: [zext(v('inputsize', 64), 64, 256)])))
    P.append(Prog('jumpi', asm('CALLDATASIZE', push(7), 'JUMPI', push(1), RET32[:1] and [0x5b], push(2), RET32), gas=(0, 80)))
    P.append(Prog('loop', asm('CALLDATASIZE', push(3), 'AND', 0x5b, 'DUP1', 'ISZERO', push(16), 'JUMPI', push(1), 'SWAP1', 'SUB', push(4), 'JUMP', 0x5b, 'MSIZE', RET32), maxsteps=60))
    # the same words hashed twice, different words hashed after each other
    kec = lambda u, v, n: u('keccak', keccak_arg(n, lambda i: v(i)), 64 + 2048, 256)
    def memw(var, i):
        x = lambda k: (extract(cb(var, i), 255 - 8 * k, 248 - 8 * k, 256) if k < 32 else 0) if type(k) is int else pick(lambda j: extract(cb(var, i), 255 - 8 * j, 248 - 8 * j, 256), k, 32)
        return x
    P.append(Prog('sha3', asm(0x60, None, push(0), 'MSTORE', push(32), push(0), 'SHA3', 0x60, None, push(0), 'MSTORE', push(32), push(0), 'SHA3', push(32), 'MSTORE', push(0), 'MSTORE', RET(0, 64)),
                  maxsteps=40, expect=returns(lambda v, u: [kec(u, memw(v, 1), 32), kec(u, memw(v, 11), 32)])))
    P.append(Prog('sha3-len', asm(0x60, None, push(0), 'MSTORE', push(31), push(0), 'SHA3', push(64), push(0), 'SHA3', push(33), push(0), 'SHA3', push(32), 'MSTORE', push(64), 'MSTORE', push(0), 'MSTORE', RET(0, 96)),
                  maxsteps=40, expect=returns(lambda v, u: [kec(u, memw(v, 1), 31), kec(u, memw(v, 1), 33), kec(u, memw(v, 1), 64)])))
    P.append(Prog('sha3-64', asm(0x60, None, push(0), 'MSTORE', 0x60, None, push(32), 'MSTORE', push(64), push(0), 'SHA3', push(64), push(0), 'SHA3', push(32), 'MSTORE', push(0), 'MSTORE', RET(0, 64)), maxsteps=40,
                  expect=returns(lambda v, u: [kec(u, lambda k: memw(v, 1)(k) if k < 32 else memw(v, 6)(k - 32), 64)] * 2)))
    # failures after effects, out of gas anywhere
    P.append(Prog('sstore-invalid', asm(0x60, None, push(0), 'SSTORE', 0xfe)))
    P.append(Prog('sstore-revert', asm(0x60, None, push(0), 'SSTORE', push(2), push(1), 'REVERT')))
    P.append(Prog('sstore-refund', asm(push(0), push(0), 'SSTORE', push(1), push(0), 'SSTORE'), gas=(2200, 2400)))
    P.append(Prog('sstore-refund2', asm(push(0), push(0), 'SSTORE', push(1), push(0), 'SSTORE')))
    P.append(Prog('oog', asm(0x60, None, push(0), 'MSTORE', push(1), push(64), 'MSTORE8', 'GAS', RET32), gas=(0, 80)))
    P.append(Prog('log', asm(0x60, None, push(0), 'MSTORE', push(9), push(32), push(0), 'LOG1'), gas=(0, 1200)))
    P.append(Prog('underflow', asm(push(1), 0x50, 0x50)))
    P.append(Prog('cut-push', asm(0x60, 1, 0x7f, None, None)))
    P.append(Prog('cut-push1', asm('CALLER', 0x60)))
    P.append(Prog('empty', []))
    P.append(Prog('return-late', asm(0x60, None, push(0), 'MSTORE', push(3), push(30), 'RETURN')))
    P.append(Prog('pc-codesize', asm('CALLER', 'PC', 'CODESIZE', 'ADD', RET32), expect=returns(lambda v, u: [1 + 12])))
    P.append(Prog('memory', asm(push(7), push(0x21), 'MSTORE', push(0x20), 'MLOAD', 'MSIZE', 'ADD', RET32), expect=returns(lambda v, u: [0x60])))
    # memory grown in several steps, paid for step by step
    def grown(offs, read=False):
        words = 0; cost = 0; code = []
        fee = lambda w: w * w // 512 + 3 * w
        for off in offs:
            w = max(words, (off + 32) // 32 if not read else (off + 63) // 32)
            code += asm(push(off, 2), 'MLOAD', 'POP') if read else asm(push(1), push(off, 2), 'MSTORE8')
            cost += (3 + 3 + 2 if read else 9) + fee(w) - fee(words); words = w
        def ex(ctx, o, ev, var, uf):
            g = var('gas', 64)
            return [('memory grown in steps: gas', ite(ule(cost, g, 64), band(eq(o['e_status'], 0, 64), eq(o['e_gas'], sub(g, cost, 64), 64)), bnot(eq(o['e_status'], 0, 64)), 1))]
        return Prog('memory grown to %d bytes in %d steps%s' % (words * 32, len(offs), ' by reading' if read else ''), code, gas=(0, 2 * cost), expect=ex, maxsteps=50)
    P += [grown((0, 32, 64, 96)), grown((0, 40, 700, 3000, 9000)), grown((1, 2000, 4000, 2100), True)]
    # calls
    CALLA = lambda op, outsz: asm(push(outsz), push(0), push(0), push(0), *([push(0)] if op in ('CALL', 'CALLCODE') else []), push(0x44), push(5000), op)
    for op in ('CALL', 'DELEGATECALL', 'STATICCALL') if q else ('CALL', 'CALLCODE', 'DELEGATECALL', 'STATICCALL'):
        P.append(Prog('call-' + op, asm(CALLA(op, 32), 'RETURNDATASIZE', 'ADD', push(32), 'MSTORE', RET(0, 64)), maxsteps=40, rev=12 if op != 'CALL' else 7))
    P.append(Prog('call-rdcopy', asm(CALLA('CALL', 0), push(5), push(2), push(0), 'RETURNDATACOPY', RET(0, 5)), maxsteps=40))
    P.append(Prog('call-call', asm(CALLA('CALL', 0), CALLA('STATICCALL', 0), 'RETURNDATASIZE', RET32), maxsteps=60))
    P.append(Prog('create', asm(push(0), push(0), push(0), 'CREATE', RET32), maxsteps=40))
    if not q:
        P += [Prog(p.nm, p.code, rev=r, gas=p.gas, hashed=h, steps=s, expect=p.expect, alts=p.alts, maxsteps=p.maxsteps, fixed=p.fixed, extra=p.extra)
              for p in list(P) for r, h, s in ((7, 1, 3), (9, 0, 1), (11, 1, 2), (12, 0, 7)) if not any(c is not None and c in OPS and OPS[c][4] > r for c in p.code)]
    return P

# ---- lfvm: conversion, fused instructions, other configurations
FUSED = ['SWAP2 SWAP1 POP JUMP', 'SWAP1 POP SWAP2 SWAP1', 'POP SWAP2 SWAP1 POP', 'POP POP', 'PUSH1 SHL', 'PUSH1 ADD', 'PUSH1 DUP1', 'PUSH2 JUMP', 'PUSH2 JUMPI',
         'PUSH1 PUSH1', 'SWAP1 POP', 'POP JUMP', 'SWAP2 SWAP1', 'SWAP2 POP', 'DUP2 MSTORE', 'DUP2 LT', 'ISZERO PUSH2 JUMPI', 'PUSH1 PUSH4 DUP3', 'AND SWAP1 POP SWAP2 SWAP1', 'PUSH1 PUSH1 PUSH1 SHL SUB']
ENVOPS = ['CALLVALUE', 'BASEFEE', 'PREVRANDAO', 'CHAINID', 'GASPRICE']
def expand(pat):
    out = []
    for o in pat.split():
        out.append(CODE[o])
        if o.startswith('PUSH') and o != 'PUSH0': out += [None] * int(o[4:])
    return out
def fused_progs(tier):
    q = tier == 'quick'
    small = lambda *names: (lambda var: [ule(var(n, 256), 40, 256) for n in names])
    P = []
    def tail(words): return sum([push(32 * i) + [0x52] for i in range(words)], []) + RET(0, 32 * words)
    jtail = [0xfe, 0x5b] + push(7) + [0x5b] + push(0) + [0x52] + push(32) + [0x52] + RET(0, 64)
    def mk(nm, head, body, mem, jump, **k):
        code = asm(*head) + body
        code += jtail if jump else tail(2 if len(head) < 4 else 3)
        ex = small('basefee', 'value', 'gasprice', 'prevrandao', 'chainid') if mem else None
        P.append(Prog(nm, code, hashed=0, variant=1, extra=ex, maxsteps=60, **k))
    for pat in FUSED:
        jump = 'JUMP' in pat; mem = 'MSTORE' in pat
        pats = expand(pat)
        mk('fused ' + pat, ENVOPS, pats, mem, jump, rev=11 if 'PUSH1 ADD' == pat else 12)
        mk('fused %s with little gas' % pat, ENVOPS, pats, mem, jump, gas=(10, 60))
        # the stack too low for the whole or for a part of it
        for n in range(0, 4): mk('fused %s on %d operands' % (pat, n), ENVOPS[:n], pats, mem, jump)
        for n in (1018, 1019, 1020, 1021, 1022, 1023, 1024) if not mem else ():
            ps = list(pats)
            if jump and None in ps: k = ps.index(None); ps[k:k + 2] = list((n + len(ps) + 1).to_bytes(2, 'big'))
            P.append(Prog('fused %s on %d operands' % (pat, n), asm(ps, *(jtail if jump else [])), hashed=0, variant=1, rev=12, gas=1 << 20, fill=(0, n, 0x5f)))
        # at the end of the code
        if not jump: P.append(Prog('fused %s at the end' % pat, asm(*ENVOPS) + pats, hashed=0, variant=1, extra=small('value', 'gasprice') if mem else None, gas=(0, 60)))
        for cut in range(1, len(pats)):
            if q and cut not in (1, 2, len(pats) - 1): continue
            P.append(Prog('fused %s cut after %d' % (pat, cut), asm(*ENVOPS) + pats[:cut], hashed=0, variant=1, extra=small('value', 'gasprice') if mem else None))
        # in sequence with others, which may match across the border
        for o in (['POP', 'SWAP1', 'SWAP2', 'PUSH1', 'DUP2'] if q else ['POP', 'SWAP1', 'SWAP2', 'PUSH1', 'PUSH2', 'DUP2', 'ISZERO', 'AND'] + FUSED):
            mk('%s + fused %s' % (o, pat), ENVOPS, expand(o) + pats, mem or 'MSTORE' in o, jump or 'JUMP' in o)
            if not jump and not q or o in ('POP', 'SWAP1') and not jump: mk('fused %s + %s' % (pat, o), ENVOPS, pats + expand(o), mem or 'MSTORE' in o, 'JUMP' in o)
    return P

def convert_progs(tier):
    q = tier == 'quick'
    P = []
    # immediates of every width, then an entry point reached by falling through
    for n in range(1, 33):
        data = [None] * n if n < 4 or n in (7, 8, 31, 32) or not q else [None if i in (0, n // 2, n - 1) else 0x5b for i in range(n)]
        P.append(Prog('immediate of %d bytes' % n, asm(0x5f + n, data, RET32), hashed=0, expect=returns(lambda v, u, n=n: [cb(v, 1, n)])))
        P.append(Prog('immediate of %d bytes before an entry point' % n, asm(0x5f + n, data, 0x5b, 'PC', push(0), 'MSTORE', push(32), 'MSTORE', RET(0, 64)), hashed=0, expect=returns(lambda v, u, n=n: [n + 2, cb(v, 1, n)])))
        for miss in (1, n // 2, n - 1, n) if q else range(1, n + 1):
            if miss and n - miss >= 0: P.append(Prog('immediate of %d bytes, %d missing' % (n, miss), asm(push(1), 0x5f + n, data[:n - miss]), hashed=0, gas=(0, 9)))
    # jumps into and over immediates at every distance
    for n in (1, 2, 3, 5, 16, 32) if q else range(1, 33):
        for d in (3, 4, 3 + n // 2, 3 + n, 4 + n):
            P.append(Prog('jump to %d past an immediate of %d bytes' % (d, n), asm(push(d), 'JUMP', 0x5f + n, [0x5b] * n, 0x5b, push(1), RET32), hashed=0, variant=0))
    # long code: positions beyond 16 bits
    ok = lambda ws: lambda ctx, o, ev, v, u: [('succeeds', eq(o['e_status'], 0, 64))] + returns(ws)(ctx, o, ev, v, u)
    for at in (65501, 65502, 65535) if q else (65500, 65501, 65502, 65503, 65534, 65535, 65536, 65537, 70000, 131037, 131038, 131039, 140000):
        for op in (0x5b,) if q else (0x5b, 0, 0x7f, 0x60):
            if op == 0x7f and q: continue
            a2 = at if op < 0x60 else 5 + (at - 5) // (op - 0x5e) * (op - 0x5e)
            pro = asm(0x62, list(a2.to_bytes(3, 'big')), 'JUMP')
            # jump to an entry point at `at`, run over an immediate to the entry point behind it
            P.append(Prog('fall through to %d over %02x' % (a2 + 34, op), pro + asm(0x5b, 0x7f, [None] * 32, 0x5b, RET32), hashed=0, fill=(5, a2 - 5, op), expect=ok(lambda v, u: [cb(v, 7, 32)])))
    for n in () if q else (1900, 1926, 1927, 1928, 3855, 3860, 3900, 4100):
        P.append(Prog('run over %d wide immediates' % n, asm(0x5b, 0x60, None, RET32), hashed=0, fill=(0, 34 * n, 0x17f), expect=ok(lambda v, u: [cb(v, 2, 1)])))
    for at in (65533, 65534, 65535) if q else (65000, 65533, 65534, 65535, 65536, 70000, 131071):
        pro = asm(0x62, list(at.to_bytes(3, 'big')), 'JUMP')
        P.append(Prog('program counter at %d' % (at + 1), pro + asm(0x5b, 'PC', RET32), hashed=0, fill=(5, at - 5, 0), expect=lambda ctx, o, ev, v, u, at=at: [('program counter beyond 65535 can be read' if at >= 65535 else 'program counter can be read', eq(o['e_status'], 0, 64))] + returns(lambda v, u: [at + 1])(ctx, o, ev, v, u)))
        pro = asm(0x62, list((at + 1).to_bytes(3, 'big')), 'JUMP')
        P.append(Prog('entry point at %d after a program counter instruction' % (at + 1), pro + asm('PC', 0x5b, 0x60, None, RET32), hashed=0, fill=(5, at - 5, 0), expect=ok(lambda v, u: [cb(v, 8, 1)])))
    return P

def config_progs(tier):
    q = tier == 'quick'
    out = []
    for p in programs('quick'):
        for variant in (1, 2, 3, 4, 5):
            if q and p.nm.startswith(('one-', 'jump')) and variant != 1: continue
            if q and p.nm.startswith('one-PUSH') and p.nm not in ('one-PUSH1', 'one-PUSH2', 'one-PUSH4', 'one-PUSH32'): continue
            if q and variant not in (1, 2, 4) and p.nm not in ('sha3', 'jump-cache', 'loop', 'sstore-revert'): continue
            out.append(Prog(p.nm, p.code, rev=p.rev, gas=p.gas, hashed=p.hashed, steps=p.steps, expect=p.expect, alts=p.alts, maxsteps=p.maxsteps, fixed=p.fixed, extra=p.extra, variant=variant))
    return out
def conversion(tier): return fused_progs(tier) + convert_progs(tier) + config_progs(tier)
