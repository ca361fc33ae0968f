"""One-step reference semantics of the EVM (Istanbul .. Cancun), written once and
used for every interpreter.  All values are sym.py words: with symbolic inputs the
result is a symbolic post-state, with concrete inputs (replay) a concrete one.
The reference never forks: every effect carries its condition.
"""
from sym import *
import z3

W = 256
M256 = mask(256)
EMPTY_HASH_ZERO = False  # hosts that answer EXTCODEHASH of an empty account themselves (EVMC) or leave it to the interpreter
GW = 64            # width of gas cost sums: only wraps for accesses already flagged as huge
ISTANBUL, BERLIN, LONDON, PARIS, SHANGHAI, CANCUN = 7, 8, 9, 10, 11, 12
REVISIONS = [7, 8, 9, 10, 11, 12]
REV_NAMES = {7: 'Istanbul', 8: 'Berlin', 9: 'London', 10: 'Paris', 11: 'Shanghai', 12: 'Cancun'}
RUNNING, STOPPED, RETURNED, REVERTED, FAILED = 0, 1, 2, 3, 4

# name -> (opcode, pops, pushes, static gas or callable(rev), first revision)
OPS = {}
def _d(name, code, pops, pushes, gas, rev=ISTANBUL): OPS[code] = (name, pops, pushes, gas, rev)
for n, c, p, q, g in [
    ('STOP', 0x00, 0, 0, 0), ('ADD', 0x01, 2, 1, 3), ('MUL', 0x02, 2, 1, 5), ('SUB', 0x03, 2, 1, 3), ('DIV', 0x04, 2, 1, 5), ('SDIV', 0x05, 2, 1, 5),
    ('MOD', 0x06, 2, 1, 5), ('SMOD', 0x07, 2, 1, 5), ('ADDMOD', 0x08, 3, 1, 8), ('MULMOD', 0x09, 3, 1, 8), ('EXP', 0x0a, 2, 1, 10),
    ('SIGNEXTEND', 0x0b, 2, 1, 5), ('LT', 0x10, 2, 1, 3), ('GT', 0x11, 2, 1, 3), ('SLT', 0x12, 2, 1, 3), ('SGT', 0x13, 2, 1, 3), ('EQ', 0x14, 2, 1, 3),
    ('ISZERO', 0x15, 1, 1, 3), ('AND', 0x16, 2, 1, 3), ('OR', 0x17, 2, 1, 3), ('XOR', 0x18, 2, 1, 3), ('NOT', 0x19, 1, 1, 3), ('BYTE', 0x1a, 2, 1, 3),
    ('SHL', 0x1b, 2, 1, 3), ('SHR', 0x1c, 2, 1, 3), ('SAR', 0x1d, 2, 1, 3), ('SHA3', 0x20, 2, 1, 30), ('ADDRESS', 0x30, 0, 1, 2),
    ('BALANCE', 0x31, 1, 1, 0), ('ORIGIN', 0x32, 0, 1, 2), ('CALLER', 0x33, 0, 1, 2), ('CALLVALUE', 0x34, 0, 1, 2), ('CALLDATALOAD', 0x35, 1, 1, 3),
    ('CALLDATASIZE', 0x36, 0, 1, 2), ('CALLDATACOPY', 0x37, 3, 0, 3), ('CODESIZE', 0x38, 0, 1, 2), ('CODECOPY', 0x39, 3, 0, 3), ('GASPRICE', 0x3a, 0, 1, 2),
    ('EXTCODESIZE', 0x3b, 1, 1, 0), ('EXTCODECOPY', 0x3c, 4, 0, 0), ('RETURNDATASIZE', 0x3d, 0, 1, 2), ('RETURNDATACOPY', 0x3e, 3, 0, 3),
    ('EXTCODEHASH', 0x3f, 1, 1, 0), ('BLOCKHASH', 0x40, 1, 1, 20), ('COINBASE', 0x41, 0, 1, 2), ('TIMESTAMP', 0x42, 0, 1, 2), ('NUMBER', 0x43, 0, 1, 2),
    ('PREVRANDAO', 0x44, 0, 1, 2), ('GASLIMIT', 0x45, 0, 1, 2), ('CHAINID', 0x46, 0, 1, 2), ('SELFBALANCE', 0x47, 0, 1, 5),
    ('POP', 0x50, 1, 0, 2), ('MLOAD', 0x51, 1, 1, 3), ('MSTORE', 0x52, 2, 0, 3), ('MSTORE8', 0x53, 2, 0, 3), ('SLOAD', 0x54, 1, 1, 0), ('SSTORE', 0x55, 2, 0, 0),
    ('JUMP', 0x56, 1, 0, 8), ('JUMPI', 0x57, 2, 0, 10), ('PC', 0x58, 0, 1, 2), ('MSIZE', 0x59, 0, 1, 2), ('GAS', 0x5a, 0, 1, 2), ('JUMPDEST', 0x5b, 0, 0, 1),
    ('CREATE', 0xf0, 3, 1, 32000), ('CALL', 0xf1, 7, 1, 0), ('CALLCODE', 0xf2, 7, 1, 0), ('RETURN', 0xf3, 2, 0, 0), ('DELEGATECALL', 0xf4, 6, 1, 0),
    ('CREATE2', 0xf5, 4, 1, 32000), ('STATICCALL', 0xfa, 6, 1, 0), ('REVERT', 0xfd, 2, 0, 0), ('SELFDESTRUCT', 0xff, 1, 0, 5000)]:
    _d(n, c, p, q, g)
_d('BASEFEE', 0x48, 0, 1, 2, LONDON)
_d('PUSH0', 0x5f, 0, 1, 2, SHANGHAI)
_d('BLOBHASH', 0x49, 1, 1, 3, CANCUN)
_d('BLOBBASEFEE', 0x4a, 0, 1, 2, CANCUN)
_d('TLOAD', 0x5c, 1, 1, 100, CANCUN)
_d('TSTORE', 0x5d, 2, 0, 100, CANCUN)
_d('MCOPY', 0x5e, 3, 0, 3, CANCUN)
for i in range(32): _d('PUSH%d' % (i + 1), 0x60 + i, 0, 1, 3)
for i in range(16): _d('DUP%d' % (i + 1), 0x80 + i, i + 1, i + 2, 3)
for i in range(16): _d('SWAP%d' % (i + 1), 0x90 + i, i + 2, i + 2, 3)
for i in range(5): _d('LOG%d' % i, 0xa0 + i, i + 2, 0, 375 + 375 * i)
NAME = {c: v[0] for c, v in OPS.items()}
CODE = {v[0]: c for c, v in OPS.items()}
WRITES = {'SSTORE', 'TSTORE', 'CREATE', 'CREATE2', 'SELFDESTRUCT', 'LOG0', 'LOG1', 'LOG2', 'LOG3', 'LOG4'}

def pick(f, i, n):
    """f(i) for a possibly symbolic 64-bit i < n (0 outside)"""
    if type(i) is int: return f(i) if i < n else 0
    i = canon(i)
    if type(i) is int: return f(i) if i < n else 0
    r = 0
    for k in range(n): r = ite(norm(bv(i, 64) == k), f(k), r, 8)
    return r

def low64(v): return trunc(v, W, 64)
def addr(v): return trunc(v, W, 160)
def b2w(c): return ite(c, 1, 0, W)
def ne0(v, w=W): return bnot(eq(v, 0, w))
def ugt(a, b, w=W): return ult(b, a, w)

HUGE = (1 << 37) - 32   # an access beyond this many bytes costs more than any supply of gas within the bound (2^54)

class Region:
    """a memory access (offset, size), both 256-bit"""
    def __init__(self, off, size):
        self.off = off; self.size = size
        self.empty = eq(size, 0, W)
        s = add(zext(off, W, W + 1), zext(size, W, W + 1), W + 1)
        self.huge = band(bnot(self.empty), ult(HUGE, s, W + 1))
        self.end = trunc(s, W + 1, 64)
        self.words = lshr(add(self.end, 31, 64), 5, 64)

def mem_cost(words):
    """3w + w*w/512 for a 64-bit word count (at most 2^32 - 1, so nothing wraps)"""
    w = words
    return add(mul(w, 3, GW), lshr(mul(w, w, GW), 9, GW), GW)

class Event:
    def __init__(self, cond, name, fields, data=None):
        """fields: list of (value,width,compare?); data: (size64, byte function)"""
        self.cond = cond; self.name = name; self.fields = fields; self.data = data

class Machine:
    """the pre-state; reads inputs through var(name,width) and uf(name,arg,inw,outw)"""
    def __init__(self, var, uf, params, code):
        self.var = var; self.uf = uf; self.p = params
        self.rev = params['revision']; self.pc = params['pc']; self.sp = params['sp']
        self.memsize = params['memsize']; self.rdsize = params['rdsize']; self.codelen = params['codelen']
        self.code_ = code
        self.gas = var('gas', 64); self.static = trunc(var('static', 64), 64, 1)
    def s(self, i): return self.var('s%d' % i, W)
    def code(self, i): return self.code_(i) if i < self.codelen else 0
    def mem(self, i):
        if not self.memsize: return 0
        v = self.var('mem', 8 * self.memsize)
        return pick(lambda k: extract(v, 8 * (self.memsize - k) - 1, 8 * (self.memsize - 1 - k), 8 * self.memsize), i, self.memsize)
    def rd(self, i):
        if not self.rdsize: return 0
        v = self.var('rd', 8 * self.rdsize)
        return pick(lambda k: extract(v, 8 * (self.rdsize - k) - 1, 8 * (self.rdsize - 1 - k), 8 * self.rdsize), i, self.rdsize)
    def input(self, i):
        v = self.var('input', 512)
        return pick(lambda k: extract(v, 8 * (64 - k) - 1, 8 * (63 - k), 512), i, 64)

class Spec:
    def __init__(self):
        self.fails = []            # (reason, cond)
        self.status = RUNNING
        self.pc = None; self.cost = 0; self.push = []; self.pops = 0
        self.regions = []; self.memwrites = []      # (off64, size64, byte function, cond)
        self.rd = None             # (size, byte) or None = unchanged
        self.out = None            # (size, byte)
        self.state = []; self.access = []; self.assume = []
        self.refund = 0            # 64-bit delta
        self.gas_left = None
        self.keccak = None
    def fail(self, reason, cond):
        if type(cond) is int and not cond: return
        self.fails.append((reason, cond))

def keccak_arg(n, byte):
    MAXK = 256
    return norm(concat([(n, 64), (concat([(ite(ult(i, n, 64), byte(i), 0, 8), 8) for i in range(MAXK)]), 8 * MAXK)]))

def step(m, op):
    """specification of executing opcode `op` at m.pc"""
    S = Spec()
    if op not in OPS or OPS[op][4] > m.rev:
        S.fail('undefined', 1); finish(m, S, op, 'UNDEFINED', 0, 0); return S
    name, pops, pushes, gas, _ = OPS[op]
    rev = m.rev; var = m.var; uf = m.uf
    a = lambda i: m.s(i)
    S.pops = pops
    if m.sp < pops: S.fail('stack underflow', 1); finish(m, S, op, name, pops, pushes); return S
    if m.sp - pops + pushes > 1024: S.fail('stack overflow', 1)
    S.cost = gas
    S.pc = m.pc + 1
    if name in WRITES: S.fail('static', m.static)
    if name == 'STOP': S.status = STOPPED
    # ---- arithmetic
    elif name == 'ADD': S.push = [add(a(0), a(1), W)]
    elif name == 'MUL': S.push = [mul(a(0), a(1), W)]
    elif name == 'SUB': S.push = [sub(a(0), a(1), W)]
    elif name == 'DIV': S.push = [ite(eq(a(1), 0, W), 0, udiv(a(0), a(1), W), W)]
    elif name == 'MOD': S.push = [ite(eq(a(1), 0, W), 0, urem(a(0), a(1), W), W)]
    elif name in ('SDIV', 'SMOD'):
        x, y = a(0), a(1)
        nx, ny = slt(x, 0, W), slt(y, 0, W)
        ax = ite(nx, sub(0, x, W), x, W); ay = ite(ny, sub(0, y, W), y, W)
        if name == 'SDIV':
            q = udiv(ax, ay, W); r = ite(bxor(nx, ny), sub(0, q, W), q, W)
        else:
            q = urem(ax, ay, W); r = ite(nx, sub(0, q, W), q, W)
        S.push = [ite(eq(y, 0, W), 0, r, W)]
    elif name == 'ADDMOD':
        x, y, n = a(0), a(1), a(2)
        S.push = [ite(eq(n, 0, W), 0, trunc(urem(add(zext(x, W, 264), zext(y, W, 264), 264), zext(n, W, 264), 264), 264, W), W)]
    elif name == 'MULMOD':
        x, y, n = a(0), a(1), a(2)
        S.push = [ite(eq(n, 0, W), 0, trunc(urem(mul(zext(x, W, 512), zext(y, W, 512), 512), zext(n, W, 512), 512), 512, W), W)]
    elif name == 'EXP':
        x, y = a(0), a(1)
        if type(x) is int and type(y) is int: r = pow(x, y, 1 << 256)
        else: r = uf('exp', concat([(x, 256), (y, 256)]), 512, 256)
        n = 0
        for i in range(32): n = ite(ne0(lshr(y, 8 * i, W)), i + 1, n, GW)
        S.cost = add(mul(n, 50, GW), gas, GW)
        S.push = [r]
    elif name == 'SIGNEXTEND':
        k, x = a(0), a(1)
        r = x
        for i in range(31):
            r = ite(eq(k, i, W), sext(trunc(x, W, 8 * (i + 1)), 8 * (i + 1), W), r, W)
        S.push = [r]
    elif name == 'LT': S.push = [b2w(ult(a(0), a(1), W))]
    elif name == 'GT': S.push = [b2w(ult(a(1), a(0), W))]
    elif name == 'SLT': S.push = [b2w(slt(a(0), a(1), W))]
    elif name == 'SGT': S.push = [b2w(slt(a(1), a(0), W))]
    elif name == 'EQ': S.push = [b2w(eq(a(0), a(1), W))]
    elif name == 'ISZERO': S.push = [b2w(eq(a(0), 0, W))]
    elif name == 'AND': S.push = [and_(a(0), a(1), W)]
    elif name == 'OR': S.push = [or_(a(0), a(1), W)]
    elif name == 'XOR': S.push = [xor(a(0), a(1), W)]
    elif name == 'NOT': S.push = [xor(a(0), M256, W)]
    elif name == 'BYTE':
        i, x = a(0), a(1)
        r = 0
        for k in range(32): r = ite(eq(i, k, W), zext(extract(x, 255 - 8 * k, 248 - 8 * k, W), 8, W), r, W)
        S.push = [r]
    elif name in ('SHL', 'SHR', 'SAR'):
        n, x = a(0), a(1)
        big = bnot(ult(n, 256, W))
        if name == 'SHL': S.push = [ite(big, 0, shl(x, n, W), W)]
        elif name == 'SHR': S.push = [ite(big, 0, lshr(x, n, W), W)]
        else: S.push = [ite(big, ite(slt(x, 0, W), M256, 0, W), ashr(x, n, W), W)]
    # ---- environment
    elif name == 'SHA3':
        r = Region(a(0), a(1)); S.regions = [r]
        S.cost = add(gas, mul(zext(lshr(add(low64(a(1)), 31, 64), 5, 64), 64, GW), 6, GW), GW)
        S.keccak = (low64(a(0)), low64(a(1)))
        S.push = ['keccak']
    elif name == 'ADDRESS': S.push = [zext(var('recipient', 160), 160, W)]
    elif name in ('BALANCE', 'EXTCODESIZE', 'EXTCODEHASH'):
        x = addr(a(0))
        S.cost = account_cost(m, S, x)
        if name == 'BALANCE': S.push = [uf('balance', x, 160, 256)]
        elif name == 'EXTCODESIZE': S.push = [zext(uf('codesize', x, 160, 64), 64, W)]
        elif EMPTY_HASH_ZERO: S.push = [ite(eq(extract(uf('present', x, 160, 8), 0, 0, 8), 1, 1), uf('codehash', x, 160, 256), 0, W)]
        else: S.push = [uf('codehash', x, 160, 256)]
    elif name == 'ORIGIN': S.push = [zext(var('origin', 160), 160, W)]
    elif name == 'CALLER': S.push = [zext(var('sender', 160), 160, W)]
    elif name == 'CALLVALUE': S.push = [var('value', 256)]
    elif name == 'CALLDATALOAD':
        n = var('inputsize', 64)
        S.push = [concat([(source(m.input, n, a(0), i), 8) for i in range(32)])]
    elif name == 'CALLDATASIZE': S.push = [zext(var('inputsize', 64), 64, W)]
    elif name in ('CALLDATACOPY', 'CODECOPY', 'RETURNDATACOPY', 'EXTCODECOPY', 'MCOPY'):
        o = 0
        if name == 'EXTCODECOPY':
            x = addr(a(0)); o = 1
            S.cost = account_cost(m, S, x)
            cs = uf('codesize', x, 160, 64)
            src = lambda i: uf('code', concat([(x, 160), (i, 64)]), 224, 8); n = cs
        elif name == 'CALLDATACOPY': src = m.input; n = var('inputsize', 64)
        elif name == 'CODECOPY': src = lambda i: pick(m.code, i, m.codelen); n = m.codelen
        elif name == 'RETURNDATACOPY': src = m.rd; n = m.rdsize
        d, s_, l = a(o), a(o + 1), a(o + 2)
        r = Region(d, l); S.regions = [r]
        if name == 'MCOPY': S.regions.append(Region(s_, l))
        S.cost = add(zext(S.cost, GW, GW) if type(S.cost) is not int else S.cost, mul(zext(lshr(add(low64(l), 31, 64), 5, 64), 64, GW), 3, GW), GW)
        if name == 'RETURNDATACOPY':
            t = add(zext(s_, W, W + 1), zext(l, W, W + 1), W + 1)
            S.fail('return data out of bounds', ult(m.rdsize, t, W + 1))
        if name == 'MCOPY':
            S.memwrites.append((low64(d), low64(l), 'mcopy', low64(s_)))
        else:
            S.memwrites.append((low64(d), low64(l), (lambda i: source(src, n, s_, i)), None))
    elif name == 'CODESIZE': S.push = [m.codelen]
    elif name == 'GASPRICE': S.push = [var('gasprice', 256)]
    elif name == 'RETURNDATASIZE': S.push = [m.rdsize]
    elif name == 'BLOCKHASH':
        n = a(0); cur = var('number', 64)
        cur256 = zext(cur, 64, W)
        d = sub(cur256, n, W)
        ok = band(ult(n, cur256, W), ule(d, 256, W))
        S.push = [ite(ok, uf('blockhash', low64(n), 64, 256), 0, W)]
    elif name == 'COINBASE': S.push = [zext(var('coinbase', 160), 160, W)]
    elif name == 'TIMESTAMP': S.push = [zext(var('timestamp', 64), 64, W)]
    elif name == 'NUMBER': S.push = [zext(var('number', 64), 64, W)]
    elif name == 'PREVRANDAO': S.push = [var('prevrandao', 256)]
    elif name == 'GASLIMIT': S.push = [zext(var('gaslimit', 64), 64, W)]
    elif name == 'CHAINID': S.push = [var('chainid', 256)]
    elif name == 'SELFBALANCE': S.push = [uf('balance', var('recipient', 160), 160, 256)]
    elif name == 'BASEFEE': S.push = [var('basefee', 256)]
    elif name == 'BLOBBASEFEE': S.push = [var('blobbasefee', 256)]
    elif name == 'BLOBHASH':
        i = a(0); n = zext(var('blobcount', 64), 64, W)
        r = 0
        for k in range(4): r = ite(band(eq(i, k, W), ult(k, n, W)), var('blob%d' % k, 256), r, W)
        S.push = [r]
    # ---- stack, memory, storage, flow
    elif name == 'POP': pass
    elif name == 'MLOAD':
        S.regions = [Region(a(0), 32)]; S.push = ['mload']
    elif name == 'MSTORE':
        S.regions = [Region(a(0), 32)]; v = a(1)
        S.memwrites.append((low64(a(0)), 32, (lambda i: pick(lambda k: extract(v, 255 - 8 * k, 248 - 8 * k, W), i, 32)), None))
    elif name == 'MSTORE8':
        S.regions = [Region(a(0), 1)]; v = a(1)
        S.memwrites.append((low64(a(0)), 1, (lambda i: trunc(v, W, 8)), None))
    elif name == 'SLOAD':
        k = concat([(var('recipient', 160), 160), (a(0), 256)])
        if rev >= BERLIN:
            warm = eq(extract(uf('swarm', k, 416, 8), 0, 0, 8), 1, 1)
            S.cost = ite(warm, 100, 2100, GW); S.access.append(Event(1, 'access_storage', [(k, 416, True)]))
        else: S.cost = 800
        S.push = [uf('storage', k, 416, 256)]
    elif name == 'SSTORE':
        S.fail('out of gas', sle(m.gas, 2300, 64))
        rec = var('recipient', 160)
        k = concat([(rec, 160), (a(0), 256)])
        warm = 1
        if rev >= BERLIN:
            warm = eq(extract(uf('swarm', k, 416, 8), 0, 0, 8), 1, 1)
            S.access.append(Event(1, 'access_storage', [(k, 416, True)]))
        S.state.append(Event(1, 'set_storage', [(concat([(k, 416), (a(1), 256)]), 672, True)]))
        st = var('sstatus#0', 8)
        tab = lambda f: sel(st, f)
        cold = 0 if rev < BERLIN else ite(warm, 0, 2100, GW)
        base = tab({0: 800 if rev < BERLIN else 100, 1: 20000, 2: 5000 if rev < BERLIN else 2900, 3: 5000 if rev < BERLIN else 2900,
                    4: 800 if rev < BERLIN else 100, 5: 800 if rev < BERLIN else 100, 6: 800 if rev < BERLIN else 100,
                    7: 800 if rev < BERLIN else 100, 8: 800 if rev < BERLIN else 100})
        S.cost = add(base, cold, GW)
        clear = 15000 if rev < LONDON else 4800
        # EIP-2200 / EIP-2929 / EIP-3529 refunds
        restore = 4200 if rev < BERLIN else 2800
        # a slot whose value was changed in this transaction has been accessed before
        S.assume.append(bor(warm, ult(st, 4, 8)))
        full = 19200 if rev < BERLIN else 19900
        neg = (-clear) & mask(64)
        r = 0
        for code_, v in ((2, clear), (4, neg), (5, clear), (6, add(neg, restore, 64)), (7, full), (8, restore)):
            r = ite(eq(st, code_, 8), v, r, 64)
        S.refund = r
    elif name in ('TLOAD', 'TSTORE'):
        rec = var('recipient', 160)
        k = concat([(rec, 160), (a(0), 256)])
        if name == 'TLOAD': S.push = [uf('tstorage', k, 416, 256)]
        else: S.state.append(Event(1, 'set_tstorage', [(concat([(k, 416), (a(1), 256)]), 672, True)]))
    elif name in ('JUMP', 'JUMPI'):
        t = a(0)
        taken = 1 if name == 'JUMP' else ne0(a(1))
        ok = 0
        for d in jumpdests(m):
            ok = bor(ok, eq(t, d, W))
        S.fail('bad jump', band(taken, bnot(ok)))
        S.pc = ite(taken, low64(t), m.pc + 1, 64)
    elif name == 'PC': S.push = [m.pc]
    elif name == 'MSIZE': S.push = [m.memsize]
    elif name == 'GAS': S.push = [zext(sub(m.gas, 2, 64), 64, W)]
    elif name == 'JUMPDEST': pass
    elif name == 'PUSH0': S.push = [0]
    elif name.startswith('PUSH'):
        n = op - 0x5f
        S.push = [zext(concat([(m.code(m.pc + 1 + i), 8) for i in range(n)]), 8 * n, W)]
        S.pc = m.pc + 1 + n
    elif name.startswith('DUP'):
        n = op - 0x7f
        S.pops = 0; S.push = [a(n - 1)]
    elif name.startswith('SWAP'):
        n = op - 0x8f
        S.push = [a(n)] + [a(i) for i in range(1, n)] + [a(0)]
    elif name.startswith('LOG'):
        n = op - 0xa0
        S.regions = [Region(a(0), a(1))]
        S.cost = add(gas, shl(zext(low64(a(1)), 64, GW), 3, GW), GW)
        f = [(var('recipient', 160), 160, True), (low64(a(1)), 64, True), (n, 64, True)]
        for i in range(4): f.append((a(2 + i) if i < n else 0, 256, True))
        S.state.append(Event(1, 'log', f, ('mem', low64(a(0)), low64(a(1)))))
    elif name in ('RETURN', 'REVERT'):
        S.regions = [Region(a(0), a(1))]
        S.status = RETURNED if name == 'RETURN' else REVERTED
        S.out = ('mem', low64(a(0)), low64(a(1)))
    elif name == 'SELFDESTRUCT':
        x = addr(a(0)); rec = var('recipient', 160)
        c = 0
        new = band(ne0(uf('balance', rec, 160, 256)), bnot(eq(extract(uf('present', x, 160, 8), 0, 0, 8), 1, 1)))
        c = ite(new, 25000, 0, GW)
        if rev >= BERLIN:
            warm = eq(extract(uf('warm', x, 160, 8), 0, 0, 8), 1, 1)
            S.access.append(Event(1, 'access_account', [(x, 160, True)]))
            c = add(c, ite(warm, 0, 2600, GW), GW)
        S.cost = add(c, gas, GW)
        S.status = STOPPED
        S.state.append(Event(1, 'selfdestruct', [(rec, 160, True), (x, 160, True)]))
        if rev < LONDON:
            S.refund = ite(eq(trunc(var('sdresult#0', 8), 8, 1), 1, 1), 24000, 0, 64)
    elif name in ('CREATE', 'CREATE2'):
        create(m, S, name, a, gas)
        return finish(m, S, op, name, pops, pushes)
    else:
        call(m, S, name, a)
        return finish(m, S, op, name, pops, pushes)
    return finish(m, S, op, name, pops, pushes)

def sel(st, f):
    r = 0
    for k, v in f.items(): r = ite(eq(st, k, 8), v, r, GW)
    return r

def source(byte, n, off, i):
    """byte i (64-bit) of a source of n bytes read from 256-bit offset off, zero past its end"""
    inr = ult(off, zext(n, 64, W) if type(n) is not int else n, W)
    j = add(low64(off), i, 64)
    inr = band(inr, ult(j, n, 64))
    if type(inr) is int and not inr: return 0
    return ite(inr, byte(j), 0, 8)

def account_cost(m, S, x):
    if m.rev < BERLIN: return 700
    warm = eq(extract(m.uf('warm', x, 160, 8), 0, 0, 8), 1, 1)
    S.access.append(Event(1, 'access_account', [(x, 160, True)]))
    return ite(warm, 100, 2600, GW)

def jumpdests(m):
    """requires concrete opcodes; positions of JUMPDEST bytes outside push data"""
    i = 0; r = []
    while i < m.codelen:
        c = m.code(i)
        assert type(c) is int
        if c == 0x5b: r.append(i)
        if 0x60 <= c <= 0x7f: i += c - 0x5f
        i += 1
    return r

def memory_cost(m, S):
    """(out-of-gas by size, cost of growing) for S.regions"""
    huge = 0; c = 0; newsize = m.memsize
    old = mem_cost(m.memsize // 32)
    for r in S.regions:
        huge = bor(huge, r.huge)
        sz = shl(r.words, 5, 64)
        grow = band(bnot(r.empty), ult(newsize, sz, 64))
        newsize = ite(grow, sz, newsize, 64)
    grow = ult(m.memsize, newsize, 64)
    c = ite(grow, sub(mem_cost(lshr(newsize, 5, 64)), old, GW), 0, GW)
    return huge, c, newsize

def finish(m, S, op, name, pops, pushes):
    huge, c, newsize = memory_cost(m, S)
    S.memsize = newsize
    total = add(S.cost, c, GW)
    S.total = total; S.memc = c; S.huge = huge
    S.fail('out of gas', huge)
    S.fail('out of gas', ult(zext(m.gas, 64, GW), total, GW))
    if S.gas_left is None: S.gas_left = sub(m.gas, trunc(total, GW, 64), 64)
    S.failed = 0
    for _, cnd in S.fails: S.failed = bor(S.failed, cnd)
    def mem(i):
        v = m.mem(i)
        for off, n, f, x in S.memwrites:
            d = sub(i, off, 64)
            inr = ult(d, n, 64)
            if type(inr) is int and not inr: continue
            w = m.mem(add(d, x, 64)) if f == 'mcopy' else f(d)
            v = ite(inr, w, v, 8)
        return v
    S.mem = mem
    S.premem = m.mem
    res = []
    for v in S.push:
        if type(v) is str and v == 'mload': v = concat([(m.mem(add(low64(m.s(0)), i, 64)), 8) for i in range(32)])
        elif type(v) is str and v == 'keccak':
            off, n = S.keccak
            v = m.uf('keccak', keccak_arg(n, lambda i: m.mem(add(off, i, 64))), 64 + 2048, 256)
        res.append(v)
    S.push = res
    def data(d):
        if d is None: return None
        if d[0] == 'mem':
            off, n = d[1], d[2]
            return (n, lambda i: m.mem(add(off, i, 64)))
        return d
    S.out = data(S.out)
    for e in S.state: e.data = data(e.data)
    return S

def create(m, S, name, a, gas):
    var, uf = m.var, m.uf
    value, off, size = a(0), a(1), a(2)
    salt = a(3) if name == 'CREATE2' else 0
    S.regions = [Region(off, size)]
    words = zext(lshr(add(low64(size), 31, 64), 5, 64), 64, GW)
    k = (2 if m.rev >= SHANGHAI else 0) + (6 if name == 'CREATE2' else 0)
    S.cost = add(gas, mul(words, k, GW), GW) if k else gas
    if m.rev >= SHANGHAI: S.fail('init code too long', ult(49152, size, W))
    huge, c, _ = memory_cost(m, S)
    rem = sub(m.gas, trunc(add(S.cost, c, GW), GW, 64), 64)
    rec = var('recipient', 160)
    ok = ule(value, uf('balance', rec, 160, 256), W)
    ok = bor(ok, eq(value, 0, W))
    g = sub(rem, lshr(rem, 6, 64), 64)
    kind = 3 if name == 'CREATE' else 4
    f = [(kind, 64, True), (0, 64, 1), (add(var('depth', 64), 1, 64), 64, True), (g, 64, True), (low64(size), 64, True),
         (0, 160, False), (rec, 160, True), (0, 160, False), (value, 256, True), (salt, 256, name == 'CREATE2')]
    S.state.append(Event(ok, 'call', f, ('mem', low64(off), low64(size))))
    st = var('callstatus#0', 8)
    left = var('callgas#0', 64)
    S.gas_left = ite(ok, add(sub(rem, g, 64), left, 64), rem, 64)
    S.refund = ite(ok, var('callrefund#0', 64), 0, 64)
    S.push = [ite(band(ok, eq(st, 0, 8)), zext(var('calladdr#0', 160), 160, W), 0, W)]
    rv = band(ok, eq(st, 2, 8))
    S.rd = (ite(rv, var('calloutsize#0', 64), 0, 64), callout(m))
    S.callgas = g; S.call_ok = ok

def callout(m):
    v = m.var('callout#0', 512)
    return lambda i: pick(lambda k: extract(v, 8 * (64 - k) - 1, 8 * (63 - k), 512), i, 64)

def call(m, S, name, a):
    var, uf, rev = m.var, m.uf, m.rev
    rec = var('recipient', 160)
    has_value = name in ('CALL', 'CALLCODE')
    x = addr(a(1))
    value = a(2) if has_value else 0
    o = 3 if has_value else 2
    inoff, insize, outoff, outsize = a(o), a(o + 1), a(o + 2), a(o + 3)
    S.regions = [Region(inoff, insize), Region(outoff, outsize)]
    nz = ne0(value) if has_value else 0
    if name == 'CALL': S.fail('static', band(nz, m.static))
    base = account_cost(m, S, x)
    if has_value:
        base = add(base, ite(nz, 9000, 0, GW), GW)
        if name == 'CALL':
            new = band(nz, bnot(eq(extract(uf('present', x, 160, 8), 0, 0, 8), 1, 1)))
            base = add(base, ite(new, 25000, 0, GW), GW)
    S.cost = base
    huge, c, _ = memory_cost(m, S)
    rem = sub(m.gas, trunc(add(S.cost, c, GW), GW, 64), 64)
    cap = sub(rem, lshr(rem, 6, 64), 64)
    g = ite(ult(a(0), zext(cap, 64, W), W), low64(a(0)), cap, 64)
    msg = add(g, ite(nz, 2300, 0, 64), 64)
    ok = bor(bnot(nz), ule(value, uf('balance', rec, 160, 256), W)) if has_value else 1
    kind = {'CALL': 0, 'STATICCALL': 0, 'DELEGATECALL': 1, 'CALLCODE': 2}[name]
    flags = 1 if name == 'STATICCALL' else zext(m.static, 1, 64)
    f = [(kind, 64, True), (flags, 64, True), (add(var('depth', 64), 1, 64), 64, True), (msg, 64, True), (low64(insize), 64, True),
         (x if name in ('CALL', 'STATICCALL') else rec, 160, True),
         (var('sender', 160) if name == 'DELEGATECALL' else rec, 160, True), (x, 160, True),
         (var('value', 256) if name == 'DELEGATECALL' else value, 256, True), (0, 256, False)]
    S.state.append(Event(ok, 'call', f, ('mem', low64(inoff), low64(insize))))
    st = var('callstatus#0', 8); left = var('callgas#0', 64); osz = var('calloutsize#0', 64)
    S.gas_left = ite(ok, add(sub(rem, g, 64), left, 64), add(rem, ite(nz, 2300, 0, 64), 64), 64)
    S.refund = ite(ok, var('callrefund#0', 64), 0, 64)
    S.push = [b2w(band(ok, eq(st, 0, 8)))]
    S.rd = (ite(ok, osz, 0, 64), callout(m))
    n = ite(ult(zext(osz, 64, W), outsize, W), osz, low64(outsize), 64)
    n = ite(ok, n, 0, 64)
    S.memwrites.append((low64(outoff), n, callout(m), None))
    S.callgas = msg; S.call_ok = ok
