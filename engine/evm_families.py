"""Scenario families, one per EVM interpreter property.  Every scenario fixes the
instruction, the revision and a few concrete sizes; everything else is symbolic."""
from evm_check import *
from evm_spec import *

GAS_BIG = 1 << 40
ARITH = [c for c in range(0x01, 0x0c)] + list(range(0x10, 0x1e))
CALLS = [0xf1, 0xf2, 0xf4, 0xfa]
CREATES = [0xf0, 0xf5]
COPIES = ['CALLDATACOPY', 'CODECOPY', 'RETURNDATACOPY', 'EXTCODECOPY', 'MCOPY']

def body(op, pc=3, tail=None):
    """JUMPDEST JUMPDEST JUMPDEST op immediates"""
    n = op - 0x5f if 0x60 <= op <= 0x7f else 0
    return [0x5b] * pc + [op] + [None] * n + (tail or [])

def first_rev(op): return max(7, OPS[op][4]) if op in OPS else 7
def revs(op, all_, quick=(7, 12)):
    r = [x for x in all_ if op not in OPS or OPS[op][4] <= x]
    return r

def quiet(op, **kw):
    """operands that keep memory, jumps and size limits out of the picture"""
    name = NAME[op]; f = {}
    for o, z in region_ops(name):
        f['s%d' % o] = 0
        if name not in ('MLOAD', 'MSTORE', 'MSTORE8'): f['s%d' % z] = 0
    if name == 'RETURNDATACOPY': f['s1'] = 0
    if name in ('JUMP', 'JUMPI'): f['s0'] = 0
    f.update(kw)
    return f

def window(lo, bits=8):
    """gas in [lo, lo + 2^bits)"""
    return lambda var, S: [eq(extract(var('gas', 64), 63, bits, 64), lo >> bits, 64 - bits)]
def gas_windows(op, rev, tier):
    """ways to bound the supply of gas of calls and creations: (tag, fixed, extra)"""
    w = [(0x8000, 8), (1 << 17, 8), (1 << 33, 8)] if tier == 'quick' else [(x, b) for b in (8, 12) for x in (0x8000, 0x10000, 1 << 17, 1 << 33, 1 << 50)]
    out = []
    if op in CALLS:
        out.append(('req0', {'s0': 0}, None))
        out.append(('gas100k', {'gas': 100000}, None))
        if tier != 'quick': out += [('gas30k', {'gas': 30000}, None), ('gasbig', {'gas': (1 << 50) + 12345}, None)]
        w = w[1:] if tier == 'quick' else w
    for lo, b in w: out.append(('w%x.%d' % (lo, b), {}, window(lo, b)))
    return out

# windows for a memory offset or size when the exact price of growing is decided for every supply of gas
GROW = [('4k', 0, 12), ('2^20', 1 << 20, 10), ('2^64-', (1 << 64) - 1024, 10), ('2^32', 1 << 32, 10), ('2^36', 1 << 36, 10), ('2^37', 1 << 37, 10), ('2^63', 1 << 63, 10),
        ('2^63-', (1 << 63) - 1024, 10), ('2^64', 1 << 64, 10), ('2^255', 1 << 255, 10), ('2^38', 1 << 38, 12), ('2^25', 1 << 25, 12)]
def operand_window(i, lo, bits):
    return lambda var, S: [eq(extract(var('s%d' % i, 256), 255, bits, 256), lo >> bits, 256 - bits)]

def fam1(tier):
    out = []
    for op in ARITH:
        n = OPS[op][1]
        for rev in ((7, 12) if tier == 'quick' else REVISIONS):
            out.append(Scenario(op, rev, n, {'value', 'fail', 'sp', 'status'}, code=body(op), pc=3, static=0, fixed={'gas': GAS_BIG},
                                pool=['s%d' % i for i in range(n)]))
    return out

def fam2(tier):
    out = []
    for op in sorted(OPS):
        name, pops, pushes, _, first = OPS[op]
        h = {0, pops - 1, pops, pops + 1, 17}
        if pushes > pops and (tier != 'quick' or name in ('PUSH0', 'PUSH1', 'PUSH32', 'DUP1', 'DUP16', 'PC', 'ADDRESS', 'GAS', 'CALLDATASIZE', 'RETURNDATASIZE', 'MSIZE')): h |= {1023, 1024}
        elif pushes > pops: h |= {1024}
        if name in ('POP', 'ADD', 'SWAP16', 'JUMPDEST'): h |= {1024}
        if tier != 'quick': h |= set(range(0, 19)) | {1022, 1023}
        for sp in sorted(x for x in h if 0 <= x <= 1024):
            for rev in ([12] if tier == 'quick' else [first, 12]):
                want = {'fail', 'sp', 'deep'}
                if name == 'POP' or name.startswith(('PUSH', 'DUP', 'SWAP')): want.add('value')
                f = quiet(op, gas=GAS_BIG); f = {k: v for k, v in f.items() if not k.startswith('s') or int(k[1:]) < sp}
                out.append(Scenario(op, rev, sp, want, code=body(op), pc=3, static=0, fixed=f))
    # push data running past the end of the code
    for op in range(0x60, 0x80):
        n = op - 0x5f
        for have in sorted({0, 1, n // 2, n - 1}):
            if have < n:
                out.append(Scenario(op, 12, 1, {'fail', 'sp', 'deep', 'value'}, code=[0x5b, op] + [None] * have, pc=1, static=0, fixed={'gas': GAS_BIG}, tag='cut%d' % have))
    return out

EXACT1 = [(0, 0), (1 << 200, 0), (0, 1), (31, 2), (32, 32), (3, 100)]
EXACT1Q = [(1 << 200, 0), (31, 2), (3, 100)]
EXACT2 = [((0, 0), (0, 0)), ((0, 33), (0, 0)), ((0, 0), (7, 60)), ((10, 30), (64, 1)), ((70, 40), (1, 1))]
EXACT2Q = [((0, 0), (0, 0)), ((0, 0), (7, 60)), ((70, 40), (1, 1))]

def fam3(tier):
    out = []
    want = {'fail', 'failgas', 'gas', 'gasrange', 'refund', 'sp'}
    q = tier == 'quick'
    for op in sorted(OPS):
        name, pops, pushes, _, first = OPS[op]
        reg = region_ops(name)
        for rev in REVISIONS:
            if rev < first: continue
            kw = dict(code=body(op), pc=3, static=0)
            if not reg:
                f = {'s0': 0} if name in ('JUMP', 'JUMPI') else {}
                if q and rev not in (7, 12, first) and not (0x30 <= op <= 0x5b or op >= 0xa0): continue
                out.append(Scenario(op, rev, pops, want, fixed=f, rdsize=0, **kw)); continue
            heavy = op in CALLS or op in CREATES
            if len(reg) == 1:
                o, z = reg[0]
                memonly = name in ('MLOAD', 'MSTORE', 'MSTORE8')
                if memonly: cases = [{'s0': 0}, {'s0': 31}, {'s0': 70}]
                else: cases = [{'s%d' % o: a, 's%d' % z: b} for a, b in (EXACT1Q if q else EXACT1)]
                if op in CREATES: cases = cases + [{'s1': 0, 's2': 49152}, {'s1': 0, 's2': 49153}]
            else:
                (o1, z1), (o2, z2) = reg
                cases = []
                for (a, b), (c, d) in (EXACT2Q if q else EXACT2):
                    f = {'s%d' % o1: a, 's%d' % z1: b, 's%d' % o2: c, 's%d' % z2: d}
                    if name == 'MCOPY': f = {'s0': a, 's1': c, 's2': d}
                    cases.append(f)
            vary = heavy or name in ('EXTCODECOPY', 'SHA3', 'MCOPY') or (name.startswith('LOG') and not q)
            if q and not vary and rev not in (7, 12): continue
            if q and heavy: cases = cases if rev in (7, 8, 12) else cases[:1]
            for k, f in enumerate(cases):
                f = dict(f)
                if name == 'RETURNDATACOPY': f['s1'] = 0
                ms = (0, 32, 64)[k % 3]
                if heavy:
                    ws = gas_windows(op, rev, tier)
                    if q and k: ws = ws[:2]
                    for t, f2, ex in ws:
                        out.append(Scenario(op, rev, pops, want, fixed=dict(f, **f2), memsize=ms, regions='any', extra=ex, tag='m%d.%s' % (k, t), **kw))
                else:
                    out.append(Scenario(op, rev, pops, want, fixed=f, memsize=ms, regions='any', rdsize=100 if name == 'RETURNDATACOPY' else 0, tag='m%d' % k, **kw))
            # exact price of growing memory, for every offset (or every size) up to the limit and beyond
            if rev in ((12,) if q else (7, 11, 12)):
                for ms, (wt, lo, bits) in [(m_, w_) for m_ in ((64 * (op & 1),) if q else (0, 64)) for w_ in GROW[:None if not q or name in ('MSTORE', 'MSTORE8', 'RETURN', 'LOG0', 'CALL', 'CALLDATACOPY', 'SHA3', 'MCOPY', 'CREATE') else 3]]:
                    for j in range(len(reg)):
                        o, z = reg[j]
                        f = {}
                        if len(reg) == 2 and name != 'MCOPY':
                            o2, z2 = reg[1 - j]
                            f.update({'s%d' % o2: 0, 's%d' % z2: 0, 's0': 0})
                            if name in ('CALL', 'CALLCODE'): f['s2'] = 0
                        if name == 'MCOPY': f['s%d' % (1 - j)] = 0
                        if name == 'RETURNDATACOPY': f['s1'] = 0
                        if op in CREATES: f['s0'] = 0
                        f2 = dict(f)
                        if name not in ('MLOAD', 'MSTORE', 'MSTORE8'): f2['s%d' % z] = 64
                        out.append(Scenario(op, rev, pops, {'fail'}, fixed=f2, memsize=ms, regions='threshold', extra=operand_window(o, lo, bits), tag='off%d.%d.%s' % (j, ms, wt), **kw))
                        if name in ('RETURN', 'REVERT') or (not q and name not in ('MLOAD', 'MSTORE', 'MSTORE8')):
                            f2 = dict(f); f2['s%d' % o] = 5
                            out.append(Scenario(op, rev, pops, {'fail'}, fixed=f2, memsize=ms, regions='threshold', extra=operand_window(z, lo, bits), tag='size%d.%d.%s' % (j, ms, wt), **kw))
    return out

def fam4(tier):
    out = []
    for op in sorted(OPS):
        name, pops, pushes, _, first = OPS[op]
        writes = name in WRITES or op in CALLS
        for rev in (REVISIONS if tier != 'quick' or writes else (12,)):
            if rev < first: continue
            f = quiet(op, gas=GAS_BIG)
            want = {'nowrite'}
            if writes: want.add('fail')
            out.append(Scenario(op, rev, pops, want, code=body(op), pc=3, fixed=f))
    return out

def sizes(tier): return (0, 1, 32, 33) if tier == 'quick' else (0, 1, 2, 31, 32, 33, 64, 65)

def fam5(tier):
    out = []
    G = {'gas': GAS_BIG}
    q = tier == 'quick'
    want = {'fail', 'mem', 'status'}
    def hugeonly(var, S): return [bor(r.huge, r.empty) for r in S.regions]
    def off_small(lim):
        return lambda var, S: [bor(r.empty, ule(r.off, lim, W)) for r in S.regions]
    def small_operand(x, lim): return lambda var, S: [ule(var(x, 256), lim, W)]
    for name in ('MLOAD', 'MSTORE', 'MSTORE8'):
        op = CODE[name]
        for ms in (0, 64):
            for rev in (12,) if q else (7, 12):
                out.append(Scenario(op, rev, OPS[op][1], want | {'value'}, code=body(op), pc=3, static=0, fixed=G, memsize=ms, tag='mem%d' % ms))
    for name in ['SHA3', 'RETURN', 'REVERT', 'LOG0', 'LOG2', 'LOG4'] + COPIES:
        op = CODE[name]; reg = region_ops(name); z = reg[0][1]
        for n in ((0, 1, 6) if q and name == 'EXTCODECOPY' else sizes(tier)):
            if q and name in ('LOG2', 'LOG4', 'REVERT') and n not in (0, 33): continue
            for ms in ((64,) if q and n != 33 or name == 'MCOPY' else (0, 64)):
                f = dict(G); f['s%d' % z] = n
                kw = dict(rdsize=40) if name == 'RETURNDATACOPY' else {}
                code = body(op, pc=3, tail=[0x63] + [None] * 4 if name == 'CODECOPY' else None)
                w = want | {'out', 'events', 'value'}
                if name in COPIES and n:
                    # one of the two offsets symbolic at a time
                    o = 1 if name == 'EXTCODECOPY' else 0
                    d, r = 's%d' % o, 's%d' % (o + 1)
                    srcs = [0, 7, 40] if name == 'MCOPY' else [0, 39, (1 << 64) + 2] if name != 'CODECOPY' else [0, 3, (1 << 64) + 2] if name != 'RETURNDATACOPY' else [0, 7]
                    if q: srcs = srcs[1:]
                    for k, fx in enumerate([{d: 0}, {d: 33}] + [{r: x} for x in srcs]):
                        if name == 'CODECOPY' and d in fx and n > 1: continue
                        if q and n not in (1, 6, 33) and k != 2: continue
                        if q and d not in fx and ms == 0: continue
                        g = dict(f); g.update(fx)
                        lim = 40 if q else 70
                        if d not in fx and n > 2: lim = 8 if name == 'MCOPY' else 16 if q else 32
                        if name == 'EXTCODECOPY' and n > 2: g['s0'] = 0x1234
                        ex = small_operand(d, lim) if d not in fx else small_operand(r, 20) if name == 'MCOPY' else None
                        out.append(Scenario(op, 12, OPS[op][1], w, code=code, pc=3, static=0, fixed=g, memsize=ms, regions='any', extra=ex, tag='n%d.m%d.%d' % (n, ms, k), **kw))
                    continue
                out.append(Scenario(op, 12, OPS[op][1], w, code=code, pc=3, static=0, fixed=f, memsize=ms, regions='any', extra=off_small(40 if q else 70), tag='n%d.m%d' % (n, ms), **kw))
        out.append(Scenario(op, 12, OPS[op][1], want, code=body(op), pc=3, static=0, fixed=G, memsize=32, regions='any', extra=hugeonly, tag='huge', rdsize=40 if name == 'RETURNDATACOPY' else 0))
    out.append(Scenario(0x3e, 12, 3, want, code=body(0x3e), pc=3, static=0, fixed=dict(G, s0=0), rdsize=40, regions='any',
                        extra=lambda var, S: [ule(var('s2', 256), 64, W)], tag='bounds'))
    out.append(Scenario(0x35, 12, 1, {'value', 'fail'}, code=body(0x35), pc=3, static=0, fixed=G))
    out.append(Scenario(0x59, 12, 0, {'value', 'fail', 'mem'}, code=body(0x59), pc=3, static=0, fixed=G, memsize=96))
    for op in CALLS + CREATES:
        name = NAME[op]; reg = region_ops(name)
        base = dict(G)
        if name in ('CALL', 'CALLCODE'): base['s2'] = 0
        w = want | {'events', 'rd'}
        if op in CREATES:
            for n in (0, 33):
                out.append(Scenario(op, 12, OPS[op][1], w, code=body(op), pc=3, static=0, fixed=dict(base, s0=0, s2=n), memsize=32, regions='any', extra=off_small(40), tag='in%d' % n))
            out.append(Scenario(op, 12, OPS[op][1], want, code=body(op), pc=3, static=0, fixed=base, memsize=32, regions='any', extra=hugeonly, tag='huge'))
            continue
        (io, iz), (oo, oz) = reg
        for n in (0, 33):
            f = dict(base); f['s%d' % iz] = n; f['s%d' % oo] = 8; f['s%d' % oz] = 4
            out.append(Scenario(op, 12, OPS[op][1], w, code=body(op), pc=3, static=0, fixed=f, memsize=32, regions='any', extra=off_small(40), tag='in%d' % n))
        for n in (0, 20, 40):
            f = dict(base); f['s%d' % io] = 0; f['s%d' % iz] = 5; f['s%d' % oz] = n
            out.append(Scenario(op, 12, OPS[op][1], w, code=body(op), pc=3, static=0, fixed=f, memsize=32, rdsize=7, regions='any', extra=off_small(40), tag='out%d' % n))
        out.append(Scenario(op, 12, OPS[op][1], want, code=body(op), pc=3, static=0, fixed=base, memsize=32, regions='any', extra=hugeonly, tag='huge'))
    return out

def fam6(tier):
    out = []
    G = {'gas': GAS_BIG}
    for op in range(256):
        for rev in (REVISIONS if op not in OPS or OPS[op][4] > 7 else ((12,) if tier == 'quick' else REVISIONS)):
            if op not in OPS:
                out.append(Scenario(op, rev, 2, {'fail', 'failgas'}, code=body(op), pc=3, static=0, fixed=G))
            elif OPS[op][4] > rev:
                out.append(Scenario(op, rev, OPS[op][1], {'fail', 'failgas'}, code=body(op), pc=3, static=0, fixed=G))
            else:
                f = quiet(op, **G)
                out.append(Scenario(op, rev, OPS[op][1], {'fail', 'status', 'pc'}, code=body(op, tail=[0x5b]), pc=3, static=0, fixed=f))
    # jumps: every 256-bit target, code with jump destinations inside and outside push data
    layouts = [[0x5b, 0x60, 0x5b, None, 0x5b, 0x56], [0x61, 0x5b, 0x5b, 0x5b, None, 0x60, 0x5b], [0x5b, 0x00, 0x5b, None, 0x5b, 0x7f, 0x5b, 0x5b, 0x5b],
               [0x62, 0x5b, 0x5b, 0x5b, None, 0x5b]]
    for lay in layouts:
        for op in (0x56, 0x57):
            code = [op if c is None else c for c in lay]
            for rev in ((12,) if tier == 'quick' else (7, 12)):
                out.append(Scenario(op, rev, OPS[op][1], {'fail', 'failgas', 'status', 'pc'}, code=code, pc=lay.index(None), static=0, fixed=G, tag='lay%d' % layouts.index(lay)))
    out.append(Scenario(0x58, 12, 0, {'value'}, code=body(0x58), pc=3, static=0, fixed=G))
    # running off the end of the code
    for n in (0, 1, 3):
        out.append(Scenario(0x00, 12, 2, {'fail', 'status'}, code=[0x5b] * n, pc=n, static=0, fixed=G, tag='end%d' % n))
    return out

ENV = ['ADDRESS', 'BALANCE', 'ORIGIN', 'CALLER', 'CALLVALUE', 'CALLDATASIZE', 'CODESIZE', 'GASPRICE', 'EXTCODESIZE', 'RETURNDATASIZE', 'EXTCODEHASH', 'BLOCKHASH',
       'COINBASE', 'TIMESTAMP', 'NUMBER', 'PREVRANDAO', 'GASLIMIT', 'CHAINID', 'SELFBALANCE', 'BASEFEE', 'BLOBHASH', 'BLOBBASEFEE', 'SLOAD', 'SSTORE', 'TLOAD', 'TSTORE',
       'SELFDESTRUCT', 'LOG0', 'LOG1', 'LOG2', 'LOG3', 'LOG4']

def fam7(tier):
    out = []
    G = {'gas': GAS_BIG}
    q = tier == 'quick'
    for name in ENV:
        op = CODE[name]
        for rev in REVISIONS:
            if rev < OPS[op][4]: continue
            if q and rev not in (7, 8, 12, OPS[op][4]): continue
            f = dict(G)
            if name.startswith('LOG'): f.update(s0=3, s1=20)
            out.append(Scenario(op, rev, OPS[op][1], {'fail', 'value', 'events', 'access', 'status'}, code=body(op), pc=3, static=0, fixed=f, memsize=32, rdsize=9))
    # every other instruction issues no request at all
    for op in sorted(OPS):
        if NAME[op] in ENV or op in CALLS or op in CREATES: continue
        if OPS[op][4] > 12: continue
        out.append(Scenario(op, 12, OPS[op][1], {'events', 'access'}, code=body(op), pc=3, static=0, fixed=quiet(op, **G)))
    for n in (0, 1, 40):
        out.append(Scenario(0x3c, 12, 4, {'fail', 'events', 'access'} if n else {'fail', 'mem', 'events', 'access'}, code=body(0x3c), pc=3, static=0, fixed=dict(G, s1=3, s3=n), memsize=32, regions='any', tag='n%d' % n))
    want = {'fail', 'value', 'events', 'access', 'rd', 'mem', 'gas', 'refund'}
    for op in CALLS + CREATES:
        name = NAME[op]
        for rev in ((7, 12) if q else REVISIONS):
            if op in CREATES:
                f = dict(s1=2, s2=30)
                for lo in ((1 << 17, 1 << 33) if q else (1 << 17, 1 << 33, 1 << 50)):
                    out.append(Scenario(op, rev, OPS[op][1], want, code=body(op), pc=3, static=0, fixed=f, memsize=32, regions='any', extra=window(lo), tag='in%x' % lo))
            else:
                (io, iz), (oo, oz) = region_ops(name)
                for k, (a, b, c, d) in enumerate([(1, 31, 0, 32), (0, 4, 5, 20), (0, 0, 0, 0)]):
                    f = {'s%d' % io: a, 's%d' % iz: b, 's%d' % oo: c, 's%d' % oz: d}
                    st = None if k == 0 else 0
                    for t, f2, ex in ([('req', {'gas': 1 << 20}, None), ('w', {}, window(1 << 33))] if q else gas_windows(op, rev, tier)):
                        out.append(Scenario(op, rev, OPS[op][1], want, code=body(op), pc=3, static=st, fixed=dict(f, **f2), memsize=32, regions='any', extra=ex, tag='io%d.%s' % (k, t), rdsize=6))
    return out
FAMILIES = {1: fam1, 2: fam2, 3: fam3, 4: fam4, 5: fam5, 6: fam6, 7: fam7}
