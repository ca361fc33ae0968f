"""One entry per property: how its jobs are built and run."""
import os, itertools, re
import sym

class Plan:
    """jobs: list of objects with .name(); run(i) -> Result; bounds/functions for the evidence"""
    def __init__(self, jobs, run, bounds, assumptions, weight=None):
        if weight: jobs.sort(key=lambda j: -weight(j))
        self.jobs = jobs; self.run = run; self.bounds = bounds; self.assumptions = assumptions

COMMON_CPP = ['clang 18 -O1 bitcode of the code under test represents its source (counterexamples and path witnesses are replayed on a separately compiled AddressSanitizer build)',
              'third-party headers that are absent here (absl, intx, ethash, evmc) are replaced by stand-ins under /verif/stubs with the documented behaviour; keccak256 is an uninterpreted function']
# ---- C++ common -----------------------------------------------------------------------------
def lru_jobs(tier, monitor):
    from hcheck import HScenario
    q = tier == 'quick'
    shapes = ([(1, 4), (2, 4), (3, 4)] if q else [(1, 5), (2, 5), (3, 5), (4, 5), (5, 6)]) if not monitor else ([(1, 3), (2, 4)] if q else [(1, 4), (2, 5), (3, 5)])
    out = []
    for cap, L in shapes:
        for ks in itertools.product(range(4), repeat=L):
            if cap == 5 and ks[:3] != (1, 1, 1): continue
            for other in ((0, 1, 2, 3) if monitor and ks[-1] == 2 else (0,)):
                for ev in ((1,) if cap < 3 or monitor else (0, 1)):
                    n = 'capacity %d: %s%s%s' % (cap, ' '.join(('get', 'assign', 'get-or-insert', 'clear')[k] for k in ks), ' + concurrent ' + ('', 'get', 'assign', 'clear')[other] if other else '', ' + insertion' if ev else '')
                    h = HScenario(n, 'h_lru', dict(cap=cap, ops=L, kinds=sum(k << (2 * i) for i, k in enumerate(ks)), other=other, evict=ev, prefill=0), monitor=monitor)
                    out.append(h)
    if monitor: return out
    # a full cache: any look-ups and assignments among its entries, then evictions
    for cap, L in ((4, 4), (5, 3)) if q else ((4, 5), (5, 5), (6, 4)):
        for ks in itertools.product((0, 1), repeat=L):
            if sum(ks) > 1: continue
            for first in range(cap + 1):
                for ev in range(1, cap):
                    if q and (ev != cap - 2 or cap == 5 and sum(ks)): continue
                    f = {'key50': 1, 'key51': 2, 'key52': 3, 'key53': 4, 'key54': 5, 'key60': 9, 'key0': 200 + first}
                    out.append(HScenario('full cache of %d, first key %d: %s + %d insertions' % (cap, first, ' '.join(('get', 'assign')[k] for k in ks), ev), 'h_lru',
                                         dict(cap=cap, ops=L, kinds=sum(k << (2 * i) for i, k in enumerate(ks)), other=0, evict=ev, prefill=cap), f))
    return out

def plan_lru(pid, tier, work):
    import cppimpl
    from hcheck import check_harness, run_native
    mon = pid == 'C03'
    impl = cppimpl.simple(work, 'lru_h.cc', [], ['h_lru'])
    jobs = lru_jobs(tier, mon)
    conf = None
    if mon:
        conf = lambda h, s, path: confirm_race(work, h, s, path, impl)
    return Plan(jobs, lambda i: check_harness(impl, jobs[i], work, i, tier, validate=1 if i % 4 == 0 or tier != 'quick' else 0, confirm=conf),
                'operation sequences of %s operations (get, assign, get-or-insert, clear) on caches of capacity %s, followed by one more insertion and look-ups of every used key; all 8-bit keys and 16-bit values' % (('3 to 4', '1 to 2') if mon else ('4', '1 to 3') if tier == 'quick' else ('5 to 6', '1 to 5')) + ('' if mon else '; full caches of 4 to %d entries with %s look-ups and assignments of arbitrary keys followed by evictions' % ((5, '3 to 4') if tier == 'quick' else (6, '4 to 5'))),
                COMMON_CPP + (['the lock is a pthread mutex or reader/writer lock; every operation that touches shared data only while holding it is atomic to other threads, so interleavings reduce to sequences of whole operations; atomics are not modelled'] if mon else []))

def confirm_race(work, h, s, path, impl):
    from hcheck import replay_harness
    kind, msg = s.outcome
    if kind != 'race': return replay_harness(impl.exe_fn(), h, path)
    import subprocess, cppimpl
    exe = os.path.join(work, 'tsan')
    import fcntl
    with open(os.path.join(work, 'tsan.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            ent = os.path.join(work, 'ent_t.cc')
            open(ent, 'w').write('extern "C" void h_threads();\nstruct Entry{const char*name;void(*fn)();};\nEntry sym_entries[]={{"h_threads",h_threads},{0,0}};\n')
            subprocess.run(['/usr/bin/clang++-18', '-std=c++20', '-O1', '-g', '-fsanitize=thread', '-DLRU_THREADS', '-w', '-I' + cppimpl.STUBS, '-I' + os.path.join(cppimpl.REPO, 'cpp'), '-I' + cppimpl.HARN,
                            '-o', exe, os.path.join(cppimpl.HARN, 'lru_h.cc'), ent, os.path.join(cppimpl.STUBS, 'rt/sym_native.cc'), '-lpthread'], check=True, capture_output=True)
    found = []
    for kind in range(4):
        p = path + '.t%d' % kind
        open(p, 'w').write('param kind %d\n' % kind)
        try: r = subprocess.run(['setarch', '-R', exe, 'h_threads', p], capture_output=True, timeout=60)
        except subprocess.TimeoutExpired: continue
        e = r.stderr.decode('latin1')
        if 'data race' in e or r.returncode < 0 or 'SEGV' in e or 'heap-use' in e: found.append('two threads, operation kind %d: %s' % (kind, next((l for l in e.splitlines() if 'WARNING' in l or 'ERROR' in l), 'crash').strip()))
        os.unlink(p)
    return [msg] + found if found else []

def plan_jumpdest(pid, tier, work):
    import cppimpl
    from hcheck import HScenario, check_harness
    impl = cppimpl.simple(work, 'jumpdest_h.cc', ['cpp/vm/evmzero/opcodes.cc'], ['h_jumpdest'])
    impl.eng.concretize_offsets = True
    q = tier == 'quick'
    jobs = [HScenario('all code of length %d' % n, 'h_jumpdest', dict(len=n)) for n in range(0, 8 if q else 10)]
    import random
    for n in ((20, 33, 34, 40, 70) if q else (16, 20, 31, 32, 33, 34, 35, 40, 64, 65, 66, 70, 100, 130)):
        for pos in ((0,), (n - 1,), (n - 2, n - 1), (0, n // 2), (0, 1, 2), (3, 8, n - 3), (1, n - 34, n - 33)):
            if min(pos) < 0: continue
            if q and n > 20 and (len(pos) > 2 or n > 34 and len(pos) > 1 and pos[1] != n - 1): continue
            for filler in (0x5b, 0x7f, 0x60):
                f = {'code%d' % i: filler for i in range(n) if i not in pos}
                if filler == 0x60: f = {k: (0x5b if int(k[4:]) % 3 else 0x60) for k in f}
                jobs.append(HScenario('length %d, filler %#x, arbitrary bytes at %s' % (n, filler, pos), 'h_jumpdest', dict(len=n), f))
    return Plan(jobs, lambda i: check_harness(impl, jobs[i], work, i, tier, budget=120 if q else 600),
                'all byte strings of length 0 to %d; longer code (up to %d bytes) of JUMPDEST or PUSH filler with up to three (quick: mostly two) arbitrary bytes' % ((7, 70) if q else (9, 130)), COMMON_CPP, weight=lambda j: j.prm['len'] if not j.fixed else 0)

# ---- EVM interpreters -------------------------------------------------------------------------
SLOW = re.compile('EXTCODECOPY|MCOPY|RETURNDATACOPY|CODECOPY|CALLDATACOPY|SHA3|LOG|CALL|CREATE|SSTORE')
EVM_BOUNDS = {
 1: 'one execution of every compute instruction in a symbolic frame with all operand values',
 2: 'one execution of every opcode at the stack heights around its limits (0..17 operands short/exact, 1023, 1024), symbolic contents',
 3: 'one execution of every opcode x revision with symbolic operands, gas within windows that bracket every charge, symbolic host answers',
 4: 'one execution of every opcode with the read-only flag symbolic',
 5: 'one execution of every memory instruction with initial memory of 0..64 bytes, accesses of up to 80 bytes at any offset, and all larger offsets/lengths for failure classification',
 6: 'one execution of all 256 opcode bytes x revisions, and jumps over symbolic code of up to 8 bytes with arbitrary destinations',
 7: 'one execution of every instruction talking to the host, symbolic arguments and answers, inputs/outputs of up to 40 bytes',
 9: 'all fused patterns with arbitrary immediates and stack words at all depths around their limits, alone, cut, and in sequence with their neighbours; immediates of every width with arbitrary data before entry points and cut short; long code around position 65535 (thorough: up to 140000); a catalogue of programs in five configurations (super-instructions, no hash cache, no code cache, statistics) against the default one and single stepping',
 8: 'a catalogue of small programs (loops, jumps, calls, memory, failures) with symbolic operands, input, gas and host answers: whole run, warm-cache run and single stepping',
}
EVM_ASSUME = ['gas at most 2^54, block numbers/timestamps at most 2^62, refunds within 2^50; return data of calls at most 33 bytes in these scenarios',
              'EXP is compared as an uninterpreted function of both operands, its gas exactly']

def plan_evm(build, common=COMMON_CPP):
    def f(pid, tier, work):
        impl = build(work)
        k = int(pid[1:])
        q = tier == 'quick'
        if k in (8, 9):
            from evm_prog import programs, conversion, check_prog
            jobs = (programs if k == 8 else conversion)(tier)
            return Plan(jobs, lambda i: check_prog(impl, jobs[i], work, i, tier, budget=40 if q else 200, validate=1 if k == 8 or not q else 0), EVM_BOUNDS[k], common + EVM_ASSUME)
        from evm_families import FAMILIES
        from evm_check import check_scenario
        jobs = FAMILIES[k](tier)
        return Plan(jobs, lambda i: check_scenario(impl, jobs[i], work, i, tier, budget=40 if q else 200, validate=1 if not q or i % 3 == 0 else 0), EVM_BOUNDS[k], common + EVM_ASSUME,
                    weight=lambda j: (10 if 'COPY' in j.name() else 5 if SLOW.search(j.name()) else 0))
    return f

def evmzero(work):
    import cppimpl
    return cppimpl.evmzero(work)

def lfvm(work):
    import goimpl, evm_spec
    evm_spec.EMPTY_HASH_ZERO = True
    return goimpl.go_impl(work, LFVM_O, {e: GOT + 'interpreter/lfvm.H_' + e[2:] for e in ('h_step', 'h_stepexec')})
LFVM_O = {'go/interpreter/lfvm/zz_verif.go': 'lfvm_h.go', 'go/interpreter/lfvm/keccak.go': 'lfvm_keccak.go'}

COMMON_GO = ['the Go SSA form (golang.org/x/tools/go/ssa) of the code under test, lowered to LLVM IR by /verif/tools/go2ll and compiled with clang -O1, represents its source (counterexamples and path witnesses are replayed on a build by the Go compiler)',
             'absent third-party modules (uint256, go-ethereum, evmc, golang-lru, gomock, sha3) are replaced by stand-ins under /verif/stubs/go with the documented behaviour; fmt, regexp and encoding/json are replaced in the symbolic build by small re-implementations (the replay uses the real ones)']
GOT = 'github.com/Fantom-foundation/Tosca/go/'

def plan_go(overlay, entries, jobs, bounds, fmt=False, assumptions=(), budget=(60, 300), validate=1, setup=None, weight=None, summ=False, threads=None):
    """entries: {entry: package path below go/ + '.Func'}; jobs(tier) -> [HScenario]"""
    def f(pid, tier, work):
        import goimpl
        from hcheck import check_harness
        js = jobs(tier); used = set(j.entry for j in js)
        impl = goimpl.go_impl(work, overlay, {e: GOT + q for e, q in entries.items() if e in used}, fmt=fmt, summ=summ)
        if setup: setup(impl)
        b = bounds(tier) if callable(bounds) else bounds
        conf = (lambda h, s, path: confirm_go_race(work, impl, threads, h, s, path)) if threads else None
        return Plan(js, lambda i: check_harness(impl, js[i], work, i, tier, budget=budget[0] if tier == 'quick' else budget[1], validate=validate, confirm=conf), b, COMMON_GO + list(assumptions), weight=weight)
    return f

def confirm_go_race(work, impl, threads, h, s, path):
    from hcheck import replay_harness
    kind, msg = s.outcome
    if kind != 'race': return replay_harness(impl.exe_fn(), h, path)
    import fcntl, subprocess
    with open(os.path.join(work, 'race.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = impl.build.race_build('threads', GOT + threads[h.entry])
    open(path + '.t', 'w').write(''.join('param %s %d\n' % kv for kv in h.prm.items()))
    for k in range(3):
        try: r = subprocess.run([exe, 'threads', path + '.t'], capture_output=True, timeout=60)
        except subprocess.TimeoutExpired: return [msg, 'two threads: the threads do not end']
        e = r.stderr.decode('latin1')
        if 'DATA RACE' in e or 'fatal error' in e or 'panic:' in e:
            return [msg, 'two threads: ' + next((l.strip() for l in e.splitlines() if 'DATA RACE' in l or 'fatal error' in l or 'panic:' in l), '')]
    return []

def HS(name, entry, params=None, fixed=None, **k):
    from hcheck import HScenario
    return HScenario(name, entry, params or {}, fixed, **k)

TOSCA_H = {'go/tosca/zz_verif.go': 'tosca_h.go'}
def t04_jobs(tier):
    q = tier == 'quick'
    out = [HS('every value and address', 'h_text'), HS('every revision below 1200', 'h_revision'), HS('every call kind', 'h_kind')]
    for size in (20, 32):
        full = 2 + 2 * size
        for n in (0, 1, 2, 3, full - 2, full - 1, full, full + 1, full + 2):
            for at in ((0, full // 2, max(n - 3, 0)) if q else range(0, max(n, 1), 3)):
                if at and at >= n: continue
                out.append(HS('texts of length %d for %d bytes, arbitrary at %d..%d' % (n, size, at, at + (2 if q else 3)), 'h_parse', dict(len=n, size=size, at=at, win=3 if q else 4)))
    for b, n in enumerate((12, 12, 12, 10, 10, 11, 0, 8, 6, 6, 5, 8, 6, 7, 7, 6, 12, 1, 22)):
        w = 3 if q else 4
        for at in range(0, max(n, 1), w): out.append(HS('revision text %d, arbitrary at %d..%d' % (b, at, at + w - 1), 'h_revparse', dict(base=b, at=at, win=w)))
    for b, n in enumerate((0, 3, 5, 5, 7, 7, 7, 4, 13, 11, 9, 6, 7)):
        w = 3
        for at in range(0, max(n, 1), w): out.append(HS('call kind text %d, arbitrary at %d..%d' % (b, at, at + w - 1), 'h_kindparse', dict(base=b, at=at, win=w)))
    for n in range(0, 6): out.append(HS('texts of length %d that are no JSON string' % n, 'h_json', dict(len=n)))
    return out

GO_PLANS = {
 'T01': plan_go({'go/tosca/vm/zz_verif.go': 'vm_h.go'}, {'h_' + x: 'tosca/vm.H_' + x for x in ('names', 'valid', 'nopush', 'width')},
                lambda tier: [HS('%s of every byte value' % x, 'h_' + x) for x in ('names', 'valid', 'nopush', 'width')], 'none: all 256 byte values', fmt=True),
 'T02': plan_go(TOSCA_H, {'h_' + x: 'tosca.H_' + x for x in ('add', 'scale', 'newvalue', 'tobig')},
                lambda tier: [HS('add, sub, compare: all operands', 'h_add'), HS('scale: all operands', 'h_scale'), HS('conversion to big: all values', 'h_tobig')] + [HS('value from %d words' % n, 'h_newvalue', dict(n=n)) for n in range(5)],
                'none: all operand values (up to four words for the constructor, which accepts no more)', assumptions=['256-bit arithmetic of the uint256 library is taken as arithmetic modulo 2^256']),
 'T03': plan_go(TOSCA_H, {'h_' + x: 'tosca.H_' + x for x in ('storage', 'words', 'statuses')}, lambda tier: [HS('storage status: all original, current and new values', 'h_storage'), HS('size in words: all sizes', 'h_words'), HS('the list of statuses', 'h_statuses')],
                'none: all 256-bit words and all 64-bit sizes'),
 'T04': plan_go(TOSCA_H, {'h_' + x: 'tosca.H_' + x for x in ('text', 'parse', 'revision', 'revparse', 'kind', 'kindparse', 'json')}, t04_jobs,
                lambda t: 'serialisation: all values, addresses, call kinds, revisions 0..1199; parsing: texts of the lengths around the right one with windows of %d arbitrary bytes, texts around the names and around Revision(N) with windows of 3 arbitrary printable characters, arbitrary ASCII texts of up to 5 bytes that are no JSON string' % (3 if t == 'quick' else 4), fmt=True,
                assumptions=['JSON escapes and non-ASCII text are not explored']),
}
FLORIA_H = {'go/processor/floria/zz_verif.go': 'floria_h.go'}
KINDS = ('Call', 'DelegateCall', 'StaticCall', 'CallCode', 'Create', 'Create2')
REVS = ('Istanbul', 'Berlin', 'London', 'Paris', 'Shanghai', 'Cancun')
def fcall(what, kind, rev=2, fixed=None, **k):
    p = dict(kind=kind, revision=rev, views=0, nest=0, effects=0, inlen=2, outlen=2, errors=0, deep=0, static=0, only=0, nkind=0, selector=0, quiet=0); p.update(k)
    return HS('%s: %s in %s' % (what, KINDS[kind], REVS[rev]), 'h_call', p, fixed)
def frun(what, create, rev=2, fixed=None, abs=True, **k):
    p = dict(create=create, revision=rev, views=0, nest=0, effects=0, inlen=2, win=2, outlen=2, errors=0, alen=0, range=0, nkind=0, maxlimit=0, quiet=0); p.update(k)
    return HS('%s: %s in %s' % (what, 'creation' if create else 'call', REVS[rev]), 'h_run', p, fixed, abs=abs, hints=HINTS)
# products and quotients are uninterpreted functions; to refute, one factor is chosen and they are computed
HINTS = tuple([('price', 256, p), ('limit', 64, l), ('left#0', 64, g), ('refund#0', 64, r)] for p, l, g, r in ((7, 1 << 40, 1 << 38, 0), (3, 1 << 40, (1 << 38) + 9, 1 << 39), (1 << 70, 200000, 77777, 5000), (5, 300000, 0, 0))) + tuple([(n, w, v)] for n, w, v in (('price', 256, 7), ('price', 256, 1 << 40), ('price', 256, 1 << 200), ('limit', 64, 1 << 17), ('limit', 64, 1 << 62), ('price', 256, 1)))
def f01_jobs(tier):
    out = []
    for cr in (0, 1):
        for rev in range(6): out.append(frun('transaction', cr, rev, views=2, quiet=1, inlen=1))
        for n in (0, 2, 4): out.append(frun('%d input bytes' % n, cr, 2, views=2, quiet=1, inlen=n, win=4))
        for a in (1, 2, 3, 4): out.append(frun('access list of %d' % (a - 1), cr, 5, views=2, quiet=1, alen=a, inlen=0))
    for rev in (3, 4, 5):
        for n in (49152, 49153): out.append(frun('%d input bytes' % n, 1, rev, views=2, quiet=1, inlen=n, win=0))
    return out
def f02_jobs(tier):
    out = []
    for cr in (0, 1):
        for rev in range(6): out.append(frun('fees', cr, rev, views=1, inlen=0, range=1))
        for ef in (1, 2): out.append(frun('fees with effects %d' % ef, cr, 2, views=1, effects=ef, inlen=0))
        out.append(frun('interpreter failures', cr, 2, views=1, errors=1, inlen=0))
        for n in (0, 1, 24576, 24577): out.append(frun('output of %d bytes' % n, cr, 2, views=1, outlen=n, inlen=0))
        out.append(frun('access list', cr, 2, views=1, alen=3, inlen=0))
    return out
def f03_jobs(tier):
    out = []; q = tier == 'quick'
    for k in range(6):
        for ef in (0, 1, 2): out.append(fcall('effects %d' % ef, k, 2, views=1, effects=ef, errors=1))
        for nk in range(6):
            if q and k and (nk - k) % 3: continue
            out.append(fcall('calling %s' % KINDS[nk], k, 2, views=1, nest=1, nkind=nk, effects=1, outlen=0, fixed={'value': 0} if (not k and nk < 4) or not q else {'value': 0, 'nvalue': 0}))
        if k < 4: out.append(fcall('precompiled', k, 2, views=1, only=3))
    for k in (4, 5):
        for rev in (0, 1, 2, 5) if q else range(6):
            for n in (0, 1, 24576, 24577): 
                if q and k == 5 and rev != 2: continue
                out.append(fcall('code of %d bytes' % n, k, rev, views=1, outlen=n, effects=1))
    out.append(fcall('state contract', 0, 2, views=1, only=2, inlen=3))
    return out
def f04_jobs(tier):
    out = []; q = tier == 'quick'
    for k in range(6):
        for rev in (range(6) if not q else (0, 2, 5) if k in (0, 4) else (2,)): out.append(fcall('parameters', k, rev, views=2, deep=1, static=1))
        for n in (0, 33): out.append(fcall('input of %d bytes' % n, k, 2, views=2, deep=1, static=1, inlen=n))
        for nk in range(6):
            if q and k not in (0, 2) and (nk - k) % 3: continue
            out.append(fcall('calling %s' % KINDS[nk], k, 2, views=2, nest=1, nkind=nk, deep=1, static=1, outlen=0, fixed={'value': 0} if not q else {'value': 0, 'nvalue': 0}))
    return out
SELECTORS = dict(setBalance=0xe30443bc, copyCode=0xd6a0c7af, swapCode=0x07690b2a, setStorage=0x39e503ab, incNonce=0x79bead38)
def f05_jobs(tier):
    out = []
    for n in (0, 1, 3, 4, 5): out.append(fcall('%d input bytes' % n, 0, 2, views=1, only=2, inlen=n))
    for nm, sel in SELECTORS.items():
        for n in (63, 64, 65, 95, 96, 97): out.append(fcall('%s with %d argument bytes' % (nm, n), 0, 2, views=1, only=2, inlen=4 + n, selector=sel))
    for n in (64, 96): out.append(fcall('any method with %d argument bytes' % n, 0, 5, views=1, only=2, inlen=4 + n))
    out.append(fcall('any method with 64 argument bytes', 2, 2, views=1, only=2, inlen=68))
    return out
def f06_jobs(tier):
    return [fcall('precompiled contract, %d input bytes' % n, k, rev, only=3, inlen=n, fixed={} if k % 3 == 0 and n else {'value': 0}) for rev in range(6) for k in range(4) for n in ((2 if (rev + k) % 2 else 0,) if tier == 'quick' else (0, 1, 3, 40))] + \
           [fcall('any other code address', k, rev, inlen=0, outlen=0, fixed={'value': 0}) for rev in range(6) for k in range(4)]
def f07_jobs(tier):
    return [HS('access list of %d entries: %s in %s' % (a - 1, 'creation' if cr else 'call', REVS[rev]), 'h_access', dict(create=cr, revision=rev, alen=a, inlen=0, win=0, outlen=0, errors=0, views=0, effects=0, nest=0, nkind=0, quiet=1, maxlimit=0), abs=True, hints=HINTS) for rev in range(6) for cr in (0, 1) for a in ((1, 3) if tier == 'quick' else (1, 2, 3, 4))] + \
           [HS('no access list: %s in %s' % ('creation' if cr else 'call', REVS[rev]), 'h_access', dict(create=cr, revision=rev, alen=0, inlen=0, win=0, outlen=0, errors=0, views=0, effects=0, nest=0, nkind=0, quiet=1, maxlimit=0), abs=True, hints=HINTS) for rev in (0, 5) for cr in (0, 1)]
FL = {e: 'processor/floria.H_' + e[2:] for e in ('h_call', 'h_run', 'h_access')}
FL_ASSUME = ['Add, Sub and Cmp of amounts are taken as 256-bit arithmetic (decided by T02)',
             'accounts are read and written through a model of the transaction context with arbitrary initial contents (code of at most 48 bytes); contract addresses, hashes, prices and results of precompiled contracts are uninterpreted functions; new addresses are no precompiled or system contracts; creator nonces are below 2^64-1',
             'the interpreter is any program that stores, logs, changes a balance or calls once more, and reports any result with gas between zero and what it got and a non-negative refund']
for _p, _j, _b in (('F01', f01_jobs, 'one transaction with up to 4 arbitrary input bytes (and 49152/49153 zero bytes), access lists of up to 3 entries, all senders, nonces, balances, prices and gas limits of at least 0'),
                   ('F02', f02_jobs, 'one transaction, any interpreter result, outputs of 0, 1, 2, 24576 and 24577 bytes'),
                   ('F03', f03_jobs, 'one call or creation of each kind, executed code that calls at most once more; outputs of 0, 1, 2, 24576 and 24577 bytes'),
                   ('F04', f04_jobs, 'one call or creation of each kind at any depth, executed code that calls at most once more'),
                   ('F05', f05_jobs, 'one request with 0 to 5, 67 to 69 and 99 to 101 input bytes'),
                   ('F06', f06_jobs, 'one call to any precompiled contract with inputs of up to 3 (thorough: 40) bytes'),
                   ('F07', f07_jobs, 'access lists of up to 3 entries with up to 2 keys')):
    GO_PLANS[_p] = plan_go(FLORIA_H, FL, _j, _b, assumptions=FL_ASSUME, summ=True)
def l10_jobs(tier):
    q = tier == 'quick'
    out = []
    for cap in ((1, 2, 3) if q else (1, 2, 3, 4)):
        for n in ((4, 5) if q else (4, 5, 6)):
            for other in ((0, 1, 2) if q else (0, 1, 2, 3)):
                out.append(HS('capacity %d, %d look-ups, %d of another thread inside' % (cap, n, other), 'h_hashcache', dict(cap=cap, ops=n, other=other), monitor=True))
    for l in ((31, 32), (32, 32), (32, 33), (64, 64), (63, 64), (64, 32), (0, 1), (65, 96)) + (((32, 32, 32), (64, 64, 64), (32, 64, 32)) if True else ()):
        out.append(HS('data of lengths %s' % (l,), 'h_sha3cache', dict({'len%d' % i: n for i, n in enumerate(tuple(l) + (0, 0, 0)) if i < 3}, ops=len(l))))
    return out
GO_PLANS['L10'] = plan_go(dict(LFVM_O, **{'go/interpreter/lfvm/zz_verif_hash.go': 'lfvm_hash_h.go'}), {'h_hashcache': 'interpreter/lfvm.H_hashcache', 'h_sha3cache': 'interpreter/lfvm.H_sha3cache'}, l10_jobs,
    lambda tier: 'caches of capacity 1 to %d with %s look-ups of arbitrary 16-bit keys, up to %d complete look-ups of another thread while a hash is computed; every shared access of every operation against the lock; data of 0 to 96 bytes in sequences of up to three' % ((3, '4 to 5', 2) if tier == 'quick' else (4, '4 to 6', 3)),
    assumptions=['operations that touch shared data only while holding the lock are atomic to other threads; atomics are not modelled; the hash function is uninterpreted'], threads={'h_hashcache': 'interpreter/lfvm.H_hashthreads'})
CTC = {'go/ct/common/zz_verif.go': 'ct_u256_h.go'}
def s01_jobs(tier):
    q = tier == 'quick'
    names = ['sum, difference, product', 'quotient, remainder', 'signed quotient, remainder', 'modular sum and product', 'power', 'bit operations', 'comparisons', 'shifts', 'sign extension', 'conversions', 'random values between limits']
    out = [HS('%s: all operands' % n, 'h_u256', dict(op=k), abs=k == 10, hints=[(('a', 256, 5), ('b', 256, 14)), (('a', 256, 7), ('b', 256, 1 << 255)), (('a', 256, 0), ('b', 256, (1 << 256) - 1))] if k == 10 else ()) for k, n in enumerate(names) if k != 9]
    out += [HS('conversions, %d bytes' % n, 'h_u256', dict(op=9, n=n)) for n in ((0, 1, 2, 4, 20, 31, 32) if q else range(33))]
    out.append(HS('text of every value', 'h_u256text'))
    for n in (0, 1, 16, 66, 67, 68):
        for at in ((0, 14, 32, 64) if q else range(0, 68, 2)):
            if at and at >= n: continue
            out.append(HS('texts of length %d, arbitrary at %d to %d' % (n, at, at + 2), 'h_u256parse', dict(len=n, at=at, win=3)))
    return out
GO_PLANS['S01'] = plan_go(CTC, {'h_u256': 'ct/common.H_u256', 'h_u256text': 'ct/common.H_u256text', 'h_u256parse': 'ct/common.H_u256parse'}, s01_jobs,
    'all operand values; texts of lengths 0, 1, 16 and 66 to 68 with windows of 3 arbitrary bytes', fmt=True, assumptions=['products, quotients, remainders and powers of the uint256 library are taken as such'])
def s02_jobs(tier):
    import itertools
    q = tier == 'quick'
    N = ['exclude', 'equal', 'lower', 'upper']; out = []
    for t in range(8):
        rng = t > 3; small = t & 2
        tn = '%s solver, %s %d bits' % ('range' if rng else 'interval', 'signed' if t & 1 else 'unsigned', 8 if small else 64)
        for n in range(0, ((4 if small else 3) if q else (5 if small else 4)) if rng else ((3 if t & 1 else 4) if small else 2) if q else (4 if small else 3)):
            for ops in itertools.product(range(4), repeat=n):
                if rng and 0 in ops: continue
                if q and not rng and n == 3 and (ops[0] or ops[2] == 1 or ops.count(0) > 2): continue
                for g in ((0, 1) if n < 3 or not q else (0,)) if not rng else (0,):
                    out.append(HS('%s: %s%s' % (tn, ' '.join(N[o] for o in ops) or 'no constraint', ', generated value' if g else ''), 'h_solver', dict(type=t, n=n, ops=sum(o << (2 * i) for i, o in enumerate(ops)), generate=g, near=int(not rng and (g and (small or 0 in ops) or n > 2)))))
    return out
GO_PLANS['S02'] = plan_go({'go/ct/gen/zz_verif.go': 'ct_gen_h.go'}, {'h_solver': 'ct/gen.H_solver'}, s02_jobs,
    lambda tier: 'every sequence of up to %s constraints; arbitrary limits and values, for generated values and three constraints within 8 of the ends of their range' % ('3 (8 bits unsigned), 2 (8 bits signed) or 1 (64 bits) for intervals and 3 (8 bits) or 2 (64 bits) for ranges' if tier == 'quick' else '3 (8 bits) or 2 (64 bits) for intervals and 4 (8 bits) or 3 (64 bits) for ranges'), assumptions=['random numbers are arbitrary numbers in the requested range'])
CTST = {'go/ct/st/zz_verif.go': 'ct_st_h.go'}
def s04_jobs(tier):
    q = tier == 'quick'; out = []
    for n in (0, 1, 32, 33, 64, 1024): out.append(HS('price of growing from %d bytes' % n, 'h_memcost', dict(len=n, at=0), abs=True))
    for n in (0, 64):
        for at in (1, 2): out.append(HS('price of growing from %d bytes, %s around the limit' % (n, ('offset', 'size')[at - 1]), 'h_memcost', dict(len=n, at=at)))
    for op, name in enumerate(('read', 'write', 'grow', 'hash')):
        for n in ((0, 32, 64) if q else (0, 1, 32, 33, 64, 96)):
            for size in ((0, 1, 3, 33) if q else (0, 1, 2, 31, 32, 33, 64, 65)):
                out.append(HS('%s %d bytes of %d' % (name, size, n), 'h_memory', dict(op=op, len=n, size=size, maxoff=40 if q else 100)))
    for n, l in ((0, 0), (0, 1), (3, 3), (3, 2), (2, 2), (1, 33)): out.append(HS('set and compare %d and %d bytes' % (n, l), 'h_memset', dict(len=n, size=l)))
    for n in ((0, 1, 2, 3, 34) if q else (0, 1, 2, 3, 4, 31, 32, 33, 34, 35, 64, 66, 70)):
        for fill in (0x5b, 0x60, 0x7f) if q else (0, 0x5b, 0x5f, 0x60, 0x61, 0x7e, 0x7f, 0x80):
            for at in ((0, n - 2) if q else range(0, n, 4)):
                if at < 0 or (at and at >= n) or n < 3 and at or fill in range(0x60, 0x70) and n > 10: continue
                out.append(HS('code of %d bytes %02x, arbitrary at %d' % (n, fill, at), 'h_code', dict(len=n, at=at, win=1 if n > 4 else 2, fill=fill)))
    for n in ((0, 1, 2, 5) if q else (0, 1, 2, 5, 20)):
        for k in sorted({0, n // 2, max(n - 1, 0)}): out.append(HS('stack of %d, position %d' % (n, k), 'h_stack', dict(len=n, k=k)))
    return out
GO_PLANS['S04'] = plan_go(CTST, {'h_' + x: 'ct/st.H_' + x for x in ('memcost', 'memory', 'memset', 'code', 'stack')}, s04_jobs,
    lambda tier: 'prices: all 256-bit offsets and sizes; memories of up to %d bytes with accesses of up to %d bytes at arbitrary offsets up to %d; codes of up to %d bytes with up to 3 arbitrary ones at any place; stacks of up to %d arbitrary words' % ((64, 33, 40, 40, 5) if tier == 'quick' else (96, 65, 100, 70, 20)))
CTSTATE = dict(CTST, **{'go/ct/st/zz_verif_state.go': 'ct_state_h.go'})
STATE_COMP = ['revision', 'read-only mode', 'program counter', 'gas', 'gas refund', 'code', 'stack element', 'stack height by a push', 'stack height by a pop', 'memory byte', 'memory size', 'current storage value', 'removed current storage value',
    'original storage value', 'removed original storage value', 'warm slot', 'cold slot', 'transient storage value', 'balance', 'warm account', 'new log', 'log data', 'log topic', 'account address', 'caller address', 'call value', 'call', 'kind of a past call',
    'recipient of a past call', 'sender of a past call', 'input of a past call', 'value of a past call', 'gas of a past call', 'code address of a past call', 'success of a future call', 'output of a future call', 'gas costs of a future call', 'refund of a future call',
    'created account of a future call', 'base fee', 'blob base fee', 'block number', 'chain id', 'coinbase', 'gas limit', 'gas price', 'prevrandao', 'time stamp', 'call data', 'last call return data', 'return data', 'self-destructed flag', 'self-destructed account',
    'self-destruct beneficiary', 'new self-destruct', 'block hash', 'origin', 'blob hash', 'new blob hash', 'status']
def s03_jobs(tier):
    q = tier == 'quick'; out = []
    for c, name in enumerate(STATE_COMP):
        for st in range(4):
            for cp in (0, 1):
                if q and st != (c + cp) % 4 and st: continue
                out.append(HS('%s of a %s, %s' % (name, 'copy' if cp else 'copied original', ('running', 'stopped', 'reverted', 'failed')[st]), 'h_state', dict(status=st, component=c, copy=cp, failing=0)))
    for c in range(35, 39):
        for cp in (0, 1): out.append(HS('%s that fails, of a %s' % (STATE_COMP[c], 'copy' if cp else 'copied original'), 'h_state', dict(status=0, component=c, copy=cp, failing=1)))
    for n in (0, 1, 3, 24576) if not q else (0, 3): out.append(HS('program counters around the end of %d bytes of code' % n, 'h_pc', dict(len=n, failing=0)))
    for n in (0, 1, 5): out.append(HS('code hash of an account with %d bytes of code' % n, 'h_codehash', dict(len=n, failing=0)))
    return out
GO_PLANS['S03'] = plan_go(CTSTATE, {'h_state': 'ct/st.H_state', 'h_pc': 'ct/st.H_pc', 'h_codehash': 'ct/st.H_codehash'}, s03_jobs,
    lambda tier: 'one component changed to an arbitrary value (storage and account keys: 256 arbitrary ones) in a state with content in all components, some of it arbitrary; either the copy or the original; running states and %s' % ('one further status per component' if tier == 'quick' else 'all other statuses'))
EVMCH = {'go/interpreter/evmc/zz_verif.go': 'evmc_h.go'}
EVMC_REQ = ['storage read', 'storage write', 'balance', 'code size', 'code hash', 'code', 'self-destruct', 'block hash', 'account access', 'slot access', 'transient storage read', 'transient storage write', 'account existence', 'log']
def a01_jobs(tier):
    q = tier == 'quick'; out = []
    for op, name in enumerate(EVMC_REQ):
        for n in ((0, 3) if q else (0, 1, 3, 33, 100)) if op in (5, 13) else (0,):
            for t in range(5) if op == 13 else (0,): out.append(HS('%s, %d bytes, %d topics' % (name, n, t) if op == 13 else '%s, %d bytes' % (name, n) if op == 5 else name, 'h_request', dict(op=op, len=n, topics=t)))
    for n in (0, 3) if q else (0, 1, 3, 33):
        for f in (0, 1): out.append(HS('call with %d bytes%s' % (n, ' that cannot be processed' if f else ''), 'h_call', dict(len=n, fails=f)))
        for b in (0, 2):
            for h in (0, 1): out.append(HS('execution with %d bytes of input, output and code, %d blob hashes, %s code hash' % (n, b, 'a' if h else 'no'), 'h_run', dict(len=n, blobs=b, hashed=h)))
    for w, m, rs, rm, n in ((0, 0, 0, 0, 0), (1, 1, 64, 2, 3), (3, 0, 0, 1, 0), (2, 1, 33, 0, 3)) if q else ((0, 0, 0, 0, 0), (1, 1, 64, 2, 3), (3, 0, 0, 1, 0), (2, 1, 33, 0, 3), (5, 3, 160, 3, 33), (0, 2, 32, 0, 1), (4, 0, 31, 1, 0)):
        out.append(HS('stepping from %d stack and %d memory words to %d stack bytes and %d memory words, %d bytes of data' % (w, m, rs, rm, n), 'h_step', dict(words=w, mem=m, rstack=rs, rmem=rm, len=n, blobs=1, hashed=0)))
    return out
GO_PLANS['A01'] = plan_go(EVMCH, {'h_' + x: 'interpreter/evmc.H_' + x for x in ('request', 'call', 'run', 'step')}, a01_jobs,
    lambda tier: 'all addresses, keys, values, gas amounts, status codes and revisions; inputs, outputs, codes and log data of up to %d bytes, up to 4 topics, 2 blob hashes; stepping with up to 5 stack and 3 memory words' % (3 if tier == 'quick' else 100),
    assumptions=['the C and cgo layers of the EVMC bindings, absent here, hand requests over unchanged'])
GETHH = {'go/geth_adapter/zz_verif.go': 'geth_h.go', 'go/geth_adapter/adapter_test_mocks.go': 'geth_mocks.go'}
GETH_REQ = ['storage read', 'storage write', 'balance', 'code size', 'code hash', 'code', 'self-destruct', 'block hash', 'account access', 'slot access', 'transient storage', 'nonce', 'balance update', 'log', 'snapshots', 'account creation']
GETH_KIND = ['call', 'delegate call', 'static call', 'call code', 'creation', 'creation with salt']
def a02_jobs(tier):
    q = tier == 'quick'; out = []
    for op, name in enumerate(GETH_REQ):
        for late in (0, 1) if op == 6 else (0,):
            for t in (0, 2, 4) if op == 13 else (0,):
                out.append(HS(name + (' from Cancun on' if late else '') + (', %d topics' % t if op == 13 else ''), 'h_request', dict(op=op, len=3, topics=t, late=late)))
    for top in (1, 0):
        w = 'execution' if top else 'nested execution'
        for m in (0, 2): out.append(HS('%s with %d bytes' % (w, m), 'h_nested', dict(kind=0, nested=0, top=top, len=m, rev=m + 2 if top else m + 3, fees=0, hashed=m // 2, error=0, low=0)))
        for k in range(6):
            for late in (0, 1) if k == 2 or not q else (k & 1,):
                for low in range(20) if k < 4 and (not q or k == 1 and top == 0) else (0, 17, 18, 19) if k in (1, 3) else (20,) if k >= 4 else (0, 19):
                    m = 2 if low in (0, 18, 20) else 0
                    out.append(HS('%s with a %s of a contract%s' % (w, GETH_KIND[k], ', %d zero bytes in its address%s' % (low, ', Cancun' if late else '')), 'h_nested', dict(kind=k, nested=1, top=top, len=m, rev=4 + late, fees=0, hashed=0, error=0, low=low)))
                if k < 4: out.append(HS('%s with a %s of a precompiled contract%s' % (w, GETH_KIND[k], ', Cancun' if late else ''), 'h_nested', dict(kind=k, nested=2, top=top, len=2, rev=4 + late, fees=0, hashed=0, error=0, low=0)))
            for e in range(17) if k == 0 or not q else (0, 3, 5): out.append(HS('%s with a %s failing for reason %d' % (w, GETH_KIND[k], e), 'h_nested', dict(kind=k, nested=3, top=top, len=0, rev=5, fees=0, hashed=0, error=e, low=20 * (k > 3))))
    for rev in range(6):
        for f in (0, 1): out.append(HS('execution in %s%s' % (('Istanbul', 'Berlin', 'London', 'Paris', 'Shanghai', 'Cancun')[rev], ' with prices' * f), 'h_nested', dict(kind=0, nested=0, top=rev & 1, len=1, rev=rev, fees=f, hashed=0, error=0, low=0)))
    for n in (0, 1, 8, 32, 33) if q else (0, 1, 7, 8, 9, 16, 24, 31, 32, 33, 40): out.append(HS('numbers of %d bytes' % n, 'h_numbers', dict(len=n)))
    return out
GO_PLANS['A02'] = plan_go(GETHH, {'h_' + x: 'geth_adapter.H_' + x for x in ('request', 'nested', 'numbers')}, a02_jobs,
    lambda tier: 'all addresses, keys, values, depths up to 1025, gas amounts below 2^62, refunds within 2^40 per execution; one nested call per execution, inputs and outputs of up to 2 bytes, numbers of up to 33 bytes',
    assumptions=['go-ethereum, absent here, is represented by a model: it journals the refund counter, runs nested contracts through the adapter, takes the price of a precompiled contract from the gas it is given, and read-only machines use static calls for plain calls'])
PLANS = {'C01': plan_lru, 'C03': plan_lru, 'C02': plan_jumpdest}
for _k in range(1, 9): PLANS['E%02d' % _k] = plan_evm(evmzero)
for _k in range(1, 10): PLANS['L%02d' % _k] = plan_evm(lfvm, COMMON_GO)
PLANS.update(GO_PLANS)
