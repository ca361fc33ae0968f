"""Runner for self-checking harnesses (sym_check assertions inside the harness)."""
import os, time
import z3
from sym import *
import sym
import llrt
from llrt import run_native, model_to_file, ReplayInput
from evm_check import prove, Result, STATS

BAD = ('memerr', 'ub', 'abort', 'throw', 'stack-depth', 'trap', 'unreachable', 'race', 'deadlock')

class HScenario:
    def __init__(self, name, entry, params, fixed=None, assume=None, monitor=False, witness=True, abs=False, hints=()):
        self.nm = name; self.entry = entry; self.prm = params; self.fixed = dict(fixed or {}); self.assume = assume; self.monitor = monitor; self.witness = witness; self.abs = abs; self.hints = hints
    def name(self): return self.nm
    def params(self): return self.prm

def check_harness(impl, h, workdir, idx, tier, budget=60, validate=1, confirm=None):
    R = Result(); t0 = time.time()
    f = h.fixed
    st = impl.base.clone(); st.steps = 0
    st.extra['params'] = h.params(); st.extra['fixed'] = f
    st.pc = []; st.known = {}; st.model = None
    var = lambda n, w: f[n] if n in f else z3.BitVec(n, w)
    for a in (h.assume(var) if h.assume else []):
        if type(a) is int: continue
        st.pc.append(to_bool(a)); st.known[to_bool(a).get_id()] = (True, to_bool(a))
    impl.eng.alloc_limit = 1 << 14
    sym.ABS = h.abs; sym.NAMES = False
    import llsym
    impl.eng.lock_monitor = llsym.lock_monitor if h.monitor else None
    ended = 0
    for s in impl.eng.explore(st, h.entry, [], deadline=t0 + budget):
        R.paths += 1
        kind, msg = s.outcome
        checks = s.extra.get('checks', [])
        if kind == 'ret': ended += 1
        elif kind == 'blocked': continue
        elif kind in BAD: checks = checks + [('%s: %s' % (kind, msg), 0, len(s.pc))]
        else:
            R.notes.append('%s: %s %s' % (h.name(), kind, msg)); continue
        live = [(l, c, n) for l, c, n in checks if not (type(norm(c)) is int and norm(c))]

        STATS.asserts += len(checks) - len(live)
        bad = None
        if live:
            conj = 1
            for l, c, n in live: conj = band(conj, c)
            r, mod = prove(s.pc, conj, 8000)
            if h.abs and r != 'proved':
                r, mod, l = refine(h, s.pc, live)
                if r == 'unknown': R.notes.append('%s: undecided: %s' % (h.name(), l))
            elif r == 'unknown' and len(live) > 1:
                for l, c, n in live:
                    r, mod = prove(s.pc, c, 8000)
                    if r == 'refuted': break
                    if r == 'unknown': R.notes.append('%s: undecided: %s' % (h.name(), l))
            elif r == 'unknown': R.notes.append('%s: undecided: %s' % (h.name(), live[0][0]))
            if r == 'refuted': bad = mod
        if bad is not None:
            path = os.path.join(workdir, 'cex_%s_%d.txt' % (idx, R.paths))
            model_to_file(path, bad, h.params(), fixed=f)
            failed = confirm(h, s, path) if confirm else replay_harness(impl.exe_fn(), h, path)
            if failed: R.viol.append(dict(scenario=h.name(), replay=path, failed=failed)); break
            R.mismatch.append('%s: %s not reproduced' % (h.name(), [l for l, c, n in live]))
        elif kind == 'ret' and R.validated < validate:
            r, mod = solve(s.pc, 2000) if not h.abs else real_model(h, s.pc)
            if mod is not None:
                path = os.path.join(workdir, 'val_%s_%d.txt' % (idx, R.paths))
                model_to_file(path, mod, h.params(), fixed=f)
                n = run_native(impl.exe_fn(), h.entry, path)
                a = [l for l, _ in n.checks]; b = [l for l, c, k in checks]
                if not n.ended or a != b or not all(v for _, v in n.checks): R.mismatch.append('%s: native run of a path witness differs %s' % (h.name(), n.err[:200]))
                else:
                    R.validated += 1
                    R.samples.append('%s: %s' % (h.name(), ' '.join(l.strip()[4:60] for l in open(path) if l.startswith('var'))[:300]))
                os.unlink(path)
    if not ended and not R.viol: R.notes.append('%s: no path reached the end' % h.name())
    R.time = time.time() - t0
    sym.ABS = False
    return R

def real_model(h, conds):
    """a model in which products and quotients are what they are, with one factor chosen"""
    for k in h.hints:
        cs = conds + [z3.BitVec(n, w) == v for n, w, v in k]
        r, mod = solve(cs + abs_axioms(cs, True), 3000)
        if mod is not None: return 'sat', mod
    return 'unknown', None

def refine(h, pc, live):
    """abstract products and quotients: bring in what they are, step by step"""
    und = None
    for l, c, n in live:
        neg = z3.Not(to_bool(norm(c)))
        cs = pc + [neg]
        r, mod = solve(cs, 4000)
        if r == 'unsat': continue
        r, mod = solve(cs + abs_axioms(cs, False), 25000)
        if r == 'unsat': continue
        r, mod = real_model(h, cs)
        if r == 'sat': return 'refuted', mod, l
        und = und or l
    return ('unknown', None, und) if und else ('proved', None, None)

def replay_harness(exe, h, path):
    n = run_native(exe, h.entry, path, 20)
    if n.assume_failed: return []
    if not n.ended: return ['native run crashed: ' + next((l for l in n.err.splitlines() if 'ERROR' in l or 'ssert' in l), 'exit %d %s' % (n.rc, n.err[:80])).strip()[:200]]
    return sorted(set(l for l, c in n.checks if not c))
