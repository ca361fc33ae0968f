#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree."""
import sys, os, time, json, shutil, tempfile, re, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.setrecursionlimit(20000)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hard = float(os.environ.get('VERIF_BUDGET', 420 if tier == 'quick' else 3000))
    work = tempfile.mkdtemp(prefix='tosca_%s_' % pid)
    try: rc = run(pid, tier, seed, t0, hard, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def known_findings(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]

def run(pid, tier, seed, t0, hard, work):
    import props
    from evm_check import run_jobs
    plan = props.PLANS[pid](pid, tier, work)
    tb = time.time() - t0
    only = os.environ.get('VERIF_ONLY')
    if only:
        sel = [i for i, j in enumerate(plan.jobs) if re.search(only, j.name())]
        run1 = plan.run; plan_run = lambda i: run1(sel[i]); njobs = len(sel); nameof = lambda i: plan.jobs[sel[i]].name()
    else: plan_run = plan.run; njobs = len(plan.jobs); nameof = lambda i: plan.jobs[i].name()
    viol, notes, mism, samples, funcs = [], [], [], [], set()
    tot = [0, 0.0, 0, 0, 0, 0, 0, 0]
    paths = validated = done = errors = 0
    known = known_findings(pid); seen_known = {}
    fresh = []
    run_jobs.enough = lambda: len(fresh) >= 1
    slow = []
    for i, r, s in run_jobs(plan_run, njobs, nproc=int(os.environ.get('VERIF_CPUS', os.cpu_count() or 8)), deadline=t0 + hard):
        for k in range(8): tot[k] += s[k]
        funcs.update(s[8])
        done += 1
        if type(r) is tuple: errors += 1; notes.append('%s: internal error %s' % (nameof(i), r[1])); continue
        paths += r.paths; validated += r.validated; samples += r.samples[:1]; notes += r.notes; mism += r.mismatch
        slow.append((r.time, nameof(i)))
        for v in r.viol:
            k = next((k for k in known if re.search(k['scenario'], v['scenario']) and all(re.search(k['failed'], x) for x in v['failed'])), None)
            if k: seen_known.setdefault(k['id'], (k, v)); continue
            fresh.append(v)
    for kid, (k, v) in seen_known.items(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    out = os.path.join(V, 'evidence', 'replay_%s' % pid)
    shutil.rmtree(out, ignore_errors=True)
    for n, v in enumerate(fresh):
        os.makedirs(out, exist_ok=True)
        dst = os.path.join(out, 'cex%d.txt' % n)
        if os.path.exists(v['replay']): shutil.copy(v['replay'], dst)
        with open(dst, 'a') as f: f.write('# scenario %s\n# violated: %s\n' % (v['scenario'], '; '.join(v['failed'])))
        print('  counterexample: %s: %s' % (v['scenario'], '; '.join(v['failed'])[:300]))
        if n == 0: viol.append(dst)
    wall = time.time() - t0
    skipped = njobs - done
    decided = tot[3] - tot[4]
    cov = dict(states=paths, transitions=tot[7], traces_validated_against_impl=validated, samples=samples[:6],
               scenarios=njobs, scenarios_completed=done, assertions_checked=tot[3], assertions_undecided=tot[4], solver_queries=tot[0], solver_queries_unknown=tot[2],
               solver_time_s=round(tot[1], 1), forks=tot[6], build_s=round(tb, 1), bounds=plan.bounds, functions_encoded=len(funcs), functions=sorted(funcs)[:400],
               undecided=notes[:60], encoding_mismatches=mism[:20], skipped_scenarios=skipped,
               slowest=['%.1fs %s' % x for x in sorted(slow, reverse=True)[:5]],
               rule='states = symbolic end states (path conditions) explored, transitions = instructions of the code under test executed symbolically, traces = path witnesses re-run on the natively compiled code')
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=plan.assumptions, wall_s=round(wall, 1), violations=len(fresh))
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d paths, %d assertions (%d undecided), %d queries, %.1fs solver, %d witnesses replayed, %d notes, %d mismatches, %.1fs' %
          (pid, tier, done, paths, tot[3], tot[4], tot[0], tot[1], validated, len(notes), len(mism), wall))
    for n in notes[:8]: print('  note:', n[:300])
    for n in mism[:8]: print('  encoding mismatch:', n[:300])
    if skipped: print('  %d scenarios skipped (time budget)' % skipped)
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, viol[0]))
        return 1
    if not paths:
        print('nothing was decided'); return 2
    return 0

if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); sys.stdout.flush(); sys.stderr.flush(); os._exit(2)
