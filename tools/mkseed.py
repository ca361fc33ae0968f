#!/usr/bin/env python3
"""mkseed.py LIST.py [ids]: writes /verif/seeded/<id> and confirms each change in a scratch copy of /repo."""
import sys, os, subprocess, shutil, json, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def main():
    d = runpy.run_path(sys.argv[1]); seeds = d['SEEDS']; want = sys.argv[2:]
    scratch = '/tmp/seedrepo'
    shutil.rmtree(scratch, ignore_errors=True); subprocess.run(['cp', '-a', '/repo', scratch], check=True)
    sh('git', 'checkout', '-q', '--', '.', cwd=scratch)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for sid, s in seeds.items():
        if want and sid not in want: continue
        out = os.path.join(V, 'seeded', sid); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        for f, old, new in edits:
            p = os.path.join(scratch, f); t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(out, 'patch.diff'), 'w').write(sh('git', 'diff', cwd=scratch).stdout)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        demo = s['demo']
        for n, t in demo.items():
            if not n.startswith('_'):
                os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
                open(os.path.join(out, n), 'w').write(t)
        for st in demo.get('_stubs', []): shutil.copytree(os.path.join(V, 'stubs/cpp', st), os.path.join(out, 'stubs', st))
        for src, dst in demo.get('_copy', []):
            src = os.path.join(V, src)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(out, dst))
        if demo.get('_evmrun'):
            for f in ('evmrun.cc', 'build_evmrun.sh'): shutil.copy(os.path.join(V, 'tools/seedlib', f), out)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        d1 = sh('bash', os.path.join(out, 'demo.sh'), cwd=scratch, timeout=300)
        sh('git', 'checkout', '-q', '--', '.', cwd=scratch)
        d0 = sh('bash', os.path.join(out, 'demo.sh'), cwd=scratch, timeout=300)
        ok = d0.returncode == 0 and d1.returncode not in (0, 3)
        print(sid, 'demo base rc', d0.returncode, 'patched rc', d1.returncode, 'OK' if ok else 'BAD\n' + d0.stdout[-800:] + d0.stderr[-1500:] + '\n--patched\n' + d1.stdout[-800:] + d1.stderr[-800:], flush=True)
    shutil.rmtree(scratch, ignore_errors=True)
main()
