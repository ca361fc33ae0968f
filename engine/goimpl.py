"""Builds Go code under test (from /repo's working tree) for the LLVM engine and natively."""
import os, json, subprocess, sys, time, shutil
from llrt import *
import llrt
from llsym import PathEnd, Unsupported
from evm_check import Impl
REPO = os.environ.get('TOSCA_REPO', '/repo')
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
GST = os.path.join(V, 'stubs', 'go'); HGO = os.path.join(V, 'harness', 'go')
MOD = 'github.com/Fantom-foundation/Tosca'
STUBMODS = {'golang.org/x/exp': 'xexp', 'verif': 'verif', 'github.com/holiman/uint256': 'uint256', 'go.uber.org/mock': 'gomock', 'golang.org/x/crypto': 'xcrypto', 'github.com/hashicorp/golang-lru/v2': 'golang-lru',
            'pgregory.net/rand': 'rand', 'github.com/ethereum/go-ethereum': 'geth', 'github.com/ethereum/evmc/v11': 'evmc', 'github.com/dsnet/golib/unitconv': 'unitconv'}
def goenv(work):
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GONOSUMDB='*', GONOSUMCHECK='1', GOFLAGS_='', CGO_ENABLED='0')
    e.setdefault('HOME', '/root')
    return e

class GoBuild:
    """overlay: {path below the repo: file under harness/go}; entries: {entry name: 'pkgpath.Func'}"""
    def __init__(self, work, overlay, entries, fmt=False, summ=False):
        self.work = work; self.entries = entries; self.fmt = fmt; self.summ = summ
        self.env = goenv(work); self.proc = None; self.exe = None
        m = ['module ' + MOD, '', 'go 1.22.0', '', 'require (']
        reps = []
        for mod, d in STUBMODS.items():
            if not os.path.exists(os.path.join(GST, d, 'go.mod')): continue
            v = 'v11.0.0' if mod.endswith('v11') else 'v2.0.0' if mod.endswith('/v2') else 'v1.0.0'
            m.append('\t%s %s' % (mod, v)); reps.append('replace %s => %s' % (mod, os.path.join(GST, d)))
        m += [')', ''] + reps
        self.modfile = os.path.join(work, 'go.mod')
        open(self.modfile, 'w').write('\n'.join(m) + '\n')
        rep = {os.path.join(REPO, k): os.path.join(HGO, v) for k, v in overlay.items()}
        # files of the encoded packages that use cgo for constants only
        for d in set(os.path.dirname(k) for k in overlay):
            d = os.path.join(REPO, d)
            for f in sorted(os.listdir(d) if os.path.isdir(d) else ()):
                if not f.endswith('.go') or f.endswith('_test.go') or os.path.join(d, f) in rep: continue
                t = open(os.path.join(d, f)).read()
                if '\nimport "C"\n' in t:
                    g = os.path.join(work, 'nocgo_' + f); open(g, 'w').write(t.replace('\nimport "C"\n', '\n\n'))
                    rep[os.path.join(d, f)] = g
        # native driver
        pk = {}
        for n, q in entries.items(): pk.setdefault(q.rsplit('.', 1)[0], []).append((n, q.rsplit('.', 1)[1]))
        al = {p: 'p%d' % i for i, p in enumerate(sorted(pk))}
        src = 'package main\n\nimport (\n\t"verif/sym"\n' + ''.join('\t%s "%s"\n' % (al[p], p) for p in sorted(pk)) + ')\n\nfunc main() {\n\tsym.Main(map[string]func(){\n'
        for p in sorted(pk):
            for n, f in pk[p]: src += '\t\t"%s": %s.%s,\n' % (n, al[p], f)
        src += '\t})\n}\n'
        mainf = os.path.join(work, 'main.go'); open(mainf, 'w').write(src)
        rep[os.path.join(REPO, 'go/zzverif/main.go')] = mainf
        self.overlay = os.path.join(work, 'overlay.json')
        json.dump({'Replace': rep}, open(self.overlay, 'w'))
    def native_start(self):
        self.exe_path = os.path.join(self.work, 'goreplay')
        self.proc = subprocess.Popen(['go', 'build', '-modfile=' + self.modfile, '-overlay=' + self.overlay, '-tags=math_big_pure_go,purego', '-o', self.exe_path, './go/zzverif'],
                                     cwd=REPO, env=self.env, stderr=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    def native(self):
        if self.exe: return self.exe
        if self.proc is None: self.native_start()
        out = self.proc.communicate()
        if self.proc.returncode: raise BuildError((out[0] + out[1])[-4000:])
        self.exe = self.exe_path
        return self.exe
    def race_build(self, entry, q):
        """a build with the race detector that runs the threads of one harness function"""
        w = self.work; exe = os.path.join(w, 'gorace')
        if os.path.exists(exe): return exe
        f = os.path.join(w, 'race_main.go')
        open(f, 'w').write('package main\n\nimport (\n\t"verif/sym"\n\tp "%s"\n)\n\nfunc main() { sym.Main(map[string]func(){"%s": p.%s}) }\n' % (q.rsplit('.', 1)[0], entry, q.rsplit('.', 1)[1]))
        ov = json.load(open(self.overlay)); ov['Replace'][os.path.join(REPO, 'go/zzverif/main.go')] = f
        o2 = os.path.join(w, 'overlay_race.json'); json.dump(ov, open(o2, 'w'))
        env = dict(self.env, CGO_ENABLED='1', CC='gcc')
        r = subprocess.run(['go', 'build', '-race', '-modfile=' + self.modfile, '-overlay=' + o2, '-tags=math_big_pure_go,purego', '-o', exe, './go/zzverif'], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode: raise BuildError('race build: ' + r.stderr[-2000:])
        return exe
    def ir(self):
        w = self.work
        tool = os.path.join(w, 'go2ll')
        run = lambda a, **k: self._run(a, **k)
        rt = subprocess.Popen([llrt.CLANG.replace('++', ''), '-c', '-emit-llvm', '-O1', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-delete-null-pointer-checks', '-fno-strict-aliasing', '-fno-stack-protector',
                               '-o', os.path.join(w, 'go_rt.bc'), os.path.join(GST, 'crt/go_rt.c')])
        run(['go', 'build', '-o', tool, '.'], cwd=os.path.join(V, 'tools/go2ll'))
        ll = os.path.join(w, 'go.ll'); self.funcs = os.path.join(w, 'funcs.txt')
        run([tool, '-dir', REPO, '-modfile', self.modfile, '-overlay', self.overlay, '-tags', 'math_big_pure_go,purego', '-entries', ','.join('%s=%s' % kv for kv in self.entries.items()),
             '-o', ll, '-funcs', self.funcs] + (['-fmt'] if self.fmt else []) + (['-summ'] if self.summ else []) + ['verif/rt'] + sorted(set(q.rsplit('.', 1)[0] for q in self.entries.values())), cwd=REPO)
        if rt.wait(): raise BuildError('go_rt.c')
        lk = os.path.join(w, 'linked.bc'); out = os.path.join(w, 'all.ll')
        run(['/usr/bin/llvm-link-18', '-o', lk, ll, os.path.join(w, 'go_rt.bc'), os.path.join(GST, 'crt/bswap.ll')])
        run([llrt.CLANG.replace('++', ''), '-x', 'ir', '-O1', '-S', '-emit-llvm', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-o', out, lk])
        return open(out).read()
    def _run(self, a, cwd=None):
        r = subprocess.run(a, cwd=cwd or self.work, env=self.env, capture_output=True, text=True)
        if r.returncode: raise BuildError(' '.join(a)[:300] + '\n' + (r.stdout + r.stderr)[-4000:])

def go_ext(eng):
    E = make_ext(eng)
    def gpanic(st, a, w): raise PathEnd('abort', 'panic: ' + safe(st, a[0]))
    def safe(st, p):
        try: return st.cstr(st.topt(p))[:200]
        except Exception: return '?'
    def gext(st, a, w):
        if st.extra.get('go_init'): return 0
        raise Unsupported('external function ' + safe(st, a[0]))
    E['go_panic_ext'] = gpanic; E['go_extern_ext'] = gext
    return E

def go_impl(work, overlay, entries, fmt=False, summ=False):
    b = GoBuild(work, overlay, entries, fmt, summ)
    b.native_start()
    e = Engine(b.ir()); e.ext.update(go_ext(e))
    st = e.new_state(); st.extra['params'] = {}; st.extra['go_init'] = 1
    done = set()
    for n in entries:
        p = entries[n].rsplit('.', 1)[0]
        if p in done: continue
        done.add(p); r = e.run_one(st, 'init_' + n, [])
        if r[0] != 'ret': raise BuildError('package initialisation of %s ended with %s in %s' % (p, r, e.last_frames[-4:]))
    st.extra['go_init'] = 0
    b.native()
    im = Impl(e, st, b.native)
    im.build = b; im.summ = summ
    return im
