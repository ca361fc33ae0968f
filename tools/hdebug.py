import sys,os,time
sys.path.insert(0,'/verif/engine'); os.chdir('/verif')
import props, hcheck, tempfile, z3
from sym import *
pid, name = sys.argv[1], sys.argv[2]
w=tempfile.mkdtemp(prefix='hd'); 
cap={}
import llsym, collections
cnt=collections.Counter()
SC=[c for c in vars(llsym).values() if isinstance(c,type) and 'decide' in vars(c)][0]
od=SC.decide
def dec(self,c):
    try: return od(self,c)
    except llsym.Fork as e:
        cnt[(self.frames[-1].f.name[-50:], str(z3.simplify(c))[:150].replace(chr(10),' '))]+=1; raise
SC.decide=dec
import atexit
atexit.register(lambda: [print(n,k) for k,n in cnt.most_common(60)])

oc=hcheck.check_harness
def run(impl,h,*a,**k):
    import sym; sym.ABS=h.abs; sym.NAMES=bool(os.environ.get("NAMES"))
    st = impl.base.clone(); st.steps = 0
    st.extra['params'] = h.params(); st.extra['fixed'] = h.fixed
    st.pc = []; st.known = {}; st.model = None
    impl.eng.alloc_limit=1<<14
    t=time.time()
    for n,s in enumerate(impl.eng.explore(st,h.entry,[],deadline=time.time()+100)):
        print(n,s.outcome,s.steps,'%.1f'%(time.time()-t))
        bad=[]
        for l,c,_ in s.extra.get('checks',[]):
            if type(norm(c)) is int and norm(c): continue
            t1=time.time(); r,m=hcheck.prove(s.pc,c,3000)
            if r!='proved' or time.time()-t1>1: bad.append((l,r,'%.1f'%(time.time()-t1)))
            if r!='proved' and os.environ.get('DUMP')==l:
                S=z3.Solver(); S.add(*s.pc); S.add(z3.Not(to_bool(c))); open('/tmp/q.smt2','w').write(S.to_smt2()); os._exit(0)
            if r!='proved' and os.environ.get('SHOW')==l:
                print(z3.simplify(c)); print(m); os._exit(0)
        print('   ',bad)
        if bad and len(sys.argv)>3:
            for c in s.pc: print('     PC',str(z3.simplify(c))[:int(sys.argv[3])])
            return
hcheck.check_harness=run
import importlib
plan=props.PLANS[pid](pid,'quick',w)
for i,j in enumerate(plan.jobs):
    if j.name()==name: plan.run(i) if hasattr(plan,'run') else plan.fn(i)
import shutil
if os.environ.get("KEEP"): print(w)
else: shutil.rmtree(w)
