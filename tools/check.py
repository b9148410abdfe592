#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.

usage: check.py <property> [--only harness-substring] [-j procs]

Every harness of the property (tools/plan.py) is compiled together with the
headers of /repo's working tree to LLVM IR and executed by build/irsym.  A
counterexample counts only when the same input makes the natively compiled
code (g++) fail too.  Exit status: 0 held on everything explored, 1 violated,
2 nothing could be explored.
"""
import sys, os, json, subprocess, time, threading, glob, shutil, re, hashlib
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
sys.path.insert(0,os.path.join(HERE,'tools'))
import plan
os.environ.pop('LD_LIBRARY_PATH',None)
TIER=os.environ.get('VERIF_TIER','quick')
if TIER not in ('quick','thorough'): TIER='quick'
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
CLANG='/usr/bin/clang++-18'; LINK='/usr/bin/llvm-link-18'
IRFLAGS='-std=c++20 -O2 -DNDEBUG -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w'.split()
UBFLAGS='-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,bounds,null -fsanitize-trap=all'.split()
NATFLAGS='-std=c++20 -w'.split()
SAN='-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment'.split()
def sh(cmd,timeout=None,**k):
    try: return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,text=True,errors='replace',**k)
    except subprocess.TimeoutExpired as e:
        class R: returncode=-99; stdout=(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or '')
        return R
class Slots:
    def __init__(s,n): s.n=n; s.c=threading.Condition()
    def get(s,k):
        with s.c:
            while s.n<k: s.c.wait()
            s.n-=k
    def put(s,k):
        with s.c: s.n+=k; s.c.notify_all()
def build_ir(run,d,log):
    src=os.path.join(HERE,'harness',run.harness+'.cpp'); inc=['-I'+os.path.join(REPO,'include'),'-I'+os.path.join(HERE,'rt'),'-I'+os.path.join(HERE,'harness')]
    base=os.path.join(d,run.name)
    fl=IRFLAGS+(UBFLAGS if run.ub else [])+run.flags
    r=sh([CLANG]+fl+inc+['-c','-emit-llvm',src,'-o',base+'.h.bc'],timeout=600)
    if r.returncode: log.append(r.stdout[-3000:]); return None
    bcs=[base+'.h.bc']
    r=sh([CLANG]+IRFLAGS+['-c','-emit-llvm',os.path.join(HERE,'rt','stubs.cpp'),'-o',base+'.s.bc'],timeout=600)
    if r.returncode: log.append(r.stdout[-3000:]); return None
    r=sh([LINK]+bcs+[base+'.s.bc','-o',base+'.bc'],timeout=600)
    if r.returncode: log.append(r.stdout[-3000:]); return None
    return base+'.bc'
def build_native(run,d,san,log):
    out=os.path.join(d,run.name+('.san' if san else '.nat'))
    if os.path.exists(out): return out
    src=os.path.join(HERE,'harness',run.harness+'.cpp'); inc=['-I'+os.path.join(REPO,'include'),'-I'+os.path.join(HERE,'rt'),'-I'+os.path.join(HERE,'harness')]
    cxx=['g++'] if not run.clang_native else [CLANG]
    r=sh(cxx+NATFLAGS+(SAN if san else ['-O2','-DNDEBUG'])+run.flags+inc+[src,os.path.join(HERE,'rt','replay.cpp'),os.path.join(HERE,'rt','stubs.cpp'),'-o',out],timeout=600)
    if r.returncode: log.append('native build failed: '+r.stdout[-2000:]); return None
    return out
def replay(exe,f,timeout=60):
    r=sh([exe,f],timeout=timeout,env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0',UBSAN_OPTIONS='print_stacktrace=0'))
    o=r.stdout
    if r.returncode==-99: return 'fail','no answer after %d s (non-termination)'%timeout
    m=re.search(r'CHECK-FAILED (\S+)',o)
    if m: return 'fail','check '+m.group(1)+' failed'
    if 'REPLAY-ASSUME' in o or 'REPLAY-RANGE' in o: return 'spurious','input outside the assumed range'
    m=re.search(r'(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*)',o)
    if m: return 'fail',m.group(1)
    if r.returncode==0 and 'REPLAY-PASS' in o: return 'pass',''
    return 'fail','terminated with status %d: %s'%(r.returncode,o[-200:].strip().replace('\n',' | '))
def known(prop):
    out=[]
    p=os.path.join(HERE,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'finding: property=(\S+) key=(\S+) (.*)',l.strip())
            if m and m.group(1)==prop: out.append((m.group(2),m.group(3)))
    return out
def main():
    prop=sys.argv[1]; only=None; J=8
    a=sys.argv[2:]
    while a:
        if a[0]=='--only': only=a[1]; a=a[2:]
        elif a[0]=='-j': J=int(a[1]); a=a[2:]
        else: a=a[1:]
    t0=time.time()
    if not os.path.exists(os.path.join(HERE,'build','irsym')):
        r=sh(['bash',os.path.join(HERE,'setup.sh')])
        if r.returncode: print(r.stdout); sys.exit(2)
    runs=[r for r in plan.PLAN[prop] if (TIER=='thorough' or not r.thorough_only) and (only is None or only in r.name)]
    d=os.path.join(HERE,'build','run-'+prop); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    vd=os.path.join(HERE,'build','violations',prop); shutil.rmtree(vd,ignore_errors=True); os.makedirs(vd)
    slots=Slots(J); results={}; lock=threading.Lock()
    def go(run):
        res=dict(name=run.name,harness=run.harness,bounds=run.bounds,log=[]); results[run.name]=res
        try:
            slots.get(1)
            try: bc=build_ir(run,d,res['log'])
            finally: slots.put(1)
            if not bc: res['status']='not-encoded'; return
            p=min(run.procs,J); slots.get(p)
            try:
                tm=run.thorough if TIER=='thorough' else run.quick
                base=os.path.join(d,run.name)
                r=sh([os.path.join(HERE,'build','irsym'),bc,'--out',base,'--procs',str(p),'--time',str(tm),'--samples',str(run.samples),'--seed',str(SEED),'--rss',str(int(26000/J))]+run.engine,timeout=tm*3+120)
            finally: slots.put(p)
            res['irsym']=r.stdout[-1500:]
            try: res['stats']=json.load(open(base+'.json')); res['status']='ok'
            except Exception: res['status']='engine-failed'; return
            viol=sorted(glob.glob(base+'.viol*.txt')); samp=sorted(glob.glob(base+'.path*.txt'))
            res['viol']=[]; res['validated']=0; res['mismatch']=[]
            if viol or samp:
                slots.get(1)
                try:
                    if samp:
                        nat=build_native(run,d,False,res['log'])
                        if nat:
                            rr=sh([nat]+samp,timeout=120)
                            res['validated']=rr.stdout.count('REPLAY-PASS')
                            if res['validated']<len(samp): 
                                for s in samp:
                                    st,why=replay(nat,s)
                                    if st!='pass': res['mismatch'].append((s,why))
                            res['samples']=[dict(l.strip().split(' ',1) for l in open(s) if not l.startswith('#') and ' ' in l.strip()) for s in samp[:2]]
                    cand=[(v,open(v).read().split('\n')) for v in viol]
                    for s,why in res['mismatch']: cand.append((s,['# native '+why]))
                    for v,head in cand:
                        kind=head[0][2:]; st,why='spurious','native build failed'
                        hung='non-termination' in ' '.join(head[:3])
                        for san in ((True,False) if run.san else (False,)):
                            exe=build_native(run,d,san,res['log'])
                            if not exe: continue
                            st,why=replay(exe,v,timeout=20 if hung else 60)
                            if st=='fail': break
                        res['viol'].append(dict(file=v,what='; '.join(h[2:] for h in head[:2] if h.startswith('# ')),native=st,why=why,key=keyof(run,why,v)))
                finally: slots.put(1)
        except Exception as e:
            res['status']='error'; res['log'].append(repr(e))
    def keyof(run,why,v):
        m=re.match(r'check (\S+) failed',why)
        return (run.name+':'+(m.group(1) if m else re.sub(r'[^A-Za-z]+','-',why)[:40])).replace(' ','-')
    ths=[threading.Thread(target=go,args=(r,)) for r in sorted(runs,key=lambda r:-r.procs)]
    for t in ths: t.start()
    for t in ths: t.join()
    # ------------------------------------------------------------ report
    nviol=0; kn=known(prop); seen=set()
    cov=dict(states=0,transitions=0,traces_validated_against_impl=0,samples=[],exhaustive=True,runs=[],functions_encoded={})
    tot=lambda k:sum(r.get('stats',{}).get(k,0) for r in results.values())
    for run in runs:
        r=results[run.name]; s=r.get('stats')
        e=dict(run=run.name,harness=run.harness+'.cpp',flags=' '.join(run.flags),bounds=run.bounds,status=r.get('status','error'))
        if s:
            ids=s.get('ids',{})
            e.update(paths=s['paths'],pruned_by_assumption=s['killed'],forks=s['forks'],queries=s['queries'],sat=s['sat'],unsat=s['unsat'],unknown=s['unknown'],unsat_by_cached_core=s.get('core_hits',0),solver_s=round(s['solver_s'],2),wall_s=round(s['wall_s'],2),assertions_checked=s['checks'],assertions_symbolic=s['checks_symbolic'],paths_left_unexplored=s['leftover'],engine_limited_paths=s['engine_limit_paths'],z3_crosschecks=s['z3_crosschecks'],z3_disagreements=s['z3_disagreements'],complete_within_bounds=s['exhaustive'],assertions={k[6:]:v for k,v in ids.items() if k.startswith('check:')},reached={k[6:]:v[0] for k,v in ids.items() if k.startswith('reach:')},blocks_covered='%d/%d'%(s['blocks_covered'],s['blocks_total']),native_replays=r.get('validated',0))
            miss=[x for x in run.reach if 'reach:'+x not in ids]
            if miss: e['vacuity_warning']='not reached: '+', '.join(miss)
            for f in s['functions']: cov['functions_encoded'][f['name']]=cov['functions_encoded'].get(f['name'],0)+f['covered']
            cov['states']+=s['paths']+s['killed']+s['error_paths']; cov['transitions']+=s['instructions']; cov['traces_validated_against_impl']+=r.get('validated',0)
            if r.get('samples'): cov['samples'].append(dict(run=run.name,input=r['samples'][0]))
            if not s['exhaustive']: cov['exhaustive']=False
        else: cov['exhaustive']=False; e['log']=' '.join(r['log'])[-800:]
        sp=[v for v in r.get('viol',[]) if v['native']!='fail']
        if sp: e['not_reproduced']=[v['what']+' ('+v['why']+')' for v in sp][:5]
        cov['runs'].append(e)
        line='%-28s %-12s'%(run.name,e['status'])
        if s: line+=' paths=%d checks=%d queries=%d solver=%.1fs wall=%.1fs replays=%d %s'%(s['paths'],s['checks'],s['queries'],s['solver_s'],s['wall_s'],r.get('validated',0),'complete' if s['exhaustive'] else 'INCOMPLETE(left %d, limited %d, unknown %d)'%(s['leftover'],s['engine_limit_paths'],s['unknown']))
        if s and e.get('vacuity_warning'): line+=' '+e['vacuity_warning']
        print(line)
        if not s: print('   ',(' '.join(r['log']) or r.get('irsym',''))[-1200:])
        for x in sp: print('    not reproduced natively:',x['what'],x['why'])
        for v in r.get('viol',[]):
            if v['native']!='fail': continue
            k=[x for x in kn if x[0]==v['key']]
            if k:
                if k[0][0] not in seen: seen.add(k[0][0]); print('KNOWN-FINDING: property=%s %s'%(prop,k[0][1]))
                continue
            dst=os.path.join(vd,run.name+'-'+os.path.basename(v['file'])); shutil.copy(v['file'],dst)
            with open(dst,'a') as f: f.write('# property %s harness %s flags %s\n# natively: %s\n'%(prop,run.harness,' '.join(run.flags),v['why']))
            nviol+=1
            print('  %s: %s -> natively: %s'%(run.name,v['what'],v['why']))
            print('VIOLATION property=%s replay=%s'%(prop,os.path.relpath(dst,HERE)))
    ok=any(r.get('stats') for r in results.values())
    cov.update(queries_discharged=tot('queries'),unsat=tot('unsat'),sat=tot('sat'),unknown=tot('unknown'),solver_s=round(tot('solver_s'),2),assertions_checked=tot('checks'),functions_encoded=[dict(name=k,blocks=v) for k,v in sorted(cov['functions_encoded'].items())][:400],spurious=sum(len(e.get('not_reproduced',[])) for e in cov['runs']),
      method='symbolic execution of the LLVM IR of the real code (build/irsym), each branch and assertion decided by a SAT/SMT solver over all values within the bounds; states = execution paths, transitions = IR instructions executed')
    ev=dict(property=prop,tier=TIER,seed=SEED,level='model_checking',coverage=cov,assumptions=plan.ASSUME.get(prop,[])+plan.COMMON,wall_s=round(time.time()-t0,2),violations=nviol)
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    with open(os.path.join(HERE,'evidence',prop+'.json'),'w') as f: json.dump(ev,f,indent=1)
    shutil.rmtree(d,ignore_errors=True) if not os.environ.get('VERIF_KEEP') else None
    print('%s: %d paths, %d queries, %.1fs, %s'%(prop,cov['states'],cov['queries_discharged'],time.time()-t0,'VIOLATED' if nviol else 'held on everything explored' if ok else 'NOTHING EXPLORED'))
    sys.exit(1 if nviol else 0 if ok else 2)
main()
