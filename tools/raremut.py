"""Development tool (no check uses it): answers changed only under a rare condition.

tools/raretrace.txt, appended to lunar_python/__init__.py of a scratch copy (/tmp/rare/r), records for every public method and about 60 rare
conditions (leap month's last day, term day before the term, 23:00 on the last day of a year, October 1582, ...) which checks ask the method under
the condition (RARE=Cxx names the check, the log goes to /tmp/rare/log). This script then takes N such pairs, changes the method's answer only
under the condition, and runs the checks that asked.   raremut.py N SEED JOBS
"""
import glob,collections,random,subprocess,os,shutil,sys,json
COST={'C01':11,'C02':20,'C03':8,'C04':15,'C05':10,'C06':80,'C07':15,'C08':20,'C09':15,'C10':30,'C11':20,'C12':25,'C13':20,'C14':20,'C15':48,'C16':30,'C17':30,'C18':15,'C20':15,'C23':20,'C24':16,'C26':2,'C27':20,'C30':53,'C28':95}
P=collections.defaultdict(lambda: collections.defaultdict(set))
for f in glob.glob('/tmp/rare/log/*'):
    c=f.split('/')[-1].split('.')[0]
    for l in open(f):
        k=l.rstrip('\n').split(' ',1)
        if len(k)==2 and not k[1].startswith('any'): P[k[0]][k[1]].add(c)
src=open('/tmp/rare/r/lunar_python/__init__.py').read()
helper=src[src.index('\ndef _rare_install'):]
helper=helper.replace('_rare_install','_rare_mut')
a=helper.index('    def wrap(c, n, f):'); b=helper.index('    from . import eightchar')
NEW='''    def pert(r):
        if isinstance(r, bool): return not r
        if isinstance(r, int): return r + 1
        if isinstance(r, float): return r + 1.0
        if isinstance(r, str): return r + "?" if not r else r[:-1] + "?"
        if isinstance(r, list): return r[:-1] if r else ["?"]
        if isinstance(r, dict): return dict(list(r.items())[:-1])
        if r is None: return r
        if hasattr(r, "next"):
            try:
                return r.next(1)
            except Exception:
                return None
        return None
    M, T = %r, %r

    def wrap(c, n, f):
        if c + "." + n != M:
            return f

        def w(self, *a, **k):
            r = f(self, *a, **k)
            if T in trig(self, c):
                return pert(r)
            return r
        w.__name__ = n
        return w
'''
rnd=random.Random(int(sys.argv[2]))
pairs=[(m,t) for m in sorted(P) for t in sorted(P[m]) if not m.endswith('__str__')]
# per trigger equal weight
byt=collections.defaultdict(list)
for m,t in pairs: byt[t].append(m)
N=int(sys.argv[1])
todo=[]
ts=sorted(byt)
while len(todo)<N:
    t=rnd.choice(ts); m=rnd.choice(byt[t])
    if (m,t) not in todo: todo.append((m,t))
base=subprocess.check_output(['git','-C','/repo','show','HEAD:lunar_python/__init__.py'],text=True)
r='/tmp/rare/m%s'%sys.argv[2]
shutil.rmtree(r,ignore_errors=True)
subprocess.check_call(['git','clone','-q','/repo',r])
for m,t in todo:
    body=helper[:a]+NEW%(m,t)+helper[b:]
    open(r+'/lunar_python/__init__.py','w').write(base+body)
    cs=sorted(P[m][t],key=lambda c:COST.get(c,50))
    # the checks likely to judge it: all executing ones, cheapest first
    ok=None; tried=[]
    for c in cs:
        w='/tmp/rare/w%s'%sys.argv[2]; shutil.rmtree(w,ignore_errors=True); os.makedirs(w+'/evidence')
        subprocess.check_call('cp -a /verif/mc /verif/run.py /verif/data /verif/known_findings.json /verif/tools '+w,shell=True)
        x=subprocess.run(['nice','-n','15','timeout','900',sys.executable,'run.py',c],cwd=w,env=dict(os.environ,VERIF_REPO=r,VERIF_JOBS=sys.argv[3]),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        tried.append((c,x.returncode))
        if x.returncode==1: ok=c;break
    print('CAUGHT' if ok else 'MISSED',m,t,tried,flush=True)
