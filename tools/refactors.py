#!/usr/bin/env python3
"""Behaviour-preserving edits: every check has to stay quiet on them.
usage: refactors.py [-c ID,ID..] [name-substring...]"""
import os,subprocess,sys,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
from seedlib import ENV,run,base,stable
RS=[]
def refactor(name,edits): RS.append((name,edits))
exec(open(os.path.dirname(os.path.abspath(__file__))+'/refactorlist.py').read())
def main():
    a=sys.argv[1:]; ids=None; notest=False
    if a and a[0]=='-c': ids=a[1].split(','); a=a[2:]
    if ids is None: ids=subprocess.run(['/verif/bin/valuecheck','-list'],stdout=subprocess.PIPE,text=True).stdout.split()
    top=tempfile.mkdtemp(prefix='refac',dir='/tmp'); binary=top+'/valuecheck'; shutil.copy('/verif/bin/valuecheck',binary)
    bad=0
    def work(x):
        name,edits=x
        w=f'{top}/{name}'
        shutil.copytree('/repo',w,symlinks=True)
        run(['git','checkout','-q','--','.'],w)
        msgs=[]; und=[]
        for f,old,new,*many in edits:
            s=open(w+'/'+f).read()
            if s.count(old)<1 if many else s.count(old)!=1: msgs.append(f'{f}: {s.count(old)} matches of {old[:60]!r}'); continue
            open(w+'/'+f,'w').write(s.replace(old,new))
        r=run(['go','build','./...'],w)
        if r.returncode: msgs.append('build: '+r.stdout[-600:])
        elif not os.environ.get('NOTEST'):
            r=run(['go','test','-vet=off','-count=1','./...'],w)
            if r.returncode: msgs.append('tests: '+r.stdout[-600:])
        for i in ids:
            try:
                r=subprocess.run([binary,i],env=dict(ENV,VC_REPO=w,VC_OUT=w+'/out'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900)
            except subprocess.TimeoutExpired:
                msgs.append(f'{i}: TIMEOUT'); continue
            if r.returncode!=0: msgs.append(f'{i}: '+' // '.join(l[:260] for l in r.stdout.splitlines() if 'VIOLATION' not in l)[:700])
            elif 'UNDECIDED' in r.stdout: und.append(f'{i}: undecided: '+' // '.join(l[:160] for l in r.stdout.splitlines() if l.startswith('UNDECIDED'))[:340])
        shutil.rmtree(w)
        return name,msgs,und
    rs=[x for x in RS if not a or any(s in x[0] for s in a)]
    with ThreadPoolExecutor(6) as ex:
        for name,msgs,und in ex.map(work,rs):
            print(name,'quiet' if not msgs else 'ALARM')
            if os.environ.get('SHOWU'):
                for m in und: print('   ',m)
            for m in msgs: print('   ',m); bad=1
    shutil.rmtree(top)
    sys.exit(bad)
main()
