#!/usr/bin/env python3
"""Builds and validates planted bugs (seeded/<id>/) in a scratch copy of /repo.
usage: seeds.py [ID...]   (all when empty)"""
import os,re,subprocess,sys,json,shutil,tempfile
SEEDED='/verif/seeded'
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
  GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
DEMO='''#!/bin/bash
# run in /repo: exit 0 iff the demonstration test beside this file passes
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 2
echo "{\\"Replace\\":{\\"$(pwd)/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
timeout 250 go test -vet=off -count=1 -timeout 240s -overlay "$t/overlay.json" -run '^TestZZDemo$' .
rc=$?
rm -f "$t/overlay.json"; rmdir "$t"
exit $rc
'''
SEEDS=[]
def seed(id,prop,edits,test,needs,breaks,imports=''):
    SEEDS.append((id,prop,edits,test,needs,breaks,imports))
def run(cmd,cwd,**k):
    return subprocess.run(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def stable(cwd,names):
    r=run(['go','test','-json','-vet=off','-count=1','-timeout','10m','./...'],cwd)
    ok=set()
    for l in r.stdout.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Test'])
    return ok
def base(cwd): return stable(cwd,None)
def main():
    want=sys.argv[1:]
    top=tempfile.mkdtemp(prefix='seed',dir='/tmp')
    w=top+'/repo'
    shutil.copytree('/repo',w,symlinks=True)
    run(['git','checkout','-q','--','.'],w)
    B=None
    bad=0
    for id,prop,edits,test,needs,breaks,imports in SEEDS:
        if want and id not in want and prop not in want: continue
        if B is None: B=base(w)
        d=f'{SEEDED}/{id}'; os.makedirs(d,exist_ok=True)
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        imp=''.join('\t%s"%s"\n'%('_ ' if i[0]=='_' else '',i.lstrip('_')) for i in imports.split())
        head='package value_test\n\nimport (\n\t"testing"\n\tval "github.com/codeallergy/value"\n'+imp+')\n\nvar _ = val.Null\n\n'
        open(d+'/demo_test.go','w').write(head+test.strip()+'\n')
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        msgs=[]
        r=run(['bash',d+'/demo.sh'],w)
        if r.returncode!=0: msgs.append('demo fails on the clean tree:\n'+r.stdout[-1500:])
        for f,old,new in edits:
            s=open(w+'/'+f).read()
            if s.count(old)!=1: msgs.append(f'{f}: {s.count(old)} matches of {old!r}'); continue
            open(w+'/'+f,'w').write(s.replace(old,new))
        df=run(['git','diff'],w).stdout
        open(d+'/patch.diff','w').write(df)
        # removed lines must be original ones
        cur=None; ln=0; orig=False
        for l in df.splitlines():
            m=re.match(r'--- a/(.*)',l)
            if m: cur=m.group(1); continue
            m=re.match(r'@@ -(\d+)',l)
            if m: ln=int(m.group(1)); continue
            if l.startswith('+'): continue
            if l.startswith('-'):
                b=run(['git','blame','-s','-L',f'{ln},{ln}','HEAD','--',cur],w).stdout
                if b.startswith('^') or 'fe96dda' in b[:12]: orig=True
                else: msgs.append('line not original: '+b.strip())
            ln+=1
        if not orig: msgs.append('no original line changed (pure insertion?)')
        r=run(['go','build','./...'],w)
        if r.returncode!=0: msgs.append('build: '+r.stdout[-800:])
        else:
            miss=B-stable(w,B)
            if miss: msgs.append('stable tests fail: '+' '.join(sorted(miss)[:5]))
            r=run(['bash',d+'/demo.sh'],w)
            if r.returncode==0: msgs.append('demo passes with the patch')
        # the check itself
        caught='-'
        if not os.environ.get('NOCHECK'):
            r=subprocess.run(['/verif/bin/valuecheck',prop],env=dict(ENV,VC_REPO=w,VC_OUT=top),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            caught={0:'MISSED',1:'caught'}.get(r.returncode,'error %d'%r.returncode)
            first=r.stdout.splitlines()[:1]
        print(id,prop,caught,'OK' if not msgs else 'BAD',(first[0][:160] if caught=='caught' else ''))
        for m in msgs: print('   ',m); bad=1
        run(['git','checkout','-q','--','.'],w)
    shutil.rmtree(top)
    sys.exit(bad)
