#!/usr/bin/env python3
"""Mutation of /repo's sources, to find changes that the repository's tests miss and our checks should see.
usage: mutate.py gen OUT SEED N FILES..   - writes N random mutants (unified diffs) of non-test code
       mutate.py filter DIR WORKERS       - keeps in DIR/alive the mutants that build and pass the stable tests
"""
import random,re,subprocess,sys,os,json,shutil,difflib
from concurrent.futures import ThreadPoolExecutor
R='/repo'
OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' \+ 1\b',''),(r' - 1\b',''),
 (r' \+ 1\b',' + 2'),(r' \+= ',' -= '),(r' -= ',' += '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\bif !','if '),(r'\bif (?!let|!)(.*) \{$',r'if true || \1 {'),(r'\bif (?!let|!)(.*) \{$',r'if false && \1 {'),
 (r'Ordering::Acquire','Ordering::Relaxed'),(r'Ordering::Release','Ordering::Relaxed'),(r'\b0\b','1'),(r'\b1\b','0'),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / 2',''),
 (r'cmp::max','cmp::min'),(r'Included','Excluded'),(r'Excluded','Included'),(r'write_all','write'),(r'read_exact','read'),(r'\.skip\((.*?)\)',''),(r'Ok\(_\) =>','_ =>'),(r'\bSome\((\w+)\) =>',r'Some(\1) if false =>'),
 (r'\.left\b','.right'),(r'\.right\b','.left'),(r'Ordering::Less','Ordering::Greater'),(r'break;','continue;'),(r'continue;','break;'),(r'\.clone\(\)\.max','.max'),(r'\.rev\(\)',''),(r'drop\((\w+)\);',''),(r'\?;$',';')]
def body(f):
    ls=open(os.path.join(R,f)).read().split('\n')
    n=next((i for i,l in enumerate(ls) if l.startswith('#[cfg(test)]')),len(ls))
    return ls,n
def cands(f):
    ls,n=body(f); out=[]
    for i in range(n):
        l=ls[i]; t=l.strip()
        if not t or t.startswith('//') or t.startswith('use ') or t.startswith('#') or t.startswith('fn ') or t.startswith('pub fn') or t.startswith('impl') or t.startswith('where') or t.startswith('println'): continue
        for a,b in OPS:
            for m in re.finditer(a,l):
                nl=l[:m.start()]+m.expand(b)+l[m.end():]
                if nl!=l: out.append((f,i,1,[nl]))
        if t.endswith(';') and not re.match(r'(let|return|type|pub|const|mod)\b',t) and not t.startswith('}') and not t.startswith('.') and t.count('(')==t.count(')'):
            out.append((f,i,1,[]))
            if i+1<n:
                u=ls[i+1].strip()
                if u.endswith(';') and u.count('(')==u.count(')') and not u.startswith('}') and not u.startswith('.'): out.append((f,i,2,[ls[i+1],ls[i]]))
            if t.endswith('?;'): out.append((f,i,1,[re.sub(r'^(\s*)(.*)\?;$',r'\1let _ = \2;',l)]))
    return out
def gen(out,seed,n,files):
    os.makedirs(out,exist_ok=True); r=random.Random(seed); pool=[]
    for f in files:
        c=cands(f); r.shuffle(c); pool.append(c)
    allc=[c for p in pool for c in p]; r.shuffle(allc)
    print(len(allc),'candidates'); seen=set(); k=0
    for f,i,cnt,new in allc:
        if k>=n: break
        ls,_=body(f); new2=ls[:i]+new+ls[i+cnt:]
        if tuple(new2)==tuple(ls): continue
        d='\n'.join(difflib.unified_diff(ls,new2,'a/'+f,'b/'+f,lineterm=''))+'\n'
        if d in seen: continue
        seen.add(d); open('%s/%04d.diff'%(out,k),'w').write(d); k+=1
    print(k,'written')
def worker(d,w,ids):
    base='/tmp/mut/w%d'%w
    if not os.path.exists(base):
        os.makedirs(base); subprocess.run(['cp','-a','/repo',base+'/repo'])
    for s in ('build','test'):
        open('%s/%s.sh'%(base,s),'w').write(open('/opt/vp/%s.sh'%s).read().replace('/repo',base+'/repo'))
    b=json.load(open('/opt/vp/BASELINE.json')); key=[k for k in b if isinstance(b[k],list) and len(b[k])>100][0]; want=set(b[key])
    while True:
        try: i=ids.pop(0)
        except IndexError: return
        p='%s/%s'%(d,i); res=p+'.res'
        if os.path.exists(res): continue
        subprocess.run(['git','-C',base+'/repo','checkout','-q','--','.'])
        verdict='?'
        if subprocess.run(['git','-C',base+'/repo','apply',p],capture_output=True).returncode: verdict='noapply'
        else:
            lim='ulimit -v 16000000; '
            c=subprocess.run('. /opt/vp/env.sh; cd %s/repo && timeout 200 cargo check --offline -q'%base,shell=True,executable='/bin/bash',capture_output=True)
            if c.returncode: verdict='nobuild'
            else:
                try:
                    subprocess.run('rm -f %s/out.json; %s timeout -k 5 240 bash %s/test.sh %s/out.json'%(base,lim,base,base),shell=True,executable='/bin/bash',capture_output=True,timeout=260)
                    o=json.load(open(base+'/out.json')); verdict='alive' if want<=set(o['passed']) else 'killed'
                except Exception as e: verdict='killed'
        open(res,'w').write(verdict)
def filt(d,n):
    ids=sorted(x for x in os.listdir(d) if x.endswith('.diff'))
    with ThreadPoolExecutor(n) as ex: list(ex.map(lambda w: worker(d,w,ids),range(n)))
    os.makedirs(d+'/alive',exist_ok=True)
    from collections import Counter
    c=Counter()
    for x in sorted(os.listdir(d)):
        if x.endswith('.res'):
            v=open(d+'/'+x).read(); c[v]+=1
            if v=='alive': shutil.copy(d+'/'+x[:-4],d+'/alive/')
    print(c)
if sys.argv[1]=='gen': gen(sys.argv[2],int(sys.argv[3]),int(sys.argv[4]),sys.argv[5:])
else: filt(sys.argv[2],int(sys.argv[3]))
