#!/usr/bin/env python3
# mutate.py FILE LO HI CHECKS(comma) N SEED [runjobregex]: random small mutants of FILE lines LO..HI; reports survivors
import sys,re,random,subprocess,os,shutil
f,lo,hi,checks,N,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4].split(','),int(sys.argv[5]),int(sys.argv[6])
rx=sys.argv[7] if len(sys.argv)>7 else None
tag='%s_%d_%d'%(re.sub(r'\W','_',f),lo,seed); W='/tmp/mut/w.'+tag; V='/tmp/mut/v.'+tag
for d in (W,V): shutil.rmtree(d,ignore_errors=True)
subprocess.run('git clone -q /repo %s; mkdir %s; cd /verif; cp -a *.py *.txt engine harness build tools properties.jsonl MANIFEST.json known_findings.txt %s 2>/dev/null'%(W,V,V),shell=True)
src=open(W+'/'+f).read().split('\n'); rnd=random.Random(seed); hi=min(hi,len(src))
cand=[]
SW=[(' + ',' - '),(' - ',' + '),(' * ',' / '),(' / ',' * '),('==','!='),('!=','=='),('<=','<'),('>=','>'),(' < ',' <= '),(' > ',' >= '),('&&','||'),('||','&&'),(' and ',' or '),(' or ',' and '),('true','false'),('false','true'),('IN','OUT'),('OUT','IN'),('UP','DOWN'),('DOWN','UP'),('+=','-='),('-=','+='),('*=','/='),('/=','*='),('[0]','[1]'),('[1]','[0]'),(' 0',' 1'),(' 1',' 0'),('1.0','0.0'),('0.0','1.0'),('2','3'),('!','')]
incomment=False
for i in range(lo-1,hi):
    l=src[i]; t=l.strip()
    if t.startswith('/*'): incomment=True
    if incomment:
        if '*/' in t: incomment=False
        continue
    if not t or t.startswith(('//','#','LOG','*','using','const string')) or 'LOG_' in t: continue
    c=l.split('//')[0]
    for a,b in SW:
        for m in re.finditer(re.escape(a),c):
            if a.isalpha() and (m.start()>0 and (c[m.start()-1].isalnum() or c[m.start()-1]=='_') or m.end()<len(c) and (c[m.end()].isalnum() or c[m.end()]=='_')): continue
            if a=='!' and c[m.end():m.end()+1]=='=': continue
            if a in('<=','>=') and c[m.start()-1:m.start()] in '<>': continue
            if a=='2' and (c[m.start()-1].isalnum() or c[m.end():m.end()+1].isalnum()): continue
            if '"' in c and c[:m.start()].count('"')%2: continue
            cand.append((i,c[:m.start()]+b+c[m.end():],'%s->%s'%(a,b)))
    if t.endswith(';') and not t.startswith(('return','auto','int ','real ','double ','bool ','Complex ','vertex ','gLine ','wLine ','spin ','Site ','Momentum ','const','break','for','typedef','}','using','static')) and t!=';': cand.append((i,'    ;','delete'))
rnd.shuffle(cand); done=0; surv=[]
for i,new,what in cand:
    if done>=N: break
    s=list(src); s[i]=new; open(W+'/'+f,'w').write('\n'.join(s))
    r=subprocess.run(['g++','-std=c++11','-w','-fsyntax-only','-I'+W+'/src','-I/usr/include/python3.12','-I/usr/lib/python3/dist-packages/numpy/core/include',W+'/'+f],capture_output=True)
    if r.returncode: continue
    done+=1; killed=None; info=''
    for c in checks:
        cmd=['python3','tools/runjob.py',c,rx,'quick'] if rx else ['python3','check.py',c,'quick']
        try: r=subprocess.run(cmd,cwd=V,env=dict(os.environ,VERIF_REPO=W),capture_output=True,text=True,timeout=900)
        except subprocess.TimeoutExpired: info+=' %s:timeout'%c; continue
        if 'VIOLATION' in r.stdout: killed=c; break
        m=re.search(r'(\d+) inconclusive, (\d+) spurious',r.stdout); info+=' %s:%s'%(c,'/'.join(m.groups()) if m else r.stdout[-200:]+r.stderr[-200:])
        if m and m.group(2)!='0': info+=' '+'; '.join(x.strip()[:160] for x in r.stdout.split('\n') if 'reproduce' in x)[:400]
    print('%s %s:%d [%s] %s  ==> %s %s'%('killed' if killed else 'SURVIVED',os.path.basename(f),i+1,what,src[i].strip()[:110],killed or '',info if not killed else ''),flush=True)
for d in (W,V): shutil.rmtree(d,ignore_errors=True)
