import re,os,sys,subprocess,json,random,shutil
from concurrent.futures import ThreadPoolExecutor
import threading, queue
SRC='/repo/src'
files=['lib.rs','attributes.rs','bytecode.rs','constant_pool.rs','descriptors.rs','names.rs']
muts=[]
for f in files:
    t=open(f'{SRC}/{f}').read()
    cut=t.find('#[cfg(test)]\nmod tests'); 
    if cut<0: cut=len(t)
    depth=0
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d+)(?![\w.])',t[:cut]):
        line=t[t.rfind('\n',0,m.start())+1:t.find('\n',m.end())]
        if line.strip().startswith('//') or 'edition' in line: continue
        v=int(m.group(1).replace('_',''),0)
        muts.append((f,m.start(),m.end(),str(v+1)))
        if v>0 and v>1: muts.append((f,m.start(),m.end(),str(v-1)))
    subs=[(r'<=','<'),(r'>=','>'),(r'(?<=\s)<(?=\s)','<='),(r'(?<=\s)>(?=\s)','>='),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r'(?<=[\s(])!(?=[a-z])',''),(r' \+ ',' - '),(r' - ',' + '),(r'\bread_u2\b','read_u1'),(r'\bread_u4\b','read_u2'),(r'_opt\(','('),(r'as i16\b','as i8'),(r'as i32\b','as i16 as i32'),(r' \+= ',' -= '),(r'true','false'),(r'false','true'),(r'\bSome\(\'',None)]
    for a,b in subs:
        if b is None: continue
        for m in re.finditer(a,t[:cut]):
            line=t[t.rfind('\n',0,m.start())+1:t.find('\n',m.end())]
            if line.strip().startswith(('//','#','use ')) or 'fn ' in line and '->' in line and a not in('==',): continue
            muts.append((f,m.start(),m.end(),b))
random.seed(int(sys.argv[1])); random.shuffle(muts)
N=int(sys.argv[2]); muts=muts[:N]
print(len(muts))
q=queue.Queue()
for m in muts:q.put(m)
res=[]; lock=threading.Lock()
def work(k):
    r=f'/tmp/w/mr{k}'; h=f'/tmp/w/mh{k}'
    shutil.rmtree(r,ignore_errors=True); shutil.rmtree(h,ignore_errors=True)
    os.makedirs(r); shutil.copytree('/repo/src',r+'/src'); shutil.copy('/repo/Cargo.toml',r); shutil.copy('/repo/Cargo.lock',r); os.makedirs(r+'/examples'); 
    ct=open(r+'/Cargo.toml').read(); ct=ct[:ct.find('[[example]]')]; open(r+'/Cargo.toml','w').write(ct)
    os.makedirs(h); shutil.copytree('/verif/harness/src',h+'/src'); shutil.copy('/verif/harness/Cargo.lock',h); shutil.copytree('/verif/harness/seeds',h+'/seeds')
    c=open('/verif/harness/Cargo.toml').read().replace('"/repo"',f'"{r}"').replace('../reference','/verif/reference').replace('opt-level = 2','opt-level = 2\ncodegen-units=16')
    open(h+'/Cargo.toml','w').write(c)
    while True:
        try: f,s,e,b=q.get_nowait()
        except queue.Empty: return
        t=open(f'{SRC}/{f}').read()
        open(f'{r}/src/{f}','w').write((t[:s]+b+t[e:]).replace('#![deny(warnings)]',''))
        p=subprocess.run(['cargo','build','--release','--offline','-j2'],cwd=h,capture_output=True,text=True)
        ln=t.count('\n',0,s)+1
        tag=f"{f}:{ln}: {t[t.rfind(chr(10),0,s)+1:t.find(chr(10),e)].strip()[:90]}  [{t[s:e]} -> {b}]"
        if p.returncode: out='nobuild'
        else:
            p=subprocess.run(['./target/release/witness','search',sys.argv[3],'7','1','/tmp/w/dict','seeds',f'/tmp/w/mo{k}','100000000'],cwd=h,capture_output=True,text=True)
            sig=[json.loads(l)['what'][:100] for l in p.stdout.splitlines() if l.startswith('{') and '"end"' not in l]
            out='KILLED '+sig[0] if sig else 'SURVIVED'
        open(f'{r}/src/{f}','w').write(t)
        with lock:
            res.append((out,tag))
            if out=='SURVIVED': print(out,tag,flush=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(8)]
[t.start() for t in ts];[t.join() for t in ts]
import collections
print(collections.Counter(o.split()[0] for o,_ in res))
json.dump(res,open('/tmp/w/mutres.json','w'))
