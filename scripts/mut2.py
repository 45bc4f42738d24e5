import re,os,sys,subprocess,json,random,shutil
from concurrent.futures import ThreadPoolExecutor
import threading, queue
SRC='/repo/src'
files=['lib.rs','attributes.rs','bytecode.rs','constant_pool.rs','descriptors.rs','names.rs']
muts=[]
for f in files:
    t=open(f'{SRC}/{f}').read()
    cut=t.find('#[cfg(test)]\nmod tests'); 
    if cut<0: cut=len(t)
    def sub(a,b):
        for m in re.finditer(a,t[:cut]):
            line=t[t.rfind('\n',0,m.start())+1:t.find('\n',m.end())]
            if line.strip().startswith(('//','#','use ')): continue
            muts.append((f,m.start(),m.end(),m.expand(b)))
    # values cut short, and steps left out for large or late ones
    for k in ('0x7fff','0xff','0xfff'): sub(r'\bread_u2\(([^()]*)\)\?',r'(read_u2(\1)? & '+k+')')
    for k in ('0x7fffffff','0xffffff','0xffff'): sub(r'\bread_u4\(([^()]*)\)\?',r'(read_u4(\1)? & '+k+')')
    sub(r'\bread_u1\(([^()]*)\)\?',r'(read_u1(\1)? & 0x7f)')
    for k in ('u8','u16','i16','i32'): sub(r' as usize\b',f' as {k} as usize')
    for k in ('i8','i16','u16'): sub(r' as i32\b',f' as {k} as i32')
    sub(r' as i64\b',' as i32 as i64'); sub(r' as u32\b',' as u16 as u32'); sub(r' as u16\b',' as u8 as u16')
    for k in (16,256,0x8000): sub(r'for _ in 0\.\.(\w+) \{',r'for _k in 0..\1 { if _k as usize >= '+str(k)+' { continue; }')
    sub(r'for _ in 0\.\.(\w+) \{',r'for _ in 0..\1.min(255) {'); sub(r'for _ in 0\.\.(\w+) \{',r'for _ in (0..\1).rev().skip(1).rev().take(300) {')
    sub(r'fail!\(',r'if bytes.len() % 2 == 1 { fail!("x") } else if false { fail!("y") } ; fail!(') if 0 else None
    sub(r'\.chars\(\)',r'.bytes().map(char::from)'); sub(r'\.chars\(\)',r'.trim_end().chars()'); sub(r'\.chars\(\)',r'.trim_start().chars()')
    sub(r'wrapping_add|checked_add','saturating_add')
    sub(r'"(<?\w+>?)" =>',r'x if x.eq_ignore_ascii_case("\1") =>'); sub(r'"(\w+)" =>',r'x if x.starts_with("\1") =>'); sub(r'"(\w+)" =>',r'x if x.trim() == "\1" =>')
    sub(r'== "(<\w+>)"',r'.trim() == "\1"')
random.seed(int(sys.argv[1])); random.shuffle(muts)
print("all",len(muts)); N=int(sys.argv[2]); muts=muts[:N]
print(len(muts))
q=queue.Queue()
for m in muts:q.put(m)
res=[]; lock=threading.Lock()
def work(k):
    r=f'/tmp/w/mr{k}'; h=f'/tmp/w/mh{k}'
    shutil.rmtree(r,ignore_errors=True); shutil.rmtree(h,ignore_errors=True)
    os.makedirs(r); shutil.copytree('/repo/src',r+'/src'); shutil.copy('/repo/Cargo.toml',r); shutil.copy('/repo/Cargo.lock',r); os.makedirs(r+'/examples'); 
    ct=open(r+'/Cargo.toml').read(); ct=ct[:ct.find('[[example]]')]; open(r+'/Cargo.toml','w').write(ct)
    os.makedirs(h); shutil.copytree('/verif/harness/src',h+'/src'); shutil.copy('/verif/harness/Cargo.lock',h); shutil.copytree('/verif/harness/seeds',h+'/seeds')
    c=open('/verif/harness/Cargo.toml').read().replace('"/repo"',f'"{r}"').replace('../reference','/verif/reference').replace('opt-level = 2','opt-level = 2\ncodegen-units=16')
    open(h+'/Cargo.toml','w').write(c)
    while True:
        try: f,s,e,b=q.get_nowait()
        except queue.Empty: return
        t=open(f'{SRC}/{f}').read()
        open(f'{r}/src/{f}','w').write((t[:s]+b+t[e:]).replace('#![deny(warnings)]',''))
        p=subprocess.run(['cargo','build','--release','--offline','-j2'],cwd=h,capture_output=True,text=True)
        ln=t.count('\n',0,s)+1
        tag=f"{f}:{ln}: {t[t.rfind(chr(10),0,s)+1:t.find(chr(10),e)].strip()[:90]}  [{t[s:e]} -> {b}]"
        if p.returncode: out='nobuild'
        else:
            p=subprocess.run(['./target/release/witness','search',sys.argv[3],'7','1','/tmp/w/dict','seeds',f'/tmp/w/mo{k}','100000000'],cwd=h,capture_output=True,text=True)
            sig=[json.loads(l)['what'][:100] for l in p.stdout.splitlines() if l.startswith('{') and '"end"' not in l]
            out='KILLED '+sig[0] if sig else 'SURVIVED'
        open(f'{r}/src/{f}','w').write(t)
        with lock:
            res.append((out,tag))
            if out=='SURVIVED': print(out,tag,flush=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(8)]
[t.start() for t in ts];[t.join() for t in ts]
import collections
print(collections.Counter(o.split()[0] for o,_ in res))
json.dump(res,open('/tmp/w/mutres.json','w'))
