#!/usr/bin/env python3
"""Systematic small changes of /repo's sources: which of those that compile and pass the 27 tests does no check notice?
Scratch copies in /tmp/mut only. Usage: mutate.py LIST | mutate.py RUN OUT.jsonl [from to]   (development only)"""
import re,os,sys,subprocess,json,random,shutil,time
FILES=['consumer','generator','array_set','mapping_list','util','binary_search','base64_vlq','base64','source_map']
OPS=[(r'==','!='),(r'!=','=='),(r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),(r'&&','||'),(r'\|\|(?! \{|\w)','&&'),
(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ (?!1\b)',' - '),(r' - (?!1\b)',' + '),(r' \+= ',' -= '),(r' -= ',' += '),
(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'is_some\(\)','is_none()'),(r'is_none\(\)','is_some()'),
(r'\b0\b','1'),(r'\b1\b','2'),(r'\b-1\b','0'),(r'Bias::GreatestLowerBound','Bias::LeastUpperBound'),(r'\.all\(','.any('),(r'\.position\(','.rposition('),
(r'\bfront\b','back'),(r'\bback\(\)','front()'),(r'pop_back','pop_front'),(r'\.last\(\)','.first()'),(r'\.skip\(','.take('),
(r'!(?=[a-z])',''),(r'original_line','original_column'),(r'\.line\b','.column'),(r'\.column\b','.line'),(r'Some\((i|index|mapping)\) =>','Some(_) if false =>'),
(r'\.filter\(.*?\)(?=;)',''),(r'\.flatten\(\)',''),(r'Ordering::Greater','Ordering::Less'),(r'Ordering::Equal','Ordering::Less'),('allow_duplicates: bool','_allow: bool')]
def body(t):
    i=t.find('#[cfg(test)]'); j=t.find('#[test]')
    k=min([x for x in (i,j,len(t)) if x>=0]); return k
def mutants():
    out=[]
    for f in FILES:
        p=f'/repo/src/{f}.rs'; t=open(p).read(); end=body(t)
        pos=0
        for ln,l in enumerate(t[:end].split('\n')):
            s=l.strip()
            if not s.startswith('//') and not s.startswith('use ') and not s.startswith('#'):
                code=l.split(' //')[0]
                for a,b in OPS:
                    for m in re.finditer(a,code):
                        if code[:m.start()].count('"')%2: continue
                        n=code[:m.start()]+b+code[m.end():]
                        if n!=code: out.append((f,ln,n))
                if s.endswith(';') and not s.startswith('let ') and not s.startswith('pub ') and not s.startswith('const') and not s.startswith('}') and not s.startswith('static'):
                    out.append((f,ln,''))
                m=re.match(r'(\s*(?:\} else )?if )(?!let)(.*) \{$',code)
                if m:
                    out.append((f,ln,m[1]+'false && ('+m[2]+') {')); out.append((f,ln,m[1]+'true || '+m[2]+' {'))
                if re.search(r'return .*;',code) and 'return ' not in code[:0]:
                    pass
    seen=set(); r=[]
    for x in out:
        if x not in seen: seen.add(x); r.append(x)
    return r
REL={'consumer':['C05','C06','C07','C08','C09','C10','C17','C03'],'generator':['C14','C15','C16','C18'],'array_set':['C19','C10','C15'],'mapping_list':['C19','C14'],
'util':['C10','C04','C15','C14','C12'],'binary_search':['C11','C02'],'base64_vlq':['C14','C16'],'base64':['C14'],'source_map':['C17','C15','C16']}
INDEXED=['C11','C12','C13','C02','C01','C09','C17']
ALL=['C%02d'%i for i in range(1,20)]
ENV=dict(os.environ,PATH='/root/.cargo/bin:'+os.environ['PATH'],RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1')
W='/tmp/mut'
def sh(c,env=ENV,timeout=300):
    try:
        p=subprocess.run(c,shell=True,env=env,capture_output=True,text=True,timeout=timeout); return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 99,'timeout'
def setup():
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W+'/repo')
    sh(f'git -C /repo archive HEAD | tar x -C {W}/repo; cp /repo/Cargo.lock {W}/repo/; cp -a /repo/target {W}/repo/')
    sh(f'''rsync -a --exclude seeded --exclude .git --exclude evidence /verif/ {W}/verif/; mkdir -p {W}/verif/evidence
    sed -i 's#path = "/repo"#path = "{W}/repo"#' {W}/verif/sim/Cargo.toml; sed -i 's#/repo/#{W}/repo/#g' {W}/verif/build.sh; sed -i 's#/repo/src#{W}/repo/src#g' {W}/verif/sim/src/*.rs''')
def run(out,a,b,step=1):
    setup(); ms=mutants()[a:b]
    random.Random(5).shuffle(ms)
    done=set()
    if os.path.exists(out):
        for l in open(out):
            d=json.loads(l); done.add((d['file'],d['line'],d['new']))
    ms=[m for m in ms if (m[0],m[1]+1,m[2].strip()) not in done]
    secs=os.environ.get('MUT_SECS','4')
    for f,ln,new in ms:
        p=f'{W}/repo/src/{f}.rs'; orig=open(f'/repo/src/{f}.rs').read(); ls=orig.split('\n'); old=ls[ln]; ls[ln]=new
        open(p,'w').write('\n'.join(ls)); t0=time.time()
        rc,o=sh(f'cd {W}/repo && timeout 60 cargo test --workspace --offline',timeout=90)
        res=None
        if rc!=0: res='build' if re.search(r'^error',o,re.M) and 'test result' not in o else 'tests'
        else:
            rel=INDEXED if f=='consumer' and ln>495 else REL[f]
            order=rel
            for id in order:
                rc,o=sh(f'{W}/verif/check.sh {id}',env=dict(os.environ,DST_SECS=secs),timeout=400)
                if rc==1: res='caught '+id; break
                if rc!=0: res='odd %s %d %s'%(id,rc,o[-300:]); break
            else: res='SURVIVED'
        open(p,'w').write(orig)
        open(out,'a').write(json.dumps(dict(file=f,line=ln+1,old=old.strip(),new=new.strip(),res=res,t=round(time.time()-t0)))+'\n')
if __name__=='__main__':
    if sys.argv[1]=='LIST':
        m=mutants(); print(len(m)); from collections import Counter; print(Counter(x[0] for x in m))
    else: run(sys.argv[2],int(sys.argv[3]) if len(sys.argv)>3 else 0,int(sys.argv[4]) if len(sys.argv)>4 else None)
