#!/usr/bin/env python3
"""mutate.py gen | run N [first last] : token-level mutants of /repo, run against the checks"""
import re, os, sys, json, subprocess, shutil, glob, hashlib, random, time
from concurrent.futures import ThreadPoolExecutor
REPO='/repo'; T=os.environ.get('MUT_DIR','/tmp/mt')   # scratch: mutants.json, copies of /repo, and a clone of /verif in T/verif
LIB='C02 C06 C09 C08 C04 C05 C01 C03 C10 C07 C12 C11'.split()
FIRST={ 'str_to_rdata_ubuf':'C08 C09','str_to_name':'C08 C09','rdata_to_ubuf':'C06 C08','parse_':'C02 C01','unpack_name':'C02','copy_uname':'C02 C01','len_uname':'C01 C05','skip_name':'C01','serialize_':'C05','deserialize':'C05','downcase':'C04','sort_rrset':'C04','file_load':'C12','insert_rr':'C03','compare_rr':'C03','clear':'C01','domain_to_str':'C06 C08','svcparam':'C06 C08','edns_options':'C06','message_to_str':'C06','rr_to_ubuf':'C06','rrset':'C06','print':'C07','b32':'C08 C06 C11','b64':'C08 C06','fast_inet':'C06','my_format':'C06','record_descr':'C02 C08 C04','str_to_r':'C09 C08','is_subdomain':'C11','count_labels':'C11','left_chop':'C11','reverse_name':'C11'}
MY={'libmy/my_queue_mb.c':['C14'],'libmy/my_queue_mutex.c':['C15'],'libmy/my_queue.c':['C14'],'libmy/spooldir.c':['C20'],'libmy/threadnum.c':['C21'],'libmy/zonefile.c':['C25'],'libmy/crc32c.c':['C23'],'libmy/crc32c-slicing.c':['C23'],'libmy/crc32c-sse42.c':['C23'],'libmy/varint.c':['C24'],'libmy/varint.h':['C24'],'libmy/atomic.h':['C22'],'libmy/atomic_64.h':['C22'],'libmy/atomic_ptr.h':['C22'],'libmy/my_rate.c':['C16'],'libmy/my_fileset.c':['C19'],'libmy/my_time.h':['C17','C16'],'libmy/read_bytes.h':['C18']}
RUNS={'C01':2500,'C02':3500,'C03':3500,'C04':4000,'C05':4000,'C06':2500,'C07':3000,'C08':5000,'C09':4000,'C10':2500,'C11':1500,'C12':3500,'C13':3000,'C14':6000,'C15':6000,'C16':6000,'C17':10000,'C18':10000,'C19':8000,'C20':6000,'C21':4000,'C22':5000,'C23':3000,'C24':4000,'C25':4000}
HDR=['wdns/wdns-private.h','wdns/buf.h','libmy/ubuf.h','libmy/vector.h','wdns/record_descr.h','wdns/wdns.h.in']
def files():
    o=[]
    for f in sorted(glob.glob(REPO+'/wdns/*.c')):
        b=os.path.basename(f)
        if b in('rcode_to_str.c','rrclass_to_str.c','rrtype_to_str.c') or b.startswith('test'): continue
        o.append('wdns/'+b)
    o+=['libmy/%s.c'%x for x in 'b32_decode b32_encode b64_decode b64_encode fast_inet_ntop my_format'.split()]
    o+=list(MY)
    o+=[h for h in HDR if os.path.exists(REPO+'/'+h)]
    return o
def strip(src):
    """mask comments, strings, preprocessor"""
    m=list(src)
    for x in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|^[ \t]*#(?:\\\n|[^\n])*',src,re.S|re.M):
        t=x.group(0)
        if t.lstrip().startswith('#define VECTOR_GENERATE'): continue
        for i in range(x.start(),x.end()):
            if m[i]!='\n': m[i]='\x01'
    return ''.join(m)
def gen():
    ms=[]
    for f in files():
        src=open(REPO+'/'+f).read(); mk=strip(src)
        def add(a,b,new,kind):
            if src[a:b]==new: return
            ms.append({'f':f,'a':a,'b':b,'new':new,'k':kind,'line':src.count('\n',0,a)+1,'old':src[a:b]})
        for x in re.finditer(r'(?<![<>=!+\-*/&|^%])(<=|>=|==|!=|<|>|&&|\|\||\+\+|--|\+=|-=|\+|-|<<|>>|&|\||\*|/|%|!|\?)(?![=])' ,mk):
            o=x.group(1); a,b=x.span(1); nx=mk[b:b+1]; pv=mk[a-1:a]
            if o in('<','>') and (nx in '<>=' or pv in '<>-'): continue
            R={'<':['<=','>'],'<=':['<'],'>':['>=','<'],'>=':['>'],'==':['!='],'!=':['=='],'&&':['||'],'||':['&&'],'+':['-'],'-':['+'],'+=':['-='],'-=':['+='],'<<':['>>'],'>>':['<<'],'++':['--'],'--':['++'],'!':[''],'%':['/'],'/':['*']}
            if o in('+','-') and not(pv==' ' and nx==' '): continue
            if o in('&','|') and not(pv==' ' and nx==' '): continue
            if o=='&': R['&']=['|']
            if o=='|': R['|']=['&']
            if o in('*','?'): continue
            if o=='/' and not(pv==' '): continue
            for n in R.get(o,[]): add(a,b,n,'op')
        for x in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])',mk):
            t=x.group(1); v=int(t,16) if t.startswith('0x') else int(t,8 if t.startswith('0') and len(t)>1 and t.isdigit() and all(c in '01234567' for c in t) else 10)
            n={v+1,v-1 if v else 1}
            for y in n: add(x.start(1),x.end(1),str(y) if not t.startswith('0x') else hex(max(y,0)),'const')
        for x in re.finditer(r"'(\\?.)'",src):
            if '\x01' in mk[x.start():x.end()]: continue
            if x.group(1)!='x': add(x.start(),x.end(),"'x'",'chr')
        # statements
        for x in re.finditer(r'^([ \t]+)([^\n{}]*;)[ \t]*$',mk,re.M):
            t=x.group(2).strip()
            if '\x01' in t and '(' not in t: pass
            if re.match(r'(return\b|goto\b|case\b|default\b|(const|static|unsigned|struct|size_t|uint\w+|int\w*|bool|char|wdns_\w+|void|ubuf|FILE|double|va_list|typedef|enum|extern|ssize_t|name\b|atomic_t)\b[^=(]*(=|;|\[))',t): continue
            if t.startswith('}') or t.endswith('),') : continue
            add(x.start(2),x.end(2),';','del')
        for x in re.finditer(r'\b(?:else )?if \(',mk):
            i=x.end(); d=1
            while d and i<len(mk):
                d+= (mk[i]=='(')-(mk[i]==')'); i+=1
            c=(x.end(),i-1)
            add(c[0],c[1],'0 && (%s)'%src[c[0]:c[1]],'if0'); add(c[0],c[1],'1 || (%s)'%src[c[0]:c[1]],'if1')
        for x in re.finditer(r'\b(true|false|wdns_res_success|continue|break)\b',mk):
            t=x.group(1); n={'true':'false','false':'true','wdns_res_success':'wdns_res_failure','continue':'break','break':'continue'}[t]
            add(x.start(),x.end(),n,'word')
        if f.endswith('record_descr.c'):
            for x in re.finditer(r'\brdf_\w+|class_\w+',mk):
                for n in ('rdf_name','rdf_uname','rdf_int16','rdf_int8','rdf_bytes','rdf_string','class_in','class_un'):
                    if n!=x.group(0) and n[:4]==x.group(0)[:4]: add(x.start(),x.end(),n,'descr')
    json.dump(ms,open(T+'/mutants.json','w'))
    from collections import Counter
    print(len(ms)); print(Counter(m['f'] for m in ms).most_common()); print(Counter(m['k'] for m in ms))
def checks(f):
    if f in MY: return MY[f]
    b=os.path.basename(f); first=[]
    for k,v in FIRST.items():
        if k in b: first+=[c for c in v.split() if c not in first]
    return first+[c for c in LIB if c not in first]
def worker_dir(w): return '%s/w%d'%(T,w)
def run_one(w,m,scale=1.0,only=None):
    d=worker_dir(w); p=d+'/repo/'+m['f']
    src=open(REPO+'/'+m['f']).read()
    new=src[:m['a']]+m['new']+src[m['b']:]
    open(p,'w').write(new)
    env=dict(os.environ,WDNS_REPO=d+'/repo',WDNS_BUILD=d+'/build')
    res={}; status='survived'
    try:
        for c in (only or checks(m['f'])):
            try:
                r=subprocess.run([sys.executable,T+'/verif/check.py',c,'--workers','1','--runs',str(int(RUNS[c]*scale)),'--evidence',d+'/ev.json','--replaydir',d+'/rep','--seed','7'],env=env,capture_output=True,text=True,errors='replace',timeout=300)
            except subprocess.TimeoutExpired:
                res[c]='timeout'; status='timeout'; break
            if r.returncode==1:
                mm=re.search(r'VIOLATION[^\n]*',r.stdout); cls=re.search(r'class=(\S+)',r.stdout)
                res[c]='kill'; status='killed'; m['by']=c; m['msg']=r.stdout[:300]; break
            if r.returncode==2:
                if 'ERROR: compiling' in r.stderr or 'failed:' in r.stderr and 'ERROR' in r.stderr: res[c]='nocompile'; status='nocompile'; break
                res[c]='error'; status='error'; m['msg']=(r.stdout+r.stderr)[-600:]; break
    finally:
        open(p,'w').write(src)
    m['status']=status; m['res']=res
    return m
def run(n,sel,scale,out,only=None):
    ms=json.load(open(T+'/mutants.json'))
    done=set()
    if os.path.exists(out):
        for l in open(out): x=json.loads(l); done.add((x['f'],x['a'],x['b'],x['new']))
    FR={'libmy/crc32c-slicing.c':.012,'libmy/fast_inet_ntop.c':.06,'libmy/b32_decode.c':.08,'libmy/b64_decode.c':.25,'libmy/b32_encode.c':.3,'wdns/record_descr.c':.2,'wdns/str_to_rdata_ubuf.c':.6,'wdns/rdata_to_ubuf.c':.6,'libmy/ubuf.h':.5,'libmy/vector.h':.6,'libmy/b64_encode.c':.5,'wdns/is_subdomain.c':0,'wdns/count_labels.c':0,'wdns/left_chop.c':0,'wdns/reverse_name.c':0,'wdns/wdns.h.in':0}
    hh=lambda m:(int(hashlib.md5(json.dumps([m['f'],m['a'],m['b'],m['new']]).encode()).hexdigest(),16)%1000)/1000.0
    ms=[m for m in ms if hh(m)<FR.get(m['f'],1)]
    print(len(ms))
    ms=[m for m in ms if sel(m) and (m['f'],m['a'],m['b'],m['new']) not in done]
    random.Random(5).shuffle(ms)
    hd=[m for m in ms if m['f'].endswith('.h') or m['f'].endswith('.in')]; ms=[m for m in ms if m not in hd]+hd
    import queue,threading
    q=queue.Queue(); [q.put(m) for m in ms]; lock=threading.Lock(); cnt=[0]
    def th(w):
        d=worker_dir(w)
        if not os.path.exists(d): os.makedirs(d+'/rep'); subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            try: r=run_one(w,m,scale,only)
            except Exception as e: r=dict(m,status='exc',msg=repr(e))
            with lock:
                open(out,'a').write(json.dumps(r)+'\n'); cnt[0]+=1
                for g in glob.glob(d+'/build/obj/*.o'):
                    pass
    ts=[threading.Thread(target=th,args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__=='__main__':
    if sys.argv[1]=='gen': gen()
    else:
        n=int(sys.argv[2]); pat=sys.argv[3]; out=sys.argv[4]; scale=float(sys.argv[5]) if len(sys.argv)>5 else 1.0; frac=float(sys.argv[6]) if len(sys.argv)>6 else 1.0
        rr=random.Random(1)
        run(n,lambda m: re.search(pat,m['f']) and (frac>=1 or (int(hashlib.md5(json.dumps(m,sort_keys=True).encode()).hexdigest(),16)%1000)<frac*1000),scale,out)
