import subprocess,os,sys,concurrent.futures as cf,threading,shutil
scale=sys.argv[1]; ids=sys.argv[2]; outf=sys.argv[3]; th=sys.argv[4] if len(sys.argv)>4 else '1'
W=8 if th=='1' else 1
M=[l.rstrip('\n').split('\t') for l in open('crate/src/mutants.tsv')]
want=set(open(ids).read().split()) if ids!='all' else None
M=[m for m in M if want is None or m[0] in want]
done={l.split()[0] for l in open(outf)} if os.path.exists(outf) else set()
O={'avl':['C01','C03','C05','C06','C07','C08','C18','C12','C13','C09','C19','C10','C11','C04','C17','C20'],
'btree':['C02','C03','C05','C06','C07','C08','C18','C12','C13','C09','C19','C10','C11','C04','C17','C20'],
'core':['C16','C11','C17','C07','C13','C19','C04','C10','C20','C18'],
'stack':['C14','C13','C07','C11','C04','C19','C10','C17','C15'],
'lib':['C12','C05','C01','C02','C03','C06','C07','C08','C18','C13','C09','C10']}
def order(f):
    if 'stack' in f: return O['stack']
    if 'core' in f or 'fixed' in f: return O['core']
    if 'lib' in f: return O['lib']
    return O['avl'] if 'avl' in f else O['btree']
tl=threading.local(); n=[0]
out=open(outf,'a'); lk=threading.Lock()
def run(m):
    if not hasattr(tl,'d'):
        with lk: n[0]+=1; tl.d=f'/tmp/mut/vd{n[0]}'
    os.makedirs(tl.d,exist_ok=True)
    inc=[]
    for c in order(m[2]):
        exe=f"/tmp/mut/ht-{'C12' if c=='C12' else 'all'}/debug/lcc-check"
        try:
            r=subprocess.run([exe,'check',c,'--seed',os.environ.get('SEED','1'),'--tier','quick','--scale',scale,'--threads',th,'--probe','0'],env=dict(os.environ,MUT=m[0],VERIF_DIR=tl.d),stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,timeout=int(os.environ.get('TO','60')),text=True)
        except subprocess.TimeoutExpired:
            return m[0],'killed-timeout:'+c
        if r.returncode==1:
            why=[l.strip() for l in r.stdout.splitlines() if 'FAIL' in l]
            return m[0],'killed:'+c+' '+(why[0][:80] if why else '')
        if r.returncode: inc.append(f'{c}:{r.returncode}')
    return m[0],'alive '+','.join(inc)
with cf.ThreadPoolExecutor(W) as ex:
    for f in cf.as_completed([ex.submit(run,m) for m in M if m[0] not in done]):
        i,r=f.result(); out.write(f'{i} {r}\n'); out.flush()
