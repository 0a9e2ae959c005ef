import json,subprocess,sys,os
os.chdir('/tmp/mut')
feat=['--features','serde']
def units():
    u={}
    for l in open('crate/src/units.tsv'):
        a,f,s,e=l.rstrip('\n').split('\t'); u.setdefault(f,[]).append((int(s),int(e),int(a)))
    return u
skip=set(open('skip').read().split())
for it in range(60):
    print(it, subprocess.run(['tool/release/mutate','src0','crate/src','skip'],capture_output=True,text=True).stdout.strip(), flush=True)
    r=subprocess.run(['nice','cargo','check','--offline','-q','--message-format=json']+feat,cwd='crate',capture_output=True,text=True,env=dict(os.environ,CARGO_TARGET_DIR='/tmp/mut/chk',RUSTFLAGS='-Awarnings'))
    u=units(); new=set(); nerr=0; unk=[]
    for l in r.stdout.splitlines():
        m=json.loads(l)
        if m.get('reason')!='compiler-message' or m['message']['level']!='error': continue
        nerr+=1
        def spans(m):
            for s in m.get('spans',[]):
                yield s
                x=s.get('expansion')
                while x:
                    yield x['span']; x=x['span'].get('expansion')
            for c in m.get('children',[]):
                yield from spans(c)
        hit=None
        for s in sorted(spans(m['message']),key=lambda s:not s['is_primary']):
            f=s['file_name'].replace('src/','',1); b,e=s['byte_start'],s['byte_end']
            c=[x for x in u.get(f,[]) if x[0]<=b and e<=x[1]]
            if c:
                hit=min(c,key=lambda x:x[1]-x[0])[2]; break
        if hit is None:
            for s in spans(m['message']):
                f=s['file_name'].replace('src/','',1); b,e=s['byte_start'],s['byte_end']
                c=[x for x in u.get(f,[]) if x[2]<1000000 and x[0]<e and b<x[1]]
                if c and len(c)<4: hit=c[0][2]; break
        if hit is None: unk.append(m['message']['message'][:100]+str([(s['file_name'],s['line_start']) for s in m['message']['spans']]))
        else: new.add(str(hit))
    print('errors',nerr,'new skips',len(new),'unknown',len(unk),unk,flush=True)
    if nerr==0: break
    if not new:
        print(r.stderr[-800:]); break
    skip|=new
    open('skip','w').write('\n'.join(sorted(skip)))
