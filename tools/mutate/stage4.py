import subprocess,os,sys,concurrent.futures as cf,threading
from fnmap import fn,M
scale,outf=sys.argv[1:3]
only=set(tuple(l.split()[:2]) for l in open(sys.argv[3])) if len(sys.argv)>3 else None
al={l.split()[0] for l in open('s2') if 'alive' in l}
ITER={'next','next_back','size_hint','len','is_empty','next_elem','next_back_elem','next_kid','next_back_kid','needs_lf_des','needs_rt_des','destruct','opt_to_iter_node','make_into_node_iter','iter','iter_mut','into_iter','into_keys','into_values','for_each','for_each_mut'}
RNG={'range','range_mut','cmp_bd','find_range_edges','make_worklist','make_mut_worklist'}
BULK={'join','join2','join_lf','join_rt','merge','intersect','diff','sym_diff','union','split','append','new_join','new_union','new_diff','new_sym_diff','new_intersect','split_off'}
ALG={'is_subset','is_superset','is_disjoint','has_all','difference','intersection','symmetric_difference','union','new_diff','new_intersection','new_union','new_sym_diff','bitand','bitor','bitxor','sub'}
CMP={'eq','cmp','partial_cmp','hash'}
SER={'serialize','check_half','make_half','make_whole','stitch'}
def checks(m):
    f=m[2]; n,imp=fn(f,int(m[3])); imp=imp or ''; r=[]
    if 'core' in f or 'fixed' in f: return ['C11','C10'] if False else []
    if 'stack' in f: return ['C14'] if n not in CMP else ['C13']
    if n in CMP: return ['C13']
    st='set' in f
    if st:
        if n in ALG: r.append('C05')
        elif n in('append','split_off'): r+=['C03','C06']
        else: r.append('C03')
        return r
    if 'lib' in f: return ['C05'] if int(m[3])<330 else ['C12']
    if n in SER: return ['C12']
    if 'Range' in imp or n in RNG: return ['C08']
    if n in ITER and 'Index' not in imp: r.append('C07')
    elif n in BULK: r.append('C06')
    elif n in ('set_left','set_right','bal','is_bal','height','opt_new','rot_lf','rot_rt','rot_rt_lf','rot_lf_rt','rebal_lf_to_rt','rebal_rt_to_lf','rebal','merge_kids','ins','rm','rm_leftmost','rm_rightmost','rm_and_rebal','insert','split'):
        r+=['C09', 'C01' if 'avl' in f else 'C02','C04','C18']
    else: r.append('C01' if 'avl' in f else 'C02')
    return r
tl=threading.local(); n=[0]; lk=threading.Lock()
out=open(outf,'a')
def run(t):
    m,c=t
    if not hasattr(tl,'d'):
        with lk: n[0]+=1; tl.d=f'/tmp/mut/ve{n[0]}'
    os.makedirs(tl.d,exist_ok=True)
    exe=f"/tmp/mut/ht-{'C12' if c=='C12' else 'all'}/debug/lcc-check"
    try: r=subprocess.run([exe,'check',c,'--seed','1','--tier','quick','--scale',scale,'--threads','1','--probe','0'],env=dict(os.environ,MUT=m[0],VERIF_DIR=tl.d),stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=120).returncode
    except subprocess.TimeoutExpired: r='to'
    return m[0],c,r
T=[(m,c) for m in M if m[0] not in al for c in checks(m) if only is None or (m[0],c) in only]
print(len(T))
with cf.ThreadPoolExecutor(8) as ex:
    for f in cf.as_completed([ex.submit(run,t) for t in T]):
        i,c,r=f.result(); out.write(f'{i} {c} {r}\n'); out.flush()
