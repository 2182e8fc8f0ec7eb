#!/usr/bin/env python3
import re, os, sys, json, subprocess, shutil, random, glob, gzip
from concurrent.futures import ThreadPoolExecutor
SRC="/tmp/rc/include/lalib"      # a clean copy of /repo
VW="/tmp/vw"      # a copy of /verif; line coverage comes from tools/cov.sh (mutate.py SEED FRACTION JOBS HARNESSES [FILES])
PRIM={'ops/vec_ops.hpp':['C03','C02','C04','C01'],'ops/vec_ops_core.hpp':['C02','C04','C01'],'ops/mat_ops.hpp':['C06'],
 'ops/mat_vec_ops.hpp':['C07'],'ops/mat_vec_ops_core.hpp':['C07','C14'],'ops/mat_mat_ops.hpp':['C09','C08'],'ops/mat_mat_ops_core.hpp':['C08','C09'],
 'ops/sp_mat_ops.hpp':['C14','C13'],'ops/orthogonal.hpp':['C20'],'ops/ops_traits.hpp':['C05','C12'],'mat/sp_mat.hpp':['C12','C13','C14'],
 'mat/dyn_mat.hpp':['C10','C11','C05'],'mat/sized_mat.hpp':['C10','C05'],'vec/sized_vec.hpp':['C05','C04'],'vec/dyn_vec.hpp':['C05'],
 'solver/gmres.hpp':['C19'],'solver/ilu.hpp':['C18'],'solver/tri_diag.hpp':['C15'],'solver/cholesky_factorization.hpp':['C16','C17'],
 'solver/internal/tdma.hpp':['C15'],'solver/internal/cholesky_decomposition.hpp':['C16','C17'],'solver/lapack/gtsv.hpp':['C15'],'solver/lapack/potr.hpp':['C16'],
 'err/error.hpp':['C03'],'mat.hpp':['C05'],'vec.hpp':['C05'],'type_traits.hpp':['C07']}
def cov():
    """file -> line -> {(backend,prop)}"""
    c='/tmp/cov/cov.json'
    if os.path.exists(c):
        return {f:{int(l):[tuple(x) for x in v] for l,v in d.items()} for f,d in json.load(open(c)).items()}
    res={}
    for b in 'IBL':
        for p in range(1,24):
            d=f'/tmp/cov/{b}/C{p:02d}'
            if not os.path.exists(d+'/done'): continue
            r=subprocess.run('gcov --json-format --stdout h-C%02d.gcda'%p,shell=True,cwd=d,capture_output=True)
            for doc in r.stdout.split(b'\n'):
                if not doc.strip(): continue
                j=json.loads(doc)
                for f in j['files']:
                    n=f['file']
                    if '/include/lalib/' not in n: continue
                    n=n.split('/include/lalib/')[1]
                    for ln in f['lines']:
                        e=res.setdefault(n,{}).setdefault(ln['line_number'],set())
                        if ln['count']>0: e.add((b,f'C{p:02d}'))
    json.dump({f:{l:sorted(v) for l,v in d.items()} for f,d in res.items()},open(c,'w'))
    return res
SUB=[(r'(?<![+\-*/<>=!&|])\s\+\s(?!=)',' - '),(r'(?<![+\-*/<>=!&|,(])\s-\s(?![>=])',' + '),(r'(?<=[\w\])])\s\*\s(?=[\w(])',' + '),(r'\s/\s',' * '),
 (r'\s<\s',' <= '),(r'\s<=\s',' < '),(r'\s>\s',' >= '),(r'\s>=\s',' > '),(r'==','!='),(r'!=','=='),(r'\+=','-='),(r'\+=','='),(r'-=','+='),(r'-=','='),(r'\*=','/='),(r'\*=','='),(r'/=','*='),
 (r'&&','||'),(r'\|\|','&&'),(r'\+ 1\b','+ 0'),(r'\+ 1\b','+ 2'),(r'- 1\b','- 0'),(r'- 1\b','- 2'),(r'\b0u?\b','1'),(r'(?<!\+ )(?<!- )\b1\b','2'),(r'(?<!\+ )(?<!- )\b1\b','0'),(r'\b2\b','1'),(r'\b2\b','3'),
 (r'\.first\b','.second'),(r'\.second\b','.first'),(r'\bi\b','j'),(r'\bj\b','i'),(r'\bk\b','i'),(r'\bn\b','m'),(r'\bm\b','n'),(r'\bl\b','m'),(r"'L'","'U'"),(r"'U'","'L'"),(r'NoTrans','Trans'),(r'\balpha\b','beta'),(r'\bbeta\b','alpha'),
 (r'\bOne<','Zero<'),(r'\bZero<','One<'),(r'std::abs\(','('),(r'std::sqrt\(','('),(r'\bcontinue;',';'),(r'\bbreak;',';'),(r'\+\+(?=\w)',''),(r'\bv1\b','v2'),(r'\bv2\b','v1'),(r'\bva\b','vb'),(r'\bx\b','y'),(r'\by\b','x'),(r'\bmat1\b','mat2'),(r'\bma\b','mb'),(r'\bsize_t\b','unsigned char'),(r'\bT\b','float'),(r'std::min\b','std::max'),(r'std::max\b','std::min'),(r'row','col'),
 (r'std::stable_sort','std::sort'),(r'lower_bound','upper_bound'),(r'Rowajor','ColMajor'),(r'RowMajor','ColMajor'),(r'\bcontiguous','')]
def strip(l): return re.sub(r'//.*','',l)
def mutants():
    c=cov(); out=[]
    for f,lines in sorted(c.items()):
        src=open(f'{SRC}/{f}').read().split('\n')
        # lines belonging to a statement: gcov marks only first line; map following lines to the nearest executed line above
        last=None; inc=False
        for no,l in enumerate(src,1):
            if '/*' in l: inc=True
            s=strip(l)
            cm=inc
            if '*/' in l: inc=False
            if no in lines and lines[no]: last=no
            elif no in lines and not lines[no]: last=None
            if cm or not s.strip() or s.strip().startswith(('#','template','using','static_assert','assert','namespace')) or (last is None and 'return' not in s): continue
            if re.match(r'\s*(inline|constexpr|static)?.*\)\s*(const)?\s*(noexcept)?\s*->.*[{;]?\s*$',s) and 'return' not in s and '[' not in s: continue
            if re.match(r'^\s*(inline|auto \w+|constexpr|static).*\(',s) and s.rstrip().endswith(('noexcept','{',')')) and not re.search(r'\b(for|if|while)\b',s): continue
            seen=set()
            for pat,rep in SUB:
                for m in re.finditer(pat,s):
                    n=s[:m.start()]+rep+s[m.end():]
                    if n!=s and n not in seen:
                        seen.add(n); out.append((f,no,last,l,n))
            if s.rstrip().endswith(';') and re.search(r'(=|\(|\+\+|--)',s) and not re.match(r'\s*(auto|const|T|size_t|return|using|static|std::\w+<.*> \w+)\b',s) :
                out.append((f,no,last,l,re.sub(r'\S.*',';',s,count=1)))
            m=re.match(r'(\s*)(\}?\s*(?:else )?if)\s*(constexpr )?\((.*)\)(.*)$',s)
            if m and not m.group(3):
                for v in ('true','false'): out.append((f,no,last,l,f'{m.group(1)}{m.group(2)} ({v}){m.group(5)}'))
    return c,out
FLAGS={'I':(['-DLALIB_INTERNAL_BACKEND'],[]),'B':(['-DLALIB_BLAS_BACKEND'],['-lopenblas']),'L':(['-DLALIB_BLAS_BACKEND','-DLALIB_LAPACK_BACKEND'],['-llapacke','-lopenblas'])}
ENV=dict(os.environ,OMP_NUM_THREADS='2',OMP_WAIT_POLICY='passive',OPENBLAS_NUM_THREADS='1',MALLOC_PERTURB_='128')
def one(k,mu,c,maxh,scale,secs):
    f,no,last,old,new=mu
    w=f'/tmp/mut/w/{k}'; shutil.rmtree(w,ignore_errors=True)
    shutil.copytree('/tmp/rc/include',w+'/include')
    p=f'{w}/include/lalib/{f}'; src=open(p).read().split('\n'); assert src[no-1]==old; src[no-1]=new; open(p,'w').write('\n'.join(src))
    hs=[tuple(x) for x in c[f].get(last,[])] or [('I',p) for p in PRIM.get(f,['C05'])]
    prim=PRIM.get(f,[])
    order=sorted(set(hs),key=lambda h:(h[1] not in prim, prim.index(h[1]) if h[1] in prim else 0, h[1]=='C21', 'IBL'.index(h[0]), h[1]))
    # one backend per property, unless the line is only in that backend
    pick=[];seenp=set()
    for h in order:
        if h[1] in seenp: continue
        seenp.add(h[1]); pick.append(h)
    res='survived'; tried=[]
    for b,pr in pick[:maxh]:
        d,l=FLAGS[b]
        r=subprocess.run(['g++','-std=gnu++20','-O1','-D_GLIBCXX_ASSERTIONS','-fopenmp',f'-I{w}/include',*d,f'{VW}/props/{pr}.cpp','-o',w+'/h',*l],capture_output=True,text=True,env=ENV)
        if r.returncode: res='nocompile'; break
        try:
            r=subprocess.run([w+'/h','run','--variant','x','--seed','5','--scale',str(scale),'--shard','0','--shards','1','--seconds',str(secs),'--out',w+'/o'],capture_output=True,text=True,env=ENV,timeout=secs*3+60)
            tried.append(f'{b}{pr}')
            if r.returncode: res=f'killed {b}{pr} {r.returncode}'; break
        except subprocess.TimeoutExpired: res=f'timeout {b}{pr}'; break
    shutil.rmtree(w,ignore_errors=True)
    return dict(file=f,line=no,old=old,new=new,res=res,tried=tried)
if __name__=='__main__':
    c,ms=mutants()
    if sys.argv[1]=='list':
        from collections import Counter
        print(len(ms),Counter(m[0] for m in ms)); 
        for m in ms[::max(1,len(ms)//40)]: print(m)
        sys.exit()
    frac=float(sys.argv[2]); jobs=int(sys.argv[3]); maxh=int(sys.argv[4]); files=sys.argv[5:] 
    rnd=random.Random(int(sys.argv[1])); 
    if files: ms=[m for m in ms if any(x in m[0] for x in files)]
    done=set()
    outp='/tmp/mut/res.jsonl'
    if os.path.exists(outp):
        for l in open(outp):
            d=json.loads(l); done.add((d['file'],d['line'],d['new']))
    ms=[m for m in ms if rnd.random()<frac and (m[0],m[1],m[4]) not in done]
    print(len(ms),'mutants')
    with ThreadPoolExecutor(jobs) as ex, open(outp,'a') as o:
        for i,r in enumerate(ex.map(lambda km: one(km[0],km[1],c,maxh,2,20),enumerate(ms))):
            o.write(json.dumps(r)+'\n'); o.flush()
            if r['res']=='survived': print(r['file'],r['line'],r['tried'],'\n   ',r['old'].strip(),'\n   ',r['new'].strip(),flush=True)
