# usage: t.sh harness entry [sx opts]
cd /verif/build; H=$1; E=$2; shift 2
F="-std=c++17 -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -DNDEBUG -D_GLIBCXX_EXTERN_TEMPLATE=0 -w -emit-llvm -c -I/verif/rt -isystem /verif/rt/shadow -isystem /verif/rt/hf -include cassert -I/repo/lib/tetgen -I/repo/src"
[ rt.bc -nt ../rt/rt.cpp ] || clang++-18 $F -fno-builtin -D__NO_CTYPE ../rt/rt.cpp -o rt.bc || exit 1
if [ ! -f $H.bc ] || [ ../harness/$H.cpp -nt $H.bc ] || [ -n "$FORCE" ]; then clang++-18 $F ../harness/$H.cpp -o $H.bc || exit 1; llvm-link-18 $H.bc rt.bc $LINK -o ${H}_l.bc || exit 1; fi
rm -f o.$H.$E; time ./sx ${H}_l.bc vp_main_$E --out o.$H.$E "$@"; python3 - o.$H.$E <<'P'
import sys,json
agg={}
for l in open(sys.argv[1]):
    d=json.loads(l)
    if d['type']=='violation':
        print('VIOL',d['kind'],d['msg'],d['loc'],d['fn'][:80],[(i['n'],i['v']) for i in d['inputs']][:40],d['trace'],d['stack'][:8])
    elif d['type']=='stats':
        for k,v in d.items():
            if isinstance(v,(int,float)): agg[k]=agg.get(k,0)+v
            elif isinstance(v,list): agg.setdefault(k,set()).update(v)
            elif isinstance(v,dict):
                for a,b in v.items(): agg.setdefault(k,{})[a]=agg.setdefault(k,{}).get(a,0)+b
    else: print('FINAL',d)
f=agg.pop('funcs',[]); print(agg,'nfuncs',len(f)); print([x for x in sorted(f) if '6brille' in x][:0])
P
