# all.sh harness [time] : run every entry of a harness, one summary line + violations. env LINK ONLY SXO W N
H=$1; [ -z "$LINK" ] && case $H in geometry|bz*|interp*|hdf*|tri*|trellis*|mesh*) LINK="bc/debug.bc bc/process_id.bc bc/comparisons.bc bc/symmetry.bc bc/pointsymmetry.bc bc/pointgroup.bc bc/spg_database.bc bc/bravais.bc bc/hdf_interface.bc bc/hall_symbol.bc bc/polyhedron_faces.bc bc/approx_config.bc"; case $H in tri*|trellis*|mesh*|interp*|hdf*) LINK="$LINK bc/tetgen.bc bc/predicates.bc";; esac; case $H in bz*|interp*|hdf*) LINK="$LINK bc/bz.bc bc/bz_move.bc bc/bz_wedge.bc bc/neighbours.bc";; esac;; esac
 T=${2:-60}; cd /verif/build
F="-fno-pic -std=c++17 -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -DNDEBUG -D_GLIBCXX_EXTERN_TEMPLATE=0 -w -emit-llvm -c -I/verif/rt -isystem /verif/rt/shadow -isystem /verif/rt/hf -include cassert -I${REPO:-/repo}/lib/tetgen -I${REPO:-/repo}/src"
[ rt.bc -nt ../rt/rt.cpp ] || clang++-18 $F -fno-builtin -D__NO_CTYPE ../rt/rt.cpp -o rt.bc || exit 1
clang++-18 $F ../harness/$H.cpp -o $H.bc 2>err.$H || { grep -E "error|note: in inst" err.$H | head -${N:-12}; exit 1; }
llvm-link-18 $H.bc rt.bc $LINK -o ${H}_l.bc || exit 1
for e in $(grep -o 'VP_ENTRY([a-z_A-Z0-9]*)' ../harness/$H.cpp | sed 's/VP_ENTRY(//;s/)//'); do
 if [ -n "$ONLY" ] && ! echo "$e" | grep -qE "^($ONLY)$"; then continue; fi
 rm -f o.$H.$e; timeout $((T+60)) ./sx ${H}_l.bc vp_main_$e --out o.$H.$e --jobs 8 --time $T --steps ${STEPS:-1000000} $SXO >/dev/null 2>err.$H.$e; rc=$?
 grep -E "ENGINE|engine" err.$H.$e | head -3
 python3 - $e o.$H.$e $rc ${W:-700} <<'P'
import sys,json,os
e,f,rc,W=sys.argv[1:5]; W=int(W)
agg={}; fin=None; v=[]
if os.path.exists(f):
  for l in open(f):
    d=json.loads(l)
    if d['type']=='violation': v.append(d)
    elif d['type']=='stats':
        for k,x in d.items():
            if isinstance(x,(int,float)): agg[k]=agg.get(k,0)+x
            elif isinstance(x,list): agg.setdefault(k,set()).update(x)
            elif isinstance(x,dict):
                for a,b in x.items(): agg.setdefault(k,{})[a]=agg.setdefault(k,{}).get(a,0)+b
    elif d['type']=='final': fin=d
g=lambda k:agg.get(k,0)
print('== %-20s'%e,'rc',rc,('paths %d steps %d inc %d wall %.1f'%(fin['paths'],fin['steps'],fin['incomplete'],fin['wall_s'])) if fin else 'NO FINAL','q',g('queries'),'unk',g('unknown'),'solver %.1f'%g('solver_s'),'asserts %d/%d'%(g('asserts_sym'),g('asserts')),'covers',sorted(agg.get('covers',[])),agg.get('ended'),str(sorted(agg.get('notes',[])))[:W])
seen=set()
for d in v:
    k=(d['kind'],d['msg'],d['loc'])
    if k in seen: continue
    seen.add(k); print(('   VIOL %s: %s @ %s in %s inputs %s stack %s'%(d['kind'],d['msg'],d['loc'],d['fn'][:60],' '.join('%s=%s'%(i['n'],i['v']) for i in d['inputs'][:40]),d['stack'][:6]))[:W])
P
done
