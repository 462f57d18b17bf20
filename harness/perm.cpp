// applying permutations, the table of pairwise permutations, permutations from assignment
#include "vp.h"
#include <memory>
#include "lapjv.hpp"
#include "smp.hpp"
#include "permutation.hpp"
#include "permutation_table.hpp"
#include <map>
#include <set>
#include <vector>
using namespace brille; using U=ind_t;
#ifdef VP_THOROUGH
static const int PN=5, STEPS=4;
#else
static const int PN=4, STEPS=3;
#endif
static std::vector<size_t> perm(const char* n,int k){ std::vector<size_t> p; for(int i=0;i<k;++i){ std::vector<size_t> left; for(int x=0;x<k;++x){ bool u=false; for(auto y: p) u|= (y==(size_t)x); if(!u) left.push_back(x); } p.push_back(left[vp_choose(n,0,(long)left.size()-1)]); } return p; }
VP_ENTRY(apply){ int n=(int)vp_choose("n",0,PN); auto p=perm("p",n); std::vector<double> o(n); for(auto& x:o) x=vp_real("o",-5,5); auto r=o; auto q=p; apply_permutation(r.begin(),r.end(),q.begin()); for(int i=0;i<n;++i){ vp_assert_eq(r[i],o[p[i]],"element i is the old element p[i]"); vp_assert(q[i]==(size_t)i,"the used permutation is left as the identity"); }
  q=p; auto s=r; apply_inverse_permutation(s.begin(),s.end(),q.begin()); for(int i=0;i<n;++i) vp_assert_eq(s[i],o[i],"the inverse restores the objects");
  q=p; s=o; apply_inverse_permutation(s.begin(),s.end(),q.begin()); for(int i=0;i<n;++i) vp_assert_eq(s[p[i]],o[i],"old element i is element p[i]"); std::vector<int> qi(p.begin(),p.end()); s=o; apply_permutation(s.begin(),s.end(),qi.begin()); for(int i=0;i<n;++i) vp_assert_eq(s[i],r[i],"the index type does not matter"); vp_cover("end"); }
VP_ENTRY(apply_rows){ int n=(int)vp_choose("n",1,3); auto p=perm("p",n); std::vector<std::vector<double>> o(n); for(auto& x:o){ x.push_back(vp_real("o",-5,5)); x.push_back(vp_real("o",-5,5)); } auto r=o; auto q=p; apply_permutation(r.begin(),r.end(),q.begin()); for(int i=0;i<n;++i){ vp_assert(r[i].size()==2,"objects are moved whole"); vp_assert_eq(r[i][0],o[p[i]][0],"objects are moved whole"); vp_assert_eq(r[i][1],o[p[i]][1],"objects are moved whole"); } q=p; apply_inverse_permutation(r.begin(),r.end(),q.begin()); for(int i=0;i<n;++i) vp_assert_eq(r[i][1],o[i][1],"the inverse restores the objects"); vp_cover("end"); }
// ---- table: a map from ordered pairs to permutations
struct Model { size_t ni; size_t br; std::map<std::pair<size_t,size_t>,std::vector<U>> val; std::set<std::pair<size_t,size_t>> keys; };
static std::pair<size_t,size_t> K(size_t i,size_t j){ return i==j? std::pair<size_t,size_t>{0,0}: std::pair<size_t,size_t>{i,j}; }
static void agree(const PermutationTable& t,const Model& m){ std::vector<U> id; for(size_t k=0;k<m.br;++k) id.push_back(k); size_t nk=0; for(size_t i=0;i<m.ni;++i) for(size_t j=0;j<m.ni;++j){ auto k=K(i,j); bool has=m.val.count(k)>0, key=m.keys.count(k)>0; vp_assert(t.has(i,j)==has,"has: a permutation is stored for the pair"); vp_assert(t.value_needed(i,j)==(key&&!has),"value_needed: the pair is known but has no permutation"); auto g=t.safe_get(i,j); auto e= has? m.val.at(k): id; vp_assert(g.size()==e.size(),"the stored permutation is returned, or the identity"); bool s=true; for(size_t x=0;x<e.size()&&x<g.size();++x) s=vp_and(s,g[x]==e[x]); vp_assert(s,"the stored permutation is returned, or the identity"); if(key) nk+= i!=j||i==0; } auto ks=t.keys(); vp_assert(ks.size()==nk,"keys lists every known pair once"); for(auto& k: m.keys) vp_assert(ks.count(k.first*m.ni+k.second)==1,"keys lists every known pair once"); }
VP_ENTRY(table){ const size_t ni=3, br=2; std::set<size_t> ks; Model m; m.ni=ni; m.br=br; m.keys.insert({0,0}); m.val[{0,0}]={0,1}; if(vp_choose("k",0,1)){ ks={1,3}; m.keys.insert({0,1}); m.keys.insert({1,0}); } PermutationTable t(ni,br,ks); agree(t,m);
  for(int st=0;st<STEPS;++st){ size_t i=(size_t)vp_choose("i",0,1), j=(size_t)vp_choose("j",0,2); auto k=K(i,j); U a=(U)vp_int("a",0,1); std::vector<int> v{(int)a,1-(int)a}; std::vector<U> w{a,1-a}; switch((int)vp_choose("op",0,3)){
     case 0: t.set(i,j,v); if(!m.val.count(k)) m.val[k]=w; m.keys.insert(k); break;
     case 1: { bool th=false; try{ t.overwrite(i,j,v); }catch(const std::runtime_error&){ th=true; } vp_assert(th==!m.keys.count(k),"only a known pair can be overwritten"); if(!th) m.val[k]=w; break; }
     case 2: { std::set<size_t> n{k.first*ni+k.second,(size_t)2}; auto r=t.insert_keys(n); m.keys.insert(k); m.keys.insert({0,2}); vp_assert(r==t.keys(),"insert_keys returns all keys"); break; }
     case 3: { bool th=false; size_t src=t.set(1,2,v); if(!m.val.count({1,2})) m.val[{1,2}]=w; m.keys.insert({1,2}); try{ vp_assert(t.overwrite(i,j,src)==src,"the index of the permutation is returned"); }catch(const std::runtime_error&){ th=true; } vp_assert(th==!m.keys.count(k),"only a known pair can be overwritten"); if(!th) m.val[k]=m.val[{1,2}]; break; } }
    agree(t,m); PermutationTable u=t; vp_assert(!(u!=t),"a copy is equal"); }
  vp_cover("end"); }
VP_ENTRY(refresh){ PermutationTable t(3,2,std::set<size_t>{1,3,5}); std::vector<int> v{1,0}; t.set(1,2,v); t.overwrite(0,1,v); size_t ni=(size_t)vp_choose("ni",3,4), br=(size_t)vp_choose("br",1,3); bool inv=t.refresh(ni,br); vp_assert(inv==(ni!=3),"a changed number of points invalidates the table"); Model m; m.ni=ni; m.br=br; if(ni==3){ m.keys={{0,0},{0,1},{1,0},{1,2}}; std::vector<U> id; for(U x=0;x<br;++x) id.push_back(x); m.val[{0,0}]=id; if(br==2){ m.val[{1,2}]={1,0}; m.val[{0,1}]={1,0}; } agree(t,m); }
  else for(size_t i=0;i<ni;++i) for(size_t j=0;j<ni;++j) if(i!=j){ vp_assert(!t.has(i,j),"no pair of the old table remains"); vp_assert(t.safe_get(i,j).size()==br,"the identity is returned for missing pairs"); } vp_cover("end"); }
VP_ENTRY(pair_keys){ size_t n=(size_t)vp_choose("n",2,4); std::vector<size_t> v; int k=(int)vp_choose("k",0,3); for(int i=0;i<k;++i) v.push_back((size_t)vp_choose("v",0,(long)n-1)); auto ks=permutation_table_keys_from_indicies(v.begin(),v.end(),n); std::set<size_t> e; for(auto a: v) for(auto b: v) if(a!=b) e.insert(a*n+b); vp_assert(ks==e,"every ordered pair of different indices is listed once"); vp_cover("end"); }
// ---- permutations from assignment of minimal cost
VP_ENTRY(jv_vectors){ const int n=3; std::vector<double> c{4,1,3, 2,0,5, 3,2,2}; int row=(int)vp_choose("row",0,2); for(int k=0;k<3;++k) c[row*3+k]=vp_real("c",0,9); double tot=0; for(double x:c) tot+=x; auto r=jv_permutation(c); std::vector<int> r2,r3,c3; jv_permutation_fill(c,r2); jv_permutation_fill(c,r3,c3); double s=0; for(int i=0;i<n;++i){ vp_assert(vp_and(r[i]>=0,r[i]<n),"rows are matched to columns"); for(int j=0;j<i;++j) vp_assert(r[i]!=r[j],"no column is used twice"); s+=c[i*n+r[i]]; vp_assert(r2[i]==r[i]&&r3[i]==r[i],"all forms give the same permutation"); vp_assert(c3[r3[i]]==i,"the second permutation is the inverse"); }
  int P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for(auto& p: P) vp_assert_le(s,c[p[0]]+c[3+p[1]]+c[6+p[2]]+tot*3/10000.,"no permutation has a smaller cost (up to the solver's tolerance)"); vp_cover("end"); }
