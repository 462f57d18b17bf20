// vertex maps: every node vertex keeps pointing at its own position through adding, combining, reducing and consolidating
#include "vp.h"
#include <memory>
#include <stdexcept>
#include "array_.hpp"
#include "vertex_map_knit.h"
using namespace brille; using U=ind_t; using VMS=VertexMapSet<double,Array2>; using Pair=std::pair<VMS,VertexIndexMap>;
#ifdef VP_THOROUGH
static const int ADDS=4, NP=3, MV=4;
#else
static const int ADDS=3, NP=3, MV=3;
#endif
using MT=MapVertexType;
static Array2<double> row(double x){ Array2<double> a(1u,2u); a.val(0,0)=x; a.val(0,1)=7; return a; }
static Array2<double> grid(int n){ Array2<double> a((U)n,2u); for(int i=0;i<n;++i){ a.val(i,0)=i; a.val(i,1)=7; } return a; }
static double where(const VMS& v,VMS::rel_t r){ if(r.first==MT::Appended){ auto a=v.appended(); vp_assert(r.second<a.size(0),"an added vertex is in the list of added vertices"); return a.val(r.second,0); } vp_assert(r.first==MT::Pristine,"a vertex is pristine or added"); auto p=v.pristine(); int found=0; double x=-99; for(auto& kv: v.preserved()) if(kv.second==r.second){ ++found; x=p.val(kv.first,0); } vp_assert(found==1,"every preserved index names one pristine vertex"); return x; }
VP_ENTRY(adds){ int n=(int)vp_choose("n",1,NP); VMS v(grid(n),1e-6,1); std::vector<double> x; std::vector<VMS::rel_t> r; int ctype=(int)vp_choose("crafted",0,1); if(vp_choose("reserve",0,1)) v.reserve_appended(2); for(int i=0;i<ADDS;++i){ double y=vp_realint("x",0,MV); bool cr=false; if(ctype){ for(int k=0;k<n;++k) cr|= false; vp_assume(y>=n); cr=true; } x.push_back(y); r.push_back(v.add(row(y),cr?AddVertexType::Crafted:AddVertexType::Unknown)); for(int j=0;j<=i;++j) vp_assert_eq(where(v,r[j]),x[j],"a vertex keeps its position"); }
  for(int i=0;i<ADDS;++i) for(int j=0;j<i;++j) vp_assert((x[i]==x[j])==(r[i]==r[j]),"equal vertices share one index, different ones do not"); for(int i=0;i<ADDS;++i) vp_assert((r[i].first==MT::Pristine)==(x[i]<n),"vertices of the original set are recognised");
  U np=v.preserved_count(), na=v.appended_count(); auto c=v.consolidate(); auto p=c.pristine(); vp_assert(p.size(0)==np+na&&c.pristine_count()==np+na,"consolidating keeps every used vertex"); for(int i=0;i<ADDS;++i) vp_assert_eq(p.val(r[i].first==MT::Pristine? r[i].second: np+r[i].second,0),x[i],"consolidating keeps the order"); for(U i=0;i<p.size(0);++i) for(U j=0;j<i;++j) vp_assert(p.val(i,0)!=p.val(j,0),"consolidated vertices are different"); vp_assert(v.appended_count()==na&&v.preserved_count()==np,"consolidating does not change the set"); vp_cover("end"); }
VP_ENTRY(origin){ int n=(int)vp_choose("n",1,2); Array2<double> a((U)n,2u); double s=vp_realint("s",-1,1); for(int i=0;i<n;++i){ a.val(i,0)=i+s; a.val(i,1)=0; } VMS v(a,1e-6,1); auto r=v.origin_index(); vp_assert_eq(where(v,r),0,"the index of the origin names the origin"); vp_assert(v.origin_index()==r,"the origin is added once"); vp_assert(vp_and(s<=0,s+n>0)==(r.first==MT::Pristine),"an origin in the set is recognised"); vp_cover("end"); }
// several workers: each has its own maps over the same original vertices
struct Work { std::vector<std::vector<double>> x; };
static Pair worker(int n,int w,std::vector<std::vector<double>>& want,const int* sizes,int nodes,int per){ VMS v(grid(n),1e-6,1); VertexIndexMap m; for(int k=0;k<nodes;++k){ std::vector<double> xs; U node=(U)(w*nodes+k); for(int i=0;i<per;++i){ double y=vp_realint("x",0,MV); xs.push_back(y); m.append(node,v.add(row(y))); } want.push_back(xs); } return Pair(std::move(v),std::move(m)); }
static void check(const Pair& c,const std::vector<std::vector<double>>& want,bool final){ const auto& v=c.first; const auto& m=c.second; vp_assert(m.size()==want.size(),"every node is kept"); vp_assert(!m.has_second(),"no temporary index remains"); for(size_t k=0;k<want.size();++k){ vp_assert(m.has((U)k),"every node is kept"); auto& g=m.get((U)k); vp_assert(g.size()==want[k].size(),"every node keeps its number of vertices"); if(final){ auto p=v.pristine(); auto d=m.decode(v.pristine_count(),(U)k); for(size_t i=0;i<g.size();++i){ vp_assert(g[i].first==MT::Pristine,"only final indices remain"); vp_assert(d[i]==g[i].second&&m.decode(0,(U)k,(U)i)==d[i],"decoding a final index"); vp_assert(d[i]<p.size(0),"final indices are in range"); vp_assert_eq(p.val(d[i],0),want[k][i],"every node vertex names its own position"); } } else for(size_t i=0;i<g.size();++i) vp_assert_eq(where(v,g[i]),want[k][i],"every node vertex names its own position"); }
  if(final){ auto p=v.pristine(); for(U i=0;i<p.size(0);++i){ for(U j=0;j<i;++j) vp_assert(p.val(i,0)!=p.val(j,0),"final vertices are different"); bool used=false; for(auto& w: want) for(double x: w) used=vp_or(used,x==p.val(i,0)); vp_assert(used,"every final vertex is used"); } } }
VP_ENTRY(combine){ int n=(int)vp_choose("n",1,NP); std::vector<std::vector<double>> want; Pair a=worker(n,0,want,0,1,2), b=worker(n,1,want,0,1,2); U ap=a.first.preserved_count(), aa=a.first.appended_count(); auto c=vertex_maps::combine(a,b); check(c,want,false); vp_assert(a.first.preserved_count()==ap&&a.first.appended_count()==aa&&a.second.size()==1,"the inputs are not changed"); std::vector<std::vector<double>> wa{want[0]}; check(a,wa,false); auto d=vertex_maps::steps::consolidate_pair(c); check(d,want,true); vp_cover("end"); }
VP_ENTRY(combine_again){ int n=(int)vp_choose("n",1,2); std::vector<std::vector<double>> want; Pair a=worker(n,0,want,0,1,1), b=worker(n,1,want,0,1,2), c=worker(n,2,want,0,1,1); auto d=vertex_maps::combine(vertex_maps::combine(a,b),c); check(d,want,false); check(vertex_maps::steps::consolidate_pair(d),want,true); vp_cover("end"); }
VP_ENTRY(reduces){ int n=(int)vp_choose("n",1,2), k=(int)vp_choose("workers",2,3); bool par=vp_choose("parallel",0,1); std::vector<std::vector<double>> want; std::vector<Pair> w; for(int i=0;i<k;++i) w.push_back(worker(n,i,want,0,1,k==2?2:1)); auto d= par? vertex_maps::parallel_reduce(w): vertex_maps::reduce(w); check(d,want,true); vp_cover("end"); }
VP_ENTRY(clash){ std::vector<std::vector<double>> want; Pair a=worker(2,0,want,0,1,1), b=worker(2,0,want,0,1,1); bool t=false; try{ vertex_maps::combine(a,b); }catch(const std::runtime_error&){ t=true; } vp_assert(t,"combining maps which share a node is refused"); vp_cover("end"); }
VP_ENTRY(index_map){ VertexIndexMap m; int k=(int)vp_int("k",0,5); m.append(3,{MT::Pristine,(U)k}); m.append(3,{MT::Appended,1u}); m.append(1,{MT::Appended,0u}); auto d=m.decode(10,3); vp_assert(vp_and(d[0]==(U)k,d[1]==11),"added vertices follow the preserved ones"); vp_assert(m.decode(4,1)[0]==4,"added vertices follow the preserved ones"); bool t=false; try{ m.get(3,2); }catch(const std::runtime_error&){ t=true; } vp_assert(t,"a vertex which does not exist is refused"); t=false; try{ m.get(2,0); }catch(const std::runtime_error&){ t=true; } vp_assert(t&&!m.has(2),"a node which does not exist is refused"); auto s=m.second_copy(); vp_assert(s.has_second()&&!m.has_second(),"a second copy is marked"); t=false; try{ s.second_copy(); }catch(const std::runtime_error&){ t=true; } vp_assert(t,"a marked copy is not marked again"); t=false; try{ s.decode(0,3); }catch(const std::runtime_error&){ t=true; } vp_assert(t,"temporary indices are not decoded");
  auto f=m.first_copy(); f.replace({MT::Appended,1u},{MT::Pristine,9u}); vp_assert(f.get(3,1).second==9&&m.get(3,1).second==1,"replacing an index in a copy leaves the original alone"); f.set(3,0,{MT::Pristine,8u}); vp_assert(f.get(3,0).second==8&&f.get(1,0).first==MT::Appended,"set changes one entry"); vp_cover("end"); }
