// Subscript iterators, broadcasting iterators, linear index <-> subscript conversion.
#include "vp.h"
#include <stdexcept>
#include <string>
#include "subscript.hpp"
using namespace brille;
typedef std::vector<int> V; typedef std::array<int,2> A2;
#ifdef VP_THOROUGH
#define MAXN 4
#else
#define MAXN 3
#endif
template<class It> static void visit(It it, const V& shape, const V& in, bool fixedmode, long limit){
  size_t n=shape.size(); V expect(n,0); std::vector<bool> fx(n,false); long total=1;
  for(size_t i=0;i<n;++i){ fx[i]= fixedmode && in[i]>=0 && in[i]<shape[i]; if(fx[i]) expect[i]=in[i]; else total*=shape[i]; }
  long count=0;
  for(auto s: it){
    if(count>=total) break;
    bool ok=true; for(size_t i=0;i<n;++i) ok=vp_and(ok,(int)s[i]==expect[i]); vp_assert(ok,"iteration visits the next subscript in row-major order");
    ++count;
    for(size_t d=n; d-->0;) if(!fx[d]){ if(++expect[d]<shape[d]) break; expect[d]=0; }
    if(count>limit) break;
  }
  vp_assert(count==total,"iteration visits every free subscript exactly once");
  long more=0; for(auto s: it){ (void)s; if(++more>limit) break; } vp_assert(more==total,"iteration stops after the last subscript");
  vp_cover("end");
}
VP_ENTRY(subit2){ A2 sh{(int)vp_int("n0",0,MAXN+1),(int)vp_int("n1",0,MAXN+1)}; visit(SubIt2<int>(sh),V{sh[0],sh[1]},V{0,0},false,40); }
VP_ENTRY(subit3){ V sh; for(int i=0;i<3;++i) sh.push_back((int)vp_int("n",0,MAXN)); visit(SubIt<int>(sh),sh,V(3,0),false,100); }
VP_ENTRY(subit2_fixed){ A2 sh{(int)vp_int("n0",1,MAXN),(int)vp_int("n1",1,MAXN)}, in{(int)vp_int("i0",-1,5),(int)vp_int("i1",-1,5)};
  bool all= in[0]>=0&&in[0]<sh[0]&&in[1]>=0&&in[1]<sh[1];
  try { SubIt2<int> it(sh,in); vp_assert(!all,"fixing every dimension is refused"); visit(it,V{sh[0],sh[1]},V{in[0],in[1]},true,40); } catch(std::runtime_error&){ vp_assert(all,"a partly free iterator can be constructed"); } }
VP_ENTRY(subit3_fixed){ V sh{2,3,2},in; int z=(int)vp_choose("shape",0,2); if(z==1) sh=V{1,2,3}; if(z==2) sh=V{3,1,1}; for(int i=0;i<3;++i) in.push_back((int)vp_int("i",-1,4));
  bool all=true; for(int i=0;i<3;++i) all = all && in[i]>=0 && in[i]<sh[i];
  try { SubIt<int> it(sh,in); vp_assert(!all,"fixing every dimension is refused"); visit(it,sh,in,true,100); } catch(std::runtime_error&){ vp_assert(all,"a partly free iterator can be constructed"); } }
template<class B> static void broadcast(const V& a, const V& b, B mk){
  size_t n=a.size(); bool ok=true; V o(n,0); for(size_t i=0;i<n;++i){ if(!(a[i]==b[i]||a[i]==1||b[i]==1)) ok=false; o[i]=a[i]==1?b[i]:a[i]; }
  bool thrown=false; try{ mk(); } catch(std::runtime_error&){ thrown=true; }
  vp_assert(thrown==!ok,"shapes are refused exactly when they can not be broadcast"); if(!ok||thrown) return;
  auto it=mk(); long total=1; for(auto x:o) total*=x; vp_assert((long)it.size()==total,"broadcast size is the product of the outer shape");
  auto sh=it.shape(); bool s=true; for(size_t i=0;i<n;++i) s=vp_and(s,sh[i]==o[i]); vp_assert(s,"outer shape is the element-wise maximum");
  V e(n,0); long c=0;
  for(auto t: it){ auto ox=std::get<0>(t), ax=std::get<1>(t), bx=std::get<2>(t);
    bool g=true; for(size_t i=0;i<n;++i){ g=vp_and(g,ox[i]==e[i]); g=vp_and(g,ax[i]==(a[i]==1?0:e[i])); g=vp_and(g,bx[i]==(b[i]==1?0:e[i])); } vp_assert(g,"broadcast subscripts follow the outer subscript in row-major order");
    if(++c>200) break; for(size_t d=n; d-->0;){ if(++e[d]<o[d]) break; e[d]=0; } }
  vp_assert(c==total,"every outer subscript is visited exactly once"); vp_cover("end"); }
VP_ENTRY(broadcast2){ V a,b; for(int i=0;i<2;++i){ a.push_back((int)vp_int("a",0,MAXN)); b.push_back((int)vp_int("b",0,MAXN)); } broadcast(a,b,[&]{return BroadcastIt2<int>(A2{a[0],a[1]},A2{b[0],b[1]});}); }
VP_ENTRY(broadcast3){ V a,b; for(int i=0;i<3;++i){ a.push_back((int)vp_int("a",0,MAXN-(i==1))); b.push_back((int)vp_int("b",0,MAXN-(i==1))); } broadcast(a,b,[&]{return BroadcastIt<int>(a,b);}); }
// linear index <-> subscript, row- and column-ordered
VP_ENTRY(lin2){ unsigned n0=vp_choose("n0",1,7), n1=vp_choose("n1",1,7); bool col=vp_choose("col",0,1); if(col&&(n0==1)) return; std::array<unsigned,2> st{col?1u:n1, col?n0:1u}; unsigned l=(unsigned)vp_int("l",0,n0*n1-1);
  auto s=lin2sub(l,st); vp_assert(vp_and(s[0]<n0,s[1]<n1),"subscripts lie inside the array"); vp_assert(sub2lin(s,st)==l,"sub2lin(lin2sub(l)) == l"); vp_assert(sub2lin(s[0],s[1],st)==l,"explicit sub2lin agrees"); vp_cover("end"); }
VP_ENTRY(lin3){ unsigned n[3]; for(auto& x:n) x=vp_choose("n",2,3+(MAXN>3)); bool col=vp_choose("col",0,1); std::vector<unsigned> st(3); if(col){ st[0]=1; st[1]=n[0]; st[2]=n[0]*n[1]; } else { st[2]=1; st[1]=n[2]; st[0]=n[1]*n[2]; }
  unsigned l=(unsigned)vp_int("l",0,n[0]*n[1]*n[2]-1); auto s=lin2sub(l,st); vp_assert(s.size()==3,"one subscript per dimension"); bool in=true; for(int i=0;i<3;++i) in=vp_and(in,s[i]<n[i]); vp_assert(in,"subscripts lie inside the array"); vp_assert(sub2lin(s,st)==l,"sub2lin(lin2sub(l)) == l"); vp_cover("end"); }
VP_ENTRY(sub_roundtrip){ unsigned n0=vp_choose("n0",1,5), n1=vp_choose("n1",1,5), n2=vp_choose("n2",1,3); unsigned i=(unsigned)vp_int("i",0,n0-1), j=(unsigned)vp_int("j",0,n1-1), k=(unsigned)vp_int("k",0,n2-1);
  std::vector<unsigned> st{n1*n2,n2,1}; auto s=lin2sub(sub2lin(std::vector<unsigned>{i,j,k},st),st); vp_assert(vp_and(vp_and(s[0]==i,s[1]==j),s[2]==k),"lin2sub(sub2lin(s)) == s"); vp_cover("end"); }
VP_ENTRY(lin1){ std::vector<unsigned> st{1u}; unsigned l=(unsigned)vp_int("l",0,1000000); auto s=lin2sub(l,st); vp_assert(s.size()==1&&s[0]==l,"one-dimensional lin2sub is the identity"); vp_cover("end"); }
