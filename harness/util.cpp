// integer utilities: gcd, binomial coefficients, signed/unsigned conversion; branch sorting flags
#include "vp.h"
#include <stdexcept>
#include <limits>
#include "utilities.hpp"
#include "sorting_status.hpp"
#include <memory>
#include "lapjv.hpp"
#include "smp.hpp"
using namespace brille::utils; using ull=unsigned long long;
#ifdef VP_THOROUGH
static const int GM=40, BN=400, BK=4, OPS=4;
#else
static const int GM=24, BN=100, BK=3, OPS=3;
#endif
VP_ENTRY(gcd_divides){ unsigned a=(unsigned)vp_int("a",0,GM), b=(unsigned)vp_int("b",0,GM); unsigned g=gcd(a,b); vp_assert(vp_or(g!=0,vp_and(a==0,b==0)),"the greatest common divisor is zero only for two zeros");
  if(g){ vp_assert(a%g==0,"gcd divides the first number"); vp_assert(b%g==0,"gcd divides the second number"); unsigned c=(unsigned)vp_int("c",1,GM); vp_assert(vp_implies(vp_and(a%c==0,b%c==0),g%c==0),"every common divisor divides the gcd"); } vp_cover("end"); }
VP_ENTRY(binomial){ ull n=(ull)vp_int("n",0,BN); ull k=(ull)vp_choose("k",0,BK); vp_assume(n>=k); ull p=1,f=1; for(ull i=0;i<k;++i){ p*=n-i; f*=i+1; } ull m=binomial_coefficient(n,k); vp_assert(m*f==p,"C(n,k) k! == n!/(n-k)!"); vp_assert(binomial_coefficient(n,n-k)==m,"C(n,n-k) == C(n,k)"); vp_cover("end"); }
VP_ENTRY(binomial_invalid){ unsigned n=(unsigned)vp_int("n",0,1000), k=(unsigned)vp_int("k",0,2000); vp_assume(k>n); bool t=false; try{ binomial_coefficient(n,k); }catch(const std::domain_error&){ t=true; } vp_assert(t,"choosing more than there are is refused"); vp_cover("end"); }
// coefficients near the limit of 64 bit: Pascal's recurrence, or refused if too large
VP_ENTRY(binomial_large){ ull n=(ull)vp_choose("n",58,70); ull k=(ull)vp_choose("k",0,9); k=n/2-k; auto C=[](ull a,ull b,bool& ok){ ok=true; try{ return binomial_coefficient(a,b); }catch(const std::overflow_error&){ ok=false; return 0ull; } };
  bool o1,o2,o3; ull x=C(n,k,o1), y=C(n-1,k-1,o2), z=C(n-1,k,o3); unsigned __int128 s=(unsigned __int128)y+z; if(o2&&o3){ vp_assert(o1==(s<=~0ull),"a coefficient is refused only when it does not fit"); if(o1) vp_assert(s==x,"C(n,k) == C(n-1,k-1)+C(n-1,k)"); } vp_cover("end"); }
template<class S,class U> static void u2s_t(U u){ bool t=false; S s=0; try{ s=u2s<S,U>(u); }catch(const std::overflow_error&){ t=true; } bool fits= u<=(ull)std::numeric_limits<S>::max(); vp_assert(t==!fits,"unsigned to signed refuses exactly the values that do not fit"); if(!t) vp_assert(vp_and(s>=0,(ull)s==(ull)u),"unsigned to signed keeps the value"); }
template<class U,class S> static void s2u_t(S s){ bool t=false; U u=0; try{ u=s2u<U,S>(s); }catch(const std::overflow_error&){ t=true; } bool fits= vp_and(s>=0,(ull)s<=(ull)std::numeric_limits<U>::max()); vp_assert(t==vp_not(fits),"signed to unsigned refuses exactly the values that do not fit"); if(!t) vp_assert((ull)u==(ull)s,"signed to unsigned keeps the value"); }
VP_ENTRY(to_signed){ ull v=(ull)vp_int("v",std::numeric_limits<long>::min(),std::numeric_limits<long>::max()); switch((int)vp_choose("types",0,4)){ case 0: u2s_t<long long,ull>(v); break; case 1: u2s_t<int,ull>(v); break; case 2: u2s_t<long,unsigned>((unsigned)v); break; case 3: u2s_t<int,unsigned>((unsigned)v); break; case 4: u2s_t<short,ull>(v); } vp_cover("end"); }
VP_ENTRY(to_unsigned){ long v=vp_int("v",std::numeric_limits<long>::min(),std::numeric_limits<long>::max()); switch((int)vp_choose("types",0,4)){ case 0: s2u_t<unsigned,long long>(v); break; case 1: s2u_t<ull,long long>(v); break; case 2: s2u_t<unsigned,int>((int)v); break; case 3: s2u_t<ull,int>((int)v); break; case 4: s2u_t<unsigned short,long>(v); } vp_cover("end"); }

// ---- sorting flags of a vertex: four independent flags and a visit counter
struct Rec { bool s,l,q,c; unsigned v; };
static const unsigned VMAX=~0u>>4;
static void same(const brille::SortingStatus& x, const Rec& r){ vp_assert(vp_and(vp_and(x.sorted()==r.s,x.locked()==r.l),vp_and(x.queued()==r.q,x.claimed()==r.c)),"flags are independent of each other"); vp_assert(x.visits()==r.v,"the number of visits is what was recorded"); vp_assert(x.visited()==(r.v>0),"visited means at least one visit"); vp_assert(x.is_queable()==vp_not(vp_or(vp_or(r.l,r.s),vp_or(r.q,r.c))),"queueable means no flag is set"); }
VP_ENTRY(status_make){ bool s=vp_int("s",0,1), l=vp_int("l",0,1); unsigned v=(unsigned)vp_int("v",0,VMAX); brille::SortingStatus x(s,l,v); same(x,Rec{s,l,false,false,v}); vp_cover("end"); }
VP_ENTRY(status_ops){ Rec r{false,false,false,false,0}; brille::SortingStatus x; r.v=(unsigned)vp_int("v0",0,VMAX); r.s=vp_int("s",0,1); r.l=vp_int("l",0,1); r.q=vp_int("q",0,1); r.c=vp_int("c",0,1); x=brille::SortingStatus((unsigned)r.s|((unsigned)r.l<<1)|((unsigned)r.q<<2)|((unsigned)r.c<<3)|(r.v<<4)); same(x,r);
  for(int i=0;i<OPS;++i){ bool b=vp_int("b",0,1); unsigned w=(unsigned)vp_int("w",0,0x7fffffff); bool ret;
    switch((int)vp_choose("op",0,7)){
      case 0: ret=x.sorted(b); r.s=b; vp_assert(ret==b,"setter returns the flag"); break; case 1: ret=x.locked(b); r.l=b; vp_assert(ret==b,"setter returns the flag"); break; case 2: ret=x.queued(b); r.q=b; vp_assert(ret==b,"setter returns the flag"); break; case 3: ret=x.claimed(b); r.c=b; vp_assert(ret==b,"setter returns the flag"); break;
      case 4: { bool t=false; try{ x.visits(w); }catch(const std::overflow_error&){ t=true; } vp_assert(t==(w>VMAX),"too many visits are refused"); if(!t) r.v=w; break; }
      case 5: { bool t=false; try{ x.addvisit(); }catch(const std::overflow_error&){ t=true; } vp_assert(t==(r.v==VMAX),"a visit beyond the maximum is refused"); if(!t) r.v+=1; break; }
      case 6: { unsigned mx=w&VMAX; unsigned e= r.v<mx ? r.v+1 : r.v; bool lock=!(r.v<mx); unsigned g=x.addvisit(mx); vp_assert(g==e,"visits are limited"); r.v=e; if(lock) r.l=true; break; }
      case 7: { unsigned mx=w&VMAX; bool was=r.l; bool so=r.s; unsigned e= was? r.v : r.v<mx ? r.v+1 : r.v; bool nl= was? true : !(r.v<mx); ret=x.unlocked_addvisit_unsorted(mx); r.v=e; r.l=nl; vp_assert(ret==vp_and(!was,!so),"only an unlocked, unsorted vertex needs sorting"); break; } }
    same(x,r); }
  vp_cover("end"); }
// ---- stable matching
template<int N> static void stable(bool ties){ long p[N*N]; for(auto&x:p) x=vp_int("pref",0,ties?3:20); if(!ties) for(int i=0;i<N;++i) for(int j=0;j<N;++j) for(int k=j+1;k<N;++k){ vp_assume(p[i*N+j]!=p[i*N+k]); vp_assume(p[j*N+i]!=p[k*N+i]); }
  unsigned rs[N],cs[N]; bool t=false; try{ brille::assignment::smp<unsigned,long>(N,p,rs,cs,false); }catch(const std::runtime_error&){ t=true; } vp_assert(!t,"a complete matching exists"); bool ok=true; for(unsigned i=0;i<N;++i){ ok=vp_and(ok,rs[i]<N); ok=vp_and(ok,cs[i]<N); } vp_assert(ok,"partners are in range");
  for(unsigned i=0;i<N;++i) vp_assert(cs[rs[i]]==i,"row and column partners agree");
  bool st=true; for(unsigned i=0;i<N;++i) for(unsigned j=0;j<N;++j) st=vp_and(st,vp_not(vp_and(p[i*N+j]<p[i*N+rs[i]],p[i*N+j]<p[cs[j]*N+j]))); vp_assert(st,"no row and column prefer each other to their partners"); vp_cover("end"); }
VP_ENTRY(stable2){ stable<2>(true); }
VP_ENTRY(stable3){ stable<3>(false); }
VP_ENTRY(stable3_ties){ stable<3>(true); }
VP_ENTRY(stable_real){ const int N=3; double p[N*N]; for(auto&x:p) x=vp_real("pref",0,20); unsigned rs[N],cs[N]; brille::assignment::smp<unsigned,double>(N,p,rs,cs,false); for(unsigned i=0;i<N;++i){ vp_assert(rs[i]<N,"partner in range"); vp_assert(cs[rs[i]]==i,"row and column partners agree"); } bool st=true; for(unsigned i=0;i<N;++i) for(unsigned j=0;j<N;++j) st=vp_and(st,vp_not(vp_and(p[i*N+j]<p[i*N+rs[i]],p[i*N+j]<p[cs[j]*N+j]))); vp_assert(st,"no row and column prefer each other to their partners"); vp_cover("end"); }
