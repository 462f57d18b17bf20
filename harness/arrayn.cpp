// arrays of any number of dimensions: every memory layout behaves as the same abstract array
#include "vp.h"
#include <array>
#include <vector>
#include <memory>
#include <numeric>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include "array_.hpp"
using namespace brille; using U=ind_t; using Sh=std::vector<U>;
#ifdef VP_THOROUGH
static const int R0=3;
#else
static const int R0=2;
#endif
template<class T> static T sym(const char* n); template<> double sym<double>(const char* n){ return vp_real(n,-10,10); } template<> int sym<int>(const char* n){ return (int)vp_int(n,-5,5); }
template<class T> static void eqv(T a,T b,const char* w); template<> void eqv<double>(double a,double b,const char* w){ vp_assert_eq(a,b,w); } template<> void eqv<int>(int a,int b,const char* w){ vp_assert(a==b,w); }
enum { ROWS, COLS, RANGE, SUB, COLSUB, NLAY };
static U num(const Sh& s){ U n=1; for(U x: s) n*=x; return n; }
static bool next(Sh& x,const Sh& s){ for(size_t d=s.size(); d--;){ if(++x[d]<s[d]) return true; x[d]=0; } return false; }
template<class F> static void each(const Sh& s,F f){ if(num(s)==0) return; Sh x(s.size(),0); do f(x); while(next(x,s)); }
static U lin(const Sh& x,const Sh& s){ U l=0; for(size_t d=0;d<s.size();++d) l=l*s[d]+x[d]; return l; }
static U linc(const Sh& x,const Sh& s){ U l=0; for(size_t d=s.size();d--;) l=l*s[d]+x[d]; return l; }
template<class T> struct Ref { Sh s; std::vector<T> v; const T& at(const Sh& x) const { return v[lin(x,s)]; } T& at(const Sh& x){ return v[lin(x,s)]; } };
template<class T> static Ref<T> fresh(const Sh& s){ Ref<T> f{s,std::vector<T>(num(s))}; return f; }
template<class T> struct Mat { Array<T> a, parent; Ref<T> ref; int lay; Sh off; };
template<class T> static Mat<T> make(const Sh& s,int lay,bool symbolic=true){ Mat<T> m; m.lay=lay; m.ref=fresh<T>(s); for(size_t k=0;k<m.ref.v.size();++k) m.ref.v[k]= symbolic? sym<T>("x"): T(k+1); Sh ps=s; m.off=Sh(s.size(),0); if(lay==RANGE){ ps[0]+=2; m.off[0]=1; } if(lay==SUB||lay==COLSUB){ for(size_t d=0;d<s.size();d+=2){ ps[d]+=1; m.off[d]=1; } } if(lay==COLS||lay==COLSUB){ Sh st(s.size(),1); for(size_t d=1;d<s.size();++d) st[d]=st[d-1]*ps[d-1]; m.parent=Array<T>(ps,st); } else m.parent=Array<T>(ps);
  each(ps,[&](Sh& x){ bool in=true; Sh y=x; for(size_t d=0;d<s.size();++d){ in= in&&x[d]>=m.off[d]&&x[d]<m.off[d]+s[d]; y[d]=x[d]-m.off[d]; } m.parent[x]= in? m.ref.at(y): T(77); }); switch(lay){ case RANGE: m.a=m.parent.view(1,1+s[0]); break; case SUB: case COLSUB: m.a=m.parent.view(m.off); break; default: m.a=m.parent; } return m; }
template<class T> static void outside_kept(const Mat<T>& m){ auto ps=m.parent.shape(); each(ps,[&](Sh& x){ bool in=true; for(size_t d=0;d<ps.size();++d) in= in&&x[d]>=m.off[d]&&x[d]<m.off[d]+m.ref.s[d]; if(!in) vp_assert(m.parent[x]==T(77),"elements outside of a view are not touched"); }); }
template<class T> static void same(const Array<T>& a,const Ref<T>& f,const char* w){ vp_assert(a.shape()==f.s,w); if(a.shape()!=f.s) return; each(f.s,[&](Sh& x){ eqv<T>(a[x],f.at(x),w); }); }
template<class F> static bool throws(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
static Sh shape(){ int nd=(int)vp_choose("nd",1,3); Sh s; s.push_back((U)vp_choose("s0",1,R0)); if(nd>1) s.push_back((U)vp_choose("s1",1,2)); if(nd>2) s.push_back((U)vp_choose("s2",1,2)); return s; }
template<class T> static Mat<T> any(bool symbolic=true){ auto s=shape(); return make<T>(s,(int)vp_choose("lay",0,NLAY-1),symbolic); }
template<class T> static Ref<T> rowsof(const Ref<T>& f,const std::vector<int>& r){ Ref<T> g; g.s=f.s; g.s[0]=(U)r.size(); g.v.resize(num(g.s)); each(g.s,[&](Sh& x){ Sh y=x; y[0]=r[x[0]]; g.at(x)=f.at(y); }); return g; }
static bool colorder(int lay,const Sh& s){ if(lay!=COLS&&lay!=COLSUB) return false; return true; }
// --- structure
VP_ENTRY(n_access){ auto m=any<double>(); auto& a=m.a; const auto& ca=a; same(a,m.ref,"element by subscript"); vp_assert(a.numel()==num(m.ref.s)&&a.ndim()==m.ref.s.size(),"number of elements and dimensions"); each(m.ref.s,[&](Sh& x){ double e=m.ref.at(x); eqv(a.val(x),e,"val"); eqv(ca.val(x),e,"val"); eqv(*a.ptr(x),e,"ptr"); eqv(*ca.ptr(x),e,"ptr"); eqv(*a.data(x),e,"data"); bool rest=true; for(size_t d=1;d<x.size();++d) rest= rest&&x[d]==0; if(rest){ eqv(ca.val(x[0]),e,"val of a row"); eqv(*ca.ptr(x[0]),e,"ptr of a row"); Sh p{x[0]}; eqv(ca.val(p),e,"partial subscripts"); } });
  std::vector<double> got; for(auto x: ca.valItr()) got.push_back(x); vp_assert(got.size()==m.ref.v.size(),"iteration visits every element"); for(size_t k=0;k<got.size();++k) eqv(got[k],m.ref.v[k],"iteration in row-major order"); auto t=ca.to_std(); for(size_t k=0;k<t.size();++k) eqv(t[k],m.ref.v[k],"values in row-major order"); std::vector<int> seen(a.numel(),0); auto st=a.stride(); bool row=st.front()>=st.back(); each(m.ref.s,[&](Sh& x){ U l= row? lin(x,m.ref.s): linc(x,m.ref.s); eqv(ca[l],m.ref.at(x),"linear index"); }); vp_cover("end"); }
VP_ENTRY(n_views){ auto m=any<double>(); U n=m.ref.s[0]; int i=(int)vp_choose("i",0,n-1), j=(int)vp_choose("j",i+1,n); auto v=m.a.view((U)i); same(v,rowsof(m.ref,{i}),"view of a row"); std::vector<int> r; for(int k=i;k<j;++k) r.push_back(k); same(m.a.view((U)i,(U)j),rowsof(m.ref,r),"view of a range"); auto sl=m.a.slice((U)i); { Ref<double> g=rowsof(m.ref,{i}); if(g.s.size()>1) g.s.erase(g.s.begin()); same(sl,g,"slice drops the first dimension"); } vp_assert(throws([&]{ m.a.view(n); })&&throws([&]{ m.a.slice(n); })&&throws([&]{ m.a.view(0u,n+1); })&&throws([&]{ m.a.view(1u,1u); }),"ranges beyond the end are refused");
  Ref<double> q=m.ref; q.s.clear(); for(U d: m.ref.s) if(d>1) q.s.push_back(d); if(q.s.empty()) q.s={1}; same(m.a.squeeze(),q,"squeeze drops single dimensions"); for(U ax=0;ax<m.ref.s.size();++ax){ Ref<double> p=m.ref; if(p.s[ax]==1&&p.s.size()>1) p.s.erase(p.s.begin()+ax); same(m.a.squeeze(ax),p,"squeeze drops one dimension if it is single"); } vp_assert(throws([&]{ v+=1.; }),"views are not modified in place"); double z=sym<double>("z"); Sh x=m.off; x[0]+=i; m.parent[x]=z; Sh o(m.ref.s.size(),0); eqv(v[o],z,"a view shows later changes of its parent"); vp_cover("end"); }
VP_ENTRY(n_extracts){ auto m=any<double>(); int r=(int)m.ref.s[0]; int p=(int)vp_choose("p",0,r-1), q=(int)vp_choose("q",0,r-1); same(m.a.extract((U)p),rowsof(m.ref,{p}),"extract one row"); same(m.a.extract(std::vector<int>{p,q,p}),rowsof(m.ref,{p,q,p}),"extract by index vector"); same(m.a.extract(std::array<U,2>{(U)q,(U)p}),rowsof(m.ref,{q,p}),"extract by index array"); Array<int> ia(Sh{2}); Sh k{0}; ia[k]=q; k[0]=1; ia[k]=p; same(m.a.extract(ia),rowsof(m.ref,{q,p}),"extract by index Array"); if(m.ref.s.size()>1){ auto t=m.a.extract(std::vector<std::array<int,2>>{{p,q},{q,q},{q,p}}); auto g=rowsof(m.ref,{p,q,q,q,q,p}); g.s[0]=2; g.s.insert(g.s.begin(),3); same(t,g,"extract by pairs of indices"); }
  int mask=(int)vp_choose("mask",1,(1<<r)-1); std::vector<bool> b(r); Array<bool> ba(Sh{(U)r}); std::vector<int> in; for(int i=0;i<r;++i){ b[i]=(mask>>i)&1; k[0]=i; ba[k]=b[i]; if(b[i]) in.push_back(i); } same(m.a.extract(b),rowsof(m.ref,in),"extract by flags"); same(m.a.extract(ba),rowsof(m.ref,in),"extract by flag array"); vp_assert(throws([&]{ m.a.extract(std::vector<int>{0,r}); })&&throws([&]{ m.a.extract(std::vector<int>{-1}); })&&throws([&]{ m.a.extract(std::vector<bool>(r+1,true)); }),"indices beyond the end are refused"); same(m.a,m.ref,"the source is not changed"); vp_cover("end"); }
VP_ENTRY(n_sets){ auto m=any<double>(); int r=(int)m.ref.s[0]; U c=num(m.ref.s)/r; int i=(int)vp_choose("i",0,r-1), how=(int)vp_choose("how",0,4); std::vector<double> n; for(U j=0;j<c;++j) n.push_back(sym<double>("n")); Ref<double> f=m.ref; for(U j=0;j<c;++j) f.v[i*c+j]=n[j]; Sh rs=m.ref.s; rs[0]=1; if(how==0){ Array<double> t(rs); each(rs,[&](Sh& x){ t[x]=n[lin(x,rs)]; }); m.a.set((U)i,t); } else if(how==1){ Sh st(rs.size(),1); for(size_t d=1;d<rs.size();++d) st[d]=st[d-1]*rs[d-1]; Array<double> t(rs,st); each(rs,[&](Sh& x){ t[x]=n[lin(x,rs)]; }); m.a.set((U)i,t); } else if(how==2) m.a.set((U)i,n); else if(how==3){ each(rs,[&](Sh& x){ Sh y=x; y[0]=i; double z=n[lin(x,rs)]; eqv(m.a.set(y,z),z,"set returns the value"); }); } else { Array<int> t(rs); each(rs,[&](Sh& x){ t[x]=3+(int)lin(x,rs); }); for(U j=0;j<c;++j) f.v[i*c+j]=3+(int)j; m.a.set((U)i,t); }
  same(m.a,f,"set changes exactly one row"); outside_kept(m); vp_assert(throws([&]{ m.a.set((U)i,std::vector<double>(c+1,0.)); }),"a row of the wrong length is refused"); if(rs.size()>1){ Sh w=rs; w[1]+=1; Array<double> t(w); vp_assert(throws([&]{ m.a.set((U)i,t); }),"a row of the wrong shape is refused"); } vp_cover("end"); }
VP_ENTRY(n_appends){ auto s=shape(); int l=(int)vp_choose("lay",0,NLAY-1), k=(int)vp_choose("lay2",0,NLAY-1); int dim=(int)vp_choose("dim",0,(long)s.size()-1); Sh t=s; t[dim]=(U)vp_choose("x",1,2); auto m=make<double>(s,l); auto n=make<double>(t,k); auto a=m.a.decouple(); if(a.raw_shift()) return; a.append((U)dim,n.a); Ref<double> f; f.s=s; f.s[dim]+=t[dim]; f.v.resize(num(f.s)); each(f.s,[&](Sh& x){ Sh y=x; if(x[dim]<s[dim]) f.at(x)=m.ref.at(y); else { y[dim]-=s[dim]; f.at(x)=n.ref.at(y); } }); same(a,f,"append keeps both parts in order"); same(m.a,m.ref,"appending to a copy leaves the original alone"); same(n.a,n.ref,"the appended array is not changed"); if(s.size()>1){ Sh w=s; w[(dim+1)%s.size()]+=1; Array<double> z(w); vp_assert(throws([&]{ a.append((U)dim,z); }),"shapes which do not match are refused"); } vp_cover("end"); }
VP_ENTRY(n_resizes){ auto m=any<double>(); auto a=m.a.decouple(); if(a.raw_shift()) return; Sh ns=m.ref.s; bool up=true,down=true; for(auto& d: ns){ U n=(U)vp_choose("n",1,3); up= up&&n>=d; down= down&&n<=d; d=n; } double z=sym<double>("z"); bool t=throws([&]{ a.resize(ns,z); }); vp_assert(t==!(up||down),"growing one and shrinking another dimension is refused"); if(!t){ Ref<double> f=fresh<double>(ns); each(ns,[&](Sh& x){ bool in=true; for(size_t d=0;d<x.size();++d) in= in&&x[d]<m.ref.s[d]; f.at(x)= in? m.ref.at(x): z; }); same(a,f,"resize keeps the common elements and fills the new ones"); } same(m.a,m.ref,"resizing a copy leaves the original alone"); vp_cover("end"); }
VP_ENTRY(n_reshapes){ Sh s=shape(); auto m=make<double>(s,ROWS); Sh f{num(s)}; auto a=m.a.decouple(); a.reshape(f); Ref<double> g=m.ref; g.s=f; same(a,g,"reshape keeps the row-major order"); a.reshape(s); same(a,m.ref,"reshaping back"); auto n=make<double>(s,(int)vp_choose("lay",0,NLAY-1)); auto c=n.a.contiguous_row_ordered_copy(); same(c,n.ref,"copies keep every element"); vp_assert(c.is_row_ordered()&&c.is_contiguous(),"a row-ordered contiguous copy is one"); auto e=n.a.contiguous_copy(); same(e,n.ref,"copies keep every element"); bool single=false; for(U d: s) single|= d==1; if(!single) vp_assert(e.is_contiguous(),"a contiguous copy is contiguous"); auto d=n.a.decouple(); same(d,n.ref,"decoupled arrays keep every element"); vp_assert(d.own()&&d.ismutable(),"decoupled arrays own their elements"); if(!n.a.is_contiguous()) vp_assert(throws([&]{ n.a.reshape(f); }),"reshaping a strided view is refused"); vp_cover("end"); }
VP_ENTRY(n_swaps){ auto m=any<double>(); if(m.ref.s.size()<2) return; int r=(int)m.ref.s[0]; int a=(int)vp_choose("a",0,r-1), b=(int)vp_choose("b",0,r-1); m.a.swap((U)a,(U)b); std::vector<int> p(r); std::iota(p.begin(),p.end(),0); std::swap(p[a],p[b]); auto f=rowsof(m.ref,p); same(m.a,f,"swap exchanges two rows"); outside_kept(m); if(m.ref.s.size()==2){ U c=m.ref.s[1]; m.a.swap((U)a,0u,c-1); Sh x{(U)a,0},y{(U)a,c-1}; std::swap(f.at(x),f.at(y)); same(m.a,f,"swap exchanges two elements of a row"); } vp_cover("end"); }
VP_ENTRY(n_permutes){ int r=(int)vp_choose("r",1,3); auto m=make<double>(vp_choose("nd",2,3)==2? Sh{(U)r,2}: Sh{(U)r,1,2},(int)vp_choose("lay",0,NLAY-1)); std::vector<int> p; for(int i=0;i<r;++i){ std::vector<int> left; for(int x=0;x<r;++x) if(std::find(p.begin(),p.end(),x)==p.end()) left.push_back(x); p.push_back(left[vp_choose("p",0,(long)left.size()-1)]); } std::vector<U> q(p.begin(),p.end()); m.a.permute(q); auto f=m.ref; auto inv=p; for(int i=0;i<r;++i) inv[p[i]]=i; bool fwd=true,bwd=true; same(m.a,rowsof(f,p),"row i is the old row p[i]"); outside_kept(m); vp_cover("end"); }
VP_ENTRY(n_convert){ Sh s=shape(); auto m=make<double>(s,(int)vp_choose("lay",0,NLAY-1)); Array2<double> b(m.a); U c=num(s)/s[0]; if(s.size()==1){ vp_assert(b.numel()==s[0],"converting to two dimensions keeps every element"); } else vp_assert(b.size(0)*b.size(1)==num(s),"converting to two dimensions keeps every element"); auto v=b.to_std(); for(size_t k=0;k<v.size()&&k<m.ref.v.size();++k) eqv(v[k],m.ref.v[k],"converting to two dimensions keeps the row-major order"); Array<double> back(b,s); same(back,m.ref,"converting back gives the same array"); auto w=make<double>(Sh{2,2},(int)vp_choose("lay2",0,NLAY-1)); Array2<double> t(w.a); Array<double> u(t.view(0u),Sh{2}); Ref<double> g=rowsof(w.ref,{0}); g.s={2}; same(u,g,"converting a view"); Array<double> h(t.view(1u),Sh{2,1}); g=rowsof(w.ref,{1}); g.s={2,1}; same(h,g,"converting a view which does not start at the beginning"); vp_cover("end"); }
VP_ENTRY(n_types){ auto m=any<int>(); Array<double> d(m.a); each(m.ref.s,[&](Sh& x){ eqv(d[x],(double)m.ref.at(x),"conversion keeps every element"); }); Array<double> e(Sh{2,2},1.); e=m.a; each(m.ref.s,[&](Sh& x){ eqv(e[x],(double)m.ref.at(x),"assignment of another type keeps every element"); }); vp_assert(e.shape()==m.ref.s,"assignment of another type takes its shape"); auto s=Array<double>::from_std(std::vector<double>{1,2}); vp_assert(s.numel()==2,"from a vector"); auto t=Array<double>::from_std(std::vector<std::array<int,2>>{{1,2},{3,4},{5,6}}); Sh x{2,1}; eqv(t[x],6.,"from a vector of arrays"); vp_cover("end"); }
// --- ownership
VP_ENTRY(n_outlive){ int l=(int)vp_choose("lay",0,NLAY-1); Array<double> v,w; Ref<double> f; { auto m=make<double>(Sh{2,2,1},l); v=m.a; f=m.ref; } same(v,f,"a view keeps the elements of its parent alive"); { auto u=v.view(1u); w=u.squeeze(); } v=Array<double>(); Ref<double> g=rowsof(f,{1}); g.s={2}; same(w,g,"a view of a view keeps the elements alive"); w=w.view(0u); g=rowsof(g,{0}); same(w,g,"assigning an array its own view"); auto x=w.decouple(); w=Array<double>(); same(x,g,"a decoupled array is independent"); Array<double> y(x); y=x; x=Array<double>(Sh{1},3.); same(y,g,"copies keep the elements alive"); vp_cover("end"); }
// --- arithmetic
VP_ENTRY(n_scalar){ auto m=any<double>(); double s=vp_real("s",1,5); auto d=m.a.decouple(); auto chk=[&](auto op,const char* w){ Ref<double> e=m.ref; for(auto& x:e.v) x=op(x); same(d,e,w); }; d+=s; chk([&](double x){return x+s;},"+= scalar"); d-=s; d-=s; chk([&](double x){return x-s;},"-= scalar"); d+=s; d*=s; chk([&](double x){return x*s;},"*= scalar"); d/=s; d/=s; chk([&](double x){return x/s;},"/= scalar"); auto n=m.a.operator-(); Ref<double> e=m.ref; for(auto& x: e.v) x=-x; same(n,e,"- array"); same(m.a,m.ref,"operands are not changed"); outside_kept(m); vp_cover("end"); }
VP_ENTRY(n_array){ Sh s=shape(), t=s; for(auto& d: t) if(d>1&&vp_choose("b",0,1)) d=1; auto m=make<double>(s,(int)vp_choose("lay",0,NLAY-1)); auto n=make<double>(t,(int)vp_choose("lay2",0,NLAY-1)); for(double x: n.ref.v) vp_assume(vp_or(x>=1,x<=-1)); auto B=[&](const Sh& x){ Sh y=x; for(size_t d=0;d<y.size();++d) if(t[d]==1) y[d]=0; return n.ref.at(y); }; auto chk=[&](const Array<double>& g,auto op,const char* w){ Ref<double> e=fresh<double>(s); each(s,[&](Sh& x){ e.at(x)=op(m.ref.at(x),B(x)); }); same(g,e,w); }; auto pl=[](double x,double y){return x+y;}; auto mi=[](double x,double y){return x-y;}; auto mu=[](double x,double y){return x*y;}; auto di=[](double x,double y){return x/y;};
  chk(m.a+n.a,pl,"array + array"); chk(m.a-n.a,mi,"array - array"); chk(m.a*n.a,mu,"array * array"); chk(m.a/n.a,di,"array / array"); chk(n.a-m.a,[](double x,double y){return y-x;},"broadcast of the first operand"); { auto d=m.a.view().decouple(); d+=n.a; chk(d,pl,"+= array"); } { auto d=m.a.view().decouple(); d-=n.a; chk(d,mi,"-= array"); } { auto d=m.a.view().decouple(); d*=n.a; chk(d,mu,"*= array"); } { auto d=m.a.view().decouple(); d/=n.a; chk(d,di,"/= array"); } same(m.a,m.ref,"operands are not changed"); same(n.a,n.ref,"operands are not changed"); if(s!=t){ auto d=n.a.view().decouple(); vp_assert(throws([&]{ d+=m.a; }),"an array does not grow in place"); } Sh w=s; w[0]+=1; if(s[0]>1){ Array<double> z(w); vp_assert(throws([&]{ auto q=m.a+z; }),"shapes which do not match are refused"); } vp_cover("end"); }
VP_ENTRY(n_reductions){ auto m=any<double>(); U d=(U)vp_choose("dim",0,(long)m.ref.s.size()-1); Sh os=m.ref.s; os[d]=1; auto s=m.a.sum(d), p=m.a.prod(d), lo=m.a.min(d), hi=m.a.max(d); vp_assert(s.shape()==os&&p.shape()==os&&lo.shape()==os&&hi.shape()==os,"the reduced dimension has one element"); each(os,[&](Sh& x){ double S=0,P=1,L=0,H=0; for(U i=0;i<m.ref.s[d];++i){ Sh y=x; y[d]=i; double z=m.ref.at(y); S+=z; P*=z; L= i==0||z<L? z:L; H= i==0||z>H? z:H; } eqv(s[x],S,"sum over a dimension"); eqv(p[x],P,"product over a dimension"); eqv(lo[x],L,"minimum over a dimension"); eqv(hi[x],H,"maximum over a dimension"); }); vp_cover("end"); }
VP_ENTRY(n_rounding){ auto s=shape(); auto m=make<double>(s,(int)vp_choose("lay",0,NLAY-1),false); double x=vp_real("y",-3,3); Sh l=s; for(auto& d: l) d-=1; Sh pl=l; for(size_t d=0;d<l.size();++d) pl[d]+=m.off[d]; m.parent[pl]=x; m.ref.at(l)=x; auto f=m.a.floor(), c=m.a.ceil(), n=m.a.round(); each(s,[&](Sh& q){ double y=m.ref.at(q); int F=f[q],C=c[q],N=n[q]; vp_assert(vp_and(F<=y,y<F+1),"floor"); vp_assert(vp_and(C>=y,y>C-1),"ceil"); vp_assert(vp_and(N-y<=0.5,y-N<=0.5),"round"); }); vp_cover("end"); }
// --- comparisons
static const cmp CMPS[]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::nle,cmp::nge,cmp::neq};
VP_ENTRY(n_compare){ auto s=shape(); if(num(s)>4) return; auto m=make<int>(s,(int)vp_choose("lay",0,NLAY-1)); int v=sym<int>("v"); cmp e=CMPS[vp_choose("cmp",0,7)]; Comparer<int,int> op(e); auto is=m.a.is(e,v); vp_assert(is.shape()==s,"one answer per element"); std::vector<bool> L(num(s)); auto st=m.a.stride(); bool row=st.front()>=st.back(); bool all=true,any=false; int cnt=0; each(s,[&](Sh& x){ bool b=op(m.ref.at(x),v); vp_assert(is[x]==b,"each element is compared"); all=vp_and(all,b); any=vp_or(any,b); cnt+=b; L[row? lin(x,s): linc(x,s)]=b; });
  vp_assert(m.a.all(e,v)==all,"all"); vp_assert(m.a.any(e,v)==any,"any"); vp_assert((int)m.a.count(e,v)==cnt,"count"); U n=num(s),f=n,l=n; for(U k=n;k--;) if(L[k]) f=k; for(U k=0;k<n;++k) if(L[k]) l=k; vp_assert(m.a.first(e,v)==f,"first"); vp_assert(m.a.last(e,v)==l,"last"); auto fd=m.a.find(e,v); std::vector<U> want; for(U k=0;k<n;++k) if(L[k]) want.push_back(k); vp_assert(fd==want,"find"); vp_cover("end"); }
VP_ENTRY(n_quantifiers){ auto s=shape(); if(num(s)>4) return; auto m=make<int>(s,(int)vp_choose("lay",0,NLAY-1)); U N=num(s); int n=(int)vp_choose("n",0,N+1); U no= n>0&&(U)n<N? (U)n: N; int v=sym<int>("v"); std::vector<int> L(N); auto st=m.a.stride(); bool row=st.front()>=st.back(); each(s,[&](Sh& x){ L[row? lin(x,s): linc(x,s)]=m.ref.at(x); }); bool all=true,any=false,alv=true,anv=false; U cnt=0,cv=0,f=no,l=no,fv=no,lv=no; for(U k=0;k<no;++k){ bool t=L[k]!=0,q=L[k]==v; all=vp_and(all,t); any=vp_or(any,t); alv=vp_and(alv,q); anv=vp_or(anv,q); cnt+=t; cv+=q; if(t){ if(f==no) f=k; l=k; } if(q){ if(fv==no) fv=k; lv=k; } } vp_assert(m.a.all((U)n)==all&&m.a.any((U)n)==any&&m.a.count((U)n)==cnt&&m.a.first((U)n)==f&&m.a.last((U)n)==l,"quantifiers over the first elements"); vp_assert(m.a.all(v,(U)n)==alv&&m.a.any(v,(U)n)==anv&&m.a.count(v,(U)n)==cv&&m.a.first(v,(U)n)==fv&&m.a.last(v,(U)n)==lv,"quantifiers over the first elements"); vp_cover("end"); }
VP_ENTRY(n_compare_array){ auto s=shape(); if(num(s)>4) return; Sh t=s; if(s[0]>1&&vp_choose("b",0,1)) t[0]=1; auto m=make<int>(s,(int)vp_choose("lay",0,NLAY-1)); auto n=make<int>(t,(int)vp_choose("lay2",0,NLAY-1)); cmp e=CMPS[vp_choose("cmp",0,3)*2]; Comparer<int,int> op(e); auto is=m.a.is(e,n.a); bool eq=true; vp_assert(is.shape()==s,"one answer per element"); each(s,[&](Sh& x){ Sh y=x; if(t[0]==1) y[0]=0; bool b=op(m.ref.at(x),n.ref.at(y)); vp_assert(is[x]==b,"each element is compared with its partner"); eq=vp_and(eq,m.ref.at(x)==n.ref.at(y)); }); vp_assert(m.a.is(n.a)==eq,"equality of arrays"); Sh w=s; w[0]+=1; Array<int> z(w); vp_assert(throws([&]{ m.a.is(cmp::eq,z); }),"other shapes are refused"); vp_cover("end"); }
VP_ENTRY(n_unique){ int r=(int)vp_choose("r",1,3); auto m=make<int>(Sh{(U)r,(U)vp_choose("c",1,2)},(int)vp_choose("lay",0,NLAY-1)); U c=m.ref.s[1]; auto eq=[&](int i,int j){ bool e=true; for(U k=0;k<c;++k) e=vp_and(e,m.ref.v[i*c+k]==m.ref.v[j*c+k]); return e; }; auto is=m.a.is_unique(); auto ix=m.a.unique_idx(); vp_assert((int)is.size()==r&&(int)ix.size()==r,"one answer per row"); std::vector<int> rows; for(int i=0;i<r;++i){ bool u=true; int first=i; for(int j=i;j--;) if(eq(i,j)){ u=false; first=j; } vp_assert(is[i]==u,"a row is unique if no earlier row equals it"); vp_assert((int)ix[i]==first,"the index of the first equal row"); if(u) rows.push_back(i); } same(m.a.unique(),rowsof(m.ref,rows),"unique keeps the first of equal rows"); vp_cover("end"); }
VP_ENTRY(n_match){ auto m=make<int>(Sh{3,2},(int)vp_choose("lay",0,NLAY-1)); int i=(int)vp_choose("i",0,2), j=(int)vp_choose("j",0,2), v=(int)vp_int("v",1,3); auto A=[&](int k){ return m.ref.v[i*2+k]; }; auto B=[&](int k){ return m.ref.v[j*2+k]; }; int o=(int)vp_choose("op",0,2); bool e=true; for(int k=0;k<2;++k) e=vp_and(e,A(k)==(o==0? B(k)+v: o==1? B(k)-v: B(k)*v)); vp_assert(m.a.match((U)i,(U)j,o==0?ops::plus:o==1?ops::minus:ops::times,v)==e,"match compares one row with another after the operation"); std::array<int,4> rot{0,-1,1,0}; int n=(int)vp_choose("order",0,3); int x=B(0),y=B(1); for(int k=0;k<n;++k){ int t=-y; y=x; x=t; } vp_assert(m.a.match((U)i,(U)j,rot,n)==vp_and(A(0)==x,A(1)==y),"match after rotating"); bool some=false; x=B(0); y=B(1); for(int k=0;k<=n;++k){ some=vp_or(some,vp_and(A(0)==x,A(1)==y)); int t=-y; y=x; x=t; } if(n) vp_assert(m.a.match((U)i,(U)j,rot,-n)==some,"match after any number of rotations"); vp_cover("end"); }
VP_ENTRY(n_products){ auto m=make<double>(Sh{2,(U)vp_choose("c",1,3)},(int)vp_choose("lay",0,NLAY-1)); U c=m.ref.s[1]; for(U i=0;i<2;++i){ for(U j=0;j<2;++j){ double s=0; for(U k=0;k<c;++k) s+=m.ref.v[i*c+k]*m.ref.v[j*c+k]; eqv(m.a.dot(i,j),s,"dot product of two rows"); if(i==j){ double w=m.a.norm(i); vp_assert(w>=0,"norm is not negative"); eqv(w*w,s,"norm squared"); } } } vp_cover("end"); }
