// two-dimensional arrays: every memory layout behaves as the same abstract matrix
#include "vp.h"
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <numeric>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include "array_.hpp"
using namespace brille; using U=ind_t; using Sh=std::array<U,2>;
#ifdef VP_THOROUGH
static const int RM=3, CM=3;
#else
static const int RM=3, CM=2;
#endif
template<class T> static T sym(const char* n);
template<> double sym<double>(const char* n){ return vp_real(n,-10,10); }
template<> int sym<int>(const char* n){ return (int)vp_int(n,-5,5); }
template<class T> static void eqv(T a, T b, const char* w);
template<> void eqv<double>(double a,double b,const char* w){ vp_assert_eq(a,b,w); }
template<> void eqv<int>(int a,int b,const char* w){ vp_assert(a==b,w); }
enum { ROWS, RANGE, COLS, SUB, COLRANGE, CONSTVIEW, NLAY };
template<class T> struct Ref { int r,c; std::vector<T> v; T at(int i,int j) const { return v[i*c+j]; } T& at(int i,int j){ return v[i*c+j]; } };
// a matrix with the given contents in the given memory layout; elements of a parent outside of the matrix hold other symbols
template<class T> struct Mat { Array2<T> a; Array2<T> parent; Ref<T> ref; int lay; };
template<class T> static Mat<T> make(int r,int c,int lay,bool symbolic=true){ Mat<T> m; m.lay=lay; m.ref.r=r; m.ref.c=c; int k=0; auto val=[&]{ ++k; return symbolic? sym<T>("x") : T(k); };
  for(int i=0;i<r*c;++i) m.ref.v.push_back(val());
  int pr=r+(lay==RANGE?2:lay==SUB||lay==COLRANGE?1:0), pc=c+(lay==SUB?1:0), oi= lay==RANGE||lay==SUB||lay==COLRANGE?1:0, oj= lay==SUB?1:0;
  m.parent = lay==COLS||lay==COLRANGE ? Array2<T>(Sh{(U)pr,(U)pc},Sh{1u,(U)pr}) : Array2<T>((U)pr,(U)pc);
  for(int i=0;i<pr;++i) for(int j=0;j<pc;++j){ bool in= i>=oi&&i<oi+r&&j>=oj&&j<oj+c; m.parent[Sh{(U)i,(U)j}]= in? m.ref.at(i-oi,j-oj) : T(77+i*10+j); }
  switch(lay){ case RANGE: m.a=m.parent.view(1,(U)(r+1)); break; case SUB: m.a=m.parent.view(Sh{1,1}); break; case COLRANGE: m.a=m.parent.view(1,(U)(r+1)); break; case CONSTVIEW: m.a=m.parent.view(); break; default: m.a=m.parent; }
  return m; }
template<class T> static void same(const Array2<T>& a, const Ref<T>& f, const char* w){ vp_assert((int)a.size(0)==f.r&&(int)a.size(1)==f.c,w); if((int)a.size(0)!=f.r||(int)a.size(1)!=f.c) return; for(int i=0;i<f.r;++i) for(int j=0;j<f.c;++j) eqv<T>(a[Sh{(U)i,(U)j}],f.at(i,j),w); }
static bool inside(int lay){ return lay==RANGE||lay==SUB||lay==COLRANGE; }
template<class T> static void outside_kept(const Mat<T>& m){ int oi=inside(m.lay)?1:0, oj=m.lay==SUB?1:0; for(int i=0;i<(int)m.parent.size(0);++i) for(int j=0;j<(int)m.parent.size(1);++j){ bool in= i>=oi&&i<oi+m.ref.r&&j>=oj&&j<oj+m.ref.c; if(!in) vp_assert(m.parent[Sh{(U)i,(U)j}]==T(77+i*10+j),"elements outside of a view are not touched"); } }
template<class T> static Mat<T> any(const char* n="lay",int r0=1,bool symbolic=true){ int r=(int)vp_choose("r",r0,RM), c=(int)vp_choose("c",1,CM), l=(int)vp_choose(n,0,NLAY-1); return make<T>(r,c,l,symbolic); }
template<class F> static bool throws(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }

// ---- structure
VP_ENTRY(access){ auto m=any<double>(); auto& a=m.a; same(a,m.ref,"element by subscript"); vp_assert(a.numel()==(U)(m.ref.r*m.ref.c),"number of elements"); vp_assert(a.ndim()==2,"two dimensions");
  bool colord=m.lay==COLS||m.lay==COLRANGE; size_t n=0; for(int i=0;i<m.ref.r;++i) for(int j=0;j<m.ref.c;++j){ double x=m.ref.at(i,j); U I=i,J=j; const auto& ca=a; eqv(a.val(I,J),x,"val"); eqv(ca.val(I,J),x,"val"); eqv(a.val(Sh{I,J}),x,"val"); eqv(*a.ptr(I,J),x,"ptr"); eqv(*ca.ptr(I,J),x,"ptr"); eqv(*ca.ptr(Sh{I,J}),x,"ptr"); eqv(*a.data(Sh{I,J}),x,"data"); eqv(*ca.data(Sh{I,J}),x,"data"); if(j==0){ eqv(a.val(I),x,"val of a row"); eqv(*a.ptr(I),x,"ptr of a row"); }
    // linear order: row ordered arrays by rows, column ordered ones by columns (vectors have a single order)
    if(m.ref.r>1&&m.ref.c>1){ U l= colord? J*(U)m.ref.r+I : I*(U)m.ref.c+J; eqv(a[l],x,"linear index"); eqv(*ca.data(l),x,"linear data"); } else { eqv(a[I+J],x,"linear index of a vector"); } }
  auto s=a.to_std(); vp_assert((int)s.size()==m.ref.r*m.ref.c,"as many values as elements"); for(auto x: s) eqv(x,m.ref.v[n++],"values in row-major order"); n=0; for(auto x: a.valItr()) eqv(x,m.ref.v[n++],"iteration in row-major order"); vp_assert((int)n==m.ref.r*m.ref.c,"iteration visits every element"); 
  eqv(a.sum(),std::accumulate(m.ref.v.begin(),m.ref.v.end(),0.),"sum"); vp_cover("end"); }
template<class T> static Ref<T> rowsof(const Ref<T>& f, std::vector<int> rows){ Ref<T> g{(int)rows.size(),f.c,{}}; for(int i: rows) for(int j=0;j<f.c;++j) g.v.push_back(f.at(i,j)); return g; }
VP_ENTRY(views){ auto m=any<double>(); int i=(int)vp_choose("i",0,m.ref.r-1), j=(int)vp_choose("j",i,m.ref.r); auto v=m.a.view((U)i); same(v,rowsof(m.ref,{i}),"view of a row"); std::vector<int> rs; for(int k=i;k<j;++k) rs.push_back(k); auto w=m.a.view((U)i,(U)j); vp_assert((int)w.size(0)==j-i&&(int)w.size(1)==m.ref.c,"size of a range"); if(j>i) same(w,rowsof(m.ref,rs),"view of a range of rows");
  int o=(int)vp_choose("o",0,m.ref.c-1); auto s=m.a.view(Sh{(U)i,(U)o}); Ref<double> g{m.ref.r-i,m.ref.c-o,{}}; for(int p=i;p<m.ref.r;++p) for(int q=o;q<m.ref.c;++q) g.v.push_back(m.ref.at(p,q)); same(s,g,"view of a block"); auto vv=s.view(0u); same(vv,rowsof(g,{0}),"view of a view");
  vp_assert(throws([&]{ m.a.view((U)m.ref.r); }),"a row which does not exist is refused"); vp_assert(throws([&]{ m.a.view(0u,(U)m.ref.r+1); }),"a range beyond the end is refused"); vp_assert(throws([&]{ v+=1.; }),"views are not modified in place"); vp_assert(throws([&]{ s*=m.parent.view(Sh{0,0}); }),"views are not modified in place");
  double z=sym<double>("z"); m.parent[Sh{(U)((inside(m.lay)?1:0)+i),(U)(m.lay==SUB?1:0)}]=z; eqv(v.val(0,0),z,"a view shows later changes of its parent"); vp_cover("end"); }
VP_ENTRY(extracts){ auto m=any<double>(); int r=m.ref.r; int p=(int)vp_choose("p",0,r-1), q=(int)vp_choose("q",0,r-1); same(m.a.extract((U)p),rowsof(m.ref,{p}),"extract one row"); auto e=m.a.extract(std::vector<int>{p,q,p}); auto f=rowsof(m.ref,{p,q,p}); same(e,f,"extract by index vector"); same(m.a.extract(std::array<U,2>{(U)q,(U)p}),rowsof(m.ref,{q,p}),"extract by index array"); Array2<int> ia(2,1); ia[0u]=q; ia[1u]=p; same(m.a.extract(ia),rowsof(m.ref,{q,p}),"extract by index Array2"); vp_assert(m.a.extract(std::vector<int>{}).numel()==0,"extracting nothing");
  int mask=(int)vp_choose("mask",0,(1<<r)-1); std::vector<bool> b(r); Array2<bool> ba((U)r,1u); std::vector<int> in; for(int i=0;i<r;++i){ b[i]=ba[(U)i]=(mask>>i)&1; if(b[i]) in.push_back(i); } auto g=rowsof(m.ref,in); if(in.size()){ same(m.a.extract(b),g,"extract by flags"); same(m.a.extract(ba),g,"extract by flag array"); } else vp_assert(m.a.extract(b).numel()==0,"extracting nothing");
  vp_assert(throws([&]{ m.a.extract(std::vector<int>{0,r}); }),"an index beyond the end is refused"); vp_assert(throws([&]{ m.a.extract(std::vector<int>{-1}); }),"a negative index is refused"); vp_assert(throws([&]{ m.a.extract(std::array<int,1>{r}); }),"an index beyond the end is refused"); vp_assert(throws([&]{ m.a.extract(std::vector<bool>(r+1,true)); }),"too many flags are refused");
  e+=1.; for(auto& x: f.v) x+=1; same(e,f,"an extracted array is modifiable"); same(m.a,m.ref,"an extracted array is independent"); vp_cover("end"); }
VP_ENTRY(sets){ auto m=any<double>(); int r=m.ref.r,c=m.ref.c; if(m.lay==CONSTVIEW) return; int i=(int)vp_choose("i",0,r-1), how=(int)vp_choose("how",0,4); std::vector<double> n; for(int j=0;j<c;++j) n.push_back(sym<double>("n"));
  Ref<double> f=m.ref; for(int j=0;j<c;++j) f.at(i,j)=n[j];
  if(how==0){ Array2<double> t(1u,(U)c); for(int j=0;j<c;++j) t.val(0,j)=n[j]; m.a.set((U)i,t); } else if(how==1){ Array2<double> t(Sh{2,(U)c},Sh{1,2}); for(int j=0;j<c;++j){ t.val(0,j)=n[j]; t.val(1,j)=99; } m.a.set((U)i,t); } else if(how==2) m.a.set((U)i,n); else if(how==3){ for(int j=0;j<c;++j) eqv(m.a.set(Sh{(U)i,(U)j},n[j]),n[j],"set returns the value"); } else { Array2<int> t(1u,(U)c); for(int j=0;j<c;++j){ t.val(0,j)=3+j; f.at(i,j)=3+j; } m.a.set((U)i,t); }
  same(m.a,f,"set changes exactly one row"); outside_kept(m); vp_assert(throws([&]{ m.a.set((U)i,Array2<double>(1u,(U)c+1)); }),"a row of the wrong length is refused"); vp_assert(throws([&]{ m.a.set((U)i,std::vector<double>(c+1,0.)); }),"a row of the wrong length is refused"); vp_cover("end"); }
VP_ENTRY(setfixed){ auto m=make<double>((int)vp_choose("r",1,RM),2,(int)vp_choose("lay",0,NLAY-2)); int i=(int)vp_choose("i",0,m.ref.r-1); std::array<double,2> n{sym<double>("n"),sym<double>("n")}; m.a.set((U)i,n); m.ref.at(i,0)=n[0]; m.ref.at(i,1)=n[1]; same(m.a,m.ref,"set changes exactly one row"); outside_kept(m); vp_cover("end"); }
VP_ENTRY(appends){ int l=(int)vp_choose("lay",0,NLAY-1), k=(int)vp_choose("lay2",0,NLAY-1), dim=(int)vp_choose("dim",0,1), r=(int)vp_choose("r",1,2), c=(int)vp_choose("c",1,2), x=(int)vp_choose("x",1,2); auto m=make<double>(r,c,l); auto n=make<double>(dim==0?x:r,dim==0?c:x,k); Ref<double> f{dim==0?r+x:r,dim==0?c:c+x,{}}; for(int i=0;i<f.r;++i) for(int j=0;j<f.c;++j) f.v.push_back( dim==0 ? (i<r? m.ref.at(i,j): n.ref.at(i-r,j)) : (j<c? m.ref.at(i,j): n.ref.at(i,j-c)) );
  auto g=cat((U)dim,m.a,n.a); same(g,f,"concatenation"); same(m.a,m.ref,"concatenation leaves its arguments alone"); same(n.a,n.ref,"concatenation leaves its arguments alone");
  Array2<double> copy=m.a.decouple(); copy.append((U)dim,n.a); same(copy,f,"append"); same(m.a,m.ref,"append to a copy leaves the original alone"); if(!inside(l)){ auto shared=m.a; shared.append((U)dim,n.a); same(shared,f,"append to an array which shares its elements"); same(m.a,m.ref,"append does not change arrays which shared the elements"); same(m.parent,m.ref,"append does not change arrays which shared the elements"); }
  Array2<int> in(dim==0?1u:(U)r,dim==0?(U)c:1u,4); auto h=m.a.decouple(); h.append((U)dim,in); vp_assert((int)h.size((U)dim)==(dim==0?r:c)+1,"append another element type"); eqv(h.val((U)h.size(0)-1,(U)h.size(1)-1),4.,"append another element type");
  vp_assert(throws([&]{ auto q=m.a.decouple(); q.append((U)dim,Array2<double>(dim==0?2u:(U)r+1,dim==0?(U)c+1:2u)); }),"appending an array of another width is refused"); vp_cover("end"); }
VP_ENTRY(resizes){ int l=(int)vp_choose("lay",0,NLAY-1); int r=(int)vp_choose("r",1,2),c=(int)vp_choose("c",1,2); auto m=make<double>(r,c,l); int nr=(int)vp_choose("nr",0,3), nc=(int)vp_choose("nc",1,3); double z=sym<double>("z"); bool up=nr>=r&&nc>=c, down=nr<=r&&nc<=c; auto a=m.a.decouple(); bool t=throws([&]{ a.resize(Sh{(U)nr,(U)nc},z); }); vp_assert(t==!(up||down),"growing one and shrinking the other dimension is refused"); if(t) return; Ref<double> f{nr,nc,{}}; for(int i=0;i<nr;++i) for(int j=0;j<nc;++j) f.v.push_back(i<r&&j<c? m.ref.at(i,j): z); same(a,f,"resize keeps the common elements and fills the new ones"); same(m.a,m.ref,"resizing a copy leaves the original alone");
  if(nc==c){ auto b=m.a.decouple(); b.resize(nr,z); same(b,f,"resize of the first dimension"); } if(inside(l)==false){ auto s=m.a; s.resize(Sh{(U)nr,(U)nc},z); same(s,f,"resize of an array which shares its elements"); same(m.a,m.ref,"resize does not change arrays which shared the elements"); } vp_cover("end"); }
VP_ENTRY(reshapes){ int l=(int)vp_choose("lay",0,NLAY-1); auto m=make<double>(2,3,l); Array2<double> a=m.a.decouple(); bool col=a.is_column_ordered(); a.reshape(Sh{3,2}); vp_assert(a.size(0)==3&&a.size(1)==2,"reshape"); for(U k=0;k<6;++k){ double e= col? m.ref.at(k%2,k/2) : m.ref.v[k]; eqv(a[k],e,"reshape keeps the linear order"); eqv(col? a[Sh{k%3,k/3}] : a[Sh{k/2,k%2}],e,"reshape keeps the linear order"); } if(l==SUB) vp_assert(throws([&]{ m.a.reshape(Sh{3,2}); }),"reshaping a view with gaps is refused"); vp_cover("end"); }
VP_ENTRY(copies){ auto m=any<double>(); auto d=m.a.decouple(); same(d,m.ref,"decouple keeps the contents"); vp_assert(d.ismutable(),"a decoupled array is modifiable"); if(m.lay!=ROWS&&m.lay!=COLS){ d+=1.; same(m.a,m.ref,"a decoupled view is independent"); } else { Array2<double> s(m.a); auto e=s.decouple(); e*=2.; same(m.a,m.ref,"a decoupled array is independent"); }
  auto c=m.a.contiguous_copy(); vp_assert(c.is_contiguous(),"contiguous copy"); same(c,m.ref,"contiguous copy"); auto k=m.a.contiguous_row_ordered_copy(); vp_assert(k.is_contiguous()&&k.is_row_ordered(),"contiguous row ordered copy"); same(k,m.ref,"contiguous row ordered copy"); for(int i=0;i<m.ref.r*m.ref.c;++i) eqv(k.data(0)[i],m.ref.v[i],"row ordered memory");
  Array2<int> ai(m.ref.r,m.ref.c,2); Array2<double> fi(ai); Ref<double> two{m.ref.r,m.ref.c,std::vector<double>(m.ref.v.size(),2.)}; same(fi,two,"conversion of the element type"); Array2<double> as=m.a; as=ai; same(as,two,"assignment from another element type"); same(m.a,m.ref,"assigning to a copy leaves the original alone"); vp_cover("end"); }
VP_ENTRY(swaps){ auto m=any<double>(); if(m.lay==CONSTVIEW) return; int a=(int)vp_choose("a",0,m.ref.r-1), b=(int)vp_choose("b",0,m.ref.r-1), p=(int)vp_choose("p",0,m.ref.c-1); m.a.swap((U)a,(U)b); for(int j=0;j<m.ref.c;++j) std::swap(m.ref.at(a,j),m.ref.at(b,j)); same(m.a,m.ref,"swap of rows"); m.a.swap((U)a,0u,(U)p); std::swap(m.ref.at(a,0),m.ref.at(a,p)); same(m.a,m.ref,"swap of elements"); outside_kept(m); vp_cover("end"); }
VP_ENTRY(permutes){ int r=(int)vp_choose("r",1,4), l=(int)vp_choose("lay",0,NLAY-2); auto m=make<double>(r,1+(l&1),l); std::vector<int> p(r); unsigned seen=0; for(auto& x:p){ x=(int)vp_choose("p",0,r-1); if(seen&(1u<<x)) return; seen|=1u<<x; } Ref<double> f=m.ref; auto keep=p; m.a.permute(p); vp_assert(p==keep,"the permutation is not changed"); for(int i=0;i<r;++i) for(int j=0;j<f.c;++j) f.at(i,j)=m.ref.at(p[i],j); same(m.a,f,"permute puts row p[i] in place i"); outside_kept(m); vp_cover("end"); }
VP_ENTRY(empty){ Array2<double> e; vp_assert(e.numel()==0,"a default array is empty"); Array2<double> z(0u,3u); vp_assert(z.numel()==0&&z.size(0)==0&&z.size(1)==3,"an array without rows"); int n=0; for(auto x: z.valItr()){ (void)x; ++n; } vp_assert(n==0,"nothing to iterate"); vp_assert(z.to_std().empty(),"nothing to copy"); auto d=z.decouple(); vp_assert(d.numel()==0,"copy of nothing"); Array2<double> r(1u,3u); for(U j=0;j<3;++j) r.val(0,j)=sym<double>("r"); Ref<double> f{1,3,{r.val(0,0),r.val(0,1),r.val(0,2)}}; auto a=z.decouple(); a.append(0,r); same(a,f,"append to an empty array"); auto b=cat(0,z,r); same(b,f,"append to an empty array"); r.append(0,Array2<double>(0u,3u)); same(r,f,"append nothing"); vp_assert(z.is_unique().empty()&&z.unique_idx().empty(),"no rows to be unique"); eqv(z.sum(),0.,"the sum of nothing"); vp_assert(z.count()==0&&!z.any()&&z.all(),"quantifiers over nothing"); auto v=r.view(1,1); vp_assert(v.numel()==0,"an empty range"); auto s=z+1.; vp_assert(s.numel()==0,"arithmetic with nothing"); Array2<double> t; t=r; same(t,f,"assignment to an empty array"); t=Array2<double>(); vp_assert(t.numel()==0,"assignment of an empty array"); same(r,f,"assignment of an empty array"); vp_cover("end"); }
VP_ENTRY(fromstd){ std::vector<double> v; for(int i=0;i<3;++i) v.push_back(sym<double>("v")); auto a=Array2<double>::from_std(v); same(a,Ref<double>{3,1,v},"array from a vector"); std::vector<std::array<double,2>> w{{v[0],v[1]},{v[2],v[0]}}; same(Array2<double>::from_std(w),Ref<double>{2,2,{v[0],v[1],v[2],v[0]}},"array from a list of rows"); Array2<double> f(2u,2u,v[0]); same(f,Ref<double>{2,2,{v[0],v[0],v[0],v[0]}},"filled array"); Array2<double> z(2u,2u); same(z,Ref<double>{2,2,{0,0,0,0}},"new elements are zero"); vp_assert(throws([&]{ double d[3]={1,2,3}; Array2<double> b(d,3,false,Sh{2,2},Sh{2,1}); }),"memory which is too small is refused"); double d[4]={v[0],v[1],v[2],7}; { Array2<double> b(d,4,false,Sh{2,2},Sh{1,2}); same(b,Ref<double>{2,2,{v[0],v[2],v[1],7}},"wrapped memory"); auto c=b.decouple(); c+=1.; } eqv(d[0],v[0],"wrapped memory is not owned"); vp_cover("end"); }
// ---- ownership: any history of copies, views, assignments and destruction
VP_ENTRY(histories){ const int N=3; struct Slot { std::unique_ptr<Array2<double>> a; Ref<double> f; int grp=-1; }; Slot s[N]; int groups=0; auto alloc=[&](int i){ int r=2,c=2; Ref<double> f{r,c,{}}; s[i].a.reset(new Array2<double>(2u,2u)); for(int k=0;k<4;++k){ f.v.push_back(sym<double>("x")); s[i].a->val((U)k/2,(U)k%2)=f.v[k]; } s[i].f=f; s[i].grp=groups++; }; alloc(0); alloc(1);
#ifdef VP_THOROUGH
  const int STEPS=4;
#else
  const int STEPS=3;
#endif
  for(int k=0;k<STEPS;++k){ int op=(int)vp_choose("op",0,8); int i=(int)vp_choose("i",0,N-1), j=op==2||op==0||op==7?0:(int)vp_choose("j",0,N-1); auto& A=s[i]; auto& B=s[j];
    switch(op){ case 0: A.a.reset(); A.grp=-1; break;
      case 1: if(!B.a) return; if(i==j) return; A.a.reset(new Array2<double>(*B.a)); A.f=B.f; A.grp=B.grp; break;
      case 2: { if(!A.a) return; bool t=throws([&]{ *A.a+=1.; }); vp_assert(t==!A.a->ismutable(),"only immutable arrays refuse to be changed"); if(!t) for(auto& y: s) if(y.a&&y.grp==A.grp) for(auto& x: y.f.v) x+=1; break; }
      case 3: if(!A.a||!B.a) return; *A.a=*B.a; A.f=B.f; A.grp=B.grp; break;
      case 4: if(!A.a||!B.a) return; *A.a=B.a->decouple(); { bool shared=false; if(i!=j){ shared=B.a->data(0)==A.a->data(0); } A.f=B.f; if(shared) A.grp=B.grp; else if(i!=j||!(B.grp>=0)) A.grp=groups++; else { bool alias=false; for(int q=0;q<N;++q) if(q!=i&&s[q].a&&s[q].grp==A.grp&&s[q].a->data(0)==A.a->data(0)) alias=true; if(!alias) A.grp=groups++; } } break;
      case 5: if(!A.a||!B.a||B.a->size(0)==0) return; *A.a=B.a->extract(std::vector<int>{(int)B.a->size(0)-1}); A.f=rowsof(B.f,{B.f.r-1}); A.grp=groups++; break;
      case 6: if(!A.a||!B.a||i==j) return; if(A.a->raw_shift()>0) return; if(A.f.c!=B.f.c) return; A.a->append(0,*B.a); for(double x: B.f.v) A.f.v.push_back(x); A.f.r+=B.f.r; A.grp=groups++; break;
      case 7: if(!A.a) return; *A.a=A.a->view((U)A.a->size(0)-1).decouple(); A.f=rowsof(A.f,{A.f.r-1}); A.grp=groups++; break;
      case 8: if(!A.a||!B.a||i==j) return; if(A.grp!=B.grp) return; B.a.reset(); B.grp=-1; break; }
    for(auto& y: s) if(y.a) same(*y.a,y.f,"every array keeps its own contents"); }
  vp_cover("end"); }
VP_ENTRY(outlive){ int l=(int)vp_choose("lay",0,NLAY-1); Array2<double> v; Ref<double> f; { auto m=make<double>(2,2,l); v=m.a; f=m.ref; } same(v,f,"a view keeps the elements of its parent alive"); Array2<double> w; { Array2<double> u=v.view(1); w=u; } v=Array2<double>(); same(w,rowsof(f,{1}),"a view of a view keeps the elements alive"); w=w.view(0); same(w,rowsof(f,{1}),"assigning an array its own view"); w=w; same(w,rowsof(f,{1}),"self assignment"); Array2<double> x; { auto it=w.valItr(); w=Array2<double>(); for(auto y: it){ eqv(y,f.at(1,0),"an iterator keeps the elements alive"); break; } } vp_cover("end"); }
// ---- arithmetic
VP_ENTRY(scalar_ops){ int r=(int)vp_choose("r",1,2),c=(int)vp_choose("c",1,2); auto m=make<double>(r,c,(int)vp_choose("lay",0,NLAY-1)); double s=vp_real("s",1,5); struct O{ const char* n; }; auto f=m.ref; auto chk=[&](Array2<double> g,auto op,const char* w){ Ref<double> e=m.ref; for(auto& x:e.v) x=op(x); same(g,e,w); };
  chk(m.a+s,[&](double x){return x+s;},"array + scalar"); chk(m.a-s,[&](double x){return x-s;},"array - scalar"); chk(m.a*s,[&](double x){return x*s;},"array * scalar"); chk(m.a/s,[&](double x){return x/s;},"array / scalar"); chk(s+m.a,[&](double x){return s+x;},"scalar + array"); chk(s-m.a,[&](double x){return s-x;},"scalar - array"); chk(s*m.a,[&](double x){return s*x;},"scalar * array"); chk(m.a.operator-(),[&](double x){return -x;},"- array"); chk(m.a.abs(),[&](double x){return x<0?-x:x;},"abs"); chk(brille::abs(m.a),[&](double x){return x<0?-x:x;},"abs"); same(m.a,m.ref,"operands are not changed");
  if(m.lay==ROWS||m.lay==COLS){ auto d=m.a.decouple(); d+=s; chk(d,[&](double x){return x+s;},"+= scalar"); d-=s; d-=s; chk(d,[&](double x){return x-s;},"-= scalar"); d+=s; d*=s; chk(d,[&](double x){return x*s;},"*= scalar"); d/=s; d/=s; chk(d,[&](double x){return x/s;},"/= scalar"); } vp_cover("end"); }
VP_ENTRY(array_ops){ int r=(int)vp_choose("r",1,2),c=(int)vp_choose("c",1,2), l=(int)vp_choose("lay",0,NLAY-1), k=(int)vp_choose("lay2",0,NLAY-1), br=(int)vp_choose("br",0,1), bc=(int)vp_choose("bc",0,1); auto m=make<double>(r,c,l); auto n=make<double>(br?1:r,bc?1:c,k); for(auto x: n.ref.v) vp_assume(vp_or(x>=1,x<=-1)); auto B=[&](int i,int j){ return n.ref.at(br?0:i,bc?0:j); };
  auto chk=[&](const Array2<double>& g,auto op,const char* w){ Ref<double> e{r,c,{}}; for(int i=0;i<r;++i) for(int j=0;j<c;++j) e.v.push_back(op(m.ref.at(i,j),B(i,j))); same(g,e,w); };
  auto pl=[](double x,double y){return x+y;}; auto mi=[](double x,double y){return x-y;}; auto mu=[](double x,double y){return x*y;}; auto di=[](double x,double y){return x/y;}; chk(m.a+n.a,pl,"array + array"); chk(m.a-n.a,mi,"array - array"); chk(m.a*n.a,mu,"array * array"); chk(m.a/n.a,di,"array / array"); chk(n.a+m.a,pl,"broadcast of the first operand"); chk(n.a-m.a,[](double x,double y){return y-x;},"broadcast of the first operand");
  same(m.a,m.ref,"operands are not changed"); same(n.a,n.ref,"operands are not changed"); { auto d=m.a.contiguous_copy().decouple(); d=Array2<double>(d.view()).decouple(); d+=n.a; chk(d,pl,"+= array"); } { auto d=m.a.view().decouple(); d-=n.a; chk(d,mi,"-= array"); } { auto d=m.a.view().decouple(); d*=n.a; chk(d,mu,"*= array"); } { auto d=m.a.view().decouple(); d/=n.a; chk(d,di,"/= array"); }
  Array2<int> q((U)(br?1:r),(U)(bc?1:c),3); auto d=m.a+q; Ref<double> e=m.ref; for(auto& x:e.v) x+=3; same(d,e,"mixed element types"); vp_cover("end"); }
VP_ENTRY(array_refused){ auto m=make<double>(2,2,(int)vp_choose("lay",0,NLAY-1)); Array2<double> t(3u,2u), w(2u,3u), o(1u,2u); vp_assert(throws([&]{ auto x=m.a+t; }),"shapes which do not match are refused"); vp_assert(throws([&]{ auto x=m.a*w; }),"shapes which do not match are refused"); vp_assert(throws([&]{ o+=m.a; }),"an array does not grow in place"); vp_assert(throws([&]{ o*=t; }),"an array does not grow in place"); vp_cover("end"); }
VP_ENTRY(stdarray_ops){ int r=(int)vp_choose("r",1,2); auto m=make<double>(r,2,(int)vp_choose("lay",0,NLAY-1)); std::array<double,2> b{vp_real("b",1,5),vp_real("b",1,5)}; auto chk=[&](const Array2<double>& g,auto op,const char* w){ Ref<double> e=m.ref; for(int i=0;i<r;++i) for(int j=0;j<2;++j) e.at(i,j)=op(e.at(i,j),b[j]); same(g,e,w); }; chk(m.a+b,[](double x,double y){return x+y;},"array + std::array"); chk(m.a-b,[](double x,double y){return x-y;},"array - std::array"); chk(m.a*b,[](double x,double y){return x*y;},"array * std::array"); chk(m.a/b,[](double x,double y){return x/y;},"array / std::array"); same(m.a,m.ref,"operands are not changed"); vp_cover("end"); }
VP_ENTRY(reductions){ auto m=any<double>(); int d=(int)vp_choose("dim",0,1); int no= d==0?m.ref.c:m.ref.r; auto s=m.a.sum((U)d), p=m.a.prod((U)d), lo=m.a.min((U)d), hi=m.a.max((U)d); U e0= d==0?1:m.ref.r, e1= d==0?m.ref.c:1; for(auto* x: {&s,&p,&lo,&hi}) vp_assert(x->size(0)==e0&&x->size(1)==e1,"the reduced dimension has one element"); double all=0,pall=1;
  for(int k=0;k<no;++k){ double S=0,P=1,L=0,H=0; int n= d==0?m.ref.r:m.ref.c; for(int i=0;i<n;++i){ double x= d==0? m.ref.at(i,k): m.ref.at(k,i); S+=x; P*=x; L= i==0||x<L? x:L; H= i==0||x>H? x:H; } Sh q= d==0? Sh{0,(U)k}: Sh{(U)k,0}; eqv(s[q],S,"sum over a dimension"); eqv(p[q],P,"product over a dimension"); eqv(lo[q],L,"minimum over a dimension"); eqv(hi[q],H,"maximum over a dimension"); }
  for(double x: m.ref.v){ all+=x; pall*=x; } eqv(m.a.sum(),all,"sum of all elements"); eqv(m.a.prod(),pall,"product of all elements"); vp_cover("end"); }
VP_ENTRY(rounding){ int r=(int)vp_choose("r",1,2); auto m=make<double>(r,2,(int)vp_choose("lay",0,NLAY-1),false); double x=vp_real("y",-3,3); int i=r-1; Array2<double> par=m.parent; Sh at{(U)(i+(inside(m.lay)?1:0)),(U)(m.lay==SUB?1:0)}; par[at]=x; m.ref.at(i,0)=x; auto f=m.a.floor(), c=m.a.ceil(), n=m.a.round(); for(int p=0;p<r;++p) for(int q=0;q<2;++q){ double y=m.ref.at(p,q); int F=f.val(p,q),C=c.val(p,q),N=n.val(p,q); vp_assert(vp_and(F<=y,y<F+1),"floor"); vp_assert(vp_and(C>=y,y>C-1),"ceil"); vp_assert(vp_and(N-y<=0.5,y-N<=0.5),"round"); } vp_cover("end"); }
VP_ENTRY(products){ int r=(int)vp_choose("r",1,2), how=(int)vp_choose("how",0,2); int l= how==2? (int)vp_choose("lay",0,NLAY-1) : (int)vp_choose("lay",0,1); auto m=make<double>(r,3,l); auto n=make<double>(how==1?1:r,3,how==1?ROWS:l); auto D=[&](const Ref<double>& a,int i,const Ref<double>& b,int j){ double s=0; for(int k=0;k<3;++k) s+=a.at(i,k)*b.at(j,k); return s; };
  if(how==2){ for(int i=0;i<r;++i) for(int j=0;j<r;++j) eqv(m.a.dot((U)i,(U)j),D(m.ref,i,m.ref,j),"dot product of two rows"); }
  else { auto d=brille::dot(m.a,n.a), e=brille::dot(n.a,m.a); auto x=brille::cross(m.a,n.a), y=brille::cross(n.a,m.a); auto nn=brille::norm(m.a); vp_assert((int)d.size(0)==r&&(int)x.size(0)==r&&(int)nn.size(0)==r,"one result per row"); for(int i=0;i<r;++i){ int k= how==1?0:i; eqv(d.val(i,0),D(m.ref,i,n.ref,k),"dot product"); eqv(e.val(i,0),D(m.ref,i,n.ref,k),"dot product"); for(int j=0;j<3;++j){ int a=(j+1)%3,b=(j+2)%3; double c=m.ref.at(i,a)*n.ref.at(k,b)-m.ref.at(i,b)*n.ref.at(k,a); eqv(x.val(i,j),c,"cross product"); eqv(y.val(i,j),-c,"cross product is antisymmetric"); } double w=nn.val(i,0); vp_assert(w>=0,"norm is not negative"); eqv(w*w,D(m.ref,i,m.ref,i),"norm squared"); } } vp_cover("end"); }
// ---- comparisons and searches
static const cmp CMPS[]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::nle,cmp::nge,cmp::neq};
VP_ENTRY(compare_scalar){ int r=(int)vp_choose("r",1,2),c=(int)vp_choose("c",1,2); auto m=make<int>(r,c,(int)vp_choose("lay",0,NLAY-1)); int s=sym<int>("s"); cmp e=CMPS[vp_choose("cmp",0,7)]; Comparer<int,int> op(e); bool col=(m.lay==COLS||m.lay==COLRANGE); auto is=m.a.is(e,s); vp_assert((int)is.size(0)==r&&(int)is.size(1)==c,"one answer per element"); std::vector<bool> lin; bool all=true,any=false; int cnt=0; for(int i=0;i<r;++i) for(int j=0;j<c;++j){ bool b=op(m.ref.at(i,j),s); vp_assert(is[Sh{(U)i,(U)j}]==b,"each element is compared"); all=vp_and(all,b); any=vp_or(any,b); cnt+=b; }
  for(int k=0;k<r*c;++k){ int i= col&&r>1&&c>1? k%r : k/c, j= col&&r>1&&c>1? k/r : k%c; lin.push_back(op(m.ref.at(i,j),s)); }
  vp_assert(m.a.all(e,s)==all,"all"); vp_assert(m.a.any(e,s)==any,"any"); vp_assert((int)m.a.count(e,s)==cnt,"count"); U f=r*c,l=r*c; for(int k=r*c;k--;) if(lin[k]) f=k; for(int k=0;k<r*c;++k) if(lin[k]) l=k; vp_assert(m.a.first(e,s)==f,"first"); vp_assert(m.a.last(e,s)==l,"last"); auto fd=m.a.find(e,s); size_t n=0; for(int k=0;k<r*c;++k) if(lin[k]){ vp_assert(n<fd.size()&&fd[n]==(U)k,"find"); ++n; } vp_assert(n==fd.size(),"find");
  vp_cover("end"); }
VP_ENTRY(all_le_ge){ auto m=make<double>(2,1,(int)vp_choose("lay",0,NLAY-1)); double s=sym<double>("s"), t=vp_choose("tol",0,1)/8.; Comparer<double,double> le(cmp::le,t,t,1), ge(cmp::ge,t,t,1); bool L=vp_and(le(m.ref.v[0],s),le(m.ref.v[1],s)), G=vp_and(ge(m.ref.v[0],s),ge(m.ref.v[1],s)); vp_assert(m.a.all(cmp::le_ge,s,t,1)==vp_or(L,G),"all on one side"); vp_cover("end"); }
VP_ENTRY(quantifiers){ int r=(int)vp_choose("r",1,2),c=(int)vp_choose("c",1,2); auto m=make<int>(r,c,(int)vp_choose("lay",0,NLAY-1)); bool col=(m.lay==COLS||m.lay==COLRANGE)&&r>1&&c>1; int N=r*c; int n=(int)vp_choose("n",0,N+1); int no= n>0&&n<N? n:N; int v=sym<int>("v"); bool all=true,any=false,alv=true,anv=false; int cnt=0,cv=0; U f=no,l=no,fv=no,lv=no; for(int k=0;k<no;++k){ int x= col? m.ref.at(k%r,k/r): m.ref.v[k]; bool t=x!=0, q=x==v; all=vp_and(all,t); any=vp_or(any,t); alv=vp_and(alv,q); anv=vp_or(anv,q); cnt+=t; cv+=q; if(t){ if(f==(U)no) f=k; l=k; } if(q){ if(fv==(U)no) fv=k; lv=k; } }
  vp_assert(m.a.all((U)n)==all,"all"); vp_assert(m.a.any((U)n)==any,"any"); vp_assert((int)m.a.count((U)n)==cnt,"count"); vp_assert(m.a.first((U)n)==f,"first"); vp_assert(m.a.last((U)n)==l,"last"); vp_assert(m.a.all(v,(U)n)==alv,"all equal"); vp_assert(m.a.any(v,(U)n)==anv,"any equal"); vp_assert((int)m.a.count(v,(U)n)==cv,"count equal"); vp_assert(m.a.first(v,(U)n)==fv,"first equal"); vp_assert(m.a.last(v,(U)n)==lv,"last equal"); vp_cover("end"); }
VP_ENTRY(compare_array){ int r=(int)vp_choose("r",1,2),c=(int)vp_choose("c",1,2), br=(int)vp_choose("br",0,1); auto m=make<int>(r,c,(int)vp_choose("lay",0,NLAY-1)); auto n=make<int>(br?1:r,c,(int)vp_choose("lay2",0,NLAY-1)); cmp e=CMPS[(int)vp_choose("cmp",0,3)*2]; Comparer<int,int> op(e); auto is=m.a.is(e,n.a); auto ri=m.a.row_is(e,n.a); vp_assert((int)is.size(0)==r&&(int)is.size(1)==c,"one answer per element"); vp_assert((int)ri.numel()==r,"one answer per row"); bool eqall=true; U f=r,l=r,cnt=0; std::vector<U> fd;
  for(int i=0;i<r;++i){ bool neg= e==cmp::nge||e==cmp::nle||e==cmp::neq, row=!neg; for(int j=0;j<c;++j){ int y=n.ref.at(br?0:i,j); vp_assert(is[Sh{(U)i,(U)j}]==op(m.ref.at(i,j),y),"each element is compared with its partner"); row= neg? vp_or(row,op(m.ref.at(i,j),y)) : vp_and(row,op(m.ref.at(i,j),y)); eqall=vp_and(eqall,m.ref.at(i,j)==y); } vp_assert(ri[(U)i]==row,"rows are compared element by element"); if(row){ if(f==(U)r) f=i; l=i; ++cnt; fd.push_back(i); } }
  vp_assert(m.a.is(n.a)==eqall,"equality of arrays"); vp_assert((m.a==n.a)==eqall,"equality of arrays"); if(!br) vp_assert((m.a!=n.a)==vp_not(eqall),"inequality of arrays"); vp_assert(m.a.first(e,n.a)==f,"first row"); vp_assert(m.a.last(e,n.a)==l,"last row"); vp_assert(m.a.count(e,n.a)==cnt,"number of rows"); vp_assert(m.a.find(e,n.a)==fd,"rows found"); std::vector<int> row0(n.ref.v.begin(),n.ref.v.begin()+c); auto rv=m.a.row_is(e,row0); for(int i=0;i<r;++i){ bool neg= e==cmp::nge||e==cmp::nle||e==cmp::neq, row=!neg; for(int j=0;j<c;++j) row= neg? vp_or(row,op(m.ref.at(i,j),row0[j])) : vp_and(row,op(m.ref.at(i,j),row0[j])); vp_assert(rv[i]==row,"rows are compared with a vector"); }
  if(!br){ auto ei=m.a.each_is(e,n.ref.v); for(int k=0;k<r*c;++k) vp_assert(ei[k]==op(m.ref.v[k],n.ref.v[k]),"elements are compared with a list"); } vp_cover("end"); }
VP_ENTRY(compare_refused){ auto m=make<int>(2,2,(int)vp_choose("lay",0,NLAY-1),false); Array2<int> t(3u,2u), w(2u,3u); vp_assert(throws([&]{ m.a.is(cmp::eq,t); }),"other shapes are refused"); vp_assert(throws([&]{ m.a.is(cmp::eq,w); }),"other shapes are refused"); vp_assert(throws([&]{ m.a.row_is(cmp::eq,t); }),"other shapes are refused"); vp_assert(throws([&]{ m.a.first(cmp::eq,t); }),"other shapes are refused"); vp_assert(throws([&]{ m.a.find(cmp::eq,w); }),"other shapes are refused"); vp_assert(m.a!=t,"arrays of another shape differ"); vp_cover("end"); }
VP_ENTRY(compare_tol){ auto m=make<double>(2,2,(int)vp_choose("lay",0,NLAY-1)); auto n=make<double>(2,2,(int)vp_choose("lay2",0,1)); double t=vp_choose("tol",0,1)/8.; bool e=approx_float::vector(4,m.ref.v.data(),n.ref.v.data(),t,t,1); vp_assert(m.a.is(n.a,t,t,1)==e,"equality within a tolerance"); bool r0=approx_float::vector(2,m.ref.v.data(),n.ref.v.data(),t,t,1); vp_assert(m.a.view(0).is(n.a.view(0),t,t,1)==r0,"equality of rows within a tolerance"); vp_assert((m.a.count(cmp::eq,n.a,t,t,1)==2)==e,"rows within a tolerance"); vp_cover("end"); }
VP_ENTRY(uniques){ int r=(int)vp_choose("r",1,RM),c=(int)vp_choose("c",1,2); auto m=make<int>(r,c,(int)vp_choose("lay",0,NLAY-1)); auto u=m.a.is_unique(); auto x=m.a.unique_idx(); vp_assert((int)u.size()==r&&(int)x.size()==r,"one answer per row"); auto q=m.a.unique(); std::vector<int> keep; for(int i=0;i<r;++i){ int first=i; for(int k=i;k-->0;){ bool s=true; for(int j=0;j<c;++j) s=vp_and(s,m.ref.at(i,j)==m.ref.at(k,j)); if(s) first=k; } vp_assert((bool)u[i]==(first==i),"a row is unique when no earlier row equals it"); vp_assert((int)x[i]==first,"index of the first equal row"); if(first==i) keep.push_back(i); } same(q,rowsof(m.ref,keep),"the unique rows in order"); vp_cover("end"); }
VP_ENTRY(uniques_tol){ auto m=make<double>(2,2,(int)vp_choose("lay",0,NLAY-1)); double t=vp_choose("tol",0,1)/8.; bool e=approx_float::vector(2,&m.ref.v[0],&m.ref.v[2],t,t,1); vp_assert(m.a.is_unique(t,1)[1]==vp_not(e),"unique within a tolerance"); vp_assert(m.a.unique_idx(t,1)[1]==(e?0u:1u),"first equal row within a tolerance"); vp_assert(m.a.unique(t,1).size(0)==(e?1u:2u),"unique rows within a tolerance"); vp_cover("end"); }
VP_ENTRY(permutations){ int r=(int)vp_choose("r",1,RM); int l=(int)vp_choose("lay",0,2); auto m=make<int>(r,1,l), n=make<int>(r,1,(int)vp_choose("lay2",0,1)); bool perm=true; for(int i=0;i<r;++i){ int a=0,b=0; for(int k=0;k<r;++k){ a+=m.ref.v[k]==m.ref.v[i]; b+=n.ref.v[k]==m.ref.v[i]; } perm=vp_and(perm,a==b); } vp_assert(m.a.is_permutation(n.a)==perm,"the same rows equally often"); if(perm){ auto p=m.a.permutation_vector(n.a); unsigned seen=0; vp_assert((int)p.size()==r,"one partner per row"); for(int i=0;i<r;++i){ bool ok=(int)p[i]<r; vp_assert(ok,"partner exists"); if(!ok) return; vp_assert(n.ref.v[p[i]]==m.ref.v[i],"row p[i] of the other array equals row i"); vp_assert(!(seen>>p[i]&1),"partners are distinct"); seen|=1u<<p[i]; } } vp_assert(!m.a.is_permutation(Array2<int>((U)r+1,1u)),"another number of rows"); vp_cover("end"); }
VP_ENTRY(permutation_tol){ auto m=make<double>(2,1,0), n=make<double>(2,1,0); double t=vp_real("t",0,1); auto e=[&](double a,double b){ return approx_float::scalar(a,b,t,t,1); }; bool p=true; for(int i=0;i<2;++i){ int a=0,b=0; for(int k=0;k<2;++k){ a+=e(m.ref.v[k],m.ref.v[i]); b+=e(n.ref.v[k],m.ref.v[i]); } p=vp_and(p,a==b); } vp_assert(m.a.is_permutation(n.a,t,t,1)==p,"permutation within a tolerance"); vp_cover("end"); }
VP_ENTRY(matches){ int l=(int)vp_choose("lay",0,NLAY-1); auto m=make<int>(2,2,l); int i=(int)vp_choose("i",0,1), j=(int)vp_choose("j",0,1), v=(int)vp_choose("v",1,3); int op=(int)vp_choose("op",0,2); ops O[]={ops::plus,ops::minus,ops::times}; bool e=true; for(int k=0;k<2;++k){ int b=m.ref.at(j,k); e=vp_and(e,m.ref.at(i,k)==(op==0?b+v:op==1?b-v:b*v)); } vp_assert(m.a.match((U)i,(U)j,O[op],v)==e,"rows related by an operation"); std::array<int,4> R{0,-1,1,0}; int o=(int)vp_choose("order",0,4); int x=m.ref.at(j,0),y=m.ref.at(j,1); bool q=false; int X=x,Y=y; for(int k=0;k<=o;++k){ bool s=vp_and(m.ref.at(i,0)==X,m.ref.at(i,1)==Y); if(k==o) vp_assert(m.a.match((U)i,(U)j,R,o)==s,"rows related by a power of a rotation"); q=vp_or(q,s); int t=-Y; Y=X; X=t; } if(o>0) vp_assert(m.a.match((U)i,(U)j,R,-o)==q,"rows related by any power of a rotation"); vp_cover("end"); }
