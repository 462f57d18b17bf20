// Saving to a file and reading back (P50); the file is an in-memory tree (rt/hf) with HighFive's interface
#include "vp.h"
#include <memory>
#include <iostream>
#include <numeric>
#include <algorithm>
#include "lapjv.hpp"
#include "bz.hpp"
#include "bz_trellis.hpp"
#include "bz_mesh.hpp"
#include "geo_model.h"
using namespace brille; using namespace brille::lattice; using V3=std::array<double,3>; using M9=std::array<int,9>; using D9=std::array<double,9>; using BA=bArray<double>; using cx=std::complex<double>; using CA=bArray<cx>; using Sh=std::vector<ind_t>; using El=std::array<ind_t,3>;
#ifdef VP_THOROUGH
#define TH(a,b) (b)
#else
#define TH(a,b) (a)
#endif
#define LINE_S TH(.8,1.5)
#include "zones.h"
static HighFive::File file(){ return HighFive::File("scratch",HighFive::File::OpenOrCreate); }
static double R(const char* n="d"){ return vp_real(n,-4,4); }
static void sm(double a,double b,const char* m){ vp_assert_eq(a,b,m); } static void sm(int a,int b,const char* m){ vp_assert(a==b,m); } static void sm(ind_t a,ind_t b,const char* m){ vp_assert(a==b,m); }
static void sm(cx a,cx b,const char* m){ vp_assert_eq(a.real(),b.real(),m); vp_assert_eq(a.imag(),b.imag(),m); }
template<class T> static void same(const Array2<T>& a,const Array2<T>& b,const char* m){ vp_assert(a.size(0)==b.size(0)&&a.size(1)==b.size(1),m); if(a.size(0)!=b.size(0)||a.size(1)!=b.size(1)) return; for(ind_t i=0;i<a.size(0);++i) for(ind_t j=0;j<a.size(1);++j) sm(a.val(i,j),b.val(i,j),m); }
template<class T> static T val(); template<> double val<double>(){ return R("d"); } template<> cx val<cx>(){ double a=R("re"); return cx(a,R("im")); } template<> int val<int>(){ return (int)vp_int("i",-9,9); }
template<class F> static bool throws(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
// arrays of every memory layout, replacing what was stored before
template<class T> static void arr(){ int lay=(int)vp_choose("lay",0,4); ind_t r=(ind_t)vp_choose("r",1,3),c=(ind_t)vp_choose("c",1,3); bool in=lay>1; ind_t pr=r+(in?1:0),pc=c+(lay==3?1:0); Array2<T> p= lay==1||lay==4? Array2<T>(std::array<ind_t,2>{pr,pc},std::array<ind_t,2>{1u,pr}): Array2<T>(pr,pc); for(ind_t i=0;i<pr;++i) for(ind_t j=0;j<pc;++j) p[std::array<ind_t,2>{i,j}]=val<T>();
  Array2<T> a= lay==2||lay==4? p.view(1u,r+1): lay==3? p.view(std::array<ind_t,2>{1,1}): p; auto f=file(); if(vp_choose("before",0,1)){ Array2<T> o(2u,5u,T(1)); vp_assert(o.to_hdf(f,"x"),"writing succeeds"); }
  vp_assert(a.to_hdf(f,"x"),"writing succeeds"); auto b=Array2<T>::from_hdf(f,"x"); same(a,b,"an array is read as it was written"); Array2<T> z(r,0u); z.to_hdf(f,"x"); auto y=Array2<T>::from_hdf(f,"x"); vp_assert(y.size(0)==r&&y.size(1)==0,"an array without elements keeps its shape"); vp_assert(throws([&]{ Array2<T>::from_hdf(f,"y"); }),"what was not written can not be read"); vp_cover("end"); }
VP_ENTRY(arrays){ if(vp_choose("type",0,1)) arr<cx>(); else arr<double>(); }
VP_ENTRY(arrays_named){ BA a(2u,3u); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<3;++j) a.val(i,j)=R(); vp_assert(a.to_hdf("scratch","g/x"),"writing succeeds"); Array2<ind_t> n(3u,1u); for(ind_t i=0;i<3;++i) n.val(i,0)=(ind_t)vp_int("n",0,1000); n.to_hdf("scratch","g/n"); same(a,BA::from_hdf("scratch","g/x"),"an array is read as it was written"); same(n,Array2<ind_t>::from_hdf("scratch","g/n"),"an array is read as it was written"); vp_assert(throws([&]{ BA::from_hdf("other","g/x"); }),"a missing file is refused"); vp_cover("end"); }
VP_ENTRY(lists){ auto f=file(); std::vector<std::vector<ind_t>> l((size_t)vp_choose("n",0,TH(2,3))); for(auto& x:l){ x.resize((size_t)vp_choose("m",0,2)); for(auto& y:x) y=(ind_t)vp_int("y",0,99); } lists_to_hdf(std::vector<std::vector<ind_t>>{{1},{2},{3}},f,"l"); vp_assert(lists_to_hdf(l,f,"l"),"writing succeeds"); auto k=lists_from_hdf<ind_t>(f,"l"); vp_assert(k.size()==l.size(),"lists are read as they were written"); for(size_t i=0;i<l.size();++i){ vp_assert(k[i].size()==l[i].size(),"lists are read as they were written"); for(size_t j=0;j<l[i].size();++j) vp_assert(k[i][j]==l[i][j],"lists are read as they were written"); }
  std::map<size_t,size_t> m; int n=(int)vp_choose("keys",0,3); for(int i=0;i<n;++i) m[(size_t)((i*5)%7)]=(size_t)vp_int("v",0,99); map_to_hdf(m,f,"m"); auto o=map_from_hdf<size_t,size_t>(f,"m"); vp_assert(o.size()==m.size(),"maps are read as they were written"); for(auto& x:m) vp_assert(o.count(x.first)&&o[x.first]==x.second,"maps are read as they were written"); vp_cover("end"); }
static M9 rot(){ M9 r; for(auto& x:r) x=(int)vp_int("r",-2,2); return r; }
VP_ENTRY(motions){ auto f=file(); using Mo=Motion<int,double>; Symmetry s; std::vector<Mo> e; int n=(int)vp_choose("n",1,3); for(int i=0;i<n;++i){ V3 t; for(auto& x:t) x=vp_real("t",-2,2); e.emplace_back(rot(),t); s.add(e[i]); } auto chk=[](const Mo& a,const Mo& b,const char* m){ auto x=a.getr(),y=b.getr(); for(int i=0;i<9;++i) vp_assert(x[i]==y[i],m); auto u=a.gett(),v=b.gett(); for(int i=0;i<3;++i) sm(u[i],v[i],m); };
  vp_assert(e[0].to_hdf(f,"m"),"writing succeeds"); chk(e[0],Mo::from_hdf(f,"m"),"a motion is read as it was written"); vp_assert(s.to_hdf(f,"s"),"writing succeeds"); auto t=Symmetry::from_hdf(f,"s"); vp_assert(t.size()==s.size(),"motions are read as they were written"); for(size_t i=0;i<s.size();++i){ chk(Mo(s.getr(i),s.gett(i)),Mo(t.getr(i),t.gett(i)),"motions are read as they were written"); }
  vp_cover("end"); }
VP_ENTRY(points){ auto f=file(); static const M9 PM[]={{-1,0,0,0,-1,0,0,0,-1},{0,1,0,0,0,1,1,0,0},{1,-1,0,1,0,0,0,0,1},{0,-1,0,1,0,0,0,0,1},{1,0,0,0,-1,0,0,0,1},{-1,0,0,0,1,0,0,0,-1}}; PointSymmetry p(std::vector<M9>{PM[vp_choose("p",0,5)],PM[vp_choose("p",0,1)],M9{1,0,0,0,1,0,0,0,1},M9{0,-1,0,1,0,0,0,0,1}}); p.to_hdf(f,"p"); auto q=PointSymmetry::from_hdf(f,"p"); vp_assert(q.size()==p.size(),"rotations are read as they were written"); for(size_t i=0;i<p.size();++i){ bool in=false; auto a=p.get(i); for(size_t j=0;j<q.size();++j){ auto b=q.get(j); bool s=true; for(int k=0;k<9;++k) s=vp_and(s,a[k]==b[k]); in=vp_or(in,s); } vp_assert(in,"rotations are read as they were written"); }
  int n=(int)vp_choose("n",0,3); std::vector<V3> pos(n); std::vector<ind_t> typ(n); for(int i=0;i<n;++i){ for(auto& x:pos[i]) x=vp_real("x",-1,2); typ[i]=(ind_t)vp_int("t",0,9); } Basis b(pos,typ); b.to_hdf(f,"b"); auto c=Basis::from_hdf(f,"b"); vp_assert(c.size()==b.size(),"atoms are read as they were written"); for(int i=0;i<n;++i){ auto u=b.position(i),v=c.position(i); for(int k=0;k<3;++k) sm(u[k],v[k],"atoms are read as they were written"); vp_assert(b.types()[i]==c.types()[i],"atoms are read as they were written"); }
  approx_float::Config k((int)vp_int("digit",0,2000),vp_real("dir",0,1),vp_real("rec",0,1)); k.to_hdf(f,"k"); auto l=approx_float::Config::from_hdf(f,"k"); vp_assert(l.digit()==k.digit(),"tolerances are read as they were written"); sm(l.direct<double>(),k.direct<double>(),"tolerances are read as they were written"); sm(l.reciprocal<double>(),k.reciprocal<double>(),"tolerances are read as they were written"); vp_cover("end"); }
static void samelat(const Lattice<double>& a,const Lattice<double>& b){ for(auto u:{LengthUnit::angstrom,LengthUnit::inverse_angstrom}){ auto x=a.vectors(u),y=b.vectors(u); for(int i=0;i<9;++i) sm(x[i],y[i],"a lattice is read with its vectors"); x=a.metric(u); y=b.metric(u); for(int i=0;i<9;++i) sm(x[i],y[i],"a lattice is read with its metric"); } vp_assert(a.bravais()==b.bravais(),"a lattice is read with its centring"); auto s=a.spacegroup_symmetry(),t=b.spacegroup_symmetry(); vp_assert(s.size()==t.size(),"a lattice is read with its space group"); for(size_t i=0;i<s.size();++i){ vp_assert(s.getr(i)==t.getr(i)&&s.gett(i)==t.gett(i),"a lattice is read with its space group"); }
  auto p=a.pointgroup_symmetry(),q=b.pointgroup_symmetry(); vp_assert(p.size()==q.size(),"a lattice is read with its point group"); for(size_t i=0;i<p.size();++i) vp_assert(q.has(p.get(i)),"a lattice is read with its point group"); auto c=a.basis(),d=b.basis(); vp_assert(c.size()==d.size(),"a lattice is read with its atoms"); for(ind_t i=0;i<(ind_t)c.size();++i) vp_assert(c.position(i)==d.position(i)&&c.types()[i]==d.types()[i],"a lattice is read with its atoms"); }
VP_ENTRY(lattices){ auto f=file(); if(vp_choose("kind",0,1)){ D9 m{3,1,.5,.25,4,-1,-.5,.75,2.5}; m[vp_choose("at",0,8)]=vp_real("m",-2,4.5); double d=m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); vp_assume(d>=.5); Lattice<double> l(vp_choose("lu",0,1)? LengthUnit::angstrom: LengthUnit::inverse_angstrom,m,MatrixVectors::row,Symmetry(),Basis(),false); l.to_hdf(f,"l"); samelat(l,Lattice<double>::from_hdf(f,std::string("l"))); }
  else { const Case& c=CASES[vp_choose("case",0,NC-1)]; Basis b({{.1,.2,.3},{0,.5,.25}},{3,1}); Lattice<double> l(LengthUnit::angstrom,c.len,c.ang,std::string(c.sg),b,false,AngleUnit::degree); l.to_hdf(f,"l"); auto k=Lattice<double>::from_hdf(f,std::string("l")); samelat(l,k); auto p=l.primitive(); p.to_hdf(f,"p"); samelat(p,Lattice<double>::from_hdf(f,std::string("p")));
    LengthUnit lu= vp_choose("lu",0,1)? LengthUnit::angstrom: LengthUnit::inverse_angstrom; BA x(2u,3u); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<3;++j) x.val(i,j)=R(); LVec<double> v(lu,l,x); v.to_hdf(f,"v"); auto w=LVec<double>::from_hdf(f,"v"); vp_assert(w.type()==v.type(),"vectors are read with their unit"); samelat(v.lattice(),w.lattice()); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<3;++j) sm(v.val(i,j),w.val(i,j),"vectors are read as they were written"); } vp_cover("end"); }
VP_ENTRY(tables){ auto f=file(); std::set<size_t> keys{1,3,5,2}; PermutationTable t(3,3,keys); static const ind_t P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; int n=(int)vp_choose("n",0,2); for(int k=0;k<n;++k){ auto& p=P[vp_choose("p",0,5)]; int i=(int)vp_choose("i",0,2),j=(int)vp_choose("j",0,2); t.set((size_t)i,(size_t)j,std::vector<ind_t>(p,p+3)); } vp_assert(t.to_hdf(f,"t"),"writing succeeds"); auto u=PermutationTable::from_hdf(f,"t"); for(size_t i=0;i<3;++i) for(size_t j=0;j<3;++j){ vp_assert(t.safe_get(i,j)==u.safe_get(i,j),"permutations are read as they were written"); vp_assert(t.has(i,j)==u.has(i,j)&&t.value_needed(i,j)==u.value_needed(i,j),"known pairs are read as they were written"); } vp_assert(t.keys()==u.keys(),"known pairs are read as they were written"); auto& p=P[vp_choose("q",0,5)]; t.set(0,1,std::vector<ind_t>(p,p+3)); u.set(0,1,std::vector<ind_t>(p,p+3)); for(size_t i=0;i<3;++i) for(size_t j=0;j<3;++j) vp_assert(t.safe_get(i,j)==u.safe_get(i,j),"a table which was read goes on like the original"); vp_cover("end"); }
// interpolation data: what is stored, and how it behaves
struct Form{ Sh sh; El el; };
static Form form(int k,ind_t P,ind_t B){ switch(k){ case 0: return {{P},{0,0,0}}; case 1: return {{P,B*4},{1,3,0}}; case 2: return {{P,B,5},{2,3,0}}; case 3: return {{P,B,1,3},{0,3,0}}; default: return {{P,B,1,3,3},{0,0,9}}; } }
static const RotatesLike RL[]={RotatesLike::vector,RotatesLike::pseudovector,RotatesLike::Gamma}; static const LengthUnit LU[]={LengthUnit::angstrom,LengthUnit::inverse_angstrom,LengthUnit::real_lattice,LengthUnit::reciprocal_lattice};
template<class T> static Interpolator<T> some(int k,ind_t P,ind_t B){ Form f=form(k,P,B); ind_t w=1; for(size_t i=1;i<f.sh.size();++i) w*=f.sh[i]; bArray<T> d(P,w); for(ind_t i=0;i<P;++i) for(ind_t j=0;j<w;++j) d.val(i,j)= (i*w+j)%4? T(double((i*7+j*5)%11)*.25-1): val<T>(); std::array<double,3> m{vp_real("w",0,3),vp_real("w",0,3),vp_real("w",0,3)}; return Interpolator<T>(d,f.sh,f.el,RL[vp_choose("rl",0,2)],LU[vp_choose("lu",0,3)],0,(int)vp_choose("vf",0,1),m); }
template<class T> static void sameint(const Interpolator<T>& a,const Interpolator<T>& b){ same(a.data(),b.data(),"data is read as it was written"); vp_assert(a.shape()==b.shape(),"data is read with its shape"); vp_assert(a.elements()==b.elements()&&a.branches()==b.branches()&&a.branch_span()==b.branch_span(),"data is read with its elements"); vp_assert(a.rotateslike()==b.rotateslike(),"data is read with its rotation"); }
template<class T> static void interp(){ auto f=file(); auto a=some<T>((int)vp_choose("form",0,4),2,1); vp_assert(a.to_hdf(f,"i"),"writing succeeds"); auto b=Interpolator<T>::from_hdf(f,"i"); sameint(a,b); vp_assert(!(a!=b),"data which was read equals the original"); vp_cover("end"); }
VP_ENTRY(interpolators){ if(vp_choose("type",0,1)) interp<cx>(); else interp<double>(); }
VP_ENTRY(duals){ auto f=file(); const ind_t P=2,B=2; int vf=(int)vp_choose("vf",0,1); bool so=vp_choose("sort",0,1); BA v(P,B); for(ind_t i=0;i<P;++i) for(ind_t j=0;j<B;++j) v.val(i,j)= so? 1.5*i-j*.75: R(); if(so) v.val(1,0)=R(); int fr=(int)vp_choose("free",0,1); BA w(P,B*4); for(ind_t i=0;i<P;++i) for(ind_t j=0;j<B*4;++j) w.val(i,j)=double((i*7+j*5)%11)*.25-1; if(!vf) w.val(fr,0)=R(); auto wt=[&]{ return so? 1.5: vp_real("w",0,3); }; std::array<double,3> m0{wt(),1,1},m1{wt(),wt(),2}; Interpolator<double> a(v,Sh{P,B},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice,0,vf,m0), b(w,Sh{P,B,4},El{1,3,0},RL[vp_choose("rl",0,1)],LU[vp_choose("lu",0,3)],0,vf,m1);
  DualInterpolator<double,double> d(a,b); std::set<size_t> keys{1,2}; d.initialize_permutation_table(P,keys); if(so) d.sort(); d.to_hdf(f,"d"); auto e=DualInterpolator<double,double>::from_hdf(f,"d"); sameint(d.values(),e.values()); sameint(d.vectors(),e.vectors()); vp_assert(!(d!=e),"data which was read equals the original"); auto c=d.cost_matrix(0,1), g=e.cost_matrix(0,1); for(size_t i=0;i<c.size();++i) sm(c[i],g[i],"costs are the same after reading");
  std::vector<std::pair<ind_t,double>> iw{{0u,.25},{1u,.75}}; BA vo(1u,B),wo(1u,B*4),vp_(1u,B),wp(1u,B*4); for(auto* x:{&vo,&wo,&vp_,&wp}) for(ind_t j=0;j<x->size(1);++j) x->val(0,j)=0; d.interpolate_at(iw,vo,wo,0u); e.interpolate_at(iw,vp_,wp,0u); same(vo,vp_,"interpolated data is the same after reading"); same(wo,wp,"interpolated data is the same after reading"); vp_cover("end"); }
// zones
static void samepoly(const BrillouinZone::poly_t& a,const BrillouinZone::poly_t& b){ auto x=a.vertices(),y=b.vertices(); vp_assert(x.size(0)==y.size(0),"a polyhedron is read with its vertices"); for(ind_t i=0;i<x.size(0);++i) for(ind_t j=0;j<3;++j) sm(x.val(i,j),y.val(i,j),"a polyhedron is read with its vertices"); vp_assert(a.faces()==b.faces(),"a polyhedron is read with its faces"); sm(a.volume(),b.volume(),"a polyhedron is read with its volume"); }
VP_ENTRY(zones){ auto f=file(); const Case& c=CASES[vp_choose("case",0,TH(4,NC-1))]; bool prim=vp_choose("prim",0,1), wedge=vp_choose("wedge",0,1); auto bz=build(c,prim,wedge); bz.to_hdf(f,"z"); auto b=BrillouinZone::from_hdf(f,"z"); samelat(bz.get_lattice(),b.get_lattice()); samelat(bz.get_primitive_lattice(),b.get_primitive_lattice()); samepoly(bz.get_polyhedron(),b.get_polyhedron()); samepoly(bz.get_ir_polyhedron(),b.get_ir_polyhedron()); samepoly(bz.get_ir_polyhedron(false),b.get_ir_polyhedron(false)); vp_assert(bz.isprimitive()==b.isprimitive(),"a zone is read with its settings"); vp_assert(bz.add_time_reversal()==b.add_time_reversal(),"a zone is read with its settings"); vp_assert(bz==b,"a zone which was read equals the original"); auto n=bz.get_ir_wedge_normals(), k=b.get_ir_wedge_normals(); vp_assert(n.size(0)==k.size(0),"a zone is read with its wedge"); for(ind_t i=0;i<n.size(0);++i) for(ind_t j=0;j<3;++j) sm(n.val(i,j),k.val(i,j),"a zone is read with its wedge");
  V3 q=line(1); auto l=bz.get_lattice(); auto Q=vec(l,q); LVec<double> x(Q.type(),l,1u),y(Q.type(),l,1u); LVec<int> t(Q.type(),l,1u),u(Q.type(),l,1u); std::vector<size_t> r1,i1,r2,i2; if(wedge){ bool o1=bz.ir_moveinto(Q,x,t,r1,i1,1), o2=b.ir_moveinto(Q,y,u,r2,i2,1); vp_assert(o1&&o2,"points are moved"); auto p=bz.get_pointgroup_symmetry(), s=b.get_pointgroup_symmetry(); vp_assert(p.get(r1[0])==s.get(r2[0]),"points are moved by the same operation after reading"); } else { bz.moveinto(Q,x,t,1); b.moveinto(Q,y,u,1); } for(int j=0;j<3;++j){ sm(x.val(0,j),y.val(0,j),"points are moved alike after reading"); vp_assert(t.val(0,j)==u.val(0,j),"points are moved alike after reading"); } vp_cover("end"); }
// grids
using Trel=BrillouinZoneTrellis3<double,double,double>; using Me=BrillouinZoneMesh3<double,double,double>;
template<class M> static void grid(M& m,BA h,const Lattice<double>& l,bool line1){ auto f=file(); ind_t n=h.size(0); BA val(n,2u),vec_(n,3u); for(ind_t i=0;i<n;++i){ for(int j=0;j<2;++j) val.val(i,j)= i<4? R(): i*.5-j; for(int j=0;j<3;++j) vec_.val(i,j)= i%5==0&&i<12? R(): h.val(i,j); } std::array<double,3> wg{1,1,1}; bArray<double> v2(val),w2(vec_); m.replace_value_data(v2,Sh{n,1,2},El{2,0,0},RotatesLike::vector,LengthUnit::real_lattice); m.replace_vector_data(w2,Sh{n,1,1,3},El{0,3,0},RotatesLike::vector,LengthUnit::reciprocal_lattice); m.to_hdf(f,"g"); auto k=M::from_hdf(f,"g");
  auto at=[&](const LVec<double>& Q){ auto a=m.ir_interpolate_at(Q), b=k.ir_interpolate_at(Q); for(ind_t j=0;j<2;++j) sm(std::get<0>(a).val(Sh{0u,0u,j}),std::get<0>(b).val(Sh{0u,0u,j}),"interpolated values are the same after reading"); for(ind_t j=0;j<3;++j) sm(std::get<1>(a).val(Sh{0u,0u,0u,j}),std::get<1>(b).val(Sh{0u,0u,0u,j}),"interpolated vectors are the same after reading"); };
  if(line1) at(vec(l,line(1))); else { static const V3 S[]={{.1,.2,.3},{.5,0,0},{.33,-.21,.4},{-1.2,.7,.05},{0,0,0},{.25,.125,-.4}}; for(auto& s:S) at(vec(l,s)); } vp_cover("end"); }
VP_ENTRY(trellises){ static const int K[]={0,8,11,14,5,4}; const Case& c=CASES[K[vp_choose("case",0,TH(2,5))]]; auto bz=build(c); Trel m(bz,bz.get_ir_polyhedron().volume()*(vp_choose("vol",0,1)? .2: .05),(bool)vp_choose("always",0,1)); grid(m,m.get_hkl(),bz.get_lattice(),false); }
VP_ENTRY(meshes){ static const int K[]={0,11,14,5,4}; const Case& c=CASES[K[vp_choose("case",0,TH(1,4))]]; auto bz=build(c); Me m(bz,bz.get_ir_polyhedron().volume()*.3,(int)vp_choose("levels",1,2)); grid(m,m.get_mesh_hkl(),bz.get_lattice(),false); }
