// Triangulations and the meshes, nests and trellises built on them (P31, P32)
#include "vp.h"
#include <memory>
#include <iostream>
#include <numeric>
#include <algorithm>
#include "lapjv.hpp"
#include "smp.hpp"
#include "bz.hpp"
#include "triangulation_simple.hpp"
#include "triangulation_poly.hpp"
#include "nest.hpp"
#include "mesh.hpp"
#include "trellis_poly.hpp"
#include "geo_model.h"
#ifdef VP_THOROUGH
#define TH(a,b) (b)
#else
#define TH(a,b) (a)
#endif
using namespace brille; using namespace brille::lattice; using namespace brille::polyhedron;
using V3=std::array<double,3>; using BA=bArray<double>; using PB=Poly<double,bArray>; using FV=std::vector<std::vector<ind_t>>;
static void eq(double a,double b,const char* m){ vp_assert_eq(a,b,m); }
#include "shapes.h"
// further shapes: the origin on an edge, in a facet's corner triangle, outside
static Shape shape6(int k){ if(k<5) return shape(k); Shape s=shape(k==5?1:2); V3 m=k==5? V3{1,1,0}: V3{3,0,0}; for(auto& c:s.v) for(int i=0;i<3;++i) c[i]+=m[i]; for(auto& h:s.h) h.d+=dot3(h.n,m); for(int i=0;i<3;++i) s.c[i]+=m[i]; return s; }
static PB solid(const Shape& s){ return PB(BA::from_std(s.v),facets(s)); }
static double det3(const V3& a,const V3& b,const V3& c){ return dot3(a,crs(b,c)); }
// a tetrahedron as four half spaces, scaled so that the values are barycentric weights
struct Tet{ double w[4][4]; double at(int k,const V3& q) const { return w[k][0]*q[0]+w[k][1]*q[1]+w[k][2]*q[2]+w[k][3]; } };
static Tet tet(const V3 v[4],double& vol){ V3 a=sub(v[1],v[0]),b=sub(v[2],v[0]),c=sub(v[3],v[0]); double d=det3(a,b,c); vol=d/6; Tet t; for(int k=0;k<4;++k){ const V3 &x=v[(k+1)&3],&y=v[(k+2)&3],&z=v[(k+3)&3]; V3 n=crs(sub(y,x),sub(z,x)); double o=dot3(n,sub(v[k],x)); for(int i=0;i<3;++i) t.w[k][i]=n[i]/o; t.w[k][3]=-dot3(n,x)/o; } return t; }
static V3 anyq(const Shape& s){ static const char* nm[3]={"x","y","z"}; V3 q; for(int i=0;i<3;++i){ double lo=1e9,hi=-1e9; for(auto& v:s.v){ lo=std::min(lo,v[i]); hi=std::max(hi,v[i]); } q[i]=vp_real(nm[i],lo-.5,hi+.5); } return q; }
static bool inside(const Shape& s,const V3& q,double slack=0){ bool in=true; for(auto& h:s.h) in=vp_and(in,dot3(h.n,q)<=h.d+slack); return in; }
// tetrahedra fill the shape and have positive volumes of no more than m; they do not overlap, as their volumes add up to that of the shape
static void fills(const Shape& s,const std::vector<std::array<V3,4>>& ts,double m,bool sym=true){ std::vector<Tet> t; double sum=0; for(auto& v:ts){ double x; t.push_back(tet(v.data(),x)); vp_assert(std::abs(x)>1e-9,"tetrahedra are not flat"); x=std::abs(x); sum+=x; if(m>0) vp_assert(x<=m*2,"no tetrahedron is much larger than wanted"); for(auto& c:v) vp_assert(inside(s,c,1e-9),"the triangulation stays within the polyhedron"); }
  eq(sum/s.vol,1,"the tetrahedra have the volume of the polyhedron"); if(!sym) return; V3 q=anyq(s); vp_assume(inside(s,q)); bool any=false; for(auto& x:t){ bool in=true; for(int k=0;k<4;++k) in=vp_and(in,x.at(k,q)>=-1e-9); any=vp_or(any,in); } vp_assert(any,"every point of the polyhedron is in a tetrahedron"); }
template<class A,class I> static std::vector<std::array<V3,4>> tets(const A& v,const I& t){ std::vector<std::array<V3,4>> o; for(ind_t i=0;i<t.size(0);++i){ std::array<V3,4> x; for(int j=0;j<4;++j) x[j]=row(v,t.val(i,j)); o.push_back(x); } return o; }
template<class A> static bool has(const A& v,const V3& c){ for(ind_t i=0;i<v.size(0);++i) if(std::abs(v.val(i,0)-c[0])+std::abs(v.val(i,1)-c[1])+std::abs(v.val(i,2)-c[2])<1e-9) return true; return false; }
static double pickmax(const Shape& s){ static const double F[]={-1,.6,.15,.04}; double f=F[vp_choose("max",0,TH(2,3))]; return f<0? -1: f*s.vol; }
VP_ENTRY(simple){ Shape s=shape6((int)vp_choose("shape",0,6)); double m=pickmax(s); bool g=vp_choose("gamma",0,1); SimpleTet<double,bArray> t(solid(s),m,g); const auto& v=t.get_vertices(); auto n=t.number_of_tetrahedra(); vp_assert(v.size(0)==t.number_of_vertices()&&n==t.std_vertices_per_tetrahedron().size(),"counts");
  double big=0; for(ind_t i=0;i<n;++i){ vp_assert(t.volume(i)>0,"positive volume"); big=std::max(big,t.volume(i)); auto c=t.circumsphere_info(i); for(int j=0;j<4;++j){ V3 d=sub(row(v,t.get_vertices_per_tetrahedron().val(i,j)),{c[0],c[1],c[2]}); eq(dot3(d,d)/(c[3]*c[3]),1,"all corners are on the circumsphere"); } } eq(t.maximum_volume(),big,"the largest volume");
  for(auto& c:s.v) vp_assert(has(v,c),"the corners are kept"); if(g&&inside(s,{0,0,0})) vp_assert(has(v,{0,0,0}),"the zone centre is a vertex"); fills(s,tets(v,t.get_vertices_per_tetrahedron()),m); vp_note(std::to_string(n).c_str()); bool thrown=false; try{ t.circumsphere_info(n); } catch(const std::out_of_range&){ thrown=true; } vp_assert(thrown,"an index which is too large is refused"); vp_cover("end"); }
VP_ENTRY(layer){ Shape s=shape6((int)vp_choose("shape",0,6)); double m=pickmax(s); PB p=solid(s); auto t=triangulate_one_layer(p.vertices(),p.faces().faces(),m); auto n=t.number_of_tetrahedra(); const auto& v=t.get_vertex_positions(); double sum=0; for(ind_t i=0;i<n;++i){ double x=t.volume(i); vp_assert(x>0,"positive volume"); sum+=x; auto c=row(t.get_circum_centres(),i); double r=t.get_circum_radii()[i]; for(int j=0;j<4;++j){ V3 d=sub(row(v,t.get_vertices_per_tetrahedron().val(i,j)),c); eq(dot3(d,d)/(r*r),1,"all corners are on the circumsphere"); } }
  auto st=t.volume_statistics(); eq(st[0],sum,"total volume"); fills(s,tets(v,t.get_vertices_per_tetrahedron()),m); for(ind_t i=0;i<v.size(0);++i){ auto nb=t.neighbours(i); std::vector<char> is(v.size(0),0); const auto& vt=t.get_vertices_per_tetrahedron(); for(ind_t k=0;k<n;++k){ bool on=false; for(int j=0;j<4;++j) on|=vt.val(k,j)==i; if(on) for(int j=0;j<4;++j) is[vt.val(k,j)]=1; } is[i]=0; size_t c=0; for(auto k:nb){ vp_assert(is[k]==1,"neighbours share a tetrahedron"); is[k]=2; ++c; } vp_assert((long)c==std::count(is.begin(),is.end(),2)&&std::count(is.begin(),is.end(),1)==0,"all neighbours are listed once"); } vp_cover("end"); }
VP_ENTRY(lq){ Shape s=shape6((int)vp_choose("shape",0,6)); double m=pickmax(s); bool g=vp_choose("gamma",0,1); int fr=(int)vp_choose("frame",0,1); auto run=[&](auto p,double u){ LQPolyTet t(p,g,m>0? m*u: m); auto n=t.number_of_tetrahedra(); const auto& v=t.get_vertices(); for(ind_t i=0;i<n;++i) vp_assert(t.volume(i)>0,"positive volume");
    auto X=get_xyz(v); for(ind_t i=0;i<n;++i){ auto c=t.circumsphere_info(i); for(int j=0;j<4;++j){ V3 d=sub(row(X,t.get_vertices_per_tetrahedron().val(i,j)),{c[0],c[1],c[2]}); eq(dot3(d,d)/(c[3]*c[3]),1,"all corners are on the circumsphere"); } } for(auto& c:s.v) vp_assert(has(v,c),"the corners are kept"); bool z=g&&inside(s,{0,0,0}); if(z) vp_assert(has(v,{0,0,0}),"the zone centre is a vertex"); bool had=false; for(auto& c:s.v) had|=dot3(c,c)==0; vp_assert(t.count()==(int)v.size(0)-(int)s.v.size()-(z&&!had),"the number of further vertices"); fills(s,tets(v,t.get_vertices_per_tetrahedron()),m,fr==0); };
  if(fr==0) run(solid(s),1.); else { static std::array<double,9> B{3,1,.5,.25,4,-1,-.5,.75,2.5}; static Lattice<double> l(LengthUnit::angstrom,B,MatrixVectors::column,std::string("P 1"),Basis(),false); auto u=LengthUnit::inverse_angstrom; run(Poly<double,LVec>(LVec<double>(u,l,BA::from_std(s.v)),facets(s)),l.volume(u)); } vp_cover("end"); }
// the cells of a mesh: tetrahedra and boxes (by their eight corners)
struct Cells{ std::vector<std::array<V3,4>> t; std::vector<std::array<V3,2>> b; };
static void filled(const Shape& s,const Cells& c,double m,bool sym){ std::vector<Tet> t; double sum=0; for(auto& v:c.t){ double x; t.push_back(tet(v.data(),x)); x=std::abs(x); vp_assert(x>1e-12,"tetrahedra are not flat"); sum+=x; if(m>0) vp_assert(x<=m*2,"no tetrahedron is much larger than wanted"); for(auto& k:v) vp_assert(inside(s,k,1e-8),"the cells stay within the polyhedron"); }
  for(auto& b:c.b){ double x=1; for(int i=0;i<3;++i) x*=b[1][i]-b[0][i]; vp_assert(x>0,"boxes are not flat"); if(m>0) vp_assert(x<=m*(1+1e-6),"no box is larger than allowed"); sum+=x; for(int k=0;k<8;++k) vp_assert(inside(s,{b[k&1][0],b[k>>1&1][1],b[k>>2][2]},1e-8),"the cells stay within the polyhedron"); }
  eq(sum/s.vol,1,"the cells have the volume of the polyhedron"); if(!sym) return; V3 lo{1e9,1e9,1e9},hi{-1e9,-1e9,-1e9}; for(auto& v:s.v) for(int i=0;i<3;++i){ lo[i]=std::min(lo[i],v[i]); hi[i]=std::max(hi[i],v[i]); }
  // one part of the bounding box at a time, where there are many cells
  static const char* nm[3]={"x","y","z"}; int g=c.t.size()+c.b.size()>100? 5: c.t.size()+c.b.size()>24? 3: 1, part=(int)vp_choose("part",0,g*g*g-1); V3 q; for(int i=0;i<3;++i,part/=g){ double w=(hi[i]-lo[i])/g; lo[i]+=w*(part%g); hi[i]=lo[i]+w; q[i]=vp_real(nm[i],lo[i],hi[i]); } vp_assume(inside(s,q)); bool any=false;
  for(size_t j=0;j<t.size();++j){ bool near=true; for(int i=0;i<3;++i){ double a=1e9,b=-1e9; for(auto& k:c.t[j]){ a=std::min(a,k[i]); b=std::max(b,k[i]); } near&=a<=hi[i]+1e-9&&b>=lo[i]-1e-9; } if(!near) continue; bool in=true; for(int k=0;k<4;++k) in=vp_and(in,t[j].at(k,q)>=-1e-9); any=vp_or(any,in); } for(auto& b:c.b){ bool in=true; for(int i=0;i<3;++i) in=vp_and(in,vp_and(q[i]>=b[0][i]-1e-9,q[i]<=b[1][i]+1e-9)); any=vp_or(any,in); } vp_assert(any,"every point of the polyhedron is in a cell"); }
static const Lattice<double>& lat(){ static std::array<double,9> B{3,1,.5,.25,4,-1,-.5,.75,2.5}; static Lattice<double> l(LengthUnit::angstrom,B,MatrixVectors::column,std::string("P 1"),Basis(),false); return l; }
static Poly<double,LVec> solidl(const Shape& s){ auto u=LengthUnit::inverse_angstrom; return Poly<double,LVec>(from_xyz_like(u,lat(),BA::from_std(s.v)),facets(s)); }
template<template<class> class V> using NEST=Nest<double,double,double,V>; template<template<class> class V> using TREL=polytrellis::PolyTrellis<double,double,double,V>;
VP_ENTRY(nest){ Shape s=shape6((int)vp_choose("shape",0,TH(4,6))); static const double F[]={.5,.12,.03}; double m=F[vp_choose("max",0,TH(1,2))]*s.vol; int nb=(int)vp_choose("levels",0,TH(2,3)); NEST<bArray> n(solid(s),m,(ind_t)nb); const auto& v=n.all_vertices(); Cells c; auto tt=n.tetrahedra(); std::vector<char> used(v.size(0),0); for(auto& t:tt){ std::array<V3,4> x; for(int j=0;j<4;++j){ x[j]=row(v,t[j]); used[t[j]]=1; } c.t.push_back(x); } vp_assert(n.vertex_count()==v.size(0),"vertex count"); for(auto& k:s.v) vp_assert(has(v,k),"the corners are kept"); auto leaf=n.vertex_is_leaf(); for(ind_t i=0;i<v.size(0);++i) vp_assert(leaf[i]==(bool)used[i],"which vertices belong to leaves"); filled(s,c,nb? m: -1,true); vp_note(std::to_string(tt.size()).c_str()); vp_cover("end"); }
template<template<class> class V,class P> static void trellis(const Shape& s,const P& p,double u,double m,bool always,bool sym){ TREL<V> t(p,m*u,always); auto X=get_xyz(t.vertices()); Cells c; int cubes=0; auto nn=t.node_count(); auto ty=t.all_node_types(); vp_assert(ty.size()==nn,"one type per node"); for(ind_t i=0;i<nn;++i) if(ty[i]==NodeType::cube){ auto vi=t.cube_node(i).vertices(); std::array<V3,2> b; for(int k=0;k<3;++k){ b[0][k]=1e9; b[1][k]=-1e9; for(auto j:vi){ b[0][k]=std::min(b[0][k],row(X,j)[k]); b[1][k]=std::max(b[1][k],row(X,j)[k]); } } std::vector<char> seen(8,0); for(auto j:vi){ int w=0; for(int k=0;k<3;++k){ double x=row(X,j)[k]; vp_assert(std::abs(x-b[0][k])<1e-9||std::abs(x-b[1][k])<1e-9,"cube corners are the corners of a box"); w|=(std::abs(x-b[1][k])<1e-9)<<k; } seen[w]=1; } for(auto x:seen) vp_assert(x,"all corners of a box"); c.b.push_back(b); ++cubes; } else if(ty[i]==NodeType::poly){ for(auto& x:t.poly_node(i).vertices_per_tetrahedron()) c.t.push_back({row(X,x[0]),row(X,x[1]),row(X,x[2]),row(X,x[3])}); } else { bool thrown=false; try{ t.cube_node(i); } catch(const std::runtime_error&){ thrown=true; } vp_assert(thrown,"a node which is no cube is refused"); }
  if(always) vp_assert(cubes==0,"all nodes are triangulated if this is wanted"); for(auto& k:s.v) vp_assert(has(X,k),"the corners are kept"); eq(t.total_node_volume()/(s.vol),1,"total node volume"); filled(s,c,m,sym); vp_note((std::to_string(cubes)+"/"+std::to_string(c.t.size())).c_str()); }
static const double TF[]={2,.3,.08,.02};
VP_ENTRY(trel){ Shape s=shape6((int)vp_choose("shape",0,TH(4,6))); int k=(int)vp_choose("max",0,TH(2,3)); bool always=vp_choose("always",0,1); trellis<bArray>(s,solid(s),1,TF[k]*s.vol,always,k<TH(2,3)); vp_cover("end"); }
VP_ENTRY(trel_lattice){ Shape s=shape6((int)vp_choose("shape",0,TH(4,6))); double m=TF[vp_choose("max",0,2)]*s.vol; trellis<LVec>(s,solidl(s),1,m,vp_choose("always",0,1),false); vp_cover("end"); }
VP_ENTRY(mesh){ Shape s=shape6((int)vp_choose("shape",0,TH(4,6))); static const double F[]={-1,.6,.15,.05}; double f=F[vp_choose("max",0,TH(2,3))]; double m=f<0? f: f*s.vol; int lv=(int)vp_choose("levels",1,TH(3,5)); PB p=solid(s); Mesh3<double,double,double,bArray> t(p.vertices(),p.faces().faces(),m,lv); const auto& v=t.get_mesh_xyz(); vp_assert(t.size()==v.size(0)&&t.vertex_count()==t.size(),"counts"); for(auto& k:s.v) vp_assert(has(v,k),"the corners are kept"); Cells c; c.t=tets(v,t.get_mesh_tetrehedra()); filled(s,c,m,true); vp_cover("end"); }
// ---------------------------------------------------------------- locating points and interpolating (P32)
struct Line{ V3 a,d; };
static Line lineof(const Shape& s,int k){ V3 c=s.c; switch(k){ case 0: return {c,{1,.37,-.21}}; case 1: return {s.v[0],sub(s.v[1],s.v[0])}; case 2: return {c,{0,0,1}}; case 3: return {{c[0]+.11,c[1]-.07,c[2]+.05},{-.31,1,.43}}; case 4: return {s.v[1],sub(c,s.v[1])}; case 5: return {{c[0]+.02,c[1]+.03,c[2]},{1,1,0}}; default: return {{0,0,0},{.13,-.29,1}}; } }
static V3 pointon(const Line& l,double t){ return {l.a[0]+t*l.d[0],l.a[1]+t*l.d[1],l.a[2]+t*l.d[2]}; }
static bool anyin(const Shape& s,const V3& q,double slack){ return inside(s,q,slack); }
static bool near_(double a,double b){ return vp_and(a-b<=1e-7,b-a<=1e-7); }
template<class A,class C> static void located(const std::vector<std::pair<ind_t,double>>& iw,const A& X,const C& cells,const V3& q){ double sum=0; V3 r{0,0,0}; bool used=false; vp_assert(!iw.empty(),"a point of the polyhedron is found"); bool ok=true; for(auto& p:iw){ vp_assert(p.first<X.size(0),"the vertices exist"); ok=vp_and(ok,p.second>=-1e-7); sum+=p.second; V3 x=row(X,p.first); for(int i=0;i<3;++i) r[i]+=p.second*x[i]; } ok=vp_and(ok,near_(sum,1)); for(int i=0;i<3;++i) ok=vp_and(ok,near_(r[i],q[i])); vp_assert(ok,"the weights are not negative, sum to one and give the point");
  for(size_t i=0;i<iw.size();++i) for(size_t j=0;j<i;++j) vp_assert(iw[i].first!=iw[j].first,"no vertex twice"); for(auto& c:cells){ size_t n=0; for(auto& p:iw) for(auto k:c) n+=k==p.first; used|=n==iw.size(); } vp_assert(used,"the vertices belong to one cell"); }
static BA q1(const V3& q){ return BA::from_std(std::vector<V3>{q}); }
VP_ENTRY(nest_at){ int k=(int)vp_choose("shape",0,TH(4,6)); Shape s=shape6(k); static const double F[]={.5,.12,.05}; double m=F[vp_choose("max",0,TH(1,2))]*s.vol; int nb=(int)vp_choose("levels",0,TH(2,3)); NEST<bArray> n(solid(s),m,(ind_t)nb); Line l=lineof(s,(int)vp_choose("line",0,TH(3,6))); double t=vp_real("t",-3,3); V3 q=pointon(l,t); bool in=inside(s,q,0), out=!inside(s,q,1e-5); vp_assume(vp_or(in,out)); auto iw=n.indices_weights(q1(q)); if(in) located(iw,n.all_vertices(),n.tetrahedra(),q); else vp_assert(iw.empty(),"a point outside is not found"); vp_cover("end"); }
template<template<class> class V,class P,class F> static void trelat(const Shape& s,const P& p,double m,bool always,int line,F&& pt){ TREL<V> t(p,m,always); std::vector<std::vector<ind_t>> cells; auto ty=t.all_node_types(); for(ind_t i=0;i<ty.size();++i) if(ty[i]==NodeType::cube) cells.push_back(t.cube_node(i).vertices()); else if(ty[i]==NodeType::poly) for(auto& x:t.poly_node(i).vertices_per_tetrahedron()) cells.push_back({x[0],x[1],x[2],x[3]}); Line l=lineof(s,line); double u=vp_real("t",-3,3); V3 q=pointon(l,u); vp_assume(inside(s,q,0)); auto iw=t.indices_weights(pt(q)); located(iw,get_xyz(t.vertices()),cells,q); vp_cover("end"); }
VP_ENTRY(trel_at){ int k=(int)vp_choose("shape",0,TH(4,6)); Shape s=shape6(k); double m=TF[vp_choose("max",0,TH(1,2))]*s.vol; bool al=vp_choose("always",0,1); trelat<bArray>(s,solid(s),m,al,(int)vp_choose("line",0,TH(3,6)),[](const V3& q){ return q1(q); }); }
VP_ENTRY(trel_at_lattice){ int k=(int)vp_choose("shape",0,TH(2,6)); Shape s=shape6(k); double m=TF[vp_choose("max",0,TH(1,2))]*s.vol; bool al=vp_choose("always",0,1); trelat<LVec>(s,solidl(s),m,al,(int)vp_choose("line",0,TH(1,6)),[](const V3& q){ return from_xyz_like(LengthUnit::inverse_angstrom,lat(),q1(q)); }); }
struct MM: Mesh3<double,double,double,bArray>{ using B=Mesh3<double,double,double,bArray>; using B::B; const TetTri& tri() const { return mesh; } };
VP_ENTRY(mesh_at){ int k=(int)vp_choose("shape",0,TH(4,6)); Shape s=shape6(k); static const double F[]={-1,.6,.15,.05}; double f=F[vp_choose("max",TH(1,0),TH(2,3))]; double m=f<0? f: f*s.vol; int lv=(int)vp_choose("levels",TH(2,1),TH(3,5)); PB p=solid(s); MM t(p.vertices(),p.faces().faces(),m,lv); std::vector<std::vector<ind_t>> cells; const auto& vt=t.get_mesh_tetrehedra(); for(ind_t i=0;i<vt.size(0);++i) cells.push_back({vt.val(i,0),vt.val(i,1),vt.val(i,2),vt.val(i,3)}); Line l=lineof(s,(int)vp_choose("line",0,TH(1,6))); double u=vp_real("t",-3,3); V3 q=pointon(l,u); bool in=inside(s,q,0), out=!inside(s,q,1e-5); vp_assume(vp_or(in,out)); auto iw=t.tri().locate(q1(q)); if(in) located(iw,t.get_mesh_xyz(),cells,q); else vp_assert(iw.empty(),"a point outside is not found"); vp_cover("end"); }
// affine data is reproduced everywhere, with or without threads, and data at the vertices is kept as it is
template<class M,class A> static void fill(M& m,const A& X,const std::vector<double>& s){ ind_t n=X.size(0); BA val(n,2u),vec(n,3u); for(ind_t i=0;i<n;++i){ V3 x=row(X,i); val.val(i,0)=1+2*x[0]-x[1]+.5*x[2]; val.val(i,1)=s.empty()? x[0]: s[i]; for(int k=0;k<3;++k) vec.val(i,k)=x[k]+(k==1? x[2]-.25: 0); } std::array<unsigned,3> ev{2,0,0},ew{0,3,0}; m.replace_value_data(val,std::vector<ind_t>{n,2u},ev); m.replace_vector_data(vec,std::vector<ind_t>{n,1u,1u,3u},ew); }
template<class M,class X,class Q> static void affine(M& m,const X& verts,const Shape& s,int line,Q&& pt,bool refuses){ auto V=get_xyz(verts); fill(m,V,{}); int mode=(int)vp_choose("mode",0,2); Line l=lineof(s,line); double u=vp_real("t",-3,3); V3 q=pointon(l,u); bool in=inside(s,q,0);
  if(mode==2){ if(refuses){ vp_assume(!inside(s,q,1e-5)); int th=(int)vp_choose("threads",0,1); bool thrown=false; try{ std::vector<V3> p{s.c,q}; auto x=pt(p); if(th) m.interpolate_at(x,2); else m.interpolate_at(x); } catch(const std::exception&){ thrown=true; } vp_assert(thrown,"interpolating outside is refused"); } vp_cover("end"); return; }
  vp_assume(in); std::vector<V3> p{q,s.c}; auto x=pt(p); auto r=mode? m.interpolate_at(x,2): m.interpolate_at(x); auto& a=std::get<0>(r); auto& b=std::get<1>(r); vp_assert(a.shape()==std::vector<ind_t>({2u,2u})&&b.shape()==std::vector<ind_t>({2u,1u,1u,3u}),"the shape of the results"); for(ind_t i=0;i<2;++i){ V3 o=p[i]; bool ok=true; ok=vp_and(ok,near_(a.val({i,0u}),1+2*o[0]-o[1]+.5*o[2])); ok=vp_and(ok,near_(a.val({i,1u}),o[0])); for(ind_t k=0;k<3;++k) ok=vp_and(ok,near_(b.val({i,0u,0u,k}),o[k]+(k==1? o[2]-.25: 0))); vp_assert(ok,"affine data is reproduced"); } vp_cover("end"); }
template<class M,class X,class Q> static void exact(M& m,const X& verts,Q&& pt){ auto V=get_xyz(verts); ind_t n=V.size(0); std::vector<double> s; for(ind_t i=0;i<n;++i) s.push_back(i<12||i+8>n? vp_real("s",-10,10): i*.5); fill(m,V,s); std::vector<V3> p; for(ind_t i=0;i<n;++i) p.push_back(row(V,i)); auto x=pt(p); auto r=m.interpolate_at(x); for(ind_t i=0;i<n;++i){ double e=std::get<0>(r).val({i,1u})-s[i]; vp_assert(vp_and(e<=1e-5,e>=-1e-5),"the data of a vertex is found there"); for(ind_t k=0;k<3;++k) vp_assert(near_(std::get<1>(r).val({i,0u,0u,k}),p[i][k]+(k==1? p[i][2]-.25: 0)),"the vector data of a vertex is found there"); } vp_cover("end"); }
static BA qs(const std::vector<V3>& q){ return BA::from_std(q); } static LVec<double> qsl(const std::vector<V3>& q){ return from_xyz_like(LengthUnit::inverse_angstrom,lat(),BA::from_std(q)); }
static Mesh3<double,double,double,bArray> mkmesh(const Shape& s){ static const double F[]={.6,.15}; PB p=solid(s); return Mesh3<double,double,double,bArray>(p.vertices(),p.faces().faces(),F[vp_choose("max",0,1)]*s.vol,2); }
static Shape shapeT(){ static const int K[]={0,2,4,1,3,5,6}; return shape6(K[vp_choose("shape",0,TH(2,6))]); }
VP_ENTRY(mesh_affine){ Shape s=shapeT(); auto m=mkmesh(s); affine(m,m.get_mesh_xyz(),s,(int)vp_choose("line",0,TH(1,4)),qs,true); }
VP_ENTRY(mesh_exact){ Shape s=shapeT(); auto m=mkmesh(s); exact(m,m.get_mesh_xyz(),qs); }
static NEST<bArray> mknest(const Shape& s){ static const double F[]={.5,.12}; return NEST<bArray>(solid(s),F[vp_choose("max",0,1)]*s.vol,(ind_t)2); }
VP_ENTRY(nest_affine){ Shape s=shapeT(); auto m=mknest(s); affine(m,m.all_vertices(),s,(int)vp_choose("line",0,TH(1,4)),qs,true); }
// a nest divides neighbouring tetrahedra independently, so a vertex of one may lie within an edge of another: one level only
VP_ENTRY(nest_exact){ Shape s=shapeT(); static const double F[]={.5,.12,.03}; NEST<bArray> m(solid(s),F[vp_choose("max",0,2)]*s.vol,(ind_t)0); exact(m,m.all_vertices(),qs); }
VP_ENTRY(trel_affine){ Shape s=shapeT(); TREL<bArray> m(solid(s),TF[vp_choose("max",1,TH(1,2))]*s.vol,vp_choose("always",0,1)); affine(m,m.vertices(),s,(int)vp_choose("line",0,TH(1,4)),qs,false); }
VP_ENTRY(trel_exact){ Shape s=shapeT(); TREL<bArray> m(solid(s),TF[vp_choose("max",1,2)]*s.vol,vp_choose("always",0,1)); exact(m,m.vertices(),qs); }
VP_ENTRY(trel_affine_lattice){ Shape s=shapeT(); TREL<LVec> m(solidl(s),TF[1]*s.vol,vp_choose("always",0,1)); affine(m,m.vertices(),s,(int)vp_choose("line",0,TH(0,4)),qsl,false); }
// data for another number of points than there are vertices is refused, and never read out of bounds
template<class M> static void counted(M& m,const BA& X,const Shape& s){ ind_t n=X.size(0); int k=(int)vp_choose("count",0,5); ind_t c= k==0? 0: k==1? 1: k==2? n-1: k==3? n: k==4? n+1: 2*n; if(c){ BA v(c,1u); for(ind_t i=0;i<c;++i) v.val(i,0)=2.5; std::array<unsigned,3> e{1,0,0}; m.replace_value_data(v,std::vector<ind_t>{c,1u},e); } int th=(int)vp_choose("threads",0,1), at=(int)vp_choose("at",0,1); std::vector<V3> p{s.c}; if(at) for(ind_t i=0;i<n;++i) p.push_back(row(X,i)); auto x=qs(p); bool thrown=false; try{ auto r= th? m.interpolate_at(x,2): m.interpolate_at(x); for(ind_t i=0;i<p.size();++i) vp_assert(near_(std::get<0>(r).val({i,0u}),2.5),"constant data is constant"); } catch(const std::exception&){ thrown=true; } vp_assert(thrown==(c!=n),"data is needed for every vertex and no more"); vp_cover("end"); }
VP_ENTRY(data_counts){ Shape s=shape6((int)vp_choose("shape",0,TH(1,6))); int g=(int)vp_choose("grid",0,2); if(g==0){ auto m=mkmesh(s); counted(m,get_xyz(m.get_mesh_xyz()),s); } else if(g==1){ auto m=mknest(s); counted(m,get_xyz(m.all_vertices()),s); } else { TREL<bArray> m(solid(s),TF[1]*s.vol,vp_choose("always",0,1)); counted(m,get_xyz(m.vertices()),s); } }
