// Interpolating anywhere in reciprocal space: folding into the zone, interpolating and rotating back (P43)
#include "vp.h"
#include <memory>
#include <iostream>
#include <numeric>
#include <algorithm>
#include "lapjv.hpp"
#include "bz.hpp"
#include "bz_trellis.hpp"
#include "bz_nest.hpp"
#include "bz_mesh.hpp"
#include "geo_model.h"
using namespace brille; using namespace brille::lattice; using V3=std::array<double,3>; using M9=std::array<int,9>; using BA=bArray<double>;
static void eq(double a,double b,const char* m){ vp_assert_eq(a,b,m); }
#ifdef VP_THOROUGH
#define TH(a,b) (b)
#else
#define TH(a,b) (a)
#endif
#define LINE_S TH(.8,1.5)
#include "zones.h"
static bool near_(double a,double b){ return vp_and(a-b<=1e-6,b-a<=1e-6); }
static double rnd(double x){ return std::floor(x+.5); }
using Trel=BrillouinZoneTrellis3<double,double,double>; using Ne=BrillouinZoneNest3<double,double,double>; using Me=BrillouinZoneMesh3<double,double,double>;
static BA hkl(const Trel& m){ return m.get_hkl(); } static BA hkl(const Ne& m){ return m.get_all_hkl(); } static BA hkl(const Me& m){ return m.get_mesh_hkl(); }
// the values are the coordinates of the points; so are the vectors, with components along reciprocal or real basis vectors
template<class M> static void fill(M& m,const Lattice<double>& l,bool real){ BA h=hkl(m); ind_t n=h.size(0); auto g=l.metric(LengthUnit::inverse_angstrom); BA val(n,3u), vec(n,3u); for(ind_t i=0;i<n;++i) for(int j=0;j<3;++j){ val.val(i,j)=h.val(i,j); double x=0; for(int k=0;k<3;++k) x+=g[3*j+k]*h.val(i,k); vec.val(i,j)= real? x: h.val(i,j); } std::array<unsigned,3> ev{3,0,0}, ew{0,3,0}; m.replace_value_data(val,std::vector<ind_t>{n,1u,3u},ev,RotatesLike::vector,LengthUnit::reciprocal_lattice); m.replace_vector_data(vec,std::vector<ind_t>{n,1u,1u,3u},ew,RotatesLike::vector,real? LengthUnit::real_lattice: LengthUnit::reciprocal_lattice); }
static V3 unreal(const Lattice<double>& l,const V3& x){ auto m=l.metric(LengthUnit::angstrom); V3 o; const double f=brille::math::two_pi*brille::math::two_pi; for(int i=0;i<3;++i){ o[i]=0; for(int j=0;j<3;++j) o[i]+=m[3*i+j]*x[j]/f; } return o; }
// both points are moved to points which are not (by rounding) outside of the irreducible zone: the tolerance of moving exceeds that of finding
static bool deep(const BrillouinZone& bz,const LVec<double>& Q){ auto l=bz.get_lattice(); ind_t N=Q.size(0); LVec<double> x(Q.type(),l,N); LVec<int> t(Q.type(),l,N); std::vector<size_t> R,I; if(!bz.ir_moveinto(Q,x,t,R,I)) return true; auto ir=bz.get_ir_polyhedron(); auto n=ir.face_normals(), p=ir.face_points(); auto g=l.metric(LengthUnit::inverse_angstrom); bool ok=true; for(ind_t i=0;i<N;++i) for(ind_t k=0;k<n.size(0);++k){ double d=0; for(int u=0;u<3;++u){ double w=0; for(int j=0;j<3;++j) w+=g[3*u+j]*n.val(k,j); d+=w*(x.val(i,u)-p.val(k,u)); } ok=vp_and(ok,d<=-1e-12); } return ok; }
template<class M> static void irat(const Case& c,M& m,const BrillouinZone& bz,int nl,bool real){ auto l=bz.get_lattice(); auto ps=bz.get_pointgroup_symmetry(); fill(m,l,real); V3 q=line(nl); LVec<double> Q(LengthUnit::inverse_angstrom,l,2u); for(int j=0;j<3;++j){ Q.val(0,j)=q[j]; Q.val(1,j)=.3-.7*j; } int th= real; if(TH(0,1)) th=(int)vp_choose("threads",0,1); std::tuple<brille::Array<double>,brille::Array<double>> r; try{ r= th? m.ir_interpolate_at(Q,2): m.ir_interpolate_at(Q); } catch(const std::runtime_error&){ vp_assert(!deep(bz,Q),"a point of the irreducible zone is found"); vp_cover("edge"); return; } auto& a=std::get<0>(r); auto& b=std::get<1>(r); vp_assert(a.shape()==std::vector<ind_t>({2u,1u,3u})&&b.shape()==std::vector<ind_t>({2u,1u,1u,3u}),"the shape of the results");
  for(ind_t i=0;i<2;++i){ V3 p,v; for(ind_t j=0;j<3;++j){ p[j]=a.val({i,0u,j}); v[j]=b.val({i,0u,0u,j}); } if(real) v=unreal(l,v); bool in=true; V3 t; for(int j=0;j<3;++j){ double d=(i? .3-.7*j: q[j])-v[j]; t[j]=rnd(d); in=vp_and(in,near_(d,t[j])); } vp_assert(in,"the rotated vector is Q up to a reciprocal lattice vector"); vp_assert(allowed(c.c,t[0],t[1],t[2]),"the rotated vector is Q up to a reciprocal lattice vector");
    bool eqv=false; for(size_t k=0;k<ps.size();++k){ V3 x=mulT(ps.get(k),p); eqv=vp_or(eqv,vp_and(near_(x[0],v[0]),vp_and(near_(x[1],v[1]),near_(x[2],v[2])))); } vp_assert(eqv,"scalars are those of the equivalent point"); bool inir=true; auto ir=bz.get_ir_polyhedron(); auto n=ir.face_normals(), fp=ir.face_points(); auto g=l.metric(LengthUnit::inverse_angstrom); for(ind_t k=0;k<n.size(0);++k){ double d=0; for(int u=0;u<3;++u){ double w=0; for(int j=0;j<3;++j) w+=g[3*u+j]*n.val(k,j); d+=w*(p[u]-fp.val(k,u)); } inir=vp_and(inir,d<=1e-5); } vp_assert(inir,"scalars are those of the point of the irreducible zone"); } vp_cover("end"); }
static const int CQ[]={0,8,11,14,4,6,9,5,16,1,13,17};
static const Case& some(int n){ return CASES[CQ[vp_choose("case",0,n-1)]]; }
VP_ENTRY(trellis_ir){ const Case& c=some(TH(4,12)); auto bz=build(c); Trel m(bz,bz.get_ir_polyhedron().volume()*.2,(bool)vp_choose("always",0,TH(0,1))); irat(c,m,bz,TH(1,4),vp_choose("real",0,1)); }
VP_ENTRY(nest_ir){ const Case& c=some(TH(3,12)); auto bz=build(c); Ne m(bz,bz.get_ir_polyhedron().volume()*.2,(ind_t)2); irat(c,m,bz,TH(1,4),vp_choose("real",0,1)); }
VP_ENTRY(mesh_ir){ static const int K[]={0,11,14,5,4,16,1,13}; const Case& c=CASES[K[vp_choose("case",0,TH(1,7))]]; auto bz=build(c); Me m(bz,bz.get_ir_polyhedron().volume()*.3,2); irat(c,m,bz,TH(1,4),vp_choose("real",0,1)); }
// without symmetry: the first zone
VP_ENTRY(trellis_first){ static const int K[]={0,8,4,6,5,9}; const Case& c=CASES[K[vp_choose("case",0,TH(1,5))]]; auto bz=build(c,true,false); auto l=bz.get_lattice(); Trel m(bz,bz.get_ir_polyhedron().volume()*.2,false); fill(m,l,false); V3 q=line(TH(2,4)); int th=(int)vp_choose("threads",0,1); auto r= th? m.interpolate_at(vec(l,q),2): m.interpolate_at(vec(l,q)); V3 p,t; bool in=true; for(ind_t j=0;j<3;++j){ p[j]=std::get<0>(r).val({0u,0u,j}); in=vp_and(in,near_(p[j],std::get<1>(r).val({0u,0u,0u,j}))); double d=q[j]-p[j]; t[j]=rnd(d); in=vp_and(in,near_(d,t[j])); } vp_assert(in,"the data at Q up to a reciprocal lattice vector"); vp_assert(allowed(c.c,t[0],t[1],t[2]),"the data at Q up to a reciprocal lattice vector"); vp_cover("end"); }
// points of high symmetry are found in every kind of grid
static V3 special(){ static const V3 S[]={{0,0,0},{.5,0,0},{0,.5,0},{0,0,.5},{.5,.5,0},{.5,0,.5},{0,.5,.5},{.5,.5,.5},{1./3,1./3,0},{1./3,1./3,.5},{2./3,-1./3,.25},{.25,.25,.25},{1,0,0},{1,1,1},{-2,1,3},{.75,.75,0},{.375,.375,.75},{.5,.25,.75},{.1,0,0},{0,0,-.3},{.2,.2,.2},{1.2,-.2,0},{-.4,.4,.4},{0,-.35,.35}}; return S[vp_choose("q",0,23)]; }
template<class M> static void spec(const Case& c,M& m,const BrillouinZone& bz){ auto l=bz.get_lattice(); fill(m,l,false); V3 q=special(); auto r=m.ir_interpolate_at(vec(l,q)); double t[3]; bool in=true; for(ind_t j=0;j<3;++j){ double d=q[j]-std::get<1>(r).val({0u,0u,0u,j}); t[j]=rnd(d); in=in&&near_(d,t[j]); } vp_assert(in&&allowed(c.c,t[0],t[1],t[2]),"the rotated vector is Q up to a reciprocal lattice vector"); vp_cover("end"); }
VP_ENTRY(special_points){ const Case& c=CASES[vp_choose("case",0,TH(9,NC-1))]; auto bz=build(c); double v=bz.get_ir_polyhedron().volume(); int g=(int)vp_choose("grid",0,3); if(g<2){ Trel m(bz,v*.1,(bool)g); spec(c,m,bz); } else if(g==2){ Ne m(bz,v*.2,(ind_t)2); spec(c,m,bz); } else { Me m(bz,v*.3,2); spec(c,m,bz); } }
