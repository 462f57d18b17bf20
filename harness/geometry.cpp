// Polyhedra: hulls, containment, volume, cutting, symmetry operations (P30)
#include "vp.h"
#include <memory>
#include <iostream>
#include <numeric>
#include <algorithm>
#include "array_.hpp"
#include "array_l_.hpp"
#include "lattice_dual.hpp"
#include "polyhedron_flex.hpp"
#include "geo_model.h"
// sizes for the two tiers
#ifdef VP_THOROUGH
#define CUTN 2
#define NSH 5
#define LVL 8
#else
#define CUTN 2
#define NSH 2
#define LVL 4
#endif
using namespace brille; using namespace brille::lattice; using namespace brille::polyhedron;
using V3=std::array<double,3>; using BA=bArray<double>; using PB=Poly<double,bArray>; using PL=Poly<double,LVec>; using FV=std::vector<std::vector<ind_t>>;
static void eq(double a,double b,const char* m){ vp_assert_eq(a,b,m); }
#include "shapes.h"
// a triclinic lattice and a sheared one with exactly representable metrics,
// for which no rounding errors enter polynomials of symbolic coordinates
enum Fr{ BARE, DREAL, RECI, SREAL, SRECI };
static LengthUnit unit(int fr){ return fr==DREAL||fr==SREAL? LengthUnit::angstrom: LengthUnit::inverse_angstrom; }
static const Lattice<double>& lat(int fr){ auto mk=[](std::array<double,9> v){ return Lattice<double>(LengthUnit::angstrom,v,MatrixVectors::column,std::string("P 1"),Basis(),false); }; static Lattice<double> a=mk({3,1,.5, .25,4,-1, -.5,.75,2.5}), c=mk({.5,.5,0, 0,.5,0, 0,0,1}), d=mk({4,4,0, 0,4,0, 0,0,8}); return fr==SREAL? c: fr==SRECI? d: a; }
static LVec<double> lv(int fr,const std::vector<V3>& v){ return LVec<double>(unit(fr),lat(fr),BA::from_std(v)); }
static int symframe(int n=2){ static const int f[]={BARE,SREAL,SRECI}; return f[(int)vp_choose("frame",0,n)]; }
// f(polyhedron, volume of the unit cell, coordinates -> points)
template<class F> static void frames(const Shape& s,int fr,bool hull,F f){ if(fr==0){ auto mk=[](const std::vector<V3>& x){ return BA::from_std(x); }; f(hull? PB(mk(s.v)): PB(mk(s.v),facets(s)),1.,mk); } else { auto mk=[fr](const std::vector<V3>& x){ return lv(fr,x); }; f(hull? PL(mk(s.v)): PL(mk(s.v),facets(s)),lat(fr).volume(unit(fr)),mk); } }
// a closed polyhedron with outward faces which are exactly the facets of the shape
template<class P> static void is_shape(const P& p,const Shape& s,double unit,const char* what){
  auto f=p.faces().faces(); auto v=p.vertices(); vp_assert(f.size()==s.h.size(),"one face per facet"); vp_assert(v.size(0)==s.v.size(),"one vertex per corner");
  for(auto& h:s.h){ int hits=0; for(auto& face:f){ bool all=true; for(auto i:face){ double e=dot3(h.n,row(v,i))-h.d; all=vp_and(all,vp_and(e<1e-9,e>-1e-9)); } hits+=all; } vp_assert(hits==1,"every facet has its face"); }
  std::vector<int> uses(v.size(0)*v.size(0),0); for(auto& face:f){ V3 a=row(v,face[0]),n=crs(sub(row(v,face[1]),a),sub(row(v,face[2]),a)); bool out=false; for(auto& h:s.h){ double x=dot3(h.n,a)-h.d; V3 c=crs(n,h.n); out=vp_or(out,vp_and(vp_and(x<1e-9,x>-1e-9),vp_and(dot3(c,c)<1e-9,dot3(n,h.n)>0))); } vp_assert(out,"faces are oriented outwards"); for(size_t i=0;i<face.size();++i) uses[face[i]*v.size(0)+face[(i+1)%face.size()]]++; }
  int e=0; for(size_t i=0;i<v.size(0);++i) for(size_t j=0;j<v.size(0);++j){ int u=uses[i*v.size(0)+j]; vp_assert(u<2&&u==uses[j*v.size(0)+i],"every edge joins two faces in opposite directions"); e+=u; } vp_assert(e==2*s.edges,"the number of edges");
  eq(p.volume(),s.vol*unit,what); V3 c=row(p.centroid(),0); for(int i=0;i<3;++i) eq(c[i],s.c[i],"the centroid"); vp_assert(p.edges().size(0)==(ind_t)s.edges,"the edge list"); }
// hull of the corners in any rotation of their order, with further points which are not corners
VP_ENTRY(hull){ int k=(int)vp_choose("shape",0,4), fr=(int)vp_choose("frame",0,2); Shape s=shape(k); auto v=s.v; int r=(int)vp_choose("rot",0,3); std::rotate(v.begin(),v.begin()+(r*v.size())/4,v.end()); Shape t=s; t.v=v; frames(t,fr,true,[&](auto p,double u,auto){ is_shape(p,s,u,"the volume of the hull"); }); vp_cover("end"); }
// a further point: a corner, on an edge, on a face, or inside
static V3 further(const Shape& s,int kind,int face,double w){ const auto& v=s.v; std::vector<int> on; const H& h=s.h[face]; for(size_t i=0;i<v.size();++i) if(std::abs(dot3(h.n,v[i])-h.d)<1e-9) on.push_back(i); int a=on[0],b=-1; for(size_t j=1;j<on.size()&&b<0;++j){ int n=0; for(auto& g:s.h) if(std::abs(dot3(g.n,v[a])-g.d)<1e-9&&std::abs(dot3(g.n,v[on[j]])-g.d)<1e-9) ++n; if(n==2) b=on[j]; }
  V3 x=v[a]; if(kind==1) for(int i=0;i<3;++i) x[i]=v[a][i]+w*(v[b][i]-v[a][i]); else if(kind>1){ V3 fc{0,0,0}; for(auto j:on) for(int i=0;i<3;++i) fc[i]+=v[j][i]/on.size(); V3 to= kind==2? v[a]: s.c; for(int i=0;i<3;++i) x[i]=fc[i]+w*(to[i]-fc[i]); } return x; }
VP_ENTRY(hull_extra){ int k=(int)vp_choose("shape",0,4), fr=(int)vp_choose("frame",0,1), kind=(int)vp_choose("kind",0,3); Shape s=shape(k); V3 x=further(s,kind,(int)vp_choose("face",0,1),vp_choose("w",0,1)? .25: .625); Shape t=s; int at=(int)vp_choose("at",0,2); t.v.insert(t.v.begin()+(at*s.v.size())/2,x); frames(t,fr,true,[&](auto p,double u,auto){ is_shape(p,s,u,"the volume of the hull"); }); vp_cover("end"); }
VP_ENTRY(hull_within){ int k=(int)vp_choose("shape",0,1); Shape s=shape(k); V3 x=further(s,3,0,vp_real("w",.05,.95)); Shape t=s; t.v.push_back(x); frames(t,0,true,[&](auto p,double u,auto){ is_shape(p,s,u,"the volume of the hull"); }); vp_cover("end"); }
VP_ENTRY(measures){ int k=(int)vp_choose("shape",0,5), fr=(int)vp_choose("frame",0,2); Shape s=shape(k); frames(s,fr,false,[&](auto p,double u,auto mk){ is_shape(p,s,u,"the volume"); auto c=mk({s.c}); double r=norm(mk(s.v)-c).max(0).sum(); eq(p.circumsphere_radius(),r,"the radius of the circumsphere");
  auto fp=p.face_points(), fn=p.face_normals(); auto [a,b,d]=p.planes(); vp_assert(fp.size(0)==s.h.size()&&fn.size(0)==s.h.size(),"one point and normal per face"); for(ind_t i=0;i<fp.size(0);++i){ auto v=mk(s.v); auto x=dot(fn.view(i),v-fp.view(i)).max(0).sum(); vp_assert(x<1e-9&&x>-1e-9,"face normals point out of the polyhedron"); auto o=p.contains(fp.view(i)+1e-3*fn.view(i)/norm(fn.view(i))); vp_assert(!o[0],"outside along the normal"); } }); vp_cover("end"); }
VP_ENTRY(affine){ int k=(int)vp_choose("shape",0,3); Shape s=shape(k); double m[9]; for(auto& x:m) x=vp_real("m",-2,2); V3 o{vp_real("ox",-2,2),vp_real("oy",-2,2),vp_real("oz",-2,2)}; std::vector<V3> v; for(auto& x:s.v){ V3 y; for(int i=0;i<3;++i) y[i]=o[i]+m[3*i]*x[0]+m[3*i+1]*x[1]+m[3*i+2]*x[2]; v.push_back(y); } double det=m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); PB p(BA::from_std(v),facets(s)); eq(p.volume(),s.vol*det,"the volume scales with the determinant"); vp_cover("end"); }
template<class P,class M> static void agree(const P& p,M mk,bool in,bool out,const V3& q,const char* a,const char* b){ bool r=p.contains(mk({q}),1e-10,1)[0]; vp_assert(vp_implies(in,r),a); vp_assert(vp_implies(out,!r),b); }
static V3 anyq(double r){ return {vp_real("qx",-r,r),vp_real("qy",-r,r),vp_real("qz",-r,r)}; }
static void within(const std::vector<H>& hs,const V3& q,double m,bool& in,bool& out){ for(auto& h:hs){ double e=dot3(h.n,q)-h.d; in=vp_and(in,e<=-m); out=vp_or(out,e>1e-4); } }
VP_ENTRY(contain){ int k=(int)vp_choose("shape",0,5), fr=symframe(); V3 q=anyq(3); Shape s=shape(k); bool in=true,out=false; within(s.h,q,0,in,out); frames(s,fr,false,[&](auto p,double,auto mk){ bool r=p.contains(mk({q}))[0]; vp_assert(vp_implies(in,r),"points of the polyhedron are contained"); vp_assert(vp_implies(out,!r),"points outside of the polyhedron are not contained"); }); vp_cover("end"); }
// ---- cutting
struct Pl{ V3 n,e1,e2; }; // e1 x e2 is a positive multiple of n
static const Pl PLN[]={{{1,0,0},{0,1,0},{0,0,1}},{{0,0,-1},{0,1,0},{1,0,0}},{{1,1,1},{1,-1,0},{1,1,-2}},{{1,2,0},{2,-1,0},{0,0,-1}},{{-1,1,2},{2,0,1},{1,1,0}},{{2,-1,3},{3,0,-2},{1,2,0}},{{0,0,1},{1,0,0},{0,1,0}}};
static bool closed(const FV& f){ for(auto& a:f) for(size_t i=0;i<a.size();++i){ int n=0; for(auto& b:f) for(size_t j=0;j<b.size();++j) if(b[j]==a[(i+1)%a.size()]&&b[(j+1)%b.size()]==a[i]) ++n; if(n!=1) return false; } return true; }
struct Cut{ V3 a,b,c; double t; };
static Cut plane_at(const Pl& p,double t){ Cut r; r.t=t; double nn=dot3(p.n,p.n); for(int i=0;i<3;++i){ r.a[i]=p.n[i]*t/nn; r.b[i]=r.a[i]+p.e1[i]; r.c[i]=r.a[i]+p.e2[i]; } return r; }
static void range(const Shape& s,const Pl& p,double& lo,double& hi){ lo=1e9; hi=-1e9; for(auto& v:s.v){ double d=dot3(p.n,v); lo=std::min(lo,d); hi=std::max(hi,d); } }
template<class Q> static void sound(const Q& q){ auto f=q.faces().faces(); vp_assert(closed(f),"a cut polyhedron is closed"); auto v=q.vertices(); for(auto& g:f){ vp_assert(g.size()>=3,"faces have three corners or more"); for(auto i:g) vp_assert(i<v.size(0),"faces name vertices"); } }
template<class P,class M> static void parts(const P& p,M mk,const Shape& s,double u,const Cut& c,double lo,double hi){ auto in=p.one_cut(mk({c.a}),mk({c.b}),mk({c.c})), out=p.one_cut(mk({c.a}),mk({c.c}),mk({c.b})); double vi=in.volume(), vo=out.volume(); eq((vi+vo)/u,s.vol,"the parts add up to the whole"); vp_assert(vi>=-1e-9&&vo>=-1e-9,"volumes are not negative"); if(c.t<=lo-1e-6) eq(vi/u,0,"a plane below cuts everything"); if(c.t>=hi+1e-6) eq(vo/u,0,"a plane above cuts nothing"); sound(in); sound(out); }
VP_ENTRY(cut_any){ static const int C[][2]={{1,0},{1,1},{3,6},{0,0},{0,1}}; int w=(int)vp_choose("case",0,CUTN), k=C[w][0], pn=C[w][1]; Shape s=shape(k); double lo,hi; range(s,PLN[pn],lo,hi); double t=vp_real("t",lo-.5,hi+.5); for(auto& v:s.v){ double e=dot3(PLN[pn].n,v)-t; vp_assume(vp_or(e==0,vp_or(e>1e-3,e<-1e-3))); } frames(s,0,false,[&](auto p,double u,auto mk){ parts(p,mk,s,u,plane_at(PLN[pn],t),lo,hi); }); vp_cover("end"); }
// through corners and between them
static double level(double lo,double hi,int i){ static const double g[]={-.1,0,.125,.25,.375,.5,.6,.75,.875,1,1.1}; return lo+g[i]*(hi-lo); }
VP_ENTRY(cut_levels){ int k=(int)vp_choose("shape",0,5), fr=(int)vp_choose("frame",0,2), pn=(int)vp_choose("plane",0,5); Shape s=shape(k); double lo,hi; range(s,PLN[pn],lo,hi); double t=level(lo,hi,(int)vp_choose("level",0,10)); frames(s,fr,false,[&](auto p,double u,auto mk){ parts(p,mk,s,u,plane_at(PLN[pn],t),lo,hi); }); vp_cover("end"); }
VP_ENTRY(cut_points){ int k=(int)vp_choose("shape",0,5), fr=symframe(1), pn=(int)vp_choose("plane",0,5); Shape s=shape(k); double lo,hi; range(s,PLN[pn],lo,hi); double t=level(lo,hi,(int)vp_choose("level",2,LVL)); V3 q=anyq(3); auto hs=s.h; hs.push_back({PLN[pn].n,t}); bool in=true,out=false; within(hs,q,1e-6,in,out); auto c=plane_at(PLN[pn],t); frames(s,fr,false,[&](auto p,double u,auto mk){ agree(p.one_cut(mk({c.a}),mk({c.b}),mk({c.c})),mk,in,out,q,"points of the kept part are contained","points cut off are not contained"); }); vp_cover("end"); }
static const V3 SH[]={{0,0,0},{.5,.25,-.125},{1,0,0},{-.75,.5,.6},{0,1,1},{.3,-.4,.2}};
static Shape moved(Shape s,const V3& d){ for(auto& v:s.v) for(int i=0;i<3;++i) v[i]+=d[i]; for(auto& h:s.h) h.d+=dot3(h.n,d); for(int i=0;i<3;++i) s.c[i]+=d[i]; return s; }
VP_ENTRY(intersect){ int a=(int)vp_choose("a",0,NSH), b=(int)vp_choose("b",0,NSH-1), fr=symframe(1); Shape s=shape(a), t=moved(shape(b),SH[(int)vp_choose("shift",0,5)]); V3 q=anyq(3); auto hs=s.h; hs.insert(hs.end(),t.h.begin(),t.h.end()); bool in=true,out=false; within(hs,q,1e-6,in,out); frames(s,fr,false,[&](auto p,double u,auto mk){ using P=decltype(p); P r(mk(t.v),facets(t)); auto x=p.intersection(r), y=r.intersection(p); sound(x); sound(y); eq(x.volume(),y.volume(),"the intersection does not depend on the order"); vp_assert(x.volume()<=p.volume()+1e-9&&x.volume()<=r.volume()+1e-9,"the intersection is no larger than either"); if(x.face_count()) agree(x,mk,in,out,q,"common points are contained","other points are not contained"); else vp_assert(!in,"no common points"); vp_assert(p.intersects(r,1e-9,1)==(x.volume()>1e-9),"intersects tells whether there is an intersection"); }); vp_cover("end"); }
// ---- moved copies
VP_ENTRY(moves){ int k=(int)vp_choose("shape",0,5), un=(int)vp_choose("unit",0,1); int u=un? SREAL: SRECI; Shape s=shape(k); auto mk=[u](const std::vector<V3>& x){ return lv(u,x); }; PL p(mk(s.v),facets(s)); double V=lat(u).volume(unit(u)); V3 d=anyq(2), q=anyq(3);
  switch((int)vp_choose("what",0,3)){ case 0: { V3 e=SH[(int)vp_choose("by",1,5)]; auto m=p.translate(mk({e})); bool in=true,out=false; V3 z=sub(q,e); within(s.h,z,1e-6,in,out); agree(m,mk,in,out,q,"translated points are contained","other points are not"); auto n=p.translate(mk({d})); for(size_t i=0;i<s.v.size();++i) for(int j=0;j<3;++j) eq(n.vertices().val(i,j),s.v[i][j]+d[j],"translated corners"); eq(n.volume(),s.vol*V,"the volume does not change"); break; }
   case 1: { auto m=p.mirror(); V3 z{-q[0],-q[1],-q[2]}; bool in=true,out=false; within(s.h,z,1e-6,in,out); agree(m,mk,in,out,q,"mirrored points are contained","other points are not"); eq(m.volume(),s.vol*V,"the mirrored volume"); break; }
   case 2: { auto m=p.translate(mk({d})).centre(); for(size_t i=0;i<s.v.size();++i) for(int j=0;j<3;++j) eq(m.vertices().val(i,j),s.v[i][j]-s.c[j],"centred corners"); vp_assert(m.faces()==p.faces(),"the faces do not change"); break; }
   default: { // a rotation of the point group 422 or its improper counterpart: x -> Rx
     std::vector<std::array<int,9>> R{{1,0,0,0,1,0,0,0,1},{0,-1,0,1,0,0,0,0,1},{-1,0,0,0,-1,0,0,0,1},{0,1,0,-1,0,0,0,0,1},{-1,0,0,0,-1,0,0,0,-1},{0,1,0,-1,0,0,0,0,-1},{1,0,0,0,1,0,0,0,-1},{0,1,0,1,0,0,0,0,1},{1,1,0,0,1,0,0,0,1}}; int r=(int)vp_choose("R",0,8); PointSymmetry ps(R); auto m=p.apply(ps,(ind_t)r); auto w=ps.get(r); if(!un) w=transpose(w); // w maps the points
     // the points x with x = w y, y in the shape
     std::array<int,9> wi; { int det=w[0]*(w[4]*w[8]-w[5]*w[7])-w[1]*(w[3]*w[8]-w[5]*w[6])+w[2]*(w[3]*w[7]-w[4]*w[6]); int c[9]={w[4]*w[8]-w[5]*w[7],w[2]*w[7]-w[1]*w[8],w[1]*w[5]-w[2]*w[4],w[5]*w[6]-w[3]*w[8],w[0]*w[8]-w[2]*w[6],w[2]*w[3]-w[0]*w[5],w[3]*w[7]-w[4]*w[6],w[1]*w[6]-w[0]*w[7],w[0]*w[4]-w[1]*w[3]}; for(int i=0;i<9;++i) wi[i]=c[i]*det; }
     V3 z; for(int i=0;i<3;++i) z[i]=wi[3*i]*q[0]+wi[3*i+1]*q[1]+wi[3*i+2]*q[2]; bool in=true,out=false; within(s.h,z,1e-6,in,out); agree(m,mk,in,out,q,"rotated points are contained","other points are not"); eq(m.volume(),s.vol*V,"the rotated volume"); } } vp_cover("end"); }
VP_ENTRY(combine){ int k=(int)vp_choose("shape",0,4), fr=(int)vp_choose("frame",0,1), pn=(int)vp_choose("plane",0,3); Shape s=shape(k); double lo,hi; range(s,PLN[pn],lo,hi); double t=level(lo,hi,(int)vp_choose("level",3,7)); auto c=plane_at(PLN[pn],t); frames(s,fr,false,[&](auto p,double u,auto mk){ auto in=p.one_cut(mk({c.a}),mk({c.b}),mk({c.c})), out=p.one_cut(mk({c.a}),mk({c.c}),mk({c.b})); if(!in.face_count()||!out.face_count()) return; auto w=in+out; eq(w.volume()/u,s.vol,"the parts combine to the whole"); }); vp_cover("end"); }
VP_ENTRY(equal){ int k=(int)vp_choose("shape",0,4), fr=(int)vp_choose("frame",0,2), r=(int)vp_choose("rot",0,3); Shape s=shape(k); frames(s,fr,false,[&](auto p,double u,auto mk){ using P=decltype(p); Shape t=s; std::rotate(t.v.begin(),t.v.begin()+(r*t.v.size())/4,t.v.end()); auto f=facets(t).faces(); std::rotate(f.begin(),f.begin()+r%f.size(),f.end()); P q(mk(t.v),Faces(f)); vp_assert(p==q&&q==p&&!(p!=q),"the order of corners and faces does not matter"); Shape m=moved(s,SH[1]); P d(mk(m.v),facets(m)); vp_assert(p!=d&&!(d==p),"a moved polyhedron is different"); Shape b=s; b.v[r][1]+=.125; P e(mk(b.v),facets(s)); vp_assert(p!=e,"a changed corner is noticed"); }); vp_cover("end"); }
VP_ENTRY(box){ int n=(int)vp_choose("n",2,3); std::vector<V3> x; for(int i=0;i<n;++i) x.push_back({vp_real("x",-2,2),vp_real("y",-2,2),vp_real("z",-2,2)}); auto b=bounding_box(BA::from_std(x)); V3 lo=x[0],hi=x[0]; for(auto& v:x) for(int i=0;i<3;++i){ lo[i]=v[i]<lo[i]? v[i]: lo[i]; hi[i]=v[i]>hi[i]? v[i]: hi[i]; } eq(b.volume(),(hi[0]-lo[0])*(hi[1]-lo[1])*(hi[2]-lo[2]),"the volume of the bounding box"); auto v=b.vertices(); for(int i=0;i<3;++i){ eq(v.min(0).val(0,i),lo[i],"the lower bound"); eq(v.max(0).val(0,i),hi[i],"the upper bound"); } vp_cover("end"); }
VP_ENTRY(plane_points){ int pn=(int)vp_choose("plane",0,5), fr=(int)vp_choose("frame",0,1); V3 p=anyq(2), n=PLN[pn].n; auto go=[&](auto mk){ auto N=mk({n}), P=mk({p}); auto [a,b,c]=plane_points_from_normal(N,P); auto nn=three_point_normal(a,b,c); vp_assert(dot(nn,N).sum()>0,"the points wind around the normal"); for(auto* x:{&a,&b,&c}){ double e=dot(N,(*x)-P).sum(); vp_assert(e<1e-9&&e>-1e-9,"the points are on the plane"); } }; if(fr) go([](const std::vector<V3>& x){ return lv(SRECI,x); }); else go([](const std::vector<V3>& x){ return BA::from_std(x); }); vp_cover("end"); }
