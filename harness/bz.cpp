// Brillouin zones: construction, moving points into them, irreducible parts (P33, P34)
#include "vp.h"
#include <memory>
#include <iostream>
#include <numeric>
#include <algorithm>
#include "lapjv.hpp"
#include "bz.hpp"
#include "geo_model.h"
using namespace brille; using namespace brille::lattice; using V3=std::array<double,3>; using M9=std::array<int,9>;
static void eq(double a,double b,const char* m){ vp_assert_eq(a,b,m); }

#ifdef VP_THOROUGH
#define TH(a,b) (b)
#else
#define TH(a,b) (a)
#endif
#include "zones.h"
// the first zone: all points nearest to the origin, bounded by lattice vector bisectors, with the right volume
static void zone(const Case& c,bool prim){ auto bz=build(c,prim,false); auto l=bz.get_lattice(); double v=l.volume(LengthUnit::inverse_angstrom)*(prim? fold(c.c): 1); auto p=bz.get_polyhedron(); double x=p.volume()/v; eq(x,1,"the volume of the zone is that of the primitive reciprocal cell");
  auto f=bz.get_points(); for(ind_t i=0;i<f.size(0);++i){ double t[3]; for(int j=0;j<3;++j){ double d=2*f.val(i,j); t[j]=std::round(d); eq(d,t[j],"faces bisect lattice vectors"); } vp_assert(!prim||allowed(c.c,t[0],t[1],t[2]),"faces bisect primitive lattice vectors"); }
  auto w=bz.get_vertices(); for(ind_t i=0;i<w.size(0);++i){ V3 q{w.val(i,0),w.val(i,1),w.val(i,2)}; nearest(c,l,q,prim,"corners are not nearer to another lattice point"); }
  V3 q=line(TH(2,4)); bool in=bz.isinside(vec(l,q))[0]; vp_cover(in?"in":"out"); if(in) nearest(c,l,q,prim,"inside points are nearest to the origin"); else { auto g=l.metric(LengthUnit::inverse_angstrom); bool near=true; for(ind_t n=0;n<f.size(0);++n){ double qG=0,GG=0; for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double a=std::round(2*f.val(n,i)), b=std::round(2*f.val(n,j)); qG+=q[i]*(g[3*i+j]*b); GG+=a*g[3*i+j]*b; } near=vp_and(near,2*qG<=GG*(1-1e-7)); } vp_assert(!near,"points nearest to the origin are inside"); } }
VP_ENTRY(first){ zone(pick(TH(12,NC)),true); vp_cover("end"); }
VP_ENTRY(first_conventional){ zone(CASES[vp_choose("case",0,11)],false); vp_cover("end"); }
static void moved(const Case& c,BrillouinZone& bz,const V3& q,bool prim){ auto l=bz.get_lattice(); auto Q=vec(l,q); LVec<double> r(Q.type(),l,1u); LVec<int> t(Q.type(),l,1u); vp_assert(bz.moveinto(Q,r,t),"moved"); double T[3]; for(int i=0;i<3;++i){ T[i]=t.val(0,i); eq(r.val(0,i)+T[i],q[i],"Q = q + tau"); } vp_assert(!prim||allowed(c.c,T[0],T[1],T[2]),"tau is a reciprocal lattice vector"); nearest(c,l,at(r),prim,"q is in the first zone"); vp_cover("moved"); }
VP_ENTRY(move_line){ const Case& c=pick(TH(12,NC)); auto bz=build(c,true,false); moved(c,bz,line(4),true); vp_cover("end"); }
VP_ENTRY(move_conventional){ const Case& c=CASES[vp_choose("case",0,11)]; auto bz=build(c,false,false); moved(c,bz,line(2),false); vp_cover("end"); }
VP_ENTRY(move_box){ static const int K[]={0,3,4,1,2}; const Case& c=CASES[K[vp_choose("case",0,TH(2,4))]]; auto bz=build(c,true,false); moved(c,bz,box(TH(.5,.75)),true); vp_cover("end"); }
// a point given in primitive coordinates
static int point_case(){ return (int)vp_choose("case",0,TH(11,NC-1)); }
template<class P> static bool within(const Lattice<double>& l,const P& n,const P& p,const V3& q,double slack){ auto g=l.metric(LengthUnit::inverse_angstrom); bool ok=true; for(ind_t k=0;k<n.size(0);++k){ double d=0; for(int i=0;i<3;++i){ double c=0; for(int j=0;j<3;++j) c+=g[3*i+j]*n.val(k,j); d+=c*(q[i]-p.val(k,i)); } ok=vp_and(ok,d<=slack); } return ok; }
// the irreducible part: the right share of the zone, of which no two points are equivalent
VP_ENTRY(ir_shape){ const Case& c=CASES[vp_choose("case",0,NC-1)]; auto bz=build(c); auto l=bz.get_lattice(); auto ps=bz.get_pointgroup_symmetry(); auto ir=bz.get_ir_polyhedron(); eq(ir.volume()*ps.size()/bz.get_polyhedron().volume(),1,"the volume of the irreducible part"); vp_note(std::to_string(ps.size()).c_str());
  auto v=bz.get_ir_vertices(); for(ind_t i=0;i<v.size(0);++i){ nearest(c,l,{v.val(i,0),v.val(i,1),v.val(i,2)},true,"the irreducible part is in the first zone"); }
  auto wi=bz.isinside_wedge_outer(v); for(ind_t i=0;i<v.size(0);++i) vp_assert(wi[i],"the irreducible part is in the wedge");
  auto n=ir.face_normals(), p=ir.face_points(); V3 q=box(1); vp_assume(within(l,n,p,q,-1e-6)); vp_cover("inside"); for(ind_t i=0;i<ps.size();++i){ const M9& r=ps.get(i); M9 id{1,0,0,0,1,0,0,0,1}; if(r==id) continue; vp_assert(!within(l,n,p,mulT(r,q),-1e-6),"no two inner points are equivalent"); } vp_cover("end"); }
static void ir_moved(const Case& c,BrillouinZone& bz,const V3& q){ auto l=bz.get_lattice(); auto ps=bz.get_pointgroup_symmetry(); auto Q=vec(l,q); LVec<double> r(Q.type(),l,1u); LVec<int> t(Q.type(),l,1u); std::vector<size_t> R,I; vp_assert(bz.ir_moveinto(Q,r,t,R,I),"moved"); vp_assert(R.size()==1&&I.size()==1&&R[0]<ps.size()&&I[0]==ps.get_inverse_index(R[0]),"an operation and its inverse"); V3 x=mulT(ps.get(R[0]),at(r)); double T[3]; for(int i=0;i<3;++i){ T[i]=t.val(0,i); eq(x[i]+T[i],q[i],"Q = R^T q + tau"); } vp_assert(allowed(c.c,T[0],T[1],T[2]),"tau is a reciprocal lattice vector");
  vp_cover("moved"); nearest(c,l,at(r),true,"q is in the first zone"); auto ir=bz.get_ir_polyhedron(); vp_assert(within(l,ir.face_normals(),ir.face_points(),at(r),1e-6),"q is in the irreducible part"); }
VP_ENTRY(ir_line){ const Case& c=CASES[point_case()]; auto bz=build(c); ir_moved(c,bz,line(TH(2,4))); vp_cover("end"); }
VP_ENTRY(wedge_line){ const Case& c=CASES[point_case()]; auto bz=build(c); auto l=bz.get_lattice(); auto ps=bz.get_pointgroup_symmetry(); V3 q=line(TH(2,4)); auto Q=vec(l,q); LVec<double> r(Q.type(),l,1u); std::vector<size_t> R; vp_assert(bz.ir_moveinto_wedge(Q,r,R),"moved"); vp_assert(R.size()==1&&R[0]<ps.size(),"an operation"); V3 x=mulT(ps.get(R[0]),at(r)); for(int i=0;i<3;++i) eq(x[i],q[i],"Q = R^T q"); vp_cover("moved");
  auto n=bz.get_ir_wedge_normals(); auto g=l.metric(LengthUnit::inverse_angstrom); V3 y=at(r); bool ok=true, mirror=true; for(ind_t k=0;k<n.size(0);++k){ double d=0; for(int i=0;i<3;++i) for(int j=0;j<3;++j) d+=g[3*i+j]*n.val(k,j)*y[i]; ok=vp_and(ok,d>=-1e-6); } vp_assert(ok,"q is in the wedge"); vp_cover("end"); }
// several points at once, points given in the primitive lattice, and refusal of other lattices
VP_ENTRY(move_rows){ static const int K[]={1,2,4,6,0}; const Case& c=CASES[K[vp_choose("case",0,4)]]; auto bz=build(c,true,false); auto l=bz.get_lattice(); V3 a=line(1), b{1.3,-.2,.7}; LVec<double> Q(LengthUnit::inverse_angstrom,l,3u); for(int i=0;i<3;++i){ Q.val(0,i)=b[i]; Q.val(1,i)=a[i]; Q.val(2,i)=-2*b[i]; } LVec<double> r(Q.type(),l,0u); LVec<int> t(Q.type(),l,0u); int nth=(int)vp_choose("threads",0,2); vp_assert(bz.moveinto(Q,r,t,nth),"moved"); vp_assert(r.size(0)==3&&t.size(0)==3,"one per point"); for(int n=0;n<3;++n){ double T[3]; for(int i=0;i<3;++i){ T[i]=t.val(n,i); eq(r.val(n,i)+T[i],Q.val(n,i),"Q = q + tau"); } vp_assert(allowed(c.c,T[0],T[1],T[2]),"tau is a reciprocal lattice vector"); nearest(c,l,{r.val(n,0),r.val(n,1),r.val(n,2)},true,"q is in the first zone"); } vp_cover("moved"); vp_cover("end"); }
VP_ENTRY(move_primitive){ static const int K[]={1,2,4,6}; const Case& c=CASES[K[vp_choose("case",0,3)]]; auto bz=build(c,true,false); auto l=bz.get_primitive_lattice(); V3 a=line(2); auto Q=vec(l,a); LVec<double> r(Q.type(),l,1u); LVec<int> t(Q.type(),l,1u); vp_assert(bz.moveinto(Q,r,t),"moved"); for(int i=0;i<3;++i) eq(r.val(0,i)+t.val(0,i),a[i],"Q = q + tau"); vp_assert(r.lattice().is_same(l),"q is in the lattice of Q"); Case d=c; d.c='P'; nearest(d,l,at(r),true,"q is in the first zone"); vp_cover("moved"); vp_cover("end"); }
VP_ENTRY(move_refuse){ const Case& c=CASES[vp_choose("case",0,1)]; auto bz=build(c,true,false); Lattice<double> o(LengthUnit::angstrom,std::array<double,3>{1.5,2.5,3.5},std::array<double,3>{90,90,90},std::string("P 1")); auto Q=vec(o,line(1)); LVec<double> r(Q.type(),o,1u); LVec<int> t(Q.type(),o,1u); std::vector<size_t> R,I; int k=(int)vp_choose("call",0,3); bool thrown=false; try{ if(k==0) bz.moveinto(Q,r,t); else if(k==1) bz.ir_moveinto(Q,r,t,R,I); else if(k==2) bz.ir_moveinto_wedge(Q,r,R); else bz.isinside(Q); } catch(std::exception&){ thrown=true; } vp_assert(thrown,"points of another lattice are refused"); vp_cover("end"); }
// every tabulated space group setting with a lattice which it allows (which: 0..1)
static Lattice<double> tabulated(int hall,int which){ Spacegroup sg(hall); int no=sg.get_international_table_number(); std::string ch=sg.get_choice(); double a=3, b=which?5:4, c=which?4.5:6.5; V3 len{a,b,c}, ang{90,90,90};
  if(no<=2) ang= which? V3{80,95,100}: V3{85,80,75}; else if(no<=15){ char u='b'; for(char x:ch) if(x=='a'||x=='b'||x=='c'){ u=x; break; } ang[u-'a']=which?110:100; } else if(no<=74){} else if(no<=142) len={a,a,which?c:2.}; else if(no<=194){ if(ch=="R"){ len={a,a,a}; double t=which?100:70; ang={t,t,t}; } else { len={a,a,which?c:2.}; ang={90,90,120}; } } else len={a,a,a};
  return Lattice<double>(LengthUnit::angstrom,len,ang,sg.get_hall_symbol()); }
static void irreducible(const BrillouinZone& bz,const Lattice<double>& l){ auto ps=bz.get_pointgroup_symmetry(); auto ir=bz.get_ir_polyhedron(); double cell=l.volume(LengthUnit::angstrom)/bz.get_primitive_lattice().volume(LengthUnit::angstrom); eq(bz.get_polyhedron().volume()/(l.volume(LengthUnit::inverse_angstrom)*cell),1,"the volume of the zone is that of the reciprocal cell"); eq(ir.volume()*ps.size()/bz.get_polyhedron().volume(),1,"the volume of the irreducible part");
  V3 q=box(1); vp_assume(within(l,ir.face_normals(),ir.face_points(),q,-1e-6)); vp_cover("inside"); auto f=bz.get_polyhedron(); vp_assert(within(l,f.face_normals(),f.face_points(),q,1e-6),"the irreducible part is in the zone"); auto n=ir.face_normals(), p=ir.face_points(); M9 id{1,0,0,0,1,0,0,0,1}; int k=0; for(ind_t i=0;i<ps.size();++i){ const M9& r=ps.get(i); if(r==id){ ++k; continue; } vp_assert(!within(l,n,p,mulT(r,q),-1e-6),"no two inner points are equivalent"); } vp_assert(k==1,"the identity"); }
VP_ENTRY(settings){ int h=TH(9,1)*(int)vp_choose("setting",0,TH(58,529))+TH(4,1); int which=(int)vp_choose("lattice",0,1), tr=(int)vp_choose("time_reversal",0,1); auto l=tabulated(h,which); BrillouinZoneConfig cfg; cfg.time_reversal(tr); if(TH(0,vp_choose("conventional",0,1))) cfg.primitive(false); BrillouinZone bz(l,cfg); irreducible(bz,l); vp_cover("end"); }
// the rhombohedral setting of R 3 2 without time reversal: the search for the irreducible part depends on rounding
VP_ENTRY(r32){ double t=vp_choose("angle",0,1)?97:92; Lattice<double> l(LengthUnit::angstrom,std::array<double,3>{3,3,3},std::array<double,3>{t,t,t},std::string("P 3* 2")); BrillouinZoneConfig cfg; cfg.time_reversal(false); bool found=false; try{ BrillouinZone bz(l,cfg); found=true; if(t==92) irreducible(bz,l); } catch(std::exception&){} if(t==92) vp_assert(found,"an irreducible part is found at 92 degrees"); else vp_assert(found,"an irreducible part is found for P 3* 2 at 97 degrees without time reversal"); vp_cover("end"); }
// options of the construction do not change the zone; zones compare equal exactly if they are built alike
VP_ENTRY(options){ static const int K[]={0,4,2,6,7}; const Case& c=CASES[K[vp_choose("case",0,4)]]; int o=(int)vp_choose("option",0,4); auto l=make(c); BrillouinZoneConfig cfg; cfg.time_reversal(c.tr); BrillouinZone a(l,cfg); BrillouinZoneConfig d=cfg; switch(o){ case 0: d.divide_extent(2); break; case 1: d.divide_primitive(false); break; case 2: d.wedge_search(false); break; case 3: d.time_reversal(!c.tr); break; default: break; }
  BrillouinZone b(l,d); auto pa=a.get_polyhedron(), pb=b.get_polyhedron(); eq(pb.volume()/pa.volume(),1,"the zone does not depend on options"); V3 q=box(.75); vp_assert(within(l,pa.face_normals(),pa.face_points(),q,-1e-6)<=within(l,pb.face_normals(),pb.face_points(),q,1e-6),"the zone does not depend on options"); vp_cover("compared");
  if(o==4) vp_assert(a==b&&!(a!=b),"alike zones are equal"); if(o==3) vp_assert(a!=b&&!(a==b),"time reversal makes a difference"); vp_assert(b.add_time_reversal()==(o==3? 1-c.tr: c.tr),"time reversal is kept"); if(o==2) eq(b.get_ir_polyhedron().volume()/pa.volume(),1,"without a wedge search the zone is used"); BrillouinZone e(b); vp_assert(e==b,"copies are equal"); vp_cover("end"); }
