// Lattices (P26), primitive transforms (P27), lattice vectors (P28), atom basis (P29)
#include "vp.h"
#include <memory>
#include <iostream>
#include <numeric>
#include <algorithm>
#include "array_.hpp"
#include "array_l_.hpp"
#include "lattice_dual.hpp"
#include "transform.hpp"
#include "geometry.hpp"
#ifdef VP_THOROUGH
#define TH(a,b) (b)
#else
#define TH(a,b) (a)
#endif
using namespace brille; using namespace brille::lattice; using M9=std::array<double,9>; using V3=std::array<double,3>; using I9=std::array<int,9>; using Lat=Lattice<double>; using LV=LVec<double>;
static const double TP=brille::math::two_pi; static const LengthUnit LU[2]={LengthUnit::angstrom,LengthUnit::inverse_angstrom};
static void eq(double a,double b,const char* m){ vp_assert_eq(a,b,m); }
static M9 mmul(const M9& a,const M9& b){ M9 o; for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[i*3+j]=a[i*3]*b[j]+a[i*3+1]*b[3+j]+a[i*3+2]*b[6+j]; return o; }
static M9 tr(const M9& a){ M9 o; for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[i*3+j]=a[j*3+i]; return o; }
static double det(const M9& m){ return m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); }
static V3 mv(const M9& a,const V3& v){ return {a[0]*v[0]+a[1]*v[1]+a[2]*v[2],a[3]*v[0]+a[4]*v[1]+a[5]*v[2],a[6]*v[0]+a[7]*v[1]+a[8]*v[2]}; }
static double dot(const V3& a,const V3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static V3 crs(const V3& a,const V3& b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
static M9 any(const char* n,int free,double lo,double hi){ static const M9 base{3,1,.5, .25,4,-1, -.5,.75,2.5}; M9 m=base; for(int i=0;i<9;++i) if((free>>i)&1) m[i]=vp_real(n,lo,hi); return m; }
static void dual(const Lat& l,const char* msg){ M9 A=l.vectors(LU[0]), B=l.vectors(LU[1]); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double d=0; for(int k=0;k<3;++k) d+=A[k*3+i]*B[k*3+j]; eq(d,i==j?TP:0,msg); } }
static void derived(const Lat& l){ for(auto lu:LU){ M9 A=l.vectors(lu), G=l.metric(lu), T=mmul(tr(A),A); for(int i=0;i<9;++i) eq(G[i],T[i],"the metric holds the dot products of the basis vectors"); eq(l.volume(lu),det(A),"the volume is the determinant of the basis vectors"); M9 to=l.to_xyz(lu), fr=l.from_xyz(lu), I=mmul(fr,to); for(int i=0;i<9;++i){ eq(I[i],i%4==0,"from and to orthonormal coordinates are inverse"); eq(to[i],A[i],"orthonormal coordinates use the basis vectors"); } for(int i=0;i<3;++i){ V3 v=l.vector(lu,i); for(int k=0;k<3;++k) eq(v[k],A[k*3+i],"basis vectors are the columns"); } } }
// ---- P26
#ifndef FREE
#define FREE 0x1b6
#endif
VP_ENTRY(matrix_dual){ int lu=(int)vp_choose("lu",0,1), col=(int)vp_choose("col",0,1); static const int F[4]={0x111,0x049,0x00e,FREE}; M9 m=any("m",F[vp_choose("free",0,2)],-4,4); double d=det(m); vp_assume(vp_or(d>=0.5,d<=-0.5)); Lat l(LU[lu],m,col?MatrixVectors::column:MatrixVectors::row,std::string("P 1"),Basis(),false); M9 A=l.vectors(LU[lu]); M9 want= col? m: tr(m); for(int i=0;i<9;++i) eq(A[i],want[i],"the given vectors are kept"); dual(l,"real and reciprocal vectors are dual"); vp_cover("end"); }
VP_ENTRY(matrix_derived){ int lu=(int)vp_choose("lu",0,1); static const int F[3]={0x010,0x008,0x100}; M9 m=any("m",F[vp_choose("free",0,2)],1,4); vp_assume(det(m)>=0.5); Lat l(LU[lu],m,MatrixVectors::column,std::string("P 1"),Basis(),false); derived(l); vp_cover("end"); }
static const double ANG[6][3]={{90,90,90},{90,90,120},{60,60,60},{90,105,90},{75,90,60},{109.5,97.25,118}};
VP_ENTRY(params){ int lu=(int)vp_choose("lu",0,1), a=(int)vp_choose("ang",0,5), u=(int)vp_choose("unit",0,3); V3 len{vp_real("a",.5,9),vp_real("b",.5,9),vp_real("c",.5,9)}, an; static const AngleUnit AU[4]={AngleUnit::degree,AngleUnit::radian,AngleUnit::pi,AngleUnit::not_provided}; bool rad= u==1||(u==3&&vp_choose("rad",0,1)); for(int i=0;i<3;++i) an[i]= rad? ANG[a][i]/180*brille::math::pi: u==2? ANG[a][i]/180: ANG[a][i]; Symmetry s; Lat l(LU[lu],len,an,s,Basis(),false,AU[u]); dual(l,"real and reciprocal vectors are dual"); M9 G=l.metric(LU[lu]); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double c= i==j? 1: std::cos(ANG[a][3-i-j]/180*brille::math::pi); eq(G[i*3+j],len[i]*len[j]*c,"the metric has the given lengths and angles"); } vp_assert(det(l.vectors(LU[0]))>0,"the basis is right handed"); for(int i=0;i<3;++i){ double L=l.length(LU[lu],i); vp_assert(L>0,"lengths are positive"); eq(L*L,len[i]*len[i],"the given lengths are reported"); } vp_cover("end"); }
VP_ENTRY(params_conc){ int lu=(int)vp_choose("lu",0,1), a=(int)vp_choose("ang",0,5); V3 len{3,4.5,7}, an; for(int i=0;i<3;++i) an[i]=ANG[a][i]; Symmetry s; Lat l(LU[lu],len,an,s,Basis(),false,AngleUnit::degree); auto d=l.angles(LU[lu],AngleUnit::degree), r=l.angles(LU[lu]), p=l.angles(LU[lu],AngleUnit::pi); for(int i=0;i<3;++i){ eq(d[i],an[i],"the given angles are reported"); eq(r[i],an[i]*brille::math::pi/180,"angles in radian"); eq(p[i],an[i]/180,"angles in units of pi"); } auto L=l.lengths(LU[lu]); for(int i=0;i<3;++i) eq(L[i],len[i],"the given lengths are reported"); derived(l);
  // giving the dual parameters of the other space describes the same lattice
  Lat k(LU[1-lu],l.lengths(LU[1-lu]),l.angles(LU[1-lu]),s,Basis(),false,AngleUnit::radian); for(auto u:LU){ M9 g=l.metric(u), h=k.metric(u); for(int i=0;i<9;++i) eq(g[i],h[i],"the dual parameters describe the same lattice"); } vp_cover("end"); }
VP_ENTRY(bad_params){ static const double B[4][3]={{60,60,130},{90,80,172},{125,120,120},{100,130,135}}; int b=(int)vp_choose("b",0,3); V3 len{vp_real("a",1,5),2,3}, an{B[b][0],B[b][1],B[b][2]}; bool th=false; Symmetry s; try{ Lat l(LU[vp_choose("lu",0,1)],len,an,s,Basis(),false,AngleUnit::degree); }catch(const std::exception&){ th=true; } vp_assert(th,"angles which enclose no volume are refused"); th=false; V3 neg{-1,90,90}; try{ Lat l(LU[0],len,neg,s); }catch(const std::exception&){ th=true; } vp_assert(th,"negative angles are refused"); th=false; V3 ok{90,90,90}; try{ Lat l(LengthUnit::none,len,ok,s); }catch(const std::exception&){ th=true; } vp_assert(th,"a length unit is required"); vp_cover("end"); }
// snapping: afterwards the metric is invariant under the point group
struct Sys{ const char* hall; double a[3]; int kind; }; // kind: bit0 a=b, bit1 b=c
static const Sys SYS[]={{"P 4",{90,90,90},1},{"P 6",{90,90,120},1},{"P 3",{90,90,120},1},{"P 3*",{80,80,80},3},{"P 2 2 3",{90,90,90},3},{"R 3",{90,90,120},1},{"I 4",{90,90,90},1},{"F 4 2 3",{90,90,90},3},{"-P 6 2",{90,90,120},1},{"C 2 2",{90,90,90},0},{"P 2 2",{90,90,90},0},{"-P 2y",{90,97,90},0},{"P 1",{80,85,95},0},{"I 2 2 3",{90,90,90},3},{"P 3 2\"",{90,90,120},1},{"-R 3 2\"",{90,90,120},1}};
static const int OKS[]={0,1,3,4,6,7,8,9,10,11,12,13,14,15};
static std::vector<I9> independent(const PointSymmetry& ps){ std::vector<I9> gen,all{{1,0,0,0,1,0,0,0,1}}; auto mm=[](const I9& a,const I9& b){ I9 o; for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[i*3+j]=a[i*3]*b[j]+a[i*3+1]*b[3+j]+a[i*3+2]*b[6+j]; return o; }; for(size_t k=0;k<ps.size();++k){ I9 W=ps.get(k); if(std::find(all.begin(),all.end(),W)!=all.end()) continue; gen.push_back(W); for(size_t i=0;i<all.size();++i) for(auto& g:gen){ I9 x=mm(all[i],g); if(std::find(all.begin(),all.end(),x)==all.end()) all.push_back(x); } } return gen; }
static void invariant(const Lat& l,const char* m,double tol=0){ auto ps=l.pointgroup_symmetry(); vp_assert(ps.size()>0,"there are point operations"); for(auto lu:LU){ M9 G=l.metric(lu); for(auto& W:independent(ps)){ M9 w; for(int i=0;i<9;++i) w[i]=W[i]; if(lu==LU[1]){ /* reciprocal components transform with the inverse transpose; the group holds every inverse */ w=tr(w); } M9 T=mmul(tr(w),mmul(G,w)); for(int i=0;i<9;++i) if(tol>0){ double d=T[i]-G[i]; vp_assert(d<tol&&d>-tol,m); } else eq(T[i],G[i],m); } } }
VP_ENTRY(snap_lengths){ int k=OKS[vp_choose("sys",0,13)]; int lu=(int)vp_choose("lu",0,1); const Sys& S=SYS[k]; double e=vp_real("e",-.01,.01), f= (S.kind&2)? vp_real("f",-.01,.01): 0, a=4; V3 len{a,(S.kind&1)? a+e: 3.25,(S.kind&2)? a+f: 4.5}; V3 an{S.a[0],S.a[1],S.a[2]}; if(lu==1) for(auto& x:an) if(x==120) x=60; Lat l(LU[lu],len,an,std::string(S.hall),Basis(),true,AngleUnit::degree); dual(l,"real and reciprocal vectors are dual"); invariant(l,"the snapped metric is invariant under the point group"); M9 G=l.metric(LU[lu]); for(int i=0;i<3;++i){ double d=G[i*3+i]-len[i]*len[i]; vp_assert(d<.25&&d>-.25,"snapping moves the parameters by no more than their error"); } vp_cover("end"); }
VP_ENTRY(snap_trigonal){ int k=vp_choose("sys",0,1)? 5:2; const Sys& S=SYS[k]; V3 len{4,4+vp_real("e",-.01,.01),5}, an{S.a[0],S.a[1],S.a[2]}; Lat l(LU[0],len,an,std::string(S.hall),Basis(),true,AngleUnit::degree); vp_cover("end"); invariant(l,"the metric of a lattice with three-fold symmetry only is invariant after snapping"); }
VP_ENTRY(snap_cubic){ double e= vp_choose("p",0,1)? .02: -.013; V3 len{4,4,4}, an{90+e,90,90}; Lat l(LU[vp_choose("lu",0,1)],len,an,std::string("P 2 2 3"),Basis(),true,AngleUnit::degree); vp_cover("end"); invariant(l,"the metric of a primitive cubic lattice is invariant after snapping",1e-4); }
VP_ENTRY(snap_exact){ int k=OKS[vp_choose("sys",0,13)]; const Sys& S=SYS[k]; double a=vp_real("a",2,5), c=vp_real("c",2,5); V3 len{a,(S.kind&1)? a: 3.25,(S.kind&2)? a: c}; V3 an{S.a[0],S.a[1],S.a[2]}; int lu=(int)vp_choose("lu",0,1); if(lu==1) for(auto& x:an) if(x==120) x=60; Lat l(LU[lu],len,an,std::string(S.hall),Basis(),true,AngleUnit::degree); M9 G=l.metric(LU[lu]); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double co= i==j? 1: std::cos(an[3-i-j]/180*brille::math::pi); eq(G[i*3+j],len[i]*len[j]*co,"a lattice which has the symmetry is not changed"); } invariant(l,"the metric is invariant under the point group"); vp_cover("end"); }
VP_ENTRY(snap_angles){ int k=OKS[vp_choose("sys",0,13)]; const Sys& S=SYS[k]; int p=(int)vp_choose("p",0,2); if(S.kind==0) vp_assume(p==0); static const double D[3]={0,.0011,-.0023}; V3 len{4,(S.kind&1)? 4*(1+D[p]): 3.25,(S.kind&2)? 4*(1-D[p]): 5}; V3 an{S.a[0],S.a[1],S.a[2]}; if(p&&S.kind){ an[0]+=D[p]*10; an[1]-=D[p]*10; } int lu=(int)vp_choose("lu",0,1), mat=(int)vp_choose("mat",0,1); if(lu==1) for(auto& x:an) if(x>110) x=180-x; Lat q(LU[lu],len,an,Symmetry(),Basis(),false,AngleUnit::degree); std::unique_ptr<Lat> l; try{ if(mat){ M9 R{0,-1,0, 0.8,0,-0.6, 0.6,0,0.8}; if(vp_choose("rot",0,1)) R={1,0,0,0,1,0,0,0,1}; M9 m=mmul(R,q.vectors(LU[lu])); l=std::make_unique<Lat>(LU[lu],m,MatrixVectors::column,std::string(S.hall)); for(auto u:LU){ M9 a=l->vectors(u), b=mmul(R,q.vectors(u)); for(int i=0;i<9;++i) vp_assert(std::abs(a[i]-b[i])<.5,"snapping keeps the orientation"); } } else l=std::make_unique<Lat>(LU[lu],len,an,std::string(S.hall),Basis(),true,AngleUnit::degree); }catch(const std::exception&){ vp_assert(false,"a lattice close to its symmetry is accepted"); return; } dual(*l,"real and reciprocal vectors are dual"); invariant(*l,"the snapped metric is invariant under the point group",1e-4); for(auto u:LU){ M9 G=l->metric(u), H=q.metric(u); for(int i=0;i<9;++i) vp_assert(std::abs(G[i]-H[i])<.5,"snapping changes little"); } vp_cover("end"); }
VP_ENTRY(sameness){ M9 m=any("x",0,0,0); M9 n=m; n[(int)vp_choose("i",0,8)]+=vp_real("d",-.5,.5); vp_assume(det(n)>=.5); Lat a(LU[0],m,MatrixVectors::column,std::string("P 1"),Basis(),false), b(LU[0],n,MatrixVectors::column,std::string("P 1"),Basis(),false); bool s=a.is_same(b), t=b.is_same(a); vp_assert(s==t,"sameness is symmetric"); vp_assert((a==b)==s&&(a!=b)==!s,"equality is sameness"); bool far=false; for(int i=0;i<9;++i){ double d=n[i]-m[i]; far=vp_or(far,vp_or(d>.01,d<-.01)); } vp_assert(vp_implies(far,!s),"lattices with different vectors differ"); vp_assert(a.is_same(a)&&a.is_equivalent(a),"a lattice is the same as itself"); Lat c(a); vp_assert(c==a,"a copy is the same"); vp_cover("end"); }
VP_ENTRY(symmetry_kept){ static const char* H[]={"P 1","-P 1","P 2y","-C 2y","P 4 2","-F 4 2 3","I 4 2 3","-R 3","P 6c"}; static const int N[]={1,2,2,8,8,192,48,18,6}; static const Bravais BR[]={Bravais::P,Bravais::P,Bravais::P,Bravais::C,Bravais::P,Bravais::F,Bravais::I,Bravais::R,Bravais::P}; int k=(int)vp_choose("k",0,8); V3 len{4,4,4}, an{90,90,(k==7||k==8)?120.:90.}; Lat l(LU[0],len,an,std::string(H[k])); vp_assert(l.spacegroup_symmetry().size()==(size_t)N[k],"the lattice has the space group of its symbol"); vp_assert(l.bravais()==BR[k],"the lattice has the centring of its symbol"); int nc= BR[k]==Bravais::P?1: BR[k]==Bravais::F?4: BR[k]==Bravais::R?3:2; vp_assert(l.pointgroup_symmetry().size()==(size_t)(N[k]/nc),"the lattice has the point group of its symbol"); vp_assert(l.has_space_inversion()==(H[k][0]=='-'),"space inversion is recognised"); vp_assert(l.is_triclinic()==(k<2),"triclinic lattices are recognised"); auto p=l.primitive(); vp_assert(p.bravais()==Bravais::P,"the primitive lattice is primitive"); vp_cover("end"); }
VP_ENTRY(symbol_refuse){ static const char* U[]={"P 2/m","P 2_1/c","P 1 21/c 1","P 63/m m c","P 42 c m","nonsense","2",",","P m","","P 7","x,y","0,0,0","x,x,z","P 1 2 q"}; int k=(int)vp_choose("k",0,16); V3 len{4,4,4}, an{90,90,90}; M9 m{4,0,0,0,4,0,0,0,4}; bool th=false; try{ if(vp_choose("how",0,1)) Lat l(LU[0],len,an,std::string(k<15?U[k]:k==15?"-x,-y,z":"-x,y,-z;x,-y,z+1/2")); else Lat l(LU[0],m,MatrixVectors::column,std::string(k<15?U[k]:k==15?"-x,-y,z":"-x,y,-z;x,-y,z+1/2")); }catch(const std::runtime_error&){ th=true; } if(k<15) vp_assert(th,"an unknown name of a space group is refused"); else { vp_assert(!th,"a list of motions is accepted"); Lat l(LU[0],len,an,std::string(k==15?"-x,-y,z":"-x,y,-z;x,-y,z+1/2")); vp_assert(l.spacegroup_symmetry().size()==(k==15?2u:4u)&&l.has_space_inversion()==(k==16),"the lattice has the group generated by the motions"); } vp_cover("end"); }
// ---- P27
static const Bravais BB[7]={Bravais::P,Bravais::A,Bravais::B,Bravais::C,Bravais::I,Bravais::F,Bravais::R}; static const int NC[7]={1,2,2,2,2,4,3}; static const char* HL[7]={"P 1","A 1","B 1","C 1","I 1","F 1","R 1"};
VP_ENTRY(prim_tables){ int b=(int)vp_choose("b",0,6); PrimitiveTransform P(BB[b]); I9 s=P.get_6P(), v=P.get_invP(), st=P.get_6Pt(), vt=P.get_invPt(); M9 S,V; for(int i=0;i<9;++i){ S[i]=s[i]; V[i]=v[i]; } M9 I=mmul(S,V), J=mmul(V,S); for(int i=0;i<9;++i){ eq(I[i],i%4?0:6,"P and its inverse are inverse"); eq(J[i],i%4?0:6,"P and its inverse are inverse"); vp_assert(st[i]==s[(i%3)*3+i/3]&&vt[i]==v[(i%3)*3+i/3],"the transposed forms"); } eq(det(V),NC[b],"the primitive cell has the volume of one lattice point"); vp_assert(P.does_anything()==(b!=0)&&P.does_nothing()==(b==0),"only P is already primitive"); HallSymbol h; h.from_ascii(HL[b]); auto g=h.get_generators().generate(); vp_assert(g.size()==(size_t)NC[b],"the centring translations"); for(size_t i=0;i<g.size();++i){ V3 t=g.gett(i); V3 n=mv(V,t); for(auto x:n){ double d=x-std::floor(x+.5); vp_assert(d<1e-9&&d>-1e-9,"centring translations are primitive lattice points"); } } vp_cover("end"); }
VP_ENTRY(prim_lattice){ int b=(int)vp_choose("b",0,6); static const int F[3]={0x010,0x008,0x100}; M9 m=any("m",F[vp_choose("free",0,2)],1,4); vp_assume(det(m)>=.5); Lat l(LU[0],m,MatrixVectors::column,std::string(HL[b]),Basis(),false); vp_assert(l.bravais()==BB[b],"the centring is that of the symbol"); auto p=l.primitive(); dual(p,"real and reciprocal vectors are dual"); derived(p); eq(p.volume(LU[0])*NC[b],l.volume(LU[0]),"the primitive cell has the volume of one lattice point"); vp_assert(p.bravais()==Bravais::P,"the primitive lattice is primitive"); PrimitiveTransform P(BB[b]); M9 V; { I9 v=P.get_invP(); for(int i=0;i<9;++i) V[i]=v[i]; } M9 back=mmul(p.vectors(LU[0]),V); for(int i=0;i<9;++i) eq(back[i],m[i],"conventional vectors are combinations of the primitive ones"); vp_cover("end"); }
static const M9 TRI{3,1,.5, .25,4,-1, -.5,.75,2.5};
static Lat conc(int b){ return Lat(LU[0],TRI,MatrixVectors::column,std::string(HL[b]),Basis(),false); }
template<class T> static LVec<T> lvec(const char* n,LengthUnit lu,const Lat& l,int rows,int lo=-5,int hi=5){ bArray<T> a((ind_t)rows,3u); for(int i=0;i<rows;++i) for(int j=0;j<3;++j) a.val(i,j)= std::is_integral_v<T>? (T)vp_int(n,lo,hi): (T)vp_real(n,lo,hi); return LVec<T>(lu,l,a); }
static V3 xyz(const Lat& l,LengthUnit lu,const V3& h){ return mv(l.vectors(lu),h); }
template<class T> static V3 row(const T& a,int i){ return {(double)a.val(i,0),(double)a.val(i,1),(double)a.val(i,2)}; }
VP_ENTRY(prim_vectors){ int b=(int)vp_choose("b",0,6), lu=(int)vp_choose("lu",0,1), par=(int)vp_choose("par",0,1); Lat l=conc(b), p=l.primitive(); auto v=lvec<double>("v",LU[lu],l,2); auto q= par? parallel_transform_to_primitive(l,v,2): transform_to_primitive(l,v); vp_assert(q.lattice().is_same(p)&&q.type()==LU[lu]&&q.size(0)==2,"the result is in the primitive lattice"); auto w= par? parallel_transform_from_primitive(l,q,2): transform_from_primitive(l,q); vp_assert(w.lattice().is_same(l)&&w.type()==LU[lu],"the result is in the conventional lattice"); for(int i=0;i<2;++i){ V3 h=row(v,i), k=row(q,i), g=row(w,i), x=xyz(l,LU[lu],h), y=xyz(p,LU[lu],k); for(int j=0;j<3;++j){ eq(x[j],y[j],"a transformed vector is the same vector"); eq(g[j],h[j],"transforming there and back changes nothing"); } } auto q2=transform_to_primitive(l,q); for(int i=0;i<2;++i) for(int j=0;j<3;++j) eq(q2.val(i,j),q.val(i,j),"vectors of the primitive lattice stay"); vp_cover("end"); }
VP_ENTRY(prim_int){ int b=(int)vp_choose("b",0,6); Lat l=conc(b), p=l.primitive(); // integer vectors: lattice points of direct space and integer primitive reciprocal vectors
  auto v=lvec<int>("v",LU[0],l,1,-3,3); auto q=transform_to_primitive(l,v); V3 x=xyz(l,LU[0],row(v,0)), y=xyz(p,LU[0],row(q,0)); for(int j=0;j<3;++j) eq(x[j],y[j],"a transformed lattice point is the same point"); auto k=lvec<int>("k",LU[1],p,1,-3,3); auto c=transform_from_primitive(l,k); x=xyz(p,LU[1],row(k,0)); y=xyz(l,LU[1],row(c,0)); for(int j=0;j<3;++j) eq(x[j],y[j],"a transformed reciprocal lattice point is the same point"); vp_assert(c.lattice().is_same(l),"the result is in the conventional lattice"); auto d=transform_to_primitive(l,c); for(int j=0;j<3;++j) vp_assert(d.val(0,j)==k.val(0,j),"transforming there and back changes nothing"); vp_cover("end"); }
VP_ENTRY(prim_refuse){ int b=(int)vp_choose("b",1,6), lu=(int)vp_choose("lu",0,1); Lat l=conc(b); M9 m=TRI; m[0]=7; Lat o(LU[0],m,MatrixVectors::column,std::string(HL[b]),Basis(),false); auto v=lvec<double>("v",LU[lu],o,1); for(int k=0;k<4;++k){ bool th=false; try{ if(k==0) transform_to_primitive(l,v); else if(k==1) transform_from_primitive(l,v); else if(k==2) parallel_transform_to_primitive(l,v,1); else parallel_transform_from_primitive(l,v,1); }catch(const std::runtime_error&){ th=true; } vp_assert(th,"vectors of another lattice are refused"); } vp_cover("end"); }
// ---- P28
VP_ENTRY(lv_xyz){ int lu=(int)vp_choose("lu",0,1); Lat l=conc(0); auto v=lvec<double>("v",LU[lu],l,2); auto x=v.xyz(); auto h=v.hkl(); auto y=hkl_to_xyz(l,LU[lu],h); auto b=xyz_to_hkl(l,LU[lu],x); auto f=from_xyz_like(v,x); auto g=from_xyz_like(LU[lu],l,x); auto gx=get_xyz(v); vp_assert(f.type()==LU[lu]&&g.type()==LU[lu]&&f.lattice()==l&&g.lattice()==l,"lattice vectors know their lattice"); for(int i=0;i<2;++i){ V3 r=row(v,i), e=xyz(l,LU[lu],r); for(int j=0;j<3;++j){ eq(h.val(i,j),r[j],"components"); eq(x.val(i,j),e[j],"orthonormal coordinates"); eq(y.val(i,j),e[j],"orthonormal coordinates"); eq(gx.val(i,j),e[j],"orthonormal coordinates"); eq(b.val(i,j),r[j],"there and back"); eq(f.val(i,j),r[j],"there and back"); eq(g.val(i,j),r[j],"there and back"); } } vp_cover("end"); }
VP_ENTRY(lv_products){ int la=(int)vp_choose("la",0,1), na=(int)vp_choose("na",1,2), nb=(int)vp_choose("nb",1,2); Lat l=conc(0); auto a=lvec<double>("a",LU[la],l,na), b=lvec<double>("b",LU[la],l,nb); auto d=brille::dot(a,b); auto c=cross(a,b); int n=std::max(na,nb); vp_assert((int)d.size(0)==n&&(int)c.size(0)==n,"one product per pair of rows"); vp_assert(c.type()==LU[la]&&c.lattice()==l,"the cross product is in the same lattice"); for(int i=0;i<n;++i){ V3 x=xyz(l,LU[la],row(a,na==1?0:i)), y=xyz(l,LU[la],row(b,nb==1?0:i)), e=crs(x,y), g=xyz(l,LU[la],row(c,i)); eq(d.val(i,0),dot(x,y),"the dot product is that of the orthonormal vectors"); for(int j=0;j<3;++j) eq(g[j],e[j],"the cross product is that of the orthonormal vectors"); } if(na==2){ V3 x=xyz(l,LU[la],row(a,0)), y=xyz(l,LU[la],row(a,1)); eq(a.dot(0,1),dot(x,y),"the dot product of two rows"); auto k=a.cross(0,1); V3 e=crs(x,y), g=xyz(l,LU[la],row(k,0)); for(int j=0;j<3;++j) eq(g[j],e[j],"the cross product of two rows"); vp_assert(a.cross(0,2).size(0)==0,"rows which do not exist have no cross product"); bool th=false; try{ a.dot(0,2); }catch(const std::out_of_range&){ th=true; } vp_assert(th,"rows which do not exist are refused"); } vp_cover("end"); }
VP_ENTRY(lv_star){ int la=(int)vp_choose("la",0,1); Lat l=conc((int)vp_choose("b",0,1)); auto a=lvec<double>("a",LU[la],l,2); auto s=a.star(); auto t=star(a); auto b=lvec<double>("b",LU[1-la],l,1); auto d=brille::dot(a,b); vp_assert(s.type()==LU[1-la]&&t.type()==LU[1-la]&&s.lattice()==l&&t.lattice()==l,"the starred vector is in the dual lattice"); for(int i=0;i<2;++i){ V3 x=xyz(l,LU[la],row(a,i)), y=xyz(l,LU[1-la],row(s,i)), z=xyz(l,LU[1-la],row(t,i)), w=xyz(l,LU[1-la],row(b,0)); for(int j=0;j<3;++j){ eq(x[j],y[j],"the starred vector is the same vector"); eq(x[j],z[j],"the starred vector is the same vector"); } eq(d.val(i,0),dot(x,w),"the dot product with dual vectors is that of the orthonormal vectors"); } auto n=norm(a); for(int i=0;i<2;++i){ V3 x=xyz(l,LU[la],row(a,i)); double v=n.val(i,0); vp_assert(v>=0,"norms are not negative"); eq(v*v,dot(x,x),"the norm is that of the orthonormal vector"); double u=a.norm(i); vp_assert(u>=0,"norms are not negative"); eq(u*u,dot(x,x),"the norm is that of the orthonormal vector"); } vp_cover("end"); }
VP_ENTRY(lv_arith){ int la=(int)vp_choose("la",0,1); Lat l=conc(0); auto a=lvec<double>("a",LU[la],l,2), b=lvec<double>("b",LU[la],l,(int)vp_choose("nb",1,2)); double s=vp_real("s",1,3); V3 p{s,2,-1}; auto nb=b.size(0); auto add=a+b, sub=a-b; auto ss=a*s, sd=a/s, sp=a+s, sm=a-s, ms=s*a, ap=a+p, am=a-p, at=a*p; auto ng=-a; auto sum=a.sum(0); LV keep(a); auto cl=[&](const LV& x,const char*){ vp_assert(x.type()==LU[la]&&x.lattice()==l,"the result is in the same lattice"); }; for(auto x:{add,sub,ss,sd,sp,sm,ms,ap,am,at,ng}) cl(x,""); for(int i=0;i<2;++i) for(int j=0;j<3;++j){ double x=a.val(i,j), y=b.val(nb==1?0:i,j); eq(add.val(i,j),x+y,"sum"); eq(sub.val(i,j),x-y,"difference"); eq(ss.val(i,j),x*s,"scalar product"); eq(ms.val(i,j),x*s,"scalar product"); eq(sd.val(i,j)*s,x,"scalar quotient"); eq(sp.val(i,j),x+s,"scalar sum"); eq(sm.val(i,j),x-s,"scalar difference"); eq(ap.val(i,j),x+p[j],"sum with components"); eq(am.val(i,j),x-p[j],"difference of components"); eq(at.val(i,j),x*p[j],"product with components"); eq(ng.val(i,j),-x,"negation"); } for(int j=0;j<3;++j) eq(sum.val(0,j),a.val(0,j)+a.val(1,j),"sum over rows"); auto ip=LV(LU[la],l,a.hkl().decouple()); ip+=b; ip*=2.; for(int i=0;i<2;++i) for(int j=0;j<3;++j) eq(ip.val(i,j),2*(a.val(i,j)+b.val(nb==1?0:i,j)),"in place operations"); vp_cover("end"); }
VP_ENTRY(lv_rows){ int la=(int)vp_choose("la",0,1); Lat l=conc(0); auto a=lvec<double>("a",LU[la],l,3), b=lvec<double>("b",LU[la],l,1); ind_t i=(ind_t)vp_choose("i",0,2), j=(ind_t)vp_choose("j",0,2); auto v=a.view(i); auto e=a.extract(std::vector<ind_t>{i,j}); auto c=cat(0,a,b); auto d=cat(0,a,b,v); vp_assert(v.size(0)==1&&e.size(0)==2&&c.size(0)==4&&d.size(0)==5,"rows are counted"); for(auto& x:{v,e,c,d}) vp_assert(x.type()==LU[la]&&x.lattice()==l,"rows stay in their lattice"); for(int k=0;k<3;++k){ eq(v.val(0,k),a.val(i,k),"a view is the row"); eq(e.val(0,k),a.val(i,k),"extracted rows"); eq(e.val(1,k),a.val(j,k),"extracted rows"); for(int q=0;q<3;++q) eq(c.val(q,k),a.val(q,k),"rows are appended"); eq(c.val(3,k),b.val(0,k),"rows are appended"); eq(d.val(4,k),a.val(i,k),"rows are appended"); } auto o=LV(LU[1-la],l,b.hkl()); bool th=false; try{ cat(0,a,o); }catch(const std::runtime_error&){ th=true; } vp_assert(th,"vectors of the dual lattice are not appended"); M9 m=TRI; m[0]=9; Lat l2(LU[0],m,MatrixVectors::column,std::string("P 1"),Basis(),false); LV f(LU[la],l2,b.hkl()); th=false; try{ brille::dot(a,f); }catch(const std::runtime_error&){ th=true; } vp_assert(th,"dot products with another lattice are refused"); vp_cover("end"); }
VP_ENTRY(lv_matrix){ int la=(int)vp_choose("la",0,1); Lat l=conc(0); M9 R; for(int i=0;i<9;++i) R[i]= i<3? vp_real("R",-2,2): TRI[i]; auto a=lvec<double>("a",LU[la],l,2,-2,2); auto r=R*a; for(int i=0;i<2;++i){ V3 e=mv(R,row(a,i)); for(int j=0;j<3;++j) eq(r.val(i,j),e[j],"a matrix acts on the components"); } vp_cover("end"); }
VP_ENTRY(lv_round){ int la=(int)vp_choose("la",0,1); Lat l=conc(0); bArray<double> ka(1u,3u); int f=(int)vp_choose("f",0,2); for(int j=0;j<3;++j) ka.val(0,j)= j==f? vp_real("k",-5,5): TRI[j+3]*3.3; LV k(LU[la],l,ka); auto ro=k.round(), fl=k.floor(), ce=k.ceil(); auto ab=brille::abs(k); for(int j=0;j<3;++j){ double x=k.val(0,j); vp_assert(fl.val(0,j)<=x&&x<fl.val(0,j)+1,"floor"); vp_assert(ce.val(0,j)>=x&&x>ce.val(0,j)-1,"ceil"); double d=x-ro.val(0,j); vp_assert(d<=.5&&d>=-.5,"round"); eq(ab.val(0,j),x<0?-x:x,"magnitude"); } vp_cover("end"); }
VP_ENTRY(lv_triple){ int la=(int)vp_choose("la",0,2); Lat l=conc(0); V3 v[4]; bArray<double> A(4u,3u); for(int i=0;i<4;++i) for(int j=0;j<3;++j) A.val(i,j)= i==2||i==0? vp_real("v",-3,3): TRI[(i*3+j*2+1)%9]-(i==3?1:0); std::vector<double> o; if(la<2){ LV L(LU[la],l,A); for(int i=0;i<4;++i) v[i]=xyz(l,LU[la],row(A,i)); o=pseudo_orient3d(L.view(0),L.view(1),L.view(2),L.view(3)); } else { for(int i=0;i<4;++i) v[i]=row(A,i); o=pseudo_orient3d(A.view(0),A.view(1),A.view(2),A.view(3)); } V3 x,y,z; for(int j=0;j<3;++j){ x[j]=v[0][j]-v[3][j]; y[j]=v[1][j]-v[3][j]; z[j]=v[2][j]-v[3][j]; } double d=dot(x,crs(y,z)); vp_note(std::to_string(o.size()).c_str()); double r=o[0]; vp_assert(vp_implies(d>1e-6,r>0)&&vp_implies(d<-1e-6,r<0),"the orientation of four points has the sign of the triple product"); eq(r,d,"the orientation of four points is the triple product"); vp_cover("end"); }
// ---- P29
static bool near_lat(const V3& a,const V3& b,double t){ bool ok=true; for(int j=0;j<3;++j){ double d=a[j]-b[j]; d-=std::floor(d+.5); ok=vp_and(ok,vp_and(d<=t,d>=-t)); } return ok; }
VP_ENTRY(basis_build){ int n=(int)vp_choose("n",0,3); std::vector<V3> p; std::vector<ind_t> t; for(int i=0;i<n;++i){ p.push_back({vp_real("p",0,1),.25*i,.5}); t.push_back((ind_t)vp_int("t",0,2)); } Basis a(p,t), b(p); vp_assert(a.size()==(size_t)n&&b.size()==(size_t)n,"one atom per position"); for(int i=0;i<n;++i){ auto q=a.position(i); for(int j=0;j<3;++j) eq(q[j],p[i][j],"positions are kept"); vp_assert(a.types()[i]==t[i],"types are kept"); vp_assert(b.types()[i]==(ind_t)i,"atoms without types differ from each other"); } bool th=false; try{ a.position(n); }catch(const std::runtime_error&){ th=true; } vp_assert(th,"an atom which does not exist is refused"); vp_cover("end"); }
VP_ENTRY(basis_equiv){ std::vector<V3> p{{0,0,0},{.5,.5,.5},{.25,0,.75}}; std::vector<ind_t> t{0,1,1}; int f=(int)vp_choose("f",0,2); p[2][f]=vp_real("p",0,1); Basis a(p,t); V3 k{.25,0,.75}; for(int j=0;j<3;++j) if(j==f||j==(f+1)%3) k[j]=vp_real("k",-2,2); ind_t ty=(ind_t)vp_choose("ty",0,2); double tol=vp_choose("tol",0,1)? .01: 0; auto r=a.equivalent_to(ty,k,tol,0); int first=3; bool sure=true; for(int i=2;i>=0;--i){ bool in=near_lat(k,p[i],tol*.99); bool out=!near_lat(k,p[i],1e-6+tol*4); if(t[i]==ty){ sure=vp_and(sure,vp_or(in,out)); if(in) first=i; } } if(sure){ vp_assert(std::get<0>(r)==(first<3),"an equivalent atom has the same type and the same position up to a lattice vector"); vp_assert((int)std::get<1>(r)==first,"the first equivalent atom is found"); } vp_cover("end"); }
VP_ENTRY(basis_ops){ // rutile-like: symbolic x; every operation maps atoms to equivalent ones
  double x=vp_real("x",.1,.4); std::vector<V3> p{{0,0,0},{.5,.5,.5},{x,x,0},{-x,-x,0},{.5+x,.5-x,.5},{.5-x,.5+x,.5}}; std::vector<ind_t> t{0,0,1,1,1,1}; int sh=(int)vp_choose("cell",0,2); for(auto& q:p) for(int j=0;j<3;++j) if((sh>>1)&&j==0) q[j]+=1; else if((sh&1)&&j==1) q[j]-=1; Basis b(p,t); HallSymbol h; h.from_ascii("-P 4n 2n"); auto g=h.get_generators().generate(); vp_assert(g.size()==16,"the group of rutile"); for(size_t i=0;i<g.size();++i){ std::vector<bool> hit(6,false); for(size_t k=0;k<6;++k){ auto r=b.equivalent_after_operation(k,g.getm(i)); vp_assert(std::get<0>(r),"an operation takes every atom to an equivalent one"); ind_t q=std::get<1>(r); vp_assert(q<6&&t[q]==t[k],"equivalent atoms have the same type"); vp_assert(!hit[q],"an operation permutes the atoms"); hit[q]=true; } } vp_assert(b.snap_to(g.getallm()),"a symmetric basis needs no change"); for(int k=0;k<6;++k){ auto q=b.position(k); for(int j=0;j<3;++j) eq(q[j],p[k][j],"a symmetric basis is not changed"); } vp_cover("end"); }
VP_ENTRY(basis_snap){ // atoms close to special positions are moved onto them
  double e=vp_real("e",-.02,.02), f=vp_real("f",-.02,.02); int c=(int)vp_choose("c",0,2); static const char* H[3]={"-P 1","P 2","-P 2 2"}; std::vector<V3> p{{e,f,e},{.5+f,.5,.5-e}}; if(c==1){ p[0][2]=.3; p[1][2]=.1; } Basis b(p,{0,1}); HallSymbol h; h.from_ascii(H[c]); auto g=h.get_generators().generate(); bool ok=b.snap_to(g.getallm()); vp_assert(ok,"atoms close to special positions are accepted"); for(size_t i=0;i<g.size();++i) for(size_t k=0;k<2;++k){ auto r=b.equivalent_after_operation(k,g.getm(i)); vp_assert(std::get<0>(r),"after snapping every operation takes every atom to an equivalent one"); } static const V3 S[2]={{0,0,0},{.5,.5,.5}}; for(int k=0;k<2;++k){ auto q=b.position(k); for(int j=0;j<3;++j){ double want= c==1&&j==2? p[k][2]: S[k][j]; double d=q[j]-want; vp_assert(d<1e-6&&d>-1e-6,"atoms are moved onto the special position"); } } vp_cover("end"); }
VP_ENTRY(basis_special){ // only some of the operations keep the atom: the others take it to further atoms, which are exact
  int c=(int)vp_choose("c",0,TH(1,2)), w=(int)vp_choose("free",0,2); double e=vp_real("e",-.02,.02); static const char* H[3]={"-P 2yb","-P 4n 2n","-I 4 2"}; std::vector<V3> p; if(c==0) p={{0,0,0},{0,.5,0},{.5,0,.5},{.5,.5,.5}}; else if(c==1) p={{0,0,0},{.5,.5,.5}}; else p={{0,.5,.25},{.5,0,.25},{0,.5,.75},{.5,0,.75}}; std::vector<ind_t> t(p.size(),0); auto want=p; int k=(int)vp_choose("atom",0,(long)p.size()-1); p[k][w]+=e; p[k][(w+1)%3]-=.25*e; Basis b(p,t); HallSymbol h; h.from_ascii(H[c]); auto g=h.get_generators().generate(); bool ok=b.snap_to(g.getallm()); vp_assert(ok,"atoms close to special positions are accepted"); for(size_t i=0;i<p.size();++i){ auto q=b.position(i); for(int j=0;j<3;++j){ double d=q[j]-want[i][j]; vp_assert(d<1e-6&&d>-1e-6,"atoms are moved onto the special position"); } } vp_cover("end"); }
VP_ENTRY(basis_refuse){ double e=vp_real("e",.1,.4); std::vector<V3> p{{e,0,0},{0,.5,0}}; Basis b(p,{0,1}); HallSymbol h; h.from_ascii("P 4"); auto g=h.get_generators().generate(); vp_assert(!b.snap_to(g.getallm()),"a basis without the symmetry is refused"); bool th=false; try{ V3 len{4,4,5}, an{90,90,90}; Lat l(LU[0],len,an,std::string("P 4"),Basis(p,{0,1})); }catch(const std::runtime_error&){ th=true; } vp_assert(th,"a lattice with a basis without its symmetry is refused"); th=false; try{ b.equivalent_after_operation(2,g.getm(0)); }catch(const std::runtime_error&){ th=true; } vp_assert(th,"an atom which does not exist is refused"); vp_cover("end"); }
