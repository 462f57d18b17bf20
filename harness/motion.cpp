// space group motions: algebra, comparison, text (P20, P21); groups of motions and of rotations (P22)
#include "vp.h"
#include <memory>
#include <iostream>
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
#include "pointgroup.hpp"
using namespace brille; using Mo=Motion<int,double>; using M9=Matrix<int>; using V3=Vector<double>;
static M9 symrot(const char* n,long lo,long hi){ M9 r; for(auto& x:r) x=(int)vp_int(n,lo,hi); return r; }
static int det(const M9& m){ return m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); }
static V3 symvec(const char* n,double lo,double hi){ V3 r; for(auto& x:r) x=vp_real(n,lo,hi); return r; }
static M9 mm(const M9& a,const M9& b){ M9 o; for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[i*3+j]=a[i*3]*b[j]+a[i*3+1]*b[3+j]+a[i*3+2]*b[6+j]; return o; }
static V3 mv(const M9& a,const V3& v){ return {a[0]*v[0]+a[1]*v[1]+a[2]*v[2],a[3]*v[0]+a[4]*v[1]+a[5]*v[2],a[6]*v[0]+a[7]*v[1]+a[8]*v[2]}; }
static bool same(const M9& a,const M9& b){ bool s=true; for(int i=0;i<9;++i) s=vp_and(s,a[i]==b[i]); return s; }
static bool whole(double d){ double r=std::floor(d+0.5); d-=r; return vp_and(d<1e-9,d>-1e-9); }
static const M9 ID{1,0,0,0,1,0,0,0,1};
static std::vector<M9> cubic(){ std::vector<M9> o; int P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for(auto& p:P) for(int s=0;s<8;++s){ M9 m{}; for(int i=0;i<3;++i) m[i*3+p[i]]= (s>>i)&1? -1:1; o.push_back(m); } return o; }
static std::vector<M9> hexagonal(){ std::vector<M9> o; M9 six{1,-1,0,1,0,0,0,0,1}, two{0,1,0,1,0,0,0,0,-1}, inv{-1,0,0,0,-1,0,0,0,-1}; M9 r=ID; for(int k=0;k<6;++k){ for(int t=0;t<2;++t) for(int v=0;v<2;++v){ M9 x=r; if(t) x=mm(x,two); if(v) x=mm(x,inv); o.push_back(x); } r=mm(six,r); } return o; }
static M9 pick(const char* n,bool hex){ static std::vector<M9> C=cubic(), H=hexagonal(); return hex? H[vp_choose(n,0,23)]: C[vp_choose(n,0,47)]; }
static M9 pickany(const char* n){ return pick(n,vp_choose("hex",0,1)); }
// ---- P20
VP_ENTRY(compose_rot){ M9 A=symrot("A",-2,2), B=symrot("B",-2,2); Mo m(A), n(B); vp_assert(same((m*n).getr(),mm(A,B)),"the rotation part is the matrix product"); vp_cover("end"); }
VP_ENTRY(compose){ M9 A=pickany("A"), B=symrot("B",-1,1); for(int k=3;k<9;++k) B[k]=ID[k]; if(vp_choose("swap",0,1)) std::swap(A,B); V3 a=symvec("a",-2,2), b=symvec("b",-2,2), p=symvec("p",-2,2); Mo m(A,a), n(B,b); Mo c=m*n; V3 t=mv(A,b), g=c.gett(); for(int i=0;i<3;++i){ vp_assert(whole(t[i]+a[i]-g[i]),"the translation is that of applying one after the other, modulo lattice translations"); vp_assert(vp_and(g[i]>=0,g[i]<1),"the translation is reduced to the unit cell"); } vp_assert(same(c.getr(),mm(A,B)),"the rotation part is the matrix product"); vp_assert(same(m.getr(),A),"the factors are unchanged"); vp_cover("end"); }
VP_ENTRY(points){ M9 A=symrot("A",-2,2); V3 a=symvec("a",-2,2), p=symvec("p",-2,2); Mo m(A,a); V3 r=m.move_point(p), e=mv(A,p); for(int i=0;i<3;++i) vp_assert_eq(r[i],e[i]+a[i],"points are rotated, then translated"); vp_cover("end"); }
VP_ENTRY(vectors){ M9 A=symrot("A",-2,2); V3 a=symvec("a",-2,2), p=symvec("p",-5,5); Mo m(A,a); V3 v=m.move_vector(p), e=mv(A,p); for(int i=0;i<3;++i) vp_assert_eq(v[i],e[i],"vectors are rotated only"); Vector<int> ip{(int)vp_int("i",-5,5),(int)vp_int("i",-5,5),(int)vp_int("i",-5,5)}; auto iv=m.move_vector(ip); for(int i=0;i<3;++i) vp_assert(iv[i]==A[3*i]*ip[0]+A[3*i+1]*ip[1]+A[3*i+2]*ip[2],"vectors are rotated only"); vp_cover("end"); }
VP_ENTRY(axial){ M9 A=pickany("A"); A[(int)vp_choose("row",0,2)*3+1]=(int)vp_int("x",-1,1); V3 a=symvec("a",-2,2), p=symvec("p",-5,5); Mo m(A,a); V3 x=m.move_axial(p), e=mv(A,p); int d=det(A); for(int i=0;i<3;++i) vp_assert_eq(x[i],d*e[i],"axial vectors change sign with the determinant"); vp_cover("end"); }
VP_ENTRY(inverse){ M9 A=pickany("A"); V3 a=symvec("a",-2,2); Mo m(A,a), i=m.inverse(); M9 I=i.getr(); vp_assert(same(mm(A,I),ID),"the rotation part is the inverse matrix"); V3 g=i.gett(), t=mv(A,g); for(int k=0;k<3;++k){ vp_assert(vp_and(g[k]>=0,g[k]<1),"the translation is reduced to the unit cell"); vp_assert(whole(t[k]+a[k]),"motion and inverse cancel, modulo lattice translations"); } Mo e(ID,V3{0,0,0}); vp_assert(m*i==e&&i*m==e,"motion and inverse cancel"); vp_cover("end"); }
VP_ENTRY(inverse_int){ M9 A=ID; int r=(int)vp_choose("row",0,2); for(int j=0;j<3;++j) A[3*r+j]=(int)vp_int("A",-1,1); A[((r+1)%3)*3+r]=(int)vp_choose("k",-1,1); int d=det(A); vp_assume(vp_or(d==1,d==-1)); Mo m(A,V3{0.5,0.25,0}), i=m.inverse(); vp_assert(same(mm(A,i.getr()),ID),"the rotation part is the inverse matrix"); vp_cover("end"); }
VP_ENTRY(equality){ M9 A=symrot("A",-1,1), B=symrot("B",-1,1); V3 a=symvec("a",-2,2), b=symvec("b",-2,2); Mo m(A,a), n(B,b); bool near=true, far=false; for(int i=0;i<3;++i){ double d=b[i]-a[i]; d-=std::floor(d+0.5); near=vp_and(near,d==0); far=vp_or(far,vp_or(d>1e-6,d<-1e-6)); } bool r=same(A,B), eq= m==n, ne= m!=n; vp_assert(eq!=ne,"unequal is the negation of equal"); vp_assert(vp_implies(vp_and(r,near),eq),"equal rotations and translations equal modulo the lattice compare equal"); vp_assert(vp_implies(vp_or(vp_not(r),far),vp_not(eq)),"different rotations or translations compare unequal"); vp_assert((n==m)==eq,"equality is symmetric"); vp_assert(m.equal_matrix(B)==r,"the rotation parts are compared"); vp_cover("end"); }
VP_ENTRY(shifted){ M9 A=symrot("A",-1,1); V3 a=symvec("a",-2,2), b=a; for(auto& x:b) x+=(double)vp_int("n",-2,2); vp_assert(Mo(A,a)==Mo(A,b),"a lattice translation does not change a motion"); vp_cover("end"); }
VP_ENTRY(parts){ M9 A=symrot("A",-1,1); V3 a=symvec("a",-1,1); Mo m(A,a), r(A), t(a); vp_assert(m.has_identity_rotation()==same(A,ID),"identity rotation is recognised"); bool z=true,f=false; for(double x:a){ z=vp_and(z,x==0); f=vp_or(f,vp_or(x>1e-6,x<-1e-6)); } bool h=m.has_identity_translation(); vp_assert(vp_implies(z,h),"identity translation is recognised"); vp_assert(vp_implies(f,vp_not(h)),"identity translation is recognised"); vp_assert(same(t.getr(),ID)&&same(r.getr(),A),"a motion of only a translation or rotation has the identity as other part"); for(int i=0;i<3;++i){ vp_assert_eq(t.gett()[i],a[i],"the translation is kept"); vp_assert_eq(r.gett()[i],0,"no translation"); } auto p=std::make_pair(A,a); Mo q(p); vp_assert(same(q.getr(),A),"a motion from a pair has its parts"); vp_assert_eq(q.gett()[1],a[1],"a motion from a pair has its parts"); vp_cover("end"); }
VP_ENTRY(basis_shift){ M9 A=symrot("A",-1,1); V3 a=symvec("a",-1,1), v=symvec("v",-1,1), w=v; for(auto& x:w) x*=-1; Motion<double,double> V(v), iV(w); Mo m(A,a); Mo s=V*(m*iV); vp_assert(same(s.getr(),A),"an origin shift keeps the rotation"); V3 t=mv(A,v), g=s.gett(); for(int i=0;i<3;++i) vp_assert(whole(a[i]+v[i]-t[i]-g[i]),"an origin shift changes the translation by v - W v"); Motion<double,double> bad({2,0,0,0,1,0,0,0,1},v); bool th=false; try{ auto x=m*bad; }catch(const std::runtime_error&){ th=true; } vp_assert(th,"only pure shifts can be applied"); th=false; try{ auto x=bad*m; }catch(const std::runtime_error&){ th=true; } vp_assert(th,"only pure shifts can be applied"); vp_cover("end"); }
// ---- containers of motions and of rotations
VP_ENTRY(sym_list){ Symmetry s; std::vector<Mo> e; int n=(int)vp_choose("n",1,3); for(int k=0;k<n;++k){ M9 A=symrot("A",-1,1); V3 a=symvec("a",0,0.99); e.emplace_back(A,a); size_t r= k==1? s.add(A.data(),a.data()): k==2? s.add(A,a): s.add(Mo(A,a)); vp_assert(r==(size_t)k+1,"add returns the number of motions"); } size_t i=(size_t)vp_choose("i",0,3); auto chk=[&](){ vp_assert(s.size()==e.size(),"size"); auto R=s.getallr(); auto T=s.getallt(); for(size_t k=0;k<e.size();++k){ vp_assert(same(s.getr(k),e[k].getr())&&same(R[k],e[k].getr())&&same(s.getm(k).getr(),e[k].getr()),"motions are kept in order"); for(int j=0;j<3;++j){ vp_assert_eq(s.gett(k)[j],e[k].gett()[j],"motions are kept in order"); vp_assert_eq(T[k][j],e[k].gett()[j],"motions are kept in order"); } } }; chk();
  if(i<e.size()){ Mo p=s.pop(i); vp_assert(same(p.getr(),e[i].getr()),"pop returns the motion"); e.erase(e.begin()+i); chk(); } else { bool th=false; try{ s.erase(i); }catch(const std::out_of_range&){ th=true; } vp_assert(th,"an index out of range is refused"); chk(); } vp_cover("end"); }
VP_ENTRY(sym_find){ Symmetry s; M9 A=symrot("A",-1,1); M9 B=ID; B[(int)vp_choose("at",0,8)]=(int)vp_int("b",-1,1); s.add(A,{0,0,0}); s.add(B,{0,0,0.5}); s.add(ID,{0.5,0,0}); M9 C=ID; C[(int)vp_choose("ct",0,8)]=(int)vp_int("c",-1,1); size_t e= same(A,C)?0: same(B,C)?1: same(ID,C)?2:3; vp_assert(s.find_matrix_index(C)==e,"the first motion with the rotation is found"); vp_assert(s.has(Mo(C,V3{0,0,0}))==same(A,C),"has: rotation and translation match"); vp_assert(s.has(Mo(C,V3{1,0,-0.5}))==same(B,C),"has: rotation and translation match, modulo the lattice"); vp_cover("end"); }
VP_ENTRY(sym_equal){ Symmetry s,t; std::vector<Mo> a,b; int n=(int)vp_choose("n",1,2), m=(int)vp_choose("m",1,2); M9 A=ID,B=ID; A[(int)vp_choose("at",0,8)]=(int)vp_int("a",-1,1); B[(int)vp_choose("bt",0,8)]=(int)vp_int("b",-1,1); static const V3 T[]={{0,0,0},{.5,0,.25},{-.5,1,.25}}; a.emplace_back(A,T[vp_choose("u",0,2)]); if(n>1) a.emplace_back(M9{-1,0,0,0,1,0,0,0,-1},T[0]); b.emplace_back(B,T[vp_choose("v",0,2)]); if(m>1) b.emplace_back(M9{-1,0,0,0,1,0,0,0,-1},T[1]); if(vp_choose("w",0,1)&&m>1) b[1]=Mo(M9{-1,0,0,0,1,0,0,0,-1},T[0]); if(vp_choose("swap",0,1)) std::reverse(b.begin(),b.end());
  for(auto& x:a) s.add(x); for(auto& x:b) t.add(x); auto mot=[](const Mo& x,const Mo& y){ bool e=same(x.getr(),y.getr()); for(int i=0;i<3;++i){ double d=x.gett()[i]-y.gett()[i]; e=vp_and(e,d==std::round(d)); } return e; }; bool e= n==m; for(auto& x:a){ bool f=false; for(auto& y:b) f=vp_or(f,mot(x,y)); e=vp_and(e,f); } vp_assert((s==t)==e,"lists are equal exactly if they hold the same motions"); vp_assert((s!=t)==vp_not(e),"lists differ exactly if they do not hold the same motions"); vp_cover("end"); }
// ---- P21
static Mo parse(const std::string& s){ Mo m; m.from_ascii(s); return m; }
VP_ENTRY(text_round){ M9 A{}; V3 a{0,0,0}; int row=(int)vp_choose("row",0,2); for(int j=0;j<3;++j) A[row*3+j]=(int)vp_choose("A",-2,2); static const int den[]={2,3,4,6,8,12,24}; int d=den[vp_choose("den",0,6)]; int n=(int)vp_choose("num",-1,5); if(n>=d) n=d-1; a[row]=(double)n/d; for(int k=0;k<3;++k) if(k!=row) A[k*3+k]=1; Mo m(A,a); Mo p=parse(m.to_ascii()); vp_assert(same(p.getr(),A),"the rotation survives text"); for(int k=0;k<3;++k) vp_assert_eq(p.gett()[k],a[k],"the translation survives text"); vp_cover("end"); }
static const char* ax="xyz";
VP_ENTRY(text_parse){ // one component built from terms in any order, the others fixed
  int row=(int)vp_choose("row",0,2), form=(int)vp_choose("form",0,9), c=(int)vp_choose("c",0,2), e=(c+1)%3; int s=(int)vp_choose("s",0,1)?-1:1; M9 A{}; V3 a{0,0,0}; std::string t; bool wide=vp_choose("wide",0,1); auto sg=[&](int v,bool first){ return std::string(v<0?"-":first?"":"+")+(wide&&(!first||v<0)?" ":""); };
  switch(form){ case 0: t=sg(s,true)+ax[c]; A[row*3+c]=s; break; case 1: t=sg(s,true)+ax[c]+"+"+ax[e]; A[row*3+c]=s; A[row*3+e]=1; break; case 2: t=std::string(1,ax[e])+sg(s,false)+ax[c]; A[row*3+c]=s; A[row*3+e]=1; break; case 3: t=sg(s,true)+ax[c]+"+1/4"; A[row*3+c]=s; a[row]=0.25; break; case 4: t=std::string("1/3")+sg(s,false)+ax[c]; A[row*3+c]=s; a[row]=1/3.; break; case 6: t=sg(s,true)+ax[c]+sg(-1,false)+"1"; A[row*3+c]=s; a[row]=-1; break; case 7: t=sg(s,true)+ax[c]+"+2"+ax[e]+"-3/4"; A[row*3+c]=s; A[row*3+e]=2; a[row]=-.75; break; case 8: t=std::string("2")+sg(s,false)+ax[c]; A[row*3+c]=s; a[row]=2; break; case 5: t=sg(s,true)+"2"+ax[c]; A[row*3+c]=2*s; break; default: t=sg(s,true)+ax[c]+"+0.5"; A[row*3+c]=s; a[row]=0.5; }
  std::string f; for(int k=0;k<3;++k){ if(k) f+=","; if(vp_choose("sp",0,1)) f+=" "; if(k==row) f+=t; else { f+=ax[k]; A[k*3+k]=1; } } Mo p=parse(f); vp_assert(same(p.getr(),A),"the rotation is that of the text"); for(int k=0;k<3;++k){ double d=p.gett()[k]-a[k]; vp_assert_eq(form==6||form==7||form==8? d-std::round(d): d,0,"the translation is that of the text"); } Symmetry y(f+";-x,-y,-z;"+f); vp_assert(y.size()==3,"motions are separated by semicolons"); vp_assert(same(y.getr(0),A)&&same(y.getr(2),A)&&same(y.getr(1),M9{-1,0,0,0,-1,0,0,0,-1}),"motions are separated by semicolons"); for(int k=0;k<3;++k) vp_assert_eq(y.gett(2)[k],p.gett()[k],"motions are separated by semicolons"); Symmetry z; z.add(f); vp_assert(same(z.getr(0),A),"a motion is added by its text"); vp_cover("end"); }
VP_ENTRY(text_points){ int row=(int)vp_choose("row",0,2), form=(int)vp_choose("form",0,3), c=(int)vp_choose("c",0,2), e=(c+1)%3; int s=(int)vp_choose("s",0,1)?-1:1; M9 A{}; std::string t; switch(form){ case 0: t=std::string(s<0?"-":"")+ax[c]; A[row*3+c]=s; break; case 1: t=std::string(s<0?"-":"")+ax[c]+"+"+ax[e]; A[row*3+c]=s; A[row*3+e]=1; break; case 2: t=std::string(1,ax[e])+(s<0?"-":"+")+ax[c]; A[row*3+c]=s; A[row*3+e]=1; break; default: t=std::string(s<0?"-":"")+"2"+ax[c]; A[row*3+c]=2*s; } std::string f; for(int k=0;k<3;++k){ if(k) f+=","; if(k==row) f+=t; else { f+=ax[k]; A[k*3+k]=1; } } PointSymmetry p; size_t n=p.add(f); vp_assert(n==1&&p.size()==1,"one rotation is added"); vp_assert(same(p.get(0),A),"the rotation is that of the text"); n=p.add("y,z,x;"+f); vp_assert(n==3&&same(p.get(1),M9{0,1,0,0,0,1,1,0,0})&&same(p.get(2),A),"rotations are separated by semicolons"); vp_cover("end"); }
VP_ENTRY(text_any){ static const char al[]=",;xyz-+ 12/.a"; const int N=3; std::string s="x,y"; s.pop_back(); for(int k=0;k<N;++k) s+=al[vp_choose("c",0,12)]; if(vp_choose("long",0,1)) s+=",z,x,y,z"; Mo m; try{ m.from_ascii(s); }catch(const std::exception&){} vp_cover("end"); }
// ---- P22: generated groups; generators are symmetries of a cubic or of a hexagonal lattice
static void closed_rot(const PointSymmetry& g,const std::vector<M9>& gens){ size_t n=g.size(); vp_assert(g.has(ID),"the identity is in the group"); for(auto& x:gens) vp_assert(g.has(x),"every generator is in the group"); bool cl=true; for(size_t i=0;i<n;++i) for(auto& x:gens){ M9 y=mm(x,g.get(i)); bool f=false; for(size_t j=0;j<n;++j) f=vp_or(f,same(y,g.get(j))); cl=vp_and(cl,f); } vp_assert(cl,"products with generators are in the group"); bool u=true; for(size_t i=0;i<n;++i) for(size_t j=0;j<i;++j) u=vp_and(u,vp_not(same(g.get(i),g.get(j)))); vp_assert(u,"no element is listed twice"); }
static size_t true_size(const std::vector<M9>& gens){ std::vector<M9> g{ID}; for(size_t i=0;i<g.size();++i) for(auto& x:gens){ M9 y=mm(x,g[i]); bool f=false; for(auto& z:g) f|=z==y; if(!f) g.push_back(y); } return g.size(); }
static void rot_group(bool hex,int k){ std::vector<M9> gens; for(int i=0;i<k;++i) gens.push_back(pick("g",hex)); PointSymmetry p; for(auto& x:gens) p.add(x); auto g=p.generate(); closed_rot(g,gens); vp_assert(g.size()==true_size(gens),"the group has no element which is not generated"); bool inv=g.has(M9{-1,0,0,0,-1,0,0,0,-1}); vp_assert(g.has_space_inversion()==inv,"space inversion is recognised"); auto w=g.add_space_inversion(); vp_assert(w.size()==(inv?1:2)*g.size()&&w.has_space_inversion(),"adding space inversion doubles a group without it"); bool all=true; for(size_t i=0;i<g.size();++i) all=all&&w.has(g.get(i)); vp_assert(all,"adding space inversion keeps the group"); auto h=g.generators(); auto b=h.generate(); vp_assert(b.size()==g.size(),"the generators of a group generate it"); vp_cover("end"); }
VP_ENTRY(rot_group_cubic){ rot_group(false,2); } VP_ENTRY(rot_group_hex){ rot_group(true,2); }
static Mo gen_motion(const char* n,int k){ static const Mo L[]={Mo(M9{0,-1,0,1,0,0,0,0,1},V3{0,0,0.5}),Mo(M9{1,0,0,0,-1,0,0,0,-1},V3{0,0,0}),Mo(M9{0,0,1,1,0,0,0,1,0},V3{0,0,0}),Mo(M9{-1,0,0,0,-1,0,0,0,-1},V3{0,0,0}),Mo(ID,V3{0,0.5,0.5}),Mo(M9{0,-1,0,-1,0,0,0,0,-1},V3{0.5,0,0.5}),Mo(M9{1,0,0,0,1,0,0,0,-1},V3{0.5,0.5,0}),Mo(M9{1,-1,0,1,0,0,0,0,1},V3{0,0,1/6.}),Mo(M9{0,1,0,1,0,0,0,0,-1},V3{0,0,0}),Mo(ID,V3{1/3.,2/3.,2/3.}),Mo(M9{0,-1,0,1,-1,0,0,0,1},V3{0,0,0}),Mo(M9{0,-1,0,-1,0,0,0,0,1},V3{0,0,0.5})}; int lo=k? 7:0, hi=k? 11:6; return L[vp_choose(n,lo,hi)]; }
static bool rough(const Mo& a,const Mo& b){ if(!same(a.getr(),b.getr())) return false; V3 x=a.gett(), y=b.gett(); for(int i=0;i<3;++i){ double d=x[i]-y[i]; d-=std::floor(d+0.5); if(d>1e-6||d<-1e-6) return false; } return true; }
static Mo prod(const Mo& a,const Mo& b){ V3 t=mv(a.getr(),b.gett()), w=a.gett(); for(int i=0;i<3;++i){ t[i]+=w[i]; t[i]-=std::floor(t[i]+1e-9); } return Mo(mm(a.getr(),b.getr()),t); }
static std::vector<Mo> closure(const std::vector<Mo>& gens){ std::vector<Mo> g{Mo(ID,V3{0,0,0})}; for(size_t i=0;i<g.size();++i) for(auto& x:gens){ Mo y=prod(x,g[i]); bool f=false; for(auto& z:g) if(rough(z,y)){ f=true; break; } if(!f) g.push_back(y); } return g; }
static void same_group(const Symmetry& s,const std::vector<Mo>& g,const char* what){ vp_assert(s.size()==g.size(),what); bool all=true; for(auto& x:g){ bool f=false; for(size_t i=0;i<s.size();++i) if(rough(s.getm(i),x)){ f=true; break; } all=all&&f; } vp_assert(all,what); }
static void motion_group(int fam){ std::vector<Mo> gens; int n=2; for(int i=0;i<n;++i) gens.push_back(gen_motion("g",fam)); Symmetry s(gens); auto g=s.generate(); auto e=closure(gens); same_group(g,e,"the generated motions are the group of the generators"); auto r=g.generators().generate(); vp_assert(r==g,"the generators of a group generate it"); vp_assert(g==r,"equality is symmetric"); Mo inv(M9{-1,0,0,0,-1,0,0,0,-1},V3{0,0,0}); bool hi=false; for(auto& x:e) hi=hi||rough(x,inv); vp_assert(g.has_space_inversion()==hi,"space inversion is recognised"); auto ge=gens; ge.push_back(inv); auto a=g.add_space_inversion(); same_group(a,closure(ge),"adding space inversion gives the group with it"); for(size_t i=0;i<gens.size();++i){ int o=s.order(i); Mo x=gens[i]; int k=1; while(!rough(x,Mo(ID,V3{0,0,0}))){ x=prod(gens[i],x); ++k; } vp_assert(o==k,"the order is the smallest power which is the identity"); vp_assert(s.orders()[i]==o,"the order is the smallest power which is the identity"); } vp_cover("end"); }
VP_ENTRY(motion_group_a){ motion_group(0); } VP_ENTRY(motion_group_b){ motion_group(1); }
static V3 hv(int a,int b,int c){ return V3{a/6.,b/6.,c/6.}; }
VP_ENTRY(centring){ int c=(int)vp_choose("c",0,6); std::vector<V3> ts; Bravais e[]={Bravais::P,Bravais::A,Bravais::B,Bravais::C,Bravais::I,Bravais::F,Bravais::R}; switch(c){ case 1: ts={hv(0,3,3)}; break; case 2: ts={hv(3,0,3)}; break; case 3: ts={hv(3,3,0)}; break; case 4: ts={hv(3,3,3)}; break; case 5: ts={hv(0,3,3),hv(3,0,3),hv(3,3,0)}; break; case 6: ts={hv(2,4,4),hv(4,2,2)}; break; } if(vp_choose("rev",0,1)) std::reverse(ts.begin(),ts.end()); Symmetry s; s.add(ID,V3{0,0,0}); V3 w=symvec("w",0,0.99); s.add(M9{-1,0,0,0,1,0,0,0,-1},w); for(auto& t:ts) s.add(ID,t); vp_assert(s.getcentring()==e[c],"the centring is that of the pure translations"); vp_cover("end"); }
