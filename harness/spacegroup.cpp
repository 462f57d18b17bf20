// Hall symbols (P23), space group table (P24), point group operations and classification (P25)
#include "vp.h"
#include <memory>
#include <iostream>
#include <numeric>
#include <algorithm>
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
#include "pointgroup.hpp"
#include "spg_database.hpp"
#include "hall_symbol.hpp"
using namespace brille; using Mo=Motion<int,double>; using M9=Matrix<int>; using V3=Vector<double>; using I3=std::array<int,3>;
static const M9 ID{1,0,0,0,1,0,0,0,1}, INV{-1,0,0,0,-1,0,0,0,-1};
static int det(const M9& m){ return m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); }
static M9 mm(const M9& a,const M9& b){ M9 o; for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[i*3+j]=a[i*3]*b[j]+a[i*3+1]*b[3+j]+a[i*3+2]*b[6+j]; return o; }
static V3 mv(const M9& a,const V3& v){ return {a[0]*v[0]+a[1]*v[1]+a[2]*v[2],a[3]*v[0]+a[4]*v[1]+a[5]*v[2],a[6]*v[0]+a[7]*v[1]+a[8]*v[2]}; }
static I3 mi(const M9& a,const I3& v){ return {a[0]*v[0]+a[1]*v[1]+a[2]*v[2],a[3]*v[0]+a[4]*v[1]+a[5]*v[2],a[6]*v[0]+a[7]*v[1]+a[8]*v[2]}; }
static M9 neg(M9 a){ for(auto& x:a) x=-x; return a; }
static bool same(const M9& a,const M9& b){ bool s=true; for(int i=0;i<9;++i) s=vp_and(s,a[i]==b[i]); return s; }
static bool rough(const Mo& a,const Mo& b){ if(!same(a.getr(),b.getr())) return false; V3 x=a.gett(), y=b.gett(); for(int i=0;i<3;++i){ double d=x[i]-y[i]; d-=std::floor(d+0.5); if(d>1e-6||d<-1e-6) return false; } return true; }
static Mo prod(const Mo& a,const Mo& b){ V3 t=mv(a.getr(),b.gett()), w=a.gett(); for(int i=0;i<3;++i){ t[i]+=w[i]; t[i]-=std::floor(t[i]+1e-9); } return Mo(mm(a.getr(),b.getr()),t); }
static int power(const M9& a){ M9 x=a; int n=1; while(x!=ID&&n<13){ x=mm(a,x); ++n; } return n; }
// ---- P23: one or two Seitz symbols after the lattice letter; the oracle is the geometric definition
static bool keeps(const M9& W,bool hex){ static const M9 G[2]={{1,0,0,0,1,0,0,0,1},{2,-1,0,-1,2,0,0,0,2}}; M9 T; for(int i=0;i<3;++i) for(int j=0;j<3;++j) T[i*3+j]=W[j*3+i]; return mm(T,mm(G[hex],W))==G[hex]; }
static bool hexabout(const M9& W,int axis){ M9 G; for(int i=0;i<3;++i) for(int j=0;j<3;++j) G[i*3+j]= i==j?2: (i==axis||j==axis)?0:-1; M9 T; for(int i=0;i<3;++i) for(int j=0;j<3;++j) T[i*3+j]=W[j*3+i]; return mm(T,mm(G,W))==G; }
static void geometry(const M9& W,int N,const I3& ax,int hexax,const char* what){ M9 P= N<0? neg(W): W; int n=N<0?-N:N; vp_assert(det(P)==1,"the rotation part is proper or improper as the sign says"); vp_assert(power(P)==n,"the rotation has the order of the symbol"); if(n>1) vp_assert(mi(P,ax)==ax,"the rotation is about the axis of the symbol"); vp_assert(hexax>=0? hexabout(P,hexax): keeps(P,false),what); if(n>2){ I3 v= ax[0]==1&&ax[1]==1? I3{1,0,0}: ax[2]? I3{1,0,0}: ax[0]? I3{0,1,0}: I3{0,0,1}; I3 w=mi(P,v); int d=ax[0]*(v[1]*w[2]-v[2]*w[1])-ax[1]*(v[0]*w[2]-v[2]*w[0])+ax[2]*(v[0]*w[1]-v[1]*w[0]); vp_assert(d>0,"the rotation is right handed"); if(n==6){ I3 vw{v[0]*w[0],0,0}; int dot=0; for(int i=0;i<3;++i) for(int j=0;j<3;++j) dot+=v[i]*w[j]*(i==j?2: (i==hexax||j==hexax)?0:-1); vp_assert(dot>0,"a six-fold rotation turns by 60 degrees"); } } }
static const char* LT="PABCIRF"; static const int NC[]={1,2,2,2,2,3,4};
static V3 tran(const std::string& t,int n,const I3& ax){ V3 o{0,0,0}; for(char c:t) switch(c){ case 'a': o[0]+=.5; break; case 'b': o[1]+=.5; break; case 'c': o[2]+=.5; break; case 'n': for(auto& x:o) x+=.5; break; case 'u': o[0]+=.25; break; case 'v': o[1]+=.25; break; case 'w': o[2]+=.25; break; case 'd': for(auto& x:o) x+=.25; break; default: for(int i=0;i<3;++i) o[i]+=ax[i]*(c-'0')/(double)n; } return o; }
static bool modeq(const V3& a,const V3& b){ for(int i=0;i<3;++i){ double d=a[i]-b[i]; d-=std::floor(d+.5); if(d>1e-9||d<-1e-9) return false; } return true; }
VP_ENTRY(hall_one){ int l=(int)vp_choose("L",0,6); bool cs=vp_choose("cs",0,1); static const int NN[]={1,2,3,4,6}; int n=NN[vp_choose("N",0,4)]; bool im=vp_choose("im",0,1); int a=(int)vp_choose("axis",0,3); std::string tr; int nt=(int)vp_choose("t",0,9); static const char* TT="abcnuvwd"; if(nt>0&&nt<9) tr=TT[nt-1]; if(nt==9) tr="ad"; if(nt==0&&n>1&&a!=3){ int sc=(int)vp_choose("screw",0,5); if(sc>=n) sc=n-1; if(sc) tr=(char)('0'+sc); } bool impl= a==3; if(impl){ a=2; } std::string s=std::string(cs?"-":"")+LT[l]+" "+(im?"-":"")+(char)('0'+n)+tr; if(!impl&&n>1) s+="xyz"[a]; HallSymbol h; bool ok=h.from_ascii(s); vp_assert(ok,"a valid symbol is accepted"); auto g=h.get_generators(); size_t nc=NC[l]*(cs?2:1); vp_assert(g.size()==nc+1,"one generator for each centring translation, with and without inversion, and one for each symbol"); I3 ax{0,0,0}; ax[a]=1; Mo m=g.getm(nc); geometry(m.getr(),im?-n:n,ax,(n==3||n==6)?a:-1,"the rotation is a symmetry of the lattice"); vp_assert(modeq(m.gett(),tran(tr,n,ax)),"the translation is that of the symbol"); for(size_t k=0;k<nc;++k) vp_assert(g.getr(k)==(k>=(size_t)NC[l]?INV:ID),"the centring generators are pure translations, with and without inversion"); Symmetry c; for(int k=0;k<NC[l];++k) c.add(g.getm(k)); static const Bravais B[]={Bravais::P,Bravais::A,Bravais::B,Bravais::C,Bravais::I,Bravais::R,Bravais::F}; vp_assert(c.getcentring()==B[l]&&h.getl()==B[l],"the centring is that of the lattice letter"); if(cs) for(int k=0;k<NC[l];++k) vp_assert(modeq(g.gett(k+NC[l]),g.gett(k)),"inversion is combined with every centring translation"); vp_cover("end"); }
VP_ENTRY(hall_two){ // second symbol: two-fold with explicit or implicit direction, after an axis along x, y or z; or three-fold along the body diagonal
  int p=(int)vp_choose("pre",0,2), pn=(int)vp_choose("preN",0,3); static const int NN[]={2,3,4,6}; int n1=NN[pn]; int kind=(int)vp_choose("kind",0,6); bool im=vp_choose("im",0,1); std::string s="P "; s+=(char)('0'+n1); s+="xyz"[p]; s+=" "; if(im) s+="-"; I3 ax{0,0,0}; int n=2; int q=(p+1)%3, r=(p+2)%3; if(q>r) std::swap(q,r); std::string tr= vp_choose("t",0,1)?"a":""; int hex=-1; std::string sym;
  switch(kind){ case 0: if(n1==2||n1==4){ ax[0]=1; } else { ax={1,-1,0}; if(p!=2) vp_assume(false); } sym="2"+tr; break; case 1: ax[q]=1; ax[r]=-1; sym="2"+tr+"'"; break; case 2: ax[q]=1; ax[r]=1; sym="2"+tr+"\""; break; case 3: n=3; ax={1,1,1}; sym="3"+tr+"*"; break; case 4: n=3; ax={1,1,1}; sym="3"+tr; break; case 5: ax[q]=1; sym="2"+tr+std::string(1,"xyz"[q]); break; default: ax[r]=1; n=4; sym="4"+tr+std::string(1,"xyz"[r]); }
  s+=sym; HallSymbol h; vp_assert(h.from_ascii(s),"a valid symbol is accepted"); auto g=h.get_generators(); vp_assert(g.size()==3,"one generator per symbol"); I3 a1{0,0,0}; a1[p]=1; geometry(g.getr(1),n1,a1,(n1==3||n1==6)?p:-1,"the rotation is a symmetry of the lattice"); Mo m=g.getm(2); if(kind==1||kind==2||kind==0){ M9 P=im? neg(m.getr()): m.getr(); vp_assert(det(P)==1&&power(P)==2,"the second rotation has the order of the symbol"); I3 w=mi(P,ax); bool cub= n1==2||n1==4; if(cub) geometry(m.getr(),im?-n:n,ax,-1,"the rotation is a symmetry of the lattice"); else { vp_assert(w==ax,"the second rotation is about the axis of the symbol"); vp_assert(hexabout(P,p),"the rotation is a symmetry of the lattice"); } } else geometry(m.getr(),im?-n:n,ax,hex,"the rotation is a symmetry of the lattice"); vp_assert(modeq(m.gett(),tran(tr,n,ax)),"the translation is that of the symbol"); vp_cover("end"); }
VP_ENTRY(hall_shift){ int a=(int)vp_choose("a",-3,6), b=(int)vp_choose("b",0,3), c=(int)vp_choose("c",-1,1); std::string s="P 4w 2c"; std::string v=" ("+std::to_string(a)+" "+std::to_string(b)+" "+std::to_string(c)+")"; HallSymbol h(s), k(s+v); auto g=h.get_generators(), e=k.get_generators(); vp_assert(g.size()==e.size(),"an origin shift keeps the generators"); V3 sh{a/12.,b/12.,c/12.}; for(size_t i=0;i<g.size();++i){ M9 W=g.getr(i); vp_assert(e.getr(i)==W,"an origin shift keeps the rotations"); V3 t=g.gett(i), w=mv(W,sh); for(int j=0;j<3;++j) t[j]+=sh[j]-w[j]; vp_assert(modeq(e.gett(i),t),"an origin shift v changes the translations by v - W v"); } vp_cover("end"); }
VP_ENTRY(hall_text){ int l=(int)vp_choose("L",0,6); static const char* S[]={"2","-4y","31","4bw","-2ab","3*","6z2","2'","1n"}; std::string s=std::string(vp_choose("cs",0,1)?"-":"")+LT[l]; int k=(int)vp_choose("k",1,2); for(int i=0;i<k;++i) s+=std::string(" ")+S[vp_choose("s",0,8)]; HallSymbol h; bool ok=h.from_ascii(s); HallSymbol h2; bool ok2=h2.from_ascii(h.to_ascii()); (void)ok; (void)ok2; vp_assert(ok==ok2,"text of a symbol is as valid as the symbol"); bool t1=false,t2=false; Symmetry a,b; try{ a=h.get_generators(); }catch(const std::exception&){ t1=true; } try{ b=h2.get_generators(); }catch(const std::exception&){ t2=true; } vp_assert(t1==t2,"the symbol survives text"); if(!t1&&!t2){ vp_assert(a.size()==b.size(),"the symbol survives text"); bool s2=true; for(size_t i=0;i<a.size();++i) s2=s2&&a.getr(i)==b.getr(i)&&modeq(a.gett(i),b.gett(i)); vp_assert(s2,"the symbol survives text"); } vp_cover("end"); }
VP_ENTRY(hall_any){ static const char al[]=" -PR2346xz'*a1(5_^/mD"; std::string s; for(int k=0;k<4;++k) s+=al[vp_choose("c",0,20)]; HallSymbol h; bool ok=false, made=false; Symmetry g; try{ ok=h.from_ascii(s); if(ok){ g=h.get_generators(); made=true; } }catch(const std::exception&){} std::string head=s.substr(0,s.find('(')); if(head.find_first_of("/mD")!=std::string::npos) vp_assert(!ok,"text with characters which are not part of the notation is no Hall symbol"); if(made) for(size_t i=0;i<g.size();++i){ int d=det(g.getr(i)); vp_assert(d==1||d==-1,"every generator is a rotation or rotoinversion"); } vp_cover("end"); }
// ---- P24
#ifndef HSTEP
#define HSTEP 1
#endif
static std::vector<M9> rotset(const Symmetry& s){ std::vector<M9> u; for(size_t i=0;i<s.size();++i){ M9 r=s.getr(i); if(std::find(u.begin(),u.end(),r)==u.end()) u.push_back(r); } return u; }
VP_ENTRY(table_groups){ int h=(int)vp_choose("hall",1,530); Spacegroup g(h); HallSymbol hs; vp_assert(hs.from_ascii(g.get_hall_symbol()),"every Hall symbol of the table is valid"); vp_assert(hs.getl()==g.get_bravais_type(),"the centring of the table is that of the Hall symbol"); auto gens=hs.get_generators(); auto s=g.get_spacegroup_symmetry(); size_t n=s.size(); vp_assert(n>0&&n<=192,"there are at most 192 motions"); vp_assert(s.getcentring()==g.get_bravais_type(),"the centring translations are in the group"); auto u=rotset(s); int nc=0; for(size_t i=0;i<n;++i) nc+= s.getr(i)==ID; static const int C[]={0,1,2,2,2,2,4,3}; vp_assert(nc==C[(int)g.get_bravais_type()],"there are exactly the translations of the centring"); vp_assert(u.size()*nc==n,"every rotation occurs with each centring translation");
  auto m=s.getallm(); bool cl=true; for(size_t k=0;k<gens.size();++k){ Mo x=gens.getm(k); for(size_t i=0;i<n&&cl;++i){ Mo y=prod(x,m[i]); bool f=false; for(auto& z:m) if(rough(z,y)){ f=true; break; } cl=cl&&f; } } vp_assert(cl,"products with the generators are in the group");
  auto ps=g.get_pointgroup_symmetry(0); vp_assert(ps.size()==u.size(),"the point group holds each rotation once"); bool in=true; for(auto& r:u){ bool f=false; for(size_t i=0;i<ps.size();++i) f=f||ps.get(i)==r; in=in&&f; } vp_assert(in,"the point group holds each rotation once"); auto pg=get_pointgroup(ps); vp_assert(pg.get_number()==g.get_pointgroup_number(),"the point group of the table is that of the symmetry operations"); vp_assert(g.get_pointgroup().get_symbol()==pg.get_symbol(),"the point group of the table is that of the symmetry operations"); auto tr=g.get_pointgroup_symmetry(1); bool hi=false; for(auto& r:u) hi=hi||r==INV; vp_assert(tr.size()==(hi?1:2)*u.size(),"time reversal adds inversion once"); vp_assert(tr.has_space_inversion(),"time reversal adds inversion once"); vp_cover("end"); }
VP_ENTRY(table_lookup){ int h=(int)vp_choose("hall",1,530); Spacegroup g(h); vp_assert(g.get_hall_number()==h,"the entry has its own number"); int n=g.get_international_table_number(); vp_assert(n>=1&&n<=230,"the international number is in range"); if(h>1){ int p=Spacegroup(h-1).get_international_table_number(); vp_assert(p==n||p+1==n,"international numbers increase by at most one"); } else vp_assert(n==1,"the first is number one"); if(h==530) vp_assert(n==230,"the last is number 230"); std::string hsym=g.get_hall_symbol(), ch=g.get_choice(); int k=hall_symbol_to_hall_number(hsym); vp_assert(k>0&&k<=h&&Spacegroup(k).get_hall_symbol()==hsym,"a Hall symbol is found"); vp_assert(string_to_hall_number(hsym)==k,"a Hall symbol is found"); int i=international_number_to_hall_number(n); vp_assert(i>0&&i<=h&&Spacegroup(i).get_international_table_number()==n,"an international number is found"); vp_assert(i==1||Spacegroup(i-1).get_international_table_number()<n,"the first setting is found"); int j=international_number_to_hall_number(n,ch); vp_assert(j>0&&Spacegroup(j).get_international_table_number()==n&&(ch.empty()||Spacegroup(j).get_choice()==ch),"an international number with choice is found");
  for(auto& name:{g.get_international_table_symbol(),g.get_international_table_full(),g.get_international_table_short()}){ int q=international_string_to_hall_number(name,ch); vp_assert(q>0&&q<=h,"an international symbol is found"); Spacegroup f(q); vp_assert(f.get_international_table_symbol()==name||f.get_international_table_full()==name||f.get_international_table_short()==name,"an international symbol is found"); vp_assert(ch.empty()||f.get_choice()==ch,"the choice is respected"); } vp_cover("end"); }
#include "spg_reference.h"
static std::string bare(const std::string& s){ std::string o; for(char c:s) if(c!=' '&&c!='_') o+=c; return o; }
VP_ENTRY(table_reference){ int h=(int)vp_choose("hall",1,530); Spacegroup g(h); const Setting& e=SETTINGS[h-1]; vp_assert(g.get_international_table_number()==e.n,"the international number of the setting"); vp_assert(bare(g.get_hall_symbol())==bare(e.hall),"the Hall symbol of the setting"); vp_assert(bare(g.get_international_table_symbol())==bare(e.s)&&bare(g.get_international_table_full())==bare(e.full)&&bare(g.get_international_table_short())==bare(e.shrt),"the international symbols of the setting"); vp_assert(g.get_choice()==e.choice,"the choice of axes or origin of the setting"); vp_assert((int)g.get_bravais_type()==e.br,"the centring of the setting"); vp_assert(g.get_pointgroup_number()==e.pg,"the point group of the setting"); auto a=g.get_spacegroup_symmetry(); HallSymbol hs; vp_assert(hs.from_ascii(e.hall),"the Hall symbol of the setting"); auto b=hs.get_generators().generate(); vp_assert(a.size()==b.size(),"the motions are those of the Hall symbol"); auto ma=a.getallm(), mb=b.getallm(); bool all=true; for(auto& x:ma){ bool f=false; for(auto& y:mb) if(rough(x,y)){ f=true; break; } all=all&&f; } vp_assert(all,"the motions are those of the Hall symbol"); vp_cover("end"); }
VP_ENTRY(table_bad){ int h=(int)vp_int("hall",-5,700); bool ok=h>=1&&h<=530; vp_assert(hall_number_ok(h)==ok,"Hall numbers 1 to 530 are valid"); int n=(int)vp_choose("it",231,233)-(vp_choose("neg",0,1)?234:0); vp_assert(international_number_to_hall_number(n)<=0,"unknown numbers are not found"); vp_assert(hall_symbol_to_hall_number("P 7")==0&&string_to_hall_number("no such symbol")==0,"unknown symbols are not found"); Spacegroup g(vp_choose("w",0,1)?531:0); vp_assert(g.get_hall_number()==0,"an invalid number gives the empty entry"); vp_cover("end"); }
// ---- P25
static M9 symrot(const char* n,long lo,long hi){ M9 r; for(auto& x:r) x=(int)vp_int(n,lo,hi); return r; }
#ifndef ISOROWS
#define ISOROWS 2
#endif
VP_ENTRY(isometry){ M9 A=ID; if(ISOROWS<3){ static const int R[9][3]={{1,0,0},{0,1,0},{0,0,1},{1,1,0},{0,-1,0},{0,0,-1},{1,-1,0},{-1,0,0},{0,1,-1}}; int k=(int)vp_choose("row",0,8); for(int j=0;j<3;++j) A[6+j]=R[k][j]; } for(int i=0;i<3*ISOROWS;++i) A[i]=(int)vp_int("A",-1,1); int d=det(A); vp_assume(vp_or(d==1,d==-1)); int t=d*(A[0]+A[4]+A[8]); int e= t==3?1: t==-1?2: t==0?3: t==1?4: t==2?6:0; vp_assert(rotation_order(A.data())==e,"the order of the rotation follows from its trace"); vp_assert(isometry_value(A.data())==(e?d*e:0),"the isometry has the sign of the determinant"); vp_cover("end"); }
static std::vector<M9> allrot(){ std::vector<M9> o; int P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for(auto& p:P) for(int s=0;s<8;++s){ M9 m{}; for(int i=0;i<3;++i) m[i*3+p[i]]= (s>>i)&1? -1:1; o.push_back(m); } M9 six{1,-1,0,1,0,0,0,0,1}, two{0,1,0,1,0,0,0,0,-1}, r=ID; for(int k=0;k<6;++k){ for(int t=0;t<2;++t) for(int v=0;v<2;++v){ M9 x=r; if(t) x=mm(x,two); if(v) x=mm(x,INV); if(std::find(o.begin(),o.end(),x)==o.end()) o.push_back(x); } r=mm(six,r); } return o; }
static M9 pick(const char* n){ static std::vector<M9> A=allrot(); return A[vp_choose(n,0,63)]; }
VP_ENTRY(axes){ M9 A=pick("A"), P=det(A)<0? neg(A): A; auto v=rotation_axis_and_perpendicular_vectors(A.data()); I3 z{0,0,0}; PointSymmetry ps; ps.add(A); vp_assert(ps.axis(0)==v[0]&&ps.axes()[0]==v[0],"all forms give the same axis"); vp_assert(ps.perpendicular_axis(0)==v[1],"all forms give the same axis"); if(P==ID) vp_assert(v[0]==z,"the identity has no axis"); else { vp_assert(v[0]!=z&&mi(P,v[0])==v[0],"the axis is not moved by the rotation"); for(int k=1;k<3;++k){ int d=0; for(int i=0;i<3;++i) d+=v[0][i]*v[k][i]; vp_assert(v[k]!=z&&d==0,"the further vectors are perpendicular to the axis"); } vp_assert(v[1]!=v[2],"the further vectors differ"); } vp_assert(ps.get_proper(0)==P,"the proper part is the rotation without inversion"); vp_assert(ps.order(0)==power(P)&&ps.orders()[0]==power(P),"orders"); vp_assert(ps.isometry(0)==(det(A)<0?-power(P):power(P)),"isometries"); vp_cover("end"); }
VP_ENTRY(inverses){ PointSymmetry g; int n=(int)vp_choose("n",2,3); std::vector<M9> e; for(int i=0;i<n;++i){ M9 x= i==0? pick("A"): i==1? ID: INV; e.push_back(x); g.add(x); } M9 A=e[0]; size_t idx=n; for(size_t j=0;j<(size_t)n;++j) if(mm(e[j],A)==ID){ idx=j; break; } size_t got=99; bool th=false; try{ got=g.get_inverse_index(0); }catch(const std::runtime_error&){ th=true; } vp_assert(th==(idx==(size_t)n),"a missing inverse is refused"); if(!th){ vp_assert(got==idx,"the index of the inverse"); vp_assert(g.get_inverse(0)==e[idx],"the inverse"); } vp_assert(g.find_index(A)==0,"the first equal operation is found"); size_t ii=g.find_identity_index(); vp_assert(ii==(A==ID?0u:1u),"the identity is found"); bool hasinv=false; for(auto& x:e) hasinv=hasinv||x==INV; vp_assert(g.has_space_inversion()==hasinv,"space inversion is recognised"); vp_cover("end"); }
VP_ENTRY(lists){ PointSymmetry g; std::vector<M9> e; for(int i=0;i<3;++i){ M9 A=symrot("A",-1,1); e.push_back(A); size_t r= i==1? g.add(A.data()): g.add(A); vp_assert(r==(size_t)i+1,"add returns the number of operations"); } for(int i=0;i<3;++i){ int o[9]; vp_assert(g.get(i,o),"operations are kept in order"); bool s=true; for(int k=0;k<9;++k) s=vp_and(s,vp_and(o[k]==e[i][k],g.data(i)[k]==e[i][k])); vp_assert(s&&same(g.get(i),e[i]),"operations are kept in order"); } std::vector<size_t> p{0,1,2}; int k=(int)vp_choose("p",0,6); if(k<6){ for(int q=0;q<k;++q) std::next_permutation(p.begin(),p.end()); g.permute(p); for(int i=0;i<3;++i) vp_assert(same(g.get(i),e[p[i]]),"permuted operations"); } else { p={0,1,1}; bool th=false; try{ g.permute(p); }catch(const std::runtime_error&){ th=true; } vp_assert(th,"a list that is no permutation is refused"); } M9 B=symrot("B",-1,1); vp_assert(g.set(1,B.data())&&same(g.get(1),B),"an operation is replaced"); vp_assert(!g.set(3,B.data()),"an index out of range is refused"); int o[9]; vp_assert(!g.get(3,o)&&g.data(3)==nullptr,"an index out of range is refused"); M9 f=g.get(0), l=g.get(2); vp_assert(same(g.pop(0),f)&&g.size()==2&&same(g.get(1),l),"pop removes an operation"); bool th=false; try{ g.erase(2); }catch(const std::out_of_range&){ th=true; } vp_assert(th,"an index out of range is refused"); vp_cover("end"); }
VP_ENTRY(links){ PointSymmetry g; std::vector<M9> e; M9 A=pick("A"); for(auto& W:{A,INV}){ e.push_back(W); g.add(W); } I3 a, b; for(auto& x:a) x=(int)vp_int("a",-2,2); for(auto& x:b) x=(int)vp_int("b",-2,2); bool any=false, anyv=false; int c=0,cv=0; for(auto& W:e){ I3 w=mi(W,a); bool s=vp_and(vp_and(w[0]==b[0],w[1]==b[1]),w[2]==b[2]); any=vp_or(any,s); c+=s; I3 v{0,0,0}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) v[j]+=a[i]*W[i*3+j]; s=vp_and(vp_and(v[0]==b[0],v[1]==b[1]),v[2]==b[2]); anyv=vp_or(anyv,s); cv+=s; } vp_assert(g.mat_vec_links(a,b)==any,"an operation takes a to b"); vp_assert(g.vec_mat_links(a,b)==anyv,"an operation takes a to b from the right"); vp_assert((int)g.mat_vec_linking_operations(a,b).size()==c,"all linking operations are listed"); vp_assert((int)g.vec_mat_linking_operations(a,b).size()==cv,"all linking operations are listed"); vp_cover("end"); }
VP_ENTRY(sorted){ int mode=(int)vp_choose("mode",-2,2); PointSymmetry g; std::vector<M9> e; for(int i=0;i<3;++i){ M9 A= i==0? pick("A"): i==1? M9{0,-1,0,1,0,0,0,0,1}: M9{0,0,-1,-1,0,0,0,-1,0}; e.push_back(A); g.add(A); } g.sort(mode); auto key=[&](const M9& m){ int d=det(m), o=power(d<0?neg(m):m); return mode==2||mode==-2? d*o: o; }; bool s=true; for(int i=0;i<2;++i){ int x=key(g.get(i)), y=key(g.get(i+1)); s=s&&(mode<0? x>=y: x<=y); } vp_assert(s,"operations are sorted"); for(auto& x:e) vp_assert(g.has(x),"sorting keeps the operations"); vp_cover("end"); }
static size_t hallpick(){ static const int H[]={1,2,3,6,18,57,81,108,112,125,207,215,227,349,355,366,376,400,419,430,435,438,446,456,462,468,471,477,481,485,488,489,500,503,511,517,529}; return (size_t)H[vp_choose("hall",0,36)]; }
VP_ENTRY(folds){ auto ps=Spacegroup((int)hallpick()).get_pointgroup_symmetry(0); int mn=(int)vp_choose("min",0,4); std::vector<std::pair<I3,int>> ax; for(size_t i=0;i<ps.size();++i){ I3 a=ps.axis(i); int o=ps.order(i); bool f=false; for(auto& p:ax) if(p.first==a){ f=true; if(o>p.second) p.second=o; } if(!f) ax.push_back({a,o}); } size_t c=0; for(auto& p:ax) c+= p.second>mn; auto n=ps.nfolds(mn); vp_assert(n.size()==c,"one rotation for every axis of high enough order"); for(size_t i=0;i<n.size();++i){ vp_assert(det(n.get(i))==1,"the rotations are proper"); I3 a=n.axis(i); bool f=false; for(auto& p:ax) if(p.first==a) f=n.order(i)==p.second; vp_assert(f,"the rotation has the highest order of its axis"); if(i) vp_assert(n.order(i-1)<=n.order(i),"sorted by order"); } auto h=ps.higher(mn); c=0; for(size_t i=0;i<ps.size();++i) c+= ps.order(i)>mn; vp_assert(h.size()==c,"all operations of higher order"); for(size_t i=0;i<h.size();++i) vp_assert(h.order(i)>mn&&ps.has(h.get(i)),"all operations of higher order"); vp_cover("end"); }
VP_ENTRY(unique_rots){ std::vector<M9> in; int n=(int)vp_choose("n",0,3); int tr=(int)vp_choose("tr",0,1); for(int i=0;i<n;++i){ M9 A=ID; A[0]=(int)vp_int("a",-1,1); A[1]=(int)vp_int("a",-1,1); in.push_back(A); } auto u=get_unique_rotations(in,tr); std::vector<M9> all=in; if(tr) for(auto& x:in) all.push_back(neg(x)); for(auto& x:all){ bool f=false; for(auto& y:u) f=vp_or(f,same(x,y)); vp_assert(f,"every rotation (and with time reversal its inversion) is kept"); } for(size_t i=0;i<u.size();++i){ bool f=false; for(auto& x:all) f=vp_or(f,same(x,u[i])); vp_assert(f,"nothing else is added"); for(size_t j=0;j<i;++j) vp_assert(!same(u[i],u[j]),"no rotation is repeated"); } vp_cover("end"); }
VP_ENTRY(transform){ auto ps=Spacegroup((int)hallpick()).get_pointgroup_symmetry(0); std::vector<int> r; for(size_t i=0;i<ps.size();++i) for(int k=0;k<9;++k) r.push_back(ps.data(i)[k]); auto q=ptg_get_pointsymmetry(r.data(),(int)ps.size()); vp_assert(q.size()==ps.size(),"every operation is kept once"); M9 T; auto pg=ptg_get_transformation_matrix(T.data(),r.data(),(int)ps.size()); vp_assert(pg.get_number()==get_pointgroup(ps).get_number(),"the point group is classified"); vp_assert(det(T)>0,"the transformation is right handed"); vp_cover("end"); }
