// Interpolating data: shapes, mixing, rotating and sorting modes (P40, P41, P42)
#include "vp.h"
#include <memory>
#include <iostream>
#include <numeric>
#include <algorithm>
#include "lapjv.hpp"
#include "bz.hpp"
#include "interpolatordual.hpp"
#define GEO_KEEP_ATAN2
#include "geo_model.h"
#ifdef VP_THOROUGH
#define TH(a,b) (b)
#else
#define TH(a,b) (a)
#endif
using namespace brille; using namespace brille::lattice; using V3=std::array<double,3>; using M9=std::array<int,9>; using D9=std::array<double,9>; using BA=bArray<double>; using cx=std::complex<double>; using CA=bArray<cx>; using El=std::array<ind_t,3>; using Sh=std::vector<ind_t>;
static void eq(double a,double b,const char* m){ vp_assert_eq(a,b,m); }
static void eqc(cx a,cx b,const char* m){ vp_assert_eq(a.real(),b.real(),m); vp_assert_eq(a.imag(),b.imag(),m); }
template<class A> static A dup(const A& a){ A b(a.size(0),a.size(1)); for(ind_t i=0;i<a.size(0);++i) for(ind_t j=0;j<a.size(1);++j) b.val(i,j)=a.val(i,j); return b; }
static double R(const char* n="d"){ return vp_real(n,-4,4); }
template<class T> static T val(); template<> double val<double>(){ return R("d"); } template<> cx val<cx>(){ double a=R("re"); return cx(a,R("im")); }
static void same(double a,double b,const char* m){ eq(a,b,m); } static void same(cx a,cx b,const char* m){ eqc(a,b,m); }
struct Form{ Sh sh; El el; ind_t b,s; };
// (P), (P,X), (P,B*Y), (P,B,Y), (P,B,V,3), (P,B,M,3,3)
static Form form(int k,ind_t P,ind_t B){ switch(k){ case 0: return {{P},{0,0,0},1,1}; case 1: return {{P,3},{0,0,0},1,3}; case 2: return {{P,B*4},{1,3,0},B,4}; case 3: return {{P,B,5},{2,3,0},B,5}; case 4: return {{P,B,1,3},{0,3,0},B,3}; default: return {{P,B,1,3,3},{0,0,9},B,9}; } }
static ind_t width(const Form& f){ ind_t n=1; for(size_t i=1;i<f.sh.size();++i) n*=f.sh[i]; return n; }
template<class T> static void mix(int k,ind_t B,bool list){ Form f=form(k,3,B); ind_t w=width(f); bArray<T> d(3u,w); for(ind_t i=0;i<3;++i) for(ind_t j=0;j<w;++j) d.val(i,j)= w>10&&(i+j)%3? T(double(i)-double(j)*.25): val<T>(); bArray<T> keep=dup(d); Interpolator<T> in(d,f.sh,f.el,RotatesLike::vector,LengthUnit::real_lattice); vp_assert(in.size()==3&&in.branches()==f.b&&in.branch_span()==f.s,"points, branches and elements per branch");
  int n=(int)vp_choose("n",1,3); static const ind_t I[]={2,0,1}; std::vector<std::pair<ind_t,double>> iw; std::vector<ind_t> ii; std::vector<double> ww; std::vector<std::vector<ind_t>> perm; for(int x=0;x<n;++x){ double u=vp_real("w",0,1); iw.push_back({I[x],u}); ii.push_back(I[x]); ww.push_back(u); std::vector<ind_t> p(f.b); std::iota(p.begin(),p.end(),0u); if(f.b>1&&vp_choose("perm",0,1)) std::reverse(p.begin(),p.end()); perm.push_back(p); }
  bArray<T> out(3u,w); for(ind_t i=0;i<3;++i) for(ind_t j=0;j<w;++j) out.val(i,j)=T(double(i)); ind_t to=(ind_t)vp_choose("to",0,2); if(list) in.interpolate_at(perm,ii,ww,out,to,false); else in.interpolate_at(perm,iw,out,to,false);
  for(ind_t i=0;i<3;++i) for(ind_t j=0;j<w;++j){ T e=T(double(i)); if(i==to) for(int x=0;x<n;++x) e+=ww[x]*keep.val(I[x],perm[x][j/f.s]*f.s+j%f.s); same(out.val(i,j),e,i==to? "the sum of the weighted data is added": "other points are not touched"); } for(ind_t i=0;i<3;++i) for(ind_t j=0;j<w;++j) same(in.data().val(i,j),keep.val(i,j),"the stored data is not changed");
  bool th=false; try{ in.interpolate_at(std::vector<std::vector<ind_t>>(),std::vector<std::pair<ind_t,double>>(),out,to,false); } catch(const std::logic_error&){ th=true; } vp_assert(th,"interpolating nothing is refused"); vp_cover("end"); }
VP_ENTRY(mix_real){ int k=(int)vp_choose("form",0,5); mix<double>(k,k<2? 1: (ind_t)vp_choose("B",1,2),vp_choose("list",0,1)); }
VP_ENTRY(mix_complex){ int k=(int)vp_choose("form",0,5); mix<cx>(k,k<2? 1: (ind_t)vp_choose("B",1,2),vp_choose("list",0,1)); }
// contributions with a free phase: aligned with the first point, and otherwise unchanged
static double n2(cx a){ return a.real()*a.real()+a.imag()*a.imag(); }
VP_ENTRY(phase){ bool list=vp_choose("list",0,1), swap=vp_choose("perm",0,1); int z=(int)vp_choose("free",0,4); CA d(2u,4u); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<4;++j) d.val(i,j)=cx(.5+j-i,.25*j-1+i); double u=z<4? R("u"): 0; switch(z){ case 0: d.val(1,0)=cx(u,.5); break; case 1: d.val(1,1)=cx(-.25,u); break; case 2: d.val(1,3)=cx(u,u+1); break; case 3: d.val(0,0)=cx(.5,u); break; } CA keep=dup(d); Interpolator<cx> in(d,Sh{2,2,2},El{2,0,0},RotatesLike::vector,LengthUnit::real_lattice); double w0=vp_choose("zero",0,1)? 0.: .25, w=z==4? vp_real("w",0,1): .75;
  std::vector<std::pair<ind_t,double>> iw{{0,w0},{1,w}}; std::vector<std::vector<ind_t>> pm{{0,1},{0,1}}; if(swap) pm[1]={1,0}; CA out(1u,4u); for(ind_t j=0;j<4;++j) out.val(0,j)=0; if(list) in.interpolate_at(pm,std::vector<ind_t>{0,1},std::vector<double>{w0,w},out,0u,true); else in.interpolate_at(pm,iw,out,0u,true);
  for(ind_t b=0;b<2;++b){ cx h{0,0}, c[2]; double m=0, want=0; for(ind_t s=0;s<2;++s){ c[s]=out.val(0,2*b+s)-w0*keep.val(0,2*b+s); h+=std::conj(keep.val(0,2*b+s))*c[s]; } eq(h.imag(),0,"the contribution has the phase of the first point"); vp_assert(h.real()>=-1e-9,"the contribution is not opposed to the first point"); cx g{0,0}; for(ind_t s=0;s<2;++s){ cx x=keep.val(1,2*pm[1][b]+s); m+=n2(c[s]); want+=n2(x); g+=std::conj(keep.val(0,2*b+s))*x; } eq(m,w*w*want,"the contribution keeps its magnitude"); eq(h.real()*h.real(),w*w*n2(g),"the contribution keeps its overlap with the first point");
    for(ind_t s=0;s<2;++s){ cx x=keep.val(1,2*pm[1][b]+s); cx t=c[0]*keep.val(1,2*pm[1][b]+1)-c[1]*keep.val(1,2*pm[1][b]); eqc(t,0,"the contribution is a multiple of the data"); (void)x; } } vp_cover("end"); }
// a common phase of the data of a point does not matter
VP_ENTRY(gauge){ CA d(2u,3u); for(ind_t j=0;j<3;++j){ d.val(0,j)=cx(1-.5*j,.25*j); d.val(1,j)=cx(.25*j-.125,-.5+j*j); } if(vp_choose("im",0,1)) d.val(1,0)=cx(.75,R("u")); else d.val(1,1)=cx(R("u"),-.25); static const cx P[]={cx(0,1),cx(-1,0),cx(0,-1)}; cx e=P[vp_choose("p",0,2)]; CA f=dup(d); for(ind_t j=0;j<3;++j) f.val(1,j)=e*d.val(1,j); cx h{0,0}; for(ind_t j=0;j<3;++j) h+=std::conj(d.val(0,j))*d.val(1,j); vp_assume(n2(h)>1e-3); Interpolator<cx> a(d,Sh{2,1,1,3},El{0,3,0},RotatesLike::Gamma,LengthUnit::real_lattice), b(f,Sh{2,1,1,3},El{0,3,0},RotatesLike::Gamma,LengthUnit::real_lattice); CA x(1u,3u),y(1u,3u); for(ind_t j=0;j<3;++j) x.val(0,j)=y.val(0,j)=0; std::vector<std::pair<ind_t,double>> iw{{0,.25},{1,.75}}; std::vector<std::vector<ind_t>> pm{{0},{0}}; a.interpolate_at(pm,iw,x,0u,true); b.interpolate_at(pm,iw,y,0u,true); for(ind_t j=0;j<3;++j) eqc(x.val(0,j),y.val(0,j),"the phase of the data does not matter"); vp_cover("end"); }
// which shapes and element counts fit together
VP_ENTRY(elements){ int nd=(int)vp_choose("nd",1,6); Sh sh{2}; static const int MX[]={6,3,4,4,1}; for(int i=1;i<nd;++i) sh.push_back((ind_t)vp_choose("n",i==1&&nd==2? 1: i>=3&&i==nd-1? 2: 1, i==3&&nd==5? 3: i==1&&nd>2? 2: nd==2? 12: nd==3? 12: i==2? 2: i==3? 3: i==4? 3: 1)); static const int E0[]={0,1,2},E1[]={0,3,6,2},E2[]={0,9,18,4}; El el{(ind_t)E0[vp_choose("s",0,2)],(ind_t)E1[vp_choose("v",0,3)],(ind_t)E2[vp_choose("m",0,3)]}; (void)MX;
  ind_t tot=1; for(size_t i=1;i<sh.size();++i) tot*=sh[i]; ind_t sp=el[0]+el[1]+el[2]; bool ok=false; switch(nd){ case 1: ok=sp<2; break; case 2: ok=sp==0||sh[1]%sp==0; break; case 3: ok=sp==0||sp==sh[2]; break; case 4: ok=sh[3]==3&&(sp==0||sp==3*sh[2]); break; case 5: ok=sh[3]==3&&sh[4]==3&&(sp==0||sp==9*sh[2]); break; } bool whole=el[1]%3==0&&el[2]%9==0; BA d(2u,tot); bool th=false, th2=false;
  try{ Interpolator<double> in(d,sh,el,RotatesLike::vector,LengthUnit::real_lattice); vp_assert(in.branches()*in.branch_span()==tot,"branches times elements is the size of the data"); vp_assert(in.shape()==sh&&in.size()==2,"the shape is kept"); if(sp) vp_assert(in.branch_span()==sp&&in.elements()==el,"the elements are kept"); auto a=in.array(); vp_assert(a.shape()==sh,"the array has the shape"); vp_assert(in.bytes_per_point()==tot*sizeof(double),"memory per point"); } catch(const std::exception&){ th=true; } vp_assert(th==!ok,"data is refused exactly if the elements do not fit its shape");
  BA e(3u,4u); Interpolator<double> in(e,Sh{3,4},El{1,3,0},RotatesLike::Gamma,LengthUnit::angstrom); try{ in.replace_data(d,sh,el); } catch(const std::exception&){ th2=true; } vp_assert(th2==!(ok&&whole),"replacing data is refused exactly if the elements do not fit its shape or are not whole vectors and matrices"); ind_t now=in.data().size(1); vp_assert(in.branches()*in.branch_span()==now,"the object is consistent whether data was replaced or refused"); if(th2) vp_assert(in.size()==3&&in.shape()==Sh({3,4})&&in.rotateslike()==RotatesLike::Gamma,"a refused replacement changes nothing"); else vp_assert(in.size()==2&&in.shape()==sh&&in.rotateslike()==RotatesLike::vector,"the data is replaced"); vp_cover("end"); }
VP_ENTRY(dual){ ind_t p0=(ind_t)vp_choose("p0",1,3),p1=(ind_t)vp_choose("p1",1,3),b0=(ind_t)vp_choose("b0",1,2),b1=(ind_t)vp_choose("b1",1,2); BA d(p0,b0),v(p1,3*b1); for(ind_t i=0;i<p0;++i) for(ind_t j=0;j<b0;++j) d.val(i,j)=R(); for(ind_t i=0;i<p1;++i) for(ind_t j=0;j<3*b1;++j) v.val(i,j)=double(j)-i; Interpolator<double> s(d,Sh{p0,b0},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice), w(v,Sh{p1,b1,1,3},El{0,3,0},RotatesLike::vector,LengthUnit::real_lattice); bool fits=p0==p1&&b0==b1, th=false; try{ DualInterpolator<double,double> x(s,w); } catch(const std::runtime_error&){ th=true; } vp_assert(th==!fits,"values and vectors of different points or branches are refused"); th=false; DualInterpolator<double,double> y; try{ y.replace_data(s,w); } catch(const std::runtime_error&){ th=true; } vp_assert(th==!fits,"replacing values and vectors of different points or branches is refused"); if(th) vp_assert(y.size()==0,"a refused replacement changes nothing"); else vp_assert(y.size()==p0&&y.branches()==b0,"size and branches");
  DualInterpolator<double,double> z; z.initialize_permutation_table(p0,std::set<size_t>()); z.replace_value_data(d,Sh{p0,b0},El{1,0,0}); vp_assert(z.size()==p0&&z.branches()==b0&&z.vectors().size()==p0&&z.vectors().branches()==b0,"vectors are made up to match new values"); z.replace_vector_data(v,Sh{p1,b1,1,3},El{0,3,0}); vp_assert(z.size()==p1&&z.branches()==b1&&z.values().size()==p1&&z.values().branches()==b1,"values are made up to match new vectors"); if(fits) for(ind_t i=0;i<p0;++i) for(ind_t j=0;j<b0;++j) eq(z.values().data().val(i,j),d.val(i,j),"matching values are kept"); vp_assert(z.bytes_per_point()==sizeof(double)*b1*4,"memory per point");
  std::vector<std::pair<ind_t,double>> iw{{0u,1.}}; BA vo(1u,b1),wo(1u,3*b1); for(ind_t j=0;j<3*b1;++j) wo.val(0,j)=0; for(ind_t j=0;j<b1;++j) vo.val(0,j)=0; if(fits){ z.interpolate_at(iw,vo,wo,0u); for(ind_t j=0;j<b1;++j) eq(vo.val(0,j),d.val(0,j),"a single point gives its data"); for(ind_t j=0;j<3*b1;++j) eq(wo.val(0,j),v.val(0,j),"a single point gives its vectors"); } vp_cover("end"); }
// ---------------------------------------------------------------- rotating (P41)
struct Xtal{ const char* sg; V3 len,ang; std::vector<V3> pos; std::vector<ind_t> typ; };
static const Xtal& xtal(int k){ static const Xtal X[]={ {"P m -3 m",{4,4,4},{90,90,90},{{0,0,0},{.5,.5,.5}},{0,1}}, {"P 4_2/m n m",{4,4,3},{90,90,90},{{0,0,0},{.5,.5,.5},{.3,.3,0},{.7,.7,0},{.2,.8,.5},{.8,.2,.5}},{0,0,1,1,1,1}}, {"P 6_3/m m c",{3,3,5},{90,90,120},{{1./3,2./3,.25},{2./3,1./3,.75}},{0,0}}, {"F d -3 m",{5,5,5},{90,90,90},{{0,0,0},{0,.5,.5},{.5,0,.5},{.5,.5,0},{.75,.25,.75},{.25,.25,.25},{.25,.75,.75},{.75,.75,.25}},{0,0,0,0,0,0,0,0}}, {"P 3_1 2 1",{3,3,4},{90,90,120},{{.4,0,1./3},{0,.4,2./3},{.6,.6,0}},{0,0,0}}, {"P 1 2_1/c 1",{4,5,6},{90,100,90},{{.1,.2,.3},{.9,.7,.2},{.9,.8,.7},{.1,.3,.8}},{2,2,2,2}} }; return X[k]; }
static Lattice<double> make(const Xtal& x){ return Lattice<double>(LengthUnit::angstrom,x.len,x.ang,std::string(x.sg),Basis(x.pos,x.typ),false,AngleUnit::degree); }
static const Lattice<double>& lat(int k){ static std::unique_ptr<Lattice<double>> l[6]; if(!l[k]) l[k]=std::make_unique<Lattice<double>>(make(xtal(k))); return *l[k]; }
static int idet(const M9& r){ return r[0]*(r[4]*r[8]-r[5]*r[7])-r[1]*(r[3]*r[8]-r[5]*r[6])+r[2]*(r[3]*r[7]-r[4]*r[6]); }
static M9 iinv(const M9& r){ int d=idet(r); M9 o{r[4]*r[8]-r[5]*r[7],r[2]*r[7]-r[1]*r[8],r[1]*r[5]-r[2]*r[4],r[5]*r[6]-r[3]*r[8],r[0]*r[8]-r[2]*r[6],r[2]*r[3]-r[0]*r[5],r[3]*r[7]-r[4]*r[6],r[1]*r[6]-r[0]*r[7],r[0]*r[4]-r[1]*r[3]}; for(auto& x:o) x*=d; return o; }
template<class A,class B> static std::array<B,9> mm(const std::array<A,9>& a,const std::array<B,9>& b){ std::array<B,9> o; for(int i=0;i<3;++i) for(int j=0;j<3;++j){ B s=B(0); for(int k=0;k<3;++k) s+=B(a[3*i+k])*b[3*k+j]; o[3*i+j]=s; } return o; }
template<class B> static std::array<B,9> mr(const std::array<B,9>& a,const D9& b){ std::array<B,9> o; for(int i=0;i<3;++i) for(int j=0;j<3;++j){ B s=B(0); for(int k=0;k<3;++k) s+=a[3*i+k]*b[3*k+j]; o[3*i+j]=s; } return o; }
template<class B> static std::array<B,3> mv(const D9& a,const std::array<B,3>& v){ std::array<B,3> o; for(int i=0;i<3;++i){ B s=B(0); for(int k=0;k<3;++k) s+=a[3*i+k]*v[k]; o[i]=s; } return o; }
static D9 dbl(const M9& m){ D9 o; for(int i=0;i<9;++i) o[i]=m[i]; return o; } static D9 trd(const D9& m){ return {m[0],m[3],m[6],m[1],m[4],m[7],m[2],m[5],m[8]}; } static M9 tri_(const M9& m){ return {m[0],m[3],m[6],m[1],m[4],m[7],m[2],m[5],m[8]}; }
static LVec<double> anyq(const Lattice<double>& l,ind_t n){ LVec<double> q(LengthUnit::inverse_angstrom,l,n); for(ind_t i=0;i<n;++i) for(int j=0;j<3;++j) q.val(i,j)=.125*(1+i+2*j); return q; }
// Q = R^T q: what happens to scalars, vectors and matrices with components along the real or reciprocal basis vectors
template<class T> static void rotated(int kind,int k){ const auto& l=lat(k); auto ps=l.pointgroup_symmetry(); size_t n=ps.size(), r=(size_t)vp_choose("r",0,(long)n-1); std::vector<size_t> rr{r,(r+1)%n}, ri; for(auto x:rr){ M9 w=iinv(ps.get(x)); size_t j=0; while(j<n&&ps.get(j)!=w) ++j; vp_assert(j<n,"the inverse is in the group"); ri.push_back(j); } int nth=(int)vp_choose("threads",0,1); const ind_t B=2; El el{1,6,9}; ind_t sp=16; bArray<T> d(1u,B*sp); for(ind_t j=0;j<B*sp;++j) d.val(0,j)=T(0); Interpolator<T> in(d,Sh{1,B,sp},el,kind==2? RotatesLike::pseudovector: RotatesLike::vector,kind==0? LengthUnit::reciprocal_lattice: LengthUnit::real_lattice);
  bArray<T> x(2u,B*sp); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<B*sp;++j) x.val(i,j)= i==0||j%3==0? val<T>(): T(double(j)-7.25*i); bArray<T> y=dup(x); RotateTable none; (void)none; GammaTable gt(false,l); vp_assert(in.rotate_in_place(y,anyq(l,2),gt,ps,rr,ri,nth? 2: 0),"rotating is reported");
  for(ind_t i=0;i<2;++i){ M9 m=ps.get(rr[i]), mi=iinv(m); D9 A= kind==0? dbl(tri_(m)): dbl(mi), Ai= kind==0? dbl(tri_(mi)): dbl(m); double f= kind==2? idet(m): 1; for(ind_t b=0;b<B;++b){ ind_t o=b*sp; same(y.val(i,o),x.val(i,o),"scalars are not rotated"); for(int v=0;v<2;++v){ std::array<T,3> t{x.val(i,o+1+3*v),x.val(i,o+2+3*v),x.val(i,o+3+3*v)}; t=mv<T>(A,t); for(int j=0;j<3;++j) same(y.val(i,o+1+3*v+j),f*t[j],"vectors are rotated"); } std::array<T,9> t; for(int j=0;j<9;++j) t[j]=x.val(i,o+7+j); t=mr<T>(mm(A,t),Ai); for(int j=0;j<9;++j) same(y.val(i,o+7+j),t[j],"matrices are rotated"); } } vp_cover("end"); }
static const int XQ[]={0,2,5,1,4,3};
VP_ENTRY(rot_recip){ rotated<double>(0,XQ[vp_choose("x",0,TH(2,5))]); }
VP_ENTRY(rot_real){ rotated<double>(1,XQ[vp_choose("x",0,TH(2,5))]); }
VP_ENTRY(rot_axial){ rotated<double>(2,XQ[vp_choose("x",0,TH(2,5))]); }
VP_ENTRY(rot_complex){ rotated<cx>((int)vp_choose("kind",0,2),XQ[vp_choose("x",1,TH(2,5))]); }
VP_ENTRY(rot_refuse){ const auto& l=lat(2); auto ps=l.pointgroup_symmetry(); static const LengthUnit U[]={LengthUnit::none,LengthUnit::angstrom,LengthUnit::inverse_angstrom,LengthUnit::real_lattice,LengthUnit::reciprocal_lattice}; static const RotatesLike K[]={RotatesLike::vector,RotatesLike::pseudovector,RotatesLike::Gamma}; int u=(int)vp_choose("u",0,4), k=(int)vp_choose("k",0,2); BA d(1u,3u); for(int j=0;j<3;++j) d.val(0,j)=R(); BA y=dup(d); Interpolator<double> in(d,Sh{1,1,1,3},El{0,3,0},K[k],U[u]); GammaTable gt(true,l); bool th=false; size_t id=ps.find_identity_index(); try{ in.rotate_in_place(y,anyq(l,1),gt,ps,std::vector<size_t>{id},std::vector<size_t>{id},0); } catch(const std::runtime_error&){ th=true; } bool ok=(u==3&&k<2)||(u==4&&k==0); vp_assert(th==!ok,"ways to rotate which are not known, and real valued eigenvectors, are refused"); if(ok) for(int j=0;j<3;++j) eq(y.val(0,j),d.val(0,j),"the identity changes nothing");
  BA sc(1u,2u); sc.val(0,0)=R(); sc.val(0,1)=R(); BA sy=dup(sc); Interpolator<double> only(sc,Sh{1,2},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice); size_t r=(size_t)vp_choose("r",0,(long)ps.size()-1); vp_assert(!only.rotate_in_place(sy,anyq(l,1),gt,ps,std::vector<size_t>{r},std::vector<size_t>{ps.get_inverse_index(r)},0),"scalars need no rotation"); for(int j=0;j<2;++j) eq(sy.val(0,j),sc.val(0,j),"scalars are not changed"); vp_cover("end"); }
// the table of equivalent atoms: S r_k = r_l + n for the space group operation S of a point group operation
struct Eqv{ ind_t l; V3 n; };
static Eqv equivalent(const Xtal& x,const Symmetry& sp,const M9& m,ind_t k,bool& found){ for(size_t s=0;s<sp.size();++s) if(sp.getr(s)==m){ auto t=sp.gett(s); V3 p=mv<double>(dbl(m),x.pos[k]); for(ind_t l=0;l<x.pos.size();++l) if(x.typ[l]==x.typ[k]){ V3 n; bool in=true; for(int i=0;i<3;++i){ n[i]=p[i]+t[i]-x.pos[l][i]; in&=std::abs(n[i]-std::round(n[i]))<1e-6; n[i]=std::round(n[i]); } if(in){ found=true; return {l,n}; } } return {0,{0,0,0}}; } return {0,{0,0,0}}; }
VP_ENTRY(table){ int k=(int)vp_choose("x",0,TH(5,5)); const Xtal& x=xtal(k); const auto& l=lat(k); auto ps=l.pointgroup_symmetry(); auto sp=l.spacegroup_symmetry(); GammaTable gt(true,l); ind_t N=(ind_t)x.pos.size(); for(size_t r=0;r<ps.size();++r){ std::vector<char> hit(N,0); V3 off{0,0,0}; for(ind_t a=0;a<N;++a){ bool f=false; auto e=equivalent(x,sp,ps.get(r),a,f); vp_assert(f,"every atom has an equivalent"); ind_t t=gt.F0(a,r); vp_assert(t==e.l,"the equivalent atom"); vp_assert(t<N&&x.typ[t]==x.typ[a],"the same type"); hit[t]=1; V3 v; for(int i=0;i<3;++i) v[i]=gt.vectors().val(gt.vector_index(a,r),i); V3 w=mv<double>(dbl(iinv(ps.get(r))),e.n); if(a==0) for(int i=0;i<3;++i) off[i]=v[i]+w[i]; for(int i=0;i<3;++i){ vp_assert(std::abs(v[i]-std::round(v[i]))<1e-6,"atoms move by lattice vectors"); eq(v[i]+w[i],off[i],"the lattice vector, but for one common to all atoms"); } auto lv=gt.vector(a,r); for(int i=0;i<3;++i) eq(lv.val(0,i),v[i],"the vector by atom and operation"); } for(auto h:hit) vp_assert(h,"every operation permutes the atoms"); }
  bool th=false; try{ gt.F0(N,0u); } catch(const std::runtime_error&){ th=true; } vp_assert(th,"an atom which does not exist is refused"); vp_note((std::to_string(ps.size())+" ops").c_str()); vp_cover("end"); }
VP_ENTRY(table_refuse){ Xtal x=xtal((int)vp_choose("x",0,2)); x.pos[0][vp_choose("i",0,2)]+=.07; bool th=false; try{ auto l=make(x); GammaTable gt(true,l); } catch(const std::runtime_error&){ th=true; } vp_assert(th,"a basis without the symmetry of the lattice is refused"); vp_cover("end"); }
// eigenvectors: the displacement of atom k in cell R is e_k exp(2 pi i q.R); the operation takes it to R_S e_k on atom l in the cell R_S R + n, at Q = R_S^-T q
static void gamma(int k,bool tensors,bool ang){ const Xtal& x=xtal(k); const auto& l=lat(k); auto ps=l.pointgroup_symmetry(); auto sp=l.spacegroup_symmetry(); GammaTable gt(true,l); ind_t N=(ind_t)x.pos.size(); size_t r=(size_t)vp_choose("r",0,(long)ps.size()-1); M9 m=ps.get(r), mi=iinv(m); size_t ri=0; while(ps.get(ri)!=mi) ++ri; V3 q; static const V3 QS[]={{.125,.25,.375},{.5,0,.125},{0,0,0},{.3,-.2,.45}}; int w=(int)vp_choose("q",0,TH(1,3)); q=QS[w]; LVec<double> ql(LengthUnit::inverse_angstrom,l,2u); for(int j=0;j<3;++j){ ql.val(0,j)=q[j]; ql.val(1,j)=.25*j; }
  ind_t mats= tensors? N*N: 0, vs=N, sp_=1+3*vs+9*mats; El el{1,3*vs,9*mats}; CA d(1u,sp_); for(ind_t j=0;j<sp_;++j) d.val(0,j)=0; Interpolator<cx> in(d,Sh{1,1,sp_},el,RotatesLike::Gamma,ang? LengthUnit::angstrom: LengthUnit::real_lattice); CA y(2u,sp_); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<sp_;++j) y.val(i,j)= i==0&&(j<1+3*vs||j%9==1||j<30)? val<cx>(): cx(j%5-1.5,.25*(j%7)); CA o=dup(y); size_t id=ps.find_identity_index(); vp_assert(in.rotate_in_place(y,ql,gt,ps,std::vector<size_t>{r,id},std::vector<size_t>{ri,id},(int)vp_choose("threads",0,1)),"rotating is reported");
  for(ind_t j=0;j<sp_;++j) eqc(y.val(1,j),o.val(1,j),"the identity changes nothing"); eqc(y.val(0,0),o.val(0,0),"scalars are not rotated"); V3 Q=mv<double>(trd(dbl(m)),q); D9 A=dbl(mi),Ai=dbl(m); if(ang){ auto T=l.to_xyz(LengthUnit::angstrom), F=l.from_xyz(LengthUnit::angstrom); D9 t,f; for(int i=0;i<9;++i){ t[i]=T[i]; f[i]=F[i]; } A=mm(t,mm(A,f)); Ai=mm(t,mm(Ai,f)); }
  std::vector<ind_t> to(N); std::vector<cx> ph(N); V3 off{0,0,0}; for(ind_t a=0;a<N;++a){ bool f=false; auto e=equivalent(x,sp,mi,a,f); vp_assert(f,"every atom has an equivalent"); to[a]=e.l; if(a==0){ V3 w=mv<double>(dbl(m),e.n); for(int i=0;i<3;++i) off[i]=gt.vectors().val(gt.vector_index(0,ri),i)+w[i]; } double z=-brille::math::two_pi*(Q[0]*e.n[0]+Q[1]*e.n[1]+Q[2]*e.n[2]); for(int i=0;i<3;++i) z+=brille::math::two_pi*q[i]*off[i]; ph[a]=cx(std::cos(z),std::sin(z)); }
  for(ind_t a=0;a<N;++a){ std::array<cx,3> t{o.val(0,1+3*a),o.val(0,2+3*a),o.val(0,3+3*a)}; t=mv<cx>(A,t); for(int j=0;j<3;++j) eqc(y.val(0,1+3*to[a]+j),ph[a]*t[j],"the displacement of the equivalent atom"); } if(tensors) for(ind_t a=0;a<N;++a) for(ind_t b=0;b<N;++b){ std::array<cx,9> t; for(int j=0;j<9;++j) t[j]=o.val(0,1+3*vs+9*(a*N+b)+j); t=mr<cx>(mm(A,t),Ai); for(int j=0;j<9;++j) eqc(y.val(0,1+3*vs+9*(to[a]*N+to[b])+j),ph[a]*std::conj(ph[b])*t[j],"the tensor of the equivalent pair of atoms"); } vp_cover("end"); }
VP_ENTRY(gamma_vectors){ static const int K[]={0,1,2,4,5,3}; gamma(K[vp_choose("x",0,TH(4,5))],false,false); }
VP_ENTRY(gamma_tensors){ static const int K[]={2,0,4}; gamma(K[vp_choose("x",0,TH(1,2))],true,false); }
VP_ENTRY(gamma_angstrom){ static const int K[]={2,5,4}; gamma(K[vp_choose("x",0,TH(1,2))],vp_choose("t",0,TH(0,1)),true); }
VP_ENTRY(gamma_refuse){ const auto& l=lat(0); auto ps=l.pointgroup_symmetry(); GammaTable gt(true,l); CA d(1u,6u); for(int j=0;j<6;++j) d.val(0,j)=val<cx>(); CA y=dup(d); Interpolator<cx> in(d,Sh{1,1,2,3},El{0,6,0},RotatesLike::Gamma,LengthUnit::real_lattice); Lattice<double> other(LengthUnit::angstrom,V3{4,4,5},V3{90,90,90},std::string("P 4/m m m"),Basis(),false,AngleUnit::degree); bool th=false; std::vector<size_t> z{0}; try{ in.rotate_in_place(y,anyq(other,1),gt,ps,z,z,0); } catch(const std::runtime_error&){ th=true; } vp_assert(th,"points of another lattice are refused"); LVec<double> qd(LengthUnit::angstrom,l,1u); for(int j=0;j<3;++j) qd.val(0,j)=.25; th=false; try{ in.rotate_in_place(y,qd,gt,ps,z,z,0); } catch(const std::runtime_error&){ th=true; } vp_assert(th,"real space points are refused"); vp_cover("end"); }
// ---------------------------------------------------------------- sorting modes (P42)
static double ab(double x){ return x<0? -x: x; }
// differences between two branches, with the weights of scalars, vectors and matrices
static double dist(const BA& x,ind_t i,ind_t a,ind_t j,ind_t b,ind_t s,ind_t o,ind_t n){ double t=0; for(ind_t k=0;k<n;++k){ double u=x.val(i,a*s+o+k)-x.val(j,b*s+o+k); t+=u*u; } return std::sqrt(t); }
VP_ENTRY(costs){ const ind_t B=2,s=14; int fr=(int)vp_choose("free",0,3); BA v(3u,B),w(3u,B*s); for(ind_t i=0;i<3;++i) for(ind_t j=0;j<B;++j) v.val(i,j)= fr==0? R(): 1.5*i-j*.75; for(ind_t i=0;i<3;++i) for(ind_t j=0;j<B*s;++j) w.val(i,j)=double((i*7+j*5)%11)*.25-1; if(fr==1){ w.val(0,0)=R(); w.val(1,1)=R(); w.val(2,s+1)=R(); } if(fr==2){ w.val(0,2)=R(); w.val(1,s+3)=R(); } if(fr==3){ w.val(1,5)=R(); w.val(0,s+13)=R(); }
  Interpolator<double> a(v,Sh{3,B},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice), b(w,Sh{3,B,s},El{2,3,9},RotatesLike::vector,LengthUnit::real_lattice); DualInterpolator<double,double> d(a,b); std::array<double,3> m0{2,0,0},m1{.5,3,.25}; int f=(int)vp_choose("fun",1,2); d.set_value_cost_info(0,0,m0); d.set_vector_cost_info(0,f,m1); ind_t p=(ind_t)vp_choose("p",0,2),q=(ind_t)vp_choose("q",0,2); auto c=d.cost_matrix(p,q); vp_assert(c.size()==B*B,"one cost per pair of branches"); for(ind_t i=0;i<B;++i) for(ind_t j=0;j<B;++j){ double e=0; if(p==q) e= i==j? -1: 0; else { e=2*ab(v.val(p,i)-v.val(q,j)); for(int k=0;k<2;++k) e+=.5*ab(w.val(p,i*s+k)-w.val(q,j*s+k)); double u=0; if(f==1) u=dist(w,p,i,q,j,s,2,3); else { u=1; for(int k=0;k<3;++k) u-=w.val(p,i*s+2+k)*w.val(q,j*s+2+k); } e+=3*u+.25*dist(w,p,i,q,j,s,5,9); } eq(c[i*B+j],e,"the cost of assigning one mode to another"); } vp_cover("end"); }
VP_ENTRY(costs_many){ const ind_t B=2,s=25; int fr=(int)vp_choose("free",0,2); BA v(2u,B),w(2u,B*s); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<B;++j) v.val(i,j)=1.5*i-j*.75; for(ind_t i=0;i<2;++i) for(ind_t j=0;j<B*s;++j) w.val(i,j)=double((i*7+j*5)%11)*.25-1; if(fr==0){ w.val(0,8)=R(); w.val(1,s+20)=R(); } else if(fr==1){ w.val(1,24)=R(); w.val(0,s+7)=R(); } else { w.val(0,4)=R(); w.val(1,s+6)=R(); }
  Interpolator<double> a(v,Sh{2,B},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice), b(w,Sh{2,B,s},El{1,6,18},RotatesLike::vector,LengthUnit::real_lattice); DualInterpolator<double,double> d(a,b); std::array<double,3> m0{0,0,0},m1{.5,3,.25}; d.set_value_cost_info(0,0,m0); d.set_vector_cost_info(0,1,m1); auto c=d.cost_matrix(0,1); for(ind_t i=0;i<B;++i) for(ind_t j=0;j<B;++j) eq(c[i*B+j],.5*ab(w.val(0,i*s)-w.val(1,j*s))+3*dist(w,0,i,1,j,s,1,6)+.25*(dist(w,0,i,1,j,s,7,9)+dist(w,0,i,1,j,s,16,9)),"the cost adds all scalars, vectors and matrices"); vp_cover("end"); }
VP_ENTRY(costs_angle){ BA v(2u,2u),w(2u,6u); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<2;++j) v.val(i,j)=0; for(ind_t i=0;i<2;++i) for(ind_t j=0;j<6;++j) w.val(i,j)=double((i*7+j*5)%11)*.25-1; int z=(int)vp_choose("free",0,2); if(z<2) w.val(z,z? 5: 1)=vp_real("d",.5,4); else { for(ind_t j=0;j<3;++j) w.val(1,j)=-w.val(0,j); w.val(0,5)=w.val(0,3)=0; } Interpolator<double> a(v,Sh{2,2},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice), b(w,Sh{2,2,1,3},El{0,3,0},RotatesLike::vector,LengthUnit::real_lattice); DualInterpolator<double,double> d(a,b); std::array<double,3> m1{1,1,1}; d.set_vector_cost_info(0,0,m1); auto c=d.cost_matrix(0,1); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<2;++j){ double x=0,y=0,z=0; for(int k=0;k<3;++k){ double s=w.val(0,3*i+k),t=w.val(1,3*j+k); x+=s*s; y+=t*t; z+=s*t; } eq(c[2*i+j]*x*y,x*y-z*z,"one minus the squared cosine of the angle between the vectors"); } vp_cover("end"); }
VP_ENTRY(costs_complex){ CA w(2u,4u); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<4;++j) w.val(i,j)=cx(double((i*7+j*5)%11)*.25-1,double((i*3+j*7)%5)*.5-1); w.val(1,2)=val<cx>(); static const cx P[]={cx(1,0),cx(.6,.8),cx(0,-1)}; BA v(2u,2u); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<2;++j) v.val(i,j)=0; auto run=[&](const CA& z){ CA zz=dup(z); Interpolator<double> a(v,Sh{2,2},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice); Interpolator<cx> b(zz,Sh{2,2,2},El{2,0,0},RotatesLike::vector,LengthUnit::real_lattice); DualInterpolator<double,cx> d(a,b); return d.cost_matrix(0,1); }; cx e=P[vp_choose("p",1,2)]; CA x=dup(w); for(ind_t j=0;j<2;++j) x.val(1,j)=e*w.val(1,j); auto c=run(w), f=run(x); cx h{0,0}; for(int j=0;j<2;++j) h+=std::conj(w.val(0,j))*w.val(1,j); vp_assume(n2(h)>1e-3); eq(c[0],f[0],"a common phase of a mode does not matter"); eq(c[2],f[2],"a common phase of a mode does not matter for another branch"); eq(c[1],f[1],"other modes are not affected"); vp_cover("end"); }
// permutations: minimal costs, consistent in both directions, used when interpolating
VP_ENTRY(sorting){ const ind_t B=(ind_t)vp_choose("B",2,3); const ind_t N=3; BA v(N,B),w(N,B); for(ind_t i=0;i<N;++i) for(ind_t j=0;j<B;++j){ v.val(i,j)= i==1? 2.*j: i==0&&(B==2||j<TH(1u,2u))? vp_real("v",-1,5): (double)((i*3+j*2)%5)+.25*j; w.val(i,j)=10.*i+j; } Interpolator<double> a(v,Sh{N,B},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice), b(w,Sh{N,B},El{1,0,0},RotatesLike::vector,LengthUnit::real_lattice); DualInterpolator<double,double> d(a,b); std::set<size_t> keys; int known=(int)vp_choose("keys",0,2); for(size_t i=0;i<N;++i) for(size_t j=0;j<N;++j) if(i!=j&&(known==0||(known==1&&i+j!=3)||(known==2&&i+j==2))) keys.insert(i*N+j); d.initialize_permutation_table(N,keys); d.replace_data(a,b); std::array<double,3> one{1,1,1},no{0,0,0}; d.set_value_cost_info(0,0,one); d.set_vector_cost_info(0,0,no); d.sort();
  for(ind_t i=0;i<N;++i) for(ind_t j=0;j<N;++j){ auto p=d.get_permutation(i,j); vp_assert(p.size()==B,"one entry per branch"); std::vector<ind_t> s=p; std::sort(s.begin(),s.end()); for(ind_t k=0;k<B;++k) vp_assert(s[k]==k,"a permutation"); if(i==j||!keys.count(i*N+j)){ for(ind_t k=0;k<B;++k) vp_assert(p[k]==k,"points which are not connected are not permuted"); continue; } auto inv=d.get_permutation(j,i); for(ind_t k=0;k<B;++k) vp_assert(inv[p[k]]==k,"the inverse permutation in the other direction"); double c=0,tot=0; auto m=d.cost_matrix(i,j); for(auto x:m) tot+=x; for(ind_t k=0;k<B;++k) c+=ab(v.val(i,k)-v.val(j,p[k])); std::vector<ind_t> o(B); std::iota(o.begin(),o.end(),0u); bool best=true; do { double e=0; for(ind_t k=0;k<B;++k) e+=ab(v.val(i,k)-v.val(j,o[k])); best=vp_and(best,c<=e+tot*B*1e-4+1e-9); } while(std::next_permutation(o.begin(),o.end())); vp_assert(best,"no other assignment of modes is cheaper"); }
  std::vector<std::pair<ind_t,double>> iw{{1u,.5},{0u,.25},{2u,.25}}; BA vo(1u,B),wo(1u,B); for(ind_t j=0;j<B;++j) vo.val(0,j)=wo.val(0,j)=0; d.interpolate_at(iw,vo,wo,0u); for(ind_t j=0;j<B;++j){ double e=0,f=0; for(auto& x:iw){ auto p=d.get_permutation(iw[0].first,x.first); e+=x.second*v.val(x.first,p[j]); f+=x.second*w.val(x.first,p[j]); } eq(vo.val(0,j),e,"values of the same mode are combined"); eq(wo.val(0,j),f,"vectors of the same mode are combined"); } vp_cover("end"); }
