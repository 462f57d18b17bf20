// approximate comparison of numbers and the comparison/arithmetic functors built on it
#include "vp.h"
#include <array>
#include <vector>
#include <string>
#include "approx_float.hpp"
#include "comparisons.hpp"
using namespace brille;
static double rabs(double x){ return x<0?-x:x; }
static const double EPS=2.220446049250313e-16;
// documented meaning: |a-b| <= abs + rel |a+b| with abs, rel no smaller than their defaults
static bool spec(double a, double b, double tol, int n){ double rel=EPS*10000.*n, ab=5e-15; if(tol>rel) rel=tol; if(tol>ab) ab=tol; return rabs(a-b)<=ab+rel*rabs(a+b); }
VP_ENTRY(scalar_spec){ double a=vp_real("a",-100,100), b=vp_real("b",-100,100), t=vp_real("tol",0,1); int n=(int)vp_choose("n",0,2); n= n==2?1000:n; bool r=approx_float::scalar(a,b,t,t,n); vp_assert(r==spec(a,b,t,n),"|a-b| <= abs + rel |a+b|"); vp_assert(approx_float::scalar(b,a,t,t,n)==r,"comparison is symmetric"); vp_assert(approx_float::scalar(a,a,t,t,n),"every number equals itself"); vp_cover("end"); }
VP_ENTRY(scalar_mixed){ double a=vp_real("a",-100,100); int b=(int)vp_int("b",-3,3); b=(int)vp_choose("bb",-2,2); double t=vp_real("tol",0,1); vp_assert(approx_float::scalar<double,int>(a,b,t,0,1)==spec(a,b,t,1),"real compared with an integer"); vp_assert(approx_float::scalar<int,double>(b,a,0,t,1)==spec(a,b,t,1),"integer compared with a real"); double m[2]={a,1.}; int k[2]={b,1}; vp_assert(approx_float::vector(2,m,k,t,0,1)==spec(a,b,t,1),"reals compared with integers"); vp_assert(approx_float::vector(2,k,m,0,t,1)==spec(a,b,t,1),"integers compared with reals"); vp_cover("end"); }
VP_ENTRY(scalar_int){ long a=vp_int("a",-1000,1000), b=vp_int("b",-1000,1000); vp_assert(approx_float::scalar(a,b)==(a==b),"integers compare exactly"); int c=(int)vp_int("c",-1000000,1000000), d=(int)vp_int("d",-1000000,1000000); int n=(int)vp_choose("n",0,2)*500; vp_assert(approx_float::scalar(c,d,0,0,n)==(c==d),"integers compare exactly"); unsigned e=(unsigned)vp_int("e",0,~0u), f=(unsigned)vp_int("f",0,~0u); vp_assert(approx_float::scalar(e,f)==(e==f),"unsigned integers compare exactly"); int x[3]={c,1,d}, y[3]={d,1,c}; vp_assert(approx_float::vector(3,x,y)==(c==d),"integer vectors compare exactly"); vp_cover("end"); }
VP_ENTRY(containers){ double a[4],b[4]; for(auto&x:a) x=vp_real("a",-10,10); for(auto&x:b) x=vp_real("b",-10,10); double t=vp_real("tol",0,1); bool e[4]; for(int i=0;i<4;++i) e[i]=approx_float::scalar(a[i],b[i],t,t,1); bool e4=vp_and(vp_and(e[0],e[1]),vp_and(e[2],e[3])), e3=vp_and(vp_and(e[0],e[1]),e[2]);
  vp_assert(approx_float::vector(4,a,b,t,t,1)==e4,"vectors are equal when every element is"); vp_assert(approx_float::vector(3,a,b,t,t,1)==e3,"only the given number of elements counts"); vp_assert(approx_float::matrix(2,a,b,t,t,1)==e4,"matrices are equal when every element is"); vp_assert(approx_float::array(2,2,a,b,t,t,1)==e4,"arrays are equal when every element is"); vp_assert(approx_float::vector<double,double,4>(a,b,t,t,1)==e4,"fixed-size vectors"); vp_assert(approx_float::matrix<double,double,2>(a,b,t,t,1)==e4,"fixed-size matrices"); vp_assert(approx_float::array<double,double,2,2>(a,b,t,t,1)==e4,"fixed-size arrays");
  std::array<double,3> p{a[0],a[1],a[2]},q{b[0],b[1],b[2]}; vp_assert(approx_float::equal(p,q,t,t,1)==e3,"std::array"); std::vector<double> u(a,a+3),v(b,b+3),w(b,b+4); vp_assert(approx_float::equal(u,v,t,t,1)==e3,"std::vector"); vp_assert(!approx_float::equal(u,w,t,t,1),"vectors of different length differ"); vp_assert(!approx_float::equal(w,u,t,t,1),"vectors of different length differ"); vp_cover("end"); }
// monotone: a larger tolerance never separates what a smaller one joined
VP_ENTRY(monotone){ double a=vp_real("a",-100,100), b=vp_real("b",-100,100), t=vp_real("t",0,1), u=vp_real("u",0,1); vp_assume(t<=u); vp_assert(vp_implies(approx_float::scalar(a,b,t,t,1),approx_float::scalar(a,b,u,u,1)),"a larger tolerance accepts more"); vp_assert(vp_implies(approx_float::scalar(a,b,t,t,1),approx_float::scalar(a,b,t,t,1000)),"a larger tolerance multiplier accepts more"); vp_cover("end"); }
// IEEE: reflexivity for every finite value, NaN is never equal to anything
VP_ENTRY(ieee_reflexive){ double a=vp_fp64("a"); vp_assume(a-a==0); vp_assert(approx_float::scalar(a,a),"every finite number equals itself"); vp_assert(approx_float::scalar(a,-(-a)),"every finite number equals itself"); vp_cover("end"); }
VP_ENTRY(ieee_nan){ double a=vp_fp64("a"), n=(double)NAN; vp_assert(!approx_float::scalar(a,n),"NaN equals nothing"); vp_assert(!approx_float::scalar(n,a),"NaN equals nothing"); double x[2]={1,n},y[2]={1,a}; vp_assert(!approx_float::vector(2,x,y),"a vector with NaN equals nothing"); vp_cover("end"); }
VP_ENTRY(ieee_infinite){ float a=vp_fp32("a"); vp_assume(vp_and(a>=-1e30f,a<=1e30f)); float i=INFINITY; vp_assert(!approx_float::scalar(a,i),"no finite number equals infinity"); vp_cover("end"); }
VP_ENTRY(ieee_far){ float a=vp_fp32("a"), b=vp_fp32("b"); vp_assume(vp_and(a>=1e-10f,a<=1e30f)); vp_assume(vp_and(b<=0,b>=-1e30f)); 
  // numbers of opposite sign are equal only when both are tiny
  vp_assert(vp_implies(approx_float::scalar(a,b),a<=1e-8f),"numbers of opposite sign are not equal"); vp_cover("end"); }
template<class T> static T val(const char* n);
template<> double val<double>(const char* n){ return vp_real(n,-100,100); }
template<> int val<int>(const char* n){ return (int)vp_int(n,-100,100); }
template<class T> static void cmps(T t){ T a[2]={val<T>("a"),val<T>("a")}, b[2]={val<T>("b"),val<T>("b")};
  Comparer<T,T> lt(cmp::lt,t,t,1),gt(cmp::gt,t,t,1),le(cmp::le,t,t,1),ge(cmp::ge,t,t,1),eq(cmp::eq,t,t,1),nle(cmp::nle,t,t,1),nge(cmp::nge,t,t,1),neq(cmp::neq,t,t,1);
  auto any=[](bool x,bool y){return vp_or(x,y);}; auto all=[](bool x,bool y){return vp_and(x,y);};
  bool L[2],G[2],Q[2],LE[2],GE[2]; for(int i=0;i<2;++i){ L[i]=lt(a[i],b[i]); G[i]=gt(a[i],b[i]); Q[i]=eq(a[i],b[i]); LE[i]=le(a[i],b[i]); GE[i]=ge(a[i],b[i]);
    vp_assert(Q[i]==approx_float::scalar(a[i],b[i],t,t,1),"eq is approximate equality"); vp_assert((int)L[i]+(int)G[i]+(int)Q[i]==1,"exactly one of <, ==, > holds"); vp_assert(vp_implies(L[i],a[i]<b[i]),"< implies less"); vp_assert(vp_implies(G[i],a[i]>b[i]),"> implies greater"); vp_assert(LE[i]==vp_or(L[i],Q[i]),"<= is < or =="); vp_assert(GE[i]==vp_or(G[i],Q[i]),">= is > or =="); vp_assert(neq(a[i],b[i])==vp_not(Q[i]),"!= is not =="); vp_assert(nle(a[i],b[i])==G[i],"!<= is >"); vp_assert(nge(a[i],b[i])==L[i],"!>= is <"); vp_assert(lt(b[i],a[i])==G[i],"a<b exactly when b>a"); }
  vp_assert(lt(2,a,b)==all(L[0],L[1]),"< of vectors"); vp_assert(gt(2,a,b)==all(G[0],G[1]),"> of vectors"); vp_assert(eq(2,a,b)==all(Q[0],Q[1]),"== of vectors"); vp_assert(le(2,a,b)==all(LE[0],LE[1]),"<= of vectors"); vp_assert(ge(2,a,b)==all(GE[0],GE[1]),">= of vectors"); vp_assert(neq(2,a,b)==vp_not(all(Q[0],Q[1])),"!= of vectors is not =="); vp_assert(nle(2,a,b)==any(G[0],G[1]),"!<= of vectors is not <="); vp_assert(nge(2,a,b)==any(L[0],L[1]),"!>= of vectors is not >=");
  T c[4]={a[0],T(7),a[1],T(7)}, d[6]={b[0],T(1),T(2),b[1],T(3),T(4)}; vp_assert(eq(2,c,2,d,3)==all(Q[0],Q[1]),"strided =="); vp_assert(lt(2,c,2,d,3)==all(L[0],L[1]),"strided <"); vp_assert(neq(2,c,2,d,3)==vp_not(all(Q[0],Q[1])),"strided !="); vp_cover("end"); }
VP_ENTRY(comparers){ cmps<double>(0.); }
VP_ENTRY(comparers_tol){ double t=(double)vp_choose("tol",1,3)/8; cmps<double>(t); }
VP_ENTRY(comparers_int){ cmps<int>(0); }
VP_ENTRY(operators){ double a[2],b[2]; for(int i=0;i<2;++i){ a[i]=vp_real("a",1,10); b[i]=vp_real("b",1,10); } static const ops O[5]={ops::plus,ops::minus,ops::times,ops::rdiv,ops::ldiv}; int k=(int)vp_choose("op",0,4); RawBinaryOperator<double> f(O[k]); double c[4]={-1,-1,-1,-1}, x[4]={a[0],99,a[1],99}, y[6]={b[0],99,99,b[1],99,99}, e[2]; f(2,c,a,b); double s[4]={-1,-1,-1,-1}; f(2,s,2,x,2,y,3);
  for(int i=0;i<2;++i){ e[i]= k==0?a[i]+b[i]: k==1?a[i]-b[i]: k==2?a[i]*b[i]: k==3?a[i]/b[i]: b[i]/a[i]; vp_assert_eq(f(a[i],b[i]),e[i],"scalar operation"); vp_assert_eq(c[i],e[i],"vector operation"); vp_assert_eq(s[2*i],e[i],"strided operation"); } vp_assert(vp_and(vp_and(c[2]==-1,c[3]==-1),vp_and(s[1]==-1,s[3]==-1)),"nothing else is written"); vp_cover("end"); }
VP_ENTRY(names){ static const cmp c[9]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::nle,cmp::nge,cmp::neq,cmp::le_ge}; int i=(int)vp_choose("i",0,8), j=(int)vp_choose("j",0,8); vp_assert((to_string(c[i])==to_string(c[j]))==(i==j),"comparison names are distinct"); static const ops o[5]={ops::plus,ops::minus,ops::times,ops::rdiv,ops::ldiv}; if(i<5&&j<5) vp_assert((to_string(o[i])==to_string(o[j]))==(i==j),"operation names are distinct"); vp_cover("end"); }
