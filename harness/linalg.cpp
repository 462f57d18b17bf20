// Small dense matrix and vector utilities.
#include "vp.h"
#include <complex>
#include <vector>
#include <array>
#include <string>
#include "utilities.hpp"
using namespace brille; using namespace brille::utils;
typedef std::complex<double> C;
static void fillr(double* m, int n, double b=5){ for(int i=0;i<n;++i) m[i]=vp_real("m",-b,b); }
template<class T> static T leibniz(const T* m, int N){ // independent determinant: sum over permutations
  std::vector<int> p(N); for(int i=0;i<N;++i) p[i]=i; T d=0;
  do { int inv=0; for(int i=0;i<N;++i) for(int j=i+1;j<N;++j) if(p[i]>p[j]) ++inv; T t= inv%2? T(-1):T(1); for(int i=0;i<N;++i) t*=m[i*N+p[i]]; d+=t; } while(std::next_permutation(p.begin(),p.end()));
  return d; }
VP_ENTRY(det){ int N=(int)vp_choose("N",1,4); double m[16]; fillr(m,N*N); vp_assert_eq(matrix_determinant(m,N),leibniz(m,N),"determinant equals the Leibniz expansion"); vp_cover("end"); }
VP_ENTRY(det_int){ int N=(int)vp_choose("N",1,3); int m[9]; for(int i=0;i<N*N;++i) m[i]=(int)vp_int("m",-1,1); vp_assert(matrix_determinant(m,N)==leibniz(m,N),"integer determinant equals the Leibniz expansion"); vp_cover("end"); }
VP_ENTRY(inverse){ int N=(int)vp_choose("N",1,3); double m[9],v[9]; fillr(m,N*N); for(auto&x:v)x=77; double tol=vp_choose("tol",0,1)? 0.01 : 0.; double d0=leibniz(m,N); 
  bool ok=matrix_inverse(v,m,tol,N); vp_cover("end"); bool big= d0>tol||-d0>tol; vp_assert(ok==big,"a matrix is inverted exactly when |det| exceeds the tolerance");
  if(!ok){ bool same=true; for(auto x:v) same=vp_and(same,x==77); vp_assert(same,"the output is untouched when there is no inverse"); return; }
  // m * v * d == d * 1, with v = adj/d: compare after multiplying by the determinant
  for(int i=0;i<N;++i) for(int j=0;j<N;++j){ double s=0; for(int k=0;k<N;++k) s+=m[i*N+k]*(v[k*N+j]*d0); vp_assert_eq(s,i==j?d0:0.,"matrix times its inverse is the identity"); } }
VP_ENTRY(inverse_int){ int m[9],v[9]; for(int i=0;i<9;++i) m[i]= i<3? (int)vp_choose("row",-1,1) : (int)vp_int("m",-1,1); int d0=leibniz(m,3); vp_assume(d0==1||d0==-1); bool ok=matrix_inverse(v,m,0,3); vp_assert(ok,"unimodular integer matrices are invertible"); bool g=true; for(int i=0;i<3;++i) for(int j=0;j<3;++j){ int s=0; for(int k=0;k<3;++k) s+=m[i*3+k]*v[k*3+j]; g=vp_and(g,s==(i==j)); } vp_assert(g,"integer matrix times its inverse is the identity"); vp_cover("end"); }
VP_ENTRY(adjoint){ double m[9],a[9]; fillr(m,9); matrix_adjoint(a,m,3); double d=leibniz(m,3); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double s=0; for(int k=0;k<3;++k) s+=m[i*3+k]*a[k*3+j]; vp_assert_eq(s,i==j?d:0.,"M adj(M) == det(M) 1"); } vp_cover("end"); }
template<int N> static void transp(){ double m[N*N],o[N*N],t[N*N]; fillr(m,N*N); for(int i=0;i<N*N;++i) o[i]=m[i]; matrix_transpose<double,N>(t,o); matrix_transpose<double,N>(m); bool g=true; for(int i=0;i<N;++i) for(int j=0;j<N;++j){ g=vp_and(g,t[i*N+j]==o[j*N+i]); g=vp_and(g,m[i*N+j]==o[j*N+i]); } vp_assert(g,"transposed(i,j) == original(j,i)"); vp_cover("end"); }
VP_ENTRY(transpose){ switch((int)vp_choose("N",2,4)){ case 2: transp<2>(); break; case 3: transp<3>(); break; default: transp<4>(); } }
VP_ENTRY(array_transpose){ double m[6],t[6]; fillr(m,6); array_transpose<double,2,3>(t,m); C a[6],b[6]; for(auto&x:a) x=C(vp_real("re",-5,5),vp_real("im",-5,5)); complex_conj_array_transpose<double,2,3>(b,a); 
  // D is N by M, S is M by N with the layout D[i+j*N] = S[j+i*M]
  bool g=true; for(int i=0;i<2;++i) for(int j=0;j<3;++j){ g=vp_and(g,t[i+j*2]==m[j+i*3]); g=vp_and(g,b[i+j*2].real()==a[j+i*3].real()); g=vp_and(g,b[i+j*2].imag()==-a[j+i*3].imag()); } vp_assert(g,"array transpose and conjugate transpose"); vp_cover("end"); }
VP_ENTRY(multiply){ double a[6],b[12],c[8]; fillr(a,6); fillr(b,12); multiply_arrays<double,double,double,2,3,4>(c,a,b); double d[8]; mul_arrays(d,2u,3u,4u,a,b);
  for(int i=0;i<2;++i) for(int j=0;j<4;++j){ double s=0; for(int k=0;k<3;++k) s+=a[i*3+k]*b[k*4+j]; vp_assert_eq(c[i*4+j],s,"fixed-size array product"); vp_assert_eq(d[i*4+j],s,"run-time-size array product"); } vp_cover("end"); }
VP_ENTRY(multiply_vec){ double m[9],v[3],a[3],b[3],c[3],d[3],e[3]; fillr(m,9); fillr(v,3); multiply_matrix_vector(a,m,v); multiply_vector_matrix(b,v,m); mul_mat_vec(c,3u,m,v); mul_vec_mat(d,3u,v,m); for(int i=0;i<3;++i) e[i]=v[i]; mul_mat_vec_inplace(3u,m,e);
  for(int i=0;i<3;++i){ double s=0,t=0; for(int k=0;k<3;++k){ s+=m[i*3+k]*v[k]; t+=v[k]*m[k*3+i]; } vp_assert_eq(a[i],s,"M v"); vp_assert_eq(c[i],s,"M v (run-time size)"); vp_assert_eq(e[i],s,"in-place M v"); vp_assert_eq(b[i],t,"v M"); vp_assert_eq(d[i],t,"v M (run-time size)"); } vp_cover("end"); }
VP_ENTRY(multiply_cplx){ C a[4],b[4],c[4]; double r[4]; for(auto&x:a) x=C(vp_real("re",-5,5),vp_real("im",-5,5)); for(auto&x:b) x=C(vp_real("re",-5,5),vp_real("im",-5,5)); fillr(r,4); int w=(int)vp_choose("which",0,2);
  if(w==0) mul_arrays(c,2u,2u,2u,a,b); if(w==1) mul_arrays(c,2u,2u,2u,r,b); if(w==2) mul_arrays(c,2u,2u,2u,a,r);
  for(int i=0;i<2;++i) for(int j=0;j<2;++j){ double re=0,im=0; for(int k=0;k<2;++k){ double xr= w==1?r[i*2+k]:a[i*2+k].real(), xi= w==1?0:a[i*2+k].imag(), yr= w==2?r[k*2+j]:b[k*2+j].real(), yi= w==2?0:b[k*2+j].imag(); re+=xr*yr-xi*yi; im+=xr*yi+xi*yr; } vp_assert_eq(c[i*2+j].real(),re,"complex product, real part"); vp_assert_eq(c[i*2+j].imag(),im,"complex product, imaginary part"); } vp_cover("end"); }
VP_ENTRY(metric_similar){ double m[9],g[9]; fillr(m,9); matrix_metric<double,3>(g,m); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double s=0; for(int k=0;k<3;++k) s+=m[k*3+i]*m[k*3+j]; vp_assert_eq(g[i*3+j],s,"metric is M^T M"); } vp_cover("end"); }
VP_ENTRY(similar){ double a[4],b[4],m[4]; fillr(a,4); fillr(b,4); double d=b[0]*b[3]-b[1]*b[2]; bool ok=similar_matrix<double,2>(m,a,b,0.125); vp_assert(ok==(d>0.125||d<-0.125),"similarity transform exists exactly when B is invertible"); if(ok) for(int i=0;i<2;++i) for(int j=0;j<2;++j){ double l=0,r=0; for(int k=0;k<2;++k){ l+=b[i*2+k]*(m[k*2+j]*d); r+=a[i*2+k]*b[k*2+j]; } vp_assert_eq(l,r*d,"B (B^-1 A B) == A B"); } vp_cover("end"); }
VP_ENTRY(trace_sums){ double m[16],n[16],o[16],p[16]; fillr(m,16); fillr(n,16); vp_assert_eq(trace<double,4>(m),m[0]+m[5]+m[10]+m[15],"trace"); add_matrix<double,double,double,4>(o,m,n); subtract_matrix<double,double,double,4>(p,m,n); bool g=true; for(int i=0;i<16;++i){ g=vp_and(g,o[i]==m[i]+n[i]); g=vp_and(g,p[i]==m[i]-n[i]); } vp_assert(g,"element-wise sums"); vp_assert((equal_array<double,4,4>(m,n,0.5))==[&]{ bool e=true; for(int i=0;i<16;++i) e=vp_and(e,vp_and(m[i]-n[i]<=0.5,n[i]-m[i]<=0.5)); return e; }(),"tolerance comparison checks every element"); vp_cover("end"); }
VP_ENTRY(vectors){ double a[3],b[3]; fillr(a,3); fillr(b,3); vp_assert_eq(vector_norm_squared<double,3>(a),a[0]*a[0]+a[1]*a[1]+a[2]*a[2],"norm squared"); double dt=a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; vp_assert_eq((vector_dot<double,3>(a,b)),dt,"dot"); vp_assert_eq((vector_dot<double,double,double>(3,a,b)),dt,"dot (run-time size)");
  double c[3]; vector_cross<double,double,double,3>(c,a,b); vp_assert_eq(c[0],a[1]*b[2]-a[2]*b[1],"cross x"); vp_assert_eq(c[1],a[2]*b[0]-a[0]*b[2],"cross y"); vp_assert_eq(c[2],a[0]*b[1]-a[1]*b[0],"cross z"); double vd=vector_distance(3u,a,b); vp_assert(vd>=0,"distances are not negative"); double s=0; for(int i=0;i<3;++i) s+=(a[i]-b[i])*(a[i]-b[i]); vp_assert_eq(vd*vd,s,"distance squared"); vp_cover("end"); }
VP_ENTRY(hermitian){ C a[2],b[2]; for(auto&x:a) x=C(vp_real("re",-5,5),vp_real("im",-5,5)); for(auto&x:b) x=C(vp_real("re",-5,5),vp_real("im",-5,5)); C h=hermitian_product(2u,a,b); double re=0,im=0; for(int i=0;i<2;++i){ re+=a[i].real()*b[i].real()+a[i].imag()*b[i].imag(); im+=a[i].real()*b[i].imag()-a[i].imag()*b[i].real(); } vp_assert_eq(h.real(),re,"Hermitian product, real part"); vp_assert_eq(h.imag(),im,"Hermitian product, imaginary part"); vp_assert_eq(vector_product(2u,a,b),re*re+im*im,"vector product is |a* . b|^2"); vp_assert_eq(squared_distance(a[0],b[0]),(a[0].real()-b[0].real())*(a[0].real()-b[0].real())+(a[0].imag()-b[0].imag())*(a[0].imag()-b[0].imag()),"squared distance"); double vd=vector_distance(2u,a,b); double s=0; for(int i=0;i<2;++i){ double x=a[i].real()-b[i].real(), y=a[i].imag()-b[i].imag(); s+=x*x+y*y; } vp_assert_eq(vd*vd,s,"complex distance squared"); vp_cover("end"); }
VP_ENTRY(rounding){ double x=vp_real("x",-12,12); int i=my_cast<int,double>(x); vp_assert(vp_and(i-x<=0.5,x-i<=0.5),"my_cast rounds to the nearest integer"); double m=mod1(x); vp_assert(vp_and(m>=-1e-10,m<1.0),"mod1 lies in [0,1)"); double k=x-m; int j=my_cast<int,double>(k); vp_assert_eq(k,(double)j,"mod1 removes an integer"); vp_cover("end"); }
VP_ENTRY(is_int){ double m[4]; fillr(m,4,3); double tol=0.125; bool r=is_int_matrix<double,double,2>(m,tol); bool e=true; for(int i=0;i<4;++i){ double n=vp_realint("n",-4,4); vp_assume(vp_and(n-m[i]<=0.5,m[i]-n<0.5)); e=vp_and(e,vp_and(n-m[i]<=tol,m[i]-n<=tol)); } vp_assert(r==e,"is_int_matrix checks every element"); vp_cover("end"); }
// trigonometry of degrees: reduction to the first octants must use the right function and sign for every angle
VP_ENTRY(trig_degrees){ int q=(int)vp_choose("quadrant",-9,9); double d=vp_real("d",-44.5,44.5); double x=90.*q+d; double c=math::cosd(x), s=math::sind(x); double r=d/180.*math::pi; double cr=std::cos(r), sr=std::sin(r); int k=((q%4)+4)%4; double ec= k==0?cr: k==1?-sr: k==2?-cr: sr, es= k==0?sr: k==1?cr: k==2?-sr:-cr; vp_assert_eq(c,ec,"cosine of an angle in degrees"); vp_assert_eq(s,es,"sine of an angle in degrees"); vp_cover("end"); }
VP_ENTRY(trig_pairs){ double t[9]={0,30,45,60,90,120,135,150,180}; int i=(int)vp_choose("i",0,9); double d= i<9? t[i] : vp_real("d",-400,400); auto p=math::cos_and_sin_d(d); double c=std::get<0>(p), s=std::get<1>(p); vp_assert_eq(c*c+s*s,1.,"cos^2+sin^2 == 1"); if(i<9){ vp_assert_eq(c,math::cosd(d),"tabulated cosine"); vp_assert_eq(s,math::sind(d),"tabulated sine"); auto q=math::cos_and_sin(d/180*math::pi); vp_assert_eq(std::get<0>(q),c,"cosine of radians"); vp_assert_eq(std::get<1>(q),s,"sine of radians"); } vp_cover("end"); }
