// Optimal assignment: Munkres and Jonker-Volgenant solvers.
#include "vp.h"
#include <cmath>
#include <string>
#include <tuple>
#include <vector>
#include <array>
#include <algorithm>
#include "munkres.hpp"
#include "lapjv.hpp"
using namespace brille::assignment;
template<class T> static T total(const std::vector<T>& c, const std::vector<size_t>& p){ T s=0; for(size_t i=0;i<p.size();++i) s+=c[i*p.size()+p[i]]; return s; }
static bool is_perm(const std::vector<size_t>& p){ std::vector<int> seen(p.size(),0); for(auto x:p){ if(x>=p.size()||seen[x]) return false; seen[x]=1; } return true; }
template<class T> static void optimal(const std::vector<T>& c, const std::vector<size_t>& a, T slack, const char* msg){
  std::vector<size_t> p(a.size()); for(size_t i=0;i<p.size();++i) p[i]=i;
  T mine=total(c,a); bool ok=true;
  do { ok = vp_and(ok, mine <= total(c,p)+slack); } while(std::next_permutation(p.begin(),p.end()));
  vp_assert(ok,msg);
}
template<class T> static void munkres(const std::vector<T>& c, size_t n, bool positive){
  Munkres<T> m(n,c);
  std::vector<size_t> out(n,n+7);
  bool ok=m.get_assignment(out.data());
  vp_cover("end");
  if(positive) vp_assert(ok,"an assignment is found for every non-zero cost matrix");
  if(!ok) return;
  vp_assert(is_perm(out),"Munkres assignment is a permutation");
  optimal<T>(c,out,T(0),"Munkres assignment has the smallest total cost");
}
VP_ENTRY(munkres2){ std::vector<double> c; for(int i=0;i<4;++i) c.push_back(vp_real("c",-50,50)); bool z=true; for(auto x:c) z=vp_and(z,x==0); vp_assume(!z); munkres<double>(c,2,true); }
VP_ENTRY(munkres3){ std::vector<double> c; for(int i=0;i<9;++i) c.push_back(vp_real("c",0,50)); bool z=true; for(auto x:c) z=vp_and(z,x==0); vp_assume(!z); munkres<double>(c,3,true); }
VP_ENTRY(munkres3i){ int f[9]={1,2,3, 2,4,6, 3,6,9}; std::vector<int> c(f,f+9); int r=(int)vp_choose("row",0,2); for(int j=0;j<3;++j) c[r*3+j]=(int)vp_int("c",-8,7); munkres<int>(c,3,true); }
// 4x4: a fixed reduced matrix with long augmenting paths plus five symbolic entries
VP_ENTRY(munkres4){ double f[16]={1,2,3,4, 2,4,6,8, 3,6,9,12, 4,8,12,16}; std::vector<double> c(f,f+16);
  int r=(int)vp_choose("row",0,3); for(int j=0;j<4;++j) c[r*4+j]=vp_real("c",0,20); munkres<double>(c,4,true); }
VP_ENTRY(munkres5){ double f[25]={7,1,1,1,1, 1,1,5,6,7, 1,8,1,9,4, 1,3,2,8,1, 1,2,3,1,9}; std::vector<double> c(f,f+25);
  int r=(int)vp_choose("row",0,4); for(int j=0;j<3;++j) c[((r+j)%5)*5+r]=vp_real("c",0,10); munkres<double>(c,5,true); }
// filling the cost matrix after construction and re-running must give the same guarantee
VP_ENTRY(munkres_refill){ Munkres<double> m(2); std::vector<double> c; for(int i=0;i<4;++i) c.push_back(vp_real("c",1,9)); for(int i=0;i<4;++i) m.get_cost()[i]=c[i]; m.reset(); std::vector<size_t> out(2,9); bool ok=m.get_assignment(out.data()); vp_cover("end"); vp_assert(ok,"assignment found"); if(ok){ vp_assert(is_perm(out),"permutation"); optimal<double>(c,out,0,"smallest total cost after refilling the cost matrix"); } }

static void jv(const std::vector<double>& c, size_t n){
  std::vector<size_t> row(n,n+3), col(n,n+3); std::vector<double> u(n,0.), v(n,0.);
  double r = lapjv<size_t,double>(n,c.data(),false,row.data(),col.data(),u.data(),v.data());
  vp_cover("end");
  vp_assert(is_perm(row),"lapjv row solution is a permutation");
  vp_assert(is_perm(col),"lapjv column solution is a permutation");
  bool inv=true; for(size_t i=0;i<n;++i) inv=vp_and(inv,col[row[i]]==i); vp_assert(inv,"lapjv row and column solutions are inverse");
  vp_assert_eq(r,total(c,row),"lapjv returns the cost of the assignment it made");
  double t=0; for(auto x:c) t+=x;
  optimal<double>(c,row,t*double(n)/10000.,"lapjv assignment cost is within the documented epsilon of the minimum");
}
VP_ENTRY(jv1){ std::vector<double> c(1,vp_real("c",0,50)); jv(c,1); }
VP_ENTRY(jv2){ std::vector<double> c; for(int i=0;i<4;++i) c.push_back(vp_real("c",0,50)); jv(c,2); }
VP_ENTRY(jv3){ std::vector<double> c; for(int i=0;i<9;++i) c.push_back(vp_real("c",0,50)); jv(c,3); }
VP_ENTRY(jv4){ double f[16]={1,2,3,4, 2,4,6,8, 3,6,9,12, 4,8,12,16}; std::vector<double> c(f,f+16);
  int r=(int)vp_choose("row",0,3); for(int j=0;j<2;++j) c[r*4+(r+j)%4]=vp_real("c",0,20); jv(c,4); }
