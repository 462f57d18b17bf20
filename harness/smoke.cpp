#include "vp.h"
#include <map>
#include <vector>
#include <string>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <unordered_map>
VP_ENTRY(sort){ std::vector<int> v; int n=(int)vp_choose("n",0,4); for(int i=0;i<n;++i) v.push_back((int)vp_int("v",-100,100)); auto w=v; std::sort(v.begin(),v.end()); for(int i=1;i<n;++i) vp_assert(v[i-1]<=v[i],"sorted"); vp_cover("done"); }
VP_ENTRY(bad){ double x=vp_real("x",-10,10), y=vp_real("y",-10,10); double z=(x+y)*(x+y); vp_assert_eq(z,x*x+y*y+2*x*y,"square"); vp_assert(!(x>3&&y==2*x),"x"); int k=(int)vp_int("k",0,10); int a[5]={1,2,3,4,5}; vp_assert(a[k]>0,"idx"); }
VP_ENTRY(map){ std::map<std::string,int> m; std::unordered_map<int,int> u; for(int i=0;i<5;++i){ m[std::to_string(i*i)]=i; u[i]=i*i; } vp_assert(m["16"]==4,"m"); vp_assert(u[3]==9,"u"); std::stringstream s; s<<"ab "<<12<<","<<-3; std::string a; int k; char c; s>>a>>k>>c; vp_assert(a=="ab"&&k==12&&c==',',"ss"); try{ std::stoi("x"); vp_assert(false,"no throw"); } catch(std::invalid_argument& e){ vp_cover("caught"); } try { throw std::runtime_error("x"); } catch(std::exception& e){ vp_cover("caught2"); } vp_assert(std::stod("1.5")==1.5,"stod"); }
