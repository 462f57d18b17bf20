// Concrete replayer: feeds recorded inputs to a harness entry. exit 0 property holds, 10 assertion violated,
// 11 assumption not met (inputs do not apply), 12 input exhausted/mismatch, 13 uncaught exception, other: crash/sanitizer
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <exception>
#include <unistd.h>
struct In { char k; std::string v; };
static std::vector<In> ins; static size_t pos=0; static bool failed=false;
static const In& next(const char* n,char k){ if(pos>=ins.size()){ fprintf(stderr,"REPLAY input exhausted at %s\n",n); _exit(12);} const In& i=ins[pos++]; if(i.k!=k){ fprintf(stderr,"REPLAY input kind mismatch at %s\n",n); _exit(12);} fprintf(stderr,"REPLAY in %s = %s\n",n,i.v.c_str()); return i; }
extern "C" {
long vp_int(const char* n,long lo,long hi){ long v=strtol(next(n,'i').v.c_str(),0,10); if(v<lo||v>hi) _exit(11); return v; }
long vp_choose(const char* n,long lo,long hi){ return vp_int(n,lo,hi); }
double vp_real(const char* n,double lo,double hi){ double v=strtod(next(n,'d').v.c_str(),0); if(!(v>=lo&&v<=hi)) _exit(11); return v; }
double vp_realint(const char* n,double lo,double hi){ return vp_real(n,lo,hi); }
double vp_fp64(const char* n){ return strtod(next(n,'d').v.c_str(),0); }
float vp_fp32(const char* n){ return (float)strtod(next(n,'d').v.c_str(),0); }
void vp_assume(bool c){ if(!c){ fprintf(stderr,"REPLAY assumption not met\n"); _exit(11);} }
void vp_assert(bool c,const char* w){ if(!c){ fprintf(stderr,"REPLAY VIOLATED %s\n",w); _exit(10);} }
void vp_assert_eq(double a,double b,const char* w){ double t=1e-7*(1+std::fabs(a)+std::fabs(b)); if(!(a==b||std::fabs(a-b)<=t)&&!(std::isnan(a)&&std::isnan(b))){ fprintf(stderr,"REPLAY VIOLATED %s (%.17g vs %.17g)\n",w,a,b); _exit(10);} }
void vp_assert_le(double a,double b,const char* w){ double t=1e-7*(1+std::fabs(a)+std::fabs(b)); if(!(a<=b+t)){ fprintf(stderr,"REPLAY VIOLATED %s (%.17g > %.17g)\n",w,a,b); _exit(10);} }
void vp_cover(const char*){} void vp_note(const char* t){ fprintf(stderr,"REPLAY note %s\n",t); }
}
int main(int c,char**v){
  if(c<3) return 2; FILE* f=fopen(v[2],"r"); if(!f) return 2; char k; char buf[256]; while(fscanf(f," %c %250s",&k,buf)==2) ins.push_back({k,buf}); fclose(f);
  auto e=(void(*)())dlsym(RTLD_DEFAULT,v[1]); if(!e){ fprintf(stderr,"no entry %s\n",v[1]); return 2; }
  try{ e(); } catch(std::exception& x){ fprintf(stderr,"REPLAY exception %s\n",x.what()); fflush(0); _exit(13);} catch(...){ fprintf(stderr,"REPLAY exception\n"); _exit(13);}
  fprintf(stderr,"REPLAY ok\n"); fflush(0); _exit(0); }
