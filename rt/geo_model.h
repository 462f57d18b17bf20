// Contract models of the third-party geometric predicates: tetgen's orient2d/orient3d return a value with the sign of the
// determinant; atan2 is only used to order directions, and is replaced by an order-preserving angle.
#pragma once
#include "tetgen.h"
REAL orient2d(const REAL* a,const REAL* b,const REAL* c){ return (a[0]-c[0])*(b[1]-c[1])-(a[1]-c[1])*(b[0]-c[0]); }
REAL orient3d(const REAL* a,const REAL* b,const REAL* c,const REAL* d,const bool&,const bool&,const REAL&){ REAL ax=a[0]-d[0],ay=a[1]-d[1],az=a[2]-d[2],bx=b[0]-d[0],by=b[1]-d[1],bz=b[2]-d[2],cx=c[0]-d[0],cy=c[1]-d[1],cz=c[2]-d[2]; return ax*(by*cz-bz*cy)+bx*(cy*az-cz*ay)+cx*(ay*bz-az*by); }
#if !defined(VP_NATIVE) && !defined(GEO_KEEP_ATAN2)
extern "C" double atan2(double y,double x){ if(y>=0){ if(x>=0) return x==0&&y==0? 0: y/(x+y); return 1-x/(y-x); } if(x<0) return -2+y/(x+y); return -1+x/(x-y); }
#endif
