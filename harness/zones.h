// lattices and membership of the first zone, shared by the harnesses of Brillouin zones
#pragma once
#ifndef LINE_S
#define LINE_S 1.5
#endif
struct Case{ const char* sg; V3 len, ang; char c; int tr; }; // c: the centring letter; tr: time reversal
static const Case CASES[]={ {"P m -3 m",{1,1,1},{90,90,90},'P',1}, {"F m -3 m",{4,4,4},{90,90,90},'F',1}, {"I m -3 m",{1,1,1},{90,90,90},'I',1}, {"P m m m",{1,2,.5},{90,90,90},'P',1}, {"C m m m",{1,2,.5},{90,90,90},'C',0}, {"P 6/m m m",{1,1,1.5},{90,90,120},'P',1}, {"R -3 m",{1,1,2.5},{90,90,120},'R',1},
  {"P 1 2/m 1",{1,1.25,.75},{90,100,90},'P',0}, {"P -1",{1,1.25,.75},{80,100,95},'P',0}, {"A 1 2/m 1",{1,1.25,.75},{90,105,90},'A',1}, {"I 4/m m m",{1,1,2.5},{90,90,90},'I',1}, {"P 4/m",{1,1,.7},{90,90,90},'P',0},
  {"P 4",{3,3,5},{90,90,90},'P',0}, {"P 1",{1,1.25,.75},{80,100,95},'P',1}, {"P 3",{1,1,1.5},{90,90,120},'P',1}, {"F -4 3 m",{3,3,3},{90,90,90},'F',0}, {"I 2 3",{2,2,2},{90,90,90},'I',0}, {"P 2 2 2",{1,2,.5},{90,90,90},'P',0}, {"F m m m",{2,3,4},{90,90,90},'F',1}, {"P 6 2 2",{3,3,4},{90,90,120},'P',0} };
static const int NC=sizeof(CASES)/sizeof(*CASES);
static Lattice<double> make(const Case& c){ return Lattice<double>(LengthUnit::angstrom,c.len,c.ang,std::string(c.sg)); }
static BrillouinZone build(const Case& c,bool prim=true,bool wedge=true){ BrillouinZoneConfig cfg; cfg.primitive(prim); cfg.time_reversal(c.tr); cfg.wedge_search(wedge); return BrillouinZone(make(c),cfg); }
// is h,k,l a point of the reciprocal lattice of the centred lattice?
static bool even(double x){ return x==std::round(x/2)*2; }
static bool allowed(char c,double h,double k,double l){ switch(c){ case 'F': return even(h+k)&&even(k+l); case 'I': return even(h+k+l); case 'C': return even(h+k); case 'A': return even(k+l); case 'R': { double x=-h+k+l; return std::round(x/3)*3==x; } default: return true; } }
static int fold(char c){ return c=='F'? 4: c=='R'? 3: c=='P'? 1: 2; }
static const Case& pick(int n=NC){ return CASES[vp_choose("case",0,n-1)]; }
static LVec<double> vec(const Lattice<double>& l,const V3& q){ LVec<double> Q(LengthUnit::inverse_angstrom,l,1u); for(int i=0;i<3;++i) Q.val(0,i)=q[i]; return Q; }
static V3 at(const LVec<double>& q){ return {q.val(0,0),q.val(0,1),q.val(0,2)}; }
// points on a line through reciprocal space: all real s
static V3 line(int n){ static const V3 O[]={{0,0,0},{.25,.125,-.3},{.5,.5,.5},{1.2,-.7,.4}}, D[]={{1,.3,.2},{-.2,1,.4},{1,1,0},{.1,.3,1.1}}; int k=(int)vp_choose("line",0,n-1); double s=vp_real("s",-LINE_S,LINE_S); V3 q; for(int i=0;i<3;++i) q[i]=O[k][i]+s*D[k][i]; return q; }
// all points of a box
static V3 box(double w){ static const char* nm[3]={"x","y","z"}; V3 q; for(int i=0;i<3;++i) q[i]=vp_real(nm[i],-w,w); return q; }
static V3 mulT(const M9& r,const V3& q){ V3 o; for(int i=0;i<3;++i) o[i]=r[i]*q[0]+r[3+i]*q[1]+r[6+i]*q[2]; return o; }
// q is not further from the origin than from any other lattice point; lattice vectors whose midpoint is nearer to a third point can not matter
static void nearest(const Case& c,const Lattice<double>& l,const V3& q,bool prim,const char* what){ auto g=l.metric(LengthUnit::inverse_angstrom); struct G{ double v[3], m[3], n; }; std::vector<G> all; for(int h=-2;h<3;++h) for(int k=-2;k<3;++k) for(int m=-2;m<3;++m) if((h||k||m)&&(!prim||allowed(c.c,h,k,m))){ G x{{(double)h,(double)k,(double)m},{0,0,0},0}; for(int i=0;i<3;++i){ for(int j=0;j<3;++j) x.m[i]+=g[3*i+j]*x.v[j]; x.n+=x.m[i]*x.v[i]; } all.push_back(x); }
  bool ok=true; for(auto& x: all){ bool rel=true; for(auto& y: all) if(&x!=&y&&y.v[0]*x.m[0]+y.v[1]*x.m[1]+y.v[2]*x.m[2]>y.n*(1+1e-9)){ rel=false; break; } if(rel) ok=vp_and(ok,2*(q[0]*x.m[0]+q[1]*x.m[1]+q[2]*x.m[2])<=x.n*(1+1e-7)); } vp_assert(ok,what); }
