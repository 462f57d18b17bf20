// Convex shapes: corners, bounding half spaces, volume, centroid
struct H{ V3 n; double d; }; // n.x <= d
struct Shape{ std::vector<V3> v; std::vector<H> h; double vol; V3 c; int edges; };
static Shape shape(int k){ Shape s; auto& v=s.v; auto& h=s.h; switch(k){
  case 0: v={{0,0,0},{1,0,0},{0,1,0},{0,0,1}}; h={{{-1,0,0},0},{{0,-1,0},0},{{0,0,-1},0},{{1,1,1},1}}; s.vol=1./6; s.c={.25,.25,.25}; s.edges=6; break;
  case 1: for(int i=0;i<8;++i) v.push_back({(i&1)?2.:-1.,(i&2)?1.:-1.,(i&4)?.5:-1.}); h={{{1,0,0},2},{{-1,0,0},1},{{0,1,0},1},{{0,-1,0},1},{{0,0,1},.5},{{0,0,-1},1}}; s.vol=3*2*1.5; s.c={.5,0,-.25}; s.edges=12; break;
  case 2: v={{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}}; for(int i=0;i<8;++i) h.push_back({{(i&1)?1.:-1.,(i&2)?1.:-1.,(i&4)?1.:-1.},1}); s.vol=4./3; s.c={0,0,0}; s.edges=12; break;
  case 3: v={{2,0,-1},{1,2,-1},{-1,2,-1},{-2,0,-1},{-1,-2,-1},{1,-2,-1},{2,0,1},{1,2,1},{-1,2,1},{-2,0,1},{-1,-2,1},{1,-2,1}}; h={{{0,0,1},1},{{0,0,-1},1},{{0,1,0},2},{{0,-1,0},2},{{2,1,0},4},{{2,-1,0},4},{{-2,1,0},4},{{-2,-1,0},4}}; s.vol=2*12; s.c={0,0,0}; s.edges=18; break;
  case 4: v={{1,1,0},{1,-1,0},{-1,-1,0},{-1,1,0},{0,0,2}}; h={{{0,0,-1},0},{{2,0,1},2},{{-2,0,1},2},{{0,2,1},2},{{0,-2,1},2}}; s.vol=8./3; s.c={0,0,.5}; s.edges=8; break;
  default: { static const int P[3][2]={{1,2},{2,0},{0,1}}; for(int z=0;z<3;++z) for(int a=0;a<2;++a) for(int b=0;b<2;++b) for(int c=0;c<2;++c){ V3 x{0,0,0}; x[P[z][c]]=a?1:-1; x[P[z][1-c]]=b?2:-2; v.push_back(x); } for(int i=0;i<8;++i) h.push_back({{(i&1)?1.:-1.,(i&2)?1.:-1.,(i&4)?1.:-1.},3}); for(int i=0;i<6;++i){ V3 n{0,0,0}; n[i/2]=(i&1)?1:-1; h.push_back({n,2}); } s.vol=32; s.c={0,0,0}; s.edges=36; } }
  return s; }
static double dot3(const V3& a,const V3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static V3 sub(const V3& a,const V3& b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
static V3 crs(const V3& a,const V3& b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
template<class A> static V3 row(const A& a,int i){ return {a.val(i,0),a.val(i,1),a.val(i,2)}; }
// the corners of every facet, in order around its outward normal
static Faces facets(const Shape& s){ FV f; for(auto& h:s.h){ std::vector<ind_t> on; V3 c{0,0,0}; for(size_t i=0;i<s.v.size();++i) if(std::abs(dot3(h.n,s.v[i])-h.d)<1e-9) on.push_back(i); for(auto i:on) for(int k=0;k<3;++k) c[k]+=s.v[i][k]/on.size(); V3 x=sub(s.v[on[0]],c), y=crs(h.n,x); double ny=std::sqrt(dot3(y,y)/dot3(x,x)); auto ang=[&](ind_t i){ V3 d=sub(s.v[i],c); double a=std::atan2(dot3(d,y)/ny,dot3(d,x)); return i==on[0]? -10: a<0? a+100: a; }; std::sort(on.begin(),on.end(),[&](ind_t a,ind_t b){ return ang(a)<ang(b); }); f.push_back(on); } return Faces(f); }
