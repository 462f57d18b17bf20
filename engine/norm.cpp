// Rational-function normal form of real terms: decides polynomial identities (with sqrt(x)^2 = x and sin^2+cos^2 = 1)
// without the solver. Only ever used to establish that a difference is identically constant.
#include "z3h.h"
#include <gmpxx.h>
#include <memory>
namespace sx {
typedef std::vector<std::pair<int,int>> Mono;
struct Poly { std::map<Mono,mpq_class> t; };
struct RF { Poly n,d; };
typedef std::shared_ptr<RF> RFP;
static const size_t LIM=1500;
struct TooBig{};
static std::unordered_map<Z3_ast,int> atomId; static std::vector<Z3_ast> atoms;
static std::unordered_map<Z3_ast,Z3_ast> sqrtDef; // y -> x
static std::unordered_map<int,Poly> sq;           // atom^2 = poly
static std::unordered_map<int,std::pair<int,Poly>> dummy;
static std::unordered_map<Z3_ast,RFP> memo;
static std::vector<std::pair<RFP,int>> sqrtCanon;
static std::vector<std::tuple<bool,RFP,int>> trigCanon; // (isSin, argument, atom)
void normRegSqrt(Z3_ast y, Z3_ast x){ sqrtDef[y]=x; }
static Poly pc(const mpq_class& c){ Poly p; if(c!=0) p.t[{}]=c; return p; }
static void addTo(Poly& a, const Mono& m, const mpq_class& c){ auto it=a.t.find(m); if(it==a.t.end()){ if(c!=0){ a.t.emplace(m,c); if(a.t.size()>LIM) throw TooBig(); } } else { it->second+=c; if(it->second==0) a.t.erase(it); } }
static Mono mm(const Mono& a,const Mono& b){ Mono r; size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j>=b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i>=a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first,a[i].second+b[j].second}); ++i;++j; } } return r; }
static Poly mul(const Poly& a,const Poly& b);
static Poly reduce(Poly p){ // rewrite squares of sqrt/sin atoms
  for(int guard=0;guard<40;++guard){ bool any=false; for(auto& kv: p.t) for(auto& e: kv.first) if(e.second>=2&&sq.count(e.first)){ any=true; break; } if(!any) return p;
    Poly r; for(auto& kv: p.t){ int at=-1; for(auto& e: kv.first) if(e.second>=2&&sq.count(e.first)){ at=e.first; break; } if(at<0){ addTo(r,kv.first,kv.second); continue; }
      Mono m; for(auto& e: kv.first){ if(e.first!=at) m.push_back(e); else if(e.second>2) m.push_back({at,e.second-2}); } for(auto& q: sq[at].t) addTo(r,mm(m,q.first),kv.second*q.second); }
    p=std::move(r); }
  throw TooBig(); }
static Poly mul(const Poly& a,const Poly& b){ if(a.t.size()*b.t.size()>60000) throw TooBig(); Poly r; for(auto&x:a.t) for(auto&y:b.t) addTo(r,mm(x.first,y.first),x.second*y.second); return sq.empty()?r:reduce(std::move(r)); }
static Poly add(const Poly& a,const Poly& b,int sgn=1){ Poly r=a; for(auto&y:b.t) addTo(r,y.first,sgn>0?y.second:mpq_class(-y.second)); return r; }
static bool isConst(const Poly& p,mpq_class& c){ if(p.t.empty()){ c=0; return true; } if(p.t.size()==1&&p.t.begin()->first.empty()){ c=p.t.begin()->second; return true; } return false; }
static bool eqp(const Poly&a,const Poly&b){ return a.t==b.t; }
static void tidy(RF& f){
  if(f.n.t.empty()){ f.d=pc(1); return; }
  mpq_class c; if(isConst(f.d,c)){ if(c!=1){ for(auto&x:f.n.t) x.second/=c; f.d=pc(1);} return; }
  // common monomial
  Mono g; bool first=true; auto meet=[&](const Poly& p){ for(auto&x:p.t){ if(first){ g=x.first; first=false; } else { Mono r; for(auto&e:g) for(auto&h:x.first) if(h.first==e.first) r.push_back({e.first,std::min(e.second,h.second)}); g=r; } if(g.empty()) return; } };
  meet(f.n); if(!g.empty()) meet(f.d);
  if(!g.empty()){ auto div=[&](Poly& p){ Poly r; for(auto&x:p.t){ Mono m; for(auto&e:x.first){ int k=e.second; for(auto&h:g) if(h.first==e.first) k-=h.second; if(k) m.push_back({e.first,k}); } r.t[m]=x.second; } p=r; }; div(f.n); div(f.d); }
  // make the denominator monic, detect proportional numerator
  mpq_class l=f.d.t.rbegin()->second; if(l!=1){ for(auto&x:f.n.t) x.second/=l; for(auto&x:f.d.t) x.second/=l; }
  if(isConst(f.d,c)){ if(c!=1) for(auto&x:f.n.t) x.second/=c; f.d=pc(1); return; }
  if(f.n.t.size()==f.d.t.size()){ mpq_class k=f.n.t.begin()->second/f.d.t.begin()->second; bool ok=true; auto i=f.n.t.begin(),j=f.d.t.begin(); for(;i!=f.n.t.end();++i,++j) if(i->first!=j->first||i->second!=k*j->second){ ok=false; break; } if(ok){ f.n=pc(k); f.d=pc(1); } } }
static RF rmul(const RF&a,const RF&b){ RF r; if(eqp(a.n,b.d)&&!a.n.t.empty()){ r.n=b.n; r.d=a.d; } else if(eqp(b.n,a.d)&&!b.n.t.empty()){ r.n=a.n; r.d=b.d; } else { r.n=mul(a.n,b.n); r.d=mul(a.d,b.d); } tidy(r); return r; }
static RF radd(const RF&a,const RF&b,int sgn){ RF r; if(eqp(a.d,b.d)){ r.n=add(a.n,b.n,sgn); r.d=a.d; } else { mpq_class c; r.n=add(mul(a.n,b.d),mul(b.n,a.d),sgn); r.d=mul(a.d,b.d); } tidy(r); return r; }
static int newAtom(Z3_ast a){ auto it=atomId.find(a); if(it!=atomId.end()) return it->second; int id=(int)atoms.size(); atoms.push_back(a); atomId[a]=id; return id; }
static RF var(int id){ RF f; f.n.t[{{id,1}}]=1; f.d=pc(1); return f; }
static RFP nf(Z3_ast a);
static RFP tryNf(Z3_ast a){ return nf(a); }
static bool same(const RFP&a,const RFP&b){ return a&&b&&((eqp(a->n,b->n)&&eqp(a->d,b->d))); }
static bool negated(const RFP&a,const RFP&b){ if(!a||!b||!eqp(a->d,b->d)||a->n.t.size()!=b->n.t.size()) return false; auto i=a->n.t.begin(); for(auto&x:b->n.t){ if(i->first!=x.first||i->second!=-x.second) return false; ++i; } return true; }
static RF leaf(Z3_ast a){
  auto sd=sqrtDef.find(a);
  if(sd!=sqrtDef.end()){ RFP x=tryNf(sd->second); if(x){ for(auto&c: sqrtCanon) if(same(c.first,x)){ // reuse the equal root, scaled by the denominator
          RF f=var(c.second); RF den; den.n=pc(1); den.d=x->d; return rmul(f,den); }
      mpq_class k; if(isConst(x->n,k)&&isConst(x->d,k)){ mpq_class v=x->n.t.empty()?mpq_class(0):x->n.t.begin()->second; if(v>=0){ mpz_class p=v.get_num(),q=v.get_den(); if(mpz_perfect_square_p(p.get_mpz_t())&&mpz_perfect_square_p(q.get_mpz_t())){ mpz_class rp,rq; mpz_sqrt(rp.get_mpz_t(),p.get_mpz_t()); mpz_sqrt(rq.get_mpz_t(),q.get_mpz_t()); RF f; f.n=pc(mpq_class(rp,rq)); f.d=pc(1); return f; } } }
      int id=newAtom(a); sq[id]=mul(x->n,x->d); sqrtCanon.push_back({x,id}); RF f=var(id); RF den; den.n=pc(1); den.d=x->d; return rmul(f,den); } }
  if(Z3_get_ast_kind(C,a)==Z3_APP_AST){ auto app=Z3_to_app(C,a); auto fd=Z3_get_app_decl(C,app); if(Z3_get_app_num_args(C,app)==1&&Z3_get_decl_kind(C,fd)==Z3_OP_UNINTERPRETED){ std::string n=Z3_get_symbol_string(C,Z3_get_decl_name(C,fd)); bool sn=n=="uf_sin", cs=n=="uf_cos";
      if(sn||cs){ RFP x=tryNf(Z3_get_app_arg(C,app,0)); if(x){ for(auto&c: trigCanon) if(std::get<0>(c)==sn){ if(same(std::get<1>(c),x)) return var(std::get<2>(c)); if(negated(std::get<1>(c),x)){ RF f=var(std::get<2>(c)); if(sn) f.n.t.begin()->second=-1; return f; } }
          // create the pair so that sin^2 can be rewritten
          int si=-1,ci=-1; for(auto&c: trigCanon) if(same(std::get<1>(c),x)||negated(std::get<1>(c),x)){ (std::get<0>(c)?si:ci)=std::get<2>(c); }
          int id=newAtom(a); (sn?si:ci)=id; trigCanon.push_back({sn,x,id}); if(si>=0&&ci>=0){ Poly p=pc(1); p.t[{{ci,2}}]=-1; sq[si]=p; memo.clear(); } return var(id); } } } }
  return var(newAtom(a)); }
static RFP nf(Z3_ast a){
  auto it=memo.find(a); if(it!=memo.end()) return it->second;
  RFP res; try {
    RF r; bool done=false;
    if(Z3_is_numeral_ast(C,a)){ mpq_class q(Z3_get_numeral_string(C,a)); q.canonicalize(); r.n=pc(q); r.d=pc(1); done=true; }
    else if(Z3_get_ast_kind(C,a)==Z3_APP_AST){ auto app=Z3_to_app(C,a); unsigned n=Z3_get_app_num_args(C,app); auto k=Z3_get_decl_kind(C,Z3_get_app_decl(C,app));
      auto arg=[&](unsigned i)->RFP{ RFP x=nf(Z3_get_app_arg(C,app,i)); if(!x) throw TooBig(); return x; };
      if(k==Z3_OP_ADD||k==Z3_OP_SUB){ r=*arg(0); for(unsigned i=1;i<n;++i) r=radd(r,*arg(i),k==Z3_OP_ADD?1:-1); done=true; }
      else if(k==Z3_OP_UMINUS){ r=*arg(0); for(auto&x:r.n.t) x.second=-x.second; done=true; }
      else if(k==Z3_OP_MUL){ r=*arg(0); for(unsigned i=1;i<n;++i) r=rmul(r,*arg(i)); done=true; }
      else if(k==Z3_OP_DIV){ r=*arg(0); RFP q=arg(1); if(q->n.t.empty()) throw TooBig(); RF iv; iv.n=q->d; iv.d=q->n; r=rmul(r,iv); done=true; } }
    if(!done) r=leaf(a);
    res=std::make_shared<RF>(std::move(r));
  } catch(TooBig&){ res=nullptr; }
  memo[a]=res; return res; }
// is the term identically constant?
bool normConst(Z3_ast a,double& v){ RFP x=nf(a); if(!x) return false; mpq_class c; if(!isConst(x->d,c)||!isConst(x->n,c)) return false; v=c.get_d(); return true; }
bool normDiffConst(Z3_ast a,Z3_ast b,double& v){ RFP x=nf(a),y=nf(b); if(!x||!y) return false; try{ RF r=radd(*x,*y,-1); mpq_class c; if(!isConst(r.d,c)) { if(r.n.t.empty()){ v=0; return true; } return false; } if(!isConst(r.n,c)) return false; v=c.get_d(); return true; } catch(TooBig&){ return false; } }

// Comparing a multiple of one root with a constant: the radicand is compared with the squared constant instead.
// out: 0 not of this form, 1 use lhs and rhs (flip: with the sides swapped), 2 the difference x-y is always positive, 3 always negative
int normSqrtCmp(Z3_ast a,Z3_ast b,Z3_ast& lhs,Z3_ast& rhs,bool& flip){ if(sqrtDef.empty()) return 0; RFP x=nf(a),y=nf(b); if(!x||!y) return 0;
  try{ RF r=radd(*x,*y,-1); mpq_class dc; if(!isConst(r.d,dc)||dc!=1||r.n.t.size()>2) return 0; mpq_class k=0,c=0; int id=-1; for(auto& kv:r.n.t){ if(kv.first.empty()) k=kv.second; else if(kv.first.size()==1&&kv.first[0].second==1&&id<0){ id=kv.first[0].first; c=kv.second; } else return 0; }
    if(id<0) return 0; auto sd=sqrtDef.find(atoms[id]); if(sd==sqrtDef.end()) return 0; RFP rad=nf(sd->second); mpq_class d1; if(!rad||!isConst(rad->d,d1)||d1!=1) return 0; k=-k/c; flip=c<0; if(k<0) return flip? 3: 2; lhs=sd->second; rhs=K(Z3_mk_numeral(C,mpq_class(k*k).get_str().c_str(),realS())); return 1; } catch(TooBig&){ return 0; } }

// Terms which are linear once expanded are written out as linear terms. Monomials of higher order whose coefficients are
// rounding residues of concrete numbers are over-approximated by one fresh value within their bound (given in side).
static std::unordered_map<Z3_ast,mpq_class> bound; // of atoms
void normBound(Z3_ast a,double lo,double hi){ bound[a]=mpq_class(std::max(std::fabs(lo),std::fabs(hi))); }
static std::unordered_map<Z3_ast,std::pair<Z3_ast,Z3_ast>> linMemo; static std::unordered_map<Z3_ast,bool> linSyn;
static bool synLinear(Z3_ast a){ auto it=linSyn.find(a); if(it!=linSyn.end()) return it->second; bool r=true;
  if(Z3_get_ast_kind(C,a)==Z3_APP_AST){ auto app=Z3_to_app(C,a); unsigned n=Z3_get_app_num_args(C,app); auto k=Z3_get_decl_kind(C,Z3_get_app_decl(C,app));
    if(k==Z3_OP_ADD||k==Z3_OP_SUB||k==Z3_OP_UMINUS||k==Z3_OP_MUL||k==Z3_OP_DIV){ int nn=0; for(unsigned i=0;i<n&&r;++i){ Z3_ast x=Z3_get_app_arg(C,app,i); if(!Z3_is_numeral_ast(C,x)){ ++nn; if(!synLinear(x)) r=false; } } if((k==Z3_OP_MUL&&nn>1)) r=false; if(k==Z3_OP_DIV&&n==2&&!Z3_is_numeral_ast(C,Z3_get_app_arg(C,app,1))) r=false; } }
  return linSyn[a]=r; }
static std::map<std::string,std::pair<Z3_ast,Z3_ast>> residues;
static Z3_ast qnum(const mpq_class& c){ return K(Z3_mk_numeral(C,c.get_str().c_str(),realS())); }
Z3_ast normLinear(Z3_ast a,Z3_ast& side){ side=nullptr; if(synLinear(a)) return a; auto it=linMemo.find(a); if(it!=linMemo.end()){ side=it->second.second; return it->second.first; }
  Z3_ast out=a; RFP x=nf(a); mpq_class dc;
  if(x&&isConst(x->d,dc)&&dc==1&&x->n.t.size()<=64){ bool ok=true, any=false; mpq_class B=0; std::string key; std::vector<Z3_ast> sum;
    static const mpq_class tiny(1,10000000000);
    for(auto& kv:x->n.t){ int deg=0; for(auto&e:kv.first) deg+=e.second; if(deg>=2){ mpq_class b=abs(kv.second); for(auto&e:kv.first){ auto f=bound.find(atoms[e.first]); if(f==bound.end()){ ok=false; break; } for(int k=0;k<e.second;++k) b*=f->second; key+=std::to_string(e.first)+"^"+std::to_string(e.second)+" "; } if(!ok) break; B+=b; key+=kv.second.get_str()+";"; any=true; if(B>tiny){ ok=false; break; } }
      else if(deg==0) sum.push_back(qnum(kv.second)); else { Z3_ast v[2]={qnum(kv.second),atoms[kv.first[0].first]}; sum.push_back(kv.second==1? v[1]: K(Z3_mk_mul(C,2,v))); } }
    if(ok){ if(any){ auto& r=residues[key]; if(!r.first){ r.first=freshConst("residue",realS()); Z3_ast b=qnum(B), nb=qnum(-B); r.second=mkAnd(K(Z3_mk_le(C,nb,r.first)),K(Z3_mk_le(C,r.first,b))); } sum.push_back(r.first); side=r.second; }
      out= sum.empty()? realNum(0): sum.size()==1? sum[0]: K(Z3_mk_add(C,(unsigned)sum.size(),sum.data())); } }
  linMemo[a]={out,side}; return out; }
}
