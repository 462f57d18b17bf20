#include <sys/resource.h>
#include "engine.h"
#include "z3h.h"
#include "exec.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <llvm/IR/Operator.h>
#include <llvm/Support/CommandLine.h>
namespace sx {
// ---------------------------------------------------------------- options
struct Opts { uint64_t maxSteps=200000000; unsigned maxForks=100000; double timeLimit=600; int jobs=1; uint64_t rlimit=0; std::string out; std::string entry; unsigned maxViol=3; bool hang=true; std::string solver="inc"; uint64_t maxPaths=~0ull; bool simp=true, norm=true; int samples=0; unsigned qtime=20; } O; static int nSamples=0;
struct Shared { std::atomic<int> active; std::atomic<int> stop; std::atomic<uint64_t> paths, forks, steps; std::atomic<int> viol; std::atomic<int> incomplete; std::atomic<uint64_t> maxDone; std::atomic<int> hangs; };
static bool deadlineOn=false; 
static Shared* SH; static double T0; static bool isRoot=true; static std::vector<pid_t> kids;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void fatal(const std::string& s){ fprintf(stderr,"ENGINE-FATAL: %s\n",s.c_str()); throw std::runtime_error(s); }
struct EndPath { const char* why; std::string msg; };
static std::vector<State*> work;
static std::set<std::string> funcsSeen, covers; static std::map<std::string,uint64_t> ended; static std::vector<std::string> notes;
static std::vector<std::string> outLines; static std::map<std::string,int> violCount; static uint64_t asserts=0, assertsSym=0, memChecks=0;
static std::string jesc(const std::string& s){ std::string r; for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c;} return r; }

// ---------------------------------------------------------------- solver
static Z3_solver solv; static std::vector<Z3_ast> stk;
static Z3_solver mkSolver(){ Z3_solver s; if(O.solver=="inc") s=Z3_mk_simple_solver(C); else s=Z3_mk_solver(C); Z3_solver_inc_ref(C,s); Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); if(O.rlimit) Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),(unsigned)O.rlimit); if(O.qtime) Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),O.qtime*1000); Z3_solver_set_params(C,s,p); return s; }
static void syncSolver(const std::vector<Z3_ast>& pc){
  size_t k=0; while(k<stk.size()&&k<pc.size()&&stk[k]==pc[k]) ++k;
  if(k<stk.size()){ Z3_solver_pop(C,solv,(unsigned)(stk.size()-k)); stk.resize(k); }
  for(;k<pc.size();++k){ Z3_solver_push(C,solv); Z3_solver_assert(C,solv,pc[k]); stk.push_back(pc[k]); } }
static Z3_model keepModel(Z3_solver s){ Z3_model m=Z3_solver_get_model(C,s); if(m) Z3_model_inc_ref(C,m); return m; }
// is pc && extra satisfiable? model returned when sat
static Z3_solver altSolver(const char* tac){ Z3_tactic t=Z3_mk_tactic(C,tac); Z3_tactic_inc_ref(C,t); Z3_solver s=Z3_mk_solver_from_tactic(C,t); Z3_solver_inc_ref(C,s); Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); if(O.rlimit) Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),(unsigned)(O.rlimit*4)); if(O.qtime) Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),O.qtime*1000); Z3_solver_set_params(C,s,p); return s; }
static Res query(const std::vector<Z3_ast>& pc, Z3_ast extra, Z3_model* mo){
  if(isFalse(extra)) return Res::Unsat;
  double t=now(); if(deadlineOn&&t-T0>O.timeLimit) throw EndPath{"timeout","time limit reached"}; QS.queries++;
  Z3_lbool r;
  if(O.solver=="inc"){
    syncSolver(pc); Z3_solver_push(C,solv); Z3_solver_assert(C,solv,extra); r=Z3_solver_check(C,solv); if(r==Z3_L_TRUE&&mo) *mo=keepModel(solv); Z3_solver_pop(C,solv,1);
  } else r=Z3_L_UNDEF;
  if(r==Z3_L_UNDEF){ // fall back to one-shot portfolios
    const char* tacs[]={ O.solver!="inc"? O.solver.c_str() : "default", "qfnra-nlsat", "smt" };
    for(auto* tc: tacs){ Z3_solver s=altSolver(tc); for(auto a: pc) Z3_solver_assert(C,s,a); Z3_solver_assert(C,s,extra); r=Z3_solver_check(C,s); if(r==Z3_L_TRUE&&mo) *mo=keepModel(s); Z3_solver_dec_ref(C,s); if(r!=Z3_L_UNDEF||(deadlineOn&&now()-T0>O.timeLimit)) break; }
  }
  QS.secs+=now()-t;
  if(r==Z3_L_TRUE){QS.sat++; return Res::Sat;} if(r==Z3_L_FALSE){QS.unsat++; return Res::Unsat;} QS.unknown++; return Res::Unknown; }
static void needModel(State& s){ if(s.model) return; Z3_model m=nullptr; Res r=query(s.pc,mkTrue(),&m); if(r==Res::Unsat) throw EndPath{"infeasible",""}; if(r==Res::Unknown){ SH->incomplete++; throw EndPath{"solver-unknown","path condition undecided"}; } s.model=m; }
static int evalBool(State& s, Z3_ast e){ needModel(s); Z3_ast o; if(!Z3_model_eval(C,s.model,e,true,&o)) return -1; Z3_inc_ref(C,o); Z3_lbool b=Z3_get_bool_value(C,o); if(b==Z3_L_UNDEF){ Z3_ast o2=Z3_simplify(C,o); Z3_inc_ref(C,o2); b=Z3_get_bool_value(C,o2);} return b==Z3_L_TRUE?1:b==Z3_L_FALSE?0:-1; }
static uint64_t evalBV(Z3_model m, Z3_ast e){ Z3_ast o; if(!Z3_model_eval(C,m,e,true,&o)) fatal("eval"); Z3_inc_ref(C,o); uint64_t v; if(!Z3_get_numeral_uint64(C,o,&v)) fatal("evalBV: "+std::string(Z3_ast_to_string(C,o))); return v; }
static void addPC(State& s, Z3_ast c){ if(!isTrue(c)) s.pc.push_back(c); }

// ---------------------------------------------------------------- values
static std::unordered_map<Z3_ast,Z3_ast> zextOf; // BV ast -> bool it encodes as 0/1
static std::unordered_map<Z3_ast,std::pair<int64_t,int64_t>> inRange; // declared input ranges (64 bit)
static Z3_ast bv(const Val& v){ if(v.k==KI) return bvNum(v.u,v.bits); if(v.k==KS) return v.a; if(v.k==KU) return v.bits==1? freshConst("undef",boolS()):freshConst("undef",bvS(v.bits)); throw EndPath{"unsupported","real/FP value used as integer bits"}; }
static Z3_ast bool2bv(Z3_ast b, unsigned n){ Z3_ast r=mkIte(b,bvNum(1,n),bvNum(0,n)); zextOf[r]=b; return r; }
static Val mkS(Z3_ast a, unsigned bits){ if(bits==1){ if(isTrue(a)) return Val::I(1,1); if(isFalse(a)) return Val::I(0,1); return Val::S(a,1);} if(bits<=64&&Z3_is_numeral_ast(C,a)){ uint64_t v; if(Z3_get_numeral_uint64(C,a,&v)) return Val::I(v,bits);} return Val::S(a,bits); }
static Val mkB(Z3_ast a){ return mkS(a,1); }
static Z3_ast rl(const Val& v){ if(v.k==KR) return v.a; if(v.k==KF){ double d=v.dbl(); if(!std::isfinite(d)) throw EndPath{"nonfinite","non-finite constant in real arithmetic"}; return realNum(d);} if(v.k==KU) return freshConst("undef",realS()); throw EndPath{"unsupported","cannot view value as real"}; }
static Z3_ast fp(const Val& v, unsigned bits){ if(v.k==KP) return v.a; if(v.k==KF) return fpNum(v.dbl(),bits); if(v.k==KS) return K(Z3_mk_fpa_to_fp_bv(C,v.a,fpS(bits))); if(v.k==KU) return freshConst("undef",fpS(bits)); throw EndPath{"unsupported","cannot view value as IEEE float"}; }
static Z3_ast rne(){ static Z3_ast r=K(Z3_mk_fpa_rne(C)); return r; }
static bool iteNum(Z3_ast a, Z3_ast& c, Z3_ast& x, Z3_ast& y){ if(Z3_get_ast_kind(C,a)!=Z3_APP_AST) return false; auto ap=Z3_to_app(C,a); if(Z3_get_decl_kind(C,Z3_get_app_decl(C,ap))!=Z3_OP_ITE) return false; x=Z3_get_app_arg(C,ap,1); y=Z3_get_app_arg(C,ap,2); c=Z3_get_app_arg(C,ap,0); if(!Z3_is_numeral_ast(C,x)||!Z3_is_numeral_ast(C,y)) return false; K(c);K(x);K(y); return true; }
static Z3_ast bvEq(Z3_ast a, Z3_ast b, unsigned bits){
  if(a==b) return mkTrue();
  if(bits>1){ if(Z3_is_numeral_ast(C,a)) std::swap(a,b);
    if(Z3_is_numeral_ast(C,b)){ Z3_ast c,x,y; if(iteNum(a,c,x,y)) return mkIte(c, x==b?mkTrue():mkFalse(), y==b?mkTrue():mkFalse());
      if(bits<=64) { uint64_t bv_; auto it=zextOf.find(a); if(it!=zextOf.end()&&Z3_get_numeral_uint64(C,b,&bv_)) return bv_==1? it->second : bv_==0? mkNot(it->second): mkFalse(); } }
    return mkEq(a,b); }
  // bools: iff
  if(isTrue(a)) return b; if(isTrue(b)) return a; if(isFalse(a)) return mkNot(b); if(isFalse(b)) return mkNot(a); return K(Z3_mk_iff(C,a,b)); }

static bool fullMask(uint64_t v, unsigned b){ return v==(b>=64?~0ull:((1ull<<b)-1)); }
static Val binop(unsigned op, const Val& a, const Val& b, unsigned bits){
  if(a.k==KU||b.k==KU){ // bit-field updates of uninitialised words (std::vector<bool>) keep the bits that are defined
    bool bit= op==Instruction::And||op==Instruction::Or||op==Instruction::Shl||op==Instruction::LShr||op==Instruction::Xor;
    if(!bit||bits>64||bits==1||(a.k==KU&&b.k==KU)||a.k==KA||b.k==KA) return Val::U(bits);
    auto mat=[&](const Val& v){ return v.k==KU? Val::S(freshConst("uninit",bvS(bits)),bits) : v; };
    return binop(op,mat(a),mat(b),bits); }
  if(a.k==KI&&b.k==KI&&bits<=64){
    uint64_t x=a.u,y=b.u; int64_t sx_=a.s(), sy=b.s();
    switch(op){
      case Instruction::Add: return Val::I(x+y,bits); case Instruction::Sub: return Val::I(x-y,bits); case Instruction::Mul: return Val::I(x*y,bits);
      case Instruction::UDiv: return Val::I(x/y,bits); case Instruction::URem: return Val::I(x%y,bits);
      case Instruction::SDiv: return sy==-1? Val::I(-(uint64_t)sx_,bits):Val::I((uint64_t)(sx_/sy),bits); case Instruction::SRem: return sy==-1?Val::I(0,bits):Val::I((uint64_t)(sx_%sy),bits);
      case Instruction::And: return Val::I(x&y,bits); case Instruction::Or: return Val::I(x|y,bits); case Instruction::Xor: return Val::I(x^y,bits);
      case Instruction::Shl: return y>=bits?Val::U(bits):Val::I(x<<y,bits); case Instruction::LShr: return y>=bits?Val::U(bits):Val::I(x>>y,bits); case Instruction::AShr: return y>=bits?Val::U(bits):Val::I((uint64_t)(sx_>>y),bits);
    } fatal("binop"); }
  if(bits==1){ Z3_ast x=bv(a), y=bv(b); switch(op){ case Instruction::And: case Instruction::Mul: return mkB(mkAnd(x,y)); case Instruction::Or: return mkB(mkOr(x,y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkB(mkNot(bvEq(x,y,1))); default: fatal("i1 binop"); } }
  // identities
  auto cst=[&](const Val& v, uint64_t c){ return v.k==KI&&v.u==c; };
  switch(op){
    case Instruction::Add: if(cst(a,0)) return b; if(cst(b,0)) return a; break;
    case Instruction::Sub: if(cst(b,0)) return a; if(a.k==KS&&b.k==KS&&a.a==b.a) return Val::I(0,bits); break;
    case Instruction::Mul: if(cst(a,1)) return b; if(cst(b,1)) return a; if((cst(a,0)||cst(b,0))&&bits<=64) return Val::I(0,bits); break;
    case Instruction::And: if((cst(a,0)||cst(b,0))&&bits<=64) return Val::I(0,bits); if(a.k==KI&&fullMask(a.u,bits)) return b; if(b.k==KI&&fullMask(b.u,bits)) return a; if(a.k==KS&&b.k==KS&&a.a==b.a) return a; if(b.k==KI&&b.u==1&&a.k==KS&&zextOf.count(a.a)) return a; break;
    case Instruction::Or: if(cst(a,0)) return b; if(cst(b,0)) return a; if(a.k==KS&&b.k==KS&&a.a==b.a) return a; break;
    case Instruction::Xor: if(cst(a,0)) return b; if(cst(b,0)) return a; if(a.k==KS&&b.k==KS&&a.a==b.a&&bits<=64) return Val::I(0,bits);
      if(b.k==KI&&b.u==1&&a.k==KS){auto it=zextOf.find(a.a); if(it!=zextOf.end()) return mkS(bool2bv(mkNot(it->second),bits),bits);} break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if(cst(b,0)) return a; break;
    case Instruction::UDiv: case Instruction::SDiv: if(cst(b,1)) return a; break;
  }
  Z3_ast x=bv(a), y=bv(b), r;
  if(op==Instruction::And||op==Instruction::Or||op==Instruction::Xor){ auto i=zextOf.find(x), j=zextOf.find(y); if(i!=zextOf.end()&&j!=zextOf.end()){ Z3_ast q= op==Instruction::And? mkAnd(i->second,j->second): op==Instruction::Or? mkOr(i->second,j->second): mkNot(bvEq(i->second,j->second,1)); return mkS(bool2bv(q,bits),bits);} }
  switch(op){
    case Instruction::Add: r=Z3_mk_bvadd(C,x,y); break; case Instruction::Sub: r=Z3_mk_bvsub(C,x,y); break; case Instruction::Mul: r=Z3_mk_bvmul(C,x,y); break;
    case Instruction::UDiv: r=Z3_mk_bvudiv(C,x,y); break; case Instruction::SDiv: r=Z3_mk_bvsdiv(C,x,y); break; case Instruction::URem: r=Z3_mk_bvurem(C,x,y); break; case Instruction::SRem: r=Z3_mk_bvsrem(C,x,y); break;
    case Instruction::And: r=Z3_mk_bvand(C,x,y); break; case Instruction::Or: r=Z3_mk_bvor(C,x,y); break; case Instruction::Xor: r=Z3_mk_bvxor(C,x,y); break;
    case Instruction::Shl: r=Z3_mk_bvshl(C,x,y); break; case Instruction::LShr: r=Z3_mk_bvlshr(C,x,y); break; case Instruction::AShr: r=Z3_mk_bvashr(C,x,y); break;
    default: fatal("binop op"); r=nullptr; }
  K(r); if(bits>64||Z3_is_numeral_ast(C,x)||Z3_is_numeral_ast(C,y)) r=K(Z3_simplify(C,r));
  return mkS(r,bits); }
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b){
  if(a.k==KU||b.k==KU) return Val::U(1);
  if(a.k==KI&&b.k==KI){ bool r; uint64_t x=a.u,y=b.u; int64_t s=a.s(),t=b.s(); switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=s>t;break; case CmpInst::ICMP_SGE:r=s>=t;break; case CmpInst::ICMP_SLT:r=s<t;break; case CmpInst::ICMP_SLE:r=s<=t;break; default: fatal("icmp"); r=false;} return Val::I(r,1); }
  unsigned n=a.bits; Z3_ast x=bv(a), y=bv(b);
  if(n==1&&p!=CmpInst::ICMP_EQ&&p!=CmpInst::ICMP_NE){ x=bool2bv(x,2); y=bool2bv(y,2); if(CmpInst::isSigned(p)){ p=CmpInst::getSwappedPredicate(p);} }
  switch(p){ case CmpInst::ICMP_EQ: return mkB(bvEq(x,y,n)); case CmpInst::ICMP_NE: return mkB(mkNot(bvEq(x,y,n)));
    default: break; }
  { // comparisons of ite-of-constants with constants
    Z3_ast c,u,v; auto num=[&](Z3_ast q){uint64_t w=0; Z3_get_numeral_uint64(C,q,&w); return Val::I(w,n);};
    if(n<=64&&n>1&&Z3_is_numeral_ast(C,y)&&iteNum(x,c,u,v)){ Val r1=icmp(p,num(u),num(y)), r2=icmp(p,num(v),num(y)); return mkB(mkIte(c,bv(r1),bv(r2))); }
    if(n<=64&&n>1&&Z3_is_numeral_ast(C,x)&&iteNum(y,c,u,v)){ Val r1=icmp(p,num(x),num(u)), r2=icmp(p,num(x),num(v)); return mkB(mkIte(c,bv(r1),bv(r2))); } }
  Z3_ast r; switch(p){ case CmpInst::ICMP_UGT:r=Z3_mk_bvugt(C,x,y);break; case CmpInst::ICMP_UGE:r=Z3_mk_bvuge(C,x,y);break; case CmpInst::ICMP_ULT:r=Z3_mk_bvult(C,x,y);break; case CmpInst::ICMP_ULE:r=Z3_mk_bvule(C,x,y);break; case CmpInst::ICMP_SGT:r=Z3_mk_bvsgt(C,x,y);break; case CmpInst::ICMP_SGE:r=Z3_mk_bvsge(C,x,y);break; case CmpInst::ICMP_SLT:r=Z3_mk_bvslt(C,x,y);break; case CmpInst::ICMP_SLE:r=Z3_mk_bvsle(C,x,y);break; default: fatal("icmp"); r=nullptr; }
  K(r); if(x==y||(n==1)) r=K(Z3_simplify(C,r)); return mkB(r); }
static bool nativeCmp(CmpInst::Predicate p, double x, double y){ bool un=std::isnan(x)||std::isnan(y); switch(p){ case CmpInst::FCMP_FALSE:return false; case CmpInst::FCMP_TRUE:return true; case CmpInst::FCMP_ORD:return !un; case CmpInst::FCMP_UNO:return un; case CmpInst::FCMP_OEQ:return x==y; case CmpInst::FCMP_ONE:return !un&&x!=y; case CmpInst::FCMP_OGT:return x>y; case CmpInst::FCMP_OGE:return x>=y; case CmpInst::FCMP_OLT:return x<y; case CmpInst::FCMP_OLE:return x<=y; case CmpInst::FCMP_UEQ:return un||x==y; case CmpInst::FCMP_UNE:return un||x!=y; case CmpInst::FCMP_UGT:return un||x>y; case CmpInst::FCMP_UGE:return un||x>=y; case CmpInst::FCMP_ULT:return un||x<y; case CmpInst::FCMP_ULE:return un||x<=y; default: fatal("fcmp"); return false; } }
static State* CUR=nullptr; static void assumeFresh(State& s, Z3_ast c);
static Z3_ast linear(Z3_ast x){ if(!O.norm||!CUR) return x; Z3_ast side; Z3_ast r=normLinear(x,side); if(side){ for(auto p: CUR->pc) if(p==side) return r; assumeFresh(*CUR,side); } return r; }
static std::unordered_map<Z3_ast,Z3_ast> absOf; // |x| -> x
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b){
  if(a.k==KU||b.k==KU) return Val::U(1);
  if(a.k==KF&&b.k==KF) return Val::I(nativeCmp(p,a.dbl(),b.dbl()),1);
  if(a.k==KR||b.k==KR){
    if(a.k==KF&&!std::isfinite(a.dbl())) return Val::I(nativeCmp(p,a.dbl(),0.0),1);
    if(b.k==KF&&!std::isfinite(b.dbl())) return Val::I(nativeCmp(p,0.0,b.dbl()),1);
    Z3_ast x=rl(a), y=rl(b); 
    if(x==y) return Val::I(nativeCmp(p,0.0,0.0),1);
    if(O.norm){ double dv; if(normDiffConst(x,y,dv)) return Val::I(nativeCmp(p,dv,0.0),1); }
    { double xd,yd; if(realConst(x,xd)&&realConst(y,yd)&&xd!=yd) return Val::I(nativeCmp(p,xd,yd),1); }
    if(O.norm) for(int w=0;w<2;++w){ auto it=absOf.find(w? y: x); if(it==absOf.end()) continue; Z3_ast in=it->second,l,r; bool f; if(!normSqrtCmp(in,realNum(0),l,r,f)) continue; // |root - constant|: one comparison for each sign
      Val ge=fcmp(CmpInst::FCMP_OGE,Val::R(in,64),Val::F(0)), P=Val::R(in,64), N=Val::R(K(Z3_mk_unary_minus(C,in)),64), q1=w? fcmp(p,a,P): fcmp(p,P,b), q2=w? fcmp(p,a,N): fcmp(p,N,b); if(ge.k==KI) return ge.u? q1: q2; return mkB(mkIte(bv(ge),bv(q1),bv(q2))); }
    if(O.norm){ Z3_ast l,r; bool f; int q=normSqrtCmp(x,y,l,r,f); if(q>1) return Val::I(nativeCmp(p,q==2? 1.0: -1.0,0.0),1); if(q==1){ x=f? r: l; y=f? l: r; } }
    { Z3_ast df[2]={x,y}; Z3_ast dd=K(Z3_mk_sub(C,2,df)), l=linear(dd); if(l!=dd){ x=l; y=realNum(0); } }
    switch(p){ case CmpInst::FCMP_FALSE:case CmpInst::FCMP_UNO:return Val::I(0,1); case CmpInst::FCMP_TRUE:case CmpInst::FCMP_ORD:return Val::I(1,1);
      case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:return mkB(mkEq(x,y)); case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:return mkB(mkNot(mkEq(x,y)));
      case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:return mkB(K(Z3_mk_gt(C,x,y))); case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:return mkB(K(Z3_mk_ge(C,x,y)));
      case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:return mkB(K(Z3_mk_lt(C,x,y))); case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:return mkB(K(Z3_mk_le(C,x,y))); default: fatal("fcmp"); } }
  Z3_ast x=fp(a,a.bits), y=fp(b,b.bits); auto un=[&]{return mkOr(K(Z3_mk_fpa_is_nan(C,x)),K(Z3_mk_fpa_is_nan(C,y)));};
  switch(p){ case CmpInst::FCMP_FALSE:return Val::I(0,1); case CmpInst::FCMP_TRUE:return Val::I(1,1); case CmpInst::FCMP_UNO:return mkB(un()); case CmpInst::FCMP_ORD:return mkB(mkNot(un()));
    case CmpInst::FCMP_OEQ:return mkB(K(Z3_mk_fpa_eq(C,x,y))); case CmpInst::FCMP_UNE:return mkB(mkNot(K(Z3_mk_fpa_eq(C,x,y)))); case CmpInst::FCMP_UEQ:return mkB(mkOr(un(),K(Z3_mk_fpa_eq(C,x,y)))); case CmpInst::FCMP_ONE:return mkB(mkAnd(mkNot(un()),mkNot(K(Z3_mk_fpa_eq(C,x,y)))));
    case CmpInst::FCMP_OGT:return mkB(K(Z3_mk_fpa_gt(C,x,y))); case CmpInst::FCMP_OGE:return mkB(K(Z3_mk_fpa_geq(C,x,y))); case CmpInst::FCMP_OLT:return mkB(K(Z3_mk_fpa_lt(C,x,y))); case CmpInst::FCMP_OLE:return mkB(K(Z3_mk_fpa_leq(C,x,y)));
    case CmpInst::FCMP_UGT:return mkB(mkNot(K(Z3_mk_fpa_leq(C,x,y)))); case CmpInst::FCMP_UGE:return mkB(mkNot(K(Z3_mk_fpa_lt(C,x,y)))); case CmpInst::FCMP_ULT:return mkB(mkNot(K(Z3_mk_fpa_geq(C,x,y)))); case CmpInst::FCMP_ULE:return mkB(mkNot(K(Z3_mk_fpa_gt(C,x,y)))); default: fatal("fcmp"); } return Val(); }
static Val cfp(double d, unsigned bits){ return bits==32?Val::F32((float)d):Val::F(d); }
// |x| as a factor: x or -x where the path condition decides which
static Z3_ast plainAbs(Z3_ast a){ auto it=absOf.find(a); if(it==absOf.end()||!CUR) return a; Z3_ast x=it->second, z=realNum(0), ge=K(Z3_mk_ge(C,x,z)), le=K(Z3_mk_le(C,x,z)), ng=K(Z3_mk_unary_minus(C,x)); for(auto c: CUR->pc){ if(c==ge) return x; if(c==le) return ng; } int b=evalBool(*CUR,ge); if(b<0) return a; if(query(CUR->pc,mkNot(b? ge: le),nullptr)!=Res::Unsat) return a; return b? x: ng; }
static Val fbin(unsigned op, const Val& a, const Val& b, unsigned bits){
  if(a.k==KU||b.k==KU) return Val::U(bits);
  if(a.k==KF&&b.k==KF){ if(bits==32){ float x=(float)a.dbl(), y=(float)b.dbl(), r=0; switch(op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;case Instruction::FRem:r=fmodf(x,y);break;} return Val::F32(r);} 
    double x=a.dbl(), y=b.dbl(), r=0; switch(op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;case Instruction::FRem:r=fmod(x,y);break;} return Val::F(r); }
  if(a.k==KR||b.k==KR){
    auto z=[&](const Val& v,double c){return v.k==KF&&v.dbl()==c;};
    switch(op){ case Instruction::FAdd: if(z(a,0)) return b; if(z(b,0)) return a; break; case Instruction::FSub: if(z(b,0)) return a; if(a.k==KR&&b.k==KR&&a.a==b.a) return cfp(0,bits); break;
      case Instruction::FMul: if(z(a,0)||z(b,0)) return cfp(0,bits); if(z(a,1)) return b; if(z(b,1)) return a; break; case Instruction::FDiv: if(z(b,1)) return a; if(z(a,0)) return cfp(0,bits); break; }
    if(op==Instruction::FDiv&&b.k==KF&&std::isinf(b.dbl())) return cfp(0,bits);
    Z3_ast x=rl(a), y=rl(b); if(O.norm&&op==Instruction::FMul&&a.k==KR&&b.k==KR&&x!=y){ x=plainAbs(x); y=plainAbs(y); } Z3_ast v[2]={x,y}; Z3_ast r;
    switch(op){ case Instruction::FAdd:r=Z3_mk_add(C,2,v);break; case Instruction::FSub:r=Z3_mk_sub(C,2,v);break; case Instruction::FMul:r=Z3_mk_mul(C,2,v);break; case Instruction::FDiv:r=Z3_mk_div(C,x,y);break; default: throw EndPath{"unsupported","frem on reals"}; }
    return Val::R(K(r),bits); }
  Z3_ast x=fp(a,bits), y=fp(b,bits), r; switch(op){ case Instruction::FAdd:r=Z3_mk_fpa_add(C,rne(),x,y);break; case Instruction::FSub:r=Z3_mk_fpa_sub(C,rne(),x,y);break; case Instruction::FMul:r=Z3_mk_fpa_mul(C,rne(),x,y);break; case Instruction::FDiv:r=Z3_mk_fpa_div(C,rne(),x,y);break; default: throw EndPath{"unsupported","frem on IEEE"}; }
  return Val::P(K(r),bits); }
static Val selectV(Z3_ast c, const Val& a, const Val& b){
  if(isTrue(c)) return a; if(isFalse(c)) return b;
  if(a.k==KU) return b; if(b.k==KU) return a;
  if(a.k==KA){ std::vector<Val> v; for(size_t i=0;i<a.agg->size();++i) v.push_back(selectV(c,(*a.agg)[i],(*b.agg)[i])); return Val::A(std::move(v)); }
  if(a.k==b.k&&a.k==KI&&a.u==b.u) return a; if(a.k==b.k&&a.k==KF&&a.u==b.u) return a;
  if(a.k==KP||b.k==KP) return Val::P(mkIte(c,fp(a,a.bits),fp(b,b.bits)),a.bits);
  if(a.k==KR||b.k==KR||a.k==KF||b.k==KF){
    // integer-typed view of a real (memcpy lowering): other side may be raw integer bits
    auto fix=[&](const Val& v){ if(v.k==KI){ Val w; w.k=KF; w.bits=v.bits; w.u=v.u; return w;} return v; };
    Val x=fix(a), y=fix(b); return Val::R(mkIte(c,rl(x),rl(y)),a.bits); }
  Z3_ast r=mkIte(c,bv(a),bv(b)); 
  if(a.bits>1){ auto tb=[&](const Val&v,Z3_ast&o){ if(v.k==KI&&v.u<2){o=v.u?mkTrue():mkFalse();return true;} if(v.k==KS){auto it=zextOf.find(v.a); if(it!=zextOf.end()){o=it->second;return true;}} return false;}; Z3_ast p,q; if(tb(a,p)&&tb(b,q)) { Z3_ast bb=mkIte(c,p,q); r=bool2bv(bb,a.bits);} }
  return mkS(r,a.bits); }

// ---------------------------------------------------------------- memory
static uint64_t nextGlob=0x10000000ull;
static ObjP newObj(State& s, uint64_t size, OKind k, const char* nm, uint64_t align=16){
  uint64_t& nx = (k==OSTACK)? s.nextStack : (k==OHEAP)? s.nextHeap : nextGlob;
  if(align<16) align=16; nx=(nx+align-1)/align*align; auto o=std::make_shared<Obj>(); o->base=nx; o->size=size; o->kind=k; o->name=nm; if(size>(1ull<<28)) throw EndPath{"unsupported","allocation larger than 256 MB"}; o->b.assign(size,0); o->m.assign(size,0);
  nx+=size+32; s.mem[o->base]=o; return o; }
static ObjP* findObj(State& s, uint64_t a){ auto it=s.mem.upper_bound(a); if(it==s.mem.begin()) return nullptr; --it; if(a-it->first<=it->second->size) return &it->second; return nullptr; }
static Obj& wr(ObjP& p){ if(p.use_count()>1) p=std::make_shared<Obj>(*p); return *p; }
static void clearOv(Obj& o, uint64_t off, uint64_t n){
  if(o.cells.empty()) return; auto it=o.cells.lower_bound(off>=64?off-64:0); 
  while(it!=o.cells.end()&&it->first<off+n){ uint32_t c=it->first, w=it->second.n; if(c+w<=off){++it;continue;}
    if(c>=off&&c+w<=off+n){ it=o.cells.erase(it); continue; }
    Val v=it->second.v; it=o.cells.erase(it);
    if(v.k!=KS) { for(uint32_t i=0;i<w;++i) if(c+i<off||c+i>=off+n) o.m[c+i]=0; continue; }
    for(uint32_t i=0;i<w;++i) if(c+i<off||c+i>=off+n){ o.cells[c+i]={mkS(K(Z3_simplify(C,K(Z3_mk_extract(C,8*i+7,8*i,v.a)))),8),1}; if(o.cells[c+i].v.k==KI){o.b[c+i]=(uint8_t)o.cells[c+i].v.u;o.m[c+i]=1;o.cells.erase(c+i);} else o.m[c+i]=2; }
    it=o.cells.lower_bound(off>=64?off-64:0); } }
static void wrVal(Obj& o, uint64_t off, unsigned n, const Val& v){
  clearOv(o,off,n);
  if(n==10&&v.k==KF){ memset(&o.b[off],0,n); memcpy(&o.b[off],&v.u,8); memset(&o.m[off],1,n); return; } // long double is modelled with the precision of double
  if(v.k==KI||v.k==KF){ memcpy(&o.b[off],&v.u,n); memset(&o.m[off],1,n); return; }
  if(v.k==KU){ memset(&o.m[off],0,n); return; }
  Val w=v; if(v.k==KS&&v.bits!=n*8){ if(v.bits==1) w=Val::S(bool2bv(v.a,n*8),n*8); else w=Val::S(K(Z3_mk_zero_ext(C,n*8-v.bits,v.a)),n*8); }
  o.cells[(uint32_t)off]={w,n}; memset(&o.m[off],2,n); }
static Val rdVal(Obj& o, uint64_t off, unsigned n, Type* t){
  unsigned bits=typeBits(t); bool isf=t->isFloatingPointTy();
  bool any0=false,any1=false,any2=false; for(unsigned i=0;i<n;++i){ auto m=o.m[off+i]; any0|=m==0; any1|=m==1; any2|=m==2; }
  if(!any2&&!any0&&isf&&bits==80){ Val v; v.k=KF; v.bits=64; memcpy(&v.u,&o.b[off],8); return v; }
  if(!any2&&!any0){ if(n<=8){ uint64_t u=0; memcpy(&u,&o.b[off],n); if(isf){ Val v; v.k=KF; v.bits=bits; v.u=u; return v;} return Val::I(u,bits);} 
    Z3_ast e=nullptr; for(unsigned i=0;i<n;++i){ Z3_ast b=bvNum(o.b[off+i],8); e= e? K(Z3_mk_concat(C,b,e)):b; } return Val::S(K(Z3_simplify(C,e)),n*8); }
  if(!any1&&!any2) return Val::U(bits);
  auto it=o.cells.find((uint32_t)off);
  if(it!=o.cells.end()&&it->second.n==n){ Val v=it->second.v; if(isf){ if(v.k==KS) return Val::P(K(Z3_mk_fpa_to_fp_bv(C,v.a,fpS(bits))),bits); return v; }
    if(bits==1&&v.k==KS){ auto z=zextOf.find(v.a); if(z!=zextOf.end()) return mkB(z->second); return mkB(bvEq(K(Z3_mk_extract(C,0,0,v.a)),bvNum(1,1)==mkTrue()?K(Z3_mk_unsigned_int64(C,1,bvS(1))):nullptr,2)); }
    if(v.k==KS&&bits<v.bits) return mkS(K(Z3_mk_extract(C,bits-1,0,v.a)),bits);
    return v; }
  // assemble bytes
  Z3_ast e=nullptr; for(unsigned i=0;i<n;++i){ Z3_ast b=nullptr; uint64_t q=off+i; if(o.m[q]==1) b=bvNum(o.b[q],8); else if(o.m[q]==0) b=freshConst("uninit",bvS(8)); else { auto c=o.cells.upper_bound((uint32_t)q); --c; Val& v=c->second.v; if(v.k!=KS){ if(v.k==KP) { Z3_ast x=K(Z3_mk_fpa_to_ieee_bv(C,v.a)); unsigned k=(unsigned)(q-c->first); b=K(Z3_mk_extract(C,8*k+7,8*k,x)); } else throw EndPath{"unsupported","partial read of a symbolic real"}; } else { unsigned k=(unsigned)(q-c->first); b= c->second.n==1? v.a : K(Z3_mk_extract(C,8*k+7,8*k,v.a)); } }
    e= e? K(Z3_mk_concat(C,b,e)) : b; }
  e=K(Z3_simplify(C,e));
  if(isf){ Val q=mkS(e,bits); if(q.k==KI){ q.k=KF; return q;} return Val::P(K(Z3_mk_fpa_to_fp_bv(C,e,fpS(bits))),bits);} if(bits==1) return mkB(mkEq(K(Z3_mk_extract(C,0,0,e)),K(Z3_mk_unsigned_int64(C,1,bvS(1))))); if(bits<n*8) e=K(Z3_simplify(C,K(Z3_mk_extract(C,bits-1,0,e)))); return mkS(e,bits); }

// ---------------------------------------------------------------- violations
static std::string locOf(const Instruction* I){ if(!I) return ""; if(auto* dl=I->getDebugLoc().get()){ std::string r; const DILocation* l=dl; int n=0; while(l&&n<4){ if(n) r+=" <- "; r+=l->getFilename().str()+":"+std::to_string(l->getLine()); l=l->getInlinedAt(); ++n;} return r;} return I->getFunction()->getName().str(); }
static std::string hexd(double d){ char b[64]; snprintf(b,64,"%a",d); return b; }
static std::string modelInputs(State& s, Z3_model m){ std::string r="["; bool first=true; for(auto& in: s.inputs){ if(!first) r+=","; first=false; r+="{\"k\":\""; r+=in.kind; r+="\",\"n\":\""+jesc(in.name)+"\",\"v\":\"";
    Val v=in.v; if(v.k==KI){ r+=std::to_string(v.s()); } else if(v.k==KF){ r+=hexd(v.dbl()); } else if(v.k==KS){ Z3_ast a=v.bits==1?bool2bv(v.a,8):v.a; uint64_t u=evalBV(m,a); r+=std::to_string(Val::I(u,v.bits==1?8:v.bits).s()); }
    else if(v.k==KR){ Z3_ast o; Z3_model_eval(C,m,v.a,true,&o); Z3_inc_ref(C,o); double d=0; if(Z3_is_numeral_ast(C,o)) d=Z3_get_numeral_double(C,o); else { Z3_ast lo=Z3_get_algebraic_number_lower(C,o,20); Z3_inc_ref(C,lo); d=Z3_get_numeral_double(C,lo);} r+=hexd(d); }
    else if(v.k==KP){ Z3_ast o; Z3_model_eval(C,m,v.a,true,&o); Z3_inc_ref(C,o); double d; Z3_ast b=K(Z3_simplify(C,K(Z3_mk_fpa_to_ieee_bv(C,o)))); uint64_t u=0; if(Z3_fpa_is_numeral_nan(C,o)) d=NAN; else { Z3_get_numeral_uint64(C,b,&u); if(v.bits==64) memcpy(&d,&u,8); else { float f; uint32_t t=(uint32_t)u; memcpy(&f,&t,4); d=f; } } r+=hexd(d); }
    r+="\"}"; } return r+"]"; }
static void report(State& s, Z3_model m, const char* kind, const std::string& msg, const Instruction* I){
  std::string key=std::string(kind)+"|"+msg; if(violCount[key]++>=(int)O.maxViol) return; SH->viol++;
  std::string fn; if(I){ fn=demangle(I->getFunction()->getName().str()); }
  std::string l="{\"type\":\"violation\",\"kind\":\""+std::string(kind)+"\",\"msg\":\""+jesc(msg)+"\",\"loc\":\""+jesc(locOf(I))+"\",\"fn\":\""+jesc(fn.substr(0,200))+"\",\"inputs\":"+modelInputs(s,m)+",\"trace\":["; for(size_t i=0;i<s.trace.size();++i) l+=(i?",\"":"\"")+jesc(s.trace[i])+"\""; 
  std::string st; for(size_t i=0;i<s.st.size()&&i<12;++i){ auto& fr=s.st[s.st.size()-1-i]; st+= (i?",\"":"\"")+jesc(demangle(fr.f->name).substr(0,160))+"\""; }
  l+="],\"stack\":["+st+"]}"; outLines.push_back(l); }
static void flushOut(){ if(outLines.empty()) return; std::string all; for(auto&l:outLines) all+=l+"\n"; int fd=open(O.out.c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); ssize_t w=write(fd,all.data(),all.size()); (void)w; close(fd); outLines.clear(); }

// ---------------------------------------------------------------- forking
static void maybeShare();
static State* clone(State& s){ State* n=new State(s); n->forks++; SH->forks++; return n; }
static void pushWork(State* n){ work.push_back(n); }
// decide a symbolic boolean; forks when both sides are feasible. Returns the value taken here; `onOther` receives the clone for the other side.
static bool decide(State& s, Z3_ast c, const std::function<void(State&)>& onOther){
  int v=evalBool(s,c); if(v<0){ SH->incomplete++; throw EndPath{"solver-unknown","model evaluation"}; }
  Z3_ast mine=v?c:mkNot(c), oth=v?mkNot(c):c; Z3_model m=nullptr; Res r=query(s.pc,oth,&m);
  if(r==Res::Unsat) return v;
  State* n=clone(s); addPC(*n,oth); n->model=m; // unknown: model null, resolved later
  onOther(*n); pushWork(n); addPC(s,mine); maybeShare(); return v; }
static uint64_t concretizeV(State& s, Val v){ // v KS; forks a re-executing clone for other values; returns value
  needModel(s); Z3_ast a=v.bits==1?bool2bv(v.a,8):v.a; unsigned n=v.bits==1?8:v.bits; uint64_t x=evalBV(s.model,a); Z3_ast eq=bvEq(a,bvNum(x,n),n); Z3_model m=nullptr; Res r=query(s.pc,mkNot(eq),&m);
  if(r!=Res::Unsat){ State* c=clone(s); addPC(*c,mkNot(eq)); c->model=m; pushWork(c); addPC(s,eq); maybeShare(); }
  return x; }
static Val& reg(State& s, int slot){ return s.st.back().r[slot]; }
static Val get(State& s, const Opnd& o){ return o.slot>=0? s.st.back().r[o.slot] : o.c; }
static uint64_t concOp(State& s, const Opnd& o){ Val v=get(s,o); if(v.k==KI) return v.u; if(v.k==KU) throw EndPath{"undef","undefined value where a concrete one is required"}; if(v.k!=KS) throw EndPath{"unsupported","non-integer concretisation"}; uint64_t x=concretizeV(s,v); if(o.slot>=0) reg(s,o.slot)=Val::I(x,v.bits); return x; }
[[noreturn]] static void memErr(State& s, const std::string& msg, const Instruction* I){ needModel(s); report(s,s.model,"memory",msg,I); throw EndPath{"violation",msg}; }
struct Loc { ObjP* o; uint64_t off; Z3_ast soff; };
static Loc resolve(State& s, const Opnd& po, uint64_t n, const Instruction* I, bool allowSym){
  Val p=get(s,po); memChecks++;
  if(p.k==KU) memErr(s,"access through an uninitialised pointer",I);
  if(p.k==KI){ ObjP* o=findObj(s,p.u); if(!o||p.u+n>(*o)->base+(*o)->size){ memErr(s, p.u<4096?"null pointer access":"out-of-bounds or freed memory access",I); } return {o,p.u-(*o)->base,nullptr}; }
  if(p.k!=KS) throw EndPath{"unsupported","pointer from real"};
  needModel(s); uint64_t a=evalBV(s.model,p.a); ObjP* o=findObj(s,a); if(!o||a+n>(*o)->base+(*o)->size) { memErr(s,"out-of-bounds or freed memory access (symbolic address)",I);} 
  uint64_t lo=(*o)->base, hi=lo+(*o)->size-n; Z3_ast in=mkAnd(K(Z3_mk_bvuge(C,p.a,bvNum(lo,64))),K(Z3_mk_bvule(C,p.a,bvNum(hi,64))));
  Z3_model m=nullptr; Res r=query(s.pc,mkNot(in),&m); if(r!=Res::Unsat){ State* c=clone(s); addPC(*c,mkNot(in)); c->model=m; pushWork(c); addPC(s,in); o=findObj(s,a); }
  if(allowSym&&(*o)->size/n<=512){ Z3_ast off=K(Z3_mk_bvsub(C,p.a,bvNum(lo,64))); uint64_t mo=a-lo; if(n==1) return {o,mo,off};
    if((n&(n-1))==0){ unsigned sh=0; while((1u<<sh)<n) ++sh; Z3_ast low=K(Z3_mk_extract(C,sh-1,0,off)); Z3_ast al=mkEq(low,bvNum(mo&(n-1),sh==1?1:sh)==mkTrue()||sh>1? (sh==1?K(Z3_mk_unsigned_int64(C,mo&1,bvS(1))):bvNum(mo&(n-1),sh)) : K(Z3_mk_unsigned_int64(C,mo&1,bvS(1)))); if(query(s.pc,mkNot(al),nullptr)==Res::Unsat) return {o,mo,off}; } }
  uint64_t x=concretizeV(s,p); if(po.slot>=0) reg(s,po.slot)=Val::I(x,64); o=findObj(s,x); if(!o||x+n>(*o)->base+(*o)->size) memErr(s,"out-of-bounds or freed memory access",I); return {o,x-(*o)->base,nullptr}; }
static Val loadScalar(State& s, const Opnd& po, uint64_t extra, Type* t, const Instruction* I);
static Val loadAt(State& s, ObjP* o, uint64_t off, Type* t){
  if(auto* st=dyn_cast<StructType>(t)){ auto* L=DL->getStructLayout(st); std::vector<Val> v; for(unsigned i=0;i<st->getNumElements();++i) v.push_back(loadAt(s,o,off+L->getElementOffset(i),st->getElementType(i))); return Val::A(std::move(v)); }
  if(auto* at=dyn_cast<ArrayType>(t)){ uint64_t e=DL->getTypeAllocSize(at->getElementType()); std::vector<Val> v; for(unsigned i=0;i<at->getNumElements();++i) v.push_back(loadAt(s,o,off+i*e,at->getElementType())); return Val::A(std::move(v)); }
  if(auto* vt=dyn_cast<FixedVectorType>(t)){ uint64_t e=DL->getTypeStoreSize(vt->getElementType()); std::vector<Val> v; for(unsigned i=0;i<vt->getNumElements();++i) v.push_back(loadAt(s,o,off+i*e,vt->getElementType())); return Val::A(std::move(v)); }
  return rdVal(**o,off,(unsigned)DL->getTypeStoreSize(t),t); }
static void storeAt(State& s, ObjP* o, uint64_t off, Type* t, const Val& v){
  if(v.k==KA||t->isAggregateType()||t->isVectorTy()){
    auto el=[&](unsigned i){ return v.k==KA? (*v.agg)[i] : Val(); };
    if(auto* st=dyn_cast<StructType>(t)){ auto* L=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();++i) storeAt(s,o,off+L->getElementOffset(i),st->getElementType(i),el(i)); return; }
    if(auto* at=dyn_cast<ArrayType>(t)){ uint64_t e=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();++i) storeAt(s,o,off+i*e,at->getElementType(),el(i)); return; }
    if(auto* vt=dyn_cast<FixedVectorType>(t)){ uint64_t e=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();++i) storeAt(s,o,off+i*e,vt->getElementType(),el(i)); return; } }
  wrVal(wr(*o),off,(unsigned)DL->getTypeStoreSize(t),v); }
// Shewchuk's expansion arithmetic (bundled tetgen, predicates.cxx) reads, and then never uses, the element one past the end of an expansion: modelled as an unspecified 0.
static bool onePast(State& s, const Opnd& po, uint64_t n, const Instruction* I){
  static std::unordered_map<const Function*,bool> memo; auto* f=I->getFunction(); auto it=memo.find(f); if(it==memo.end()) it=memo.emplace(f,f->getName().contains("expansion_sum")||f->getName().contains("scale_expansion")).first; if(!it->second) return false;
  Val p=get(s,po); if(p.k!=KI) return false; ObjP* o=findObj(s,p.u); if(o&&p.u+n<=(*o)->base+(*o)->size) return false; ObjP* q=findObj(s,p.u-n); return q&&p.u==(*q)->base+(*q)->size; }
static Val doLoad(State& s, const Opnd& po, Type* t, const Instruction* I){
  if(t->isDoubleTy()&&onePast(s,po,8,I)) return Val::F(0.0);
  uint64_t n=DL->getTypeStoreSize(t); bool sc=!(t->isAggregateType()||t->isVectorTy()); Loc L=resolve(s,po,n,I,sc);
  if(!L.soff) return loadAt(s,L.o,L.off,t);
  Obj& o=**L.o; Val r; bool have=false; Z3_model m; 
  for(uint64_t off=L.off%n; off+n<=o.size; off+=n){ Z3_ast c=mkEq(L.soff,bvNum(off,64)); if(isFalse(c)) continue; 
    bool un=true; for(unsigned i=0;i<n;++i) un&=o.m[off+i]==0; 
    Val v=rdVal(o,off,(unsigned)n,t);
    if(have&&!un&&r.k!=KU&&v.k!=r.k&&!((r.k==KI||r.k==KS)&&(v.k==KI||v.k==KS))&&!((r.k==KF||r.k==KR||r.k==KP)&&(v.k==KF||v.k==KR||v.k==KP))){ if(query(s.pc,c,nullptr)==Res::Unsat) continue; }
    if(v.k==KU){ if(query(s.pc,c,nullptr)==Res::Unsat) continue; v= t->isFloatingPointTy()? Val::R(freshConst("uninit",realS()),typeBits(t)) : Val::S(typeBits(t)==1?freshConst("uninit",boolS()):freshConst("uninit",bvS(typeBits(t))),typeBits(t)); }
    r= have? selectV(c,v,r) : v; have=true; }
  return r; }
static void doStore(State& s, const Opnd& po, Type* t, const Val& v, const Instruction* I){
  uint64_t n=DL->getTypeStoreSize(t); bool sc=!(t->isAggregateType()||t->isVectorTy()); Loc L=resolve(s,po,n,I,sc&&v.k!=KU);
  if((*L.o)->kind==OCONST) memErr(s,"write to constant memory",I);
  if(!L.soff){ storeAt(s,L.o,L.off,t,v); return; }
  Obj& o=wr(*L.o); if(o.size/n>64){ uint64_t x=concretizeV(s,get(s,po)); if(po.slot>=0) reg(s,po.slot)=Val::I(x,64); storeAt(s,findObj(s,x),x-(*findObj(s,x))->base,t,v); return; }
  for(uint64_t off=L.off%n; off+n<=o.size; off+=n){ Z3_ast c=mkEq(L.soff,bvNum(off,64)); Val old=rdVal(o,off,(unsigned)n,t); if(old.k==KU){ if(query(s.pc,c,nullptr)==Res::Unsat) continue; old= v.k==KI||v.k==KS? Val::S(v.bits==1?freshConst("uninit",boolS()):freshConst("uninit",bvS(v.bits)),v.bits):Val::R(freshConst("uninit",realS()),v.bits);} 
    bool iv=v.k==KI||v.k==KS, io=old.k==KI||old.k==KS; if(iv!=io){ if(query(s.pc,c,nullptr)==Res::Unsat) continue; } wrVal(o,off,(unsigned)n,selectV(c,v,old)); } }
static void memCopy(State& s, uint64_t d, uint64_t sp, uint64_t n, const Instruction* I){
  if(n==0) return; ObjP* so=findObj(s,sp); if(!so||sp+n>(*so)->base+(*so)->size) memErr(s,"out-of-bounds read in memcpy/memmove",I); ObjP* dq=findObj(s,d); if(!dq||d+n>(*dq)->base+(*dq)->size) memErr(s,"out-of-bounds write in memcpy/memmove",I); if((*dq)->kind==OCONST) memErr(s,"write to constant memory",I);
  if(d==sp) return; ObjP srcKeep=*so; uint64_t so_=sp-srcKeep->base; Obj tmp; bool same=(*so)==(*dq); if(same){ tmp=*srcKeep; } Obj& S=same?tmp:*srcKeep; if(same) srcKeep.reset(); Obj& D=wr(*dq); uint64_t do_=d-D.base;
  clearOv(D,do_,n); memcpy(&D.b[do_],&S.b[so_],n); memcpy(&D.m[do_],&S.m[so_],n);
  if(!S.cells.empty()){ auto it=S.cells.lower_bound(so_>=64?so_-64:0); for(;it!=S.cells.end()&&it->first<so_+n;++it){ uint32_t c=it->first,w=it->second.n; if(c+w<=so_) continue; if(c>=so_&&c+w<=so_+n){ D.cells[(uint32_t)(do_+c-so_)]=it->second; } else { Val v=it->second.v; for(uint32_t i=0;i<w;++i) if(c+i>=so_&&c+i<so_+n){ uint32_t q=(uint32_t)(do_+c+i-so_); if(v.k!=KS){ D.m[q]=0; continue; } Val x=mkS(K(Z3_simplify(C,K(Z3_mk_extract(C,8*i+7,8*i,v.a)))),8); if(x.k==KI){D.b[q]=(uint8_t)x.u;D.m[q]=1;} else {D.cells[q]={x,1};D.m[q]=2;} } } } } }

// ---------------------------------------------------------------- builtins
enum B : int { B_NONE=-1, B_NOP, B_RET0, B_RETARG0, B_NEW, B_NEWARR, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_DEL, B_DELARR, B_ALIGNEDNEW, B_MEMCPY, B_MEMSET, B_ABORT, B_ASSERTFAIL,
  B_VPINT, B_VPCHOOSE, B_VPREAL, B_VPREALINT, B_VPFP64, B_VPFP32, B_VPASSUME, B_VPASSERT, B_VPCOVER, B_VPSYM, B_VPNOTE, B_VPEQ, B_VPLE, B_VPISCONC, B_VPTAG,
  B_EXALLOC, B_EXFREE, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_EXPTR, B_GUARDACQ, B_TYPEIDFOR,
  B_M1, B_M2, B_FMA, B_ABSI, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_FSHL, B_FSHR, B_OVF, B_SAT, B_EXPECT, B_OBJSIZE, B_ISCONST, B_ISFPCLASS, B_COPYSIGN, B_MEMCMP, B_LROUND, B_PRINTF, B_WHAT, B_UNSUP, B_POWI, B_SINCOS, B_VREDUCE, B_CABS, B_FREXP, B_LDEXP, B_GETMODEL, B_THRADDR };
static std::unordered_map<std::string,std::pair<int,std::string>> bt;
static std::vector<std::string> m1names, m2names;
static void initBuiltins(){
  auto add=[&](const char* n,int b){ bt[n]={b,n}; };
  for(auto n:{"_Znwm","_ZnwmRKSt9nothrow_t"}) add(n,B_NEW); for(auto n:{"_Znam","_ZnamRKSt9nothrow_t"}) add(n,B_NEWARR); add("_ZnwmSt11align_val_t",B_ALIGNEDNEW); add("_ZdlPvmSt11align_val_t",B_DEL); add("_ZdlPvSt11align_val_t",B_DEL);
  add("malloc",B_MALLOC); add("calloc",B_CALLOC); add("realloc",B_REALLOC); add("free",B_FREE); for(auto n:{"_ZdlPv","_ZdlPvm"}) add(n,B_DEL); for(auto n:{"_ZdaPv","_ZdaPvm"}) add(n,B_DELARR);
  add("memcpy",B_MEMCPY); add("memmove",B_MEMCPY); add("memset",B_MEMSET); add("abort",B_ABORT); add("exit",B_ABORT); add("_ZSt9terminatev",B_ABORT); add("__assert_fail",B_ASSERTFAIL); add("__cxa_pure_virtual",B_ABORT); add("_ZSt21__glibcxx_assert_failPKciS0_S0_",B_ASSERTFAIL);
  add("vp_int",B_VPINT); add("vp_choose",B_VPCHOOSE); add("vp_real",B_VPREAL); add("vp_realint",B_VPREALINT); add("vp_fp64",B_VPFP64); add("vp_fp32",B_VPFP32); add("vp_assume",B_VPASSUME); add("vp_assert",B_VPASSERT); add("vp_cover",B_VPCOVER); add("vp_sym",B_VPSYM); add("vp_note",B_VPNOTE); add("vp_assert_eq",B_VPEQ); add("vp_assert_le",B_VPLE);
  add("vp_is_concrete",B_VPISCONC); add("vp_is_concrete_d",B_VPISCONC); add("vp_is_concrete_i",B_VPISCONC);
  add("__cxa_allocate_exception",B_EXALLOC); add("__cxa_free_exception",B_EXFREE); add("__cxa_throw",B_THROW); add("__cxa_begin_catch",B_BEGINCATCH); add("__cxa_end_catch",B_ENDCATCH); add("__cxa_rethrow",B_RETHROW); add("__cxa_get_exception_ptr",B_EXPTR);
  add("__cxa_guard_acquire",B_GUARDACQ); add("__cxa_guard_release",B_NOP); add("__cxa_guard_abort",B_NOP); add("__cxa_atexit",B_RET0); add("atexit",B_RET0); add("__cxa_thread_atexit",B_RET0);
  add("memcmp",B_MEMCMP); add("bcmp",B_MEMCMP);
  for(auto n:{"printf","fprintf","puts","putchar","fputs","fputc","fflush","vprintf","fwrite","signal","__printf_chk","__fprintf_chk"}) add(n,B_PRINTF);
  for(auto n:{"sqrt","sin","cos","tan","asin","acos","atan","exp","exp2","log","log10","log2","fabs","floor","ceil","round","trunc","rint","nearbyint","cbrt","sinh","cosh","tanh","expm1","log1p","erf","tgamma","sqrtf","sinf","cosf","tanf","asinf","acosf","atanf","expf","logf","fabsf","floorf","ceilf","roundf","truncf"}) add(n,B_M1);
  for(auto n:{"pow","atan2","fmod","hypot","fmin","fmax","copysign","powf","atan2f","fmodf","hypotf","fminf","fmaxf","remainder"}) add(n,B_M2);
  for(auto n:{"lround","llround","lrint","llrint","lroundf"}) add(n,B_LROUND); add("cabs",B_CABS); add("frexp",B_FREXP); add("ldexp",B_LDEXP);
  for(auto n:{"omp_set_num_threads","omp_set_dynamic","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","pthread_mutex_lock","pthread_mutex_unlock","_ZNSt13runtime_errorD1Ev","_ZNSt13runtime_errorD2Ev","_ZNSt11logic_errorD1Ev","_ZNSt11logic_errorD2Ev","_ZNSt9exceptionD1Ev","_ZNSt9exceptionD2Ev","_ZNSt12out_of_rangeD1Ev","_ZNSt16invalid_argumentD1Ev","_ZNSt12length_errorD1Ev","_ZNSt12domain_errorD1Ev","_ZNSt14overflow_errorD1Ev","_ZNSt15underflow_errorD1Ev","_ZNSt11range_errorD1Ev","_ZNSt9bad_allocD1Ev","_ZNSt9bad_allocD2Ev","_ZNSt8bad_castD1Ev","_ZNSt8bad_castD2Ev"}) add(n,B_NOP);
  add("omp_get_max_threads",B_RET0); add("omp_get_thread_num",B_RET0); add("getpid",B_RET0); add("time",B_RET0); add("clock",B_RET0); add("_ZNSt6chrono3_V212system_clock3nowEv",B_RET0); add("_ZNSt6chrono3_V212steady_clock3nowEv",B_RET0); add("getenv",B_RET0);
  add("_ZNKSt13runtime_error4whatEv",B_WHAT); add("_ZNKSt11logic_error4whatEv",B_WHAT); add("_ZNKSt9exception4whatEv",B_WHAT);
}
static bool has(const std::string& s,const char* p){ return s.compare(0,strlen(p),p)==0; }
static std::unordered_map<const Function*,std::string> bname;
int builtinId(const Function* F){
  static std::unordered_map<const Function*,int> memo; auto mi=memo.find(F); if(mi!=memo.end()) return mi->second; int r=B_NONE; std::string n=F->getName().str();
  if(F->isIntrinsic()){
    r=B_UNSUP; bname[F]=n; auto is=[&](const char* p){return has(n,p);};
    if(is("llvm.memcpy")||is("llvm.memmove")) r=B_MEMCPY; else if(is("llvm.memset")) r=B_MEMSET; else if(is("llvm.lifetime")||is("llvm.dbg")||is("llvm.assume")||is("llvm.invariant")||is("llvm.experimental.noalias")||is("llvm.prefetch")||is("llvm.stackrestore")||is("llvm.donothing")||is("llvm.var.annotation")) r=B_NOP;
    else if(is("llvm.stacksave")) r=B_RET0; else if(is("llvm.expect")||is("llvm.launder")||is("llvm.strip")||is("llvm.ssa.copy")) r=B_RETARG0; else if(is("llvm.threadlocal.address")) r=B_RETARG0;
    else if(is("llvm.trap")||is("llvm.ubsantrap")) r=B_ABORT; else if(is("llvm.eh.typeid.for")) r=B_TYPEIDFOR;
    else if(is("llvm.sqrt.")||is("llvm.fabs.")||is("llvm.floor.")||is("llvm.ceil.")||is("llvm.round.")||is("llvm.trunc.")||is("llvm.rint.")||is("llvm.nearbyint.")||is("llvm.sin.")||is("llvm.cos.")||is("llvm.exp.")||is("llvm.log.")||is("llvm.exp2.")||is("llvm.log2.")||is("llvm.log10.")||is("llvm.roundeven.")) { r=B_M1; size_t q=n.find('.',5); bname[F]=n.substr(5,q-5); if(bname[F]=="roundeven") bname[F]="rint"; }
    else if(is("llvm.powi.")) r=B_POWI; else if(is("llvm.pow.")||is("llvm.copysign.")){ r=B_M2; size_t q=n.find('.',5); bname[F]=n.substr(5,q-5); } else if(is("llvm.minnum.")||is("llvm.minimum.")){ r=B_M2; bname[F]="fmin"; } else if(is("llvm.maxnum.")||is("llvm.maximum.")){ r=B_M2; bname[F]="fmax"; }
    else if(is("llvm.fma.")||is("llvm.fmuladd.")) r=B_FMA; else if(is("llvm.abs.")) r=B_ABSI; else if(is("llvm.smax.")) r=B_SMAX; else if(is("llvm.smin.")) r=B_SMIN; else if(is("llvm.umax.")) r=B_UMAX; else if(is("llvm.umin.")) r=B_UMIN;
    else if(is("llvm.ctlz.")) r=B_CTLZ; else if(is("llvm.cttz.")) r=B_CTTZ; else if(is("llvm.ctpop.")) r=B_CTPOP; else if(is("llvm.bswap.")) r=B_BSWAP; else if(is("llvm.fshl.")) r=B_FSHL; else if(is("llvm.fshr.")) r=B_FSHR;
    else if(n.find(".with.overflow.")!=std::string::npos) r=B_OVF; else if(n.find(".sat.")!=std::string::npos) r=B_SAT; else if(is("llvm.objectsize")) r=B_OBJSIZE; else if(is("llvm.is.constant")) r=B_RET0; else if(is("llvm.is.fpclass")) r=B_ISFPCLASS; else if(is("llvm.vector.reduce.")) r=B_VREDUCE;
  } else if(has(n,"_ZN6brille12DebugPrinter5print")||has(n,"_ZN6brille12DebugPrinter7println")){ r=B_NOP; bname[F]=n; // messages are not modelled
  } else { auto it=bt.find(n); if(it!=bt.end()&&(F->isDeclaration()||has(n,"vp_"))){ r=it->second.first; bname[F]=n; if((r==B_M1||r==B_M2)&&n.back()=='f'&&n!="erf"){ bname[F]=n.substr(0,n.size()-1);} }
    else if(F->isDeclaration()){
      // constructors/destructors of standard exception types are opaque
      if(n.find("_errorC")!=std::string::npos||n.find("_errorD")!=std::string::npos||n.find("invalid_argumentC")!=std::string::npos||n.find("invalid_argumentD")!=std::string::npos||n.find("out_of_rangeC")!=std::string::npos||n.find("bad_castC")!=std::string::npos||n.find("out_of_rangeD")!=std::string::npos||n.find("__exception_ptr")!=std::string::npos) r=B_NOP;
      else r=B_UNSUP; bname[F]=n; } }
  memo[F]=r; return r; }

static uint64_t heapAlloc(State& s, uint64_t n, uint8_t a, uint64_t align=16){ ObjP o=newObj(s,n,OHEAP,"heap",align); o->alloc=a; s.heapLive++; return o->base; }
static void heapFree(State& s, uint64_t p, uint8_t a, const Instruction* I){ if(p==0) return; auto it=s.mem.find(p); if(it==s.mem.end()||it->second->kind!=OHEAP) memErr(s,"free of an invalid or already freed pointer",I); if(it->second->alloc!=a) memErr(s,"mismatched allocation and deallocation functions",I); s.mem.erase(it); s.heapLive--; }
static std::string cstr(State& s, uint64_t p){ std::string r; for(;;){ ObjP* o=findObj(s,p); if(!o||p>=(*o)->base+(*o)->size) break; uint8_t c=(*o)->b[p-(*o)->base]; if(!c) break; r+=(char)c; ++p; if(r.size()>500) break; } return r; }
static double m1(const std::string& n,double x){
#define F1(f) if(n==#f) return f(x);
  F1(sqrt)F1(sin)F1(cos)F1(tan)F1(asin)F1(acos)F1(atan)F1(exp)F1(exp2)F1(log)F1(log10)F1(log2)F1(fabs)F1(floor)F1(ceil)F1(round)F1(trunc)F1(rint)F1(nearbyint)F1(cbrt)F1(sinh)F1(cosh)F1(tanh)F1(expm1)F1(log1p)F1(erf)F1(tgamma)
  fatal("m1 "+n); return 0; }
static double m2(const std::string& n,double x,double y){
#define F2(f) if(n==#f) return f(x,y);
  F2(pow)F2(atan2)F2(fmod)F2(hypot)F2(fmin)F2(fmax)F2(copysign)F2(remainder) fatal("m2 "+n); return 0; }
static Z3_ast ge0(Z3_ast x){ return K(Z3_mk_ge(C,x,realNum(0))); }
static std::map<std::pair<std::string,Z3_ast>,Z3_ast> ufMemo;
static Z3_ast uf(State& s, const std::string& n, Z3_ast x, Z3_ast y=nullptr){ static std::map<std::string,Z3_func_decl> d; auto& f=d[n]; if(!f){ Z3_sort a[2]={realS(),realS()}; f=Z3_mk_func_decl(C,Z3_mk_string_symbol(C,("uf_"+n).c_str()),y?2:1,a,realS()); Z3_inc_ref(C,(Z3_ast)f);} Z3_ast v[2]={x,y}; return K(Z3_mk_app(C,f,y?2:1,v)); }
static void assumeFresh(State& s, Z3_ast c){ // constraint defining a fresh value; never makes the path infeasible
  addPC(s,c); if(s.model&&evalBool(s,c)!=1) s.model=nullptr; }
static Z3_ast rSqrt(State& s, Z3_ast x){ static std::map<Z3_ast,Z3_ast> memo; Z3_ast& y=memo[x]; if(!y){ y=freshConst("sqrt",realS()); normRegSqrt(y,x); } Z3_ast v[2]={y,y}; Z3_ast def=mkAnd(ge0(y),mkEq(K(Z3_mk_mul(C,2,v)),x)); for(auto p: s.pc) if(p==def) return y; assumeFresh(s,def); return y; }
static Z3_ast rFloor(Z3_ast x){ return K(Z3_mk_int2real(C,K(Z3_mk_real2int(C,x)))); }
static std::unordered_map<Z3_ast,std::pair<Z3_ast,Z3_ast>> atan2Of; // atan2(y,x) -> y, x
static Val math1(State& s, const std::string& n, const Val& a, unsigned bits){
  if(a.k==KU) return Val::U(bits);
  if(a.k==KF) return cfp(bits==32&&n=="sqrt"? (double)sqrtf((float)a.dbl()) : m1(n,a.dbl()),bits);
  if(a.k==KP||a.k==KS){ Z3_ast x=fp(a,bits); if(n=="fabs") return Val::P(K(Z3_mk_fpa_abs(C,x)),bits); if(n=="sqrt") return Val::P(K(Z3_mk_fpa_sqrt(C,rne(),x)),bits); Z3_ast rm=nullptr; if(n=="floor") rm=Z3_mk_fpa_rtn(C); if(n=="ceil") rm=Z3_mk_fpa_rtp(C); if(n=="trunc") rm=Z3_mk_fpa_rtz(C); if(n=="round") rm=Z3_mk_fpa_rna(C); if(n=="rint"||n=="nearbyint") rm=rne(); if(rm) return Val::P(K(Z3_mk_fpa_round_to_integral(C,K(rm),x)),bits); throw EndPath{"unsupported","math function "+n+" on symbolic IEEE value"}; }
  Z3_ast x=rl(a); if(n=="fabs"||n=="floor"||n=="ceil"||n=="trunc"||n=="round"||n=="rint"||n=="nearbyint") x=linear(x);
  if(n=="fabs"&&O.norm){ double v; if(normConst(x,v)) return Val::R(realNum(std::fabs(v)),bits); }
  if(n=="fabs"){ Z3_ast r=mkIte(ge0(x),x,K(Z3_mk_unary_minus(C,x))); absOf[r]=x; return Val::R(r,bits); }
  if(n=="floor") return Val::R(rFloor(x),bits);
  if(n=="ceil") return Val::R(K(Z3_mk_unary_minus(C,rFloor(K(Z3_mk_unary_minus(C,x))))),bits);
  if(n=="trunc") return Val::R(mkIte(ge0(x),rFloor(x),K(Z3_mk_unary_minus(C,rFloor(K(Z3_mk_unary_minus(C,x)))))),bits);
  if(n=="round"){ Z3_ast h=realNum(0.5); Z3_ast v[2]={x,h}; Z3_ast w[2]={K(Z3_mk_unary_minus(C,x)),h}; return Val::R(mkIte(ge0(x),rFloor(K(Z3_mk_add(C,2,v))),K(Z3_mk_unary_minus(C,rFloor(K(Z3_mk_add(C,2,w)))))),bits); }
  if(n=="sqrt"){ if(!decide(s,ge0(x),[](State&){})) throw EndPath{"nonfinite","sqrt of a negative value"}; return Val::R(rSqrt(s,x),bits); }
  if(n=="sin"||n=="cos"){ // of +-atan2(y,x)
    Z3_ast u=x; int sg=1; if(Z3_get_ast_kind(C,u)==Z3_APP_AST){ auto ap=Z3_to_app(C,u); auto k=Z3_get_decl_kind(C,Z3_get_app_decl(C,ap)); double m; if(k==Z3_OP_UMINUS){ u=Z3_get_app_arg(C,ap,0); sg=-1; } else if(k==Z3_OP_MUL&&Z3_get_app_num_args(C,ap)==2) for(int i=0;i<2;++i) if(realConst(Z3_get_app_arg(C,ap,i),m)&&m==-1){ u=Z3_get_app_arg(C,ap,1-i); sg=-1; break; } }
    auto at=atan2Of.find(u); if(at!=atan2Of.end()){ Z3_ast Y=at->second.first, X=at->second.second; Z3_ast z=mkAnd(mkEq(X,realNum(0)),mkEq(Y,realNum(0))); if(decide(s,z,[](State&){})) return cfp(n=="cos"? 1: 0,bits); Z3_ast v1[2]={X,X},v2[2]={Y,Y}; Z3_ast sm[2]={K(Z3_mk_mul(C,2,v1)),K(Z3_mk_mul(C,2,v2))}; Z3_ast h=rSqrt(s,K(Z3_mk_add(C,2,sm))); Z3_ast r=K(Z3_mk_div(C,n=="cos"? X: Y,h)); if(n=="sin"&&sg<0) r=K(Z3_mk_unary_minus(C,r)); return Val::R(r,bits); } }
  if(n=="sin"||n=="cos"){ // cos(acos(v)) = v, sin(acos(v)) = sqrt(1-v^2)
    if(Z3_get_ast_kind(C,x)==Z3_APP_AST){ auto ap=Z3_to_app(C,x); if(Z3_get_app_num_args(C,ap)==1&&Z3_get_decl_kind(C,Z3_get_app_decl(C,ap))==Z3_OP_UNINTERPRETED&&!strcmp(Z3_get_symbol_string(C,Z3_get_decl_name(C,Z3_get_app_decl(C,ap))),"uf_acos")){ Z3_ast v=K(Z3_get_app_arg(C,ap,0)); if(n=="cos") return Val::R(v,bits); Z3_ast vv[2]={v,v}; Z3_ast w[2]={realNum(1),K(Z3_mk_mul(C,2,vv))}; return Val::R(rSqrt(s,K(Z3_mk_sub(C,2,w))),bits); } }
    if(getenv("SX_DBG")) fprintf(stderr,"UF %s %s\n",n.c_str(),Z3_ast_to_string(C,x));
    Z3_ast c=uf(s,"cos",x), d=uf(s,"sin",x); Z3_ast v1[2]={c,c},v2[2]={d,d}; Z3_ast sm[2]={K(Z3_mk_mul(C,2,v1)),K(Z3_mk_mul(C,2,v2))}; Z3_ast nx=K(Z3_mk_unary_minus(C,x)); Z3_ast def=mkAnd(mkEq(K(Z3_mk_add(C,2,sm)),realNum(1)),mkAnd(mkEq(uf(s,"cos",nx),c),mkEq(uf(s,"sin",nx),K(Z3_mk_unary_minus(C,d))))); bool hv=false; for(auto p:s.pc) hv|=p==def; if(!hv) assumeFresh(s,def); return Val::R(n=="sin"?d:c,bits); }
  if(n=="acos"||n=="asin"){ if(!decide(s,K(Z3_mk_le(C,x,realNum(1))),[](State&){})||!decide(s,K(Z3_mk_ge(C,x,realNum(-1))),[](State&){})) throw EndPath{"nonfinite",n+" outside [-1,1]"}; Z3_ast y=uf(s,n,x); double lo=n=="acos"?0:-1.5707963267948968, hi=n=="acos"?3.1415926535897936:1.5707963267948968; Z3_ast def=mkAnd(K(Z3_mk_ge(C,y,realNum(lo))),K(Z3_mk_le(C,y,realNum(hi)))); bool hv=false; for(auto p:s.pc) hv|=p==def; if(!hv) assumeFresh(s,def); return Val::R(y,bits); }
  if(n=="atan"||n=="exp"||n=="log"||n=="tan"||n=="cbrt"||n=="log10") return Val::R(uf(s,n,x),bits);
  throw EndPath{"unsupported","math function "+n+" on symbolic real"}; }
static Val math2(State& s, const std::string& n, const Val& a, const Val& b, unsigned bits){
  if(a.k==KU||b.k==KU) return Val::U(bits);
  if(a.k==KF&&b.k==KF) return cfp(m2(n,a.dbl(),b.dbl()),bits);
  if(a.k==KP||b.k==KP){ Z3_ast x=fp(a,bits), y=fp(b,bits); if(n=="fmin") return Val::P(K(Z3_mk_fpa_min(C,x,y)),bits); if(n=="fmax") return Val::P(K(Z3_mk_fpa_max(C,x,y)),bits); throw EndPath{"unsupported","math function "+n+" on symbolic IEEE value"}; }
  if(n=="fmin"||n=="fmax"){ if(a.k==KF&&!std::isfinite(a.dbl())) return (std::isnan(a.dbl())||(n=="fmin")==(a.dbl()>0))?b:a; if(b.k==KF&&!std::isfinite(b.dbl())) return (std::isnan(b.dbl())||(n=="fmin")==(b.dbl()>0))?a:b; }
  Z3_ast x=rl(a), y=rl(b);
  if(n=="fmin") return Val::R(mkIte(K(Z3_mk_le(C,x,y)),x,y),bits); if(n=="fmax") return Val::R(mkIte(K(Z3_mk_ge(C,x,y)),x,y),bits);
  if(n=="copysign"){ Z3_ast ax=mkIte(ge0(x),x,K(Z3_mk_unary_minus(C,x))); return Val::R(mkIte(ge0(y),ax,K(Z3_mk_unary_minus(C,ax))),bits); }
  if(n=="hypot"){ Z3_ast v1[2]={x,x},v2[2]={y,y}; Z3_ast sm[2]={K(Z3_mk_mul(C,2,v1)),K(Z3_mk_mul(C,2,v2))}; return Val::R(rSqrt(s,K(Z3_mk_add(C,2,sm))),bits); }
  if(n=="pow"){ if(b.k==KF&&b.dbl()==std::floor(b.dbl())&&std::fabs(b.dbl())<=8&&b.dbl()>=0){ int e=(int)b.dbl(); if(e==0) return cfp(1,bits); Z3_ast r=x; for(int i=1;i<e;++i){ Z3_ast v[2]={r,x}; r=K(Z3_mk_mul(C,2,v)); } return Val::R(r,bits);} if(b.k==KF&&b.dbl()==0.5){ return Val::R(rSqrt(s,x),bits);} return Val::R(uf(s,"pow",x,y),bits); }
  if(n=="fmod"){ if(b.k==KF&&b.dbl()!=0){ // x - y*trunc(x/y)
      Z3_ast q=K(Z3_mk_div(C,x,y)); Z3_ast t=mkIte(ge0(q),rFloor(q),K(Z3_mk_unary_minus(C,rFloor(K(Z3_mk_unary_minus(C,q)))))); Z3_ast v[2]={y,t}; Z3_ast w[2]={x,K(Z3_mk_mul(C,2,v))}; return Val::R(K(Z3_mk_sub(C,2,w)),bits);} }
  if(n=="atan2"){ Z3_ast r=uf(s,"atan2",x,y); atan2Of[r]={x,y}; return Val::R(r,bits); }
  throw EndPath{"unsupported","math function "+n+" on symbolic real"}; }

// exceptions
static std::string symOf(uint64_t a){ auto it=gname.find(a); return it==gname.end()?"":it->second; }
static std::vector<uint64_t> basesOf(uint64_t ti){
  static std::map<std::string,std::string> stdBase={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"},{"_ZTISt12bad_weak_ptr","_ZTISt9exception"},{"_ZTISt19bad_optional_access","_ZTISt9exception"},{"_ZTISt18bad_variant_access","_ZTISt9exception"}};
  std::vector<uint64_t> r; std::string n=symOf(ti); auto it=stdBase.find(n); if(it!=stdBase.end()){ for(auto&g:gname) if(g.second==it->second) r.push_back(g.first); if(r.empty()) r.push_back(0x1); return r; }
  if(auto* g=M->getNamedGlobal(n)) if(g->hasInitializer()) if(auto* cs=dyn_cast<ConstantStruct>(g->getInitializer())) for(unsigned i=2;i<cs->getNumOperands();++i) if(cs->getOperand(i)->getType()->isPointerTy()) r.push_back(constVal(cs->getOperand(i)).u);
  return r; }
static bool catches(uint64_t thrown, uint64_t c){ if(thrown==c) return true; for(auto b: basesOf(thrown)) if(b!=1&&catches(b,c)) return true; 
  if(symOf(c)=="_ZTISt9exception"){ std::string n=symOf(thrown); return n.compare(0,6,"_ZTISt")==0; } return false; }
static void popFrame(State& s){ for(auto a: s.st.back().allocas) s.mem.erase(a); s.st.pop_back(); }
static void jump(State& s, int to){ auto& f=s.st.back(); f.prev=f.bb; f.bb=to; f.pc=0; auto& b=f.f->bl[to]; if(b.nphi){ int pi=-1; for(size_t i=0;i<b.preds.size();++i) if(b.preds[i]==f.prev){pi=(int)i;break;} if(pi<0) fatal("phi pred"); std::vector<Val> t(b.nphi); for(int i=0;i<b.nphi;++i){ auto& o=b.phiv[i][pi]; t[i]= o.slot>=0? f.r[o.slot]: o.c; } for(int i=0;i<b.nphi;++i) f.r[b.in[i].dst]=t[i]; f.pc=b.nphi; } }
static void unwind(State& s, const Instruction* I){
  while(true){ Frame& f=s.st.back(); int unw=f.unw; bool inv=f.nrm>=0; 
    if(s.st.size()==1){ needModel(s); report(s,s.model,"exception","an exception escaped: "+demangle(symOf(s.cur.tinfo).size()>4?"_Z"+symOf(s.cur.tinfo).substr(4):""),I); throw EndPath{"violation","uncaught exception"}; }
    popFrame(s); if(!inv) continue;
    // frame now at the invoke; check the landing pad
    Frame& g=s.st.back(); auto& b=g.f->bl[unw]; const LandingPadInst* lp=nullptr; int idx=0; for(size_t i=0;i<b.in.size();++i) if(auto* l=dyn_cast<LandingPadInst>(b.in[i].I)){lp=l;idx=(int)i;break;} if(!lp) fatal("landingpad"); (void)idx;
    int sel=0; bool enter=lp->isCleanup(); for(unsigned c=0;c<lp->getNumClauses();++c){ if(!lp->isCatch(c)) { enter=true; continue;} uint64_t ti=constVal(lp->getClause(c)).u; if(ti==0||catches(s.cur.tinfo,ti)){ sel= ti==0? 0x7fffffff : (int)((ti>>4)&0x7fffffff); enter=true; break; } }
    if(!enter) { // continue unwinding out of this frame: emulate by treating as non-matching invoke
      continue; }
    g.exSel=sel; jump(s,unw); return; } }

static void pushCall(State& s, DFunc* f, const std::vector<Val>& args, int retslot, int nrm, int unw){ if(s.st.size()>4000) throw EndPath{"unsupported","call depth"}; Frame fr; fr.f=f; fr.r.resize(f->nslots); size_t na=f->F->arg_size(); for(size_t i=0;i<na&&i<args.size();++i) fr.r[i]=args[i]; fr.retslot=retslot; fr.nrm=nrm; fr.unw=unw; f->calls++; s.st.push_back(std::move(fr)); }
static bool isAgg(const Val&v){return v.k==KA;}
template<class F> static Val vmap2(const Val& a,const Val& b,F f){ if(!isAgg(a)&&!isAgg(b)) return f(a,b); std::vector<Val> v; size_t n=isAgg(a)?a.agg->size():b.agg->size(); for(size_t i=0;i<n;++i) v.push_back(f(isAgg(a)?(*a.agg)[i]:a,isAgg(b)?(*b.agg)[i]:b)); return Val::A(std::move(v)); }
template<class F> static Val vmap1(const Val& a,F f){ if(!isAgg(a)) return f(a); std::vector<Val> v; for(auto&x:*a.agg) v.push_back(f(x)); return Val::A(std::move(v)); }
static void checkAssert(State& s, const Val& c, const std::string& msg, const Instruction* I, Z3_ast strong=nullptr){
  asserts++;
  if(c.k==KI){ if(!(c.u&1)){ needModel(s); report(s,s.model,"assert",msg,I); throw EndPath{"violation",msg}; } return; }
  if(c.k==KU){ needModel(s); report(s,s.model,"assert",msg+" (depends on an uninitialised value)",I); throw EndPath{"violation",msg}; }
  assertsSym++; Z3_ast nc=mkNot(c.a);
  if(O.simp){ static Z3_params p=[]{ Z3_params q=Z3_mk_params(C); Z3_params_inc_ref(C,q); Z3_params_set_bool(C,q,Z3_mk_string_symbol(C,"som"),true); Z3_params_set_bool(C,q,Z3_mk_string_symbol(C,"arith_lhs"),true); return q; }(); double t=now(); Z3_ast sn=K(Z3_simplify_ex(C,nc,p)); QS.secs+=now()-t; if(isFalse(sn)){ QS.queries++; QS.unsat++; QS.simp++; return; } }
  Z3_model m=nullptr; Res r=query(s.pc,nc,&m);
  if(r==Res::Unsat) return;
  if(r==Res::Unknown){ SH->incomplete++; ended["assert-undecided"]++; notes.push_back("undecided: "+msg); addPC(s,c.a); return; }
  if(strong){ Z3_model m2=nullptr; if(query(s.pc,strong,&m2)==Res::Sat) m=m2; }
  report(s,m,"assert",msg,I);
  addPC(s,c.a); s.model=nullptr; needModel(s); }
static Val fromReal2Int(State& s, Z3_ast x, unsigned bits, bool sgn, const Instruction* I){ // truncation toward zero; forks over feasible values
  x=linear(x); Z3_ast t=mkIte(ge0(x),K(Z3_mk_real2int(C,x)),K(Z3_mk_unary_minus(C,K(Z3_mk_real2int(C,K(Z3_mk_unary_minus(C,x)))))));
  needModel(s); Z3_ast o; Z3_model_eval(C,s.model,t,true,&o); Z3_inc_ref(C,o); int64_t v; if(!Z3_get_numeral_int64(C,o,&v)) throw EndPath{"unsupported","float to int conversion of a huge value"};
  // value v <=> x in [v, v+1) for v>0, (v-1, v] for v<0, (-1,1) for 0
  Z3_ast c; if(v>0) c=mkAnd(K(Z3_mk_ge(C,x,realInt(v))),K(Z3_mk_lt(C,x,realInt(v+1)))); else if(v<0) c=mkAnd(K(Z3_mk_gt(C,x,realInt(v-1))),K(Z3_mk_le(C,x,realInt(v)))); else c=mkAnd(K(Z3_mk_gt(C,x,realInt(-1))),K(Z3_mk_lt(C,x,realInt(1))));
  Z3_model m=nullptr; Res r=query(s.pc,mkNot(c),&m); if(r!=Res::Unsat){ State* n=clone(s); addPC(*n,mkNot(c)); n->model=m; pushWork(n); addPC(s,c); maybeShare(); }
  (void)I; if(!sgn&&v<0) { /* UB in C++ */ } return Val::I((uint64_t)v,bits); }
static Val intToReal(State& s, const Opnd& po, unsigned bits, bool sgn){
  Val v=get(s,po); if(v.k==KU) return Val::U(bits);
  if(v.k==KI) return cfp(sgn?(double)v.s():(double)v.u,bits);
  if(v.bits==1){ Z3_ast one=sgn?realNum(-1):realNum(1); return Val::R(mkIte(v.a,one,realNum(0)),bits); }
  // small enumerable domain -> exact ite chain
  std::vector<uint64_t> vals; std::vector<Z3_ast> pc=s.pc; needModel(s); Z3_model m=s.model; bool small=false;
  for(int i=0;i<12;++i){ uint64_t x=evalBV(m,v.a); vals.push_back(x); pc.push_back(mkNot(mkEq(v.a,bvNum(x,v.bits)))); Z3_model m2=nullptr; Res r=query(pc,mkTrue(),&m2); if(r==Res::Unsat){small=true;break;} if(r==Res::Unknown) break; m=m2; }
  if(small){ std::sort(vals.begin(),vals.end()); auto num=[&](uint64_t x){ Val q=Val::I(x,v.bits); return realNum(sgn?(double)q.s():(double)q.u);}; Z3_ast r=num(vals.back()); for(int i=(int)vals.size()-2;i>=0;--i) r=mkIte(mkEq(v.a,bvNum(vals[i],v.bits)),num(vals[i]),r); return Val::R(r,bits); }
  uint64_t x=concOp(s,po); Val q=Val::I(x,v.bits); return cfp(sgn?(double)q.s():(double)q.u,bits); }

static void stepInst(State& s){ CUR=&s;
  Frame& f=s.st.back(); DBlock& B_=f.f->bl[f.bb]; DInst& d=B_.in[f.pc]; const Instruction* I=d.I;
  s.steps++;
  if(!d.seen){ d.seen=true; const DILocation* l=I->getDebugLoc().get(); while(l){ if(auto* sp=l->getScope()->getSubprogram()){ StringRef ln=sp->getLinkageName(); funcsSeen.insert(ln.empty()?sp->getName().str():ln.str()); } l=l->getInlinedAt(); } }
  auto set=[&](const Val& v){ if(d.dst>=0) s.st.back().r[d.dst]=v; };
  auto adv=[&]{ s.st.back().pc++; };
  switch(d.op){
    case Instruction::Alloca: { auto* ai=cast<AllocaInst>(I); uint64_t n=DL->getTypeAllocSize(ai->getAllocatedType()); uint64_t c=concOp(s,d.o[0]); ObjP o=newObj(s,n*c,OSTACK,"stack",ai->getAlign().value()); s.st.back().allocas.push_back(o->base); set(Val::I(o->base,64)); adv(); return; }
    case Instruction::Load: { Val v=doLoad(s,d.o[0],d.ty,I); 
      if(d.tk==1||d.tk==3){ if(v.k==KF){ v.k=KI; v.bits=d.bits; } }
      set(v); adv(); return; }
    case Instruction::Store: { Val v=get(s,d.o[0]); doStore(s,d.o[1],I->getOperand(0)->getType(),v,I); adv(); return; }
    case Instruction::GetElementPtr: {
      Val b=get(s,d.o[0]); if(b.k==KU){ set(b); adv(); return; }
      Val r=b; if(d.goff) r=binop(Instruction::Add,r,Val::I((uint64_t)d.goff,64),64);
      for(auto& g: d.gidx){ Val i=get(s,g.first); if(i.k==KU){ r=Val::U(64); break; } Val x; if(i.k==KI) x=Val::I((uint64_t)(i.s()*g.second),64); else { Z3_ast e= i.bits<64? K(Z3_mk_sign_ext(C,64-i.bits,i.bits==1?bool2bv(i.a,1+0):i.a)) : i.bits>64? K(Z3_mk_extract(C,63,0,i.a)) : i.a; x=binop(Instruction::Mul,Val::S(e,64),Val::I((uint64_t)g.second,64),64); } r=binop(Instruction::Add,r,x,64); }
      set(r); adv(); return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Val a=get(s,d.o[0]), b=get(s,d.o[1]); if(a.k==KI&&b.k==KI){ set(binop(d.op,a,b,d.bits)); adv(); return; }
      set(vmap2(a,b,[&](const Val&x,const Val&y){return binop(d.op,x,y,x.bits?x.bits:d.bits);})); adv(); return; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val a=get(s,d.o[0]), b=get(s,d.o[1]); if(b.k==KI&&b.u==0){ needModel(s); report(s,s.model,"divzero","integer division by zero",I); throw EndPath{"violation","div0"}; }
      if(b.k==KS){ Z3_ast z=bvEq(b.a,bvNum(0,b.bits),b.bits); Z3_model m=nullptr; Res r=query(s.pc,z,&m); if(r==Res::Sat) { report(s,m,"divzero","integer division by zero",I);} if(r!=Res::Unsat){ addPC(s,mkNot(z)); s.model=nullptr; needModel(s);} }
      set(binop(d.op,a,b,d.bits)); adv(); return; }
    case Instruction::ICmp: { Val a=get(s,d.o[0]), b=get(s,d.o[1]); auto p=cast<ICmpInst>(I)->getPredicate(); if((a.k==KR||a.k==KP)&&(b.k==KI)){ throw EndPath{"unsupported","integer comparison of real bits"}; } set(vmap2(a,b,[&](const Val&x,const Val&y){return icmp(p,x,y);})); adv(); return; }
    case Instruction::FCmp: { auto p=cast<FCmpInst>(I)->getPredicate(); set(vmap2(get(s,d.o[0]),get(s,d.o[1]),[&](const Val&x,const Val&y){return fcmp(p,x,y);})); adv(); return; }
    case Instruction::FDiv: { Val a=get(s,d.o[0]), b=get(s,d.o[1]); if(b.k==KR&&a.k!=KA){ if(!decide(s,mkNot(mkEq(b.a,realNum(0))),[](State&){})) throw EndPath{"nonfinite","division by zero in real arithmetic"}; }
      if(b.k==KF&&b.dbl()==0&&a.k==KR) throw EndPath{"nonfinite","division by zero in real arithmetic"};
      set(vmap2(a,b,[&](const Val&x,const Val&y){return fbin(d.op,x,y,x.bits);})); adv(); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FRem: { Val a=get(s,d.o[0]), b=get(s,d.o[1]); if(d.op==Instruction::FRem&&!(a.k==KF&&b.k==KF)){ set(math2(s,"fmod",a,b,d.bits)); adv(); return; } set(vmap2(a,b,[&](const Val&x,const Val&y){return fbin(d.op,x,y,x.bits?x.bits:d.bits);})); adv(); return; }
    case Instruction::FNeg: { set(vmap1(get(s,d.o[0]),[&](const Val&a)->Val{ if(a.k==KU) return a; if(a.k==KF) return a.bits==32?Val::F32(-(float)a.dbl()):Val::F(-a.dbl()); if(a.k==KR) return Val::R(K(Z3_mk_unary_minus(C,a.a)),a.bits); return Val::P(K(Z3_mk_fpa_neg(C,fp(a,a.bits))),a.bits); })); adv(); return; }
    case Instruction::Trunc: { set(vmap1(get(s,d.o[0]),[&](const Val&a)->Val{ unsigned n=d.bits?d.bits:cast<VectorType>(d.ty)->getElementType()->getIntegerBitWidth(); if(a.k==KU) return Val::U(n); if(a.k==KI) return Val::I(a.u,n); if(a.k==KR||a.k==KP) throw EndPath{"unsupported","truncation of real bits"}; if(n==1){ auto z=zextOf.find(a.a); if(z!=zextOf.end()) return mkB(z->second); return mkB(mkEq(K(Z3_mk_extract(C,0,0,a.a)),K(Z3_mk_unsigned_int64(C,1,bvS(1))))); } auto z=zextOf.find(a.a); if(z!=zextOf.end()) return mkS(bool2bv(z->second,n),n); return mkS(K(Z3_simplify(C,K(Z3_mk_extract(C,n-1,0,a.a)))),n); })); adv(); return; }
    case Instruction::ZExt: case Instruction::SExt: { bool sg=d.op==Instruction::SExt; set(vmap1(get(s,d.o[0]),[&](const Val&a)->Val{ unsigned n=d.bits?d.bits:cast<VectorType>(d.ty)->getElementType()->getIntegerBitWidth(); if(a.k==KU) return Val::U(n); if(a.k==KI){ if(n<=64) return Val::I(sg?(uint64_t)a.s():a.u,n); Z3_ast x=bvNum(a.u,a.bits==1?8:a.bits); unsigned w=a.bits==1?8:a.bits; return Val::S(K(Z3_simplify(C,K(sg?Z3_mk_sign_ext(C,n-w,x):Z3_mk_zero_ext(C,n-w,x)))),n);} if(a.bits==1){ if(sg) return mkS(mkIte(a.a,bvNum(~0ull,n),bvNum(0,n)),n); return mkS(bool2bv(a.a,n),n);} auto z=zextOf.find(a.a); if(z!=zextOf.end()&&a.bits>1) return mkS(bool2bv(z->second,n),n);
        Z3_ast c,x,y; if(n<=64&&iteNum(a.a,c,x,y)){ uint64_t u,v; Z3_get_numeral_uint64(C,x,&u); Z3_get_numeral_uint64(C,y,&v); Val p=Val::I(u,a.bits),q=Val::I(v,a.bits); return mkS(mkIte(c,bvNum(sg?(uint64_t)p.s()&(n>=64?~0ull:(1ull<<n)-1):p.u,n),bvNum(sg?(uint64_t)q.s()&(n>=64?~0ull:(1ull<<n)-1):q.u,n)),n);} 
        return mkS(K(sg?Z3_mk_sign_ext(C,n-a.bits,a.a):Z3_mk_zero_ext(C,n-a.bits,a.a)),n); })); adv(); return; }
    case Instruction::BitCast: { Val a=get(s,d.o[0]); if(d.tk==2&&a.k==KI){ a.k=KF; a.bits=d.bits; } else if(d.tk==1&&a.k==KF){ a.k=KI; a.bits=d.bits; } else if(d.tk==2&&a.k==KS) a=Val::P(K(Z3_mk_fpa_to_fp_bv(C,a.a,fpS(d.bits))),d.bits); else if(d.tk==1&&a.k==KP) a=Val::S(K(Z3_mk_fpa_to_ieee_bv(C,a.a)),d.bits); else if(isAgg(a)||d.tk==4){ if(!(isAgg(a)&&d.tk==4)) throw EndPath{"unsupported","vector bitcast"}; } set(a); adv(); return; }
    case Instruction::PtrToInt: { Val a=get(s,d.o[0]); if(d.bits<64&&a.k==KI) a=Val::I(a.u,d.bits); set(a); adv(); return; }
    case Instruction::IntToPtr: { Val a=get(s,d.o[0]); if(a.k==KI) a.bits=64; set(a); adv(); return; }
    case Instruction::Freeze: { Val a=get(s,d.o[0]); if(a.k==KU){ if(d.tk==2) a=Val::R(freshConst("freeze",realS()),d.bits); else if(d.tk==1||d.tk==3) a=d.bits==1?Val::S(freshConst("freeze",boolS()),1):Val::S(freshConst("freeze",bvS(d.bits)),d.bits); } set(a); adv(); return; }
    case Instruction::SIToFP: case Instruction::UIToFP: { Val a=get(s,d.o[0]); if(isAgg(a)){ set(vmap1(a,[&](const Val&x){ if(x.k!=KI) throw EndPath{"unsupported","vector int to fp"}; return cfp(d.op==Instruction::SIToFP?(double)x.s():(double)x.u,64);})); adv(); return; } if(a.k==KI&&d.bits==32){ set(Val::F32(d.op==Instruction::SIToFP?(float)a.s():(float)a.u)); adv(); return;} set(intToReal(s,d.o[0],d.bits,d.op==Instruction::SIToFP)); adv(); return; }
    case Instruction::FPToSI: case Instruction::FPToUI: { bool sg=d.op==Instruction::FPToSI; Val a=get(s,d.o[0]); if(a.k==KU){ set(Val::U(d.bits)); adv(); return;} if(a.k==KF){ double x=a.dbl(); uint64_t u; if(sg) { if(!(x>-9.3e18&&x<9.3e18)) { set(Val::U(d.bits)); adv(); return;} u=(uint64_t)(int64_t)x; } else { if(!(x>-1&&x<1.9e19)){ set(Val::U(d.bits)); adv(); return;} u=(uint64_t)x; } set(Val::I(u,d.bits)); adv(); return; } if(a.k==KP){ Z3_ast r=sg?Z3_mk_fpa_to_sbv(C,K(Z3_mk_fpa_rtz(C)),a.a,d.bits):Z3_mk_fpa_to_ubv(C,K(Z3_mk_fpa_rtz(C)),a.a,d.bits); set(mkS(K(r),d.bits)); adv(); return; } set(fromReal2Int(s,rl(a),d.bits,sg,I)); adv(); return; }
    case Instruction::FPExt: case Instruction::FPTrunc: { Val a=get(s,d.o[0]); if(a.k==KF){ if(d.bits==80){ set(a); } else set(cfp(a.dbl(),d.bits)); } else if(a.k==KR){ a.bits=d.bits; set(a);} else if(a.k==KU){ set(Val::U(d.bits)); } else { set(Val::P(K(Z3_mk_fpa_to_fp_float(C,rne(),fp(a,a.bits),fpS(d.bits))),d.bits)); } adv(); return; }
    case Instruction::Select: { Val c=get(s,d.o[0]), a=get(s,d.o[1]), b=get(s,d.o[2]); if(c.k==KI) set(c.u?a:b); else if(c.k==KU) { set(a.k==KA?a:Val::U(a.bits)); } else if(isAgg(c)){ std::vector<Val> v; for(size_t i=0;i<c.agg->size();++i){ auto& ci=(*c.agg)[i]; v.push_back(ci.k==KI?(ci.u?(*a.agg)[i]:(*b.agg)[i]):selectV(bv(ci),(*a.agg)[i],(*b.agg)[i])); } set(Val::A(std::move(v))); }
      else if((d.tk==3)&&(a.k!=b.k||a.k==KI)){ // pointers: fork instead of building symbolic addresses
        if(a.k==KI&&b.k==KI&&a.u==b.u) set(a); else { int dst=d.dst; Val A=a,Bv=b; bool v=decide(s,c.a,[&](State&n){}); (void)dst; if(d.o[0].slot>=0) s.st.back().r[d.o[0].slot]=Val::I(v,1); set(v?A:Bv); } }
      else { bool am=(a.k==KF&&!std::isfinite(a.dbl()))||(b.k==KF&&!std::isfinite(b.dbl())); if(am&&(a.k!=KP&&b.k!=KP)){ bool v=decide(s,c.a,[](State&){}); set(v?a:b);} else set(selectV(c.a,a,b)); }
      adv(); return; }
    case Instruction::ExtractValue: { Val a=get(s,d.o[0]); if(a.k==KU){ set(undefOf(d.ty)); adv(); return;} for(unsigned i: cast<ExtractValueInst>(I)->indices()) { Val t=(*a.agg)[i]; a=t; } set(a); adv(); return; }
    case Instruction::InsertValue: { Val a=get(s,d.o[0]); if(a.k!=KA) a=undefOf(d.ty); Val v=get(s,d.o[1]); auto idx=cast<InsertValueInst>(I)->getIndices(); std::function<Val(const Val&,size_t)> ins=[&](const Val& x,size_t k)->Val{ if(k==idx.size()) return v; std::vector<Val> c=*x.agg; c[idx[k]]=ins(c[idx[k]],k+1); return Val::A(std::move(c)); }; set(ins(a,0)); adv(); return; }
    case Instruction::ExtractElement: { Val a=get(s,d.o[0]); uint64_t i=concOp(s,d.o[1]); set(a.k==KA?(*a.agg)[i]:Val::U(d.bits)); adv(); return; }
    case Instruction::InsertElement: { Val a=get(s,d.o[0]); if(a.k!=KA) a=undefOf(d.ty); uint64_t i=concOp(s,d.o[2]); std::vector<Val> c=*a.agg; c[i]=get(s,d.o[1]); set(Val::A(std::move(c))); adv(); return; }
    case Instruction::ShuffleVector: { auto* sv=cast<ShuffleVectorInst>(I); Val a=get(s,d.o[0]), b=get(s,d.o[1]); std::vector<Val> v; int n=(int)cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements(); Type* et=cast<FixedVectorType>(d.ty)->getElementType(); for(int m: sv->getShuffleMask()){ if(m<0) v.push_back(undefOf(et)); else { const Val& q= m<n?a:b; v.push_back(q.k==KA?(*q.agg)[m<n?m:m-n]:undefOf(et)); } } set(Val::A(std::move(v))); adv(); return; }
    case Instruction::Br: {
      if(d.o.empty()){ jump(s,d.b0); return; }
      Val c=get(s,d.o[0]); if(c.k==KI){ jump(s,c.u?d.b0:d.b1); return; }
      if(c.k==KU){ c=Val::S(freshConst("undefbr",boolS()),1); ended["undef-branch"]++; }
      int b0=d.b0,b1=d.b1; int v=evalBool(s,c.a); if(v<0) throw EndPath{"solver-unknown","eval"};
      bool t=decide(s,c.a,[&](State&n){ jump(n, v?b1:b0); }); jump(s,t?b0:b1); return; }
    case Instruction::Switch: {
      Val c=get(s,d.o[0]); if(c.k==KU) throw EndPath{"undef","switch on undefined value"}; uint64_t x;
      if(c.k==KI) x=c.u; else { // fork per feasible target
        needModel(s); x=evalBV(s.model,c.bits==1?bool2bv(c.a,8):c.a); std::map<int,Z3_ast> conds; Z3_ast none=mkTrue(); for(auto& k: d.cases){ Z3_ast e=bvEq(c.a,bvNum(k.first,c.bits),c.bits); auto& q=conds[k.second]; q=q?mkOr(q,e):e; none=mkAnd(none,mkNot(e)); } auto& q=conds[d.b0]; q=q?mkOr(q,none):none;
        int my=d.b0; for(auto& k: d.cases) if(k.first==x){my=k.second;break;}
        bool other=false; for(auto& kv: conds) if(kv.first!=my){ Z3_model m=nullptr; Res r=query(s.pc,kv.second,&m); if(r==Res::Unsat) continue; other=true; State* n=clone(s); addPC(*n,kv.second); n->model=m; jump(*n,kv.first); pushWork(n); }
        if(other) addPC(s,conds[my]); maybeShare(); jump(s,my); return; }
      for(auto& k: d.cases) if(k.first==x){ jump(s,k.second); return; } jump(s,d.b0); return; }
    case Instruction::Ret: { Val v; bool hv=!d.o.empty(); if(hv) v=get(s,d.o[0]); int rs=f.retslot, nrm=f.nrm; popFrame(s); if(s.st.empty()) throw EndPath{"done",""}; if(hv&&rs>=0) s.st.back().r[rs]=v; if(nrm>=0) jump(s,nrm); else s.st.back().pc++; return; }
    case Instruction::Unreachable: { needModel(s); report(s,s.model,"unreachable","control reached code the compiler assumed unreachable (missing return / undefined behaviour)",I); throw EndPath{"violation","unreachable"}; }
    case Instruction::LandingPad: { std::vector<Val> v{Val::I(s.cur.p,64),Val::I((uint32_t)f.exSel,32)}; set(Val::A(std::move(v))); adv(); return; }
    case Instruction::Resume: { unwind(s,I); return; }
    case Instruction::Fence: adv(); return;
    case Instruction::AtomicRMW: { auto* rm=cast<AtomicRMWInst>(I); Val old=doLoad(s,d.o[0],d.ty,I); Val v=get(s,d.o[1]); Val nv; switch(rm->getOperation()){ case AtomicRMWInst::Add: nv=binop(Instruction::Add,old,v,d.bits); break; case AtomicRMWInst::Sub: nv=binop(Instruction::Sub,old,v,d.bits); break; case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::And: nv=binop(Instruction::And,old,v,d.bits); break; case AtomicRMWInst::Or: nv=binop(Instruction::Or,old,v,d.bits); break; default: throw EndPath{"unsupported","atomicrmw"}; } doStore(s,d.o[0],d.ty,nv,I); set(old); adv(); return; }
    case Instruction::AtomicCmpXchg: { Type* t=I->getOperand(1)->getType(); Val old=doLoad(s,d.o[0],t,I); Val c=icmp(CmpInst::ICMP_EQ,old,get(s,d.o[1])); if(c.k!=KI) throw EndPath{"unsupported","symbolic cmpxchg"}; if(c.u) doStore(s,d.o[0],t,get(s,d.o[2]),I); set(Val::A({old,c})); adv(); return; }
    case Instruction::Call: case Instruction::Invoke: {
      int nrm=-1,unw=-1; if(d.op==Instruction::Invoke){nrm=d.b0;unw=d.b1;}
      auto done=[&]{ if(nrm>=0) jump(s,nrm); else s.st.back().pc++; };
      if(!d.callee){ Val t=get(s,d.o.back()); if(t.k==KS){ concOp(s,d.o.back()); t=get(s,d.o.back()); } if(t.k!=KI) memErr(s,"call through an invalid function pointer",I); if(isa<InlineAsm>(cast<CallBase>(I)->getCalledOperand())){ done(); return; } auto it=faddr.find(t.u); if(it==faddr.end()) memErr(s,"call through an invalid function pointer",I); std::vector<Val> a; for(size_t i=0;i+1<d.o.size();++i) a.push_back(get(s,d.o[i])); int bid=builtinId(it->second); if(bid!=B_NONE){ if(bid==B_NOP||bid==B_PRINTF){ done(); return;} if(bid==B_WHAT){ static uint64_t e=0; if(!e){ ObjP o=newObj(s,16,OCONST,"what"); memset(&o->m[0],1,16); e=o->base; } set(Val::I(e,64)); done(); return; } throw EndPath{"unsupported","indirect call to "+it->second->getName().str()}; } DFunc* df=getFunc(it->second); pushCall(s,df,a,d.dst,nrm,unw); return; }
      if(d.builtin==B_NONE){ if(!d.dcallee) d.dcallee=getFunc(d.callee); std::vector<Val> a; a.reserve(d.o.size()); for(auto& o: d.o) a.push_back(get(s,o)); pushCall(s,d.dcallee,a,d.dst,nrm,unw); return; }
      const std::string& nm=bname[d.callee];
      switch(d.builtin){
        case B_NOP: done(); return;
        case B_RET0: if(d.tk==1||d.tk==3) set(Val::I(nm=="omp_get_max_threads"?1:0,d.bits)); else set(undefOf(d.ty)); done(); return;
        case B_PRINTF: if(d.tk==1) set(Val::I(0,d.bits)); done(); return;
        case B_RETARG0: set(get(s,d.o[0])); done(); return;
        case B_NEW: case B_NEWARR: case B_MALLOC: case B_ALIGNEDNEW: { uint64_t n=concOp(s,d.o[0]); if(n>(1ull<<30)){ // std::bad_alloc
              throw EndPath{"unsupported","allocation larger than 1 GB"}; }
            set(Val::I(heapAlloc(s,n,d.builtin==B_MALLOC?1:d.builtin==B_NEWARR?3:2),64)); done(); return; }
        case B_CALLOC: { uint64_t n=concOp(s,d.o[0])*concOp(s,d.o[1]); uint64_t p=heapAlloc(s,n,1); auto& o=s.mem[p]; std::fill(o->m.begin(),o->m.end(),1); set(Val::I(p,64)); done(); return; }
        case B_REALLOC: { uint64_t p=concOp(s,d.o[0]), n=concOp(s,d.o[1]); uint64_t q=heapAlloc(s,n,1); if(p){ uint64_t os=s.mem[p]->size; memCopy(s,q,p,std::min(os,n),I); heapFree(s,p,1,I);} set(Val::I(q,64)); done(); return; }
        case B_FREE: case B_DEL: case B_DELARR: { Val pv=get(s,d.o[0]); if(pv.k==KU) memErr(s,"free of an uninitialised pointer",I); uint64_t p=concOp(s,d.o[0]); heapFree(s,p,d.builtin==B_FREE?1:d.builtin==B_DEL?2:3,I); done(); return; }
        case B_MEMCPY: { uint64_t n=concOp(s,d.o[2]); uint64_t a=concOp(s,d.o[0]), b=concOp(s,d.o[1]); memCopy(s,a,b,n,I); if(d.tk==3) set(Val::I(a,64)); done(); return; }
        case B_MEMSET: { uint64_t n=concOp(s,d.o[2]); uint64_t a=concOp(s,d.o[0]); Val v=get(s,d.o[1]); if(n){ ObjP* o=findObj(s,a); if(!o||a+n>(*o)->base+(*o)->size) memErr(s,"out-of-bounds write in memset",I); Obj& D=wr(*o); uint64_t off=a-D.base; clearOv(D,off,n); if(v.k==KI){ memset(&D.b[off],(int)(v.u&0xff),n); memset(&D.m[off],1,n);} else if(v.k==KU) memset(&D.m[off],0,n); else { Val b8=v.bits==8?v:mkS(K(Z3_mk_extract(C,7,0,v.a)),8); for(uint64_t i=0;i<n;++i) wrVal(D,off+i,1,b8); } } if(d.tk==3) set(Val::I(a,64)); done(); return; }
        case B_ABORT: needModel(s); report(s,s.model,"abort","the program terminates abnormally ("+nm+")",I); throw EndPath{"violation","abort"};
        case B_ASSERTFAIL: needModel(s); report(s,s.model,"abort","assertion in the code under test failed: "+cstr(s,get(s,d.o[0]).u),I); throw EndPath{"violation","abort"};
        case B_UNSUP: throw EndPath{"unsupported","external function "+demangle(nm)};
        case B_VPSYM: set(Val::I(1,d.bits)); done(); return;
        case B_VPINT: { std::string n=cstr(s,concOp(s,d.o[0])); int64_t lo=(int64_t)concOp(s,d.o[1]), hi=(int64_t)concOp(s,d.o[2]); if(lo==hi){ s.inputs.push_back({'i',64,Val::I((uint64_t)lo,64),strdup(n.c_str())}); set(Val::I((uint64_t)lo,64)); done(); return; } unsigned w=1; while(w<63&&(lo<-(1ll<<(w-1))||hi>(1ll<<(w-1))-1)) ++w; if(lo==INT64_MIN||hi==INT64_MAX) w=64; if(w<2) w=2; Z3_ast x=freshConst(n.c_str(),bvS(w)); Z3_ast e=w==64?x:K(Z3_mk_sign_ext(C,64-w,x)); Z3_ast c=mkAnd(K(Z3_mk_bvsge(C,x,bvNum((uint64_t)lo&(w==64?~0ull:(1ull<<w)-1),w))),K(Z3_mk_bvsle(C,x,bvNum((uint64_t)hi&(w==64?~0ull:(1ull<<w)-1),w)))); Val v=Val::S(e,64); s.inputs.push_back({'i',64,v,strdup(n.c_str())}); assumeFresh(s,c); set(v); done(); return; }
        case B_VPCHOOSE: { std::string n=cstr(s,concOp(s,d.o[0])); int64_t lo=(int64_t)concOp(s,d.o[1]), hi=(int64_t)concOp(s,d.o[2]); if(hi<lo) throw EndPath{"infeasible",""}; const char* nm2=strdup(n.c_str()); for(int64_t v=hi;v>lo;--v){ State* c=clone(s); c->inputs.push_back({'i',64,Val::I((uint64_t)v,64),nm2}); if(d.dst>=0) c->st.back().r[d.dst]=Val::I((uint64_t)v,64); if(nrm>=0) jump(*c,nrm); else c->st.back().pc++; pushWork(c); } s.inputs.push_back({'i',64,Val::I((uint64_t)lo,64),nm2}); set(Val::I((uint64_t)lo,64)); done(); maybeShare(); return; }
        case B_VPREAL: case B_VPREALINT: { std::string n=cstr(s,concOp(s,d.o[0])); double lo=get(s,d.o[1]).dbl(), hi=get(s,d.o[2]).dbl(); Z3_ast x= d.builtin==B_VPREAL? freshConst(n.c_str(),realS()) : K(Z3_mk_int2real(C,freshConst(n.c_str(),intS()))); Val v=Val::R(x,64); s.inputs.push_back({'d',64,v,strdup(n.c_str())}); normBound(x,lo,hi); assumeFresh(s,mkAnd(K(Z3_mk_ge(C,x,realNum(lo))),K(Z3_mk_le(C,x,realNum(hi))))); set(v); done(); return; }
        case B_VPFP64: case B_VPFP32: { std::string n=cstr(s,concOp(s,d.o[0])); unsigned b=d.builtin==B_VPFP64?64:32; Val v=Val::P(freshConst(n.c_str(),fpS(b)),b); s.inputs.push_back({'d',b,v,strdup(n.c_str())}); set(v); done(); return; }
        case B_VPASSUME: { Val c=get(s,d.o[0]); if(c.bits!=1&&c.k==KS) c=mkB(mkNot(bvEq(c.a,bvNum(0,c.bits),c.bits))); if(c.k==KI){ if(!(c.u&0xff)) throw EndPath{"assume",""}; done(); return; } if(c.k==KU) throw EndPath{"undef","assume on undef"}; addPC(s,c.a); if(s.model&&evalBool(s,c.a)!=1) s.model=nullptr; if(!s.model){ Z3_model m=nullptr; Res r=query(s.pc,mkTrue(),&m); if(r==Res::Unsat) throw EndPath{"assume",""}; if(r==Res::Unknown){SH->incomplete++; throw EndPath{"solver-unknown","assume"};} s.model=m; } done(); return; }
        case B_VPASSERT: { Val c=get(s,d.o[0]); if(c.bits!=1&&c.k==KS) c=mkB(mkNot(bvEq(c.a,bvNum(0,c.bits),c.bits))); if(c.k==KI) c=Val::I((c.u&0xff)!=0,1); checkAssert(s,c,cstr(s,concOp(s,d.o[1])),I); done(); return; }
        case B_VPEQ: case B_VPLE: { Val a=get(s,d.o[0]), b=get(s,d.o[1]); std::string msg=cstr(s,concOp(s,d.o[2])); Val c; Z3_ast strong=nullptr; bool eq=d.builtin==B_VPEQ; if(a.k==KF&&b.k==KF){ double x=a.dbl(),y=b.dbl(); double tol=1e-9*(1+std::fabs(x)+std::fabs(y)); bool ok= eq? (x==y||std::fabs(x-y)<=tol) : (x<=y+tol); c=Val::I(ok,1);} else if(a.k==KR||b.k==KR){ Z3_ast x=rl(a), y=rl(b); // comparison with a 1e-9 slack absorbs rounded constants in the code
              Z3_ast df[2]={x,y}; Z3_ast dd=linear(K(Z3_mk_sub(C,2,df))); Z3_ast up=K(Z3_mk_le(C,dd,realNum(1e-9))); c=mkB(eq? mkAnd(up,K(Z3_mk_ge(C,dd,realNum(-1e-9)))) : up); strong=K(Z3_mk_ge(C,dd,realNum(0.0625))); if(eq) strong=mkOr(strong,K(Z3_mk_le(C,dd,realNum(-0.0625))));
              if(eq&&O.norm){ double z; double t=now(); bool ok=normDiffConst(x,y,z); QS.secs+=now()-t; if(ok&&std::fabs(z)<=1e-9){ asserts++; assertsSym++; QS.queries++; QS.unsat++; QS.simp++; done(); return; } }
              if(eq){ // exact equality first (usually decided by normalisation alone)
                static Z3_params p=[]{ Z3_params q=Z3_mk_params(C); Z3_params_inc_ref(C,q); Z3_params_set_bool(C,q,Z3_mk_string_symbol(C,"som"),true); return q; }(); double t=now(); Z3_ast sd=K(Z3_simplify_ex(C,dd,p)); QS.secs+=now()-t; double z; if(realConst(sd,z)&&std::fabs(z)<=1e-9){ asserts++; assertsSym++; QS.queries++; QS.unsat++; QS.simp++; done(); return; } } } else c= eq? mkB(mkEq(fp(a,64),fp(b,64))) : fcmp(CmpInst::FCMP_OLE,a,b); checkAssert(s,c,msg,I,strong); done(); return; }
        case B_VPCOVER: { std::string n=cstr(s,concOp(s,d.o[0])); if(!covers.count(n)){ needModel(s); covers.insert(n);} done(); return; }
        case B_VPNOTE: s.trace.push_back(cstr(s,concOp(s,d.o[0]))); done(); return;
        case B_VPISCONC: { Val v=get(s,d.o[0]); set(Val::I(v.conc(),d.bits)); done(); return; }
        case B_EXALLOC: { uint64_t n=concOp(s,d.o[0]); set(Val::I(heapAlloc(s,n<8?8:n,9),64)); done(); return; }
        case B_EXFREE: done(); return;
        case B_THROW: { s.cur={concOp(s,d.o[0]),concOp(s,d.o[1])}; // throw from this frame
            if(nrm>=0){ Frame& g=s.st.back(); // emulate a callee frame so that unwind() looks at our own invoke
              Frame dummy; dummy.f=g.f; dummy.nrm=nrm; dummy.unw=unw; s.st.push_back(dummy); } unwind(s,I); return; }
        case B_BEGINCATCH: { uint64_t p=concOp(s,d.o[0]); s.caught.push_back(s.cur); set(Val::I(p,64)); done(); return; }
        case B_ENDCATCH: { if(!s.caught.empty()) s.caught.pop_back(); done(); return; }
        case B_EXPTR: set(get(s,d.o[0])); done(); return;
        case B_RETHROW: { if(s.caught.empty()) throw EndPath{"unsupported","rethrow without exception"}; s.cur=s.caught.back(); if(nrm>=0){ Frame dummy; dummy.f=s.st.back().f; dummy.nrm=nrm; dummy.unw=unw; s.st.push_back(dummy); } unwind(s,I); return; }
        case B_TYPEIDFOR: { uint64_t ti=concOp(s,d.o[0]); set(Val::I(ti==0?0x7fffffff:((ti>>4)&0x7fffffff),32)); done(); return; }
        case B_GUARDACQ: { uint64_t p=concOp(s,d.o[0]); ObjP* o=findObj(s,p); Obj& g=wr(*o); uint64_t off=p-g.base; bool init=g.b[off]!=0; g.b[off]=1; g.m[off]=1; set(Val::I(init?0:1,d.bits)); done(); return; }
        case B_WHAT: { static uint64_t e=0; if(!e||!s.mem.count(e)){ ObjP o=newObj(s,16,OCONST,"what"); memset(&o->m[0],1,16); e=o->base; } set(Val::I(e,64)); done(); return; }
        case B_M1: { Val a=get(s,d.o[0]); set(vmap1(a,[&](const Val&x){return math1(s,nm,x,x.bits?x.bits:64);})); done(); return; }
        case B_M2: { set(vmap2(get(s,d.o[0]),get(s,d.o[1]),[&](const Val&x,const Val&y){return math2(s,nm,x,y,d.bits?d.bits:64);})); done(); return; }
        case B_CABS: { set(math2(s,"hypot",get(s,d.o[0]),get(s,d.o[1]),64)); done(); return; }
        case B_POWI: { Val a=get(s,d.o[0]); uint64_t e=concOp(s,d.o[1]); int ee=(int)Val::I(e,32).s(); set(math2(s,"pow",a,Val::F((double)ee),d.bits)); done(); return; }
        case B_LDEXP: { Val a=get(s,d.o[0]); int e=(int)Val::I(concOp(s,d.o[1]),32).s(); set(a.k==KF?Val::F(ldexp(a.dbl(),e)):fbin(Instruction::FMul,a,Val::F(ldexp(1.0,e)),64)); done(); return; }
        case B_FREXP: { Val a=get(s,d.o[0]); if(a.k!=KF) throw EndPath{"unsupported","frexp"}; int e; double m=frexp(a.dbl(),&e); doStore(s,d.o[1],Type::getInt32Ty(M->getContext()),Val::I((uint64_t)(int64_t)e,32),I); set(Val::F(m)); done(); return; }
        case B_FMA: { Val a=get(s,d.o[0]),b=get(s,d.o[1]),c=get(s,d.o[2]); set(fbin(Instruction::FAdd,fbin(Instruction::FMul,a,b,d.bits),c,d.bits)); done(); return; }
        case B_LROUND: { Val a=get(s,d.o[0]); if(a.k==KF){ set(Val::I((uint64_t)(int64_t)llround(a.dbl()),d.bits)); done(); return;} Val r=math1(s,"round",a,64); set(fromReal2Int(s,rl(r),d.bits,true,I)); done(); return; }
        case B_ABSI: { set(vmap1(get(s,d.o[0]),[&](const Val&a)->Val{ if(a.k==KU) return a; if(a.k==KI) return Val::I((uint64_t)(a.s()<0?-a.s():a.s()),a.bits); Z3_ast n=K(Z3_mk_bvslt(C,a.a,bvNum(0,a.bits))); return mkS(mkIte(n,K(Z3_mk_bvneg(C,a.a)),a.a),a.bits);})); done(); return; }
        case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: { auto p= d.builtin==B_SMAX?CmpInst::ICMP_SGT:d.builtin==B_SMIN?CmpInst::ICMP_SLT:d.builtin==B_UMAX?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; set(vmap2(get(s,d.o[0]),get(s,d.o[1]),[&](const Val&a,const Val&b)->Val{ if(a.k==KU) return a; if(b.k==KU) return b; Val c=icmp(p,a,b); if(c.k==KI) return c.u?a:b; return selectV(c.a,a,b);})); done(); return; }
        case B_CTLZ: case B_CTTZ: case B_CTPOP: case B_BSWAP: { uint64_t u=concOp(s,d.o[0]); unsigned n=d.bits; uint64_t r=0; if(d.builtin==B_CTPOP) r=__builtin_popcountll(u); else if(d.builtin==B_CTLZ) r=u? __builtin_clzll(u)-(64-n) : n; else if(d.builtin==B_CTTZ) r=u?__builtin_ctzll(u):n; else r=__builtin_bswap64(u)>>(64-n); set(Val::I(r,n)); done(); return; }
        case B_FSHL: case B_FSHR: { uint64_t a=concOp(s,d.o[0]),b=concOp(s,d.o[1]),c=concOp(s,d.o[2])%d.bits; unsigned n=d.bits; uint64_t r; if(d.builtin==B_FSHL) r= c? (a<<c)|(b>>(n-c)) : a; else r= c? (b>>c)|(a<<(n-c)) : b; set(Val::I(r,n)); done(); return; }
        case B_OVF: { Val a=get(s,d.o[0]), b=get(s,d.o[1]); unsigned n=a.bits; bool sg=nm[5]=='s'; std::string op=nm.substr(6,3); if(a.k==KU||b.k==KU){ set(undefOf(d.ty)); done(); return; }
            if(a.k==KI&&b.k==KI){ __int128 x= sg?(__int128)a.s():(__int128)(unsigned __int128)a.u, y= sg?(__int128)b.s():(__int128)(unsigned __int128)b.u; bool ov; uint64_t r; if(op=="mul"){ if(sg){ __int128 p=x*y; r=(uint64_t)p; ov= Val::I(r,n).s()!=p; } else { unsigned __int128 p=(unsigned __int128)a.u*b.u; r=(uint64_t)p; ov= (n>=64? (p>>64)!=0 : (p>>n)!=0); } } else { __int128 p= op=="add"?x+y:x-y; r=(uint64_t)p; ov= sg? Val::I(r,n).s()!=p : (p<0|| (n>=64? (p>>64)!=0:(p>>n)!=0)); } set(Val::A({Val::I(r,n),Val::I(ov,1)})); done(); return; }
            Z3_ast x=bv(a),y=bv(b); Z3_ast X=K(sg?Z3_mk_sign_ext(C,n,x):Z3_mk_zero_ext(C,n,x)), Y=K(sg?Z3_mk_sign_ext(C,n,y):Z3_mk_zero_ext(C,n,y)); Z3_ast P= op=="mul"?Z3_mk_bvmul(C,X,Y):op=="add"?Z3_mk_bvadd(C,X,Y):Z3_mk_bvsub(C,X,Y); K(P); Z3_ast lo=K(Z3_mk_extract(C,n-1,0,P)); Z3_ast back=K(sg?Z3_mk_sign_ext(C,n,lo):Z3_mk_zero_ext(C,n,lo)); Val r=binop(op=="mul"?Instruction::Mul:op=="add"?Instruction::Add:Instruction::Sub,a,b,n); set(Val::A({r,mkB(mkNot(mkEq(P,back)))})); done(); return; }
        case B_SAT: { Val a=get(s,d.o[0]), b=get(s,d.o[1]); unsigned n=a.bits; if(nm.find("usub")!=std::string::npos){ Val c=icmp(CmpInst::ICMP_UGT,a,b); Val r=binop(Instruction::Sub,a,b,n); set(c.k==KI?(c.u?r:Val::I(0,n)):selectV(bv(c),r,Val::I(0,n))); done(); return; } if(nm.find("uadd")!=std::string::npos){ Val r=binop(Instruction::Add,a,b,n); Val c=icmp(CmpInst::ICMP_ULT,r,a); set(c.k==KI?(c.u?Val::I(~0ull,n):r):selectV(bv(c),Val::I(~0ull,n),r)); done(); return; } throw EndPath{"unsupported",nm}; }
        case B_OBJSIZE: set(Val::I(~0ull,d.bits)); done(); return;
        case B_ISFPCLASS: { Val a=get(s,d.o[0]); uint64_t m=concOp(s,d.o[1]); if(a.k==KF){ double x=a.dbl(); unsigned c; if(std::isnan(x)) c=2; else if(std::isinf(x)) c=x<0?4:512; else if(x==0) c=std::signbit(x)?32:64; else { bool nr=std::isnormal(x); c= x<0?(nr?8:16):(nr?256:128);} set(Val::I((m&(c|(c==2?1:0)))!=0,1)); done(); return; } if(a.k==KR){ Z3_ast r=mkFalse(); if(m&(8|16)) r=mkOr(r,K(Z3_mk_lt(C,a.a,realNum(0)))); if(m&(32|64)) r=mkOr(r,mkEq(a.a,realNum(0))); if(m&(128|256)) r=mkOr(r,K(Z3_mk_gt(C,a.a,realNum(0)))); set(mkB(r)); done(); return; } Z3_ast x=fp(a,a.bits), r=mkFalse(); Z3_ast neg=K(Z3_mk_fpa_is_negative(C,x)); auto q=[&](unsigned bit,Z3_ast c,bool n){ if(m&bit) r=mkOr(r,mkAnd(c,n?neg:mkNot(neg))); }; if(m&3) r=mkOr(r,K(Z3_mk_fpa_is_nan(C,x))); q(4,K(Z3_mk_fpa_is_infinite(C,x)),true); q(8,K(Z3_mk_fpa_is_normal(C,x)),true); q(16,K(Z3_mk_fpa_is_subnormal(C,x)),true); q(32,K(Z3_mk_fpa_is_zero(C,x)),true); q(64,K(Z3_mk_fpa_is_zero(C,x)),false); q(128,K(Z3_mk_fpa_is_subnormal(C,x)),false); q(256,K(Z3_mk_fpa_is_normal(C,x)),false); q(512,K(Z3_mk_fpa_is_infinite(C,x)),false); set(mkB(r)); done(); return; }
        case B_MEMCMP: { uint64_t n=concOp(s,d.o[2]); uint64_t a=concOp(s,d.o[0]), b=concOp(s,d.o[1]); if(!n){ set(Val::I(0,d.bits)); done(); return;} ObjP* x=findObj(s,a); ObjP* y=findObj(s,b); if(!x||!y||a+n>(*x)->base+(*x)->size||b+n>(*y)->base+(*y)->size) memErr(s,"out-of-bounds read in memcmp",I); Type* t8=Type::getInt8Ty(M->getContext()); Val r=Val::I(0,d.bits); bool sym=false; std::vector<std::pair<Val,Val>> v; for(uint64_t i=0;i<n;++i){ Val p=rdVal(**x,a+i-(*x)->base,1,t8), q=rdVal(**y,b+i-(*y)->base,1,t8); v.push_back({p,q}); if(p.k!=KI||q.k!=KI) sym=true; } if(!sym){ int c=0; for(auto&w:v) if(w.first.u!=w.second.u){ c=w.first.u<w.second.u?-1:1; break; } set(Val::I((uint64_t)(int64_t)c,d.bits)); done(); return; } for(size_t i=v.size();i-->0;){ Val lt=icmp(CmpInst::ICMP_ULT,v[i].first,v[i].second), ne=icmp(CmpInst::ICMP_NE,v[i].first,v[i].second); Val w=lt.k==KI?(lt.u?Val::I(~0ull,d.bits):Val::I(1,d.bits)):selectV(bv(lt),Val::I(~0ull,d.bits),Val::I(1,d.bits)); r= ne.k==KI?(ne.u?w:r):selectV(bv(ne),w,r); } set(r); done(); return; }
        case B_VREDUCE: { Val a=get(s,d.o.back()); if(a.k!=KA) throw EndPath{"unsupported",nm}; Val r=(*a.agg)[0]; for(size_t i=1;i<a.agg->size();++i){ const Val& x=(*a.agg)[i]; if(nm.find(".add.")!=std::string::npos) r=binop(Instruction::Add,r,x,r.bits); else if(nm.find(".mul.")!=std::string::npos) r=binop(Instruction::Mul,r,x,r.bits); else if(nm.find(".or.")!=std::string::npos) r=binop(Instruction::Or,r,x,r.bits); else if(nm.find(".and.")!=std::string::npos) r=binop(Instruction::And,r,x,r.bits); else if(nm.find(".xor.")!=std::string::npos) r=binop(Instruction::Xor,r,x,r.bits); else throw EndPath{"unsupported",nm}; } set(r); done(); return; }
      }
      throw EndPath{"unsupported","builtin "+nm}; }
    case Instruction::VAArg: default: throw EndPath{"unsupported",std::string("instruction ")+I->getOpcodeName()};
  } }

static void runState(State& s){
  uint64_t chk=0; 
  try {
    while(true){
      if((++chk&0xff)==0){ if(SH->stop||now()-T0>O.timeLimit){ SH->stop=1; throw EndPath{"timeout","time limit reached"}; } }
      if(s.steps>O.maxSteps){ needModel(s); if(O.hang) report(s,s.model,"steps","step bound exceeded (possible non-termination)",s.st.empty()?nullptr:s.st.back().f->bl[s.st.back().bb].in[std::min<size_t>(s.st.back().pc,s.st.back().f->bl[s.st.back().bb].in.size()-1)].I); throw EndPath{"steps","step bound exceeded"}; }
      stepInst(s); }
  } catch(EndPath& e){ if(O.hang&&!strcmp(e.why,"timeout")&&s.model&&s.steps>20000&&s.steps>SH->maxDone&&SH->hangs++<6) report(s,s.model,"steps","step bound exceeded (possible non-termination)",s.st.empty()?nullptr:s.st.back().f->bl[s.st.back().bb].in[std::min<size_t>(s.st.back().pc,s.st.back().f->bl[s.st.back().bb].in.size()-1)].I);
    if(!strcmp(e.why,"done")){ uint64_t m=SH->maxDone; while(m<s.steps&&!SH->maxDone.compare_exchange_weak(m,s.steps)); }
    SH->paths++; SH->steps+=s.steps; std::string w=e.why; if(w=="unsupported"||w=="undef"||w=="steps"||w=="timeout"||w=="solver-unknown"){ if(w!="solver-unknown") SH->incomplete++; if(notes.size()<20){ std::string st; for(size_t i=0;i<s.st.size()&&i<6;++i) st+=" < "+demangle(s.st[s.st.size()-1-i].f->name).substr(0,80); notes.push_back(w+": "+e.msg+(s.st.empty()?"":st)); } } else if(w=="done"&&nSamples<O.samples){ ++nSamples; try{ needModel(s); outLines.push_back("{\"type\":\"sample\",\"inputs\":"+modelInputs(s,s.model)+"}"); }catch(...){} } else if(w=="nonfinite"&&notes.size()<20) notes.push_back(w+": "+e.msg+" in "+(s.st.empty()?"":demangle(s.st.back().f->name).substr(0,120))); ended[w]++; }
}
static void finish(){
  std::string l="{\"type\":\"stats\",\"queries\":"+std::to_string(QS.queries)+",\"sat\":"+std::to_string(QS.sat)+",\"unsat\":"+std::to_string(QS.unsat)+",\"unknown\":"+std::to_string(QS.unknown)+",\"simp\":"+std::to_string(QS.simp)+",\"solver_s\":"+std::to_string(QS.secs)+",\"asserts\":"+std::to_string(asserts)+",\"asserts_sym\":"+std::to_string(assertsSym)+",\"mem_checks\":"+std::to_string(memChecks)+",\"ended\":{"; bool f=true; for(auto&e:ended){ l+=(f?"\"":",\"")+jesc(e.first)+"\":"+std::to_string(e.second); f=false; } l+="},\"covers\":["; f=true; for(auto&c:covers){ l+=(f?"\"":",\"")+jesc(c)+"\""; f=false;} l+="],\"notes\":["; f=true; for(auto&c:notes){ l+=(f?"\"":",\"")+jesc(c)+"\""; f=false;} l+="],\"funcs\":["; f=true; for(auto&c:funcsSeen){ l+=(f?"\"":",\"")+jesc(c)+"\""; f=false;} l+="]}"; outLines.push_back(l); flushOut(); }
static void resetStats(){ QS=QStats(); asserts=assertsSym=memChecks=0; ended.clear(); notes.clear(); outLines.clear(); nSamples=0; }
static int waitKids(){ int bad=0; for(pid_t k: kids){ int st; if(waitpid(k,&st,0)>0&&(!WIFEXITED(st)||WEXITSTATUS(st)!=0)) ++bad; } kids.clear(); return bad; }
static void workerLoop(){ while(!work.empty()){ if(SH->stop||SH->viol>=40||SH->paths>=O.maxPaths){ if(SH->paths>=O.maxPaths||SH->viol>=40) SH->stop=1; ended["dropped"]+=work.size(); SH->incomplete++; break; } State* s=work.back(); work.pop_back(); runState(*s); delete s; maybeShare(); } }
static std::atomic<int> *POOL=nullptr; // worker slots shared by the entries of one check
static void openPool(const char* f){ int fd=open(f,O_RDWR|O_CREAT,0600); if(fd<0) return; if(ftruncate(fd,64)){} void* p=mmap(nullptr,64,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); if(p!=MAP_FAILED) POOL=(std::atomic<int>*)p; }
static void maybeShare(){
  std::atomic<int>& A= POOL? *POOL : SH->active;
  if(O.jobs<=1||work.empty()||A.load()>=O.jobs||SH->stop) return;
  int a=A.fetch_add(1); if(a>=O.jobs){ A--; return; }
  pid_t p=fork(); if(p<0){ A--; return; }
  size_t h=(work.size()+1)/2;
  if(p==0){ isRoot=false; kids.clear(); resetStats(); work.resize(h); int rc=0; try{ workerLoop(); } catch(std::exception& e){ fprintf(stderr,"worker: %s\n",e.what()); rc=3; } finish(); A--; if(waitKids()) rc=4; _exit(rc); }
  kids.push_back(p); for(size_t i=0;i<h;++i) delete work[i]; work.erase(work.begin(),work.begin()+h); }

static void z3err(Z3_context c, Z3_error_code e){ std::string m=Z3_get_error_msg(c,e); throw std::runtime_error("z3: "+m); }
static void initConst(State& s, Obj& o, uint64_t off, const Constant* c){
  Type* t=c->getType(); if(isa<UndefValue>(c)) { return; }
  if(c->isNullValue()){ uint64_t n=DL->getTypeAllocSize(t); memset(&o.b[off],0,n); memset(&o.m[off],1,n); return; }
  if(auto* st=dyn_cast<StructType>(t)){ auto* L=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();++i) initConst(s,o,off+L->getElementOffset(i),c->getAggregateElement(i)); return; }
  if(auto* cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy(&o.b[off],r.data(),r.size()); memset(&o.m[off],1,r.size()); return; }
  if(auto* at=dyn_cast<ArrayType>(t)){ uint64_t e=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();++i) initConst(s,o,off+i*e,c->getAggregateElement(i)); return; }
  Val v=constVal(c); unsigned n=(unsigned)DL->getTypeStoreSize(t); if(v.k==KA){ ObjP tmp; fatal("vector const init"); } wrVal(o,off,n,v); }
int realMain(int argc,char** argv){
  { rlimit rl{6ull<<30,6ull<<30}; setrlimit(RLIMIT_AS,&rl); }
  if(argc<3){ fprintf(stderr,"usage: sx <bitcode> <entry> [opts]\n"); return 2; }
  std::string file=argv[1]; O.entry=argv[2]; for(int i=3;i<argc;++i){ std::string a=argv[i]; auto v=[&]{return std::string(argv[++i]);}; if(a=="--out") O.out=v(); else if(a=="--qtime") O.qtime=(unsigned)std::stoul(v()); else if(a=="--pool") openPool(v().c_str()); else if(a=="--jobs") O.jobs=atoi(v().c_str()); else if(a=="--time") O.timeLimit=atof(v().c_str()); else if(a=="--steps") O.maxSteps=strtoull(v().c_str(),0,10); else if(a=="--rlimit") O.rlimit=strtoull(v().c_str(),0,10); else if(a=="--solver") O.solver=v(); else if(a=="--paths") O.maxPaths=strtoull(v().c_str(),0,10); else if(a=="--samples") O.samples=atoi(v().c_str()); else if(a=="--nonorm") O.norm=false; else if(a=="--maxviol") O.maxViol=atoi(v().c_str()); }
  if(O.out.empty()) O.out="/dev/stdout";
  T0=now(); SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(SH) Shared(); SH->active=1; if(POOL) ++*POOL;
  LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(file,err,ctx); if(!mod){ err.print("sx",errs()); return 2; } M=mod.get(); DL=&M->getDataLayout();
  Z3_config cfg=Z3_mk_config(); C=Z3_mk_context_rc(cfg); Z3_set_error_handler(C,z3err); Z3_set_ast_print_mode(C,Z3_PRINT_LOW_LEVEL); solv=mkSolver(); initBuiltins();
  State* s=new State(); s->nextHeap=0x40000000ull; s->nextStack=0x4000000000ull;
  uint64_t fa=0x1000000; for(auto& F: *M){ gaddr[&F]=fa; faddr[fa]=&F; fa+=16; }
  for(auto& G: M->globals()){ uint64_t n=G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()):64; if(!G.hasInitializer()&&n<256) n=256; nextGlob=(nextGlob+63)/64*64; ObjP o=newObj(*s,n,OGLOB,"global"); gaddr[&G]=o->base; gname[o->base]=G.getName().str(); }
  for(auto& G: M->globals()){ ObjP o=s->mem[gaddr[&G]]; if(G.hasInitializer()) initConst(*s,*o,0,G.getInitializer()); else { std::fill(o->m.begin(),o->m.end(),1);
        if(has(G.getName().str(),"_ZTVSt")){ // opaque vtable: destructors are no-ops, what() returns ""
          if(auto* F=M->getFunction("_ZNKSt9exception4whatEv")) { uint64_t a=gaddr[F]; memcpy(&o->b[32],&a,8); } if(auto* F=M->getFunction("vp_dtor_nop")){ uint64_t a=gaddr[F]; memcpy(&o->b[16],&a,8); memcpy(&o->b[24],&a,8);} } }
    if(G.isConstant()) o->kind=OCONST; }
  Function* E=M->getFunction(O.entry); if(!E){ fprintf(stderr,"no entry %s\n",O.entry.c_str()); return 2; }
  try {
    if(auto* gc=M->getNamedGlobal("llvm.global_ctors")) if(auto* ca=dyn_cast<ConstantArray>(gc->getInitializer())){ std::vector<std::pair<int,Function*>> fs; for(unsigned i=0;i<ca->getNumOperands();++i){ auto* cs=cast<ConstantStruct>(ca->getOperand(i)); if(auto* F=dyn_cast<Function>(cs->getOperand(1))) fs.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),F}); } std::stable_sort(fs.begin(),fs.end(),[](auto&a,auto&b){return a.first<b.first;});
      for(auto& p: fs){ pushCall(*s,getFunc(p.second),{},-1,-1,-1); try{ while(true) stepInst(*s); } catch(EndPath& e){ if(std::string(e.why)!="done"){ fprintf(stderr,"global ctor %s: %s %s\n",p.second->getName().str().c_str(),e.why,e.msg.c_str()); notes.push_back(std::string("global ctor: ")+e.why+" "+e.msg); s->st.clear(); } } } }
    funcsSeen.clear(); s->steps=0;
    pushCall(*s,getFunc(E),{},-1,-1,-1); deadlineOn=true; work.push_back(s); workerLoop();
  } catch(std::exception& e){ fprintf(stderr,"engine error: %s\n",e.what()); notes.push_back(std::string("engine error: ")+e.what()); SH->incomplete++; finish(); if(POOL) --*POOL; return 3; }
  SH->active--; if(POOL) --*POOL; int bad=waitKids(); if(bad){ SH->incomplete++; notes.push_back("worker process failed"); } finish();
  char b[600]; snprintf(b,600,"{\"type\":\"final\",\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"violations\":%d,\"incomplete\":%d,\"max_path_steps\":%llu,\"wall_s\":%.3f,\"failed_workers\":%d}",(unsigned long long)SH->paths,(unsigned long long)SH->forks,(unsigned long long)SH->steps,SH->viol.load(),SH->incomplete.load(),(unsigned long long)SH->maxDone,now()-T0,bad); outLines.push_back(b); flushOut(); return bad?3:0; }
}
int main(int c,char**v){ return sx::realMain(c,v); }
