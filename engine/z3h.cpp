#include "z3h.h"
namespace sx {
Z3_context C; QStats QS;
Z3_sort bvS(unsigned b){ static std::map<unsigned,Z3_sort> m; auto&s=m[b]; if(!s){ s=Z3_mk_bv_sort(C,b); Z3_inc_ref(C,(Z3_ast)s);} return s; }
Z3_sort realS(){ static Z3_sort s=[]{auto x=Z3_mk_real_sort(C); Z3_inc_ref(C,(Z3_ast)x); return x;}(); return s; }
Z3_sort intS(){ static Z3_sort s=[]{auto x=Z3_mk_int_sort(C); Z3_inc_ref(C,(Z3_ast)x); return x;}(); return s; }
Z3_sort boolS(){ static Z3_sort s=[]{auto x=Z3_mk_bool_sort(C); Z3_inc_ref(C,(Z3_ast)x); return x;}(); return s; }
Z3_sort fpS(unsigned b){ static std::map<unsigned,Z3_sort> m; auto&s=m[b]; if(!s){ s= b==32?Z3_mk_fpa_sort_32(C):Z3_mk_fpa_sort_64(C); Z3_inc_ref(C,(Z3_ast)s);} return s; }
Z3_ast bvNum(uint64_t v, unsigned b){ if(b==1) return v&1?mkTrue():mkFalse(); return K(Z3_mk_unsigned_int64(C,v,bvS(b))); }
Z3_ast mkNot(Z3_ast a){
  if(isTrue(a)) return mkFalse(); if(isFalse(a)) return mkTrue();
  if(Z3_get_ast_kind(C,a)==Z3_APP_AST){ auto app=Z3_to_app(C,a); if(Z3_get_decl_kind(C,Z3_get_app_decl(C,app))==Z3_OP_NOT) return K(Z3_get_app_arg(C,app,0)); }
  return K(Z3_mk_not(C,a)); }
Z3_ast mkAnd(Z3_ast a, Z3_ast b){ if(isTrue(a)||a==b) return b; if(isTrue(b)) return a; if(isFalse(a)||isFalse(b)) return mkFalse(); Z3_ast x[2]={a,b}; return K(Z3_mk_and(C,2,x)); }
Z3_ast mkOr(Z3_ast a, Z3_ast b){ if(isFalse(a)||a==b) return b; if(isFalse(b)) return a; if(isTrue(a)||isTrue(b)) return mkTrue(); Z3_ast x[2]={a,b}; return K(Z3_mk_or(C,2,x)); }
Z3_ast mkEq(Z3_ast a, Z3_ast b){ if(a==b) return mkTrue();
  if(Z3_is_numeral_ast(C,a)&&Z3_is_numeral_ast(C,b)) return mkFalse(); // same sort, distinct hash-consed numerals
  if(isTrue(a)) return b; if(isTrue(b)) return a; if(isFalse(a)) return mkNot(b); if(isFalse(b)) return mkNot(a);
  return K(Z3_mk_eq(C,a,b)); }
Z3_ast mkIte(Z3_ast c, Z3_ast a, Z3_ast b){ if(a==b||isTrue(c)) return a; if(isFalse(c)) return b;
  if(isTrue(a)&&isFalse(b)) return c; if(isFalse(a)&&isTrue(b)) return mkNot(c);
  if(isTrue(a)) return mkOr(c,b); if(isFalse(a)) return mkAnd(mkNot(c),b); if(isTrue(b)) return mkOr(mkNot(c),a); if(isFalse(b)) return mkAnd(c,a);
  return K(Z3_mk_ite(C,c,a,b)); }
static std::string dblExact(double d){ // exact rational text of a finite double
  if(d==0) return "0";
  int e; double f=frexp(d,&e); int64_t mant=(int64_t)ldexp(f,53); e-=53;
  while(mant%2==0){mant/=2;++e;}
  std::string s=std::to_string(mant);
  auto pow2=[](int n){ // decimal string of 2^n
    std::vector<int> d{1}; for(int i=0;i<n;++i){ int c=0; for(auto&x:d){ x=x*2+c; c=x/10; x%=10;} if(c) d.push_back(c);} std::string r; for(auto it=d.rbegin();it!=d.rend();++it) r+=char('0'+*it); return r; };
  if(e>=0){ if(e==0) return s; if(e<10){ return std::to_string(mant*(1ll<<e)).size()<18 && std::abs((double)mant)*pow(2,e)<9e17? std::to_string(mant*(1ll<<e)) : "!"+s+"*"+pow2(e);} return "!"+s+"*"+pow2(e);} 
  return s+"/"+pow2(-e); }
Z3_ast realNum(double d){
  static std::unordered_map<uint64_t,Z3_ast> cache; uint64_t k; memcpy(&k,&d,8); auto it=cache.find(k); if(it!=cache.end()) return it->second;
  std::string s=dblExact(d); Z3_ast r;
  if(s[0]=='!'){ auto p=s.find('*'); Z3_ast x[2]={K(Z3_mk_numeral(C,s.substr(1,p-1).c_str(),realS())),K(Z3_mk_numeral(C,s.substr(p+1).c_str(),realS()))}; r=K(Z3_simplify(C,K(Z3_mk_mul(C,2,x)))); }
  else r=K(Z3_mk_numeral(C,s.c_str(),realS()));
  cache[k]=r; return r; }
Z3_ast realInt(int64_t v){ return K(Z3_mk_numeral(C,std::to_string(v).c_str(),realS())); }
Z3_ast fpNum(double d, unsigned bits){ return bits==32? K(Z3_mk_fpa_numeral_float(C,(float)d,fpS(32))) : K(Z3_mk_fpa_numeral_double(C,d,fpS(64))); }
bool realConst(Z3_ast a, double& out){ if(!Z3_is_numeral_ast(C,a)) return false; out=Z3_get_numeral_double(C,a); return true; }
Z3_ast freshConst(const char* base, Z3_sort s){ static unsigned n=0; std::string nm=std::string(base)+"!"+std::to_string(n++); return K(Z3_mk_const(C,Z3_mk_string_symbol(C,nm.c_str()),s)); }
}
