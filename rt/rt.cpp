// Bodies (as IR) for the out-of-line pieces of libstdc++/libc that the encoded code reaches.
// std::to_string(double): the digits are not modelled
#include <type_traits>
#include <cstdarg>
#include <bits/stringfwd.h>
#include <ext/string_conversions.h>
namespace __gnu_cxx { template<> std::string __to_xstring<std::string,char>(int (*)(char*,std::size_t,const char*,std::va_list), std::size_t, const char*, ...); }
#include <map>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <new>
#include <functional>
#include <cstring>
extern "C" {
void vp_dtor_nop(void*){}
size_t strlen(const char* s){ size_t n=0; while(s[n]) ++n; return n; }
int strcmp(const char* a,const char* b){ while(*a&&*a==*b){++a;++b;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char* a,const char* b,size_t n){ for(size_t i=0;i<n;++i){ if(a[i]!=b[i]) return (int)(unsigned char)a[i]-(int)(unsigned char)b[i]; if(!a[i]) return 0; } return 0; }
void* vp_memchr(const void* p,int c,size_t n){ auto s=(const unsigned char*)p; for(size_t i=0;i<n;++i) if(s[i]==(unsigned char)c) return (void*)(s+i); return nullptr; }
int isspace(int c){ return c==' '||(c>=9&&c<=13); } int isdigit(int c){ return c>='0'&&c<='9'; } int isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); } int isalnum(int c){ return isdigit(c)||isalpha(c); } int isupper(int c){ return c>='A'&&c<='Z'; } int islower(int c){ return c>='a'&&c<='z'; }
int toupper(int c){ return c>='a'&&c<='z'?c-32:c; } int tolower(int c){ return c>='A'&&c<='Z'?c+32:c; }
long strtol(const char* s,char** e,int b){ const char* p=s; while(isspace((unsigned char)*p)) ++p; bool neg=false; if(*p=='-'||*p=='+'){ neg=*p=='-'; ++p; } long r=0; bool any=false; while(*p>='0'&&*p<'0'+b){ r=r*b+(*p-'0'); ++p; any=true; } if(e) *e=(char*)(any?p:s); return neg?-r:r; }
unsigned long strtoul(const char* s,char** e,int b){ return (unsigned long)strtol(s,e,b); } long long strtoll(const char* s,char** e,int b){ return strtol(s,e,b); } unsigned long long strtoull(const char* s,char** e,int b){ return (unsigned long long)strtol(s,e,b); }
double strtod(const char* s,char** e){ const char* p=s; while(isspace((unsigned char)*p)) ++p; bool neg=false; if(*p=='-'||*p=='+'){ neg=*p=='-'; ++p; } double r=0; bool any=false; while(isdigit((unsigned char)*p)){ r=r*10+(*p-'0'); ++p; any=true; } if(*p=='.'){ ++p; double f=1; double d=0; while(isdigit((unsigned char)*p)){ d=d*10+(*p-'0'); f*=10; ++p; any=true; } r+=d/f; } if(any&&(*p=='e'||*p=='E')){ const char* q=p+1; bool en=false; if(*q=='-'||*q=='+'){ en=*q=='-'; ++q; } if(isdigit((unsigned char)*q)){ int x=0; while(isdigit((unsigned char)*q)){ x=x*10+(*q-'0'); ++q; } while(x--) r= en? r/10 : r*10; p=q; } } if(e) *e=(char*)(any?p:s); return neg?-r:r; }
float strtof(const char* s,char** e){ return (float)strtod(s,e); }
static int vp_errno; int* __errno_location(){ return &vp_errno; }
}
extern "C" void* memchr_alias(const void* p,int c,size_t n) __asm__("memchr"); void* memchr_alias(const void* p,int c,size_t n){ return vp_memchr(p,c,n); }
namespace std {
void __throw_length_error(const char* s){ throw length_error(s); }
void __throw_logic_error(const char* s){ throw logic_error(s); }
void __throw_out_of_range(const char* s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s,...){ throw out_of_range(s); }
void __throw_invalid_argument(const char* s){ throw invalid_argument(s); }
void __throw_domain_error(const char* s){ throw domain_error(s); }
void __throw_runtime_error(const char* s){ throw runtime_error(s); }
void __throw_bad_alloc(){ throw runtime_error("bad_alloc"); }
void __throw_bad_array_new_length(){ throw length_error("bad_array_new_length"); }
void __throw_bad_function_call(){ throw runtime_error("bad_function_call"); }
void __throw_bad_cast(){ throw runtime_error("bad_cast"); }
void __throw_system_error(int){ throw runtime_error("system_error"); }
void __throw_future_error(int){ throw runtime_error("future"); }
// red-black tree
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { auto y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ auto y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { auto y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x,_Rb_tree_node_base*& root){ auto y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotr(_Rb_tree_node_base* x,_Rb_tree_node_base*& root){ auto y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) throw() {
  auto& root=h._M_parent; x->_M_parent=p; x->_M_left=nullptr; x->_M_right=nullptr; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ auto g=x->_M_parent->_M_parent; if(x->_M_parent==g->_M_left){ auto y=g->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotl(x,root);} x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotr(g,root);} }
    else { auto y=g->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotr(x,root);} x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotl(g,root);} } }
  root->_M_color=_S_black; }
static _Rb_tree_node_base* mn(_Rb_tree_node_base* x){ while(x->_M_left) x=x->_M_left; return x; } static _Rb_tree_node_base* mx(_Rb_tree_node_base* x){ while(x->_M_right) x=x->_M_right; return x; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,_Rb_tree_node_base& h) throw() {
  auto& root=h._M_parent; auto& lm=h._M_left; auto& rm=h._M_right; auto y=z; _Rb_tree_node_base* x=nullptr; _Rb_tree_node_base* xp=nullptr;
  if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; auto c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else lm=mn(x);} if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else rm=mx(x);} }
  if(y->_M_color!=_S_red){ while(x!=root&&(!x||x->_M_color==_S_black)) if(x==xp->_M_left){ auto w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; } if((!w->_M_left||w->_M_left->_M_color==_S_black)&&(!w->_M_right||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(!w->_M_right||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotl(xp,root); break; } }
    else { auto w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; } if((!w->_M_right||w->_M_right->_M_color==_S_black)&&(!w->_M_left||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(!w->_M_left||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotr(xp,root); break; } }
    if(x) x->_M_color=_S_black; }
  return y; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[]={2,3,5,7,11,13,17,23,29,37,47,59,97,127,199,257,409,541,1109,2357,5087,10273,20753,42043,85229}; if(n<2){ if(n==0) return 1; } for(size_t i=0;i<sizeof(p)/sizeof(p[0]);++i) if(p[i]>=n){ _M_next_resize=(size_t)((double)p[i]*(double)_M_max_load_factor); return p[i]; } _M_next_resize=n; return n; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t m=ne+ni; if(_M_next_resize==0&&m<11) m=11; if(m>=nb){ size_t a=m+1, b=nb*2; return {true,_M_next_bkt(a>b?a:b)}; } _M_next_resize=nb; return {false,0}; } return {false,0}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { auto n=_M_next; auto p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base* f,_List_node_base* l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do{ auto n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=t->_M_prev; }while(t!=this); }
}
size_t _Hash_bytes(const void* p,size_t n,size_t seed){ auto s=(const unsigned char*)p; size_t h=seed^14695981039346656037ull; for(size_t i=0;i<n;++i){ h^=s[i]; h*=1099511628211ull; } return h; }
}
#include <string>
template class std::basic_string<char>;

extern "C" double remquo(double x,double y,int* q){ double t=x/y, n=__builtin_floor(t+0.5); long k=(long)n; if((k&1)&&(double)k==t+0.5) --k; *q = k<0? -(int)((-k)&7) : (int)(k&7); return x-(double)k*y; }
extern "C" float remquof(float x,float y,int* q){ return (float)remquo((double)x,(double)y,q); }
extern "C" { double acos(double); double sqrt(double); double cos(double); double sin(double);
long double acosl(long double x){ return acos((double)x); } long double sqrtl(long double x){ return sqrt((double)x); } long double cosl(long double x){ return cos((double)x); } long double sinl(long double x){ return sin((double)x); } }
namespace __gnu_cxx { template<> std::string __to_xstring<std::string,char>(int (*)(char*,std::size_t,const char*,std::va_list), std::size_t, const char*, ...){ return std::string("#.#"); } }
// tetgen shuffles its points
static unsigned long vp_rand_state=1;
extern "C" void srand(unsigned s){ vp_rand_state=s; }
extern "C" int rand(){ vp_rand_state=vp_rand_state*6364136223846793005ul+1442695040888963407ul; return (int)((vp_rand_state>>33)&0x7fffffff); }
// exp of a complex number
extern "C" double exp(double); extern "C" _Complex double cexp(_Complex double z){ double e=exp(__real__ z); _Complex double r; __real__ r=e*cos(__imag__ z); __imag__ r=e*sin(__imag__ z); return r; }
