// Symbolic build only: the non-template part of libstdc++ and the C library functions the code needs.
#include <string>
#include <stdexcept>
#include <new>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <memory>
#include <chrono>
#include <random>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <ctype.h>
#include <typeinfo>
#include "gs.h"
#include "rt.h"
template class std::basic_string<char>;
extern "C" { double gs_strtod(const char*,char**); int gs_fmt_double(char*,size_t,const char*,double); }
// ---------------------------------------------------------------- exceptions
namespace std {
  exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
  bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
  bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
  bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
  __cow_string::__cow_string():_M_p(strdup("")){} __cow_string::__cow_string(const string&s):_M_p(strdup(s.c_str())){} __cow_string::__cow_string(const char*s,size_t n):_M_p(0){ char*p=(char*)malloc(n+1); memcpy(p,s,n); p[n]=0; _M_p=p; } __cow_string::__cow_string(const __cow_string&o) noexcept :_M_p(strdup(o._M_p)){} __cow_string& __cow_string::operator=(const __cow_string&o) noexcept { if(this!=&o){ char*n=strdup(o._M_p); free((void*)_M_p); _M_p=n; } return *this; } __cow_string::~__cow_string(){ free((void*)_M_p); }
  __cow_string::__cow_string(__cow_string&&o) noexcept :_M_p(o._M_p){ o._M_p=strdup(""); } __cow_string& __cow_string::operator=(__cow_string&&o) noexcept { const char*t=_M_p; _M_p=o._M_p; o._M_p=t; return *this; }
#define EX(N,B) N::N(const string&s):B(s){} N::N(const char*s):B(s){} N::~N() noexcept {} 
  logic_error::logic_error(const string&s):_M_msg(s){} logic_error::logic_error(const char*s):_M_msg(s,strlen(s)){} logic_error::logic_error(logic_error&&o) noexcept :_M_msg(o._M_msg){} logic_error& logic_error::operator=(logic_error&&o) noexcept { _M_msg=o._M_msg; return *this; } logic_error::logic_error(const logic_error&o) noexcept :_M_msg(o._M_msg){} logic_error& logic_error::operator=(const logic_error&o) noexcept { _M_msg=o._M_msg; return *this; } logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
  runtime_error::runtime_error(const string&s):_M_msg(s){} runtime_error::runtime_error(const char*s):_M_msg(s,strlen(s)){} runtime_error::runtime_error(runtime_error&&o) noexcept :_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(runtime_error&&o) noexcept { _M_msg=o._M_msg; return *this; } runtime_error::runtime_error(const runtime_error&o) noexcept :_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(const runtime_error&o) noexcept { _M_msg=o._M_msg; return *this; } runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
  EX(domain_error,logic_error) EX(invalid_argument,logic_error) EX(length_error,logic_error) EX(out_of_range,logic_error) EX(range_error,runtime_error) EX(overflow_error,runtime_error) EX(underflow_error,runtime_error)
  void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_exception(){ throw bad_exception(); } void __throw_bad_function_call(){ throw bad_function_call(); }
  void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_range_error(const char*s){ throw range_error(s); } void __throw_overflow_error(const char*s){ throw overflow_error(s); } void __throw_underflow_error(const char*s){ throw underflow_error(s); }
  void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); }
  void __throw_system_error(int){ throw runtime_error("system_error"); }
  const nothrow_t nothrow{};
  type_info::~type_info(){} bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } bool type_info::__do_catch(const type_info*,void**,unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*,void**) const { return false; }
  // ---------------------------------------------------------------- red-black tree (as libstdc++'s tree.cc)
  static _Rb_tree_node_base* inc(_Rb_tree_node_base*x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
  static _Rb_tree_node_base* dec_(_Rb_tree_node_base*x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ _Rb_tree_node_base*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base*x) noexcept { return inc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base*x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base*x) noexcept { return dec_(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base*x) noexcept { return dec_(const_cast<_Rb_tree_node_base*>(x)); }
  static void rotl(_Rb_tree_node_base*x,_Rb_tree_node_base*&root){ _Rb_tree_node_base*y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
  static void rotr(_Rb_tree_node_base*x,_Rb_tree_node_base*&root){ _Rb_tree_node_base*y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
  void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) noexcept {
    _Rb_tree_node_base*&root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
    if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
    while(x!=root&&x->_M_parent->_M_color==_S_red){ _Rb_tree_node_base*g=x->_M_parent->_M_parent;
      if(x->_M_parent==g->_M_left){ _Rb_tree_node_base*y=g->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotl(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotr(g,root); } }
      else { _Rb_tree_node_base*y=g->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotr(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotl(g,root); } } }
    root->_M_color=_S_black; }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base*const z,_Rb_tree_node_base&h) noexcept {
    _Rb_tree_node_base*&root=h._M_parent,*&lm=h._M_left,*&rm=h._M_right; _Rb_tree_node_base*y=z,*x=0,*xp=0;
    if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
    if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; std::swap(y->_M_color,z->_M_color); y=z; }
    else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else { _Rb_tree_node_base*q=x; while(q->_M_left) q=q->_M_left; lm=q; } } if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else { _Rb_tree_node_base*q=x; while(q->_M_right) q=q->_M_right; rm=q; } } }
    if(y->_M_color!=_S_red){ while(x!=root&&(!x||x->_M_color==_S_black)) if(x==xp->_M_left){ _Rb_tree_node_base*w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; } if((!w->_M_left||w->_M_left->_M_color==_S_black)&&(!w->_M_right||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(!w->_M_right||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotl(xp,root); break; } }
      else { _Rb_tree_node_base*w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; } if((!w->_M_right||w->_M_right->_M_color==_S_black)&&(!w->_M_left||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(!w->_M_left||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotr(xp,root); break; } }
      if(x) x->_M_color=_S_black; }
    return y; }
  // ---------------------------------------------------------------- hashing, lists
  size_t _Hash_bytes(const void*,size_t n,size_t) { return n*0x9E3779B97F4A7C15ULL; } // any function of the content is a legal hash
  size_t _Fnv_hash_bytes(const void*,size_t n,size_t) { return n; }
  namespace __detail {
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[]={2,3,5,11,23,47,97,197,397,797,1597,3203,6421,12853,25717,51437}; for(size_t p:pr) if(p>=n){ _M_next_resize=(size_t)p; return p; } gs_unsupported("large hash table"); return 0; }
    std::pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t b,size_t e,size_t i) const { if(e+i>b){ size_t want=e+i; if(want<b*2) want=b*2; if(want<11) want=11; return std::make_pair(true,_M_next_bkt(want+1)); } return std::make_pair(false,(size_t)0); }
    void _List_node_base::_M_hook(_List_node_base*const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
    void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev=_M_prev; _M_prev->_M_next=_M_next; }
    void _List_node_base::_M_transfer(_List_node_base*const f,_List_node_base*const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base*t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
    void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
    void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
  }
}
extern "C" { extern time_t gs_time_; extern int gs_pid_; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { gs_time_++; return time_point(duration((long)gs_time_*1000000000L)); } steady_clock::time_point steady_clock::now() noexcept { gs_time_++; return time_point(duration((long)gs_time_*1000000000L)); } } }
  // random numbers from the system: another one at every call, in every process
  static unsigned gs_device_; __attribute__((weak)) void random_device::_M_init(const std::string&){} __attribute__((weak)) void random_device::_M_fini(){} __attribute__((weak)) double random_device::_M_getentropy() const noexcept { return 32; } __attribute__((weak)) random_device::result_type random_device::_M_getval(){ return (++gs_device_+(unsigned)gs_pid_*7919u)*2654435761u; } }
extern "C" void gs_throw_bad_alloc(){ throw std::bad_alloc(); }
extern "C" {
// ---------------------------------------------------------------- strings
char* gs__strchr(const char*,int) asm("strchr"); char*gs__strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* gs__strrchr(const char*,int) asm("strrchr"); char*gs__strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* gs__strstr(const char*,const char*) asm("strstr"); char*gs__strstr(const char*h,const char*n){ size_t k=strlen(n); for(;;h++){ if(!strncmp(h,n,k)) return (char*)h; if(!*h) return 0; } }
char*strcpy(char*d,const char*s){ size_t n=strlen(s); memcpy(d,s,n+1); return d; } char*strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char*stpcpy(char*d,const char*s){ size_t n=strlen(s); memcpy(d,s,n+1); return d+n; }
char*strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
size_t strnlen(const char*s,size_t n){ size_t i=0; while(i<n&&s[i]) i++; return i; }
char*strdup(const char*s){ size_t n=strlen(s)+1; char*p=(char*)malloc(n); memcpy(p,s,n); return p; }
size_t strspn(const char*s,const char*a){ size_t i=0; for(;s[i];i++) if(!strchr(a,s[i])) break; return i; } size_t strcspn(const char*s,const char*a){ size_t i=0; for(;s[i];i++) if(strchr(a,s[i])) break; return i; } char* gs__strpbrk(const char*,const char*) asm("strpbrk"); char*gs__strpbrk(const char*s,const char*a){ s+=strcspn(s,a); return *s?(char*)s:0; }
void* gs__memrchr(const void*,int,size_t) asm("memrchr"); void*gs__memrchr(const void*p,int c,size_t n){ const unsigned char*q=(const unsigned char*)p; while(n--) if(q[n]==(unsigned char)c) return (void*)(q+n); return 0; }
void*memmem(const void*h,size_t hn,const void*n,size_t k){ if(!k) return (void*)h; for(size_t i=0;i+k<=hn;i++) if(!memcmp((const char*)h+i,n,k)) return (void*)((const char*)h+i); return 0; }
int tolower(int c){ return ((unsigned)c-'A'<26u)?c+32:c; } int toupper(int c){ return ((unsigned)c-'a'<26u)?c-32:c; }
int isdigit(int c){ return (unsigned)c-'0'<10u; } int isalpha(int c){ return ((unsigned)c|32)-'a'<26u; } int isalnum(int c){ return isdigit(c)|isalpha(c); } int isspace(int c){ return c==' '||(unsigned)c-9<5u; } int isupper(int c){ return (unsigned)c-'A'<26u; } int islower(int c){ return (unsigned)c-'a'<26u; } int isxdigit(int c){ return isdigit(c)|(((unsigned)c|32)-'a'<6u); } int isprint(int c){ return (unsigned)c-32<95u; } int iscntrl(int c){ return (unsigned)c<32u||c==127; } int ispunct(int c){ return isprint(c)&&!isalnum(c)&&c!=' '; } int isgraph(int c){ return (unsigned)c-33<94u; }
int strcasecmp(const char*a,const char*b){ for(;;a++,b++){ int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int strncasecmp(const char*a,const char*b,size_t n){ for(;n;a++,b++,n--){ int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
static unsigned long gs_strto(const char*s,char**e,int base,int sgn,unsigned long lim_pos){ const char*p=s; while(isspace((unsigned char)*p)) p++; int neg=0; if(*p=='-'||*p=='+'){ neg=*p=='-'; p++; } if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&isxdigit((unsigned char)p[2])){ p+=2; base=16; } else if(base==0) base=*p=='0'?8:10; unsigned long v=0; int any=0,ovf=0; for(;;p++){ int c=(unsigned char)*p,d; if(isdigit(c)) d=c-'0'; else if(isalpha(c)) d=(c|32)-'a'+10; else break; if(d>=base) break; any=1; unsigned long w; if(__builtin_mul_overflow(v,(unsigned long)base,&w)||__builtin_add_overflow(w,(unsigned long)d,&w)) ovf=1; else v=w; } if(e) *e=(char*)(any?p:s); if(sgn){ unsigned long lim=neg?(1UL<<63):((1UL<<63)-1); if(ovf||v>lim){ errno=ERANGE; return lim; } } else if(ovf){ errno=ERANGE; return ~0UL; } return neg?0-v:v; }
long strtol(const char*s,char**e,int b){ return (long)gs_strto(s,e,b,1,0); } long long strtoll(const char*s,char**e,int b){ return (long)gs_strto(s,e,b,1,0); } unsigned long strtoul(const char*s,char**e,int b){ return gs_strto(s,e,b,0,0); } unsigned long long strtoull(const char*s,char**e,int b){ return gs_strto(s,e,b,0,0); }
long gs__strtol(const char*s,char**e,int b) asm("strtol"); long gs__strtol(const char*s,char**e,int b){ return (long)gs_strto(s,e,b,1,0); } long gs__strtoll(const char*s,char**e,int b) asm("strtoll"); long gs__strtoll(const char*s,char**e,int b){ return (long)gs_strto(s,e,b,1,0); } unsigned long gs__strtoul(const char*s,char**e,int b) asm("strtoul"); unsigned long gs__strtoul(const char*s,char**e,int b){ return gs_strto(s,e,b,0,0); } unsigned long gs__strtoull(const char*s,char**e,int b) asm("strtoull"); unsigned long gs__strtoull(const char*s,char**e,int b){ return gs_strto(s,e,b,0,0); }
int atoi(const char*s){ return (int)strtol(s,0,10); } long atol(const char*s){ return strtol(s,0,10); } long long atoll(const char*s){ return strtol(s,0,10); }
double strtod(const char*s,char**e){ return gs_strtod(s,e); } double atof(const char*s){ return gs_strtod(s,0); } float strtof(const char*s,char**e){ return (float)gs_strtod(s,e); }
int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; }
static int gs_errno_; int*__errno_location(void){ return &gs_errno_; } char*strerror(int){ return (char*)"error"; }
char*getenv(const char*n){ return gs_getenv(n); } unsigned gs_rand_=1; int gs_pid_=4242; unsigned long gs_tid_=1; time_t gs_time_=1700000000; int gs_rand_any_=0; int rand(void){ if(gs_rand_any_) return (int)gs_sym("rand",31); gs_rand_=gs_rand_*1103515245u+12345u; return (int)((gs_rand_>>1)&0x7fffffff); } void srand(unsigned s){ gs_rand_=s; } int rand_r(unsigned*s){ *s=*s*1103515245u+12345u; return (int)(*s>>1); } long random(void){ return rand(); }
time_t time(time_t*t){ gs_time_++; if(t)*t=gs_time_; return gs_time_; } int clock_gettime(clockid_t,struct timespec*ts){ ts->tv_sec=time(0); ts->tv_nsec=0; return 0; } clock_t clock(void){ static clock_t c; return ++c; } int getpid(void){ return gs_pid_; } long syscall(long n,...){ gs_unsupported("system call"); return n; } int usleep(unsigned){ return 0; }
int pthread_mutex_lock(pthread_mutex_t*){ return 0; } int pthread_mutex_unlock(pthread_mutex_t*){ return 0; } int pthread_mutex_init(pthread_mutex_t*,const pthread_mutexattr_t*){ return 0; } int pthread_mutex_destroy(pthread_mutex_t*){ return 0; } int pthread_once(pthread_once_t*o,void(*f)(void)){ if(!*(int*)o){ *(int*)o=1; f(); } return 0; } unsigned long pthread_self(void){ return gs_tid_; }
char __libc_single_threaded=1;
void qsort(void*b,size_t n,size_t w,int(*c)(const void*,const void*)){ char*p=(char*)b; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&c(p+(j-1)*w,p+j*w)>0;j--) for(size_t k=0;k<w;k++){ char t=p[(j-1)*w+k]; p[(j-1)*w+k]=p[j*w+k]; p[j*w+k]=t; } }
// ---------------------------------------------------------------- formatting (C and SQLite dialects)
static void put(gs_out*o,char c){ if(o->n+1<o->cap) o->b[o->n]=c; o->n++; }
static void pads(gs_out*o,char c,int n){ while(n-->0) put(o,c); }
void gs_vformat(gs_out*o,const char*f,va_list ap,int sq){
  for(;*f;f++){ if(*f!='%'){ put(o,*f); continue; } f++; int left=0,zero=0,plus=0,space=0,alt=0; for(;;f++){ if(*f=='-') left=1; else if(*f=='0') zero=1; else if(*f=='+') plus=1; else if(*f==' ') space=1; else if(*f=='#') alt=1; else break; }
    int width=0,prec=-1; if(*f=='*'){ width=va_arg(ap,int); if(width<0){ left=1; width=-width; } f++; } else while(isdigit((unsigned char)*f)) width=width*10+*f++-'0'; if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=va_arg(ap,int); f++; } else while(isdigit((unsigned char)*f)) prec=prec*10+*f++-'0'; }
    int lg=0; for(;;f++){ if(*f=='l') lg++; else if(*f=='z'||*f=='j'||*f=='t') lg=2; else if(*f=='h') lg--; else break; }
    char t[80]; int n=0;
    switch(*f){
      case 0: return; case '%': put(o,'%'); break;
      case 'c': { char c=(char)va_arg(ap,int); if(!left) pads(o,' ',width-1); put(o,c); if(left) pads(o,' ',width-1); break; }
      case 'd': case 'i': { long v=lg>0?va_arg(ap,long):va_arg(ap,int); if(lg==-1) v=(short)v; else if(lg==-2) v=(signed char)v; unsigned long u=v<0?0-(unsigned long)v:v; do { t[n++]='0'+u%10; u/=10; } while(u); while(n<prec) t[n++]='0'; int sg=v<0?'-':plus?'+':space?' ':0; int len=n+(sg?1:0); if(!left&&!(zero&&prec<0)) pads(o,' ',width-len); if(sg) put(o,sg); if(!left&&zero&&prec<0) pads(o,'0',width-len); while(n) put(o,t[--n]); if(left) pads(o,' ',width-len); break; }
      case 'u': case 'x': case 'X': case 'o': case 'p': { unsigned long u=(lg>0||*f=='p')?va_arg(ap,unsigned long):va_arg(ap,unsigned); if(lg==-1) u=(unsigned short)u; else if(lg==-2) u=(unsigned char)u; unsigned base=*f=='u'?10:*f=='o'?8:16; const char*dg=*f=='X'?"0123456789ABCDEF":"0123456789abcdef"; do { t[n++]=dg[u%base]; u/=base; } while(u); while(n<prec) t[n++]='0'; if(*f=='p'||(alt&&base==16)){ t[n++]=*f=='X'?'X':'x'; t[n++]='0'; } if(!left) pads(o,(zero&&prec<0)?'0':' ',width-n); int k=n; while(n) put(o,t[--n]); if(left) pads(o,' ',width-k); break; }
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': { double d=va_arg(ap,double); char fm[24]; int k=0; fm[k++]='%'; if(left) fm[k++]='-'; if(zero) fm[k++]='0'; if(plus) fm[k++]='+'; if(space) fm[k++]=' '; if(alt) fm[k++]='#'; if(width){ if(width>=100) fm[k++]='0'+width/100%10; if(width>=10) fm[k++]='0'+width/10%10; fm[k++]='0'+width%10; } if(prec>=0){ fm[k++]='.'; if(prec>=100) fm[k++]='0'+prec/100%10; if(prec>=10) fm[k++]='0'+prec/10%10; fm[k++]='0'+prec%10; } fm[k++]=*f; fm[k]=0; char buf[512]; int m=gs_fmt_double(buf,sizeof buf,fm,d); for(int i=0;i<m&&i<511;i++) put(o,buf[i]); break; }
      case 's': case 'z': case 'q': case 'Q': case 'w': { const char*s=va_arg(ap,const char*); char esc=(*f=='q'||*f=='Q')?'\'':*f=='w'?'"':0; if(!sq&&*f!='s') gs_unsupported("printf conversion"); int isn=s==0; if(!s) s=*f=='Q'?"NULL":(*f=='q'||*f=='w')?"(NULL)":sq?"":"(null)"; int L=0; while((prec<0||L<prec)&&s[L]) L++; if(!esc){ if(!left) pads(o,' ',width-L); for(int i=0;i<L;i++) put(o,s[i]); if(left) pads(o,' ',width-L); } else { int qd=*f=='Q'&&!isn; if(qd) put(o,'\''); for(int i=0;i<L;i++){ if(s[i]==esc&&!isn) put(o,esc); put(o,s[i]); } if(qd) put(o,'\''); } if(*f=='z') free((void*)s); break; }
      default: gs_unsupported("printf conversion"); } } }
int vsnprintf(char*b,size_t n,const char*f,va_list ap){ gs_out o; o.b=b; o.cap=n; o.n=0; gs_vformat(&o,f,ap,0); if(n) b[o.n<n?o.n:n-1]=0; return (int)o.n; }
int snprintf(char*b,size_t n,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); return r; }
int vsprintf(char*b,const char*f,va_list ap){ return vsnprintf(b,1<<20,f,ap); } int sprintf(char*b,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,1<<20,f,ap); va_end(ap); return r; }
int __cxa_thread_atexit_impl(void*,void*,void*){ return 0; }
}
