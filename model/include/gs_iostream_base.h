// Stand-in for libstdc++'s iostreams (symbolic build only): same names, unbuffered semantics on top of
// in-memory strings and the stdio model (gs_fs.cpp).
#pragma once
#define _OSTREAM_INSERT_H 1
#include <iosfwd>
#include <exception>
#include <string>
#include <stdexcept>
#include <cstdio>
#include <cstring>
#include "locale"

namespace std {
  typedef ptrdiff_t gs_ssz;
  class ios_base { public:
    enum iostate_ : int { gs_good=0 }; typedef int iostate; typedef int openmode; typedef int fmtflags; typedef int seekdir;
    static constexpr iostate goodbit=0, badbit=1, eofbit=2, failbit=4;
    static constexpr openmode app=1, ate=2, binary=4, in=8, out=16, trunc=32;
    static constexpr fmtflags boolalpha=1, dec=2, fixed=4, hex=8, internal=16, left=32, oct=64, right=128, scientific=256, showbase=512, showpoint=1024, showpos=2048, skipws=4096, unitbuf=8192, uppercase=16384, adjustfield=left|right|internal, basefield=dec|oct|hex, floatfield=scientific|fixed;
    static constexpr seekdir beg=0, cur=1, end=2;
    class failure : public runtime_error { public: explicit failure(const string&m):runtime_error(m){} };
    class Init { public: Init(){} ~Init(){} };
    fmtflags flags() const { return _fl; } fmtflags flags(fmtflags f){ fmtflags o=_fl; _fl=f; return o; } fmtflags setf(fmtflags f){ fmtflags o=_fl; _fl|=f; return o; } fmtflags setf(fmtflags f,fmtflags m){ fmtflags o=_fl; _fl=(_fl&~m)|(f&m); return o; } void unsetf(fmtflags f){ _fl&=~f; }
    gs_ssz precision() const { return _pr; } gs_ssz precision(gs_ssz p){ gs_ssz o=_pr; _pr=p; return o; } gs_ssz width() const { return _w; } gs_ssz width(gs_ssz w){ gs_ssz o=_w; _w=w; return o; }
    static bool sync_with_stdio(bool=true){ return true; } locale imbue(const locale&l){ return l; } locale getloc() const { return locale(); }
    virtual ~ios_base(){}
  protected: fmtflags _fl=skipws|dec; gs_ssz _pr=6,_w=0;
  };
  typedef ios_base::openmode gs_om;
  typedef ios_base::openmode _Ios_Openmode; typedef ios_base::seekdir _Ios_Seekdir; typedef ios_base::iostate _Ios_Iostate; typedef ios_base::fmtflags _Ios_Fmtflags;
  typedef gs_ssz gs_off;
  template<typename C,typename T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef gs_off off_type; typedef gs_off pos_type;
    virtual ~basic_streambuf(){}
    int_type sgetc(){ return underflow(); } int_type sbumpc(){ return uflow(); } int_type snextc(){ if(uflow()==T::eof()) return T::eof(); return underflow(); } int_type sungetc(){ return pbackfail(T::eof()); }
    gs_ssz sgetn(C*p,gs_ssz n){ return xsgetn(p,n); } int_type sputc(C c){ return overflow(T::to_int_type(c)); } gs_ssz sputn(const C*p,gs_ssz n){ return xsputn(p,n); } int pubsync(){ return sync(); }
    gs_off pubseekoff(gs_off o,int d,int w=ios_base::in|ios_base::out){ return seekoff(o,d,w); } gs_off pubseekpos(gs_off o,int w=ios_base::in|ios_base::out){ return seekoff(o,ios_base::beg,w); } gs_ssz in_avail(){ return underflow()==T::eof()?-1:1; }
  protected: basic_streambuf(){}
    virtual int_type underflow(){ return T::eof(); } virtual int_type uflow(){ return T::eof(); } virtual int_type pbackfail(int_type){ return T::eof(); } virtual int_type overflow(int_type){ return T::eof(); }
    virtual gs_ssz xsgetn(C*p,gs_ssz n){ gs_ssz i=0; for(;i<n;i++){ int_type c=uflow(); if(c==T::eof()) break; p[i]=(C)c; } return i; }
    virtual gs_ssz xsputn(const C*p,gs_ssz n){ gs_ssz i=0; for(;i<n;i++) if(overflow(T::to_int_type(p[i]))==T::eof()) break; return i; }
    virtual int sync(){ return 0; } virtual gs_off seekoff(gs_off,int,int){ return -1; }
  };
  template<typename C,typename T> class basic_ostream;
  template<typename C,typename T> class basic_ios : public ios_base { public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef gs_off pos_type; typedef gs_off off_type;
    basic_ios():_b(0){} explicit basic_ios(basic_streambuf<C,T>*b):_b(b),_st(b?goodbit:badbit){} void init(basic_streambuf<C,T>*b){ _b=b; _st=b?goodbit:badbit; }
    iostate rdstate() const { return _st; } void clear(iostate s=goodbit){ _st=_b?s:(s|badbit); if(_ex&_st) throw ios_base::failure("ios"); } void setstate(iostate s){ clear(_st|s); } void _M_setstate(iostate s){ _st|=s; }
    bool good() const { return _st==0; } bool eof() const { return _st&eofbit; } bool fail() const { return _st&(badbit|failbit); } bool bad() const { return _st&badbit; } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    iostate exceptions() const { return _ex; } void exceptions(iostate e){ _ex=e; clear(_st); }
    basic_streambuf<C,T>* rdbuf() const { return _b; } basic_streambuf<C,T>* rdbuf(basic_streambuf<C,T>*b){ auto*o=_b; _b=b; clear(); return o; } C fill() const { return _fill; } C fill(C c){ C o=_fill; _fill=c; return o; } C widen(char c) const { return c; } char narrow(C c,char) const { return c; }
    basic_ostream<C,T>* tie() const { return _tie; } basic_ostream<C,T>* tie(basic_ostream<C,T>*t){ auto*o=_tie; _tie=t; return o; }
    basic_ios& copyfmt(const basic_ios&o){ _fl=o._fl; _pr=o._pr; _w=o._w; _fill=o._fill; return *this; }
  protected: basic_streambuf<C,T>*_b; iostate _st=goodbit,_ex=goodbit; C _fill=' '; basic_ostream<C,T>*_tie=0;
  };
  inline ios_base& hex(ios_base&b){ b.setf(ios_base::hex,ios_base::basefield); return b; } inline ios_base& dec(ios_base&b){ b.setf(ios_base::dec,ios_base::basefield); return b; } inline ios_base& oct(ios_base&b){ b.setf(ios_base::oct,ios_base::basefield); return b; }
  inline ios_base& fixed(ios_base&b){ b.setf(ios_base::fixed,ios_base::floatfield); return b; } inline ios_base& scientific(ios_base&b){ b.setf(ios_base::scientific,ios_base::floatfield); return b; } inline ios_base& defaultfloat(ios_base&b){ b.unsetf(ios_base::floatfield); return b; }
  inline ios_base& left(ios_base&b){ b.setf(ios_base::left,ios_base::adjustfield); return b; } inline ios_base& right(ios_base&b){ b.setf(ios_base::right,ios_base::adjustfield); return b; } inline ios_base& internal(ios_base&b){ b.setf(ios_base::internal,ios_base::adjustfield); return b; }
  inline ios_base& boolalpha(ios_base&b){ b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base&b){ b.unsetf(ios_base::boolalpha); return b; } inline ios_base& uppercase(ios_base&b){ b.setf(ios_base::uppercase); return b; } inline ios_base& nouppercase(ios_base&b){ b.unsetf(ios_base::uppercase); return b; } inline ios_base& showbase(ios_base&b){ b.setf(ios_base::showbase); return b; } inline ios_base& skipws(ios_base&b){ b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base&b){ b.unsetf(ios_base::skipws); return b; }
  template<typename C,typename T> class basic_ostream : virtual public basic_ios<C,T> { public:
    typedef gs_off pos_type;
    explicit basic_ostream(basic_streambuf<C,T>*b){ this->init(b); } virtual ~basic_ostream(){}
    class sentry { basic_ostream&o; public: explicit sentry(basic_ostream&x):o(x){} ~sentry(){} explicit operator bool() const { return o.good(); } };
    basic_ostream& gs_put(const C*p,gs_ssz n){ if(!this->good()){ this->setstate(ios_base::failbit); return *this; } gs_ssz w=this->_w; this->_w=0; bool ok=true; if(w>n&&!(this->_fl&ios_base::left)) for(gs_ssz i=n;i<w;i++) if(this->_b->sputc(this->_fill)==T::eof()) ok=false; if(n&&this->_b->sputn(p,n)!=n) ok=false; if(w>n&&(this->_fl&ios_base::left)) for(gs_ssz i=n;i<w;i++) if(this->_b->sputc(this->_fill)==T::eof()) ok=false; if(!ok) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& write(const C*p,gs_ssz n){ if(!this->good()){ this->setstate(ios_base::failbit); return *this; } if(this->_b->sputn(p,n)!=n) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& put(C c){ return write(&c,1); }
    basic_ostream& flush(){ if(this->_b&&this->good()) if(this->_b->pubsync()==-1) this->setstate(ios_base::badbit); return *this; }
    gs_off tellp(){ return this->fail()?-1:this->_b->pubseekoff(0,ios_base::cur,ios_base::out); } basic_ostream& seekp(gs_off o){ if(!this->fail()) if(this->_b->pubseekoff(o,ios_base::beg,ios_base::out)==-1) this->setstate(ios_base::failbit); return *this; } basic_ostream& seekp(gs_off o,int d){ if(!this->fail()) if(this->_b->pubseekoff(o,d,ios_base::out)==-1) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& operator<<(basic_ostream&(*f)(basic_ostream&)){ return f(*this); } basic_ostream& operator<<(ios_base&(*f)(ios_base&)){ f(*this); return *this; } basic_ostream& operator<<(basic_ios<C,T>&(*f)(basic_ios<C,T>&)){ f(*this); return *this; }
    basic_ostream& gs_num(unsigned long long v,bool neg,unsigned long long full){ char b[40]; int n=0; char t[40]; int k=0; if(this->_fl&ios_base::hex){ unsigned long long x=full; const char*dg=(this->_fl&ios_base::uppercase)?"0123456789ABCDEF":"0123456789abcdef"; do { t[k++]=dg[x&15]; x>>=4; } while(x); if((this->_fl&ios_base::showbase)&&full){ t[k++]=(this->_fl&ios_base::uppercase)?'X':'x'; t[k++]='0'; } } else if(this->_fl&ios_base::oct){ unsigned long long x=full; do { t[k++]='0'+(x&7); x>>=3; } while(x); } else { do { t[k++]='0'+v%10; v/=10; } while(v); if(neg) t[k++]='-'; else if(this->_fl&ios_base::showpos) t[k++]='+'; } while(k) b[n++]=t[--k]; return gs_put(b,n); }
    basic_ostream& operator<<(int v){ return gs_num(v<0?0ULL-(long long)v:v,v<0,(unsigned)v); } basic_ostream& operator<<(unsigned v){ return gs_num(v,false,v); } basic_ostream& operator<<(long v){ return gs_num(v<0?0ULL-(unsigned long long)v:v,v<0,(unsigned long)v); } basic_ostream& operator<<(unsigned long v){ return gs_num(v,false,v); } basic_ostream& operator<<(long long v){ return gs_num(v<0?0ULL-(unsigned long long)v:v,v<0,v); } basic_ostream& operator<<(unsigned long long v){ return gs_num(v,false,v); } basic_ostream& operator<<(short v){ return gs_num(v<0?0ULL-(long long)v:v,v<0,(unsigned short)v); } basic_ostream& operator<<(unsigned short v){ return gs_num(v,false,v); }
    basic_ostream& operator<<(bool v){ if(this->_fl&ios_base::boolalpha) return v?gs_put("true",4):gs_put("false",5); return gs_num(v,false,v); }
    basic_ostream& operator<<(double v){ char f[16],b[512]; int k=0; f[k++]='%'; f[k++]='.'; int p=(int)this->_pr; if(p>=100){ f[k++]='0'+p/100; p%=100; f[k++]='0'+p/10; p%=10; } else if(p>=10){ f[k++]='0'+p/10; p%=10; } f[k++]='0'+p; f[k++]=(this->_fl&ios_base::fixed)?'f':(this->_fl&ios_base::scientific)?'e':'g'; f[k]=0; int n=snprintf(b,sizeof b,f,v); return gs_put(b,n); } basic_ostream& operator<<(float v){ return *this<<(double)v; } basic_ostream& operator<<(long double v){ return *this<<(double)v; }
    basic_ostream& operator<<(const void*p){ int o=this->_fl; this->setf(ios_base::hex|ios_base::showbase,ios_base::basefield|ios_base::showbase); gs_num((unsigned long)p,false,(unsigned long)p); this->_fl=o; return *this; }
    basic_ostream& operator<<(basic_streambuf<C,T>*b){ if(!this->good()){ this->setstate(ios_base::failbit); return *this; } if(!b){ this->setstate(ios_base::badbit); return *this; } gs_ssz n=0; for(;;){ C buf[64]; gs_ssz k=b->sgetn(buf,64); if(k<=0) break; gs_ssz w=this->_b->sputn(buf,k); n+=w; if(w!=k) break; } if(!n) this->setstate(ios_base::failbit); return *this; }
  };
  template<typename C,typename T> basic_ostream<C,T>& __ostream_insert(basic_ostream<C,T>&o,const C*p,streamsize n){ return o.gs_put(p,n); }
  template<typename C,typename T> inline basic_ostream<C,T>& endl(basic_ostream<C,T>&o){ o.put('\n'); return o.flush(); }
  template<typename C,typename T> inline basic_ostream<C,T>& ends(basic_ostream<C,T>&o){ return o.put(0); }
  template<typename C,typename T> inline basic_ostream<C,T>& flush(basic_ostream<C,T>&o){ return o.flush(); }
  template<typename C,typename T> inline basic_ostream<C,T>& operator<<(basic_ostream<C,T>&o,const C*s){ if(!s){ o.setstate(ios_base::badbit); return o; } return o.gs_put(s,(gs_ssz)T::length(s)); }
  template<typename C,typename T> inline basic_ostream<C,T>& operator<<(basic_ostream<C,T>&o,C c){ return o.gs_put(&c,1); }
  template<typename T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,signed char c){ char d=c; return o.gs_put(&d,1); }
  template<typename T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,unsigned char c){ char d=c; return o.gs_put(&d,1); }
  template<typename T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,const unsigned char*s){ return o<<(const char*)s; }
  template<typename C,typename T> class basic_istream : virtual public basic_ios<C,T> { protected: gs_ssz _gc=0; public: typedef gs_off pos_type; typedef typename T::int_type int_type;
    explicit basic_istream(basic_streambuf<C,T>*b){ this->init(b); } virtual ~basic_istream(){}
    class sentry { bool ok; public: explicit sentry(basic_istream&i,bool noskip=false){ ok=i.good(); if(!ok){ i.setstate(ios_base::failbit); return; } if(!noskip&&(i.flags()&ios_base::skipws)){ for(;;){ int_type c=i.rdbuf()->sgetc(); if(c==T::eof()){ i.setstate(ios_base::eofbit|ios_base::failbit); ok=false; return; } if(c==' '||(c>=9&&c<=13)) i.rdbuf()->sbumpc(); else break; } } } explicit operator bool() const { return ok; } };
    gs_ssz gcount() const { return _gc; }
    int_type get(){ _gc=0; if(!this->good()){ this->setstate(ios_base::failbit); return T::eof(); } int_type c=this->_b->sbumpc(); if(c==T::eof()) this->setstate(ios_base::eofbit|ios_base::failbit); else _gc=1; return c; }
    basic_istream& get(C&c){ int_type x=get(); if(x!=T::eof()) c=(C)x; return *this; } int_type peek(){ if(!this->good()) return T::eof(); int_type c=this->_b->sgetc(); if(c==T::eof()) this->setstate(ios_base::eofbit); return c; }
    basic_istream& read(C*p,gs_ssz n){ _gc=0; if(!this->good()){ this->setstate(ios_base::failbit); return *this; } _gc=this->_b->sgetn(p,n); if(_gc!=n) this->setstate(ios_base::eofbit|ios_base::failbit); return *this; }
    basic_istream& ignore(gs_ssz n=1,int_type d=-1){ for(gs_ssz i=0;i<n;i++){ int_type c=get(); if(c==T::eof()||c==d) break; } return *this; }
    gs_off tellg(){ return this->fail()?-1:this->_b->pubseekoff(0,ios_base::cur,ios_base::in); } basic_istream& seekg(gs_off o){ this->clear(this->_st&~ios_base::eofbit); if(!this->fail()) if(this->_b->pubseekoff(o,ios_base::beg,ios_base::in)==-1) this->setstate(ios_base::failbit); return *this; } basic_istream& seekg(gs_off o,int d){ this->clear(this->_st&~ios_base::eofbit); if(!this->fail()) if(this->_b->pubseekoff(o,d,ios_base::in)==-1) this->setstate(ios_base::failbit); return *this; }
    basic_istream& operator>>(basic_istream&(*f)(basic_istream&)){ return f(*this); } basic_istream& operator>>(ios_base&(*f)(ios_base&)){ f(*this); return *this; }
    template<typename I> basic_istream& gs_int(I&v,bool sgn){ sentry s(*this); if(!s) return *this; bool neg=false,any=false; int base=(this->_fl&ios_base::hex)?16:(this->_fl&ios_base::oct)?8:10; unsigned long long x=0; bool ovf=false; int_type c=this->_b->sgetc(); if(c=='-'||c=='+'){ neg=c=='-'; this->_b->sbumpc(); c=this->_b->sgetc(); } while(c!=T::eof()){ int d; if(c>='0'&&c<='9') d=c-'0'; else if(base==16&&c>='a'&&c<='f') d=c-'a'+10; else if(base==16&&c>='A'&&c<='F') d=c-'A'+10; else break; if(d>=base) break; any=true; if(x>(~0ULL-d)/base) ovf=true; else x=x*base+d; this->_b->sbumpc(); c=this->_b->sgetc(); } if(c==T::eof()) this->setstate(ios_base::eofbit); if(!any){ v=0; this->setstate(ios_base::failbit); return *this; } unsigned long long top=sizeof(I)==8?~0ULL:(1ULL<<(sizeof(I)*8%64))-1; if(sgn){ unsigned long long lim=1ULL<<(sizeof(I)*8-1); if(!neg&&(ovf||x>=lim)){ v=(I)(lim-1); this->setstate(ios_base::failbit);} else if(neg&&(ovf||x>lim)){ v=(I)lim; this->setstate(ios_base::failbit);} else v=neg?(I)(0-(I)x):(I)x; } else { if(ovf||x>top){ v=(I)-1; this->setstate(ios_base::failbit);} else v=neg?(I)(0-(I)x):(I)x; } return *this; }
    basic_istream& operator>>(int&v){ return gs_int(v,true); } basic_istream& operator>>(unsigned&v){ return gs_int(v,false); } basic_istream& operator>>(long&v){ return gs_int(v,true); } basic_istream& operator>>(unsigned long&v){ return gs_int(v,false); } basic_istream& operator>>(long long&v){ return gs_int(v,true); } basic_istream& operator>>(unsigned long long&v){ return gs_int(v,false); } basic_istream& operator>>(short&v){ return gs_int(v,true); } basic_istream& operator>>(unsigned short&v){ return gs_int(v,false); }
    basic_istream& operator>>(double&v){ sentry s(*this); if(!s) return *this; char b[128]; int n=0; int_type c=this->_b->sgetc(); while(n<120&&((c>='0'&&c<='9')||c=='.'||c=='-'||c=='+'||c=='e'||c=='E')){ b[n++]=(char)c; this->_b->sbumpc(); c=this->_b->sgetc(); } if(c==T::eof()) this->setstate(ios_base::eofbit); b[n]=0; char*e; v=__builtin_strtod_gs(b,&e); if(e==b) this->setstate(ios_base::failbit); return *this; }
    static double __builtin_strtod_gs(const char*b,char**e){ return ::strtod(b,e); }
  };
  template<typename C,typename T> inline basic_istream<C,T>& operator>>(basic_istream<C,T>&i,C&c){ typename basic_istream<C,T>::sentry s(i); if(s){ auto x=i.rdbuf()->sbumpc(); if(x==T::eof()) i.setstate(ios_base::eofbit|ios_base::failbit); else c=(C)x; } return i; }
  template<typename C,typename T> inline basic_istream<C,T>& ws(basic_istream<C,T>&i){ for(;;){ auto c=i.rdbuf()->sgetc(); if(c==T::eof()){ i.setstate(ios_base::eofbit); break; } if(c==' '||(c>=9&&c<=13)) i.rdbuf()->sbumpc(); else break; } return i; }
  template<typename C,typename T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> { public: explicit basic_iostream(basic_streambuf<C,T>*b):basic_istream<C,T>(b),basic_ostream<C,T>(b){} };
  template<typename C,typename T,typename A> basic_istream<C,T>& gs_getline(basic_istream<C,T>&i,basic_string<C,T,A>&s,C d){ s.clear(); if(!i.good()){ i.setstate(ios_base::failbit); return i; } bool any=false; for(;;){ auto c=i.rdbuf()->sbumpc(); if(c==T::eof()){ i.setstate(any?ios_base::eofbit:(ios_base::eofbit|ios_base::failbit)); break; } any=true; if((C)c==d) break; s+=(C)c; } return i; }
  template<> inline basic_istream<char>& getline(basic_istream<char>&i,basic_string<char>&s,char d){ return gs_getline(i,s,d); }
  template<> inline basic_istream<char>& operator>>(basic_istream<char>&i,basic_string<char>&s){ s.clear(); basic_istream<char>::sentry k(i); if(!k) return i; bool any=false; for(;;){ int c=i.rdbuf()->sgetc(); if(c==-1){ i.setstate(ios_base::eofbit); break; } if(c==' '||(c>=9&&c<=13)) break; s+=(char)c; any=true; i.rdbuf()->sbumpc(); } if(!any) i.setstate(ios_base::failbit); return i; }
  extern ostream cout, cerr, clog; extern istream cin;
}
