#pragma once
#include "gs_iostream_base.h"
namespace std {
inline namespace __cxx11 {
  template<typename C,typename T,typename A> class basic_stringbuf : public basic_streambuf<C,T> { basic_string<C,T,A> _s; size_t _r=0,_w=0; public: typedef typename T::int_type int_type;
    basic_stringbuf(){} explicit basic_stringbuf(const basic_string<C,T,A>&s,int m=0):_s(s){ if(m&(ios_base::app|ios_base::ate)) _w=s.size(); }
    basic_string<C,T,A> str() const { return _s; } void str(const basic_string<C,T,A>&s,bool atend=false){ _s=s; _r=0; _w=atend?s.size():0; }
    int_type underflow() override { return _r<_s.size()?T::to_int_type(_s[_r]):T::eof(); } int_type uflow() override { return _r<_s.size()?T::to_int_type(_s[_r++]):T::eof(); } int_type pbackfail(int_type) override { if(!_r) return T::eof(); return T::to_int_type(_s[--_r]); }
    int_type overflow(int_type c) override { C x=(C)c; xsputn(&x,1); return c==T::eof()?0:c; }
    gs_ssz xsputn(const C*p,gs_ssz n) override { if(_w==_s.size()) _s.append(p,n); else { if(_w+n>_s.size()) _s.resize(_w+n); _s.replace(_w,n,p,n); } _w+=n; return n; }
    gs_off seekoff(gs_off o,int d,int m) override { gs_off b=d==ios_base::beg?0:d==ios_base::end?(gs_off)_s.size():(gs_off)((m&ios_base::out)&&!(m&ios_base::in)?_w:_r); b+=o; if(b<0||b>(gs_off)_s.size()) return -1; if(m&ios_base::in) _r=b; if(m&ios_base::out) _w=b; return b; }
  };
  template<typename C,typename T,typename A> class basic_ostringstream : public basic_ostream<C,T> { basic_stringbuf<C,T,A> _sb; public: basic_ostringstream():basic_ostream<C,T>(0){ this->init(&_sb); } explicit basic_ostringstream(int m):basic_ostream<C,T>(0){ this->init(&_sb); } explicit basic_ostringstream(const basic_string<C,T,A>&s,int m=ios_base::out):basic_ostream<C,T>(0),_sb(s,m){ this->init(&_sb); } basic_string<C,T,A> str() const { return _sb.str(); } void str(const basic_string<C,T,A>&s){ _sb.str(s); } basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&_sb); } };
  template<typename C,typename T,typename A> class basic_istringstream : public basic_istream<C,T> { basic_stringbuf<C,T,A> _sb; public: basic_istringstream():basic_istream<C,T>(0){ this->init(&_sb); } explicit basic_istringstream(const basic_string<C,T,A>&s,int m=ios_base::in):basic_istream<C,T>(0),_sb(s){ this->init(&_sb); } basic_string<C,T,A> str() const { return _sb.str(); } void str(const basic_string<C,T,A>&s){ _sb.str(s); } basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&_sb); } };
  template<typename C,typename T,typename A> class basic_stringstream : public basic_iostream<C,T> { basic_stringbuf<C,T,A> _sb; public: basic_stringstream():basic_iostream<C,T>(0){ this->init(&_sb); } explicit basic_stringstream(int m):basic_iostream<C,T>(0){ this->init(&_sb); } explicit basic_stringstream(const basic_string<C,T,A>&s,int m=ios_base::in|ios_base::out):basic_iostream<C,T>(0),_sb(s,m){ this->init(&_sb); } basic_string<C,T,A> str() const { return _sb.str(); } void str(const basic_string<C,T,A>&s){ _sb.str(s); } basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&_sb); } };
}
}
