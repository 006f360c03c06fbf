#pragma once
#include "gs_iostream_base.h"
namespace std {
  template<typename C,typename T> class basic_filebuf : public basic_streambuf<C,T> { FILE*_f=0; public: typedef typename T::int_type int_type; basic_filebuf(){} ~basic_filebuf(){ close(); }
    bool is_open() const { return _f; }
    basic_filebuf* open(const char*n,int m){ if(_f) return 0; const char*md=0; int k=m&(ios_base::in|ios_base::out|ios_base::trunc|ios_base::app); if(k==ios_base::out||k==(ios_base::out|ios_base::trunc)) md="wb"; else if(k==(ios_base::out|ios_base::app)||k==ios_base::app) md="ab"; else if(k==ios_base::in) md="rb"; else if(k==(ios_base::in|ios_base::out)) md="r+b"; else if(k==(ios_base::in|ios_base::out|ios_base::trunc)) md="w+b"; else if(k==(ios_base::in|ios_base::out|ios_base::app)||k==(ios_base::in|ios_base::app)) md="a+b"; else return 0; _f=fopen(n,md); if(!_f) return 0; if(m&ios_base::ate) fseek(_f,0,SEEK_END); return this; }
    basic_filebuf* open(const string&n,int m){ return open(n.c_str(),m); }
    basic_filebuf* close(){ if(!_f) return 0; FILE*f=_f; _f=0; return fclose(f)==0?this:0; }
    int_type underflow() override { if(!_f) return T::eof(); int c=fgetc(_f); if(c==EOF) return T::eof(); ungetc(c,_f); return c; } int_type uflow() override { if(!_f) return T::eof(); int c=fgetc(_f); return c==EOF?T::eof():c; }
    int_type overflow(int_type c) override { if(!_f) return T::eof(); C x=(C)c; return fwrite(&x,1,1,_f)==1?(c==T::eof()?0:c):T::eof(); } gs_ssz xsputn(const C*p,gs_ssz n) override { if(!_f) return 0; return fwrite(p,1,n,_f); } gs_ssz xsgetn(C*p,gs_ssz n) override { if(!_f) return 0; return fread(p,1,n,_f); }
    int sync() override { if(!_f) return 0; return fflush(_f)?-1:0; }
    gs_off seekoff(gs_off o,int d,int) override { if(!_f) return -1; if(fseek(_f,o,d==ios_base::beg?SEEK_SET:d==ios_base::cur?SEEK_CUR:SEEK_END)) return -1; return ftell(_f); }
  };
#define GS_FS(NAME,BASE,MODE,ADD) template<typename C,typename T> class NAME : public BASE<C,T> { basic_filebuf<C,T> _fb; public: NAME():BASE<C,T>(0){ this->init(&_fb); } explicit NAME(const char*n,int m=MODE):BASE<C,T>(0){ this->init(&_fb); open(n,m); } explicit NAME(const string&n,int m=MODE):BASE<C,T>(0){ this->init(&_fb); open(n,m); } \
    void open(const char*n,int m=MODE){ if(!_fb.open(n,m|ADD)) this->setstate(ios_base::failbit); else this->clear(); } void open(const string&n,int m=MODE){ open(n.c_str(),m); } bool is_open() const { return _fb.is_open(); } void close(){ if(!_fb.close()) this->setstate(ios_base::failbit); } basic_filebuf<C,T>* rdbuf() const { return const_cast<basic_filebuf<C,T>*>(&_fb); } };
  GS_FS(basic_ofstream,basic_ostream,ios_base::out,ios_base::out) GS_FS(basic_ifstream,basic_istream,ios_base::in,ios_base::in) GS_FS(basic_fstream,basic_iostream,(ios_base::in|ios_base::out),0)
}
