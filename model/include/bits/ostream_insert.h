#ifndef _OSTREAM_INSERT_H
#define _OSTREAM_INSERT_H 1
#include <iosfwd>
namespace std { template<typename C,typename T> basic_ostream<C,T>& __ostream_insert(basic_ostream<C,T>&o,const C*p,streamsize n); }
#endif
