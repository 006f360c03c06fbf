// Varint helpers for every 32-bit value (C03).
#include "h.h"
#include "changesetvarint.h"
extern "C" void h_varint(){ uint32_t v=gs_u32("v"); unsigned char b[12]; memset(b,0xAA,sizeof b); int n=putVarint32(b,v); n=(int)gs_conc(n); gs_log("n",n);
  Bytes w; int bytes=v<(1u<<7)?1:v<(1u<<14)?2:v<(1u<<21)?3:v<(1u<<28)?4:5; for(int i=0;i<bytes;i++){ unsigned char x=(v>>(7*(bytes-1-i)))&127; if(i<bytes-1) x|=128; w.push_back(x); }
  gs_check(n==bytes,"varint has the shortest length"); if(n==bytes) gs_check(memcmp(b,w.data(),bytes)==0,"varint bytes"); gs_log_bytes("b",b,bytes);
  uint32_t r=0; int m=getVarint32(w.data(),r); gs_check(m==bytes,"varint bytes consumed"); gs_check(r==v,"varint value read"); gs_cover("done"); }
