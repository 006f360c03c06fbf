// Independent strict JSON parser (RFC 8259) used as oracle; text must be UTF-8.
#pragma once
#include "h.h"
struct JV { char k; std::string s; std::vector<JV> a; std::vector<std::pair<std::string,JV>> o; JV():k(0){} // k: n null, t/f, 0 invalid, # number(s), $ string, [ , {
  const JV* get(const char*n) const { for(auto&p:o) if(p.first==n) return &p.second; return nullptr; } };
struct JP { const Bytes&b; size_t i; bool bad; JP(const Bytes&B):b(B),i(0),bad(false){}
  int ch(){ return i<b.size()?b[i]:-1; } void ws(){ while(i<b.size()&&(b[i]==' '||b[i]=='\n'||b[i]=='\t'||b[i]=='\r')) i++; }
  bool lit(const char*t){ for(;*t;t++) if(ch()!=*t){ bad=true; return false; } else i++; return true; }
  static int hx(int c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
  std::string str(){ std::string r; if(ch()!='"'){ bad=true; return r; } i++; for(;;){ int c=ch(); if(c<0||c<0x20){ bad=true; return r; } i++; if(c=='"') return r; if(c=='\\'){ int e=ch(); i++; switch(e){ case '"': r+='"'; break; case '\\': r+='\\'; break; case '/': r+='/'; break; case 'b': r+='\b'; break; case 'f': r+='\f'; break; case 'n': r+='\n'; break; case 'r': r+='\r'; break; case 't': r+='\t'; break; case 'u': { int v=0; for(int k=0;k<4;k++){ int h=hx(ch()); if(h<0){ bad=true; return r; } v=v*16+h; i++; } if(v<0x80) r+=(char)v; else if(v<0x800){ r+=(char)(0xC0|v>>6); r+=(char)(0x80|(v&63)); } else { r+=(char)(0xE0|v>>12); r+=(char)(0x80|((v>>6)&63)); r+=(char)(0x80|(v&63)); } break; } default: bad=true; return r; } }
      else if(c<0x80) r+=(char)c; else { int n=c>=0xC2&&c<=0xDF?1:c>=0xE0&&c<=0xEF?2:c>=0xF0&&c<=0xF4?3:-1; if(n<0){ bad=true; return r; } r+=(char)c; while(n--){ int d=ch(); if(d<0x80||d>0xBF){ bad=true; return r; } r+=(char)d; i++; } } } }
  JV num(){ JV v; v.k='#'; size_t s=i; if(ch()=='-') i++; if(ch()=='0') i++; else { if(ch()<'1'||ch()>'9'){ bad=true; return v; } while(ch()>='0'&&ch()<='9') i++; } if(ch()=='.'){ i++; if(ch()<'0'||ch()>'9'){ bad=true; return v; } while(ch()>='0'&&ch()<='9') i++; } if(ch()=='e'||ch()=='E'){ i++; if(ch()=='+'||ch()=='-') i++; if(ch()<'0'||ch()>'9'){ bad=true; return v; } while(ch()>='0'&&ch()<='9') i++; } v.s.assign(b.begin()+s,b.begin()+i); return v; }
  JV val(int d=0){ JV v; if(d>20){ bad=true; return v; } ws(); int c=ch(); if(c=='{'){ v.k='{'; i++; ws(); if(ch()=='}'){ i++; return v; } for(;;){ ws(); std::string k=str(); if(bad) return v; ws(); if(ch()!=':'){ bad=true; return v; } i++; v.o.push_back(std::make_pair(k,val(d+1))); if(bad) return v; ws(); if(ch()==','){ i++; continue; } if(ch()=='}'){ i++; return v; } bad=true; return v; } }
    if(c=='['){ v.k='['; i++; ws(); if(ch()==']'){ i++; return v; } for(;;){ v.a.push_back(val(d+1)); if(bad) return v; ws(); if(ch()==','){ i++; continue; } if(ch()==']'){ i++; return v; } bad=true; return v; } }
    if(c=='"'){ v.k='$'; v.s=str(); return v; } if(c=='n'){ lit("null"); v.k='n'; return v; } if(c=='t'){ lit("true"); v.k='t'; return v; } if(c=='f'){ lit("false"); v.k='f'; return v; } return num(); } };
static inline bool jsonParse(const Bytes&b,JV&v){ JP p(b); v=p.val(); if(p.bad) return false; p.ws(); return p.i==b.size(); }
static inline std::string b64(const Bytes&s){ auto c=[](int v)->char{ return v<26?'A'+v:v<52?'a'+(v-26):v<62?'0'+(v-52):v==62?'+':'/'; }; std::string r; size_t i=0; for(;i+2<s.size();i+=3){ r+=c(s[i]>>2); r+=c((s[i]&3)<<4|s[i+1]>>4); r+=c((s[i+1]&15)<<2|s[i+2]>>6); r+=c(s[i+2]&63); } if(s.size()-i==1){ r+=c(s[i]>>2); r+=c((s[i]&3)<<4); r+="=="; } else if(s.size()-i==2){ r+=c(s[i]>>2); r+=c((s[i]&3)<<4|s[i+1]>>4); r+=c((s[i+1]&15)<<2); r+='='; } return r; }
// does the JSON value denote v?
static inline bool jsonIs(const JV*j,const OV&v){ if(!j) return false; switch(v.t){ case T_NULL: return j->k=='n'; case T_INT: { if(j->k!='#') return false; const std::string&s=j->s; size_t i=0; bool neg=false; if(s[0]=='-'){ neg=true; i=1; } uint64_t x=0; if(i>=s.size()) return false; for(;i<s.size();i++){ if(s[i]<'0'||s[i]>'9') return false; x=x*10+(uint64_t)(s[i]-'0'); } return (neg?0-x:x)==v.n; }
    case T_REAL: { double d=bitsd(v.n); if(d!=d||d-d!=0) return j->k=='n'; if(j->k!='#') return false; return strtod(j->s.c_str(),nullptr)==d; }
    case T_TEXT: return j->k=='$'&&j->s==std::string(v.s.begin(),v.s.end()); case T_BLOB: return j->k=='$'&&j->s==b64(v.s); default: return false; } }
