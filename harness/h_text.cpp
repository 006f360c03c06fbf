// Text and binary helpers (C24, C34).
#include "json.h"
#include "base64utils.h"
static std::string symStr(const char*id,int max,bool nonempty=false){ int lo=nonempty; int n=lo+gs_choice((std::string(id)+".len").c_str(),max+1-lo); std::string s(n,0); if(n) gs_bytes(&s[0],n,id); return s; }
static void checkB64(const std::string&r,const Bytes&b){ static const char A[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; size_t n=b.size(); gs_check(r.size()==(n+2)/3*4,"C24 base64 length"); for(size_t i=0;i<r.size()&&i<(n+2)/3*4;i++){ size_t bit=i*6,k=bit/8; if(k>=n||(k*8<bit&&k+1>=n&&bit/8*8+8<=bit)) { gs_check(r[i]=='=',"C24 base64 padding"); continue; } unsigned v=((unsigned)b[k]<<8|(k+1<n?b[k+1]:0)); v=(v>>(10-bit%8))&63; gs_check(r[i]==A[v],"C24 base64 character"); } }
extern "C" void h_base64(){ int n=gs_choice("len",(int)gs_param("b64",5)+1); Bytes b(n+1); if(n) gs_bytes(b.data(),n,"b"); b.resize(n+1); std::string r=base64_encode(b.data(),n); Bytes c(b.begin(),b.begin()+n); gs_log_bytes("r",r.data(),r.size()); checkB64(r,c); gs_cover("done"); }
extern "C" void h_base64_long(){ static const int L[]={7,8,57,58,76,300}; int n=L[gs_choice("len",6)]; Bytes b(n); for(int i=0;i<n;i++) b[i]=(unsigned char)(i*37); gs_bytes(&b[n-2],2,"tail"); gs_bytes(&b[0],1,"head"); std::string r=base64_encode(b.data(),n); checkB64(r,b); gs_cover("done"); }
extern "C" void h_hex(){ std::string s=symStr("b",(int)gs_param("hex",3)); std::string h=bin2hex(s); gs_log_bytes("h",h.data(),h.size()); gs_check(h.size()==2*s.size(),"C24 two digits per byte"); for(size_t i=0;i<s.size()&&2*i+1<h.size();i++){ int a=JP::hx((unsigned char)h[2*i]),b=JP::hx((unsigned char)h[2*i+1]); gs_check(a>=0&&b>=0&&a*16+b==(unsigned char)s[i],"C24 digits denote the byte"); } std::string back; int rc=guarded([&]{ back=hex2bin(h); }); gs_check(rc==0&&back==s,"C24 decoding inverts encoding"); gs_cover("done"); }
extern "C" void h_unhex(){ int n=2*gs_choice("bytes",3); std::string h(n,0); if(n) gs_bytes(&h[0],n,"h"); std::string want; bool ok=true; for(int i=0;i<n;i+=2){ int a=JP::hx((unsigned char)h[i]),b=JP::hx((unsigned char)h[i+1]); if(a<0||b<0){ ok=false; break; } want+=(char)(a*16+b); } std::string got; int rc=guarded([&]{ got=hex2bin(h); }); gs_log("rc",rc); gs_check(rc!=2,"C24 only GeoDiffException is thrown"); if(ok){ gs_check(rc==0&&got==want,"C24 hexadecimal digits of either case decode to their bytes"); std::string again=bin2hex(got); gs_check(again.size()==h.size(),"C24 encoding again has the same length"); gs_cover("valid"); } }
static int strPos(const std::string&s,const std::string&p,size_t from){ for(size_t i=from;i+p.size()<=s.size();i++){ bool eq=true; for(size_t k=0;k<p.size();k++) if(s[i+k]!=p[k]){ eq=false; break; } if(eq) return (int)i; } return -1; }
extern "C" void h_prefix(){ std::string s=symStr("s",(int)gs_param("str",3)),p=symStr("p",(int)gs_param("str",3)); bool want=s.size()>=p.size(); for(size_t i=0;want&&i<p.size();i++) if(s[i]!=p[i]) want=false; bool got=startsWith(s,p); gs_log("r",got); gs_check(got==want,"C34 prefix test"); gs_cover("done"); }
extern "C" void h_replace(){ std::string s=symStr("s",(int)gs_param("rstr",3)),p=symStr("p",2,true),r=symStr("r",2); std::string want; size_t i=0; while(i<s.size()){ if(strPos(s,p,i)==(int)i){ want+=r; i+=p.size(); } else want+=s[i++]; } std::string got=replace(s,p,r); gs_log_bytes("r",got.data(),got.size()); gs_check(got==want,"C34 every occurrence is replaced"); gs_cover("done"); }
extern "C" void h_lower(){ std::string s=symStr("s",3); std::string got=lowercaseString(s); gs_check(got.size()==s.size(),"C34 lower-casing keeps the length"); for(size_t i=0;i<s.size()&&i<got.size();i++){ unsigned char c=s[i]; unsigned char w=c>='A'&&c<='Z'?c+32:c; gs_check((unsigned char)got[i]==w,"C34 lower-casing of ASCII letters"); } gs_cover("done"); }
extern "C" void h_names(){ int n=gs_choice("n",4); std::vector<std::string> v; for(int i=0;i<n;i++) v.push_back(symStr(nm("v",i).c_str(),1,true)); std::string x=symStr("x",1); int want=-1; for(int i=n-1;i>=0;i--) if(v[i]==x) want=i; int got=indexOf(v,x); gs_log("r",(uint32_t)got); gs_check(got==want,"C34 index of a name"); std::string c; for(int i=0;i<n;i++){ if(i) c+=", "; c+=v[i]; } gs_check(concatNames(v)==c,"C34 joined names"); gs_cover("done"); }
extern "C" void h_layer(){ static const char*N[]={"gpkg_","gpkg_contents","gpkg","rtree_","rtree_x","rtre","sqlite_sequence","sqlite_sequence2","simple","","sqlite_","GPKG_x","my_gpkg_x"}; static const int W[]={0,0,1,0,0,1,0,1,1,1,1,1,1}; int k=gs_choice("which",14); if(k<13){ gs_check(isLayerTable(N[k])==(W[k]!=0),"C34 layer table test"); } else { std::string s("gpkg_"); int p=gs_choice("pos",5); char c; gs_bytes(&c,1,"c"); s[p]=c; s+="t"; gs_check(isLayerTable(s)==(c!="gpkg_"[p]),"C34 layer table test"); } gs_cover("done"); }
extern "C" void h_tmp(){ int k=gs_choice("env",5); static const char*E[]={nullptr,"/gs/tmp","/gs/tmp/","/","x"}; gs_set_env("TMPDIR",E[k]); std::string d=tmpdir(); std::string want=k==0?"/tmp/":k==1||k==2?"/gs/tmp/":k==3?"/":"x/"; gs_check(d==want,"C34 temporary directory ends with a slash"); gs_set_env("GS_X",gs_choice("set",2)?"val":nullptr); std::string g=getEnvVar("GS_X","dflt"); gs_check(g=="val"||g=="dflt","C34 environment value or default"); int n=gs_choice("n",8); std::string r=randomString(n); gs_check((int)r.size()==n,"C34 random name has the requested length"); for(unsigned char c:r) gs_check((c>='0'&&c<='9')||(c>='A'&&c<='Z')||(c>='a'&&c<='z'),"C34 random name is alphanumeric"); gs_cover("done"); }
extern "C" void h_number(){ static const double D[]={0,1,-1,0.1,1.5,-2.25,123456.789,1e-7,1.23456789012345678e-5,1e22,1e300,5e-324,1.7976931348623157e308,2.2250738585072014e-308,-2.5e-10,0.30000000000000004,1e15+0.3,16777217.0,4503599627370497.5,1.0000000000000002,9007199254740993.0,1e-5}; int k=gs_choice("which",22); double d=D[k]; if(gs_choice("neg",2)) d=-d; std::string s=doubleToString(d); gs_check(strtod(s.c_str(),nullptr)==d,"C34,C22 number text denotes the number"); gs_cover("done"); }
extern "C" void h_files(){ const char*f=gs_path("a"),*g=gs_path("b"); int n=gs_choice("n",4); Bytes b(n); if(n) gs_bytes(b.data(),n,"c"); putFile(f,b); if(gs_choice("existing",2)){ Bytes o(6,'o'); putFile(g,o); } gs_check(fileexists(f),"C34 existing file exists"); int rc=guarded([&]{ filecopy(g,f); }); gs_check(rc==0&&fileIs(g,b),"C34,C20 copy has the same content"); gs_check(fileIs(f,b),"C21 copying keeps the source"); rc=guarded([&]{ flushString(g,std::string(b.begin(),b.end())); }); gs_check(rc==0&&fileIs(g,b),"C34,C20 string written to file"); { Buffer u; u.read(f); gs_check(u.size()==n&&(n==0||memcmp(u.v_buf(),b.data(),n)==0),"C34 file read to buffer"); u.write(gs_path("c")); gs_check(fileIs(gs_path("c"),b),"C20,C34 buffer written to file"); } fileremove(g); gs_check(!fileexists(g)&&gs_file_size(g)<0,"C34 removed file is gone"); { TmpFile t(f); gs_check(t.path()==f,"C34 temporary file path"); } gs_check(!fileexists(f),"C21 temporary file is removed"); rc=guarded([&]{ filecopy(g,gs_path("missing")); }); gs_check(rc==1,"C20 copying a missing file is an error"); gs_cover("done"); }
