// Logging (C31).
#include "h.h"
#include "geodifflogger.hpp"
struct Got { int who,level; char msg[24]; }; static Got got[16]; static int nGot;
static void rec(int who,int l,const char*m){ if(nGot<16){ got[nGot].who=who; got[nGot].level=l; size_t n=strlen(m); if(n>23) n=23; memcpy(got[nGot].msg,m,n); got[nGot].msg[n]=0; } nGot++; }
static void cbA(GEODIFF_LoggerLevel l,const char*m){ rec(1,l,m); } static void cbB(GEODIFF_LoggerLevel l,const char*m){ rec(2,l,m); }
// any sequence of operations; every level and every message byte (up to mlen bytes, no NUL) is symbolic
extern "C" void h_log(){ nGot=0; int steps=(int)gs_param("steps",4),mlen=(int)gs_param("mlen",2); int cb=1,level=1; GEODIFF_setLoggerCallback(cbA); GEODIFF_setMaximumLoggerLevel(LevelError); Got want[16]; int n=0;
  for(int s=0;s<steps;s++){ int k=gs_choice(nm("op",s).c_str(),7);
    if(k==0){ level=1+(int)gs_sym(nm("level",s).c_str(),2); GEODIFF_setMaximumLoggerLevel((GEODIFF_LoggerLevel)level); gs_check(Logger::instance().maxLogLevel()==level,"level reads back"); }
    else if(k==1){ cb=gs_choice(nm("cb",s).c_str(),3); GEODIFF_setLoggerCallback(cb==0?nullptr:cb==1?cbA:cbB); }
    else { std::string m=std::string(1,(char)('0'+s)); for(int i=0;i<mlen;i++) m+=(char)gs_sym((nm("byte",s)+"_"+std::to_string(i)).c_str(),8); for(int i=0;i<mlen;i++) gs_assume(m[1+i]!=0); int l;
      if(k==2){ l=1; Logger::instance().error(m); } else if(k==3){ l=2; Logger::instance().warn(m); } else if(k==4){ l=3; Logger::instance().info(m); } else if(k==5){ l=4; Logger::instance().debug(m); } else { l=1; Logger::instance().error(GeoDiffException(m)); }
      if(cb&&l<=level){ want[n].who=cb; want[n].level=l; memcpy(want[n].msg,m.c_str(),m.size()+1); n++; } } }
  gs_log("messages",nGot); gs_check(nGot==n,"number of messages delivered"); for(int i=0;i<n&&i<nGot;i++){ gs_check(got[i].who==want[i].who,"message goes to the current callback"); gs_check(got[i].level==want[i].level,"message has its own level"); gs_check(memcmp(got[i].msg,want[i].msg,2+mlen)==0,"message text"); } GEODIFF_setLoggerCallback(nullptr); gs_cover("done"); }
// messages raised by API calls
extern "C" void h_log_api(){ nGot=0; GEODIFF_setLoggerCallback(cbA); int level=1+(int)gs_sym("level",2); GEODIFF_setMaximumLoggerLevel((GEODIFF_LoggerLevel)level); int k=gs_choice("call",3); if(k==0) GEODIFF_changesCount(nullptr); else if(k==1) GEODIFF_invertChangeset(gs_path("missing"),gs_path("o")); else GEODIFF_createChangesetEx("nodriver","","a","b",gs_path("o")); gs_check(nGot>=1,"failure is logged as error"); for(int i=0;i<nGot&&i<16;i++) gs_check(got[i].level>=1&&got[i].level<=level,"no message above the level"); gs_cover("done"); }
// the initial level comes from the environment
extern "C" void h_log_env(){ static const char*E[]={nullptr,"0","1","2","3","4","9","-1","x"}; int k=gs_choice("env",9); gs_set_env("GEODIFF_LOGGER_LEVEL",E[k]); nGot=0; Logger::instance().setCallback(cbA); int lv=k==0?0:k<=5?k-1:k==8?0:-1; Logger::instance().error("e"); Logger::instance().warn("w"); Logger::instance().info("i"); Logger::instance().debug("d"); if(lv>=0) gs_check(nGot==lv,"level from the environment"); else gs_check(nGot==1,"invalid level in the environment means errors only"); gs_cover("done"); }
// any text of up to two characters in the environment
extern "C" void h_log_envtext(){ char t[3]; t[0]=(char)gs_sym("c0",8); t[1]=(char)gs_sym("c1",8); t[2]=0; gs_assume(t[0]!=0); gs_set_env("GEODIFF_LOGGER_LEVEL",t); nGot=0; Logger::instance().setCallback(cbA); auto digit=[](char c){ return c>='0'&&c<='9'; }; auto blank=[](char c){ return c==' '||(c>=9&&c<=13); };
  int v=0; if(digit(t[0])) { v=t[0]-'0'; if(digit(t[1])) v=v*10+t[1]-'0'; } else if((t[0]=='+'||blank(t[0]))&&digit(t[1])) v=t[1]-'0'; else if(t[0]=='-'&&digit(t[1])) v=-(t[1]-'0');
  Logger::instance().error("e"); Logger::instance().warn("w"); Logger::instance().info("i"); Logger::instance().debug("d"); gs_log("messages",nGot); if(v>=0&&v<=4) gs_check(nGot==v,"level from the environment"); else gs_check(nGot==1,"invalid level in the environment means errors only"); gs_cover("done"); }
