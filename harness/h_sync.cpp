// C41: rounds of synchronisation between two clients and a server.
#include "sq.h"
#include "changesetutils.h"
#include "geodiffrebase.hpp"
extern "C" { std::string gs_stub_entry_json(const ChangesetEntry&){ return std::string("{}"); } std::string gs_stub_conflicts_json(const std::vector<ConflictFeature>&){ return std::string("{}"); } }
typedef std::vector<Row> Rows;
static std::string P(const std::string&n){ return gs_path(n.c_str()); }
static int at(const Rows&r,const OV&key){ for(size_t i=0;i<r.size();i++) if(ovEq(r[i][0],key)) return (int)i; return -1; }
struct Client { std::string id, base, local; Rows b, l; int serial; };
static ST shape;
static SDb with(const Rows&r){ SDb d(1,shape); d[0].rows=r; return d; }
static void fresh(const std::string&path,const Rows&r){ sqMake(P(path).c_str(),with(r)); }
static Rows content(const std::string&path){ return sqRead(P(path).c_str(),SDb(1,shape))[0].rows; }
static void sql(const std::string&path,const std::string&s,const Row&bind){ sqlite3*d=sqOpen(P(path).c_str(),false); sqlite3_stmt*q; sqMust(sqlite3_prepare_v2(d,s.c_str(),-1,&q,nullptr)==0,"prepare edit"); for(size_t i=0;i<bind.size();i++) sqBind(q,(int)i+1,bind[i]); int rc=sqlite3_step(q); sqlite3_finalize(q); sqMust(rc==101,"edit"); sqlite3_close(d); }
// one edit of a client's local database; its columns are (id, a, b)
static void edit(Client&c,unsigned mask,const std::string&id){ int k=gs_choice((id+".edit").c_str(),c.l.empty()?2:5); if(k==0) return; if(k==1){ Row r; OV key; key.t=T_INT; key.n=gs_sym((id+".key").c_str(),64); gs_assume((int64_t)key.n>0&&(int64_t)key.n<2147480000); for(auto&x:c.b) gs_assume((int64_t)key.n>(int64_t)x[0].n); for(auto&x:c.l) gs_assume((int64_t)key.n>(int64_t)x[0].n); r.push_back(key); r.push_back(ovStr(T_TEXT,(c.id+std::to_string(c.serial++)).c_str())); r.push_back(symCell(mask,1,(id+".b").c_str())); c.l.push_back(r); sql(c.local,"INSERT INTO t VALUES (?, ?, ?)",r); return; }
  int which=c.l.size()>1?gs_choice((id+".row").c_str(),2)*(int)(c.l.size()-1):0; if(k==2){ Row w(1,c.l[which][0]); c.l.erase(c.l.begin()+which); sql(c.local,"DELETE FROM t WHERE id = ?",w); return; } int col=k==3?2:1; Row w; w.push_back(symCell(mask,1,(id+".v").c_str())); w.push_back(c.l[which][0]); c.l[which][col]=w[0]; sql(c.local,col==1?"UPDATE t SET a = ? WHERE id = ?":"UPDATE t SET b = ? WHERE id = ?",w); }
// what the merge of a client's edits into the server has to hold; rows the client inserted may get another key when theirs is taken
static bool expected(const Client&c,const Rows&server,Rows&fixed,Rows&ours){ bool conflict=false; for(auto&t:server){ int i=at(c.b,t[0]); if(i<0){ fixed.push_back(t); continue; } int j=at(c.l,t[0]); if(j<0) continue; Row w=t; for(size_t k=1;k<w.size();k++) if(!ovEq(c.l[j][k],c.b[i][k])){ if(!ovEq(t[k],c.b[i][k])&&!ovEq(t[k],c.l[j][k])) conflict=true; w[k]=c.l[j][k]; } fixed.push_back(w); } for(auto&l:c.l) if(at(c.b,l[0])<0) ours.push_back(l); return conflict; }
static void need(int rc,const char*what){ gs_check(rc==0,what); if(rc) gs_assume(false); }
static void check(const Rows&got,const Rows&fixed,const Rows&ours,const Rows&server){ gs_check(got.size()==fixed.size()+ours.size(),"C41 number of rows after synchronisation"); for(auto&w:fixed){ int i=at(got,w[0]); gs_check(i>=0&&rowEq(got[i],w),"C41 an edit is lost in synchronisation"); } for(auto&o:ours){ int hits=0; bool kept=false; for(auto&g:got) if(ovEq(g[1],o[1])&&ovEq(g[2],o[2])&&(at(server,g[0])<0||at(fixed,g[0])<0)){ hits++; kept|=ovEq(g[0],o[0]); } gs_check(hits>=1,"C41 an inserted row is lost in synchronisation"); if(at(server,o[0])<0) gs_check(at(got,o[0])>=0,"C41 an inserted row gave up its key"); (void)kept; } }
static void sync(Client&c,Rows&server,int mode){ Rows fixed,ours; bool conflict=expected(c,server,fixed,ours); std::string conf="conf",reb="rebased",th="theirs",diff="push"; const char*sv="server.db";
  if(mode==0){ need(GEODIFF_rebase(P(c.base).c_str(),P(sv).c_str(),P(c.local).c_str(),P(conf).c_str()),"C41 rebasing the client failed"); need(GEODIFF_createChangeset(P(sv).c_str(),P(c.local).c_str(),P(diff).c_str()),"C41 creating the client's changeset failed"); need(GEODIFF_applyChangeset(P(sv).c_str(),P(diff).c_str()),"C41 pushing to the server failed"); }
  else { need(GEODIFF_createChangeset(P(c.base).c_str(),P(sv).c_str(),P(th).c_str()),"C41 creating the server's changeset failed"); need(GEODIFF_createRebasedChangeset(P(c.base).c_str(),P(c.local).c_str(),P(th).c_str(),P(reb).c_str(),P(conf).c_str()),"C41 rebasing the client's changeset failed"); need(GEODIFF_applyChangeset(P(sv).c_str(),P(reb).c_str()),"C41 pushing to the server failed"); need(GEODIFF_applyChangeset(P(c.base).c_str(),P(th).c_str()),"C41 pulling from the server failed"); need(GEODIFF_applyChangeset(P(c.base).c_str(),P(reb).c_str()),"C41 applying the rebased changeset failed"); sqCopy(P(c.base).c_str(),P(c.local).c_str()); }
  bool cf=gs_file_size(P(conf).c_str())>=0; gs_check(cf==conflict,"C41 conflict file exactly when an edit is overridden"); if(cf) remove(P(conf).c_str());
  Rows s=content(sv),l=content(c.local); check(s,fixed,ours,server); gs_check(multi(s,l),"C41 client and server differ after synchronisation"); server=s; c.l=s; c.b=s; sqCopy(P(c.local).c_str(),P(c.base).c_str()); if(!ours.empty()) gs_cover("inserted"); if(conflict) gs_cover("conflict"); gs_log("rows",s.size()); }
static void rounds(unsigned mask,int n,int rows,int two){ shape=sqTab("t","id INTEGER,a,b",1); Rows server; for(int i=0;i<rows;i++){ Row r; r.push_back(ovInt(1+i)); r.push_back(symCell(mask,1,"base")); r.push_back(ovInt(3)); server.push_back(r); } Client c[2]; fresh("server.db",server); for(int i=0;i<2;i++){ c[i].id=i?"B":"A"; c[i].base=c[i].id+"base.db"; c[i].local=c[i].id+".db"; c[i].b=c[i].l=server; c[i].serial=0; fresh(c[i].base,server); fresh(c[i].local,server); }
  int mode=gs_choice("way",2); for(int r=0;r<n;r++) for(int i=0;i<2;i++){ edit(c[i],mask,nm(c[i].id.c_str(),r)); if(two&&i==0&&r==0) edit(c[i],mask,nm((c[i].id+"more").c_str(),r)); if(r&&!i) sync(c[0],server,mode); if(i){ if(r==0) sync(c[0],server,mode); sync(c[1],server,mode); } }
  sync(c[0],server,mode); gs_check(multi(content(c[0].local),content(c[1].local)),"C41 the clients differ in the end"); need(GEODIFF_createChangeset(P(c[0].local).c_str(),P(c[1].local).c_str(),P("none").c_str()),"C41 comparing the clients failed"); gs_check(GEODIFF_hasChanges(P("none").c_str())==0,"C41 the clients differ in the end"); gs_cover("converged"); }
extern "C" {
void h_rounds_one(){ rounds(M_INT,1,1,1); }
void h_rounds_two(){ rounds(M_INT,(int)gs_param("rounds",2),(int)gs_param("rows",1),0); }
void h_rounds_types(){ rounds(M_INT|M_TEXT|M_NULL,1,1,0); }
}
