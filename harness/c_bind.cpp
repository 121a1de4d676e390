// The functions exported to Python (pctsp/pypctsp.cpp), called with Python-like values.
#include "scipfix.h"
#include "pctsp/heuristic.hh"
#include "pctsp/pypctsp.cpp"
typedef pybind11::Arg A; typedef std::list<PCTSPvertex> T;
static pybind11::module_& module(){ static pybind11::module_*m=nullptr; if(!m){ m=new pybind11::module_; pybind11_stub_init(*m);} return *m; }
static A call(const char*n,std::vector<A> a){ auto f=module().find(n); CHECK(f!=nullptr,"the function is exported"); return (*f)(a); }
static A pairs(std::vector<std::pair<long,long>> p){ A a; a.k=A::PAIRS; a.pairs=p; return a; }
static A plist(std::vector<long> l){ A a; a.k=A::LIST; a.list=l; return a; }
static A dict(std::vector<std::pair<long,long>> p){ A a; a.k=A::MAP; a.pairs=p; return a; }
static A edict(std::vector<std::pair<std::pair<long,long>,long>> p){ A a; a.k=A::EDGEMAP; a.emap=p; return a; }
// names of the vertices: increasing symbolic names; `perm` assigns them to the vertices
static std::vector<long> names(int n){ std::vector<long> v; long last=-1; for(int i=0;i<n;i++){ last=last+sym_int(nm("gap",i).c_str(),1,1000); v.push_back(last);} return v; }
static std::vector<long> permuted(std::vector<long> v,int lim){ std::vector<int> p; for(size_t i=0;i<v.size();i++) p.push_back(i); int f=1; for(int i=2;i<=(int)v.size();i++) f*=i; int k=sym_choice("perm",lim&&lim<f?lim:f); if(lim&&lim<f) k=k*(f/lim)+1; while(k--) std::next_permutation(p.begin(),p.end()); std::vector<long> r(v.size()); for(size_t i=0;i<v.size();i++) r[i]=v[p[i]]; return r; }
struct In { G&g; std::vector<long> N; bool flip;
  A edges(){ std::vector<std::pair<long,long>> p; for(auto&e:g.e) p.push_back({N[e.first],N[e.second]}); return pairs(p); }
  A cost(){ std::vector<std::pair<std::pair<long,long>,long>> p; for(auto&e:g.e){ int u=e.first,v=e.second; if(flip) std::swap(u,v); p.push_back({{N[u],N[v]},(long)g.cost[u][v]}); } return edict(p); }
  A prize(){ std::vector<std::pair<long,long>> p; for(int v=0;v<g.n;v++) p.push_back({N[v],(long)g.prize[v]}); return dict(p); }
  A tour(const T&t){ std::vector<long> l; for(auto v:t) l.push_back(N[v]); return plist(l); } };
enum W { COLLAPSE, PATH, PUNTIL, UNTIL, PEC, GAIN };
static A bound(W w,In&in,const T&t,int root,int quota,bool sp,int step,int depth,int level){
  A e=in.edges(),tt=in.tour(t),c=in.cost(),p=in.prize(),r=A(in.N[root]),q=A((long)quota),l=A((long)level);
  switch(w){ case COLLAPSE: return call("collapse_bind",{e,tt,c,p,q,r,A(sp),l}); case PATH: return call("path_extension_bind",{e,tt,c,p,r,A(step),A(depth),l});
   case PUNTIL: return call("path_extension_until_prize_feasible_bind",{e,tt,c,p,r,q,A(step),A(depth),l}); case UNTIL: return call("extension_until_prize_feasible_bind",{e,tt,c,p,q});
   case PEC: return call("path_extension_collapse_bind",{e,tt,c,p,r,q,A(sp),A(depth),A(step),l}); default: return call("extension_unitary_gain_bind",{e,tt,c,p,l}); } }
static T direct(W w,G&g,T t,int root_,int quota,bool sp,int step,int depth){ PCTSPvertex root=root_;
  switch(w){ case COLLAPSE: return collapse(g.graph,t,g.cm,g.pm,quota,root,sp); case PATH: pathExtension(g.graph,t,g.cm,g.pm,root,step,depth); return t;
   case PUNTIL: pathExtensionUntilPrizeFeasible(g.graph,t,g.cm,g.pm,root,quota,step,depth); return t; case UNTIL: extensionUntilPrizeFeasible(g.graph,t,g.cm,g.pm,quota); return t;
   case PEC: return pathExtensionCollapse(g.graph,t,g.cm,g.pm,quota,root,sp,depth,step); default: extensionUnitaryGain(g.graph,t,g.cm,g.pm); return t; } }
static std::set<std::pair<int,int>> cyc(int k){ std::set<std::pair<int,int>> m; for(int i=0;i+1<k;i++) m.insert({i,i+1}); m.insert({0,k-1}); return m; }
// the exported function does what the heuristic does on the graph whose vertices carry their rank as name
static void same(W w,int n,int k,bool opt,int chi,int plo,int phi){
  G g(n); symEdges(g,1,chi,cyc(k),opt); { int next=0; for(auto&e:g.e){ for(int v:{e.first,e.second}) { if(v>next) sym_assume(false); if(v==next) next++; } } sym_assume(next==n); } // vertices appear in order
  symPrizes(g,plo,phi); bool usesQuota=w==COLLAPSE||w==PUNTIL||w==UNTIL||w==PEC; int quota= usesQuota? sym_int32("quota",0,phi*n+1):0; bool sp= w==COLLAPSE||w==PEC? sym_choice("sp",2):false; int step=1,depth=2; if(w==PATH||w==PUNTIL||w==PEC){ int sd=sym_choice("sd",3); step= sd==1?2:1; depth= sd==0?2:3; }
  int root= w==UNTIL||w==GAIN?0:sym_choice("root",2)*(k-1); T t; for(int i=0;i<=k;i++) t.push_back((root+i)%k);
  In in{g,names(n),sym_choice("flip",2)==1}; T want=direct(w,g,t,root,quota,sp,step,depth); A got=bound(w,in,t,root,quota,sp,step,depth,30);
  CHECK(got.k==A::LIST,"a list of vertices is returned"); CHECK(got.list.size()==want.size(),"the exported heuristic returns the heuristic's tour"); size_t i=0; for(auto v:want){ CHECK(got.list[i]==in.N[v],"the exported heuristic returns the heuristic's tour in the user's names"); i++; } sym_observe("len",got.list.size()); sym_reach(want==t?"unchanged":"changed"); }
HARNESS h_bcollapse(){ same(COLLAPSE,4,4,true,2,0,2); }
HARNESS h_bpath(){ same(PATH,5,4,false,1,0,3); }
HARNESS h_bpuntil(){ same(PUNTIL,5,4,false,1,0,3); }
HARNESS h_buntil(){ same(UNTIL,4,3,true,4,0,4); }
HARNESS h_bpec(){ same(PEC,4,3,false,2,0,2); }
HARNESS h_bgain(){ same(GAIN,4,3,true,4,0,4); }
HARNESS h_bpec4(){ same(PEC,5,4,false,1,0,2); }
// any names, in any order: what is returned is a tour of the user's graph with the heuristic's guarantees
static void named(W w,int n,int k,int chi,int plo,int phi){
  G g(n); symEdges(g,1,chi,cyc(k),n<=4); std::set<int> seen; for(auto&e:g.e){seen.insert(e.first);seen.insert(e.second);} sym_assume((int)seen.size()==n); symPrizes(g,plo,phi); int quota=sym_int32("quota",0,phi*n+1); In in{g,permuted(names(n),n>3?6:0),false}; int ek=sym_choice("edge_order",2); if(ek) std::reverse(g.e.begin(),g.e.end());
  T t; for(int i=0;i<=k;i++) t.push_back(i%k); A got=bound(w,in,t,0,quota,true,1,2,10); CHECK(got.k==A::LIST,"a list of vertices is returned"); std::vector<int> r; for(auto x:got.list){ int v=-1; for(int i=0;i<n;i++) if(sym_conc(x==in.N[i])) v=i; CHECK(v>=0,"the returned vertices carry the user's names"); r.push_back(v); }
  long p0=0,c0=0; for(int i=0;i<k;i++){ p0+=g.prize[i]; c0+=g.cost[i][(i+1)%k]; }
  if(r.empty()){ CHECK(w==PEC,"a tour is returned"); CHECK(p0<quota,"a prize-feasible start tour yields a tour"); sym_reach("none"); return; }
  CHECK(r.size()>=4&&r.front()==0&&r.back()==0,"a closed tour from the root"); std::set<int> s; long p1=0,c1=0; for(size_t i=0;i+1<r.size();i++){ CHECK(s.insert(r[i]).second,"no vertex is visited twice"); CHECK(g.adj[r[i]][r[i+1]],"every step is an edge the user gave"); p1+=g.prize[r[i]]; c1+=g.cost[r[i]][r[i+1]]; }
  if(w==COLLAPSE){ CHECK(c1<=c0,"collapsing never costs more"); CHECK(IMP(p0>=quota,p1>=quota),"a prize-feasible tour stays so"); } else if(w==PEC){ CHECK(p1>=quota,"the returned tour reaches the quota"); CHECK(IMP(p0>=quota,c1<=c0),"never dearer than a feasible start tour"); } else CHECK(p1>=p0,"extending never loses prize");
  sym_reach("tour"); }
HARNESS h_ncollapse(){ named(COLLAPSE,4,4,2,1,2); }
HARNESS h_npath(){ named(PATH,4,3,3,0,3); }
HARNESS h_npuntil(){ named(PUNTIL,4,3,3,0,3); }
HARNESS h_nuntil(){ named(UNTIL,4,3,3,0,3); }
HARNESS h_npec(){ named(PEC,4,3,2,0,2); }
HARNESS h_ngain(){ named(GAIN,4,3,3,0,3); }
// without a start tour (no cycle through the root) there is nothing to extend: no tour comes back
HARNESS h_bempty(){ W w=(W)sym_choice("which",6); G g(4); symEdges(g,1,3,{{0,1},{1,2},{2,3}},true); symPrizes(g,0,4); int quota=sym_int32("quota",0,20);
  In in{g,permuted(names(4),3),false}; A got=bound(w,in,T(),sym_choice("root",4),quota,sym_choice("sp",2)==1,1+sym_choice("step",3),2,30); CHECK(got.k==A::LIST&&got.list.empty(),"without a start tour no tour is returned"); sym_reach("end"); }
// gain and loss as exported
HARNESS h_bformulas(){ int p=sym_int32("p",0,1000),a=sym_int32("a",0,1000),b=sym_int32("b",0,1000),c=1<<sym_choice("lc",6); int d=c+a-b; sym_assume(d>=0); A r=call("unitary_gain",{A((long)p),A((long)a),A((long)b),A((long)d)}); CHECK(r.k==A::REAL&&r.d==(double)((float)p/(float)c),"unitary gain is prize over extra cost");
  int ep=sym_int32("ep",0,1000),ec=sym_int32("ec",0,1000),ic=sym_int32("ic",0,1000),ip=ep-c; sym_assume(ip>=0); A l=call("unitary_loss",{A((long)ep),A((long)ip),A((long)ec),A((long)ic)}); CHECK(l.k==A::REAL&&l.d==(double)((float)(ec-ic)/(float)c),"unitary loss is extra cost over extra prize"); sym_reach("end"); }
// ---- exact algorithms
static struct Hook{ std::function<void(SCIP*)> f; } *HK; static void hookf(SCIP*s){ HK->f(s); }
static int prio(SCIP*s,const char*n){ auto r=SCIPfindBranchrule(s,n); return r? r->priority : -2000000000; }
// the model's variables identified by their (different) costs and prizes, whatever the internal numbering
struct Vars { std::vector<std::vector<SCIP_VAR*>> x; std::vector<SCIP_VAR*> y; };
static void solveBind(int n,bool full){
  G g(n); int cc=1; for(int u=0;u<n;u++)for(int v=u+1;v<n;v++){ g.edge(u,v,cc*=2); } for(int v=0;v<n;v++) g.setPrize(v,1<<(n-1-v)); auto base=full?names(n):std::vector<long>(); std::vector<long> N; if(full) N=permuted(base,n>3?4:0); else for(int v=0;v<n;v++) N.push_back(v); In in{g,N,sym_choice("flip",2)==1}; int root=full?sym_choice("root",2)*(n-1):sym_choice("root",n); auto TT=allTours(g,root);
  int quota=sym_int32("quota",1,(1<<n)-1); int hs=sym_choice("start",3); std::vector<std::pair<long,long>> he; long hcost=0; std::vector<std::vector<char>> hon(n,std::vector<char>(n,0)); if(hs){ auto&q=TT[hs==1?0:TT.size()-1].seq; for(size_t i=0;i<q.size();i++){ int u=q[i],v=q[(i+1)%q.size()]; he.push_back({N[u],N[v]}); hon[u][v]=hon[v][u]=1; hcost+=g.cost[u][v]; } }
  bool ccd=0,ccs=0,cyc_=0,sd=1,sm=1,simple=1; int freq=1,bs=0,depth=-1,tail=-1; double tl=100; long th64=1; std::vector<long> dist(n,0); if(full){ ccd=sym_choice("cc_disjoint",2); ccs=sym_choice("cc_shortest",2); int k=sym_choice("flags",5); cyc_=k==1; sd=k==2; sm=k==3; simple=k==4; freq=sym_int32("freq",-1,100); bs=k==0?sym_choice("strategy",3):k%3; depth=sym_int32("depth",-1,1000); tail=sym_int32("tail",-1,100); tl=sym_dyadic("time_limit",1,800000,3); for(int v=0;v<n;v++) dist[v]= v==root?0:sym_int(nm("d",v).c_str(),0,100); }
  SCIP*scip; SCIPcreate(&scip); PyObject cap{scip}; A model{pybind11::object(&cap)}; int calls=0; std::vector<std::vector<char>> on; bool found=sym_choice("found",2); int pick= found?sym_choice("best",TT.size()):0; Hook hk; HK=&hk;
  hk.f=[&](SCIP*s){ calls++; Vars o; o.x.assign(n,std::vector<SCIP_VAR*>(n,nullptr)); o.y.assign(n,nullptr);
    // each edge variable carries the cost of its edge; an internal vertex is the user's vertex all of whose edges it has
    for(auto x:s->allvars) for(int u=0;u<n;u++)for(int v=u+1;v<n;v++) if(x->obj==(double)g.cost[u][v]) o.x[u][v]=o.x[v][u]=x; for(int u=0;u<n;u++)for(int v=0;v<n;v++) if(u!=v) CHECK(o.x[u][v]!=nullptr,"the cost of every edge is in the model");
    auto pd=dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(s)); auto ig=pd->getInputGraph(); auto evm=*pd->getEdgeVariableMap(); std::map<int,std::set<SCIP_VAR*>> inc; std::map<int,SCIP_VAR*> loop; for(auto&kv:evm){ int a=boost::source(kv.first,*ig),b=boost::target(kv.first,*ig); if(a==b) loop[a]=kv.second; else { inc[a].insert(kv.second); inc[b].insert(kv.second); } }
    for(auto&kv:inc) for(int v=0;v<n;v++){ bool all=true; for(int u=0;u<n;u++) if(u!=v&&!kv.second.count(o.x[u][v])) all=false; if(all) o.y[v]=loop[kv.first]; } for(int v=0;v<n;v++) CHECK(o.y[v]!=nullptr,"every vertex has its variable");
    // a tour of the user's graph is accepted iff it passes the user's root and reaches the quota
    for(int r=0;r<n;r++){ auto RT=allTours(g,r); for(auto&t:RT){ std::vector<long> X(s->allvars.size(),0); for(size_t i=0;i<t.seq.size();i++){ X[o.x[t.seq[i]][t.seq[(i+1)%t.seq.size()]]->idx]=1; X[o.y[t.seq[i]]->idx]=1; } bool lin=linearOk(s,X); bool ok=AND(t.vis[root],prizeOf(g,t)>=quota); bool free_=true; if(ccd&&hs){ for(int v=0;v<n;v++) if(t.vis[v]) free_=AND(free_,dist[v]<=hcost); } if(ccs&&hs) free_= sym_conc(costOf(g,t)<=hcost)? free_ : false; // shortest path inequalities may forbid dearer tours
        CHECK(IMP(lin,ok),"only tours through the root that reach the quota are accepted"); CHECK(IMP(AND(ok,free_),lin),"every tour through the root that reaches the quota is accepted");
        if(ccd&&hs&&!ccs&&hcost>0){ CHECK(IFF(lin,AND(ok,free_)),"the distance of each vertex is the one the user gave for it"); } } }
    // the start solution
    CHECK((int)s->sols.size()==(hs?1:0),"the start solution is passed on"); if(hs){ auto&val=s->sols[0]->vals; for(int u=0;u<n;u++){ bool in_=false; for(int v=0;v<n;v++) if(u!=v){ CHECK(val[o.x[u][v]->idx]==(hon[u][v]?1.0:0.0),"the start solution consists of the given edges"); if(hon[u][v]) in_=true; } CHECK(val[o.y[u]->idx]==(in_?1.0:0.0),"and of their vertices"); } }
    if(full){ CHECK(s->params.count("limits/time")&&s->params["limits/time"]==tl,"the time limit is passed on"); CHECK((SCIPfindObjEventhdlr(s,DISJOINT_PATHS_COST_COVER_NAME.c_str())!=nullptr)==ccd&&(SCIPfindObjEventhdlr(s,SHORTEST_PATH_COST_COVER_NAME.c_str())!=nullptr)==ccs&&(SCIPfindObjConshdlr(s,CYCLE_COVER_NAME.c_str())!=nullptr)==cyc_,"cuts are enabled exactly when asked for");
      auto sec=SCIPfindObjConshdlr(s,SEC_CONSHDLR_NAME.c_str()); CHECK(sec&&sec->scip_sepafreq_==freq,"separation frequency"); CHECK(s->defaultplugins==!simple,"default plugins only when not restricted to the simple rules"); auto fr=SCIPfindBranchrule(s,"fullstrong"); if(bs==0) CHECK(prio(s,"relpscost")>prio(s,"fullstrong"),"reliability branching comes first"); else CHECK(prio(s,"fullstrong")>prio(s,"relpscost"),"strong branching comes first"); CHECK(fr->maxdepth==(bs==2?depth:-1),"strong branching depth"); }
    scip_model_initsol(s); s->status= found?SCIP_STATUS_OPTIMAL:SCIP_STATUS_INFEASIBLE; if(found){ SCIPcreateSol(s,&s->best,nullptr); auto&q=TT[pick].seq; on.assign(n,std::vector<char>(n,0)); for(size_t i=0;i<q.size();i++){ int u=q[i],v=q[(i+1)%q.size()]; on[u][v]=on[v][u]=1; s->best->vals[o.x[u][v]->idx]=1; s->best->vals[o.y[u]->idx]=1; } } scip_model_exitsol(s); };
  scip->solvehook=hookf; std::vector<std::pair<long,long>> dm; for(int v=0;v<n;v++) dm.push_back({N[v],dist[v]}); A got;
  if(full) got=call("solve_pctsp_bind",{model,in.edges(),pairs(he),in.cost(),in.prize(),A((long)quota),A(N[root]),A((long)depth),A((long)bs),A(ccd),A(ccs),A(cyc_),dict(dm),A(30),A("p"),A(sd),A((double)th64/64),A(sm),A((long)tail),A((long)freq),A(simple),A("./solver"),A(tl)});
  else got=call("basic_solve_pctsp_bind",{model,in.edges(),pairs(he),in.cost(),in.prize(),A((long)quota),A(N[root]),A("p")});
  CHECK(calls==1,"solved once"); CHECK(got.k==A::PAIRS,"edges are returned"); int m=0; if(found) for(int u=0;u<n;u++)for(int v=u+1;v<n;v++) if(on[u][v]){ m++; int c=0; for(auto&p:got.pairs) c+=(int)B2L(OR(AND(p.first==N[u],p.second==N[v]),AND(p.first==N[v],p.second==N[u]))); CHECK(c==1,"every edge of the best solution is returned once, in the user's names"); } CHECK((int)got.pairs.size()==m,"and nothing else"); sym_reach(found?"solution":"none"); }
HARNESS h_bsolve3(){ solveBind(3,true); }
HARNESS h_bsolve4b(){ solveBind(4,false); }
HARNESS h_bsolve4(){ solveBind(4,true); }

HARNESS h_bsec(){ G g(6); linkedTriangles(g,1); { int c=1; for(auto&e:g.e){ g.cost[e.first][e.second]=g.cost[e.second][e.first]=c; c*=2; } } symPrizes(g,1,1); std::vector<long> N={40,7,9,3,12,1}; In in{g,N,false}; SecAsk a{(bool)sym_choice("sec_disjoint",2),(bool)sym_choice("sec_flow",2),sym_choice("window",6)-1,0}; double thr=sym_dyadic("threshold",0,64,6); a.thr64=(long)(thr*64); SCIP*scip; SCIPcreate(&scip); PyObject cap{scip}; A model{pybind11::object(&cap)}; int calls=0; Hook hk; HK=&hk;
  hk.f=[&](SCIP*s){ calls++; std::vector<std::vector<SCIP_VAR*>> x(6,std::vector<SCIP_VAR*>(6,nullptr)); for(auto v:s->allvars) for(auto&e:g.e) if(v->obj==(double)g.cost[e.first][e.second]) x[e.first][e.second]=x[e.second][e.first]=v; for(auto&e:g.e) CHECK(x[e.first][e.second]!=nullptr,"the cost of every edge is in the model"); scip_model_transform(s); scip_model_initsol(s); secOptions(s,x,a); scip_model_exitsol(s); s->status=SCIP_STATUS_INFEASIBLE; }; scip->solvehook=hookf; std::vector<std::pair<long,long>> dm; for(int v=0;v<6;v++) dm.push_back({N[v],0});
  A got=call("solve_pctsp_bind",{model,in.edges(),pairs({}),in.cost(),in.prize(),A(1L),A(N[0]),A(-1),A(0),A(false),A(false),A(false),dict(dm),A(30),A("p"),A(a.disjoint),A(thr),A(a.flow),A(a.window),A(1),A(true),A("./solver"),A(100)}); CHECK(calls==1,"solved once"); CHECK(got.pairs.empty(),"no edges without a solution"); sym_reach("end"); }
