// The integer programming model, the solve entry points, start solutions, branching settings, events and statistics.
#include "scipfix.h"
#include <filesystem>
#include <fstream>
#include <yaml-cpp/yaml.h>
// P: a 0/1 assignment is accepted (linear constraints and constraint handlers) exactly when it is a quota-feasible simple cycle
// through the root with matching vertex variables, and the objective is the cost of its edges
static void exact(int n,int roots,bool opt,bool overload,std::vector<std::pair<int,int>> only={}){
  G g(n); const int B=100000000; if(only.empty()) symEdges(g,0,0,{},opt); else for(auto&e:only) g.edge(e.first,e.second,0); // costs below
  for(auto&e:g.e){ int c=sym_int32(nm("c",e.first,e.second).c_str(),-B,B); g.cost[e.first][e.second]=g.cost[e.second][e.first]=c; g.cm[g.ed[e.first][e.second]]=c; }
  symPrizes(g,-B,B); int quota=sym_int32("quota",-B*4,B*4); PCTSPvertex root=roots>1?sym_choice("root",roots):0; std::string name="pctsp"; 
  if(!overload){ int all=(1<<n)-1; int loops= n<=3 ? sym_choice("loops",1<<n) : (int[]){0,all,0x15&all}[sym_choice("loops",n==6?2:3)]; // any vertices may have a self loop already
    for(int v=0;v<n;v++) if(loops>>v&1){ auto r=boost::add_edge(v,v,g.graph); g.cm[r.first]=0; } }
  SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur;
  PCTSPgraph g2; std::vector<std::pair<PCTSPvertex,PCTSPvertex>> el,he; std::map<std::pair<PCTSPvertex,PCTSPvertex>,int> cd; std::map<PCTSPvertex,int> pd;
  if(overload){ for(auto&e:g.e){ el.push_back({(PCTSPvertex)e.first,(PCTSPvertex)e.second}); cd[{(PCTSPvertex)e.first,(PCTSPvertex)e.second}]=g.cost[e.first][e.second]; } for(int v=0;v<n;v++) pd[v]=g.prize[v]; }
  auto vm= overload? modelPrizeCollectingTSP(scip,g2,el,he,cd,pd,quota,root,name) : modelPrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,name);
  if(overload){ CHECK((int)boost::num_vertices(g2)==n,"vertices of the edge list"); g.graph=g2; }
  Obj o=varsOf(g,vm); CHECK(SCIPgetNVars(scip)==(int)g.e.size()+n,"one variable per edge and vertex"); CHECK(scip->sense==SCIP_OBJSENSE_MINIMIZE,"cost is minimised"); CHECK(scip->sols.empty(),"no start solution was given");
  for(auto v:scip->vars){ CHECK(v->type==SCIP_VARTYPE_BINARY&&v->lb==0&&v->ub==1,"variables are binary"); }
  for(int v=0;v<n;v++) CHECK(lval(o.y[v]->obj)==0,"visiting a vertex costs nothing");
  for(auto&e:g.e) CHECK(lval(o.x[e.first][e.second]->obj)==g.cost[e.first][e.second],"objective coefficient is the edge cost");
  for(auto c:scip->conss){ CHECK(!c->local&&!c->modifiable,"constraints are global"); CHECK(c->check&&c->enforce,"constraints are checked and enforced"); }
  scip_model_transform(scip);
  // assignment: edges forked, vertices symbolic
  SCIP_SOL*sol; SCIPcreateSol(scip,&sol,nullptr); std::vector<long> X(scip->allvars.size(),0); std::vector<std::vector<char>> on(n,std::vector<char>(n,0));
  for(auto&e:g.e){ int b=sym_choice(nm("x",e.first,e.second).c_str(),2); on[e.first][e.second]=on[e.second][e.first]=b; X[o.x[e.first][e.second]->idx]=b; sol->vals[o.x[e.first][e.second]->idx]=b; }
  for(int v=0;v<n;v++){ long b=sym_int(nm("y",v).c_str(),0,1); X[o.y[v]->idx]=b; sol->vals[o.y[v]->idx]=(double)b; }
  bool F=handlersOk(scip,sol); bool A=linearOk(scip,X); std::vector<char> vis; bool C=cycleThrough(g,on,root,vis);
  long prize=0; bool ym=true; for(int v=0;v<n;v++){ ym=AND(ym,X[o.y[v]->idx]==(long)vis[v]); if(vis[v]) prize+=g.prize[v]; }
  if(C){ CHECK(F,"a simple cycle is accepted by the handlers"); CHECK(IFF(A,AND(ym,prize>=quota)),"a simple cycle through the root satisfies the constraints iff its prize reaches the quota and the vertex variables match"); sym_reach("tour"); }
  else { if(F) CHECK(NOT(A),"an assignment that is no cycle through the root is rejected"); sym_reach("no-tour"); }
  CHECK(F==cycleAnywhere(g,on),"the subtour handler accepts exactly simple cycles");
  scip->lpvals=sol->vals; CHECK(enforcePs(scip)==F,"pseudo solutions are enforced consistently"); bool el2=enforceLp(scip); CHECK(el2==F,"LP solutions are enforced consistently");
  sym_observe("F",F);
}
HARNESS h_exact3(){ exact(3,3,true,false); }
HARNESS h_exact4(){ exact(4,4,false,false); }
HARNESS h_exact4o(){ exact(4,1,true,false); }
HARNESS h_exact4v(){ exact(4,4,false,true); }
HARNESS h_exact5(){ exact(5,1,false,false); }
// six vertices: the smallest graphs with two disjoint cycles
HARNESS h_exact6(){ exact(6,1,false,false,{{0,1},{0,2},{1,2},{3,4},{3,5},{4,5},{0,3},{1,4},{2,5}}); }
HARNESS h_exact6r(){ exact(6,1,false,false,{{3,4},{4,5},{5,3},{2,3},{0,1},{1,2},{2,0},{1,5}}); }
HARNESS h_exact6t(){ exact(6,1,false,false); }
// P: start solution handed to the solver
static std::vector<std::vector<int>> seqs(int n){ std::vector<std::vector<int>> r; std::vector<int> v; for(int i=0;i<n;i++)v.push_back(i); do{ for(int k=3;k<=n;k++){ std::vector<int> a(v.begin(),v.begin()+k); bool ok=true; for(int i=k;i+1<n;i++) if(v[i]>v[i+1]) ok=false; if(ok) r.push_back(a);} }while(std::next_permutation(v.begin(),v.end())); return r; }
static void startSol(int n,bool overload){
  G g(n); const int B=100000000; symEdges(g,-B,B,{},n<=4); symPrizes(g,-B,B); auto S=seqs(n); auto&t=S[sym_choice("tour",S.size())]; int k=t.size(); bool ok=true; for(int i=0;i<k;i++) if(!g.adj[t[i]][t[(i+1)%k]]) ok=false; if(!overload) sym_assume(ok);
  int quota=sym_int32("quota",-B*4,B*4); PCTSPvertex root=t[0]; std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur; if(!overload) for(int i=0;i<k;i++) heur.push_back(g.ed[t[i]][t[(i+1)%k]]);
  PCTSPgraph g2; std::vector<std::pair<PCTSPvertex,PCTSPvertex>> el,he; std::map<std::pair<PCTSPvertex,PCTSPvertex>,int> cd; std::map<PCTSPvertex,int> pd; bool thrown=false; if(overload){ if(g.e.empty()) return; for(auto&e:g.e){ el.push_back({(PCTSPvertex)e.first,(PCTSPvertex)e.second}); cd[{(PCTSPvertex)e.first,(PCTSPvertex)e.second}]=g.cost[e.first][e.second]; } int mx=0; for(auto&e:g.e) mx=std::max(mx,e.second); sym_assume(mx==n-1); for(int v=0;v<n;v++)pd[v]=g.prize[v]; for(int i=0;i<k;i++) he.push_back({(PCTSPvertex)t[i],(PCTSPvertex)t[(i+1)%k]}); }
  try{ auto vm=overload? modelPrizeCollectingTSP(scip,g2,el,he,cd,pd,quota,root,name):modelPrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,name);
    if(overload) g.graph=g2; Obj o=varsOf(g,vm); CHECK(ok,"a start tour over a missing edge is reported"); CHECK(scip->sols.size()==1,"one start solution"); auto&v=scip->sols[0]->vals; std::vector<int> want(scip->allvars.size(),0); for(int i=0;i<k;i++){ want[o.x[t[i]][t[(i+1)%k]]->idx]=1; want[o.y[t[i]]->idx]=1; } for(size_t i=0;i<want.size();i++) CHECK(v[i]==(double)want[i],"the start solution is the tour and its vertices, nothing else");
    scip_model_transform(scip); CHECK(handlersOk(scip,scip->sols[0]),"the handlers accept the start tour"); std::vector<long> X(want.begin(),want.end()); long have=0; for(int v:t) have+=g.prize[v]; CHECK(IFF(linearOk(scip,X),have>=quota),"the start tour satisfies the constraints when it reaches the quota"); sym_reach("added");
  }catch(EdgeNotFoundException&){ thrown=true; } CHECK(thrown==!ok,"missing edge is reported"); }
HARNESS h_start4(){ startSol(4,false); }
HARNESS h_start4v(){ startSol(4,true); }
HARNESS h_start5(){ startSol(5,false); }
// P: the solve entry points
static struct Hook{ G*g; int root; bool found; std::vector<std::vector<char>> on; std::function<void(SCIP*)> f; } *HK;
static void hookf(SCIP*s){ HK->f(s); }
static Obj varsOfScip(SCIP*s,G&g){ ProbDataPCTSP*p=dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(s)); return varsOf(g,*p->getEdgeVariableMap()); }
static void checkPairs(G&g,std::vector<std::pair<PCTSPvertex,PCTSPvertex>>&got,std::vector<std::vector<char>>&on,bool found){
  std::vector<std::vector<int>> c(g.n,std::vector<int>(g.n,0)); for(auto&p:got){ CHECK(p.first<(PCTSPvertex)g.n&&p.second<(PCTSPvertex)g.n,"vertices of the graph"); c[p.first][p.second]++; c[p.second][p.first]++; }
  for(int u=0;u<g.n;u++)for(int v=u;v<g.n;v++){ int want= found&&u!=v&&on[u][v]?1:0; CHECK(u==v? c[u][u]==0 : c[u][v]==want,"the returned edges are the edges of the best solution"); } }
// which: 0 graph overload, 1 edge list overload, 2 full overload
static void solveReturns(int n,int which){
  G g(n); symEdges(g,0,1000,{},false); symPrizes(g,0,1000); int quota=sym_int32("quota",0,3000); PCTSPvertex root=sym_choice("root",n); std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur; Hook hk; HK=&hk; hk.g=&g; hk.root=root; hk.on.assign(n,std::vector<char>(n,0)); auto T=allTours(g,root); int st=sym_choice("status",4); static const SCIP_STATUS S[4]={SCIP_STATUS_OPTIMAL,SCIP_STATUS_TIMELIMIT,SCIP_STATUS_INFEASIBLE,SCIP_STATUS_USERINTERRUPT}; hk.found= st==0|| (st!=2 && sym_choice("hasbest",2)); int pick=hk.found? sym_choice("best",T.size()):0; PCTSPgraph g2; static int calls; calls=0;
  hk.f=[&](SCIP*s){ calls++; CHECK(s->conss.size()>0,"the model is there when solving starts"); s->status=S[st]; if(which==1) g.graph=g2; Obj o=varsOfScip(s,g); scip_model_initsol(s); s->lpvals.assign(s->allvars.size(),0.5); if(hk.found){ SCIPcreateSol(s,&s->best,nullptr); auto X=assignment(s,g,o,T[pick]); for(size_t i=0;i<X.size();i++) s->best->vals[i]=X[i]; auto&q=T[pick].seq; for(size_t i=0;i<q.size();i++){ int u=q[i],v=q[(i+1)%q.size()]; hk.on[u][v]=hk.on[v][u]=1; } // integral up to the solver's tolerance
        int noise=sym_choice("noise",2); if(noise) for(size_t i=0;i<X.size();i++) s->best->vals[i]= X[i]? 1.0-1e-10 : 1e-10; } s->lowerbound=3; s->upperbound=4; s->nnodes=7; scip_model_exitsol(s); };
  scip->solvehook=hookf; std::vector<std::pair<PCTSPvertex,PCTSPvertex>> got;
  if(which==0) got=solvePrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,name);
  else if(which==1){ std::vector<std::pair<PCTSPvertex,PCTSPvertex>> el,he; std::map<std::pair<PCTSPvertex,PCTSPvertex>,int> cd; std::map<PCTSPvertex,int> pd; for(auto&e:g.e){ el.push_back({(PCTSPvertex)e.first,(PCTSPvertex)e.second}); cd[{(PCTSPvertex)e.first,(PCTSPvertex)e.second}]=g.cost[e.first][e.second]; } for(int v=0;v<n;v++)pd[v]=g.prize[v]; got=solvePrizeCollectingTSP(scip,g2,el,he,cd,pd,quota,root,name); }
  else got=solvePrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,-1,4,false,false,false,std::vector<int>(),name,true,0.01,true,-1,1,true,std::filesystem::path("./solver"),100.0f);
  CHECK(calls==1,"solved once"); checkPairs(g,got,hk.on,hk.found); sym_reach(hk.found?"solution":"none"); sym_observe("edges",got.size()); }
HARNESS h_ret0(){ solveReturns(4,0); }
HARNESS h_ret1(){ solveReturns(4,1); }
HARNESS h_ret2(){ solveReturns(4,2); }
// P: options of the full solve
static int prio(SCIP*s,const char*n){ auto r=SCIPfindBranchrule(s,n); return r? r->priority : -2000000000; }
static void options(int n,bool exactness){
  G g(n); for(int u=0;u<n;u++)for(int v=u+1;v<n;v++) g.edge(u,v,0); for(auto&e:g.e){ int c=sym_int32(nm("c",e.first,e.second).c_str(),0,100000); g.cost[e.first][e.second]=g.cost[e.second][e.first]=c; g.cm[g.ed[e.first][e.second]]=c; } symPrizes(g,0,100000); int quota=sym_int32("quota",0,400000); PCTSPvertex root=sym_choice("root",2)?n-1:0; std::string name="p"; SCIP*scip; SCIPcreate(&scip); auto T=allTours(g,root);
  std::vector<PCTSPedge> heur; int hs=sym_choice("start",2); long hcost=0; if(hs){ auto&t=T[T.size()-1]; sym_assume(prizeOf(g,t)>=quota); hcost=costOf(g,t); for(size_t i=0;i<t.seq.size();i++) heur.push_back(g.ed[t.seq[i]][t.seq[(i+1)%t.seq.size()]]); }
  bool ccd=sym_choice("cc_disjoint",2),ccs=sym_choice("cc_shortest",2),cyc=sym_choice("cycle_cover",2); bool sd= exactness? true: sym_choice("sec_disjoint",2), sm= exactness? true: sym_choice("sec_flow",2), simple= exactness? true: sym_choice("simple",2); int freq=exactness?1:sym_choice("freq",4)-1; int bs=exactness?0:sym_choice("strategy",6); int depth=sym_int32("depth",-1,1000); float tl=(float)sym_dyadic("time_limit",1,800000,3); std::vector<int> dist; // a lower bound on the cost of the cheapest tour through root and v
  for(int v=0;v<n;v++){ int d=sym_int32(nm("d",v).c_str(),0,1000000); for(auto&t:T) if(t.vis[v]) sym_assume((long)d<=costOf(g,t)); if(v==(int)root) sym_assume(d==0); dist.push_back(d); }
  Hook hk; HK=&hk; hk.f=[&](SCIP*s){
      Obj o=varsOfScip(s,g); scip_model_transform(s); CHECK(s->params.count("limits/time")&&s->params["limits/time"]==(double)tl,"the time limit is passed on"); CHECK(s->params.count("presolving/maxrounds")&&s->params["presolving/maxrounds"]==0,"presolving is off");
      CHECK((SCIPfindObjEventhdlr(s,DISJOINT_PATHS_COST_COVER_NAME.c_str())!=nullptr)==ccd&&(SCIPfindObjEventhdlr(s,SHORTEST_PATH_COST_COVER_NAME.c_str())!=nullptr)==ccs&&(SCIPfindObjConshdlr(s,CYCLE_COVER_NAME.c_str())!=nullptr)==cyc,"cuts are enabled exactly when asked for"); bool hasCyc=false; for(auto c:s->conss) if(c->hdlr&&c->hdlr->name==CYCLE_COVER_NAME) hasCyc=true; CHECK(hasCyc==cyc,"the cycle cover constraint is added exactly when asked for");
      auto sec=SCIPfindObjConshdlr(s,SEC_CONSHDLR_NAME.c_str()); CHECK(sec&&sec->scip_sepafreq_==freq,"separation frequency"); CHECK(s->defaultplugins==!simple,"default plugins only when not restricted to the simple rules"); CHECK((int)s->sols.size()==hs,"the start solution is passed on");
      int mx=-2000000000; for(auto r:s->rules) if(r->name!="relpscost"&&r->name!="fullstrong") mx=std::max(mx,r->priority); int rp=prio(s,"relpscost"),fs=prio(s,"fullstrong"); auto fr=SCIPfindBranchrule(s,"fullstrong");
      if(bs==0) CHECK(rp>fs&&rp>mx,"reliability branching comes first"); else if(bs==1||bs==2){ CHECK(fs>rp&&fs>mx&&rp>mx,"strong branching comes first, reliability branching second"); CHECK(fr->maxdepth==(bs==2?depth:-1),"strong branching at the top only up to the depth"); } else { CHECK(rp==10000&&fs==0&&fr->maxdepth==-1,"the default strategy leaves the rules alone"); }
      if(bs!=2) CHECK(fr->maxdepth==-1,"no depth limit"); 
      if(!exactness){ // separation routines obey the flags
        s->lpvals.assign(s->allvars.size(),0.0); 
      } else { // a feasible tour that is no dearer than the start solution is never rejected, an infeasible assignment always
        for(auto&t:T){ auto X=assignment(s,g,o,t); bool feas=prizeOf(g,t)>=quota; bool lin=linearOk(s,X); bool cheap= hs? costOf(g,t)<=hcost : true; CHECK(IMP(AND(feas,cheap),lin),"no feasible tour within the cost of the start solution is forbidden"); CHECK(IMP(lin,feas),"a tour that misses the quota is forbidden"); }
      }
      s->status=SCIP_STATUS_OPTIMAL; };
  scip->solvehook=hookf; solvePrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,depth,bs,ccd,ccs,cyc,dist,name,sd,0.01,sm,-1,freq,simple,std::filesystem::path("./solver"),tl); sym_reach("end"); }
// the options of the subtour handler reach it through the full solve
HARNESS h_optsec(){ G g(6); linkedTriangles(g,1); symPrizes(g,1,1); int quota=1; PCTSPvertex root=0; std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur; SecAsk a{(bool)sym_choice("sec_disjoint",2),(bool)sym_choice("sec_flow",2),sym_choice("window",6)-1,0}; double thr=sym_dyadic("threshold",0,64,6); a.thr64=(long)(thr*64); bool simple=sym_choice("simple",2); static int calls; calls=0;
  Hook hk; HK=&hk; hk.f=[&](SCIP*s){ calls++; Obj o=varsOfScip(s,g); scip_model_transform(s); scip_model_initsol(s); secOptions(s,o.x,a); scip_model_exitsol(s); s->status=SCIP_STATUS_INFEASIBLE; }; scip->solvehook=hookf;
  solvePrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,-1,0,false,false,false,std::vector<int>(6,0),name,a.disjoint,thr,a.flow,a.window,1,simple,std::filesystem::path("./solver"),100.0f); CHECK(calls==1,"solved once"); sym_reach("end"); }
HARNESS h_opt3(){ options(3,false); }
HARNESS h_optx4(){ options(4,true); }
HARNESS h_optx3(){ options(3,true); }
// P: the statistics. A history of node visits (nodes are created in numerical order, visited in any order, and raise several events each)
static void nodeHistory(int steps,bool records){
  SCIP*scip; SCIPcreate(&scip); auto h=new NodeEventhdlr(scip); SCIPincludeObjEventhdlr(scip,h,TRUE); scip_model_initsol(scip); const int M=5; std::vector<SCIP_NODE> node(M+1); std::vector<long> dis(M+1,0),flow(M+1,0); std::vector<char> seen(M+1,0); long td=0,tf=0; std::vector<long> lb(M+1,0); node[1].number=1; int created=1,cur=0;
  for(int i=0;i<steps;i++){ // 0: (re)focus a created node  1: branch the current node  2,3: cuts are added at the current node  4: the node is settled
    int op= i==0?0:sym_choice(nm("op",i).c_str(),5);
    if(op==0){ cur= i==0?1:1+sym_choice(nm("node",i).c_str(),created); scip->node=&node[cur]; lb[cur]=sym_int(nm("lb",i).c_str(),-1000,1000); if(!seen[cur]) node[cur].lowerbound=(double)lb[cur]; seen[cur]=1; scip_model_fire(scip,SCIP_EVENTTYPE_NODEFOCUSED); }
    else if(op==1){ if(created+2>M) { sym_assume(false); } for(int j=0;j<2;j++){ created++; node[created].number=created; node[created].parent=&node[cur]; } scip_model_fire(scip,SCIP_EVENTTYPE_NODEBRANCHED); }
    else if(op==2){ int k=sym_int32(nm("k",i).c_str(),0,100000); h->incrementNumSecDisjointTour(scip,k); dis[cur]+=k; td+=k; }
    else if(op==3){ int k=sym_int32(nm("k",i).c_str(),0,100000); h->incrementNumSecMaxflowMincut(scip,k); flow[cur]+=k; tf+=k; }
    else { int e=sym_choice(nm("settled",i).c_str(),2); scip_model_fire(scip,e?SCIP_EVENTTYPE_NODEFEASIBLE:SCIP_EVENTTYPE_NODEINFEASIBLE); } }
  auto v=h->getNodeStatsVector(); CHECK((long)numDisjointTourSECs(v)==td,"no disjoint tour cut is forgotten"); CHECK((long)numMaxflowMincutSECs(v)==tf,"no min cut cut is forgotten");
  if(records) for(int j=1;j<=created;j++) if(seen[j]){ CHECK((int)v.size()>=j,"one record per visited node"); auto r=h->getNodeStats(&node[j]); CHECK((int)r.node_id==j,"the record carries the number of its node"); CHECK((int)r.parent_id==(j>1?(int)node[j].parent->number:1),"and of its parent"); CHECK(r.num_sec_disjoint_tour==dis[j]&&r.num_sec_maxflow_mincut==flow[j],"the cuts of the node"); CHECK(r.lower_bound==node[j].lowerbound,"lower bound of the node"); }
  scip_model_exitsol(scip); sym_reach("end"); sym_observe("total",td); }
HARNESS h_nodes4(){ nodeHistory(4,true); }
HARNESS h_nodes6(){ nodeHistory(6,true); }
HARNESS h_nodes7(){ nodeHistory(7,true); }
// the summary written after a solve
static long yamlAt(const char*k){ for(auto v:YAML::last_doc()->vals) if(v->key==k) return v->is_real? (long)(v->d*8) : v->i; CHECK(false,"every field is written"); return 0L; }
HARNESS h_summary(){
  G g(3); g.edge(0,1,1);g.edge(1,2,1);g.edge(0,2,1); symPrizes(g,1,1); int quota=10; PCTSPvertex root=0; std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur; bool sp=sym_choice("shortest",2),dp=sym_choice("disjoint",2),cc=sym_choice("cycle",2); int rounds=cc?sym_choice("rounds",3):0;
  static const SCIP_STATUS S[]={SCIP_STATUS_OPTIMAL,SCIP_STATUS_TIMELIMIT,SCIP_STATUS_INFEASIBLE,SCIP_STATUS_USERINTERRUPT,SCIP_STATUS_UNKNOWN}; int st=sym_choice("status",5); double lo=sym_dyadic("lower",-100000,100000,3),up=sym_dyadic("upper",-100000,100000,3); long nn=sym_int("nnodes",0,4000000000000L); long is=0,id=0,nd=0,cy=0,sd=0,sf=0; Hook hk; HK=&hk; SCIP_SOL*best=nullptr; (void)best;
  hk.f=[&](SCIP*s){ varsOfScip(s,g); scip_model_initsol(s); if(sp){ is=sym_int32("init_sp",0,1000000); auto h=getShortestPathCostCoverEventHandler(s); CHECK(h!=nullptr&&h->getNumConssAddedInitSol()==0,"no start solution, no start inequalities"); h->setNumConssAddedInitSol(is); } if(dp){ id=sym_int32("init_dp",0,1000000); getDisjointPathsCostCoverEventHandler(s)->setNumConssAddedInitSol(id); }
    auto nh=dynamic_cast<NodeEventhdlr*>(SCIPfindObjEventhdlr(s,NODE_EVENTHDLR_NAME.c_str())); CHECK(nh!=nullptr,"nodes are recorded"); scip_model_fire(s,SCIP_EVENTTYPE_NODEFOCUSED); sd=sym_int32("sd",0,1000000); sf=sym_int32("sf",0,1000000); nh->incrementNumSecDisjointTour(s,sd); nh->incrementNumSecMaxflowMincut(s,sf);
    if(cc){ s->lpvals.assign(s->allvars.size(),1.0); SCIP_CONSHDLR*h=SCIPfindConshdlr(s,CYCLE_COVER_NAME.c_str()); for(int i=0;i<rounds;i++){ SCIP_RESULT r=SCIP_DIDNOTFIND; h->obj->scip_sepalp(s,h,nullptr,0,0,&r); } cy=s->rows.size(); CHECK(cy==rounds,"a cycle cover cut per round"); }
    size_t f=s->conss.size(); s->upperbound=6; scip_model_fire(s,SCIP_EVENTTYPE_BESTSOLFOUND); long added=s->conss.size()-f; nd=dp?id+added:0; CHECK(added==(dp?1:0),"one vertex is too far"); s->status=S[st]; s->lowerbound=lo; s->upperbound=up; s->nnodes=nn; };
  scip->solvehook=hookf; YAML::last_doc()=nullptr; solvePrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,-1,4,dp,sp,cc,std::vector<int>({0,5,9}),name,true,0.01,true,-1,1,true,std::filesystem::path("./solver"),100.0f);
  CHECK(YAML::last_doc()!=nullptr,"a summary is written"); CHECK(yamlAt("status")==(long)S[st]&&yamlAt("lower_bound")==(long)(lo*8)&&yamlAt("upper_bound")==(long)(up*8)&&yamlAt("num_nodes")==nn,"status, bounds and nodes are the solver's"); CHECK(yamlAt("num_cost_cover_disjoint_paths")==nd&&yamlAt("num_cost_cover_shortest_paths")==is&&yamlAt("nconss_presolve_disjoint_paths")==id&&yamlAt("nconss_presolve_shortest_paths")==is,"cost cover counts"); CHECK(yamlAt("num_cycle_cover")==cy&&yamlAt("num_sec_disjoint_tour")==sd&&yamlAt("num_sec_maxflow_mincut")==sf,"cut counts");
  sym_reach("end"); }
HARNESS h_yaml(){
  SummaryStats s; static const SCIP_STATUS S[]={SCIP_STATUS_OPTIMAL,SCIP_STATUS_TIMELIMIT,SCIP_STATUS_INFEASIBLE,SCIP_STATUS_UNKNOWN,SCIP_STATUS_TERMINATE}; s.status=S[sym_choice("status",5)]; s.lower_bound=sym_dyadic("lower",-8000000000L,8000000000L,3); s.upper_bound=sym_dyadic("upper",-8000000000L,8000000000L,3);
  auto u=[&](const char*n){ return (unsigned)sym_int(n,0,4294967295L); }; s.num_cost_cover_disjoint_paths=u("a"); s.num_cost_cover_shortest_paths=u("b"); s.nconss_presolve_disjoint_paths=u("c"); s.nconss_presolve_shortest_paths=u("d"); s.num_cycle_cover=u("e"); s.num_nodes=sym_int("nodes",0,4000000000000000L); s.num_sec_disjoint_tour=u("f"); s.num_sec_maxflow_mincut=u("g");
  std::filesystem::create_directory("ydir"); std::filesystem::path f=std::filesystem::path("ydir")/"s.yaml"; { std::ofstream o(f.string()); } writeSummaryStatsToYaml(s,f); CHECK(YAML::last_doc()!=nullptr,"written");
  auto at=yamlAt;
  CHECK(at("status")==(long)s.status&&at("num_cost_cover_disjoint_paths")==(long)s.num_cost_cover_disjoint_paths&&at("num_cost_cover_shortest_paths")==(long)s.num_cost_cover_shortest_paths&&at("nconss_presolve_disjoint_paths")==(long)s.nconss_presolve_disjoint_paths&&at("nconss_presolve_shortest_paths")==(long)s.nconss_presolve_shortest_paths,"each value under its key"); CHECK(at("num_cycle_cover")==(long)s.num_cycle_cover&&at("num_nodes")==(long)s.num_nodes&&at("num_sec_disjoint_tour")==(long)s.num_sec_disjoint_tour&&at("num_sec_maxflow_mincut")==(long)s.num_sec_maxflow_mincut&&at("lower_bound")==(long)(s.lower_bound*8)&&at("upper_bound")==(long)(s.upper_bound*8),"each value under its key");
  auto r=readSummaryStatsFromYaml(f); CHECK(r.status==s.status&&r.lower_bound==s.lower_bound&&r.upper_bound==s.upper_bound&&r.num_nodes==s.num_nodes,"status, bounds and nodes survive"); CHECK(r.num_cost_cover_disjoint_paths==s.num_cost_cover_disjoint_paths&&r.num_cost_cover_shortest_paths==s.num_cost_cover_shortest_paths&&r.nconss_presolve_disjoint_paths==s.nconss_presolve_disjoint_paths&&r.nconss_presolve_shortest_paths==s.nconss_presolve_shortest_paths,"cost cover counts survive"); CHECK(r.num_cycle_cover==s.num_cycle_cover&&r.num_sec_disjoint_tour==s.num_sec_disjoint_tour&&r.num_sec_maxflow_mincut==s.num_sec_maxflow_mincut,"cut counts survive");
  std::filesystem::path no="ydir/none.yaml"; bool thrown=false; try{ readSummaryStatsFromYaml(no); }catch(std::filesystem::filesystem_error&){ thrown=true; } CHECK(thrown,"a missing file is reported"); sym_reach("end"); }
// P: log levels
HARNESS h_log(){ int l=sym_int32("level",-2147483647-1,2147483647); int b=getBoostLevelFromPyLevel(l); CHECK(b>=0&&b<=5,"a valid severity"); static const int py[]={0,10,20,30,40,50},bo[]={0,1,2,3,4,5}; bool known=false; for(int i=0;i<6;i++){ CHECK(IMP(l==py[i],b==bo[i]),"each standard level maps to its severity"); known=OR(known,l==py[i]); } CHECK(IMP(NOT(known),b==2),"any other level is info");
  PCTSPinitLogging(b); for(int sev=0;sev<6;sev++) CHECK(log_stub::passes(sev)==(sev>=b),"exactly the messages below the level are dropped"); sym_reach("end"); }
// the files of node and bound records
static std::vector<std::vector<std::string>> readCsv(const std::filesystem::path&p){ std::vector<std::vector<std::string>> out; std::ifstream in(p.string()); std::string l; while(std::getline(in,l)){ if(!l.empty()&&l.back()=='\r') l.pop_back(); std::vector<std::string> r; size_t b=0; for(;;){ size_t e=l.find(',',b); r.push_back(l.substr(b,e==std::string::npos?e:e-b)); if(e==std::string::npos) break; b=e+1; } out.push_back(r); } return out; }
static int column(const std::vector<std::string>&h,const char*n){ int at=-1; for(size_t i=0;i<h.size();i++) if(h[i]==n){ CHECK(at<0,"a column is there once"); at=i; } CHECK(at>=0,"every column has its name"); return at; }
static const long BIGB=8000000000L; // a thousand million, in eighths
HARNESS h_nodescsv(){ sym_dir();
  int n=sym_choice("nodes",3); std::vector<NodeStats> v; auto u=[&](const char*p,int i){ return (unsigned)sym_int(nm(p,i).c_str(),0,4294967295L); };
  for(int i=0;i<n;i++){ NodeStats s; s.lower_bound=sym_dyadic(nm("lower",i).c_str(),-BIGB,BIGB,3); s.upper_bound=sym_dyadic(nm("upper",i).c_str(),-BIGB,BIGB,3); s.node_id=u("id",i); s.parent_id=u("parent",i); s.num_sec_disjoint_tour=u("dt",i); s.num_sec_maxflow_mincut=u("mf",i); s.num_cost_cover_disjoint_paths=u("dp",i); s.num_cost_cover_shortest_paths=u("sp",i); s.num_cost_cover_steiner_tree=u("st",i); v.push_back(s); }
  std::filesystem::create_directory("ndir"); std::filesystem::path f=std::filesystem::path("ndir")/"nodes.csv"; { std::ofstream o(f.string()); o<<"old"; } writeNodeStatsToCSV(v,f); auto t=readCsv(f); CHECK((int)t.size()==n+1,"one line of names and one per node"); auto&h=t[0]; CHECK(h.size()==9,"nine columns");
  int lo=column(h,"lower_bound"),up=column(h,"upper_bound"),id=column(h,"node_id"),pa=column(h,"parent_id"),dt=column(h,"num_sec_disjoint_tour"),mf=column(h,"num_sec_maxflow_mincut"),dp=column(h,"num_cost_cover_disjoint_paths"),sp=column(h,"num_cost_cover_shortest_paths"),st=column(h,"num_cost_cover_steiner_tree");
  for(int i=0;i<n;i++){ auto&r=t[i+1]; CHECK(r.size()==h.size(),"a value for every column"); auto at=[&](int c){ return sym_token(r[c].c_str(),3); };
    CHECK(at(lo)==(long)(v[i].lower_bound*8)&&at(up)==(long)(v[i].upper_bound*8),"the bounds of the node"); CHECK(at(id)==8*(long)v[i].node_id&&at(pa)==8*(long)v[i].parent_id,"the node and its parent"); CHECK(at(dt)==8*(long)v[i].num_sec_disjoint_tour&&at(mf)==8*(long)v[i].num_sec_maxflow_mincut,"the subtour cuts of the node"); CHECK(at(dp)==8*(long)v[i].num_cost_cover_disjoint_paths&&at(sp)==8*(long)v[i].num_cost_cover_shortest_paths&&at(st)==8*(long)v[i].num_cost_cover_steiner_tree,"the cost covers of the node"); }
  CHECK(numDisjointTourSECs(v)==(unsigned)(n>0?v[0].num_sec_disjoint_tour+(n>1?v[1].num_sec_disjoint_tour:0u):0u)&&numMaxflowMincutSECs(v)==(unsigned)(n>0?v[0].num_sec_maxflow_mincut+(n>1?v[1].num_sec_maxflow_mincut:0u):0u),"the cuts of all nodes");
  std::filesystem::path no="nowhere/nodes.csv"; writeNodeStatsToCSV(v,no); CHECK(!std::filesystem::exists("nowhere"),"nothing is written without a directory"); sym_reach("end"); }
// milliseconds since 1970 (UTC) of an ISO 8601 time in UTC; -1 if it is none
static long isoMillis(const std::string&s){ int Y,M,D,h,m; char z[8]; int k=0; if(s.size()<20) return -1; auto num=[&](int b,int e){ long v=0; for(int i=b;i<e;i++){ if(s[i]<'0'||s[i]>'9') return -1L; v=v*10+(s[i]-'0'); } return v; }; (void)z;(void)k;
  Y=num(0,4); M=num(5,7); D=num(8,10); h=num(11,13); m=num(14,16); long sec=num(17,19); if(Y<0||M<1||D<1||h<0||m<0||sec<0||s[4]!='-'||s[7]!='-'||s[10]!='T'||s[13]!=':'||s[16]!=':') return -1; long ms=0; size_t p=19; if(s[p]=='.'){ p++; long w=100; while(p<s.size()&&s[p]>='0'&&s[p]<='9'){ ms+=(s[p]-'0')*w; w/=10; p++; } } std::string rest=s.substr(p); if(rest!="Z"&&rest!="+00:00") return -1;
  long y=Y-(M<=2),era=y/400,yoe=y-era*400,doy=(153*(M+(M>2?-3:9))+2)/5+D-1,doe=yoe*365+yoe/4-yoe/100+doy,days=era*146097+doe-719468; return ((days*24+h)*60+m)*60000+sec*1000+ms; }
HARNESS h_boundscsv(){ sym_dir();
  setenv("TZ",sym_choice("zone",2)?"XXX5":"UTC0",1); tzset(); static const long T[]={0,951782399L,1700000000L}; long a,b; int n=1; if(sym_choice("which",2)) { a=T[2]*1000+sym_int("ms",0,999); b=a+60000; } else { a=T[sym_choice("when",3)]*1000; b=a+86400000L*30+7; n=sym_choice("records",3); }
  std::vector<Bounds> v; for(int i=0;i<n;i++){ Bounds x; x.start_timestamp=TimePointUTC(SubSeconds(a+i)); x.end_timestamp=TimePointUTC(SubSeconds(b+i)); x.lower_bound=sym_dyadic(nm("lower",i).c_str(),-BIGB,BIGB,3); x.upper_bound=sym_dyadic(nm("upper",i).c_str(),-BIGB,BIGB,3); x.node_id=(unsigned)sym_int(nm("node",i).c_str(),0,4294967295L); v.push_back(x); }
  std::filesystem::create_directory("bdir"); std::filesystem::path f=std::filesystem::path("bdir")/"bounds.csv"; writeBoundsToCSV(v,f); auto t=readCsv(f); CHECK((int)t.size()==n+1,"one line of names and one per record"); auto&h=t[0]; CHECK(h.size()==5,"five columns"); int s=column(h,"start_timestamp"),e=column(h,"end_timestamp"),lo=column(h,"lower_bound"),up=column(h,"upper_bound"),id=column(h,"node_id");
  for(int i=0;i<n;i++){ auto&r=t[i+1]; CHECK(r.size()==5,"a value for every column"); auto at=[&](int c){ return sym_token(r[c].c_str(),3); }; CHECK(isoMillis(r[s])==a+i&&isoMillis(r[e])==b+i,"the times are those of the record, in UTC"); CHECK(at(lo)==(long)(v[i].lower_bound*8)&&at(up)==(long)(v[i].upper_bound*8),"the bounds of the record"); CHECK(at(id)==8*(long)v[i].node_id,"the node of the record"); }
  std::filesystem::path no="nowhere/bounds.csv"; writeBoundsToCSV(v,no); CHECK(!std::filesystem::exists("nowhere"),"nothing is written without a directory"); sym_reach("end"); }
HARNESS h_bounds(){
  SCIP*scip; SCIPcreate(&scip); auto*h=new BoundsEventHandler(scip); SCIPincludeObjEventhdlr(scip,h,TRUE); CHECK(h->getBoundsVector().empty(),"no record before the search"); auto t0=h->getLastTimestamp(); scip_model_initsol(scip);
  static SCIP_NODE nodes[3]; struct R{ double lo,up; unsigned id; }; std::vector<R> want; int n=sym_choice("events",4)+1;
  for(int i=0;i<n;i++){ int ev=sym_choice(nm("event",i).c_str(),3); scip->lowerbound=sym_dyadic(nm("lower",i).c_str(),-100000,100000,3); scip->upperbound=sym_dyadic(nm("upper",i).c_str(),-100000,100000,3); int k=sym_choice(nm("node",i).c_str(),2); nodes[k].number=k+1; scip->node=&nodes[k];
    if(ev==0){ want.push_back({scip->lowerbound,scip->upperbound,(unsigned)k+1}); scip_model_fire(scip,SCIP_EVENTTYPE_LPSOLVED); } else if(ev==1) scip_model_fire(scip,SCIP_EVENTTYPE_NODEFOCUSED); else scip_model_fire(scip,SCIP_EVENTTYPE_BESTSOLFOUND);
    auto v=h->getBoundsVector(); CHECK(v.size()==want.size(),"one record for every relaxation solved and no other"); }
  auto v=h->getBoundsVector(); auto last=t0; for(size_t i=0;i<want.size();i++){ CHECK(v[i].lower_bound==want[i].lo&&v[i].upper_bound==want[i].up,"the bounds of that moment"); CHECK(v[i].node_id==want[i].id,"the node of that moment"); CHECK(v[i].start_timestamp>=last&&v[i].end_timestamp>=v[i].start_timestamp,"the times follow each other"); last=v[i].end_timestamp; }
  sym_reach(want.empty()?"none":"records"); }
