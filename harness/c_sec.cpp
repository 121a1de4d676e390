// Separation: subtour elimination (disjoint tours, min cuts), cycle cover, cost cover, tailing off.
#include "scipfix.h"
struct LP { int den; std::vector<std::vector<long>> x; std::vector<long> y2; };   // x in units of 1/den, y2 = 2y in the same unit
// a point of the degree relaxation: 0<=x<=1, x(delta(v)) = 2 y_v, y_root = 1, 0<=y<=1
static LP lpPoint(SCIP*s,G&g,Obj&o,int root,int den){ int n=g.n; LP p; p.den=den; p.x.assign(n,std::vector<long>(n,0)); p.y2.assign(n,0); s->lpvals.assign(s->allvars.size(),0.0); int sc=0; while((1<<sc)<den)sc++;
  for(auto&e:g.e){ int u=e.first,v=e.second; std::string k=nm("x",u,v); double d=sym_dyadic(k.c_str(),0,den,sc); s->lpvals[o.x[u][v]->idx]=d; p.x[u][v]=p.x[v][u]=(long)(d*den); }
  for(int v=0;v<n;v++){ double d=0; for(int u=0;u<n;u++) if(g.adj[u][v]&&u!=v){ p.y2[v]+=p.x[u][v]; d=d+s->lpvals[o.x[u][v]->idx]; } if(v==root) sym_assume(p.y2[v]==2*den); else sym_assume(p.y2[v]<=2*den); s->lpvals[o.y[v]->idx]=d*0.5; }
  return p; }
static void validRows(SCIP*s,G&g,Obj&o,std::vector<Tour>&T,size_t from,bool quotaOnly,int quota){
  for(size_t k=from;k<s->rows.size();k++){ SCIP_ROW*r=s->rows[k]; CHECK(!r->local,"cuts are globally valid"); for(auto&t:T){ auto X=assignment(s,g,o,t); bool h=rowHolds(r,X); if(quotaOnly) h=IMP(prizeOf(g,t)>=quota,h); CHECK(h,"no feasible tour is cut off"); } } }
// hand the current point over as a solution and put a constant into the LP instead; and back
static void asSolution(SCIP*s,SCIP_SOL**sol,int other){ SCIPcreateSol(s,sol,NULL); for(auto v:s->allvars) SCIPsetSolVal(s,*sol,v,s->lpvals[v->idx]); s->lpvals.assign(s->allvars.size(),(double)other); }
static void backFrom(SCIP*s,SCIP_SOL*sol){ for(auto v:s->allvars) s->lpvals[v->idx]=SCIPgetSolVal(s,sol,v); }
static void sec(int n,bool opt,int den,bool disjoint,bool flow,std::vector<std::pair<int,int>> only={},bool sepasol=false){
  G g(n); if(only.empty()) for(int u=0;u<n;u++)for(int v=u+1;v<n;v++) only.push_back({u,v}); for(auto&e:only) if(!opt||sym_choice(nm("e",e.first,e.second).c_str(),2)) g.edge(e.first,e.second,1);
  symPrizes(g,1,1); PCTSPvertex root=0; int quota=1; std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur;
  auto vm=modelPrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,name,disjoint,0.01,flow,-1,1,true); Obj o=varsOf(g,vm); scip_model_transform(scip);
  LP p=lpPoint(scip,g,o,root,den); SCIP_CONSHDLR*h=SCIPfindConshdlr(scip,SEC_CONSHDLR_NAME.c_str()); SCIP_RESULT res=SCIP_DIDNOTRUN; int via= sepasol? sym_choice("via",3) : 0;   // the point is the LP solution, or a solution given while the LP solution is another one
  if(via==0) CHECK(h->obj->scip_sepalp(scip,h,nullptr,0,0,&res)==SCIP_OKAY,"separation succeeds");
  else { SCIP_SOL*sol; asSolution(scip,&sol,via-1); SCIP_RETCODE rc=h->obj->scip_sepasol(scip,h,nullptr,0,0,sol,&res); CHECK(rc==SCIP_OKAY,"separation succeeds"); backFrom(scip,sol); }
  auto T=allTours(g,root); validRows(scip,g,o,T,0,false,0);
  // every row cuts off the current point
  for(auto r:scip->rows){ CHECK(SCIPisCutEfficacious(scip,NULL,r),"an added cut is violated"); for(auto v:r->vars) CHECK(v->orig!=nullptr,"rows are stated over transformed variables"); }
  if(scip->rows.empty()) CHECK(res==SCIP_DIDNOTFIND||(via&&res==SCIP_DIDNOTRUN),"separation reports that it found no cut"); else CHECK(res==SCIP_SEPARATED,"separation reports that it cut");
  // components of the support
  std::vector<int> comp(n,-1); std::vector<std::vector<char>> pos(n,std::vector<char>(n,0)); for(int u=0;u<n;u++)for(int v=0;v<n;v++) pos[u][v]=g.adj[u][v]&&p.x[u][v]>0;
  int k=0; for(int v=0;v<n;v++) if(comp[v]<0){ std::vector<int> st={v}; comp[v]=k; while(!st.empty()){int a=st.back();st.pop_back(); for(int b=0;b<n;b++) if(pos[a][b]&&comp[b]<0){comp[b]=k;st.push_back(b);} } k++; }
  bool detached=false; for(int v=0;v<n;v++){ bool single=true; for(int u=0;u<n;u++) if(u!=v&&comp[u]==comp[v]) single=false; if(comp[v]!=comp[root]&&!single) detached=true; }
  if(disjoint&&detached){ sym_reach("detached"); CHECK(!scip->rows.empty(),"a component that avoids the root is cut off");
    // one cut for every detached vertex: the row over its component with its own variable left out is among the rows
    for(int t=0;t<n;t++) if(comp[t]!=comp[root]){ bool single=true; for(int u=0;u<n;u++) if(u!=t&&comp[u]==comp[t]) single=false; if(single) continue; bool cut=false; for(auto r:scip->rows){ // violated by any integral point that keeps this component as a closed tour through t
          std::vector<long> X(scip->allvars.size(),0); bool has=false; double a=0; for(size_t i=0;i<r->vars.size();i++){ for(int u=0;u<n;u++) if(r->vars[i]==o.y[u]->trans&&u==t) has=true; } if(!has) cut=true; } CHECK(cut,"a cut for every vertex of a detached component"); } }
  if(flow){ // vertices the point visits fully but that a cut of less than two edges separates from the root, inside the root's component
    bool must=false; for(int S=0;S<(1<<n);S++){ if(S>>root&1) continue; bool in=true; for(int v=0;v<n;v++) if((S>>v&1)&&comp[v]!=comp[root]) in=false; if(!in||!S) continue; long cut=0; for(int u=0;u<n;u++)for(int v=u+1;v<n;v++) if(((S>>u)^(S>>v))&1) cut+=p.x[u][v]; bool full=false; for(int v=0;v<n;v++) if(S>>v&1) full=OR(full,p.y2[v]==2*den); must=OR(must,AND(full,cut<2*den)); }
    if(disjoint&&detached){} else if(scip->rows.empty()) CHECK(NOT(must),"a violated cut set in the root's component is found"); else sym_reach("cut"); }
  if(scip->rows.empty()) sym_reach("none"); sym_observe("cut",!scip->rows.empty()) /* how many cuts may depend on where the heap places the edges */; }
HARNESS h_secd4(){ sec(4,true,4,true,false); }
HARNESS h_secd5(){ sec(5,false,2,true,false,{},true); }
HARNESS h_secf4(){ sec(4,false,4,false,true); }
HARNESS h_secf5(){ sec(5,false,2,false,true,{},true); }
// the root's component and a detached component side by side; the detached edges come first in the graph
HARNESS h_secf6(){ sec(6,false,2,false,true,{{4,5},{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}); }
HARNESS h_secf6r(){ sec(6,false,2,false,true,{{0,1},{0,2},{0,3},{4,5},{1,2},{1,3},{2,3}}); }
HARNESS h_secf64(){ sec(6,false,4,false,true,{{4,5},{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}); }
HARNESS h_secb6(){ sec(6,false,2,true,true,{{0,1},{0,2},{1,2},{3,4},{3,5},{4,5},{0,3},{1,4}}); }
HARNESS h_secb64(){ sec(6,false,4,true,true,{{0,1},{0,2},{1,2},{3,4},{3,5},{4,5},{0,3},{1,4},{2,5}}); }
HARNESS h_secd6(){ sec(6,false,2,true,false); }
HARNESS h_secf54(){ sec(5,false,4,false,true); }
HARNESS h_secd54(){ sec(5,false,8,true,false); }
// P: cycle cover cuts
static void cycleCover(int n,int den,std::vector<std::pair<int,int>> only={},int big=1000000){
  G g(n); if(only.empty()) for(int u=0;u<n;u++)for(int v=u+1;v<n;v++) only.push_back({u,v}); for(auto&e:only) g.edge(e.first,e.second,1);
  symPrizes(g,0,big); int quota=sym_int32("quota",-big,big*n+1); PCTSPvertex root=0; std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur;
  auto vm=modelPrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,name); Obj o=varsOf(g,vm);
  auto hd=new CycleCoverConshdlr(scip); SCIPincludeObjConshdlr(scip,hd,true); SCIP_CONS*c; createBasicCycleCoverCons(scip,&c); SCIPaddCons(scip,c); SCIPreleaseCons(scip,&c); scip_model_transform(scip);
  LP p=lpPoint(scip,g,o,root,den); SCIP_CONSHDLR*h=SCIPfindConshdlr(scip,CYCLE_COVER_NAME.c_str()); CHECK(h&&getNumCycleCoverCutsAdded(scip)==0,"no cut counted yet");
  auto T=allTours(g,root); unsigned before=0; bool inf=sym_choice("node_infeasible",2); scip->addRowInfeasible=inf; SCIP_RESULT res=SCIP_DIDNOTFIND; CHECK(h->obj->scip_sepalp(scip,h,nullptr,0,0,&res)==SCIP_OKAY,"separation succeeds"); validRows(scip,g,o,T,0,true,quota);
  std::vector<char> in(n,0); std::vector<int> st={(int)root}; in[root]=1; long prize=0; while(!st.empty()){ int a=st.back(); st.pop_back(); prize+=g.prize[a]; for(int b=0;b<n;b++) if(g.adj[a][b]&&a!=b&&!in[b]&&p.x[a][b]>0){in[b]=1;st.push_back(b);} }
  if(!scip->rows.empty()) CHECK(prize<quota,"cuts are added only when the root's component misses the quota"); CHECK(scip->rows.size()<=1,"at most one cut per call"); for(auto r:scip->rows) CHECK(SCIPisCutEfficacious(scip,NULL,r),"an added cut is violated");
  CHECK((res==(inf?SCIP_CUTOFF:SCIP_SEPARATED))==!scip->rows.empty(),"separation reports whether it cut"); CHECK(getNumCycleCoverCutsAdded(scip)==scip->rows.size(),"the count is the number of cuts added");
  // the cover of the root's component is the cut: x(E(S)) <= y(S) - 1
  { double a=0; std::vector<SCIP_VAR*> vs; for(int u=0;u<n;u++) if(in[u]){ a=a-scip->lpvals[o.y[u]->idx]; for(int v=u+1;v<n;v++) if(in[v]&&g.adj[u][v]) a=a+scip->lpvals[o.x[u][v]->idx]; } bool viol= a>-1.0; if(prize<quota){ if(viol) CHECK(scip->rows.size()==1,"a violated cycle cover is added"); sym_reach("cover"); } else { CHECK(scip->rows.empty(),"no cut when the component reaches the quota"); sym_reach("no-cover"); } }
  // a second call adds to the count
  size_t n1=scip->rows.size(); SCIP_RESULT r2=SCIP_DIDNOTFIND; h->obj->scip_sepalp(scip,h,nullptr,0,0,&r2); CHECK(getNumCycleCoverCutsAdded(scip)==scip->rows.size(),"the count accumulates"); (void)n1; (void)before;
  int as=sym_choice("as",3); SCIP_SOL*cand=NULL; if(as) asSolution(scip,&cand,as-1); SCIP_RESULT rc=SCIP_DIDNOTRUN; h->obj->scip_check(scip,h,nullptr,0,cand,1,1,0,0,&rc); if(as) backFrom(scip,cand); CHECK((rc==SCIP_INFEASIBLE)==(prize<quota),"a solution is rejected iff the root's component misses the quota"); CHECK(rc==SCIP_INFEASIBLE||rc==SCIP_FEASIBLE,"decided");
  sym_observe("rows",scip->rows.size()); }
HARNESS h_cycle4(){ cycleCover(4,4); }
HARNESS h_cycle5(){ cycleCover(5,2); }
HARNESS h_cycle6(){ cycleCover(6,2,{{0,1},{0,2},{1,2},{3,4},{3,5},{4,5},{0,3},{1,4}}); }
// P: cost cover inequalities
static bool coverHolds(SCIP*s,std::vector<long>&X,size_t from){ bool r=true; for(size_t i=from;i<s->conss.size();i++) if(s->conss[i]->kind=="linear") r=AND(r,holds(s->conss[i],X)); return r; }
// the covers added from position `from` forbid exactly: root together with one of the vertices of `far`
static void exactCovers(SCIP*s,Obj&o,int n,int root,size_t from,std::vector<char>&far){
  std::vector<long> X(s->allvars.size(),0); for(auto v:s->allvars) X[v->idx]=sym_int((std::string("a")+std::to_string(from)+"_"+std::to_string(v->idx)).c_str(),0,1);
  bool want=true; for(int v=0;v<n;v++) if(far[v]&&v!=root) want=AND(want,NOT(AND(X[o.y[root]->idx]==1,X[o.y[v]->idx]==1))); CHECK(IFF(coverHolds(s,X,from),want),"the added inequalities forbid exactly the vertices that are too far from the root");
  for(size_t i=from;i<s->conss.size();i++) CHECK(s->conss[i]->check&&s->conss[i]->enforce&&!s->conss[i]->local,"cover inequalities are global constraints"); }
static void costCover(int n,bool event){
  G g(n); for(int v=0;v+1<n;v++) g.edge(v,v+1,1); g.edge(n-1,0,1); symPrizes(g,1,1); int quota=1; PCTSPvertex root=sym_choice("root",n); std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur;
  auto vm=modelPrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,name); Obj o=varsOf(g,vm); std::vector<int> d; for(int v=0;v<n;v++) d.push_back(sym_int32(nm("d",v).c_str(),0,1000000000)); 
  size_t from=scip->conss.size(); int init=0;
  if(!event){ int ub=sym_int32("ub",0,1000000000); unsigned k=separateThenAddCostCoverInequalities(scip,d,ub); std::vector<char> far(n,0); unsigned cnt=0; for(int v=0;v<n;v++) if(v!=(int)root&&d[v]>ub){far[v]=1;cnt++;} CHECK(k==cnt,"returns the number of inequalities"); CHECK(scip->conss.size()==from+cnt,"one inequality per vertex that is too far"); exactCovers(scip,o,n,root,from,far); sym_reach(cnt?"some":"none"); sym_observe("k",k); return; }
  bool dis=sym_choice("kind",2); if(dis) includeDisjointPathsCostCover(scip,d); else includeShortestPathCostCover(scip,d); CostCoverEventHandler*h=dis?getDisjointPathsCostCoverEventHandler(scip):getShortestPathCostCoverEventHandler(scip); CHECK(h!=nullptr,"handler found under its name"); CHECK((dis?getShortestPathCostCoverEventHandler(scip):getDisjointPathsCostCoverEventHandler(scip))==nullptr,"only the requested handler is there"); CHECK(h->getNumConssAdded()==0&&h->getNumConssAddedInitSol()==0,"counters start at zero"); { auto pd=h->getPathDistances(); CHECK(pd.size()==d.size(),"distances kept"); for(size_t i=0;i<d.size();i++) CHECK(pd[i]==d[i],"distances kept"); }
  init=sym_int32("init",0,1000); h->setNumConssAddedInitSol(init); scip_model_initsol(scip); unsigned total=0; 
  for(int step=0;step<2;step++){ int ub=sym_int32(nm("ub",step).c_str(),0,1000000000); scip->upperbound=(double)ub; from=scip->conss.size(); scip_model_fire(scip,SCIP_EVENTTYPE_BESTSOLFOUND); std::vector<char> far(n,0); unsigned cnt=0; for(int v=0;v<n;v++) if(v!=(int)root&&d[v]>ub){far[v]=1;cnt++;} CHECK(scip->conss.size()==from+cnt,"one inequality per vertex that is too far"); exactCovers(scip,o,n,root,from,far); total+=cnt; CHECK(h->getNumConssAdded()==total+init,"the counter is the number of inequalities added"); CHECK(h->getNumConssAddedInitSol()==(unsigned)init,"start solution counter kept"); }
  from=scip->conss.size(); scip_model_fire(scip,SCIP_EVENTTYPE_LPSOLVED|SCIP_EVENTTYPE_NODEFOCUSED); CHECK(scip->conss.size()==from,"only a new best solution triggers it"); scip_model_exitsol(scip); scip_model_fire(scip,SCIP_EVENTTYPE_BESTSOLFOUND); CHECK(scip->conss.size()==from,"no longer triggered after the search"); sym_reach("event"); }
HARNESS h_cost4(){ costCover(4,false); }
HARNESS h_cost5(){ costCover(5,false); }
HARNESS h_costev3(){ costCover(3,true); }
HARNESS h_costev4(){ costCover(4,true); }
// the shortest path distances: twice the cheapest path to the root; no tour within the bound visits a forbidden vertex
static void spCover(int n,bool opt){
  G g(n); symEdges(g,0,1000000,{},opt); symPrizes(g,1,1); int quota=1; PCTSPvertex root=sym_choice("root",n>4?1:n); std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur; auto vm=modelPrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,name); Obj o=varsOf(g,vm);
  includeShortestPathCostCover(scip,g.graph,g.cm,root); auto h=getShortestPathCostCoverEventHandler(scip); auto d=h->getPathDistances(); CHECK((int)d.size()==n,"one distance per vertex");
  std::vector<std::vector<int>> paths; std::vector<int> cur={(int)root}; std::vector<char> on(n,0); on[root]=1; std::vector<char> reach(n,0); std::vector<bool> tight(n,false);
  std::function<void(long)> go=[&](long c){ int u=cur.back(); reach[u]=1; CHECK((long)d[u]<=2*c,"no path is cheaper than half the distance"); tight[u]=OR(tight[u],(long)d[u]==2*c); for(int v=0;v<n;v++) if(g.adj[u][v]&&!on[v]){on[v]=1;cur.push_back(v);go(c+g.cost[u][v]);cur.pop_back();on[v]=0;} }; go(0);
  for(int v=0;v<n;v++){ if(reach[v]) CHECK(tight[v],"the distance is twice the cost of a path"); else CHECK(d[v]>2000000*n,"an unreachable vertex is infinitely far"); }
  int ub=sym_int32("ub",0,5000000); size_t from=scip->conss.size(); separateThenAddCostCoverInequalities(scip,d,ub); auto T=allTours(g,root); for(auto&t:T){ auto X=assignment(scip,g,o,t); CHECK(IMP(costOf(g,t)<=ub,coverHolds(scip,X,from)),"no tour within the cost bound is cut off"); } sym_reach("end"); }
HARNESS h_sp3(){ spCover(3,true); }
HARNESS h_sp4(){ spCover(4,false); }
HARNESS h_sp4o(){ spCover(4,true); }
// P: tailing off
static void tailing(int steps){ int k=sym_int32("k",-2,4); long th=sym_int("threshold",0,64); double thr=(double)th*(1.0/64); std::list<double> l; std::vector<long> gaps;
  for(int i=0;i<steps;i++){ double gp=sym_dyadic(nm("gap",i).c_str(),0,256,6); gaps.push_back((long)(gp*64)); double copy=gp; pushIntoRollingLpGapList(l,copy,k); bool t=isNodeTailingOff(l,thr,k); size_t want= k>=1? (size_t)std::min(k,i+1):0; CHECK(l.size()==want,"the window holds the last k gaps"); size_t j=0; for(double x:l){ CHECK((long)(x*64)==gaps[gaps.size()-want+j],"the window keeps the order of the gaps"); j++; }
    bool expect=false; if(k>=2&&(int)gaps.size()>=k) expect= gaps[gaps.size()-k]-gaps.back()<th; CHECK(IFF(t,expect),"tailing off iff the gap improved by less than the threshold over the last k relaxations"); } sym_reach("end"); }
HARNESS h_tail4(){ tailing(4); }
HARNESS h_tail6(){ tailing(6); }
// enforcement of an LP solution with subtours: branch when this node is tailing off, otherwise report infeasible; the gaps of different nodes do not mix
static void enfTail(int steps){ G g(6); for(auto&e:std::vector<std::pair<int,int>>{{0,1},{1,2},{0,2},{3,4},{4,5},{3,5}}) g.edge(e.first,e.second,1); symPrizes(g,1,1); int quota=1; PCTSPvertex root=0; std::string name="p"; SCIP*scip; SCIPcreate(&scip); std::vector<PCTSPedge> heur; int k=sym_choice("k",4)-1; if(k==0)k=-1; double thr=0.25; // in quarters below
  auto vm=modelPrizeCollectingTSP(scip,g.graph,heur,g.cm,g.pm,quota,root,name,true,thr,true,k,1,true); varsOf(g,vm); scip_model_transform(scip); scip->lpvals.assign(scip->allvars.size(),1.0); SCIP_CONSHDLR*h=SCIPfindConshdlr(scip,SEC_CONSHDLR_NAME.c_str()); std::vector<SCIP_NODE> nodes(3); for(int i=0;i<3;i++) nodes[i].number=i+1; std::vector<std::vector<long>> hist(3);
  for(int i=0;i<steps;i++){ int nd=sym_choice(nm("node",i).c_str(),i==0?1:3); scip->node=&nodes[nd]; long q=sym_int(nm("g",i).c_str(),1,12); nodes[nd].lowerbound=1.0; scip->primalbound=1.0+(double)q*0.125; bool lpok=sym_choice(nm("lp",i).c_str(),2); scip->lpstat=lpok?SCIP_LPSOLSTAT_OPTIMAL:SCIP_LPSOLSTAT_ITERLIMIT; hist[nd].push_back(q); int b0=scip->branchlps; SCIP_RESULT r=SCIP_FEASIBLE; CHECK(h->obj->scip_enfolp(scip,h,nullptr,0,0,0,&r)==SCIP_OKAY,"enforcement succeeds");
    bool tail=false; auto&H=hist[nd]; if(k>=2&&(int)H.size()>=k) tail= H[H.size()-k]-H.back()<2; bool want=lpok?tail:false; CHECK(r!=SCIP_FEASIBLE,"a solution with subtours is never accepted"); CHECK(IFF(r==SCIP_BRANCHED,want)&&IFF(scip->branchlps==b0+1,want),"branching exactly when the node is tailing off"); if(r!=SCIP_BRANCHED) CHECK(r==SCIP_INFEASIBLE,"otherwise infeasible"); }
  sym_reach("end"); }
HARNESS h_enftail3(){ enfTail(3); }
HARNESS h_enftail4(){ enfTail(4); }
