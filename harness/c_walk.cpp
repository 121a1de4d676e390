// Walk / graph / renaming utilities.
#include "h.h"
typedef boost::bimap<PCTSPvertex,PCTSPvertex> VB;
typedef std::vector<std::pair<PCTSPvertex,PCTSPvertex>> PV;

// P: renaming is a bijection onto 0..k-1 and translating there and back is the identity
static void rename_edges(int m,int range){
  PV old; for(int i=0;i<m;i++){ PCTSPvertex u=sym_int(nm("u",i).c_str(),0,range), v=sym_int(nm("v",i).c_str(),0,range); old.push_back({u,v}); }
  VB bm; PV keep=old; PV nw=renameEdges(bm,old);
  CHECK(nw.size()==(size_t)m,"one renamed edge per edge");
  std::vector<PCTSPvertex> O,N; for(int i=0;i<m;i++){ O.push_back(keep[i].first);O.push_back(keep[i].second);N.push_back(nw[i].first);N.push_back(nw[i].second);}
  bool used[16]={};
  for(size_t i=0;i<O.size();i++){ CHECK(N[i]<O.size(),"new name in range"); used[sym_conc(N[i])]=true; }
  int k=0; while(k<16&&used[k])k++; for(int j=k;j<16;j++) CHECK(!used[j],"new names are contiguous from zero");
  CHECK(bm.size()==(size_t)k,"lookup has one entry per vertex");
  for(size_t i=0;i<O.size();i++)for(size_t j=i+1;j<O.size();j++) CHECK(IFF(O[i]==O[j],N[i]==N[j]),"renaming is injective and a function");
  PV back=getOldEdges(bm,nw); CHECK(back.size()==(size_t)m,"size of translated edges");
  for(int i=0;i<m;i++) CHECK(AND(back[i].first==keep[i].first,back[i].second==keep[i].second),"old(new(e)) == e in order and orientation");
  PV again=getNewEdges(bm,keep); for(int i=0;i<m;i++) CHECK(AND(again[i].first==nw[i].first,again[i].second==nw[i].second),"new(e) is stable");
  std::vector<PCTSPvertex> nv=getNewVertices(bm,O), ov=getOldVertices(bm,N); CHECK(nv.size()==O.size()&&ov.size()==N.size(),"vertex list sizes");
  for(size_t i=0;i<O.size();i++){ CHECK(nv[i]==N[i],"new vertex names in order"); CHECK(ov[i]==O[i],"old vertex names in order"); }
  for(int i=0;i<m;i++){ sym_observe("n1",nw[i].first); sym_observe("n2",nw[i].second);} sym_reach("end");
}
HARNESS h_rename2(){ rename_edges(2,1000000); }
HARNESS h_rename3(){ rename_edges(3,1000000); }
HARNESS h_rename_vertices(){
  int m=4; std::vector<PCTSPvertex> v; for(int i=0;i<m;i++) v.push_back(sym_int(nm("v",i).c_str(),0,1000)); VB bm; renameVertices(bm,v);
  std::vector<PCTSPvertex> N=getNewVertices(bm,v); bool used[8]={}; for(int i=0;i<m;i++){ CHECK(N[i]<4,"range"); used[sym_conc(N[i])]=true; for(int j=0;j<i;j++) CHECK(IFF(v[i]==v[j],N[i]==N[j]),"renaming is injective and a function"); }
  int k=0; while(k<8&&used[k])k++; for(int j=k;j<8;j++) CHECK(!used[j],"contiguous"); CHECK(bm.size()==(size_t)k,"one entry per vertex");
  auto o=getOldVertices(bm,N); for(int i=0;i<m;i++) CHECK(o[i]==v[i],"round trip"); sym_reach("end");
}
// P: cost and prize maps survive the renaming, for either key orientation
HARNESS h_mapfill(){
  // distinct, arbitrarily ordered old names
  const int n=4; PCTSPvertex name[n]; for(int i=0;i<n;i++){ name[i]=sym_int(nm("name",i).c_str(),0,100000); for(int j=0;j<i;j++) sym_assume(name[i]!=name[j]); }
  int shape=sym_choice("shape",4); std::vector<std::pair<int,int>> S[4]={{{0,1},{1,2},{2,0}},{{0,1},{1,2},{2,3},{3,0}},{{3,1},{1,0},{0,2}},{{0,1},{0,0},{1,1},{1,2}}};
  auto&sh=S[shape]; PV edges; for(auto&x:sh) edges.push_back({name[x.first],name[x.second]});
  VB bm; PV nw=renameEdges(bm,edges); PCTSPgraph g; addEdgesToGraph(g,nw);
  CHECK(boost::num_edges(g)==sh.size(),"every edge is added once");
  std::map<std::pair<PCTSPvertex,PCTSPvertex>,int> cost; std::map<PCTSPvertex,int> prize; std::vector<int> c; std::set<int> vs; int flip=sym_choice("flip",2);
  for(size_t i=0;i<sh.size();i++){ int x=sym_int32(nm("c",i).c_str(),-1000000000,1000000000); c.push_back(x); auto a=name[sh[i].first],b=name[sh[i].second]; if(flip&&(i&1)) std::swap(a,b); cost[{a,b}]=x; vs.insert(sh[i].first);vs.insert(sh[i].second);}
  CHECK(boost::num_vertices(g)==vs.size(),"one graph vertex per named vertex");
  int p[n]; for(int v:vs){ p[v]=sym_int32(nm("p",v).c_str(),-1000000000,1000000000); prize[name[v]]=p[v]; }
  auto cm=boost::get(edge_weight,g); auto pm=boost::get(vertex_distance,g);
  fillCostMapFromRenamedMap(g,cm,cost,bm); fillRenamedVertexMap(pm,prize,bm);
  for(size_t i=0;i<sh.size();i++){ auto e=boost::edge(nw[i].first,nw[i].second,g); CHECK(e.second,"edge present"); CHECK(cm[e.first]==c[i],"cost of the edge is the given cost"); }
  for(int v:vs){ PCTSPvertex o=name[v]; CHECK(pm[getNewVertex(bm,o)]==p[v],"prize of the vertex is the given prize"); }
  // a cost for an edge that is not in the graph is reported
  if(shape==1){ cost[{name[0],name[2]}]=5; bool thrown=false; try{ fillCostMapFromRenamedMap(g,cm,cost,bm);}catch(EdgeNotFoundException&){thrown=true;} CHECK(thrown,"missing edge is reported"); }
  sym_reach("end");
}
// P: edges / cost / prize of a walk
static void walk_totals(int n,int len){
  G g(n); symEdges(g,-1000000,1000000); symPrizes(g,-1000000,1000000);
  std::vector<PCTSPvertex> w; for(int i=0;i<len;i++) w.push_back(sym_choice(nm("w",i).c_str(),n));
  bool ok=true; long cost=0,prize=0; for(int i=0;i<len;i++){ prize+=g.prize[w[i]]; if(i+1<len){ if(!g.adj[w[i]][w[i+1]]) ok=false; else cost+=g.cost[w[i]][w[i+1]]; } }
  std::list<PCTSPvertex> l(w.begin(),w.end()); bool t1=false,t2=false,t3=false;
  try{ auto f=w.begin(),e=w.end(); auto ed=getEdgesInWalk(g.graph,f,e); CHECK(ok,"walk over a missing edge is reported"); CHECK(ed.size()==(size_t)(len>0?len-1:0),"one edge per step");
    for(int i=0;i+1<len;i++){ auto s=boost::source(ed[i],g.graph),t=boost::target(ed[i],g.graph); CHECK((s==w[i]&&t==w[i+1])||(s==w[i+1]&&t==w[i]),"i-th edge joins i-th and next vertex"); }
    CHECK(totalCost(ed,g.cm)==cost,"cost of the edge vector"); std::list<PCTSPedge> el(ed.begin(),ed.end()); CHECK(totalCost(el,g.cm)==cost,"cost of the edge list");
  }catch(EdgeNotFoundException&){ t1=true; }
  try{ int c=totalCost(g.graph,l,g.cm); CHECK(c==cost,"total cost of a tour"); sym_observe("cost",c);}catch(EdgeNotFoundException&){t2=true;}
  try{ CHECK(totalCost(g.graph,w,g.cm)==cost,"total cost of a path vector");}catch(EdgeNotFoundException&){t3=true;}
  CHECK(t1==!ok&&t2==!ok&&t3==!ok,"EdgeNotFoundException exactly when a step is not an edge");
  CHECK(totalPrize(g.pm,l)==prize,"prize of a list"); CHECK(totalPrize(g.pm,w)==prize,"prize of a vector");
  CHECK(totalPrizeOfTour(g.pm,l)==prize-g.prize[w[len-1]],"prize of a tour counts the repeated root once");
  long all=0; for(int v=0;v<n;v++) all+=g.prize[v]; CHECK(totalPrizeOfGraph(g.graph,g.pm)==all,"prize of the graph");
  int quota=sym_int32("quota",-8000000,8000000); CHECK(IFF(isPrizeFeasible(g.pm,quota,w),prize>=quota),"prize feasible iff total prize reaches the quota");
  sym_observe("prize",totalPrize(g.pm,l)); sym_reach(ok?"walk-ok":"walk-missing-edge");
}
HARNESS h_walk3(){ walk_totals(3,1+sym_choice("len",4)); }
HARNESS h_walk4(){ walk_totals(4,4); }
// P: reordering a closed tour from the root
static void reorder(int k){
  std::list<int> t; std::vector<int> v; for(int i=0;i<k;i++){ int x=sym_int32(nm("t",i).c_str(),0,1000); for(int j=0;j<i;j++) sym_assume(x!=v[j]); v.push_back(x);} for(int x:v)t.push_back(x); t.push_back(v[0]);
  int r=sym_choice("rootpos",k); std::list<int> keep=t; auto res=ReorderTourFromRoot(t,v[r]);
  CHECK(res.size()==(size_t)k+1,"same number of stops"); int i=0; for(int x:res){ CHECK(x==v[(r+i)%k],"a rotation of the same tour starting and ending at the root"); i++; }
  auto a=keep.begin(); for(int x:t){ CHECK(x==*a,"the given tour is left as it was"); ++a; } sym_reach("end");
}
HARNESS h_reorder(){ reorder(2+sym_choice("k",5)); }
// P: sub-path of a cycle
HARNESS h_subpath(){
  int k=3+sym_choice("k",4); std::list<PCTSPvertex> c; std::vector<PCTSPvertex> v; for(int i=0;i<k;i++){ v.push_back(sym_int(nm("t",i).c_str(),0,1000)); c.push_back(v[i]); } c.push_back(v[0]); v.push_back(v[0]);
  int s=sym_choice("s",k),e=sym_choice("e",k+1); if(s==e) e=(s+1); if(e==0) e=sym_choice("e0",2)?0:k; int e_in=e; auto p=getSubpathOfCycle(c,s,e_in); if(e==0) e=k; // the root closes the cycle: position 0 and position k are the same stop
  size_t i=0; int pos=s; while(true){ CHECK(i<p.size(),"subpath long enough"); CHECK(p[i]==v[pos],"subpath follows the cycle"); i++; if(pos==e) break; pos++; if(pos>k) pos=1; }
  CHECK(i==p.size(),"subpath ends at the requested position"); sym_reach("end");
}
// P: bounded searches
static void search(int n,bool deep=false){
  G g(n); if(deep){ for(int v=0;v+1<n;v++) g.edge(v,v+1,1); for(auto&e:std::vector<std::pair<int,int>>{{0,2},{1,3},{0,n-1}}) if(sym_choice(nm("e",e.first,e.second).c_str(),2)) g.edge(e.first,e.second,1); } else symEdges(g,1,1); int depth=sym_choice("depth",n+1); PCTSPvertex src=sym_choice("src",n); std::vector<bool> mark0(n,false); if(n>2){ int b=sym_choice("blocked",n+1); if(b<n&&b!=(int)src) mark0[b]=true; }
  std::vector<int> dist(n,1000); dist[src]=0; for(int r=0;r<n;r++) for(int u=0;u<n;u++)for(int v=0;v<n;v++) if(g.adj[u][v]&&(!mark0[v])&&dist[u]+1<dist[v]) dist[v]=dist[u]+1;
  { std::vector<bool> mark=mark0; std::vector<PCTSPvertex> par(n,999); breadthFirstSearch(g.graph,src,mark,par,depth);
    for(int v=0;v<n;v++) if(!mark0[v]){ CHECK(mark[v]==(dist[v]<=depth),"breadth first search reaches exactly the vertices within the depth limit"); if(mark[v]&&v!=(int)src){ CHECK(par[v]<(PCTSPvertex)n&&g.adj[v][par[v]]&&dist[par[v]]+1==dist[v],"parents form shortest paths");
          PCTSPvertex t=v; auto path=pathInTreeFromParents(par,src,t); CHECK((int)path.size()==dist[v]+1&&path.front()==src&&path.back()==t,"tree path joins source and vertex"); PCTSPvertex prev=src; bool first=true; for(auto x:path){ if(!first) CHECK(g.adj[prev][x],"tree path uses edges"); first=false; prev=x; } } }
    CHECK(par[src]==src,"source is its own parent"); }
  { std::vector<bool> mark=mark0; std::vector<PCTSPvertex> par(n,999); par[src]=src; depthFirstSearch(g.graph,src,mark,par,depth);
    for(int v=0;v<n;v++) if(!mark0[v]){ if(mark[v]){ int x=v,len=0; while(x!=(int)src&&len<=n){ CHECK(par[x]<(PCTSPvertex)n&&g.adj[x][par[x]],"depth first parents are edges"); x=par[x]; len++; } CHECK(len<=depth,"depth first paths respect the depth limit"); }
      if(depth>=n-1) CHECK(mark[v]==(dist[v]<1000),"an unlimited depth first search reaches everything reachable"); if(dist[v]<=1&&depth>=1) CHECK(mark[v],"neighbours are reached"); }
  }
  sym_reach("end");
}
HARNESS h_search3(){ search(3); }
HARNESS h_search4(){ search(4); }
HARNESS h_search5(){ search(5); }
HARNESS h_search7(){ search(7,true); }
// P: dijkstra avoiding marked vertices
static void dij(int n,bool opt){
  G g(n); symEdges(g,0,1000000,{},opt); const int S=sym_choice("from",2)?n-1:0,T=n-1-S; PCTSPvertex s=S,t=T; std::vector<bool> mark(n,false); for(int v=0;v<n;v++) if(v!=S) mark[v]=sym_choice(nm("m",v).c_str(),2);
  std::vector<PCTSPvertex> pred(n); std::vector<int> d(n); std::vector<boost::default_color_type> col(n); bool found=false;
  try{ dijkstraShortestPathBlacklist(g.graph,s,t,pred,d,g.cm,col,mark);}catch(TargetVertexFound&){found=true;}
  // oracle: all simple paths s->t over unmarked vertices
  std::vector<std::vector<int>> paths; std::vector<int> cur={S}; std::vector<char> on(n,0); on[S]=1;
  struct R{ static void go(G&g,std::vector<bool>&mark,int t,std::vector<int>&cur,std::vector<char>&on,std::vector<std::vector<int>>&out){ int u=cur.back(); if(u==t){out.push_back(cur);return;} for(int v=0;v<g.n;v++) if(g.adj[u][v]&&!on[v]&&!mark[v]){ on[v]=1;cur.push_back(v);go(g,mark,t,cur,on,out);cur.pop_back();on[v]=0; } } };
  R::go(g,mark,T,cur,on,paths);
  CHECK(found==!paths.empty(),"target reported exactly when it is reachable without marked vertices");
  if(found){ // the recorded path
    int x=T,len=0; long c=0; while(x!=S&&len<=n){ int p=pred[x]; CHECK(p>=0&&p<n&&g.adj[p][x],"predecessors are edges"); CHECK(!mark[x],"path avoids marked vertices"); c+=g.cost[p][x]; x=p; len++; }
    CHECK(x==S,"predecessors lead back to the source"); CHECK(c==d[T],"distance is the cost of the recorded path");
    for(auto&p:paths){ long pc=0; for(size_t i=0;i+1<p.size();i++) pc+=g.cost[p[i]][p[i+1]]; CHECK(d[T]<=pc,"no cheaper path avoids the marked vertices"); }
    sym_observe("dist",d[T]); sym_reach("found"); } else sym_reach("not-found");
}
HARNESS h_dij4(){ dij(4,true); }
HARNESS h_dij5(){ dij(5,false); }
// P: component vectors
HARNESS h_components(){
  int n=1+sym_choice("n",5), k=1+sym_choice("k",4); PCTSPgraph g(n); std::vector<int> id(n); for(int v=0;v<n;v++) id[v]=sym_int32(nm("id",v).c_str(),0,k-1);
  auto c=getConnectedComponentsVectors(g,k,id); CHECK(c.size()==(size_t)k,"one vector per component"); std::vector<int> seen(n,0); long tot=0;
  for(int i=0;i<k;i++) for(auto v:c[i]){ CHECK(v<(PCTSPvertex)n,"vertex of the graph"); CHECK(id[v]==i,"vertex is listed under its component"); seen[v]++; tot++; }
  for(int v=0;v<n;v++) CHECK(seen[v]==1,"every vertex is listed once");
  auto ns=getNonSingularConnectedComponentVectors(c); size_t j=0; for(int i=0;i<k;i++) if(c[i].size()>1){ CHECK(j<ns.size(),"every non-singular component is kept"); CHECK(ns[j]==c[i],"non-singular components are kept whole and in order"); j++; }
  CHECK(j==ns.size(),"singular components are dropped"); sym_reach(j? "some":"none");
}
// P: edge sets
static void edgesets(int n){
  G g(n); symEdges(g,1,1,{},true,true,true); std::vector<PCTSPvertex> S; for(int v=0;v<n;v++) if(sym_choice(nm("s",v).c_str(),2)) S.push_back(v);
  int ord=sym_choice("order",3); if(ord==1) std::reverse(S.begin(),S.end()); if(ord==2&&S.size()) std::rotate(S.begin(),S.begin()+1,S.end());
  auto in=getEdgesInducedByVertices(g.graph,S); std::set<std::pair<int,int>> got; for(auto&e:in){ int a=boost::source(e,g.graph),b=boost::target(e,g.graph); if(a>b)std::swap(a,b); CHECK(got.insert({a,b}).second,"induced edges are listed once"); }
  for(int u=0;u<n;u++)for(int v=u+1;v<n;v++){ bool us=std::find(S.begin(),S.end(),(PCTSPvertex)u)!=S.end(),vs=std::find(S.begin(),S.end(),(PCTSPvertex)v)!=S.end(); CHECK((got.count({u,v})>0)==(us&&vs&&g.adj[u][v]),"induced edges are exactly the edges with both ends in the set"); got.erase({u,v}); }
  CHECK(got.empty(),"nothing else is listed");
  bool all=true; for(auto v:S) if(!g.adj[v][v]) all=false;
  bool thrown=false; try{ auto sl=getSelfLoops(g.graph,S); CHECK(sl.size()==S.size(),"one self loop per vertex"); for(size_t i=0;i<S.size();i++) CHECK(boost::source(sl[i],g.graph)==S[i]&&boost::target(sl[i],g.graph)==S[i],"self loops in vertex order"); }catch(std::exception&){thrown=true;}catch(...){thrown=true;}
  CHECK(thrown==!all,"missing self loop is reported");
  auto ev=getEdgeVectorOfGraph(g.graph); CHECK(ev.size()==g.e.size(),"edge vector lists every edge"); auto vp=getVertexPairVectorFromEdgeSubset(g.graph,ev); CHECK(vp.size()==g.e.size(),"vertex pairs list every edge"); for(size_t i=0;i<vp.size();i++) CHECK((int)vp[i].first==g.e[i].first&&(int)vp[i].second==g.e[i].second,"pairs are the end points in order");
  auto back=edgesFromVertexPairs(g.graph,vp); CHECK(back.size()==ev.size(),"sizes"); for(size_t i=0;i<ev.size();i++) CHECK(back[i]==ev[i],"edge of its end points");
  auto f=ev.begin(),l=ev.end(); auto vo=getVerticesOfEdges(g.graph,f,l); std::set<int> ends; for(auto&x:g.e){ends.insert(x.first);ends.insert(x.second);} CHECK(std::set<int>(vo.begin(),vo.end())==ends&&vo.size()==ends.size(),"vertices of an edge set, once each");
  if(n>=2&&!g.adj[0][1]){ PV q={{0,1}}; bool t=false; try{edgesFromVertexPairs(g.graph,q);}catch(EdgeNotFoundException&){t=true;} CHECK(t,"missing edge is reported"); }
  sym_reach("end");
}
HARNESS h_edgesets3(){ edgesets(3); }
