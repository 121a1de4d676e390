// Extension / collapse heuristics of the real code on every small weighted graph.
#include "h.h"
#include "pctsp/heuristic.hh"
typedef std::list<PCTSPvertex> T;
static long costOf(G&g,const T&t){ long c=0; int prev=-1; for(auto v:t){ if(prev>=0) c+=g.cost[prev][v]; prev=v; } return c; }
static long prizeOf(G&g,const T&t){ std::set<int> s(t.begin(),t.end()); long p=0; for(int v:s) p+=g.prize[v]; return p; }
// closed, starts and ends at the root, no vertex twice, every step an edge
static const char* badTour(G&g,const T&t,int root){
  if(t.size()<4) return "the tour has at least three different vertices"; if((int)t.front()!=root||(int)t.back()!=root) return "the tour starts and ends at the root";
  int prev=-1; std::set<int> s; size_t i=0; for(auto v:t){ if(v>=(PCTSPvertex)g.n) return "vertices of the graph"; if(prev>=0&&!g.adj[prev][v]) return "every step of the tour is an edge of the graph"; if(++i<t.size()&&!s.insert(v).second) return "no vertex is visited twice"; prev=v; } return nullptr; }
#define VALID(t) do{ const char*b_=badTour(g,t,0); if(b_) sym_assert(false,b_); }while(0)
static std::set<std::pair<int,int>> cyc(int k){ std::set<std::pair<int,int>> m; for(int i=0;i+1<k;i++) m.insert({i,i+1}); m.insert({0,k-1}); return m; }
static T tour0(int k){ T t; for(int i=0;i<k;i++) t.push_back(i); t.push_back(0); return t; }
static void obs(const T&t){ for(auto v:t) sym_observe("t",v); }

// the graphs of the data sets have a self loop without cost at every vertex: no heuristic may step along it
static bool loops_=false;
static void loops(G&g){ if(loops_) for(int v=0;v<g.n;v++){ auto r=boost::add_edge(v,v,g.graph); g.cm[r.first]=0; } }
// ---- collapse
static void collapseH(int n,int k,bool sp,int opt,int chi,int phi){
  G g(n); symEdges(g,1,chi,cyc(k),opt); loops(g); symPrizes(g,0,phi); T t=tour0(k); int quota=sym_int32("quota",0,phi*n+1); PCTSPvertex root=0;
  long c0=costOf(g,t),p0=prizeOf(g,t); T in=t; T r=collapse(g.graph,t,g.cm,g.pm,quota,root,sp); obs(r);
  VALID(r); CHECK(t==in,"the given tour is left as it was"); long c1=costOf(g,r),p1=prizeOf(g,r);
  CHECK(c1<=c0,"collapsing never makes the tour more expensive"); CHECK(IMP(p0>=quota,p1>=quota),"a prize-feasible tour stays prize-feasible"); CHECK(IMP(p0<quota,c1==c0),"an infeasible tour is returned as it was");
  // no cheaper collapse over one vertex is missed
  for(int i=0;i<k;i++){ std::vector<int> path={i}; long pz=g.prize[i]; bool found=false; bool rs=i==0; 
    if(!sym_conc(pz<quota)) continue; for(int l=1;l<k;l++){ int v=(i+l)%k; if(sym_conc(pz+g.prize[v]>=quota)){ found=true; break; } path.push_back(v); pz+=g.prize[v]; if(v==0) rs=true; }
    if(!found||!rs||path.size()<2) continue; long ic=0; for(size_t j=0;j+1<path.size();j++) ic+=g.cost[path[j]][path[j+1]];
    for(int u=0;u<n;u++){ if(std::find(path.begin(),path.end(),u)!=path.end()) continue; int s=path.back(),e=path.front(); if(!g.adj[s][u]||!g.adj[u][e]) continue; CHECK(IMP(pz+g.prize[u]>=quota,c1<=ic+g.cost[s][u]+g.cost[u][e]),"no cheaper collapse through a single vertex is missed"); } }
  sym_reach(r==in?"unchanged":"collapsed");
}
HARNESS h_collapse44(){ collapseH(4,4,false,1,12,6); }
HARNESS h_collapse54(){ collapseH(5,4,false,1,12,6); }
HARNESS h_collapse55(){ collapseH(5,5,false,0,12,6); }
HARNESS h_collapse_sp44(){ collapseH(4,4,true,1,8,4); }
HARNESS h_collapse_sp54(){ collapseH(5,4,true,0,2,2); }
HARNESS h_collapse_sp54t(){ collapseH(5,4,true,1,5,3); }
HARNESS h_collapse_sp55t(){ collapseH(5,5,true,0,4,3); }

// ---- extension by unitary gain
static bool isSub(const T&a,const T&b){ auto i=a.begin(); for(auto v:b) if(i!=a.end()&&*i==v) ++i; return i==a.end(); }
// is vertex w between a and b the insertion of greatest unitary gain into the closed tour tv?
static bool greatest(G&g,std::vector<int>&tv,int w,int a,int b){ long num=g.prize[w],den=g.cost[a][w]+g.cost[w][b]-g.cost[a][b]; bool ok=true; std::set<int> s(tv.begin(),tv.end());
  for(int v=0;v<g.n;v++) if(!s.count(v)) for(size_t i=0;i+1<tv.size();i++){ int x=tv[i],y=tv[i+1]; if(!g.adj[x][v]||!g.adj[v][y]) continue; long d2=g.cost[x][v]+g.cost[v][y]-g.cost[x][y]; if(v==w){ ok=AND(ok,OR(d2<0,d2>=den)); continue; } ok=AND(ok,IMP(AND(d2>0,g.prize[v]>0),OR(den==0,num*d2>=(long)g.prize[v]*den))); ok=AND(ok,IMP(AND(d2==0,g.prize[v]>0),den==0)); }
  return AND(ok,AND(den>=0,num>0)); }
// is `out` the result of greedy insertions into `in` (one or two of them)? the order of two insertions is not visible, so either may be first
static void greedy(G&g,T&in,T&out){ std::vector<int> a(in.begin(),in.end()),b(out.begin(),out.end()); std::set<int> s(a.begin(),a.end()); std::vector<int> p; for(size_t i=0;i<b.size();i++) if(!s.count(b[i])) p.push_back(i);
  auto cut=[&](int q){ std::vector<int> r=b; r.erase(r.begin()+q); return r; };
  if(p.size()==1) CHECK(greatest(g,a,b[p[0]],b[p[0]-1],b[p[0]+1]),"the inserted vertex and position have the greatest unitary gain");
  if(p.size()==2){ bool any=false; for(int k=0;k<2;k++){ int last=p[k],first=p[1-k]; auto mid=cut(last); int f=first-(first>last); any=OR(any,AND(greatest(g,a,mid[f],mid[f-1],mid[f+1]),greatest(g,mid,b[last],b[last-1],b[last+1]))); } CHECK(any,"every inserted vertex and position has the greatest unitary gain at its turn"); } }
static void gainH(int n,int k,int opt,int chi,int plo,int phi){
  G g(n); symEdges(g,1,chi,cyc(k),opt); loops(g); symPrizes(g,plo,phi); T t=tour0(k),in=t; extensionUnitaryGain(g.graph,t,g.cm,g.pm); obs(t);
  VALID(t); CHECK(isSub(in,t),"extension only inserts vertices"); CHECK(prizeOf(g,t)>=prizeOf(g,in),"extension never loses prize");
  // if nothing was inserted although a gain exists, then no vertex is above the average: with one candidate or with unequal candidates one is
  bool free_=false; for(int v=k;v<n;v++) for(int i=0;i<k;i++) if(g.adj[i][v]&&g.adj[v][(i+1)%k]) free_=OR(free_,AND(g.cost[i][v]+g.cost[v][(i+1)%k]==g.cost[i][(i+1)%k],g.prize[v]>0)); // a vertex of infinite gain makes the average infinite
  if(t==in&&!sym_conc(free_)){ int cnt=0; for(int v=k;v<n;v++){ bool any=false; for(int i=0;i<k;i++) if(g.adj[i][v]&&g.adj[v][(i+1)%k]) any=OR(any,AND(g.cost[i][v]+g.cost[v][(i+1)%k]>g.cost[i][(i+1)%k],g.prize[v]>0)); cnt+=sym_conc(any)?1:0; }
    CHECK(IMP(n-k>=2,cnt==0||cnt==n-k),"with several outside vertices, some of them without gain, the best one is above the average and is inserted"); }
  greedy(g,in,t);
  sym_reach(t==in?"unchanged":"extended");
}
HARNESS h_gain43(){ gainH(4,3,1,8,0,8); }
HARNESS h_gain53(){ gainH(5,3,0,2,0,2); }
HARNESS h_gain53t(){ gainH(5,3,1,4,1,4); }
HARNESS h_gain54(){ gainH(5,4,0,6,0,6); }
// ---- extension by unitary gain until the quota is reached
static void untilH(int n,int k,int opt,int chi,int plo,int phi){
  G g(n); symEdges(g,1,chi,cyc(k),opt); loops(g); symPrizes(g,plo,phi); int quota=sym_int32("quota",0,phi*n+1); T t=tour0(k),in=t; extensionUntilPrizeFeasible(g.graph,t,g.cm,g.pm,quota); obs(t);
  VALID(t); CHECK(isSub(in,t),"extension only inserts vertices"); long p0=prizeOf(g,in),p1=prizeOf(g,t);
  if(t==in) sym_reach("unchanged"); else { sym_reach("extended"); CHECK(p0<quota,"a tour that reaches the quota is not extended"); }
  // the last insertion was needed: without some inserted vertex the quota was not reached
  if(t!=in){ bool need=false; for(auto v:t) if((int)v>=k) need=OR(need,p1-g.prize[v]<quota); CHECK(need,"extension stops as soon as the quota is reached"); }
  // and it only stops short of the quota when no outside vertex has a positive gain
  if(sym_conc(p1<quota)){ sym_reach("short"); std::vector<int> tv(t.begin(),t.end()); std::set<int> s(t.begin(),t.end()); for(int v=0;v<n;v++) if(!s.count(v)) for(size_t i=0;i+1<tv.size();i++) if(g.adj[tv[i]][v]&&g.adj[v][tv[i+1]]) CHECK(NOT(AND(g.prize[v]>0,g.cost[tv[i]][v]+g.cost[v][tv[i+1]]>g.cost[tv[i]][tv[i+1]])),"extension stops short of the quota only when no vertex with a gain is left"); }
  greedy(g,in,t);
}
HARNESS h_until43(){ untilH(4,3,1,5,0,5); }
HARNESS h_until53(){ untilH(5,3,0,2,1,3); }
HARNESS h_until54(){ untilH(5,4,0,2,1,3); }
HARNESS h_until63(){ untilH(6,3,0,1,1,2); }
HARNESS h_until53t(){ untilH(5,3,1,3,1,3); }
HARNESS h_until54t(){ untilH(5,4,1,5,0,5); }
// ---- path extension
static void pathH(int n,int k,int opt,int chi,int plo,int phi,int step,int depth,bool pow2){
  G g(n); symEdges(g,1,chi,cyc(k),opt); loops(g); if(pow2){ for(int v=0;v<n;v++) g.setPrize(v, v<k?1:1<<sym_choice(nm("lp",v).c_str(),phi)); } else symPrizes(g,plo,phi);
  T t=tour0(k),in=t; PCTSPvertex root=0; pathExtension(g.graph,t,g.cm,g.pm,root,step,depth); obs(t);
  VALID(t); CHECK(prizeOf(g,t)>=prizeOf(g,in),"path extension never loses prize"); if(step==1&&depth==2) CHECK(isSub(in,t),"one step extension only inserts vertices");
  if(t!=in){ CHECK(prizeOf(g,t)>prizeOf(g,in),"a changed tour has more prize"); sym_reach("extended"); } else sym_reach("unchanged");
}
HARNESS h_path43(){ pathH(4,3,1,8,0,8,1,2,false); }
HARNESS h_path53(){ pathH(5,3,1,4,1,2,1,2,true); }
HARNESS h_path54(){ pathH(5,4,1,6,0,4,1,2,false); }
HARNESS h_path54s2(){ pathH(5,4,1,4,0,4,2,2,false); }
HARNESS h_path53d3(){ pathH(5,3,1,4,1,2,1,3,true); }
HARNESS h_path64d3s2(){ pathH(6,4,0,1,1,3,2,3,false); }
HARNESS h_path54d4s2(){ pathH(5,4,1,3,0,3,2,4,false); }
// ---- path extension until the quota is reached
static bool extensible(G&g,const T&t,int step,int depth){ // some admissible external path of more prize exists (paths of at most depth edges, root kept)
  std::vector<int> tv(t.begin(),t.end()); int k=tv.size()-1; if(step>=k) return false; std::set<int> s(t.begin(),t.end()); bool any=false;
  for(int i=0;i<k;i++){ int j=(i+step)%k; long ip=0; bool rootIn=false; for(int l=1;l<step;l++){ ip+=g.prize[tv[(i+l)%k]]; if(tv[(i+l)%k]==0) rootIn=true; } if(rootIn) continue;
    for(int u=0;u<g.n;u++) if(!s.count(u)&&g.adj[tv[i]][u]&&g.adj[u][tv[j]]) any=OR(any,g.prize[u]>ip); }
  return any; }
static void pathUntilH(int n,int k,int opt,int chi,int plo,int phi,int step,int depth){
  G g(n); symEdges(g,1,chi,cyc(k),opt); loops(g); symPrizes(g,plo,phi); int quota=sym_int32("quota",0,phi*n+1); T t=tour0(k),in=t; PCTSPvertex root=0;
  pathExtensionUntilPrizeFeasible(g.graph,t,g.cm,g.pm,root,quota,step,depth); obs(t);
  VALID(t); long p0=prizeOf(g,in),p1=prizeOf(g,t); CHECK(p1>=p0,"path extension never loses prize");
  if(t!=in){ sym_reach("extended"); CHECK(p0<quota,"a tour that reaches the quota is not extended"); CHECK(p1>p0,"a changed tour has more prize");
    if(step==1&&depth==2){ CHECK(isSub(in,t),"one step extension only inserts vertices"); bool need=false; for(auto v:t) if((int)v>=k) need=OR(need,p1-g.prize[v]<quota); CHECK(need,"extension stops as soon as the quota is reached"); } }
  else sym_reach("unchanged");
  CHECK(IMP(p1<quota,NOT(extensible(g,t,step,depth))),"extension stops short of the quota only when no path extension is left");
}
HARNESS h_puntil43(){ pathUntilH(4,3,1,5,0,5,1,2); }
HARNESS h_puntil53(){ pathUntilH(5,3,1,3,1,3,1,2); }
HARNESS h_puntil54s2(){ pathUntilH(5,4,1,3,0,3,2,2); }
HARNESS h_puntil53d3(){ pathUntilH(5,3,1,2,1,2,1,3); }
HARNESS h_puntil54d3s3(){ pathUntilH(5,4,1,2,0,3,3,3); }
// ---- path extension and collapse
static void pecH(int n,int k,int opt,int chi,int plo,int phi,int step,int depth,bool sp){
  G g(n); symEdges(g,1,chi,cyc(k),opt); loops(g); symPrizes(g,plo,phi); int quota=sym_int32("quota",0,phi*n+1); T t=tour0(k),in=t; PCTSPvertex root=0;
  T r=pathExtensionCollapse(g.graph,t,g.cm,g.pm,quota,root,sp,depth,step); obs(r); CHECK(t==in,"the given tour is left as it was");
  long p0=prizeOf(g,in); if(r.empty()){ CHECK(p0<quota,"a prize-feasible start tour yields a tour"); if(step==1&&depth==2) sym_reach("none"); }
  else { VALID(r); CHECK(prizeOf(g,r)>=quota,"the returned tour reaches the quota"); CHECK(IMP(p0>=quota,costOf(g,r)<=costOf(g,in)),"never more expensive than a feasible start tour"); sym_reach("tour"); }
}
HARNESS h_pec43(){ pecH(4,3,1,4,0,4,1,2,false); }
HARNESS h_pec44(){ pecH(4,4,0,3,0,3,1,2,true); }
HARNESS h_pec53(){ pecH(5,3,0,2,1,2,1,2,false); }
HARNESS h_pec54s2(){ pecH(5,4,0,1,0,2,2,3,true); }
HARNESS h_pec44t(){ pecH(4,4,1,4,0,3,1,2,true); }
HARNESS h_pec53t(){ pecH(5,3,0,3,1,2,1,2,false); }
HARNESS h_pec54s2t(){ pecH(5,4,0,2,0,2,2,3,true); }
HARNESS h_collapse44l(){ loops_=true; collapseH(4,4,false,1,12,6); }
HARNESS h_collapse54l(){ loops_=true; collapseH(5,4,false,0,8,4); }
HARNESS h_collapse_sp44l(){ loops_=true; collapseH(4,4,true,0,4,3); }
HARNESS h_gain43l(){ loops_=true; gainH(4,3,1,4,0,4); }
HARNESS h_until43l(){ loops_=true; untilH(4,3,1,5,0,5); }
HARNESS h_path43l(){ loops_=true; pathH(4,3,1,8,0,8,1,2,false); }
HARNESS h_path54s2l(){ loops_=true; pathH(5,4,0,4,0,4,2,3,false); }
HARNESS h_puntil43l(){ loops_=true; pathUntilH(4,3,1,5,0,5,1,3); }
HARNESS h_pec43l(){ loops_=true; pecH(4,3,1,3,0,3,1,3,false); }
HARNESS h_pec44l(){ loops_=true; pecH(4,4,0,2,0,2,2,3,true); }
// ---- gain / loss formulas
HARNESS h_formulas(){
  int p=sym_int32("p",0,1000),a=sym_int32("a",0,1000),b=sym_int32("b",0,1000),c=1<<sym_choice("lc",6); if(sym_choice("less",2)) c=-c; // denominator b+c'-a a power of two, of either sign
  int cvw=c+a-b; sym_assume(cvw>=0); float f=unitaryGain(p,a,b,cvw); CHECK(f==(float)p/(float)c,"unitary gain is prize over extra cost"); 
  int ep=sym_int32("ep",0,1000),ec=sym_int32("ec",0,1000),ic=sym_int32("ic",0,1000); int ip=ep-c; sym_assume(ip>=0); float l=unitaryLoss(ep,ip,ec,ic); CHECK(l==(float)(ec-ic)/(float)c,"unitary loss is extra cost over extra prize");  sym_reach("end");
}
