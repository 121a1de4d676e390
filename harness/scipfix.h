// Fixture shared by the harnesses that drive the SCIP-facing code.
#pragma once
#include "h.h"
#include "pctsp/algorithms.hh"
#include <functional>
#include <cmath>
typedef std::map<PCTSPedge,SCIP_VAR*> EVM;
struct Obj { std::vector<std::vector<SCIP_VAR*>> x; std::vector<SCIP_VAR*> y; };      // variables by end points
inline Obj varsOf(G&g,EVM&vm){ Obj o; o.x.assign(g.n,std::vector<SCIP_VAR*>(g.n,nullptr)); o.y.assign(g.n,nullptr);
  for(auto const&kv:vm){ int s=boost::source(kv.first,g.graph),t=boost::target(kv.first,g.graph); if(s==t){ CHECK(o.y[s]==nullptr,"one vertex variable per vertex"); o.y[s]=kv.second; } else { CHECK(o.x[s][t]==nullptr,"one edge variable per edge"); o.x[s][t]=o.x[t][s]=kv.second; } }
  for(int u=0;u<g.n;u++){ CHECK(o.y[u]!=nullptr,"every vertex has a variable"); for(int v=u+1;v<g.n;v++) CHECK((o.x[u][v]!=nullptr)==(bool)g.adj[u][v],"the edge variables are the edges of the graph"); }
  return o; }
// the edge set `on` (concrete) is one simple cycle through `root`; fills the visited vertices
inline bool cycleThrough(G&g,std::vector<std::vector<char>>&on,int root,std::vector<char>&vis){
  int n=g.n; vis.assign(n,0); std::vector<int> deg(n,0); int m=0; for(int u=0;u<n;u++)for(int v=u+1;v<n;v++) if(on[u][v]){deg[u]++;deg[v]++;m++;}
  if(m<3||deg[root]!=2) return false; for(int v=0;v<n;v++) if(deg[v]!=0&&deg[v]!=2) return false;
  std::vector<int> st={root}; vis[root]=1; int k=0; while(!st.empty()){ int u=st.back();st.pop_back();k++; for(int v=0;v<n;v++) if(on[u][v]&&!vis[v]){vis[v]=1;st.push_back(v);} }
  return k==m; }
inline bool cycleAnywhere(G&g,std::vector<std::vector<char>>&on){ std::vector<char> vis; for(int v=0;v<g.n;v++) if(cycleThrough(g,on,v,vis)) return true; return false; }
inline long lval(double d){ return (long)d; }
// does the 0/1 assignment X (by variable index) satisfy the constraint?
inline bool holds(SCIP_CONS*c,std::vector<long>&X){ long a=0; for(size_t i=0;i<c->vars.size();i++){ int k=c->vars[i]->idx; a+=sym_ite(X[k]==1,lval(c->vals[i]),0); } bool r=true; if(c->lhs>-1e19) r=AND(r,a>=lval(c->lhs)); if(c->rhs<1e19) r=AND(r,a<=lval(c->rhs)); return r; }
inline bool rowHolds(SCIP_ROW*c,std::vector<long>&X){ long a=0; for(size_t i=0;i<c->vars.size();i++) a+=sym_ite(X[c->vars[i]->idx]==1,lval(c->vals[i]),0); bool r=true; if(c->lhs>-1e19) r=AND(r,a>=lval(c->lhs)); if(c->rhs<1e19) r=AND(r,a<=lval(c->rhs)); return r; }
inline bool linearOk(SCIP*s,std::vector<long>&X){ bool r=true; for(auto c:s->conss) if(c->kind!="custom"&&c->check) r=AND(r,holds(c,X)); return r; }
// constraint handlers accept the solution (SCIP consults a handler when it has a checked constraint or needs none)
inline bool handlersOk(SCIP*s,SCIP_SOL*sol){ bool ok=true; for(auto h:s->conshdlrs){ bool active=!h->obj->scip_needscons_; for(auto c:s->conss) if(c->hdlr==h&&c->check) active=true; if(!active) continue;
    SCIP_RESULT r=SCIP_DIDNOTRUN; SCIP_RETCODE rc=h->obj->scip_check(s,h,nullptr,0,sol,1,1,0,0,&r); CHECK(rc==SCIP_OKAY,"check callback succeeds"); CHECK(r==SCIP_FEASIBLE||r==SCIP_INFEASIBLE,"check callback decides"); if(r!=SCIP_FEASIBLE) ok=false; } return ok; }
inline bool enforcePs(SCIP*s){ bool ok=true; for(auto h:s->conshdlrs){ SCIP_RESULT r=SCIP_FEASIBLE; h->obj->scip_enfops(s,h,nullptr,0,0,0,0,&r); if(r!=SCIP_FEASIBLE) ok=false; } return ok; }
inline bool enforceLp(SCIP*s){ bool ok=true; for(auto h:s->conshdlrs){ SCIP_RESULT r=SCIP_FEASIBLE; h->obj->scip_enfolp(s,h,nullptr,0,0,0,&r); if(r!=SCIP_FEASIBLE) ok=false; } return ok; }
// all simple cycles through root of the complete graph on n vertices, as 0/1 vectors over variable indices (edges that are not in the graph exclude the cycle)
struct Tour { std::vector<int> seq; std::vector<char> vis; };
inline std::vector<Tour> allTours(G&g,int root){ std::vector<Tour> out; int n=g.n; std::vector<int> cur={root}; std::vector<char> on(n,0); on[root]=1;
  std::function<void()> go=[&](){ int u=cur.back(); if(cur.size()>=3&&g.adj[u][root]&&cur[1]<u){ Tour t; t.seq=cur; t.vis=on; out.push_back(t);} for(int v=0;v<n;v++) if(!on[v]&&g.adj[u][v]){ on[v]=1;cur.push_back(v);go();cur.pop_back();on[v]=0; } }; go(); return out; }
inline std::vector<long> assignment(SCIP*s,G&g,Obj&o,Tour&t){ std::vector<long> X(s->allvars.size(),0); for(size_t i=0;i<t.seq.size();i++){ int u=t.seq[i],v=t.seq[(i+1)%t.seq.size()]; X[o.x[u][v]->idx]=1; X[o.y[u]->idx]=1; } return X; }
inline long prizeOf(G&g,Tour&t){ long p=0; for(int v:t.seq) p+=g.prize[v]; return p; }
inline long costOf(G&g,Tour&t){ long c=0; for(size_t i=0;i<t.seq.size();i++) c+=g.cost[t.seq[i]][t.seq[(i+1)%t.seq.size()]]; return c; }
// do the subtour handler's options arrive? `o` are the variables of the prism-like graph on 6 vertices 012 / 345 with a link 0-3; the LP solution of the connected or the disconnected point is set
struct SecAsk { bool disjoint,flow; int window; long thr64; };
inline void linkedTriangles(G&g,int chi){ for(auto&e:std::vector<std::pair<int,int>>{{0,1},{1,2},{0,2},{3,4},{4,5},{3,5},{0,3}}) g.edge(e.first,e.second,chi); }
inline void secOptions(SCIP*s,std::vector<std::vector<SCIP_VAR*>>&x,SecAsk a){
  SCIP_CONSHDLR*h=SCIPfindConshdlr(s,SEC_CONSHDLR_NAME.c_str()); CHECK(h!=nullptr,"the subtour handler is there"); s->lpvals.assign(s->allvars.size(),1.0); int link=x[0][3]->idx; SCIP_RESULT r;
  static SCIP_NODE nd; nd=SCIP_NODE(); nd.number=1; nd.lowerbound=1.0; SCIP_NODE*old=s->node; s->node=&nd; scip_model_fire(s,SCIP_EVENTTYPE_NODEFOCUSED);
  s->lpvals[link]=0.0; size_t k=s->rows.size(); r=SCIP_DIDNOTRUN; h->obj->scip_sepalp(s,h,nullptr,0,0,&r); if(a.disjoint) CHECK(s->rows.size()>k,"disjoint tours are cut off when asked for"); if(!a.disjoint&&!a.flow) CHECK(s->rows.size()==k,"nothing is cut off when not asked for");
  s->lpvals[link]=0.25; k=s->rows.size(); r=SCIP_DIDNOTRUN; h->obj->scip_sepalp(s,h,nullptr,0,0,&r); if(a.flow) CHECK(s->rows.size()>k,"minimum cuts are separated when asked for"); else CHECK(s->rows.size()==k,"minimum cuts are not separated when not asked for");
  s->lpvals[link]=0.0; double pb=s->primalbound; std::vector<long> H; s->lpstat=SCIP_LPSOLSTAT_OPTIMAL;
  for(int i=0;i<4;i++){ long q=sym_int(nm("gap",i).c_str(),1,12); s->primalbound=1.0+(double)q*0.125; H.push_back(q); r=SCIP_FEASIBLE; h->obj->scip_enfolp(s,h,nullptr,0,0,0,&r); bool t=false; if(a.window>=2&&(int)H.size()>=a.window) t= (H[H.size()-a.window]-q)*8<a.thr64; CHECK(IFF(r==SCIP_BRANCHED,t),"branching follows the asked threshold and window"); }
  s->node=old; s->primalbound=pb; s->branchlps=0; s->rows.clear(); }
