// Common helpers for the harnesses: symbolic graphs, weights and small oracles.
#pragma once
#include "sym.h"
#include "pctsp/graph.hh"
#include "pctsp/renaming.hh"
#include "pctsp/walk.hh"
#include "pctsp/data_structures.hh"
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#define HARNESS extern "C" void
#define CHECK(c,msg) sym_assert((c),msg)
// conjunction / disjunction without control flow, so that conditions on symbolic values do not fork
inline bool AND(bool a,bool b){ return (bool)((int)a & (int)b); }
inline bool OR(bool a,bool b){ return (bool)((int)a | (int)b); }
inline bool NOT(bool a){ return (bool)((int)a ^ 1); }
inline bool IMP(bool a,bool b){ return OR(NOT(a),b); }
inline bool IFF(bool a,bool b){ return (bool)(((int)a ^ (int)b) ^ 1); }
inline long B2L(bool b){ return sym_ite(b,1,0); }

struct G {            // graph with concrete structure and symbolic integer weights
  int n; PCTSPgraph graph; std::vector<std::pair<int,int>> e; std::vector<std::vector<char>> adj; std::vector<std::vector<int>> cost; std::vector<int> prize;
  std::vector<std::vector<PCTSPedge>> ed;
  EdgeCostMap cm; VertexPrizeMap pm;
  G(int n_):n(n_),graph(n_),adj(n_,std::vector<char>(n_,0)),cost(n_,std::vector<int>(n_,0)),prize(n_,0),ed(n_,std::vector<PCTSPedge>(n_)){ cm=boost::get(edge_weight,graph); pm=boost::get(vertex_distance,graph); }
  void edge(int u,int v,int c){ auto r=boost::add_edge(u,v,graph); e.push_back({u,v}); adj[u][v]=adj[v][u]=1; cost[u][v]=cost[v][u]=c; ed[u][v]=ed[v][u]=r.first; cm[r.first]=c; }
  void setPrize(int v,int p){ prize[v]=p; pm[v]=p; }
};
inline std::string nm(const char*p,int a){ return std::string(p)+std::to_string(a); }
inline std::string nm(const char*p,int a,int b){ return std::string(p)+std::to_string(a)+"_"+std::to_string(b); }
// every edge {u,v}, u<v: optional when it is not in `must`; symbolic cost in [clo,chi] (clo==chi: constant)
inline void symEdges(G&g,int clo,int chi,const std::set<std::pair<int,int>>&must={},bool opt=true,bool loops=false,bool flip=false){
  for(int u=0;u<g.n;u++) for(int v=u+(loops?0:1);v<g.n;v++){
    bool in= must.count({u,v})>0;
    if(!in && opt) in = sym_choice(nm("e",u,v).c_str(),2)==1;
    if(!in && !opt) in=true;
    if(in){ int c= clo==chi? clo : sym_int32(nm("c",u,v).c_str(),clo,chi); if(flip&&((u+v)&1)) g.edge(v,u,c); else g.edge(u,v,c); }
  }
}
inline void symPrizes(G&g,int lo,int hi){ for(int v=0;v<g.n;v++) g.setPrize(v, lo==hi?lo: sym_int32(nm("p",v).c_str(),lo,hi)); }
