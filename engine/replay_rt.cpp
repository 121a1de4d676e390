// Native replay runtime: the same harness, compiled without instrumentation against the real sources (with
// sanitizers), fed with the concrete values of a counterexample or a sampled path.
// usage: prog HARNESS INPUTS   (INPUTS: one "name value" per line).  exit 0 ok, 10 assertion failed, 11 assumption not met, 13 missing input
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <map>
#include <filesystem>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <exception>
#include "sym.h"
static std::string rdir; static void drop(){ if(!rdir.empty()){ std::error_code e; std::filesystem::remove_all(rdir,e); } }
static std::map<std::string,long> in; static std::map<std::string,int> cnt; static FILE*out;
static long get(const char*n,long dflt){ int c=cnt[n]++; std::string nm=c?std::string(n)+"#"+std::to_string(c):std::string(n); auto it=in.find(nm); if(it==in.end()){ fprintf(out,"MISSING %s\n",nm.c_str()); return dflt; } return it->second; }
extern "C" {
long sym_int(const char*n,long lo,long){ return get(n,lo); }
int sym_int32(const char*n,int lo,int){ return (int)get(n,lo); }
bool sym_bool(const char*n){ return get(n,0)!=0; }
int sym_choice(const char*n,int){ return (int)get(n,0); }
double sym_dyadic(const char*n,long lo,long,int sc){ return (double)get(n,lo)/(double)(1ull<<sc); }
void sym_assume(bool c){ if(!c){ fprintf(out,"ASSUME\n"); fflush(out); (drop(),_exit(11));} }
void sym_assert(bool c,const char*m){ if(!c){ fprintf(out,"ASSERT %s\n",m); fflush(out); (drop(),_exit(10));} }
void sym_observe(const char*n,long v){ fprintf(out,"OBS %s %ld\n",n,v); }
void sym_observe_d(const char*n,double v){ fprintf(out,"OBSD %s %.17g\n",n,v); }
long sym_ite(bool c,long a,long b){ return c?a:b; }
long sym_conc(long v){ return v; }
void sym_reach(const char*l){ fprintf(out,"REACH %s\n",l); }
long sym_token(const char*t,int sc){ char*e; double d=strtod(t,&e); if(!*t||*e) return -(1l<<62); d=ldexp(d,sc); return d==floor(d)&&fabs(d)<1e15?(long)d:-(1l<<62)+1; }
void sym_dir(){ if(!rdir.empty()) return; rdir=std::filesystem::current_path().string()+"/replay-XXXXXX"; if(!mkdtemp(rdir.data())||chdir(rdir.c_str())) _exit(2); }
bool sym_replaying(){ return true; }
}
static void onterm(){ fprintf(out,"UNCAUGHT exception\n"); fflush(out); (drop(),_exit(14)); }
int main(int argc,char**argv){ if(argc<3) return 2; out=stdout; FILE*f=fopen(argv[2],"r"); if(!f) return 2; char nm[512]; long v; while(fscanf(f,"%511s %ld",nm,&v)==2) in[nm]=v; fclose(f);
  std::set_terminate(onterm); void(*h)()=(void(*)())dlsym(RTLD_DEFAULT,argv[1]); if(!h){ fprintf(stderr,"no harness\n"); return 2; } h(); fprintf(out,"DONE\n"); fflush(out); (drop(),_exit(0)); }
