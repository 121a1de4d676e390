#include <filesystem>
// Symbolic runtime: shadow values (linear integer / exact dyadic terms over z3), shadow memory,
// path forking (fork(2)), assertion discharge, witness output.
#include <z3.h>
#include <llvm/IR/Instruction.h>
#include <llvm/IR/InstrTypes.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <csignal>
#include <atomic>
#include <string>
#include <vector>
#include <unordered_map>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <time.h>
#include <execinfo.h>
#include <ostream>
typedef __int128 i128; typedef unsigned __int128 u128; typedef uint64_t u64; typedef int64_t s64;
using llvm::Instruction; using llvm::CmpInst;

enum Kind{K_BOOL,K_INT,K_FP,K_FPC,K_QUOT,K_OPQ,K_CAT,K_BAD}; // K_BAD: a byte of a partly overwritten or partly copied cell; any use is an error
struct SV; struct Part{SV*sv;int off,size;};
struct SV{ Kind k; int w; Z3_ast t; i128 lo,hi; int sc; SV*a,*b; int prec; double d; std::vector<Part>*parts; };

struct Shared{
  std::atomic<long> tokens,active,paths,forks,queries,solver_ns,asserts,assert_queries,violations,errors,unknowns,infeasible_ends,samples,opaque,maxdepth,conc,rngskip;
  std::atomic<int> stop; 
  std::atomic<unsigned char> fn[8192];
  struct {std::atomic<int> used; char name[96]; std::atomic<long> n;} reach[96];
};
static Shared*S; static Z3_context Z; static Z3_solver Sol; static Z3_model Mdl; static bool haveModel=false;
static int outFd=-1; static double deadline=0; static long sampleMax=64; static int maxViol=8; static unsigned rlimitQ=60000000; static long depth=0; static long maxDepth=200000;
static long pathSec=60; static bool trace=false; static long sampleMod=1;
static double now(){timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return t.tv_sec+t.tv_nsec*1e-9;}
struct Input{std::string name; SV*sv; bool conc; long cv;}; static std::vector<Input>*inputs; static std::unordered_map<std::string,int>*nameCnt;
struct Obs{std::string name; SV*sv; double d; bool isd; long v;}; static std::vector<Obs>*obs;
static std::unordered_map<unsigned,bool>*memo;
extern "C" { SV* __sym_args[64]; SV* __sym_ret[8]; }
[[noreturn]] static void finish(int code);
static void out(const std::string&s){ std::string l=s+"\n"; if(write(outFd,l.data(),l.size())<0){} }
static std::string esc(const std::string&s){std::string r;for(char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if((unsigned char)c<32)r+=' ';else r+=c;}return r;}
static Z3_sort IntS,BoolS;
static Z3_ast mkI(i128 v){ bool neg=v<0; u128 u=neg?(u128)(-v):(u128)v; char buf[64];int p=63;buf[p]=0; if(!u)buf[--p]='0'; while(u){buf[--p]='0'+(int)(u%10);u/=10;} if(neg)buf[--p]='-'; return Z3_mk_numeral(Z,buf+p,IntS);} 
static SV* nsv(Kind k,int w){SV*s=(SV*)calloc(1,sizeof(SV));s->k=k;s->w=w;return s;}
static void btrace(const char*m);
static void unsupported(const char*m){ btrace(m); S->errors++; out(std::string("{\"type\":\"error\",\"msg\":\"unsupported: ")+esc(m)+"\"}"); finish(3);} 
static void zerr(Z3_context c,Z3_error_code e){ S->errors++; out(std::string("{\"type\":\"error\",\"msg\":\"z3: ")+esc(Z3_get_error_msg(c,e))+"\"}"); _exit(3);} 
static void initZ(){ if(Z)return; Z3_config c=Z3_mk_config(); Z=Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(Z,zerr); IntS=Z3_mk_int_sort(Z);BoolS=Z3_mk_bool_sort(Z);
  Sol=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,Sol); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),rlimitQ); Z3_solver_set_params(Z,Sol,p);
  inputs=new std::vector<Input>();nameCnt=new std::unordered_map<std::string,int>();obs=new std::vector<Obs>();memo=new std::unordered_map<unsigned,bool>(); }
static void armTimer(){ if(pathSec>0){itimerval it={};it.it_value.tv_sec=pathSec;setitimer(ITIMER_VIRTUAL,&it,nullptr);} }
static Z3_lbool check(Z3_ast extra,bool keepModel){
  double t=now(); if(extra){Z3_solver_push(Z,Sol);Z3_solver_assert(Z,Sol,extra);} 
  Z3_lbool r=Z3_solver_check(Z,Sol); S->queries++;
  if(r==Z3_L_TRUE&&keepModel){ Z3_model m=Z3_solver_get_model(Z,Sol); Z3_model_inc_ref(Z,m); if(haveModel)Z3_model_dec_ref(Z,Mdl); Mdl=m;haveModel=true; }
  if(extra)Z3_solver_pop(Z,Sol,1);
  S->solver_ns+=(long)((now()-t)*1e9);
  if(r==Z3_L_UNDEF){S->unknowns++; out("{\"type\":\"error\",\"msg\":\"solver unknown\"}");}
  armTimer();
  return r;
}
static void assertPC(Z3_ast c){Z3_solver_assert(Z,Sol,c);} 
static bool evalBool(Z3_ast c,bool&ok){ Z3_ast r; ok=Z3_model_eval(Z,Mdl,c,true,&r); if(!ok)return false; Z3_lbool b=Z3_get_bool_value(Z,r); if(b==Z3_L_UNDEF){ok=false;return false;} return b==Z3_L_TRUE; }
static i128 parseNum(const char*s){ i128 v=0;bool neg=false; if(*s=='-'){neg=true;s++;} if(*s=='(')return 0; while(*s>='0'&&*s<='9'){v=v*10+(*s-'0');s++;} return neg?-v:v; }
static i128 evalInt(Z3_ast t){ Z3_ast r; if(!Z3_model_eval(Z,Mdl,t,true,&r))return 0; return parseNum(Z3_get_numeral_string(Z,r)); }
static void ensureModel(){ if(!haveModel){ if(check(nullptr,true)!=Z3_L_TRUE) finish(4);} }
static std::string i128s(i128 v){ bool n=v<0;u128 u=n?(u128)(-v):(u128)v; std::string s; if(!u)s="0"; while(u){s.insert(s.begin(),'0'+(int)(u%10));u/=10;} return n?"-"+s:s; }
static std::string inputsJson(){ std::string s="{"; bool f=true; for(auto&i:*inputs){ if(!f)s+=",";f=false; s+="\""+esc(i.name)+"\":"; if(i.conc)s+=std::to_string(i.cv); else if(i.sv->k==K_BOOL){bool ok;bool b=evalBool(i.sv->t,ok);s+=b?"1":"0";} else s+=i128s(evalInt(i.sv->t)); } return s+"}"; }
static std::string obsJson(){ std::string s="["; bool f=true; for(auto&o:*obs){ if(!f)s+=",";f=false; s+="[\""+esc(o.name)+"\",";
    if(!o.sv){ if(o.isd){char b[64];snprintf(b,64,"\"%.17g\"",o.d);s+=b;} else s+="\""+std::to_string(o.v)+"\""; }
    else if(o.sv->k==K_BOOL){bool ok;s+=evalBool(o.sv->t,ok)?"\"1\"":"\"0\"";}
    else if(o.sv->k==K_INT) s+="\""+i128s(evalInt(o.sv->t))+"\"";
    else if(o.sv->k==K_FP){ double d=ldexp((double)evalInt(o.sv->t),-o.sv->sc); char b[64];snprintf(b,64,"\"%.17g\"",d);s+=b; }
    else if(o.sv->k==K_FPC){char b[64];snprintf(b,64,"\"%.17g\"",o.sv->d);s+=b;}
    else s+="\"?\"";
    s+="]"; } return s+"]"; }
static bool opaquePath=false;
static void violation(const char*kind,const char*msg){ long n=-1;
  if(opaquePath){ if(S->rngskip.fetch_add(1)>=40)return; } else n=S->violations.fetch_add(1);
  ensureModel();
  out(std::string("{\"type\":\"violation\",\"kind\":\"")+kind+"\",\"msg\":\""+esc(msg)+"\",\"opaque\":"+(opaquePath?"true":"false")+",\"inputs\":"+inputsJson()+"}");
  if(n+1>=maxViol) S->stop=1;
}
static bool ownTok=true; // does this process own a job token (else it runs on its blocked parent's)
// ---- a directory of its own for every path (sym_dir): a fork copies it and points the files open in it at the copy
static std::string*fsBase,*fsDir;
static void fsNew(){ std::string t=*fsBase+"/p-XXXXXX"; if(!mkdtemp(t.data())){ perror("sym_dir"); _exit(6);} *fsDir=t; }
static void fsDrop(){ if(fsDir){ std::error_code e; std::filesystem::remove_all(*fsDir,e); } }
struct FsFd{int fd;std::string path;int fl;off_t off;};
static std::string fsNext; static std::vector<FsFd> fsFds;
static void fsCopy(){ if(!fsDir)return; std::string old=*fsDir; fsNew(); fsNext=*fsDir; *fsDir=old; fsFds.clear(); std::error_code e; std::filesystem::copy(old,fsNext,std::filesystem::copy_options::recursive,e);
  for(int fd=3;fd<256;fd++){ char l[64],b[4096]; snprintf(l,sizeof l,"/proc/self/fd/%d",fd); ssize_t n=readlink(l,b,sizeof b-1); if(n<=0)continue; b[n]=0; std::string t=b; if(t.compare(0,old.size()+1,old+"/"))continue; fsFds.push_back({fd,fsNext+t.substr(old.size()),fcntl(fd,F_GETFL),lseek(fd,0,SEEK_CUR)}); } }
static void fsChild(){ if(!fsDir)return; *fsDir=fsNext; for(auto&f:fsFds){ int nf=open(f.path.c_str(),f.fl&~(O_CREAT|O_EXCL|O_TRUNC)); if(nf<0)continue; dup2(nf,f.fd); close(nf); lseek(f.fd,f.off,SEEK_SET); } if(chdir(fsDir->c_str())){} }
[[noreturn]] static void finish(int code){
  fsDrop();
  S->active--; if(ownTok)S->tokens++; _exit(code);
}
static volatile sig_atomic_t inSig=0;
static void onSig(int sig){
  if(inSig)_exit(99); inSig=1;
  const char*m=sig==SIGSEGV?"SIGSEGV":sig==SIGABRT?"SIGABRT":sig==SIGFPE?"SIGFPE":sig==SIGVTALRM?"no progress (possible non-termination)":sig==SIGBUS?"SIGBUS":"signal";
  if(!Z){ S->errors++; out(std::string("{\"type\":\"error\",\"msg\":\"crash before any symbolic input: ")+m+"\"}"); finish(5);} 
  violation(sig==SIGVTALRM?"hang":"crash",m); S->paths++; finish(1);
}
static int doFork(){ // returns pid like fork, handles tokens
  bool got=false; long t=S->tokens.load(); while(t>0){ if(S->tokens.compare_exchange_weak(t,t-1)){got=true;break;} }
  S->forks++; S->active++;
  fflush(stdout); fsCopy();
  pid_t p=-1; for(int i=0;i<50;i++){ p=fork(); if(p>=0)break; usleep(20000);} 
  if(p<0){ S->active--; S->errors++; out("{\"type\":\"error\",\"msg\":\"fork failed\"}"); finish(6);} 
  if(p==0){ ownTok=got; fsChild(); armTimer(); return 0; }
  if(!got){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR){} if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)==99)){ S->active--; S->errors++; out("{\"type\":\"error\",\"msg\":\"path process died\"}"); } }
  armTimer();
  return p;
}
static void checkStop(){ if(S->stop) finish(0); if(deadline>0&&now()>deadline){ if(!S->stop.exchange(2)) out("{\"type\":\"timeout\"}"); finish(0);} }
static bool decide(Z3_ast c){
  if(Z3_is_eq_ast(Z,c,Z3_mk_true(Z)))return true; if(Z3_is_eq_ast(Z,c,Z3_mk_false(Z)))return false;
  Z3_ast base=c;bool neg=false; 
  if(Z3_get_ast_kind(Z,c)==Z3_APP_AST){ Z3_app a=Z3_to_app(Z,c); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_NOT){ base=Z3_get_app_arg(Z,a,0);neg=true; } }
  unsigned id=Z3_get_ast_id(Z,base); auto it=memo->find(id); if(it!=memo->end())return it->second^neg;
  checkStop(); ensureModel(); bool ok; bool m=evalBool(base,ok); if(!ok) unsupported("model eval");
  Z3_ast nb=Z3_mk_not(Z,base);
  Z3_model old=Mdl; Z3_model_inc_ref(Z,old);
  Z3_lbool r=check(m?nb:base,true);
  if(r==Z3_L_UNDEF){ finish(7);} 
  if(r==Z3_L_FALSE){ Z3_model_dec_ref(Z,old); (*memo)[id]=m; return m^neg; }
  if(++depth>S->maxdepth)S->maxdepth=depth; if(depth>maxDepth) unsupported("branch depth");
  int p=doFork();
  if(p==0){ Z3_model_dec_ref(Z,old); assertPC(m?nb:base); (*memo)[id]=!m; return (!m)^neg; }
  Z3_model_dec_ref(Z,Mdl); Mdl=old; assertPC(m?base:nb); (*memo)[id]=m; checkStop(); return m^neg;
}
// ---- constructors
static SV* mkBool(Z3_ast t,int w=1){SV*s=nsv(K_BOOL,w);s->t=t;s->lo=0;s->hi=1;return s;}
static SV* mkInt(Z3_ast t,int w,i128 lo,i128 hi){SV*s=nsv(K_INT,w);s->t=t;s->lo=lo;s->hi=hi; if(lo==hi)s->t=mkI(lo);return s;}
static SV* mkIntC(i128 v,int w){return mkInt(mkI(v),w,v,v);} 
static i128 sextv(u64 c,int w){ if(w>=64)return (s64)c; u64 m=c&((1ull<<w)-1); if(m>>(w-1))return (i128)m-((i128)1<<w); return m; }
static bool isC(SV*s){return s->k==K_INT&&s->lo==s->hi;}
static SV* toI(SV*s,u64 c,int w){ if(!s)return mkIntC(sextv(c,w),w); if(s->k==K_INT)return s; if(s->k==K_BOOL){ if(Z3_is_eq_ast(Z,s->t,Z3_mk_true(Z)))return mkIntC(1,w); if(Z3_is_eq_ast(Z,s->t,Z3_mk_false(Z)))return mkIntC(0,w); return mkInt(Z3_mk_ite(Z,s->t,mkI(1),mkI(0)),w,0,1);} unsupported("integer operation on non-integer shadow");return 0; }
static Z3_ast add2(Z3_ast a,Z3_ast b){Z3_ast x[2]={a,b};return Z3_mk_add(Z,2,x);} 
static Z3_ast sub2(Z3_ast a,Z3_ast b){Z3_ast x[2]={a,b};return Z3_mk_sub(Z,2,x);} 
static Z3_ast mul2(Z3_ast a,Z3_ast b){Z3_ast x[2]={a,b};return Z3_mk_mul(Z,2,x);} 
static Z3_ast and2(Z3_ast a,Z3_ast b){Z3_ast x[2]={a,b};return Z3_mk_and(Z,2,x);} 
static Z3_ast or2(Z3_ast a,Z3_ast b){Z3_ast x[2]={a,b};return Z3_mk_or(Z,2,x);} 
static Z3_ast T(){return Z3_mk_true(Z);} static Z3_ast Fa(){return Z3_mk_false(Z);} 
static bool isT(Z3_ast a){return Z3_is_eq_ast(Z,a,T());} static bool isF(Z3_ast a){return Z3_is_eq_ast(Z,a,Fa());}
static Z3_ast notS(Z3_ast a){ if(isT(a))return Fa(); if(isF(a))return T(); if(Z3_get_ast_kind(Z,a)==Z3_APP_AST){Z3_app p=Z3_to_app(Z,a); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,p))==Z3_OP_NOT)return Z3_get_app_arg(Z,p,0);} return Z3_mk_not(Z,a);} 
static Z3_ast andS(Z3_ast a,Z3_ast b){ if(isF(a)||isF(b))return Fa(); if(isT(a))return b; if(isT(b))return a; if(Z3_is_eq_ast(Z,a,b))return a; return and2(a,b);} 
static Z3_ast orS(Z3_ast a,Z3_ast b){ if(isT(a)||isT(b))return T(); if(isF(a))return b; if(isF(b))return a; if(Z3_is_eq_ast(Z,a,b))return a; return or2(a,b);} 
static bool feasible(Z3_ast c){ ensureModel(); bool ok; if(evalBool(c,ok)&&ok)return true; Z3_lbool r=check(c,false); if(r==Z3_L_UNDEF)finish(7); return r==Z3_L_TRUE; }
static SV* norm(Z3_ast t,int w,i128 lo,i128 hi){ // exact math value t in [lo,hi] -> canonical signed w-bit
  i128 smin=-((i128)1<<(w-1)),smax=-smin-1; 
  if(lo>=smin&&hi<=smax)return mkInt(t,w,lo,hi);
  Z3_ast outr=or2(Z3_mk_lt(Z,t,mkI(smin)),Z3_mk_gt(Z,t,mkI(smax)));
  if(!feasible(outr)) return mkInt(t,w,lo<smin?smin:lo,hi>smax?smax:hi);
  if(lo>=0&&hi<((i128)1<<w)) return mkInt(Z3_mk_ite(Z,Z3_mk_gt(Z,t,mkI(smax)),sub2(t,mkI((i128)1<<w)),t),w,smin,smax);
  Z3_ast r=add2(Z3_mk_mod(Z,sub2(t,mkI(smin)),mkI((i128)1<<w)),mkI(smin)); return mkInt(r,w,smin,smax);
}
static SV* toU(SV*x){ // unsigned math value (as K_INT wrapper, may exceed signed range)
  if(x->lo>=0)return x; i128 m=(i128)1<<x->w; if(x->hi<0) return mkInt(add2(x->t,mkI(m)),x->w,x->lo+m,x->hi+m);
  return mkInt(Z3_mk_ite(Z,Z3_mk_lt(Z,x->t,mkI(0)),add2(x->t,mkI(m)),x->t),x->w,0,m-1); }
static void btrace(const char*m){ static int on=-1; if(on<0)on=getenv("SYM_TRACE")?1:0; if(!on)return; void*b[24]; int n=backtrace(b,24); dprintf(2,"-- %s\n",m); backtrace_symbols_fd(b,n,2); }
static u64 concInt(SV*x){ // enumerate
  if(isC(x))return (u64)(s64)x->lo; S->conc++; btrace("concretize");
  for(int n=0;n<5000;n++){ ensureModel(); i128 v=evalInt(x->t); if(decide(Z3_mk_eq(Z,x->t,mkI(v)))) return (u64)(s64)v; }
  unsupported("concretization explosion"); return 0; }
// ---- FP
static SV* mkFP(Z3_ast t,int w,int sc,i128 lo,i128 hi){ SV*s=nsv(K_FP,w);s->t=(lo==hi)?mkI(lo):t;s->sc=sc;s->lo=lo;s->hi=hi;return s;}
static SV* mkFPC(double d,int w){ if(std::isfinite(d)){ if(d==0)return mkFP(mkI(0),w,0,0,0); int e; double m=frexp(d,&e); s64 mi=(s64)ldexp(m,53); e-=53; while(mi&&!(mi&1)){mi>>=1;e++;} if(e>=0&&e<40)return mkFP(mkI((i128)mi<<e),w,0,(i128)mi<<e,(i128)mi<<e); if(e<0&&e>=-60) return mkFP(mkI(mi),w,-e,mi,mi); }
  SV*s=nsv(K_FPC,w);s->d=d;return s; }
static SV* mkOPQ(int w){ S->opaque++; opaquePath=true; return nsv(K_OPQ,w);} 
static int mant(int w){return w==32?24:53;}
static bool exactOk(i128 lo,i128 hi,int w){ i128 m=(i128)1<<mant(w); return lo>=-m&&hi<=m; }
static i128 mn(i128 a,i128 b){return a<b?a:b;} static i128 mx(i128 a,i128 b){return a>b?a:b;}
static SV* fpRes(Z3_ast t,int w,int sc,i128 lo,i128 hi){ while(sc>0&&lo==hi&&lo%2==0){lo/=2;hi/=2;sc--;t=mkI(lo);} if(exactOk(lo,hi,w))return mkFP(t,w,sc,lo,hi); 
  i128 m=(i128)1<<mant(w); if(!feasible(or2(Z3_mk_lt(Z,t,mkI(-m)),Z3_mk_gt(Z,t,mkI(m)))))return mkFP(t,w,sc,lo<-m?-m:lo,hi>m?m:hi);
  // beyond the mantissa: the result is rounded to the nearest, ties to even, in steps of 2^k
  i128 top=mx(hi,-lo); int lv=0; while(lv<=40&&(m<<lv)<top)lv++; if(lv>40)return mkOPQ(w);
  if(decide(and2(Z3_mk_ge(Z,t,mkI(-m)),Z3_mk_le(Z,t,mkI(m)))))return mkFP(t,w,sc,mx(lo,-m),mn(hi,m));
  for(int k=1;k<=lv;k++){ i128 M=m<<k,s=(i128)1<<k; if(k<lv&&!decide(and2(Z3_mk_ge(Z,t,mkI(-M)),Z3_mk_le(Z,t,mkI(M)))))continue;
    Z3_ast q=Z3_mk_div(Z,t,mkI(s)),r=Z3_mk_mod(Z,t,mkI(s)); Z3_ast odd=Z3_mk_eq(Z,Z3_mk_mod(Z,q,mkI(2)),mkI(1));
    Z3_ast up=or2(Z3_mk_gt(Z,r,mkI(s/2)),and2(Z3_mk_eq(Z,r,mkI(s/2)),odd));
    return mkFP(mul2(Z3_mk_ite(Z,up,add2(q,mkI(1)),q),mkI(s)),w,sc,mx(lo-s,-M),mn(hi+s,M)); }
  return mkOPQ(w);}

static void align(SV*&a,SV*&b){ if(a->sc==b->sc)return; SV*&s=a->sc<b->sc?a:b; int d=abs(a->sc-b->sc); int ns=a->sc>b->sc?a->sc:b->sc; if(d>70)unsupported("fp scale"); i128 f=(i128)1<<d; s=mkFP(mul2(s->t,mkI(f)),s->w,ns,s->lo*f,s->hi*f); }
static SV* toF(SV*s,double c,int w){ if(!s)return mkFPC(c,w); if(s->k==K_FP||s->k==K_FPC||s->k==K_QUOT||s->k==K_OPQ)return s; unsupported("float operation on integer shadow"); return 0; }
static SV* neg(SV*a){return mkFP(Z3_mk_unary_minus(Z,a->t),a->w,a->sc,-a->hi,-a->lo);} 
static bool fpIsC(SV*a){return a->k==K_FPC||(a->k==K_FP&&a->lo==a->hi);} 
static double fpVal(SV*a){return a->k==K_FPC?a->d:ldexp((double)(s64)a->lo,-a->sc);} 
extern "C" SV* __sym_fbin(int op,int wc,SV*a,SV*b,double ca,double cb){
  if(!a&&!b)return nullptr; int w=wc-1000; a=toF(a,ca,w);b=toF(b,cb,w);
  if(fpIsC(a)&&fpIsC(b)){ double x=fpVal(a),y=fpVal(b),r; switch(op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=fmod(x,y);} if(w==32)r=(float)r; SV*s=mkFPC(r,w); return s; }
  if(a->k==K_OPQ||b->k==K_OPQ)return mkOPQ(w);
  if(op==Instruction::FSub&&a->k==K_FP&&a->lo==0&&a->hi==0&&b->k==K_QUOT){ SV*q=nsv(K_QUOT,w);q->a=neg(b->a);q->b=b->b;q->prec=b->prec;return q; }
  if(a->k==K_QUOT||b->k==K_QUOT){ if(a->k==K_QUOT&&b->k==K_FP&&b->lo==0&&b->hi==0&&(op==Instruction::FAdd||op==Instruction::FSub))return a; if(b->k==K_QUOT&&a->k==K_FP&&a->lo==0&&a->hi==0&&op==Instruction::FAdd)return b; return mkOPQ(w);} 
  if(a->k==K_FPC||b->k==K_FPC){ SV*o=a->k==K_FPC?b:a; double d=a->k==K_FPC?a->d:b->d; (void)o; if(std::isinf(d)&&(op==Instruction::FAdd||(op==Instruction::FSub)))return mkFPC(op==Instruction::FSub&&b->k==K_FPC?-d:d,w); return mkOPQ(w);} 
  switch(op){
    case Instruction::FAdd: align(a,b); return fpRes(add2(a->t,b->t),w,a->sc,a->lo+b->lo,a->hi+b->hi);
    case Instruction::FSub: align(a,b); return fpRes(sub2(a->t,b->t),w,a->sc,a->lo-b->hi,a->hi-b->lo);
    case Instruction::FMul: { i128 p[4]={a->lo*b->lo,a->lo*b->hi,a->hi*b->lo,a->hi*b->hi}; return fpRes(mul2(a->t,b->t),w,a->sc+b->sc,mn(mn(p[0],p[1]),mn(p[2],p[3])),mx(mx(p[0],p[1]),mx(p[2],p[3]))); }
    case Instruction::FDiv: {
      if(fpIsC(b)&&b->lo!=0){ // power of two divisor: exact
        i128 v=b->lo; bool ng=v<0; if(ng)v=-v; if((v&(v-1))==0){ int k=0; while(v>1){v>>=1;k++;} SV*x=ng?neg(a):a; int sc=x->sc+k-b->sc; if(sc>=0)return mkFP(x->t,w,sc,x->lo,x->hi); i128 f=(i128)1<<(-sc); return fpRes(mul2(x->t,mkI(f)),w,0,x->lo*f,x->hi*f);} }
      if(b->lo<=0&&b->hi>=0){ if(decide(Z3_mk_eq(Z,b->t,mkI(0)))){ if(decide(Z3_mk_gt(Z,a->t,mkI(0))))return mkFPC(INFINITY,w); if(decide(Z3_mk_lt(Z,a->t,mkI(0))))return mkFPC(-INFINITY,w); return mkFPC(NAN,w);} }
      bool pos=b->lo>0?true:b->hi<0?false:decide(Z3_mk_gt(Z,b->t,mkI(0)));
      SV*nu=pos?a:neg(a),*de=pos?b:neg(b); align(nu,de); 
      if(!fpIsC(de)&&de->hi-de->lo<=64){ i128 v=(s64)concInt(mkInt(de->t,64,de->lo,de->hi)); de=mkFP(mkI(v),w,de->sc,v,v); if((v&(v-1))==0) return __sym_fbin(Instruction::FDiv,wc,nu,de,0,0); }
      SV*q=nsv(K_QUOT,w); q->a=nu;q->b=de; q->prec=mant(w); return q; }
    default: return mkOPQ(w);
  }
}
static i128 iabs(i128 a){return a<0?-a:a;} static i128 maxabs(SV*s){return mx(iabs(s->lo),iabs(s->hi));}
static Z3_ast cmpT(int rel,Z3_ast a,Z3_ast b){ switch(rel){case 0:return Z3_mk_eq(Z,a,b);case 1:return Z3_mk_gt(Z,a,b);case 2:return Z3_mk_ge(Z,a,b);case 3:return Z3_mk_lt(Z,a,b);case 4:return Z3_mk_le(Z,a,b);default:return Z3_mk_not(Z,Z3_mk_eq(Z,a,b));} }
static SV* cstB(bool b){return mkBool(b?T():Fa());}
static SV* relI(int rel,SV*a,SV*b){ // math compare with intervals
  switch(rel){ case 0: if(a->hi<b->lo||b->hi<a->lo)return cstB(false); if(a->lo==a->hi&&b->lo==b->hi&&a->lo==b->lo)return cstB(true);break; case 5: if(a->hi<b->lo||b->hi<a->lo)return cstB(true); if(a->lo==a->hi&&b->lo==b->hi&&a->lo==b->lo)return cstB(false);break;
   case 1: if(a->lo>b->hi)return cstB(true); if(a->hi<=b->lo)return cstB(false);break; case 2: if(a->lo>=b->hi)return cstB(true); if(a->hi<b->lo)return cstB(false);break;
   case 3: if(a->hi<b->lo)return cstB(true); if(a->lo>=b->hi)return cstB(false);break; case 4: if(a->hi<=b->lo)return cstB(true); if(a->lo>b->hi)return cstB(false);break; }
  if(Z3_is_eq_ast(Z,a->t,b->t)) return cstB(rel==0||rel==2||rel==4);
  return mkBool(Z3_simplify(Z,cmpT(rel,a->t,b->t)));
}
static SV* freshB(){ opaquePath=true; return mkBool(Z3_mk_fresh_const(Z,"opq",BoolS)); }
extern "C" SV* __sym_fcmp(int pred,int wc,SV*a,SV*b,double ca,double cb){
  if(!a&&!b)return nullptr; int w=wc-1000; a=toF(a,ca,w);b=toF(b,cb,w);
  if(pred==CmpInst::FCMP_TRUE)return cstB(true); if(pred==CmpInst::FCMP_FALSE)return cstB(false);
  bool unord=(pred>=CmpInst::FCMP_UNO&&pred<=CmpInst::FCMP_UNE);
  bool an=a->k==K_FPC&&std::isnan(a->d),bn=b->k==K_FPC&&std::isnan(b->d);
  if(pred==CmpInst::FCMP_ORD||pred==CmpInst::FCMP_UNO){ if(a->k==K_OPQ||b->k==K_OPQ)return freshB(); return cstB((an||bn)==(pred==CmpInst::FCMP_UNO)); }
  if(an||bn)return cstB(unord);
  if(a->k==K_OPQ||b->k==K_OPQ)return freshB();
  int rel; switch(pred){case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:rel=0;break;case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:rel=1;break;case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:rel=2;break;case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:rel=3;break;case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:rel=4;break;default:rel=5;}
  auto concRel=[&](double x,double y){switch(rel){case 0:return x==y;case 1:return x>y;case 2:return x>=y;case 3:return x<y;case 4:return x<=y;default:return x!=y;}};
  if(fpIsC(a)&&fpIsC(b))return cstB(concRel(fpVal(a),fpVal(b)));
  // huge/tiny constants
  auto big=[&](double d)->SV*{return nullptr;}; (void)big;
  for(int side=0;side<2;side++){ SV*x=side?a:b,*y=side?b:a; if(x->k==K_FPC){ double d=x->d; if(std::isinf(d)||fabs(d)>1e25){ bool pos=d>0; // y vs huge
        return cstB(side? concRel(pos?1:-1,0):concRel(0,pos?1:-1)); }
      // tiny constant: scale beyond 60 bits
      if(fabs(d)<1e-18&&y->k==K_FP){ // compare y->t/2^sc with tiny nonzero d: y>d iff y.t>0 if d>0 (given granularity 2^-sc>|d|)
        if(y->sc>58)unsupported("tiny"); SV*z=mkFP(mkI(0),w,y->sc,0,0); SV*yy=y; // y relation to d
        int r2=rel; if(side){ // x=a is tiny: a rel b  => b rev a
          static const int rev[6]={0,3,4,1,2,5}; r2=rev[rel]; }
        bool pos=d>0; switch(r2){case 0:return cstB(false);case 5:return cstB(true);case 1:case 2:return relI(pos?1:2,yy,z);default:return relI(pos?4:3,yy,z);} }
      // general: y exact dyadic vs arbitrary double constant -> integer threshold
      if(y->k==K_FP){ int e; double m=frexp(d,&e); s64 mi=(s64)ldexp(m,53); e-=53; int sh=e+y->sc; int r2=rel; if(side){static const int rev[6]={0,3,4,1,2,5}; r2=rev[rel];}
        if(sh>=0){ if(sh>70)unsupported("fp const"); SV*k=mkFP(mkI((i128)mi<<sh),w,y->sc,(i128)mi<<sh,(i128)mi<<sh); return relI(r2,y,k);} 
        int s=-sh; i128 q,rem; if(s>=100){q=mi<0?-1:0;rem=1;} else {q=(i128)mi>>s; rem=(i128)mi-(q<<s);} SV*k=mkFP(mkI(q),w,y->sc,q,q); if(rem==0)return relI(r2,y,k);
        switch(r2){case 0:return cstB(false);case 5:return cstB(true);case 1:case 2:return relI(1,y,k);default:return relI(4,y,k);} }
      return freshB(); } }
  if(a->k==K_FP&&b->k==K_FP){ 
    if(abs(a->sc-b->sc)>60)unsupported("fp scale cmp");
    // avoid scaling symbolic side hugely when other is constant: use threshold
    for(int side=0;side<2;side++){ SV*x=side?a:b,*y=side?b:a; if(fpIsC(x)&&x->sc>y->sc){ int r2=rel; if(side){static const int rev[6]={0,3,4,1,2,5}; r2=rev[rel];} int s=x->sc-y->sc; i128 q=x->lo>>s,rem=x->lo-(q<<s); SV*k=mkFP(mkI(q),w,y->sc,q,q); if(rem==0)return relI(r2,y,k); switch(r2){case 0:return cstB(false);case 5:return cstB(true);case 1:case 2:return relI(1,y,k);default:return relI(4,y,k);} } }
    align(a,b); return relI(rel,a,b); }
  // quotients: cross multiply (denominators positive), exactness by separation argument
  SV*an_,*ad,*bn_,*bd; int prec=53; auto split=[&](SV*x,SV*&n,SV*&d){ if(x->k==K_QUOT){n=x->a;d=x->b;if(x->prec<prec)prec=x->prec;} else {n=mkFP(x->t,w,0,x->lo,x->hi); i128 s=(i128)1<<x->sc; d=mkFP(mkI(s),w,0,s,s);} };
  split(a,an_,ad);split(b,bn_,bd); // quotient num/den share a scale so scale cancels
  i128 m1=maxabs(an_)*maxabs(bd),m2=maxabs(bn_)*maxabs(ad); i128 lim=(i128)1<<(prec-2);
  if(m1>=lim||m2>=lim)return freshB();
  i128 p[4]={an_->lo*bd->lo,an_->lo*bd->hi,an_->hi*bd->lo,an_->hi*bd->hi}; i128 q[4]={bn_->lo*ad->lo,bn_->lo*ad->hi,bn_->hi*ad->lo,bn_->hi*ad->hi};
  SV*L=mkFP(mul2(an_->t,bd->t),w,0,mn(mn(p[0],p[1]),mn(p[2],p[3])),mx(mx(p[0],p[1]),mx(p[2],p[3]))); SV*R=mkFP(mul2(bn_->t,ad->t),w,0,mn(mn(q[0],q[1]),mn(q[2],q[3])),mx(mx(q[0],q[1]),mx(q[2],q[3])));
  return relI(rel,L,R);
}
extern "C" SV* __sym_math(const char*nm,int wc,SV*a){ if(!a)return nullptr; int w=wc-1000; std::string n=nm; if(n.size()>1&&n.back()=='f'&&n!="f")n.pop_back();
  a=toF(a,0,w); if(a->k==K_OPQ||a->k==K_QUOT)return mkOPQ(w); if(fpIsC(a)){double d=fpVal(a); if(n=="floor")d=floor(d);else if(n=="ceil")d=ceil(d);else if(n=="fabs"||n=="fab")d=fabs(d);else if(n=="trunc")d=trunc(d);else if(n=="round")d=round(d); return mkFPC(d,w);} 
  i128 s=(i128)1<<a->sc; auto fl=[&](Z3_ast t,i128 lo,i128 hi)->SV*{ auto fd=[&](i128 x){return x>=0?x/s:-((-x+s-1)/s);}; return mkFP(Z3_mk_div(Z,t,mkI(s)),w,0,fd(lo),fd(hi)); };
  if(n=="floor")return a->sc?fl(a->t,a->lo,a->hi):a; if(n=="ceil")return a->sc?fl(add2(a->t,mkI(s-1)),a->lo+s-1,a->hi+s-1):a;
  if(n=="fabs"||n=="fab"){ if(a->lo>=0)return a; return mkFP(Z3_mk_ite(Z,Z3_mk_lt(Z,a->t,mkI(0)),Z3_mk_unary_minus(Z,a->t),a->t),w,a->sc,0,maxabs(a)); }
  unsupported("math function"); return 0; }
// ---- ints
static SV* catShift(SV*x,int by){ SV*r=nsv(K_CAT,x->w); r->parts=new std::vector<Part>(); for(auto p:*x->parts){ if(p.off*8>=by){ p.off-=by/8; r->parts->push_back(p);} else if(p.off*8+p.size*8>by) unsupported("cat shift"); } if(r->parts->empty())return nullptr; if(r->parts->size()==1&&(*r->parts)[0].off==0){ SV*p=(*r->parts)[0].sv; int psz=(*r->parts)[0].size*8; if(psz==r->w)return p; } return r; }
extern "C" SV* __sym_bin(int op,int w,SV*a,SV*b,u64 ca,u64 cb){
  if(!a&&!b)return nullptr;
  if((a&&a->k==K_CAT)||(b&&b->k==K_CAT)){ if(a&&a->k==K_CAT&&!b){ if(op==Instruction::LShr&&cb%8==0)return catShift(a,cb); }
    unsupported("arithmetic on packed value"); }
  if(w==1||(a&&a->k==K_BOOL&&b&&b->k==K_BOOL)||(a&&a->k==K_BOOL&&!b&&(cb==0||cb==1))||(b&&b->k==K_BOOL&&!a&&(ca==0||ca==1))){
    Z3_ast x=a?a->t:((ca&1)?T():Fa()),y=b?b->t:((cb&1)?T():Fa());
    if((a&&a->k!=K_BOOL)||(b&&b->k!=K_BOOL)) unsupported("mixed bool");
    switch(op){case Instruction::And:return mkBool(andS(x,y),w);case Instruction::Or:return mkBool(orS(x,y),w);case Instruction::Xor: if(isT(y))return mkBool(notS(x),w); if(isT(x))return mkBool(notS(y),w); if(isF(y))return mkBool(x,w); if(isF(x))return mkBool(y,w); return mkBool(Z3_mk_xor(Z,x,y),w);case Instruction::Mul:return mkBool(andS(x,y),w);}
    if(w==1&&(op==Instruction::Add||op==Instruction::Sub))return mkBool(Z3_mk_xor(Z,x,y),1);
  }
  if(op==Instruction::Mul){ // bool * int
    for(int s=0;s<2;s++){ SV*x=s?b:a; SV*y=s?a:b; u64 cy=s?ca:cb; if(x&&x->k==K_BOOL){ SV*yi=toI(y,cy,w); return mkInt(Z3_mk_ite(Z,x->t,yi->t,mkI(0)),w,mn(0,yi->lo),mx(0,yi->hi)); } } }
  SV*A=toI(a,ca,w),*B=toI(b,cb,w);
  switch(op){
    case Instruction::Add: return norm(add2(A->t,B->t),w,A->lo+B->lo,A->hi+B->hi);
    case Instruction::Sub: return norm(sub2(A->t,B->t),w,A->lo-B->hi,A->hi-B->lo);
    case Instruction::Mul: { if(maxabs(A)>((i128)1<<62)&&maxabs(B)>((i128)1<<62)){} i128 p[4]={A->lo*B->lo,A->lo*B->hi,A->hi*B->lo,A->hi*B->hi}; return norm(mul2(A->t,B->t),w,mn(mn(p[0],p[1]),mn(p[2],p[3])),mx(mx(p[0],p[1]),mx(p[2],p[3]))); }
    case Instruction::UDiv: case Instruction::URem: { A=toU(A);B=toU(B); if(B->lo<=0&&decide(Z3_mk_eq(Z,B->t,mkI(0)))){violation("crash","integer division by zero");S->paths++;finish(1);} if(op==Instruction::UDiv)return norm(Z3_mk_div(Z,A->t,B->t),w,0,A->hi); return norm(Z3_mk_mod(Z,A->t,B->t),w,0,mn(A->hi,B->hi-1)); }
    case Instruction::SDiv: case Instruction::SRem: { if(B->lo<=0&&B->hi>=0&&decide(Z3_mk_eq(Z,B->t,mkI(0)))){violation("crash","integer division by zero");S->paths++;finish(1);} 
        Z3_ast q; if(A->lo>=0&&B->lo>0)q=Z3_mk_div(Z,A->t,B->t); else { // trunc toward zero
          Z3_ast aa=Z3_mk_ite(Z,Z3_mk_lt(Z,A->t,mkI(0)),Z3_mk_unary_minus(Z,A->t),A->t), bb=Z3_mk_ite(Z,Z3_mk_lt(Z,B->t,mkI(0)),Z3_mk_unary_minus(Z,B->t),B->t); Z3_ast d=Z3_mk_div(Z,aa,bb); Z3_ast sg=Z3_mk_xor(Z,Z3_mk_lt(Z,A->t,mkI(0)),Z3_mk_lt(Z,B->t,mkI(0))); q=Z3_mk_ite(Z,sg,Z3_mk_unary_minus(Z,d),d); }
        i128 m=maxabs(A); if(op==Instruction::SDiv)return norm(q,w,A->lo>=0&&B->lo>0?0:-m,m); i128 r=mn(m,maxabs(B)-1); return norm(sub2(A->t,mul2(q,B->t)),w,A->lo>=0?0:-r,r); }
    case Instruction::Shl: { u64 k=concInt(B); if(k>=(u64)w)return mkIntC(0,w); i128 f=(i128)1<<k; return norm(mul2(A->t,mkI(f)),w,A->lo*f,A->hi*f); }
    case Instruction::LShr: { u64 k=concInt(B); if(k>=(u64)w)return mkIntC(0,w); A=toU(A); i128 f=(i128)1<<k; return norm(Z3_mk_div(Z,A->t,mkI(f)),w,A->lo/f,A->hi/f); }
    case Instruction::AShr: { u64 k=concInt(B); i128 f=(i128)1<<k; auto fd=[&](i128 x){return x>=0?x/f:-((-x+f-1)/f);}; return norm(Z3_mk_div(Z,A->t,mkI(f)),w,fd(A->lo),fd(A->hi)); }
    case Instruction::And: { for(int s=0;s<2;s++){ SV*x=s?B:A,*y=s?A:B; if(isC(y)){ i128 m=y->lo; if(m==0)return mkIntC(0,w); if(m==-1)return x; if(m>0&&((m+1)&m)==0){ if(x->lo>=0&&x->hi<=m)return x; SV*u=toU(x); return mkInt(Z3_mk_mod(Z,u->t,mkI(m+1)),w,0,m);} } }
       u64 x=concInt(A),y=concInt(B); return mkIntC(sextv(x&y,w),w); }
    case Instruction::Or: { if(isC(A)&&A->lo==0)return B; if(isC(B)&&B->lo==0)return A; u64 x=concInt(A),y=concInt(B); return mkIntC(sextv(x|y,w),w);} 
    case Instruction::Xor: { if(isC(B)&&B->lo==-1)return mkInt(sub2(mkI(-1),A->t),w,-1-A->hi,-1-A->lo); u64 x=concInt(A),y=concInt(B); return mkIntC(sextv(x^y,w),w);} 
  }
  unsupported("binop"); return 0;
}
extern "C" SV* __sym_icmp(int pred,int w,SV*a,SV*b,u64 ca,u64 cb){
  if(!a&&!b)return nullptr;
  if((a&&a->k==K_CAT)||(b&&b->k==K_CAT)) unsupported("compare packed value");
  if(pred==CmpInst::ICMP_EQ||pred==CmpInst::ICMP_NE){ bool eq=pred==CmpInst::ICMP_EQ; 
    if(a&&b&&a->k==K_BOOL&&b->k==K_BOOL){ Z3_ast e=Z3_mk_iff(Z,a->t,b->t); return mkBool(eq?e:notS(e)); }
    for(int s=0;s<2;s++){ SV*x=s?b:a,*y=s?a:b; u64 c=s?ca:cb; if(x&&x->k==K_BOOL&&!y){ if(w<64)c&=(1ull<<w)-1; if(c==0)return mkBool(eq?notS(x->t):x->t); if(c==1)return mkBool(eq?x->t:notS(x->t)); return cstB(!eq);} } }
  SV*A=toI(a,ca,w),*B=toI(b,cb,w);
  if(w==1&&pred!=CmpInst::ICMP_EQ&&pred!=CmpInst::ICMP_NE) unsupported("ordered i1 compare");
  int rel; bool uns=false; switch(pred){case CmpInst::ICMP_EQ:rel=0;break;case CmpInst::ICMP_NE:rel=5;break;case CmpInst::ICMP_UGT:uns=true;case CmpInst::ICMP_SGT:rel=1;break;case CmpInst::ICMP_UGE:uns=true;case CmpInst::ICMP_SGE:rel=2;break;case CmpInst::ICMP_ULT:uns=true;case CmpInst::ICMP_SLT:rel=3;break;case CmpInst::ICMP_ULE:uns=true;default:rel=4;}
  if(pred==CmpInst::ICMP_SLE)rel=4;
  if(uns){A=toU(A);B=toU(B);} return relI(rel,A,B);
}
extern "C" SV* __sym_cast(int op,int w1,int w2,SV*a){
  if(!a)return nullptr;
  switch(op){
    case Instruction::Trunc: if(a->k==K_CAT){ int by=w2/8; SV*r=nsv(K_CAT,w2); r->parts=new std::vector<Part>(); for(auto p:*a->parts){ if(p.off>=by)continue; if(p.off+p.size>by)unsupported("cat trunc"); if(p.off==0&&p.size==by)return p.sv; r->parts->push_back(p);} if(r->parts->empty())return nullptr; return r; }
      if(a->k==K_BOOL){ SV*s=mkBool(a->t,w2); return s; } 
      if(a->k==K_FP||a->k==K_QUOT||a->k==K_OPQ||a->k==K_FPC)unsupported("trunc of float bits");
      if(w2==1){ if(a->lo>=0&&a->hi<=1)return mkBool(Z3_mk_eq(Z,a->t,mkI(1))); return mkBool(Z3_mk_eq(Z,Z3_mk_mod(Z,a->t,mkI(2)),mkI(1))); }
      return norm(a->t,w2,a->lo,a->hi);
    case Instruction::ZExt: if(a->k==K_CAT){SV*r=nsv(K_CAT,w2);r->parts=a->parts;return r;} if(a->k==K_BOOL)return mkBool(a->t,w2); { SV*u=toU(a); return mkInt(u->t,w2,u->lo,u->hi);} 
    case Instruction::SExt: if(a->k==K_BOOL){ if(w1==1)return mkInt(Z3_mk_ite(Z,a->t,mkI(-1),mkI(0)),w2,-1,0); return mkBool(a->t,w2);} if(a->k!=K_INT)unsupported("sext"); return mkInt(a->t,w2,a->lo,a->hi);
    case Instruction::SIToFP: case Instruction::UIToFP: { int w=w2-1000; SV*x=toI(a,0,w1); if(op==Instruction::UIToFP)x=toU(x); return fpRes(x->t,w,0,x->lo,x->hi); }
    case Instruction::FPToSI: case Instruction::FPToUI: { a=toF(a,0,w1-1000); if(a->k==K_QUOT||a->k==K_OPQ)unsupported("fptoi of inexact"); if(a->k==K_FPC)return mkIntC((s64)a->d,w2); i128 s=(i128)1<<a->sc; Z3_ast q; if(a->sc==0)q=a->t; else if(a->lo>=0)q=Z3_mk_div(Z,a->t,mkI(s)); else q=Z3_mk_ite(Z,Z3_mk_lt(Z,a->t,mkI(0)),Z3_mk_unary_minus(Z,Z3_mk_div(Z,Z3_mk_unary_minus(Z,a->t),mkI(s))),Z3_mk_div(Z,a->t,mkI(s))); return norm(q,w2,a->lo/s,a->hi/s); }
    case Instruction::FPExt: { a=toF(a,0,32); SV*r=nsv(a->k,64);*r=*a;r->w=64;return r; }
    case Instruction::FPTrunc: { a=toF(a,0,64); if(a->k==K_FP)return fpRes(a->t,32,a->sc,a->lo,a->hi); if(a->k==K_FPC)return mkFPC((float)a->d,32); if(a->k==K_QUOT){ return mkOPQ(32);} return mkOPQ(32); }
    case Instruction::BitCast: return a;
  }
  unsupported("cast"); return 0;
}
extern "C" u64 __sym_concretize(SV*s,int wc,u64 c);
static bool isF(int wc){return wc>1000;}
extern "C" bool __sym_branch(SV*s,bool c){ if(!s)return c; if(s->k==K_BOOL)return decide(s->t); if(s->k==K_INT)return decide(notS(Z3_mk_eq(Z,s->t,mkI(0)))); unsupported("branch on non-bool"); return 0; }
extern "C" u64 __sym_concretize(SV*s,int wc,u64 c){
  if(!s)return c; if(s->k==K_BOOL)return decide(s->t)?1:0; if(s->k==K_INT)return concInt(s); 
  if(s->k==K_FP){ i128 v=(s64)concInt(mkInt(s->t,64,s->lo,s->hi)); double d=ldexp((double)v,-s->sc); if(wc==1032){float f=d;uint32_t u;memcpy(&u,&f,4);return u;} u64 u;memcpy(&u,&d,8);return u; }
  if(s->k==K_FPC){ if(wc==1032){float f=s->d;uint32_t u;memcpy(&u,&f,4);return u;} u64 u;memcpy(&u,&s->d,8);return u; }
  unsupported("concretize inexact/packed value"); return 0; }
extern "C" SV* __sym_select(SV*c,bool cc,SV*a,SV*b,u64 ca,u64 cb,int wc){
  if(!c)return cc?a:b;
  auto dbl=[&](u64 x){ double d; if(wc==1032){float f;uint32_t u=x;memcpy(&f,&u,4);d=f;} else memcpy(&d,&x,8); return d; };
  if(isT(c->t)||isF(c->t)){ bool t=isT(c->t); SV*r=t?a:b; u64 cv=t?ca:cb; if(r)return r; if(isF(wc))return mkFPC(dbl(cv),wc-1000); if(wc==1)return cstB(cv&1); return mkIntC(sextv(cv,wc),wc);} 
  if(isF(wc)){ SV*A=toF(a,dbl(ca),wc-1000),*B=toF(b,dbl(cb),wc-1000); if(A->k==K_FP&&B->k==K_FP&&abs(A->sc-B->sc)<=40){align(A,B);return mkFP(Z3_mk_ite(Z,c->t,A->t,B->t),wc-1000,A->sc,mn(A->lo,B->lo),mx(A->hi,B->hi));} return decide(c->t)?A:B; }
  bool ab=(!a&&ca<=1)||(a&&a->k==K_BOOL),bb=(!b&&cb<=1)||(b&&b->k==K_BOOL);
  if(wc==1||((a||b)&&ab&&bb)){ Z3_ast x=a?a->t:((ca&1)?T():Fa()),y=b?b->t:((cb&1)?T():Fa()); 
    if(isT(x))return mkBool(orS(c->t,y),wc); if(isF(x))return mkBool(andS(notS(c->t),y),wc); if(isT(y))return mkBool(orS(notS(c->t),x),wc); if(isF(y))return mkBool(andS(c->t,x),wc); return mkBool(Z3_mk_ite(Z,c->t,x,y),wc); }
  if((a&&a->k==K_CAT)||(b&&b->k==K_CAT)){ unsupported("select of packed value"); }
  SV*A=toI(a,ca,wc),*B=toI(b,cb,wc); return mkInt(Z3_mk_ite(Z,c->t,A->t,B->t),wc,mn(A->lo,B->lo),mx(A->hi,B->hi));
}
extern "C" u64 __sym_safediv(SV*a,SV*b,u64 c){ return (b||(a&&c==0)||(a&&(s64)c==-1))?1:c; }
// ---- shadow memory
struct Gran{SV*sv[8];uint8_t sz[8];int cnt;};
static std::unordered_map<u64,Gran>*mem; static long live=0; static uint8_t bloom[1<<16];
static inline bool bl(u64 g){return bloom[(g^(g>>16))&0xffff];}
static Gran* gr(u64 g){ if(!live||!bl(g))return nullptr; auto it=mem->find(g); if(it==mem->end()||!it->second.cnt)return nullptr; return &it->second; }
static void delE(Gran*G,int i){ G->sv[i]=nullptr;G->sz[i]=0;G->cnt--;live--; }
static void putE(u64 a,int sz,SV*s){ if(!mem)mem=new std::unordered_map<u64,Gran>(); u64 g=a>>3; bloom[(g^(g>>16))&0xffff]=1; Gran&G=(*mem)[g]; int i=a&7; G.sv[i]=s;G.sz[i]=sz;G.cnt++;live++; }
static SV* badByte(){ static SV*b=nullptr; if(!b)b=nsv(K_BAD,8); return b; }
static void clearRange(u64 a,u64 n){
  if(!live||!n)return; u64 g0=a>>3,g1=(a+n-1)>>3;
  auto one=[&](u64 g){ Gran*G=gr(g); if(!G)return; u64 keep[8];int nk=0; for(int i=0;i<8;i++)if(G->sv[i]){ u64 ea=(g<<3)+i,ee=ea+G->sz[i]; if(ee<=a||ea>=a+n)continue; for(u64 x=ea;x<ee;x++)if(x<a||x>=a+n)keep[nk++]=x; delE(G,i);} for(int i=0;i<nk;i++)putE(keep[i],1,badByte()); };
  if(g1-g0>4096){ std::vector<u64> gs; for(auto&kv:*mem) if(kv.first>=g0&&kv.first<=g1&&kv.second.cnt) gs.push_back(kv.first); for(u64 g:gs)one(g); return; }
  for(u64 g=g0;g<=g1;g++)one(g);
}
extern "C" void __sym_clear(void*p,u64 n){ if(live)clearRange((u64)p,n); }
extern "C" void __sym_free(void*p){ if(live&&p)clearRange((u64)p,malloc_usable_size(p)); }
extern "C" void __sym_store(void*p,int n,SV*s){ clearRange((u64)p,n); if(!s)return; if(s->k==K_CAT){ for(auto&pt:*s->parts) if(pt.sv) putE((u64)p+pt.off,pt.size,pt.sv); return;} putE((u64)p,n,s);} 
extern "C" SV* __sym_load(void*p,int wc,int n){
  if(!live)return nullptr; u64 a=(u64)p; u64 g0=a>>3,g1=(a+n-1)>>3; std::vector<Part> ps; 
  if(g0==g1&&!(gr(g0)))return nullptr;
  for(u64 g=g0;g<=g1;g++){ Gran*G=gr(g); if(!G)continue; for(int i=0;i<8;i++)if(G->sv[i]){ u64 ea=(g<<3)+i; int es=G->sz[i]; if(ea+es<=a||ea>=a+n)continue; ps.push_back({G->sv[i],(int)((s64)ea-(s64)a),es}); } }
  if(ps.empty())return nullptr;
  if(ps.size()==1&&ps[0].off==0&&ps[0].size==n){ SV*s=ps[0].sv; return s; }
  for(auto&q:ps)if(q.off<0||q.off+q.size>n){ // sub-load of a larger cell
     if(ps.size()==1&&(q.sv->k==K_INT||q.sv->k==K_BOOL)&&q.off<=0){ SV*x=toI(q.sv,0,q.size*8); if(q.off<0)x=__sym_bin(Instruction::LShr,q.size*8,x,nullptr,0,-q.off*8); return __sym_cast(Instruction::Trunc,q.size*8,n*8,x);} unsupported("misaligned symbolic load"); }
  SV*r=nsv(K_CAT,n*8); r->parts=new std::vector<Part>(ps); return r; }
extern "C" void __sym_memcpy(void*d,void*s,u64 n){ if(!live||!n)return; if(!s){clearRange((u64)d,n);return;} 
  struct E{u64 o;int sz;SV*v;}; std::vector<E> es; u64 a=(u64)s; 
  auto one=[&](u64 g){ Gran*G=gr(g); if(!G)return; for(int i=0;i<8;i++)if(G->sv[i]){ u64 ea=(g<<3)+i;int z=G->sz[i]; if(ea+z<=a||ea>=a+n)continue; if(ea<a||ea+z>a+n){ for(u64 x=ea;x<ea+z;x++)if(x>=a&&x<a+n)es.push_back({x-a,1,badByte()}); continue; } es.push_back({ea-a,z,G->sv[i]}); } };
  u64 g0=a>>3,g1=(a+n-1)>>3; if(g1-g0>4096){for(auto&kv:*mem)if(kv.first>=g0&&kv.first<=g1&&kv.second.cnt)one(kv.first);} else for(u64 g=g0;g<=g1;g++)one(g);
  clearRange((u64)d,n); for(auto&e:es)putE((u64)d+e.o,e.sz,e.v); }
// libc is about to read n bytes at p (0: a string): what is symbolic there takes one of its values
extern "C" void __sym_chkmem(void*p,u64 n){ if(!live)return; if(!n)n=strlen((char*)p)+1; u64 a=(u64)p; for(u64 g=a>>3;g<=(a+n-1)>>3;g++)for(int i=0;i<8;i++){ Gran*G=gr(g); if(!G)break; SV*s=G->sv[i]; if(!s)continue; u64 ea=(g<<3)+i; int sz=G->sz[i]; if(ea+sz<=a||ea>=a+n)continue; int wc=s->k==K_FP||s->k==K_FPC?1000+s->w:sz*8; u64 v=__sym_concretize(s,wc,0); memcpy((void*)ea,&v,sz); clearRange(ea,sz); } }
// a byte that is no truth value is text: its values are enumerated, as libc and libstdc++ read text unseen
extern "C" u64 __sym_byte(void*p,SV*s,u64 c){ if(!s){ clearRange((u64)p,1); return c; } if(s->k==K_CAT||s->k==K_BOOL||(s->k==K_INT&&s->lo>=0&&s->hi<=1)){ __sym_store(p,1,s); return c; } c=__sym_concretize(s,8,c); clearRange((u64)p,1); return c; }
// ---- numbers written to streams: a symbolic number is written as a mark that sym_token reads back, as long as the
// stream writes it in full (default format; floating point within its digits); otherwise its values are enumerated
static std::vector<SV*>*marks;
extern "C" void* __sym_print(std::ostream*o,u64 c,SV*sv,int wc,int kind){
  bool fp=kind=='d'||kind=='f';
  if(sv){ initZ(); auto f=o->flags(); using B=std::ios_base; bool plain=o->width()==0&&(f&B::basefield)==B::dec&&!(f&(B::showbase|B::showpos|B::uppercase|B::showpoint|B::boolalpha));
    if(fp){ int d=o->precision()-(sv->k==K_FP?sv->sc:0); if(d>15-(int)sv->sc)d=15-sv->sc; i128 lim=1; for(int i=0;i<d;i++)lim*=10; lim=lim*((i128)1<<(sv->k==K_FP&&sv->sc<=8?sv->sc:0)); plain=plain&&sv->k==K_FP&&!(f&B::floatfield)&&d>=0&&sv->sc<=8; if(plain&&(sv->lo<=-lim||sv->hi>=lim)) plain=decide(and2(Z3_mk_gt(Z,sv->t,mkI(-lim)),Z3_mk_lt(Z,sv->t,mkI(lim)))); }
    else plain=plain&&(sv->k==K_INT||sv->k==K_BOOL);
    if(plain){ if(!fp){ sv=toI(sv,c,wc); if(strchr("jmytb",kind))sv=toU(sv); } if(!marks)marks=new std::vector<SV*>(); marks->push_back(sv); *o<<("@"+std::to_string(marks->size()-1)+"@"); return o; }
    c=__sym_concretize(sv,wc,c); }
  auto d=[&]{double x;memcpy(&x,&c,8);return x;}; auto g=[&]{float x;uint32_t u=c;memcpy(&x,&u,4);return x;};
  switch(kind){ case 'i':case 's': *o<<(int)sextv(c,wc);break; case 'j':case 't': *o<<(unsigned)c;break; case 'l':case 'x': *o<<(long)c;break; case 'm':case 'y': *o<<(unsigned long)c;break; case 'b': *o<<(bool)(c&1);break; case 'd': *o<<d();break; case 'f': *o<<g();break; }
  return o; }
extern "C" void __sym_unmodelled(const char*n){ unsupported((std::string("external function ")+n).c_str()); }
extern "C" void __sym_fn(int id){ if(S&&id<(int)sizeof(S->fn))S->fn[id]=1; }
// ---- harness API (shadow-aware)
static SV* takeArg(int i){SV*s=__sym_args[i];__sym_args[i]=nullptr;return s;}
static std::string uniq(const char*n){ int c=(*nameCnt)[n]++; return c?std::string(n)+"#"+std::to_string(c):std::string(n); }
static void clr(int n){for(int i=0;i<n;i++)__sym_args[i]=nullptr;}
extern "C" long sym_int(const char*name,long lo,long hi){ initZ(); clr(3); std::string nm=uniq(name); Z3_ast t=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm.c_str()),IntS); assertPC(and2(Z3_mk_ge(Z,t,mkI(lo)),Z3_mk_le(Z,t,mkI(hi)))); haveModel=false; SV*s=mkInt(t,64,lo,hi); s->t=t; inputs->push_back({nm,s,false,0}); if(check(nullptr,true)!=Z3_L_TRUE)finish(4); __sym_ret[0]=s; return lo; }
extern "C" int sym_int32(const char*name,int lo,int hi){ sym_int(name,lo,hi); SV*s=__sym_ret[0]; SV*r=nsv(K_INT,32);*r=*s;r->w=32; __sym_ret[0]=r; return lo; }
extern "C" bool sym_bool(const char*name){ initZ(); clr(1); std::string nm=uniq(name); Z3_ast t=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm.c_str()),BoolS); SV*s=mkBool(t); inputs->push_back({nm,s,false,0}); __sym_ret[0]=s; return false; }
extern "C" int sym_choice(const char*name,int n){ clr(2); sym_int(name,0,n-1); SV*s=__sym_ret[0]; __sym_ret[0]=nullptr; return (int)concInt(s); }
extern "C" double sym_dyadic(const char*name,long lo,long hi,int sc){ clr(4); sym_int(name,lo,hi); SV*s=__sym_ret[0]; __sym_ret[0]=mkFP(s->t,64,sc,lo,hi); return 0; }
extern "C" void sym_assume(bool c){ SV*s=takeArg(0); if(!s){ if(!c){S->infeasible_ends++;finish(0);} return; }
  initZ(); if(isT(s->t))return; if(isF(s->t)){S->infeasible_ends++;finish(0);} 
  bool ok; ensureModel(); bool v=evalBool(s->t,ok); assertPC(s->t); if(!(ok&&v)){ haveModel=false; Z3_lbool r=check(nullptr,true); if(r==Z3_L_FALSE){S->infeasible_ends++;finish(0);} if(r==Z3_L_UNDEF)finish(7);} }
extern "C" void sym_assert(bool c,const char*msg){ SV*s=takeArg(0); clr(2); S->asserts++; initZ();
  if(!s||isT(s->t)||isF(s->t)){ if(s)c=isT(s->t); if(!c){ violation("assert",msg); S->paths++; finish(1);} return; }
  checkStop(); S->assert_queries++; ensureModel(); bool ok; bool v=evalBool(s->t,ok); 
  if(ok&&!v){ violation("assert",msg); assertPC(s->t); haveModel=false; if(check(nullptr,true)!=Z3_L_TRUE){S->paths++;finish(1);} return; }
  Z3_model old=Mdl; Z3_model_inc_ref(Z,old); Z3_lbool r=check(notS(s->t),true); 
  if(r==Z3_L_UNDEF){finish(7);} 
  if(r==Z3_L_TRUE){ violation("assert",msg); }
  Z3_model_dec_ref(Z,Mdl); Mdl=old; assertPC(s->t); }
extern "C" void sym_observe(const char*n,long v){ initZ(); SV*s=takeArg(1); clr(2); obs->push_back({n,s,0,false,v}); }
extern "C" void sym_observe_d(const char*n,double v){ initZ(); SV*s=takeArg(1); clr(2); obs->push_back({n,s,v,true,0}); }
extern "C" long sym_ite(bool c,long a,long b){ SV*sc=takeArg(0),*sa=takeArg(1),*sb=takeArg(2); if(!sc){ __sym_ret[0]=c?sa:sb; return c?a:b; } __sym_ret[0]=__sym_select(sc,c,sa,sb,a,b,64); return c?a:b; }
extern "C" long sym_conc(long v){ SV*s=takeArg(0); if(!s)return v; if(s->k==K_BOOL)return decide(s->t); return (long)concInt(s); }
extern "C" void sym_reach(const char*l){ clr(1); for(int i=0;i<96;i++){ if(S->reach[i].used==2&&!strcmp(S->reach[i].name,l)){S->reach[i].n++;return;} int z=0; if(S->reach[i].used==0&&S->reach[i].used.compare_exchange_strong(z,1)){ strncpy(S->reach[i].name,l,95); S->reach[i].used=2; S->reach[i].n++; return;} while(S->reach[i].used==1){} if(!strcmp(S->reach[i].name,l)){S->reach[i].n++;return;} } }
extern "C" long sym_token(const char*t,int sc){ clr(2); size_t n=strlen(t); 
  if(n>=3&&t[0]=='@'&&t[n-1]=='@'&&strspn(t+1,"0123456789")==n-2&&marks){ SV*s=(*marks)[atoi(t+1)]; int k=s->k==K_FP?sc-s->sc:sc; if(k<0)unsupported("sym_token scale"); i128 f=(i128)1<<k; SV*r=mkInt(mul2(s->t,mkI(f)),64,s->lo*f,s->hi*f); __sym_ret[0]=isC(r)?nullptr:r; return isC(r)?(long)r->lo:0; }
  char*e; double d=strtod(t,&e); if(!n||*e)return -(1l<<62); d=ldexp(d,sc); return d==floor(d)&&fabs(d)<1e15?(long)d:-(1l<<62)+1; }
extern "C" void sym_dir(){ clr(1); if(fsDir)return; char b[4096]; fsBase=new std::string(getcwd(b,sizeof b)); fsDir=new std::string(); fsNew(); if(chdir(fsDir->c_str())){} }
extern "C" void sym_end(){ }
extern "C" bool sym_replaying(){ clr(1); return false; }

int main(int argc,char**argv){
  std::string harness,outp="out.jsonl"; long jobs=8; double budget=600; std::string fnlist;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{return std::string(argv[++i]);}; if(a=="--harness")harness=nx(); else if(a=="--out")outp=nx(); else if(a=="--jobs")jobs=std::stol(nx()); else if(a=="--time")budget=std::stod(nx()); else if(a=="--samples")sampleMax=std::stol(nx()); else if(a=="--samplemod")sampleMod=std::stol(nx()); else if(a=="--maxviol")maxViol=std::stoi(nx()); else if(a=="--pathsec")pathSec=std::stol(nx()); else if(a=="--rlimit")rlimitQ=std::stoul(nx()); }
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)){ if(personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE)>=0&&!getenv("SYM_NOASLR")){ setenv("SYM_NOASLR","1",1); execv("/proc/self/exe",argv);} }
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  outFd=open(outp.c_str(),O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644);
  void(*h)()=(void(*)())dlsym(RTLD_DEFAULT,harness.c_str()); if(!h){fprintf(stderr,"no harness %s\n",harness.c_str());return 2;}
  S->tokens=jobs-1; S->active=1; double t0=now(); deadline=t0+budget;
  prctl(PR_SET_CHILD_SUBREAPER,1);
  pid_t p=fork();
  if(p==0){
    setpgid(0,0);
    int dn=open("/dev/null",O_WRONLY); dup2(dn,1); if(!getenv("SYM_STDERR"))dup2(dn,2);
    static char alt[1<<16]; stack_t ss={}; ss.ss_sp=alt;ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr);
    struct sigaction sa={}; sa.sa_handler=onSig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGVTALRM})sigaction(s,&sa,nullptr);
    rlimit rl={3ull<<30,3ull<<30}; setrlimit(RLIMIT_AS,&rl); rlimit cr={0,0}; setrlimit(RLIMIT_CORE,&cr);
    initZ(); armTimer();
    h();
    // path end
    checkStop(); initZ(); long pn=S->paths++; ensureModel();
    if(pn%sampleMod==0&&S->samples<sampleMax&&!opaquePath){ long k=S->samples++; if(k<sampleMax) out("{\"type\":\"sample\",\"inputs\":"+inputsJson()+",\"obs\":"+obsJson()+"}"); }
    finish(0);
  }
  setpgid(p,p);
  while(S->active>0){ int st; pid_t q=waitpid(-1,&st,WNOHANG); if(q>0&&(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)==99))){ S->errors++; S->active--; S->tokens++; out("{\"type\":\"error\",\"msg\":\"path process died\"}"); } if(q<0&&errno==ECHILD&&S->active>0){ usleep(1000); if(waitpid(-1,&st,WNOHANG)<0&&errno==ECHILD&&S->active>0){ out("{\"type\":\"error\",\"msg\":\"lost path processes\"}"); S->errors++; break;} } if(q<=0)usleep(500); if(now()>deadline+30){ S->stop=2; out("{\"type\":\"timeout\"}"); kill(-p,SIGKILL); break; } }
  kill(-p,SIGKILL);
  std::string fns; for(size_t i=0;i<sizeof(S->fn);i++)if(S->fn[i]){ if(!fns.empty())fns+=","; fns+=std::to_string(i);} 
  std::string rs; for(int i=0;i<96;i++)if(S->reach[i].used==2){ if(!rs.empty())rs+=","; rs+="\""+esc(S->reach[i].name)+"\":"+std::to_string(S->reach[i].n.load()); }
  char buf[1024]; snprintf(buf,sizeof buf,"{\"type\":\"summary\",\"harness\":\"%s\",\"complete\":%s,\"paths\":%ld,\"forks\":%ld,\"queries\":%ld,\"solver_s\":%.3f,\"asserts\":%ld,\"assert_queries\":%ld,\"violations\":%ld,\"errors\":%ld,\"unknowns\":%ld,\"pruned\":%ld,\"opaque\":%ld,\"maxdepth\":%ld,\"concretizations\":%ld,\"wall_s\":%.3f,",harness.c_str(),(S->stop==0&&S->errors==0&&S->unknowns==0)?"true":"false",S->paths.load(),S->forks.load(),S->queries.load(),S->solver_ns/1e9,S->asserts.load(),S->assert_queries.load(),S->violations.load(),S->errors.load(),S->unknowns.load(),S->infeasible_ends.load(),S->opaque.load(),S->maxdepth.load(),S->conc.load(),now()-t0);
  out(std::string(buf)+"\"fns\":["+fns+"],\"reach\":{"+rs+"}}");
  printf("%s\n",buf);
  return 0;
}
