// In-memory model of the part of the SCIP C API that pctsp uses.
// It records what the code under test asks the solver to do (variables, constraints, rows, solutions, plugins,
// parameters) and answers the queries from state that a harness sets (possibly symbolically).
#ifndef SCIP_MODEL_H
#define SCIP_MODEL_H
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <list>
#include <map>

typedef double SCIP_Real;
typedef unsigned int SCIP_Bool;
typedef long long SCIP_Longint;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
enum SCIP_Retcode { SCIP_OKAY=1, SCIP_ERROR=0, SCIP_NOMEMORY=-1, SCIP_READERROR=-2, SCIP_INVALIDCALL=-8, SCIP_INVALIDDATA=-9,
  SCIP_INVALIDRESULT=-10, SCIP_PLUGINNOTFOUND=-11, SCIP_PARAMETERUNKNOWN=-12 };
typedef enum SCIP_Retcode SCIP_RETCODE;
enum SCIP_Result { SCIP_DIDNOTRUN=1, SCIP_DELAYED=2, SCIP_DIDNOTFIND=3, SCIP_FEASIBLE=4, SCIP_INFEASIBLE=5, SCIP_UNBOUNDED=6,
  SCIP_CUTOFF=7, SCIP_SEPARATED=8, SCIP_NEWROUND=9, SCIP_REDUCEDDOM=10, SCIP_CONSADDED=11, SCIP_CONSCHANGED=12, SCIP_BRANCHED=13,
  SCIP_SOLVELP=14, SCIP_FOUNDSOL=15, SCIP_SUSPENDED=16, SCIP_SUCCESS=17 };
typedef enum SCIP_Result SCIP_RESULT;
enum SCIP_Status { SCIP_STATUS_UNKNOWN=0, SCIP_STATUS_USERINTERRUPT=1, SCIP_STATUS_NODELIMIT=2, SCIP_STATUS_TOTALNODELIMIT=3,
  SCIP_STATUS_STALLNODELIMIT=4, SCIP_STATUS_TIMELIMIT=5, SCIP_STATUS_MEMLIMIT=6, SCIP_STATUS_GAPLIMIT=7, SCIP_STATUS_SOLLIMIT=8,
  SCIP_STATUS_BESTSOLLIMIT=9, SCIP_STATUS_RESTARTLIMIT=10, SCIP_STATUS_OPTIMAL=11, SCIP_STATUS_INFEASIBLE=12, SCIP_STATUS_UNBOUNDED=13,
  SCIP_STATUS_INFORUNBD=14, SCIP_STATUS_TERMINATE=15 };
typedef enum SCIP_Status SCIP_STATUS;
enum SCIP_Varstatus { SCIP_VARSTATUS_ORIGINAL=0, SCIP_VARSTATUS_LOOSE=1, SCIP_VARSTATUS_COLUMN=2, SCIP_VARSTATUS_FIXED=3,
  SCIP_VARSTATUS_AGGREGATED=4, SCIP_VARSTATUS_MULTAGGR=5, SCIP_VARSTATUS_NEGATED=6 };
typedef enum SCIP_Varstatus SCIP_VARSTATUS;
enum SCIP_Vartype { SCIP_VARTYPE_BINARY=0, SCIP_VARTYPE_INTEGER=1, SCIP_VARTYPE_IMPLINT=2, SCIP_VARTYPE_CONTINUOUS=3 };
typedef enum SCIP_Vartype SCIP_VARTYPE;
enum SCIP_Objsense { SCIP_OBJSENSE_MAXIMIZE=-1, SCIP_OBJSENSE_MINIMIZE=1 };
typedef enum SCIP_Objsense SCIP_OBJSENSE;
enum SCIP_LPSolStat { SCIP_LPSOLSTAT_NOTSOLVED=0, SCIP_LPSOLSTAT_OPTIMAL=1, SCIP_LPSOLSTAT_INFEASIBLE=2, SCIP_LPSOLSTAT_UNBOUNDEDRAY=3,
  SCIP_LPSOLSTAT_OBJLIMIT=4, SCIP_LPSOLSTAT_ITERLIMIT=5, SCIP_LPSOLSTAT_TIMELIMIT=6, SCIP_LPSOLSTAT_ERROR=7 };
typedef enum SCIP_LPSolStat SCIP_LPSOLSTAT;
enum SCIP_LockType { SCIP_LOCKTYPE_MODEL=0, SCIP_LOCKTYPE_CONFLICT=1 };
typedef enum SCIP_LockType SCIP_LOCKTYPE;
typedef unsigned int SCIP_PROPTIMING;
typedef unsigned int SCIP_PRESOLTIMING;
typedef unsigned long long SCIP_EVENTTYPE;
#define SCIP_PROPTIMING_BEFORELP 0x001u
#define SCIP_PRESOLTIMING_FAST 0x002u
#define SCIP_EVENTTYPE_NODEFOCUSED 0x20000ull
#define SCIP_EVENTTYPE_NODEFEASIBLE 0x40000ull
#define SCIP_EVENTTYPE_NODEINFEASIBLE 0x80000ull
#define SCIP_EVENTTYPE_NODEBRANCHED 0x100000ull
#define SCIP_EVENTTYPE_NODEEVENT (SCIP_EVENTTYPE_NODEFOCUSED|SCIP_EVENTTYPE_NODEFEASIBLE|SCIP_EVENTTYPE_NODEINFEASIBLE|SCIP_EVENTTYPE_NODEBRANCHED)
#define SCIP_EVENTTYPE_NODESOLVED (SCIP_EVENTTYPE_NODEFEASIBLE|SCIP_EVENTTYPE_NODEINFEASIBLE|SCIP_EVENTTYPE_NODEBRANCHED)
#define SCIP_EVENTTYPE_DISABLED 0x0ull
#define SCIP_EVENTTYPE_FIRSTLPSOLVED 0x400000ull
#define SCIP_EVENTTYPE_LPSOLVED 0x800000ull
#define SCIP_EVENTTYPE_LPEVENT (SCIP_EVENTTYPE_FIRSTLPSOLVED|SCIP_EVENTTYPE_LPSOLVED)
#define SCIP_EVENTTYPE_POORSOLFOUND 0x1000000ull
#define SCIP_EVENTTYPE_BESTSOLFOUND 0x2000000ull
#define SCIP_EVENTTYPE_SOLFOUND (SCIP_EVENTTYPE_POORSOLFOUND|SCIP_EVENTTYPE_BESTSOLFOUND)
#define SCIP_EVENTTYPE_SOLEVENT SCIP_EVENTTYPE_SOLFOUND
#define SCIP_PROPTIMING_DURINGLPLOOP 0x002u
#define SCIP_PROPTIMING_AFTERLPLOOP 0x004u
#define SCIP_PROPTIMING_AFTERLPNODE 0x008u
#define SCIP_PROPTIMING_ALWAYS 0x00fu
#define SCIP_PRESOLTIMING_NONE 0x000u
#define SCIP_PRESOLTIMING_MEDIUM 0x004u
#define SCIP_PRESOLTIMING_EXHAUSTIVE 0x008u
#define SCIP_PRESOLTIMING_FINAL 0x010u
#define SCIP_PRESOLTIMING_ALWAYS 0x01eu

struct SCIP_ConsData;
typedef struct SCIP_ConsData SCIP_CONSDATA;
struct SCIP_ProbData;
typedef struct SCIP_ProbData SCIP_PROBDATA;
struct SCIP_VarData; typedef struct SCIP_VarData SCIP_VARDATA;
struct SCIP_EventData; typedef struct SCIP_EventData SCIP_EVENTDATA;
struct SCIP_BranchruleData; typedef struct SCIP_BranchruleData SCIP_BRANCHRULEDATA;
struct SCIP_Heur; typedef struct SCIP_Heur SCIP_HEUR;
struct SCIP_Event; typedef struct SCIP_Event SCIP_EVENT;
struct SCIP_Messagehdlr { int refs; }; typedef struct SCIP_Messagehdlr SCIP_MESSAGEHDLR;
struct Scip; typedef struct Scip SCIP;

struct SCIP_Var {
  std::string name; double lb=0, ub=1, obj=0; SCIP_VARTYPE type=SCIP_VARTYPE_BINARY; SCIP_VARSTATUS status=SCIP_VARSTATUS_ORIGINAL;
  int idx=-1; bool added=false; SCIP_Var* trans=nullptr; SCIP_Var* orig=nullptr; int uses=1; bool initial=true, removable=false;
};
typedef struct SCIP_Var SCIP_VAR;
struct SCIP_Conshdlr;
typedef struct SCIP_Conshdlr SCIP_CONSHDLR;
struct SCIP_Cons {
  std::string name; std::string kind; std::vector<SCIP_VAR*> vars; std::vector<double> vals; double lhs=0, rhs=0; SCIP_CONSHDLR* hdlr=nullptr;
  SCIP_Bool initial=1,separate=1,enforce=1,check=1,propagate=1,local=0,modifiable=0,dynamic=0,removable=0,stickingatnode=0; bool added=false; int uses=1;
};
typedef struct SCIP_Cons SCIP_CONS;
struct SCIP_Row { std::string name; std::vector<SCIP_VAR*> vars; std::vector<double> vals; double lhs=0, rhs=0; bool local=false, modifiable=false, removable=false, added=false; int uses=1; SCIP_CONSHDLR* hdlr=nullptr; };
typedef struct SCIP_Row SCIP_ROW;
struct SCIP_Sol { std::vector<double> vals; SCIP_HEUR* heur=nullptr; };
typedef struct SCIP_Sol SCIP_SOL;
struct SCIP_Node { long long number=1; SCIP_Node* parent=nullptr; double lowerbound=0; };
typedef struct SCIP_Node SCIP_NODE;
struct SCIP_Event { unsigned long long type; SCIP_NODE* node; SCIP_SOL* sol; };
struct SCIP_Branchrule { std::string name; int priority=0; int maxdepth=-1; };
typedef struct SCIP_Branchrule SCIP_BRANCHRULE;
namespace scip { class ObjConshdlr; class ObjEventhdlr; class ObjProbData; }
struct SCIP_Conshdlr { std::string name; scip::ObjConshdlr* obj=nullptr; };
struct SCIP_Eventhdlr { std::string name; scip::ObjEventhdlr* obj=nullptr; unsigned long long caught=0; };
typedef struct SCIP_Eventhdlr SCIP_EVENTHDLR;

struct Scip {
  std::string probname; std::vector<SCIP_VAR*> vars; std::vector<SCIP_VAR*> allvars; std::vector<SCIP_VAR*> transvars;
  std::vector<SCIP_CONS*> conss; std::vector<SCIP_ROW*> rows; std::vector<SCIP_SOL*> sols; std::vector<SCIP_CONSHDLR*> conshdlrs; std::vector<SCIP_EVENTHDLR*> eventhdlrs;
  std::vector<SCIP_BRANCHRULE*> rules; std::vector<SCIP_BRANCHRULE*> ruleptrs; std::vector<std::string> plugins; bool defaultplugins=false;
  std::map<std::string,double> params; scip::ObjProbData* probdata=nullptr; SCIP_OBJSENSE sense=SCIP_OBJSENSE_MINIMIZE;
  SCIP_NODE* node=nullptr; std::vector<double> lpvals; SCIP_STATUS status=SCIP_STATUS_UNKNOWN; bool transformed=false;
  double primalbound=1e20, lowerbound=-1e20, upperbound=1e20, lpobj=0, gap=0; bool gapset=false; SCIP_LPSOLSTAT lpstat=SCIP_LPSOLSTAT_OPTIMAL; long long nnodes=0;
  int branchlps=0; bool cutsAlwaysEfficacious=false; bool addRowInfeasible=false; int rowsOffered=0; void (*solvehook)(SCIP*)=nullptr; SCIP_SOL* best=nullptr; int nreleased=0; int freed=0; long long solves=0;
};

#define SCIP_CALL(x) do { SCIP_RETCODE _restat_; if ((_restat_=(x))!=SCIP_OKAY) { return _restat_; } } while (false)
#define SCIPerrorMessage SCIPmessagePrintError
inline void SCIPmessagePrintError(const char*,...) {}
inline void SCIPinfoMessage(SCIP*, FILE*, const char*,...) {}
#define BMScheckEmptyMemory() do {} while (0)
#define SCIP_DECL_CONSCHECK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_SOL* sol, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool printreason, SCIP_Bool completely, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOPS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_Bool objinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* sourcecons, SCIP_CONS** targetcons)
#define SCIP_DECL_CONSLOCK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_LOCKTYPE locktype, int nlockspos, int nlocksneg)
#define SCIP_DECL_CONSPRINT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, FILE* file)
#define SCIP_DECL_CONSSEPALP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_RESULT* result)
#define SCIP_DECL_CONSSEPASOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_SOL* sol, SCIP_RESULT* result)
#define SCIP_DECL_EVENTFREE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTDELETE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA** eventdata)
#define SCIP_DECL_EVENTEXEC(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENT* event, SCIP_EVENTDATA* eventdata)
#define SCIP_DECL_VARDELORIG(x) SCIP_RETCODE x (SCIP*, SCIP_VAR*, SCIP_VARDATA**)

namespace scip {
class ObjProbData { public: virtual ~ObjProbData(){} };
class ObjConshdlr {
public:
  SCIP* scip_; std::string scip_name_, scip_desc_; int scip_sepapriority_, scip_enfopriority_, scip_checkpriority_, scip_sepafreq_, scip_propfreq_, scip_eagerfreq_, scip_maxprerounds_;
  SCIP_Bool scip_delaysepa_, scip_delayprop_, scip_needscons_; SCIP_PROPTIMING scip_proptiming_; SCIP_PRESOLTIMING scip_presoltiming_;
  ObjConshdlr(SCIP* s,const char*name,const char*desc,int sepa,int enfo,int check,int sepafreq,int propfreq,int eager,int maxpre,SCIP_Bool dsepa,SCIP_Bool dprop,SCIP_Bool needs,SCIP_PROPTIMING pt,SCIP_PRESOLTIMING prt)
   :scip_(s),scip_name_(name),scip_desc_(desc),scip_sepapriority_(sepa),scip_enfopriority_(enfo),scip_checkpriority_(check),scip_sepafreq_(sepafreq),scip_propfreq_(propfreq),scip_eagerfreq_(eager),scip_maxprerounds_(maxpre),
    scip_delaysepa_(dsepa),scip_delayprop_(dprop),scip_needscons_(needs),scip_proptiming_(pt),scip_presoltiming_(prt){}
  virtual ~ObjConshdlr(){}
  virtual SCIP_DECL_CONSTRANS(scip_trans)=0;
  virtual SCIP_DECL_CONSSEPALP(scip_sepalp){ *result=SCIP_DIDNOTRUN; return SCIP_OKAY; }
  virtual SCIP_DECL_CONSSEPASOL(scip_sepasol){ *result=SCIP_DIDNOTRUN; return SCIP_OKAY; }
  virtual SCIP_DECL_CONSENFOLP(scip_enfolp)=0;
  virtual SCIP_DECL_CONSENFOPS(scip_enfops)=0;
  virtual SCIP_DECL_CONSCHECK(scip_check)=0;
  virtual SCIP_DECL_CONSLOCK(scip_lock)=0;
  virtual SCIP_DECL_CONSPRINT(scip_print){ return SCIP_OKAY; }
};
class ObjEventhdlr {
public:
  SCIP* scip_; std::string scip_name_, scip_desc_;
  ObjEventhdlr(SCIP*s,const char*n,const char*d):scip_(s),scip_name_(n),scip_desc_(d){}
  virtual ~ObjEventhdlr(){}
  virtual SCIP_DECL_EVENTFREE(scip_free){return SCIP_OKAY;}
  virtual SCIP_DECL_EVENTINIT(scip_init){return SCIP_OKAY;}
  virtual SCIP_DECL_EVENTEXIT(scip_exit){return SCIP_OKAY;}
  virtual SCIP_DECL_EVENTINITSOL(scip_initsol){return SCIP_OKAY;}
  virtual SCIP_DECL_EVENTEXITSOL(scip_exitsol){return SCIP_OKAY;}
  virtual SCIP_DECL_EVENTDELETE(scip_delete){return SCIP_OKAY;}
  virtual SCIP_DECL_EVENTEXEC(scip_exec)=0;
};
}

inline double SCIPinfinity(SCIP*) { return 1e20; }
inline double SCIPepsilon(SCIP*) { return 1e-9; }
inline SCIP_Bool SCIPisZero(SCIP*, double v) { return (v <= 1e-9) && (v >= -1e-9); }
inline double scip_model_floor(double v){ double t=(double)(long long)v; return t>v? t-1.0 : t; }
inline SCIP_Bool SCIPisIntegral(SCIP*, double v) { double u=v+1e-9; double t=scip_model_floor(u); return u-t<=2e-9; }
inline double SCIPcomputeGap(double eps,double inf,double primal,double dual) {
  double d=primal-dual; if(d<=eps && d>=-eps) return 0.0;
  if((dual<=eps&&dual>=-eps)||(primal<=eps&&primal>=-eps)||primal>=inf||primal<=-inf||dual>=inf||dual<=-inf||primal*dual<0) return inf;
  double ap=primal<0?-primal:primal, ad=dual<0?-dual:dual; double m=ap<ad?ap:ad; double g=d/m; return g<0?-g:g; }

inline void scip_model_rule(SCIP*s,const char*n,int prio){ SCIP_BRANCHRULE*r=new SCIP_BRANCHRULE; r->name=n; r->priority=prio; s->rules.push_back(r); }
inline SCIP_RETCODE SCIPcreate(SCIP** s) { *s=new Scip; (*s)->node=new SCIP_NODE; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPfree(SCIP** s) { (*s)->freed++; *s=nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPincludeBranchruleFullstrong(SCIP*s){ scip_model_rule(s,"fullstrong",0); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPincludeBranchruleRelpscost(SCIP*s){ scip_model_rule(s,"relpscost",10000); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPincludeBranchruleMostinf(SCIP*s){ scip_model_rule(s,"mostinf",100); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPincludeDefaultPlugins(SCIP*s) { s->defaultplugins=true;
  static const struct{const char*n;int p;} d[]={{"allfullstrong",-1000},{"cloud",0},{"distribution",0},{"fullstrong",0},{"inference",1000},{"leastinf",50},{"lookahead",0},{"mostinf",100},{"multaggr",0},{"nodereopt",-9000000},{"pscost",2000},{"random",-100000},{"relpscost",10000},{"vanillafullstrong",-2000}};
  for(auto&x:d) scip_model_rule(s,x.n,x.p); return SCIP_OKAY; }
#define SCIP_MODEL_PLUGIN(f) inline SCIP_RETCODE f(SCIP*s){ s->plugins.push_back(#f); return SCIP_OKAY; }
SCIP_MODEL_PLUGIN(SCIPincludeConshdlrLinear) SCIP_MODEL_PLUGIN(SCIPincludeConshdlrIntegral) SCIP_MODEL_PLUGIN(SCIPincludeConshdlrKnapsack) SCIP_MODEL_PLUGIN(SCIPincludeConshdlrVarbound)
SCIP_MODEL_PLUGIN(SCIPincludeNodeselBreadthfirst) SCIP_MODEL_PLUGIN(SCIPincludeNodeselDfs) SCIP_MODEL_PLUGIN(SCIPincludeNodeselEstimate) SCIP_MODEL_PLUGIN(SCIPincludeSepaGomory) SCIP_MODEL_PLUGIN(SCIPincludeHeurFeaspump) SCIP_MODEL_PLUGIN(SCIPincludeHeurDps)
inline SCIP_RETCODE SCIPcreateProbBasic(SCIP*s,const char*n){ s->probname=n; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateObjProb(SCIP*s,const char*n,scip::ObjProbData*p,SCIP_Bool){ s->probname=n; s->probdata=p; return SCIP_OKAY; }
inline scip::ObjProbData* SCIPgetObjProbData(SCIP*s){ return s->probdata; }
inline SCIP_RETCODE SCIPsetObjsense(SCIP*s,SCIP_OBJSENSE o){ s->sense=o; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateVar(SCIP*s,SCIP_VAR**v,const char*name,double lb,double ub,double obj,SCIP_VARTYPE t,SCIP_Bool initial,SCIP_Bool removable,void*,void*,void*,void*,SCIP_VARDATA*) {
  SCIP_VAR*x=new SCIP_VAR; x->idx=(int)s->allvars.size(); x->name=name?std::string(name):std::string("x")+std::to_string(x->idx); x->lb=lb;x->ub=ub;x->obj=obj;x->type=t; x->initial=initial; x->removable=removable; s->allvars.push_back(x); *v=x; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateVarBasic(SCIP*s,SCIP_VAR**v,const char*name,double lb,double ub,double obj,SCIP_VARTYPE t){ return SCIPcreateVar(s,v,name,lb,ub,obj,t,TRUE,FALSE,0,0,0,0,0); }
inline SCIP_RETCODE SCIPaddVar(SCIP*s,SCIP_VAR*v){ v->added=true; s->vars.push_back(v); v->uses++; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPreleaseVar(SCIP*s,SCIP_VAR**v){ (*v)->uses--; s->nreleased++; *v=nullptr; return SCIP_OKAY; }
inline void scip_model_transform(SCIP*s){ if(s->transformed) return; s->transformed=true; for(SCIP_VAR*v:s->vars){ SCIP_VAR*t=new SCIP_VAR(*v); t->name="t_"+v->name; t->status=SCIP_VARSTATUS_COLUMN; t->orig=v; v->trans=t; s->transvars.push_back(t);} }
inline SCIP_VAR** SCIPgetVars(SCIP*s){ return s->transformed? s->transvars.data() : s->vars.data(); }
inline int SCIPgetNVars(SCIP*s){ return (int)s->vars.size(); }
inline int SCIPgetNConss(SCIP*s){ return (int)s->conss.size(); }
inline const char* SCIPvarGetName(SCIP_VAR*v){ return v->name.c_str(); }
inline SCIP_VARSTATUS SCIPvarGetStatus(SCIP_VAR*v){ return v->status; }
inline SCIP_RETCODE SCIPgetTransformedVar(SCIP*,SCIP_VAR*v,SCIP_VAR**t){ *t= v->orig? v : v->trans; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPgetTransformedVars(SCIP*s,int n,SCIP_VAR**v,SCIP_VAR**t){ for(int i=0;i<n;i++) SCIPgetTransformedVar(s,v[i],&t[i]); return SCIP_OKAY; }
inline SCIP_CONS* scip_model_cons(const char*name,const char*kind){ SCIP_CONS*c=new SCIP_CONS; c->name=name; c->kind=kind; return c; }
inline SCIP_RETCODE SCIPcreateCons(SCIP*,SCIP_CONS**c,const char*name,SCIP_CONSHDLR*h,SCIP_CONSDATA*,SCIP_Bool initial,SCIP_Bool separate,SCIP_Bool enforce,SCIP_Bool check,SCIP_Bool propagate,SCIP_Bool local,SCIP_Bool modifiable,SCIP_Bool dynamic,SCIP_Bool removable,SCIP_Bool sticking){
  SCIP_CONS*x=scip_model_cons(name,"custom"); x->hdlr=h; x->initial=initial;x->separate=separate;x->enforce=enforce;x->check=check;x->propagate=propagate;x->local=local;x->modifiable=modifiable;x->dynamic=dynamic;x->removable=removable;x->stickingatnode=sticking; *c=x; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateConsLinear(SCIP*,SCIP_CONS**c,const char*name,int n,SCIP_VAR**vars,double*vals,double lhs,double rhs,SCIP_Bool initial,SCIP_Bool separate,SCIP_Bool enforce,SCIP_Bool check,SCIP_Bool propagate,SCIP_Bool local,SCIP_Bool modifiable,SCIP_Bool dynamic,SCIP_Bool removable,SCIP_Bool sticking){
  SCIP_CONS*x=scip_model_cons(name,"linear"); for(int i=0;i<n;i++){x->vars.push_back(vars[i]);x->vals.push_back(vals[i]);} x->lhs=lhs;x->rhs=rhs; x->initial=initial;x->separate=separate;x->enforce=enforce;x->check=check;x->propagate=propagate;x->local=local;x->modifiable=modifiable;x->dynamic=dynamic;x->removable=removable;x->stickingatnode=sticking; *c=x; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateConsBasicLinear(SCIP*s,SCIP_CONS**c,const char*name,int n,SCIP_VAR**vars,double*vals,double lhs,double rhs){ return SCIPcreateConsLinear(s,c,name,n,vars,vals,lhs,rhs,1,1,1,1,1,0,0,0,0,0); }
inline SCIP_RETCODE SCIPcreateConsBasicKnapsack(SCIP*,SCIP_CONS**c,const char*name,int n,SCIP_VAR**vars,SCIP_Longint*w,SCIP_Longint cap){ SCIP_CONS*x=scip_model_cons(name,"knapsack"); for(int i=0;i<n;i++){x->vars.push_back(vars[i]);x->vals.push_back((double)w[i]);} x->lhs=-1e20; x->rhs=(double)cap; *c=x; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddCoefLinear(SCIP*,SCIP_CONS*c,SCIP_VAR*v,double x){ c->vars.push_back(v); c->vals.push_back(x); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddCons(SCIP*s,SCIP_CONS*c){ c->added=true; c->uses++; s->conss.push_back(c); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPreleaseCons(SCIP*,SCIP_CONS**c){ (*c)->uses--; *c=nullptr; return SCIP_OKAY; }
#define SCIP_MODEL_FLAG(F,f) inline SCIP_Bool SCIPconsIs##F(const SCIP_CONS*c){return c->f;}
SCIP_MODEL_FLAG(Initial,initial) SCIP_MODEL_FLAG(Separated,separate) SCIP_MODEL_FLAG(Enforced,enforce) SCIP_MODEL_FLAG(Checked,check) SCIP_MODEL_FLAG(Propagated,propagate) SCIP_MODEL_FLAG(Local,local) SCIP_MODEL_FLAG(Modifiable,modifiable) SCIP_MODEL_FLAG(Dynamic,dynamic) SCIP_MODEL_FLAG(Removable,removable) SCIP_MODEL_FLAG(StickingAtNode,stickingatnode)
inline const char* SCIPconsGetName(const SCIP_CONS*c){return c->name.c_str();}
inline double SCIPconsGetLhs(SCIP*,SCIP_CONS*c,SCIP_Bool*ok){*ok=TRUE;return c->lhs;}
inline double SCIPconsGetRhs(SCIP*,SCIP_CONS*c,SCIP_Bool*ok){*ok=TRUE;return c->rhs;}
inline SCIP_RETCODE SCIPgetConsNVars(SCIP*,SCIP_CONS*c,int*n,SCIP_Bool*ok){*n=(int)c->vars.size();*ok=TRUE;return SCIP_OKAY;}
inline SCIP_RETCODE SCIPgetConsVars(SCIP*,SCIP_CONS*c,SCIP_VAR**v,int n,SCIP_Bool*ok){for(int i=0;i<n&&i<(int)c->vars.size();i++)v[i]=c->vars[i];*ok=TRUE;return SCIP_OKAY;}
// solutions
inline SCIP_RETCODE SCIPcreateSol(SCIP*s,SCIP_SOL**x,SCIP_HEUR*h){ *x=new SCIP_SOL; (*x)->vals.assign(s->allvars.size(),0.0); (*x)->heur=h; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetSolVal(SCIP*,SCIP_SOL*x,SCIP_VAR*v,double d){ x->vals.at(v->idx)=d; return SCIP_OKAY; }
inline double SCIPgetSolVal(SCIP*s,SCIP_SOL*x,SCIP_VAR*v){ return x? x->vals.at(v->idx) : s->lpvals.at(v->idx); }
inline SCIP_RETCODE SCIPaddSolFree(SCIP*s,SCIP_SOL**x,SCIP_Bool*ok){ s->sols.push_back(*x); *x=nullptr; *ok=TRUE; return SCIP_OKAY; }
inline SCIP_SOL* SCIPgetBestSol(SCIP*s){ return s->best; }
inline int SCIPgetNSols(SCIP*s){ return s->best?1:0; }
inline SCIP_RETCODE SCIPsolve(SCIP*s){ s->solves++; if(s->solvehook) s->solvehook(s); return SCIP_OKAY; }
inline SCIP_STATUS SCIPgetStatus(SCIP*s){return s->status;}
inline double SCIPgetPrimalbound(SCIP*s){return s->primalbound;}
inline double SCIPgetLowerbound(SCIP*s){return s->lowerbound;}
inline double SCIPgetUpperbound(SCIP*s){return s->upperbound;}
inline double SCIPgetLPObjval(SCIP*s){return s->lpobj;}
inline SCIP_LPSOLSTAT SCIPgetLPSolstat(SCIP*s){return s->lpstat;}
inline SCIP_Longint SCIPgetNNodes(SCIP*s){return s->nnodes;}
// rows
inline SCIP_RETCODE SCIPcreateEmptyRowConshdlr(SCIP*,SCIP_ROW**r,SCIP_CONSHDLR*h,const char*name,double lhs,double rhs,SCIP_Bool local,SCIP_Bool modifiable,SCIP_Bool removable){ SCIP_ROW*x=new SCIP_ROW; x->hdlr=h; x->name=name;x->lhs=lhs;x->rhs=rhs;x->local=local;x->modifiable=modifiable;x->removable=removable;*r=x;return SCIP_OKAY;}
inline SCIP_RETCODE SCIPcacheRowExtensions(SCIP*,SCIP_ROW*){return SCIP_OKAY;}
inline SCIP_RETCODE SCIPflushRowExtensions(SCIP*,SCIP_ROW*){return SCIP_OKAY;}
inline SCIP_RETCODE SCIPaddVarToRow(SCIP*,SCIP_ROW*r,SCIP_VAR*v,double x){r->vars.push_back(v);r->vals.push_back(x);return SCIP_OKAY;}
inline double scip_model_activity(SCIP*s,SCIP_SOL*sol,std::vector<SCIP_VAR*>&vars,std::vector<double>&vals){ double a=0; for(size_t i=0;i<vars.size();i++) a=a+vals[i]*SCIPgetSolVal(s,sol,vars[i]); return a; }
inline SCIP_Bool SCIPisCutEfficacious(SCIP*s,SCIP_SOL*sol,SCIP_ROW*r){ s->rowsOffered++; if(s->cutsAlwaysEfficacious) return TRUE; double a=scip_model_activity(s,sol,r->vars,r->vals); return a>r->rhs+1e-6 || a<r->lhs-1e-6; }
inline SCIP_RETCODE SCIPaddRow(SCIP*s,SCIP_ROW*r,SCIP_Bool,SCIP_Bool*inf){ r->added=true; r->uses++; s->rows.push_back(r); *inf=s->addRowInfeasible; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPreleaseRow(SCIP*,SCIP_ROW**r){ (*r)->uses--; *r=nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPbranchLP(SCIP*s,SCIP_RESULT*r){ s->branchlps++; *r=SCIP_BRANCHED; return SCIP_OKAY; }
// tree
inline SCIP_NODE* SCIPgetCurrentNode(SCIP*s){return s->node;}
inline SCIP_Longint SCIPnodeGetNumber(SCIP_NODE*n){return n->number;}
inline SCIP_NODE* SCIPnodeGetParent(SCIP_NODE*n){return n->parent;}
inline double SCIPnodeGetLowerbound(SCIP_NODE*n){return n->lowerbound;}
inline SCIP_RETCODE SCIPgetChildren(SCIP*,SCIP_NODE***c,int*n){ if(c)*c=nullptr; if(n)*n=0; return SCIP_OKAY; }
// plugins
inline SCIP_RETCODE SCIPincludeObjConshdlr(SCIP*s,scip::ObjConshdlr*o,SCIP_Bool){ SCIP_CONSHDLR*h=new SCIP_CONSHDLR; h->name=o->scip_name_; h->obj=o; s->conshdlrs.push_back(h); return SCIP_OKAY; }
inline SCIP_CONSHDLR* SCIPfindConshdlr(SCIP*s,const char*n){ for(auto h:s->conshdlrs) if(h->name==n) return h; return nullptr; }
inline scip::ObjConshdlr* SCIPfindObjConshdlr(SCIP*s,const char*n){ SCIP_CONSHDLR*h=SCIPfindConshdlr(s,n); return h?h->obj:nullptr; }
inline SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP*s,scip::ObjEventhdlr*o,SCIP_Bool){ SCIP_EVENTHDLR*h=new SCIP_EVENTHDLR; h->name=o->scip_name_; h->obj=o; s->eventhdlrs.push_back(h); return SCIP_OKAY; }
inline SCIP_EVENTHDLR* SCIPfindEventhdlr(SCIP*s,const char*n){ for(auto h:s->eventhdlrs) if(h->name==n) return h; return nullptr; }
inline scip::ObjEventhdlr* SCIPfindObjEventhdlr(SCIP*s,const char*n){ SCIP_EVENTHDLR*h=SCIPfindEventhdlr(s,n); return h?h->obj:nullptr; }
inline SCIP_RETCODE SCIPcatchEvent(SCIP*,SCIP_EVENTTYPE t,SCIP_EVENTHDLR*h,SCIP_EVENTDATA*,int*){ h->caught|=t; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPdropEvent(SCIP*,SCIP_EVENTTYPE t,SCIP_EVENTHDLR*h,SCIP_EVENTDATA*,int){ h->caught&=~t; return SCIP_OKAY; }
inline void scip_model_initsol(SCIP*s){ scip_model_transform(s); for(auto h:s->eventhdlrs) h->obj->scip_initsol(s,h); }
inline void scip_model_exitsol(SCIP*s){ for(auto h:s->eventhdlrs) h->obj->scip_exitsol(s,h); }
inline void scip_model_fire(SCIP*s,unsigned long long t){ SCIP_Event e{t,s->node,s->best}; for(auto h:s->eventhdlrs) if(h->caught&t) h->obj->scip_exec(s,h,&e,nullptr); }
inline SCIP_BRANCHRULE* SCIPfindBranchrule(SCIP*s,const char*n){ for(auto r:s->rules) if(r->name==n) return r; return nullptr; }
// SCIP sorts the rules by priority on access, as the real SCIPgetBranchrules does
inline SCIP_BRANCHRULE** SCIPgetBranchrules(SCIP*s){ auto&v=s->rules; for(size_t i=1;i<v.size();i++) for(size_t j=i;j>0&&v[j]->priority>v[j-1]->priority;j--) { auto t=v[j]; v[j]=v[j-1]; v[j-1]=t; } return v.data(); }
inline int SCIPgetNBranchrules(SCIP*s){ return (int)s->rules.size(); }
inline const char* SCIPbranchruleGetName(SCIP_BRANCHRULE*r){return r->name.c_str();}
inline int SCIPbranchruleGetPriority(SCIP_BRANCHRULE*r){return r->priority;}
inline int SCIPbranchruleGetMaxdepth(SCIP_BRANCHRULE*r){return r->maxdepth;}
inline SCIP_BRANCHRULEDATA* SCIPbranchruleGetData(SCIP_BRANCHRULE*){return nullptr;}
inline SCIP_RETCODE SCIPsetBranchrulePriority(SCIP*,SCIP_BRANCHRULE*r,int p){ r->priority=p; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetBranchruleMaxdepth(SCIP*,SCIP_BRANCHRULE*r,int d){ r->maxdepth=d; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetIntParam(SCIP*s,const char*n,int v){ s->params[n]=v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetRealParam(SCIP*s,const char*n,double v){ s->params[n]=v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetBoolParam(SCIP*s,const char*n,SCIP_Bool v){ s->params[n]=v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateMessagehdlrDefault(SCIP_MESSAGEHDLR**h,SCIP_Bool,const char*,SCIP_Bool){ *h=new SCIP_MESSAGEHDLR; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetMessagehdlr(SCIP*,SCIP_MESSAGEHDLR*){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPmessagehdlrRelease(SCIP_MESSAGEHDLR**h){ *h=nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintStatistics(SCIP*,FILE*){ return SCIP_OKAY; }
#include "scip/scip_more.h"
#endif
