// Further parts of the SCIP API, so that changed sources still build: same conventions as scip_model.h.
#ifndef SCIP_MORE_H
#define SCIP_MORE_H
#define SCIP_DEFAULT_EPSILON 1e-09
#define SCIP_DEFAULT_FEASTOL 1e-06
#define SCIP_DEFAULT_INFINITY 1e+20
#define SCIP_INVALID 1e99
#define SCIP_MAXSTRLEN 1024
#define SCIP_REAL_MAX 1.7976931348623157e308
#define SCIP_LONGINT_FORMAT "lld"
inline double SCIPfeastol(SCIP*){ return 1e-6; }
inline double SCIPsumepsilon(SCIP*){ return 1e-6; }
#define SCIP_MODEL_CMP(P,E) \
inline SCIP_Bool SCIPis##P##EQ(SCIP*,double a,double b){ double d=a-b; return d<=E&&d>=-E; } \
inline SCIP_Bool SCIPis##P##LT(SCIP*,double a,double b){ return a-b<-E; } \
inline SCIP_Bool SCIPis##P##LE(SCIP*,double a,double b){ return a-b<=E; } \
inline SCIP_Bool SCIPis##P##GT(SCIP*,double a,double b){ return a-b>E; } \
inline SCIP_Bool SCIPis##P##GE(SCIP*,double a,double b){ return a-b>=-E; } \
inline SCIP_Bool SCIPis##P##Positive(SCIP*,double a){ return a>E; } \
inline SCIP_Bool SCIPis##P##Negative(SCIP*,double a){ return a<-E; }
SCIP_MODEL_CMP(,1e-9) SCIP_MODEL_CMP(Feas,1e-6) SCIP_MODEL_CMP(Sum,1e-6)
inline SCIP_Bool SCIPisFeasZero(SCIP*,double v){ return v<=1e-6&&v>=-1e-6; }
inline SCIP_Bool SCIPisSumZero(SCIP*,double v){ return v<=1e-6&&v>=-1e-6; }
inline SCIP_Bool SCIPisFeasIntegral(SCIP*,double v){ double u=v+1e-6; double t=scip_model_floor(u); return u-t<=2e-6; }
inline SCIP_Bool SCIPisInfinity(SCIP*,double v){ return v>=1e20; }
inline SCIP_Bool SCIPisEfficacious(SCIP*,double e){ return e>1e-6; }
inline double SCIPfloor(SCIP*,double v){ return scip_model_floor(v+1e-9); }
inline double SCIPceil(SCIP*,double v){ return -scip_model_floor(-v+1e-9); }
inline double SCIPround(SCIP*,double v){ return scip_model_floor(v+0.5); }
inline double SCIPfrac(SCIP*,double v){ return v-scip_model_floor(v); }
inline double SCIPfeasFloor(SCIP*,double v){ return scip_model_floor(v+1e-6); }
inline double SCIPfeasCeil(SCIP*,double v){ return -scip_model_floor(-v+1e-6); }
inline double SCIPfeasRound(SCIP*,double v){ return scip_model_floor(v+0.5); }
inline double SCIPfeasFrac(SCIP*,double v){ return v-scip_model_floor(v+1e-6); }
// variables
inline SCIP_VAR** SCIPgetOrigVars(SCIP*s){ return s->vars.data(); }
inline int SCIPgetNOrigVars(SCIP*s){ return (int)s->vars.size(); }
inline int SCIPgetNBinVars(SCIP*s){ return (int)s->vars.size(); }
inline int SCIPgetNTotalVars(SCIP*s){ return (int)s->vars.size(); }
inline SCIP_RETCODE SCIPcaptureVar(SCIP*,SCIP_VAR*v){ v->uses++; return SCIP_OKAY; }
inline double SCIPvarGetObj(SCIP_VAR*v){ return v->obj; }
inline double SCIPvarGetLbLocal(SCIP_VAR*v){ return v->lb; }
inline double SCIPvarGetUbLocal(SCIP_VAR*v){ return v->ub; }
inline double SCIPvarGetLbGlobal(SCIP_VAR*v){ return v->lb; }
inline double SCIPvarGetUbGlobal(SCIP_VAR*v){ return v->ub; }
inline double SCIPvarGetLbOriginal(SCIP_VAR*v){ return v->lb; }
inline double SCIPvarGetUbOriginal(SCIP_VAR*v){ return v->ub; }
inline SCIP_VARTYPE SCIPvarGetType(SCIP_VAR*v){ return v->type; }
inline SCIP_Bool SCIPvarIsBinary(SCIP_VAR*v){ return v->type==SCIP_VARTYPE_BINARY; }
inline SCIP_Bool SCIPvarIsIntegral(SCIP_VAR*v){ return v->type!=SCIP_VARTYPE_CONTINUOUS; }
inline SCIP_Bool SCIPvarIsOriginal(SCIP_VAR*v){ return v->orig==nullptr; }
inline SCIP_Bool SCIPvarIsTransformed(SCIP_VAR*v){ return v->orig!=nullptr; }
inline int SCIPvarGetIndex(SCIP_VAR*v){ return v->idx; }
inline int SCIPvarGetProbindex(SCIP_VAR*v){ return v->idx; }
inline SCIP_RETCODE SCIPtransformVar(SCIP*,SCIP_VAR*v,SCIP_VAR**t){ *t= v->orig? v : v->trans; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPchgVarLb(SCIP*,SCIP_VAR*v,double b){ v->lb=b; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPchgVarUb(SCIP*,SCIP_VAR*v,double b){ v->ub=b; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPchgVarObj(SCIP*,SCIP_VAR*v,double b){ v->obj=b; return SCIP_OKAY; }
inline double SCIPgetVarSol(SCIP*s,SCIP_VAR*v){ return s->lpvals.at(v->idx); }
inline double SCIPvarGetLPSol(SCIP_VAR*){ return 0; }
// constraints
inline SCIP_CONS** SCIPgetConss(SCIP*s){ return s->conss.data(); }
inline int SCIPgetNOrigConss(SCIP*s){ return (int)s->conss.size(); }
inline SCIP_RETCODE SCIPaddConsLocal(SCIP*s,SCIP_CONS*c,SCIP_NODE*){ c->local=1; return SCIPaddCons(s,c); }
inline SCIP_RETCODE SCIPaddConsNode(SCIP*s,SCIP_NODE*,SCIP_CONS*c,SCIP_NODE*){ c->local=1; return SCIPaddCons(s,c); }
inline SCIP_RETCODE SCIPcaptureCons(SCIP*,SCIP_CONS*c){ c->uses++; return SCIP_OKAY; }
inline SCIP_CONSHDLR* SCIPconsGetHdlr(SCIP_CONS*c){ return c->hdlr; }
inline SCIP_RETCODE SCIPgetConsVals(SCIP*,SCIP_CONS*c,double*v,int n,SCIP_Bool*ok){ for(int i=0;i<n&&i<(int)c->vals.size();i++) v[i]=c->vals[i]; *ok=TRUE; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateConsBasicSetpack(SCIP*s,SCIP_CONS**c,const char*name,int n,SCIP_VAR**v){ std::vector<double> o(n,1.0); return SCIPcreateConsBasicLinear(s,c,name,n,v,o.data(),-1e20,1.0); }
inline SCIP_RETCODE SCIPcreateConsBasicSetpart(SCIP*s,SCIP_CONS**c,const char*name,int n,SCIP_VAR**v){ std::vector<double> o(n,1.0); return SCIPcreateConsBasicLinear(s,c,name,n,v,o.data(),1.0,1.0); }
inline SCIP_RETCODE SCIPcreateConsBasicSetcover(SCIP*s,SCIP_CONS**c,const char*name,int n,SCIP_VAR**v){ std::vector<double> o(n,1.0); return SCIPcreateConsBasicLinear(s,c,name,n,v,o.data(),1.0,1e20); }
inline SCIP_RETCODE SCIPchgRhsLinear(SCIP*,SCIP_CONS*c,double r){ c->rhs=r; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPchgLhsLinear(SCIP*,SCIP_CONS*c,double r){ c->lhs=r; return SCIP_OKAY; }
// handlers and events
inline const char* SCIPconshdlrGetName(SCIP_CONSHDLR*h){ return h->name.c_str(); }
inline const char* SCIPeventhdlrGetName(SCIP_EVENTHDLR*h){ return h->name.c_str(); }
inline unsigned long long SCIPeventGetType(SCIP_EVENT*e){ return e->type; }
inline SCIP_NODE* SCIPeventGetNode(SCIP_EVENT*e){ return e->node; }
inline SCIP_SOL* SCIPeventGetSol(SCIP_EVENT*e){ return e->sol; }
inline scip::ObjConshdlr* SCIPgetObjConshdlr(SCIP*,SCIP_CONSHDLR*h){ return h->obj; }
inline scip::ObjEventhdlr* SCIPgetObjEventhdlr(SCIP*,SCIP_EVENTHDLR*h){ return h->obj; }
// solutions
inline SCIP_SOL** SCIPgetSols(SCIP*s){ return &s->best; }
inline SCIP_RETCODE SCIPcreateOrigSol(SCIP*s,SCIP_SOL**x,SCIP_HEUR*h){ return SCIPcreateSol(s,x,h); }
inline SCIP_RETCODE SCIPcreatePartialSol(SCIP*s,SCIP_SOL**x,SCIP_HEUR*h){ return SCIPcreateSol(s,x,h); }
inline SCIP_RETCODE SCIPsetSolVals(SCIP*s,SCIP_SOL*x,int n,SCIP_VAR**v,double*d){ for(int i=0;i<n;i++) SCIPsetSolVal(s,x,v[i],d[i]); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPgetSolVals(SCIP*s,SCIP_SOL*x,int n,SCIP_VAR**v,double*d){ for(int i=0;i<n;i++) d[i]=SCIPgetSolVal(s,x,v[i]); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPfreeSol(SCIP*,SCIP_SOL**x){ *x=nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddSol(SCIP*s,SCIP_SOL*x,SCIP_Bool*ok){ s->sols.push_back(new SCIP_SOL(*x)); *ok=TRUE; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPtrySol(SCIP*s,SCIP_SOL*x,SCIP_Bool,SCIP_Bool,SCIP_Bool,SCIP_Bool,SCIP_Bool,SCIP_Bool*ok){ return SCIPaddSol(s,x,ok); }
inline SCIP_RETCODE SCIPtrySolFree(SCIP*s,SCIP_SOL**x,SCIP_Bool,SCIP_Bool,SCIP_Bool,SCIP_Bool,SCIP_Bool,SCIP_Bool*ok){ return SCIPaddSolFree(s,x,ok); }
inline double SCIPgetSolOrigObj(SCIP*s,SCIP_SOL*x){ double o=0; for(auto v:s->vars) o=o+v->obj*SCIPgetSolVal(s,x,v); return o; }
inline double SCIPgetSolTransObj(SCIP*s,SCIP_SOL*x){ return SCIPgetSolOrigObj(s,x); }
// bounds, tree, statistics
inline double SCIPgetDualbound(SCIP*s){ return s->lowerbound; }
inline double SCIPgetCutoffbound(SCIP*s){ return s->upperbound; }
inline double SCIPgetGap(SCIP*s){ return SCIPcomputeGap(1e-9,1e20,s->primalbound,s->lowerbound); }
inline SCIP_NODE* SCIPgetFocusNode(SCIP*s){ return s->node; }
inline int SCIPnodeGetDepth(SCIP_NODE*n){ int d=0; while(n->parent){ n=n->parent; d++; } return d; }
inline int SCIPgetDepth(SCIP*s){ return s->node?SCIPnodeGetDepth(s->node):-1; }
inline int SCIPgetFocusDepth(SCIP*s){ return SCIPgetDepth(s); }
inline SCIP_NODE* SCIPgetRootNode(SCIP*s){ SCIP_NODE*n=s->node; while(n&&n->parent) n=n->parent; return n; }
inline SCIP_Longint SCIPgetNTotalNodes(SCIP*s){ return s->nnodes; }
inline double SCIPgetLocalLowerbound(SCIP*s){ return s->node?s->node->lowerbound:-1e20; }
inline double SCIPgetLocalDualbound(SCIP*s){ return SCIPgetLocalLowerbound(s); }
inline double SCIPgetSolvingTime(SCIP*){ return 0; }
inline SCIP_RETCODE SCIPinterruptSolve(SCIP*){ return SCIP_OKAY; }
inline const char* SCIPgetProbName(SCIP*s){ return s->probname.c_str(); }
inline SCIP_OBJSENSE SCIPgetObjsense(SCIP*s){ return s->sense; }
inline SCIP_RETCODE SCIPtransformProb(SCIP*s){ scip_model_transform(s); return SCIP_OKAY; }
inline SCIP_Bool SCIPisTransformed(SCIP*s){ return s->transformed; }
inline SCIP_RETCODE SCIPfreeTransform(SCIP*){ return SCIP_OKAY; }
// rows
inline SCIP_RETCODE SCIPcreateRowConshdlr(SCIP*s,SCIP_ROW**r,SCIP_CONSHDLR*h,const char*name,int,void*,double*,double lhs,double rhs,SCIP_Bool local,SCIP_Bool modifiable,SCIP_Bool removable){ return SCIPcreateEmptyRowConshdlr(s,r,h,name,lhs,rhs,local,modifiable,removable); }
inline SCIP_RETCODE SCIPcreateEmptyRowCons(SCIP*s,SCIP_ROW**r,SCIP_CONS*c,const char*name,double lhs,double rhs,SCIP_Bool local,SCIP_Bool modifiable,SCIP_Bool removable){ return SCIPcreateEmptyRowConshdlr(s,r,c->hdlr,name,lhs,rhs,local,modifiable,removable); }
inline SCIP_RETCODE SCIPcreateEmptyRowUnspec(SCIP*s,SCIP_ROW**r,const char*name,double lhs,double rhs,SCIP_Bool local,SCIP_Bool modifiable,SCIP_Bool removable){ return SCIPcreateEmptyRowConshdlr(s,r,nullptr,name,lhs,rhs,local,modifiable,removable); }
inline SCIP_RETCODE SCIPaddVarsToRow(SCIP*s,SCIP_ROW*r,int n,SCIP_VAR**v,double*d){ for(int i=0;i<n;i++) SCIPaddVarToRow(s,r,v[i],d[i]); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddVarsToRowSameCoef(SCIP*s,SCIP_ROW*r,int n,SCIP_VAR**v,double d){ for(int i=0;i<n;i++) SCIPaddVarToRow(s,r,v[i],d); return SCIP_OKAY; }
inline double SCIPgetRowSolActivity(SCIP*s,SCIP_ROW*r,SCIP_SOL*x){ return scip_model_activity(s,x,r->vars,r->vals); }
inline double SCIPgetCutEfficacy(SCIP*s,SCIP_SOL*x,SCIP_ROW*r){ double a=scip_model_activity(s,x,r->vars,r->vals); double u=a-r->rhs,l=r->lhs-a; return u>l?u:l; }
inline double SCIProwGetLhs(SCIP_ROW*r){ return r->lhs; }
inline double SCIProwGetRhs(SCIP_ROW*r){ return r->rhs; }
inline const char* SCIProwGetName(SCIP_ROW*r){ return r->name.c_str(); }
inline SCIP_RETCODE SCIPcaptureRow(SCIP*,SCIP_ROW*r){ r->uses++; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddPoolCut(SCIP*,SCIP_ROW*){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintRow(SCIP*,SCIP_ROW*,FILE*){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintCons(SCIP*,SCIP_CONS*,FILE*){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintSol(SCIP*,SCIP_SOL*,FILE*,SCIP_Bool){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintBestSol(SCIP*,FILE*,SCIP_Bool){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintOrigProblem(SCIP*,FILE*,const char*,SCIP_Bool){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintTransProblem(SCIP*,FILE*,const char*,SCIP_Bool){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPwriteOrigProblem(SCIP*,const char*,const char*,SCIP_Bool){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintVersion(SCIP*,FILE*){ return SCIP_OKAY; }
inline void SCIPwarningMessage(SCIP*,const char*,...) {}
inline void SCIPdebugMessage(const char*,...) {}
// parameters
inline SCIP_RETCODE SCIPsetLongintParam(SCIP*s,const char*n,SCIP_Longint v){ s->params[n]=(double)v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetCharParam(SCIP*s,const char*n,char v){ s->params[n]=v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetStringParam(SCIP*,const char*,const char*){ return SCIP_OKAY; }
inline SCIP_RETCODE SCIPgetIntParam(SCIP*s,const char*n,int*v){ *v=(int)s->params[n]; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPgetRealParam(SCIP*s,const char*n,double*v){ *v=s->params[n]; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPgetBoolParam(SCIP*s,const char*n,SCIP_Bool*v){ *v=(SCIP_Bool)s->params[n]; return SCIP_OKAY; }
// memory
#define SCIPallocBufferArray(scip,ptr,num) ((*(ptr)=(decltype(*(ptr)+0))malloc(sizeof(**(ptr))*(num)))!=nullptr?SCIP_OKAY:SCIP_NOMEMORY)
#define SCIPallocMemoryArray(scip,ptr,num) SCIPallocBufferArray(scip,ptr,num)
#define SCIPallocBlockMemoryArray(scip,ptr,num) SCIPallocBufferArray(scip,ptr,num)
#define SCIPfreeBufferArray(scip,ptr) (free(*(ptr)),*(ptr)=nullptr)
#define SCIPfreeMemoryArray(scip,ptr) SCIPfreeBufferArray(scip,ptr)
#define SCIPfreeBlockMemoryArray(scip,ptr,num) SCIPfreeBufferArray(scip,ptr)
#define SCIP_CALL_ABORT(x) do { if((x)!=SCIP_OKAY) abort(); } while(false)
#define SCIP_CALL_EXC(x) do { if((x)!=SCIP_OKAY) throw std::runtime_error("SCIP"); } while(false)
#endif
