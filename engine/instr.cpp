// symbolic instrumentation pass: rewrites LLVM bitcode so that every scalar SSA value and
// every memory byte carries an optional symbolic shadow, maintained by rt.cpp.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <fstream>
#include <string>
using namespace llvm;

static Module *M; static const DataLayout *DL; static LLVMContext *C;
static Type *PtrTy,*I64,*I32,*I1,*I8,*VoidTy,*DblTy;
static Constant *NullP;
static std::string SrcPrefix="/repo/";
static std::vector<std::string> fnNames;
static FunctionCallee F_bin,F_icmp,F_fbin,F_fcmp,F_cast,F_branch,F_conc,F_select,F_load,F_store,F_clear,F_memcpy,F_memset,F_free,F_unmod,F_fn,F_math,F_chkmem,F_safediv,F_print,F_byte;
static GlobalVariable *GArgs,*GRet;

struct Leaf{uint64_t off; Type*ty;};
static void flatten(Type*T,uint64_t off,std::vector<Leaf>&out){
  if(auto*S=dyn_cast<StructType>(T)){auto*L=DL->getStructLayout(S);for(unsigned i=0;i<S->getNumElements();i++)flatten(S->getElementType(i),off+L->getElementOffset(i),out);}
  else if(auto*A=dyn_cast<ArrayType>(T)){for(uint64_t i=0;i<A->getNumElements();i++)flatten(A->getElementType(),off+i*DL->getTypeAllocSize(A->getElementType()),out);}
  else if(auto*V=dyn_cast<FixedVectorType>(T)){for(unsigned i=0;i<V->getNumElements();i++)flatten(V->getElementType(),off+i*DL->getTypeStoreSize(V->getElementType()),out);}
  else if(!T->isVoidTy()) out.push_back({off,T});
}
static std::vector<Leaf> leaves(Type*T){std::vector<Leaf>o;flatten(T,0,o);return o;}
static bool shadowable(Type*T){ if(T->isIntegerTy())return T->getIntegerBitWidth()<=64; return T->isFloatTy()||T->isDoubleTy(); }
static bool anyShadowable(Type*T){for(auto&l:leaves(T))if(shadowable(l.ty))return true;return false;}
static unsigned leafIndex(Type*T,ArrayRef<unsigned> idx,unsigned &count){
  unsigned base=0; 
  for(unsigned i:idx){
    if(auto*S=dyn_cast<StructType>(T)){for(unsigned k=0;k<i;k++)base+=leaves(S->getElementType(k)).size();T=S->getElementType(i);}
    else if(auto*A=dyn_cast<ArrayType>(T)){base+=i*leaves(A->getElementType()).size();T=A->getElementType();}
    else report_fatal_error("leafIndex");
  }
  count=leaves(T).size();return base;
}
static bool startsWith(StringRef s,const char*p){return s.starts_with(p);}

// externals whose memory arguments can only hold concrete data in our harnesses, or that never read user memory
static bool whitelisted(StringRef n){
  static const char*pre[]={"_Znw","_Zna","_ZdlPv","_ZdaPv","__cxa_","_Unwind_","__gxx_personality","_ZSt","_ZNSt","_ZNKSt","_ZNSo","_ZNSi","_ZNSs","_ZStls","_ZStrs","_ZTIN","_ZN4YAML","_ZNK4YAML","__dynamic_cast","_ZThn","_ZTv","_ZN9__gnu_cxx","_ZNK9__gnu_cxx",nullptr};
  for(int i=0;pre[i];i++)if(n.starts_with(pre[i]))return true;
  static const std::set<std::string> ex={"malloc","free","calloc","abort","exit","strlen","memcmp","bcmp","memchr","strcmp","strncmp","strcpy","printf","puts","putchar","fprintf","snprintf","vsnprintf","__errno_location","strtol","strtoll","strtoul","strtod","getenv","atexit","time","setenv","tzset","gettimeofday","localtime","gmtime","localtime_r","gmtime_r","strftime","pthread_mutex_lock","pthread_mutex_unlock","__assert_fail","__clang_call_terminate","fflush","clock_gettime","fopen","fclose","fputs","fputc","fwrite","remove","unlink","mktime","timegm","rand","srand","isatty","open","close","sprintf","toupper","tolower","isspace","isdigit","fputs","usleep"};
  return ex.count(n.str())>0;
}
static bool readsMem(StringRef n){static const std::set<std::string> ex={"memcmp","bcmp","memchr","strlen","strcmp","strncmp"};return ex.count(n.str())>0;}
// numbers written to a stream: std::ostream::operator<<(T) and std::ostream::_M_insert<T>(T); -> mangled letter of T
static char streamLetter(StringRef n){
  StringRef r=n; char c=0; if(r.consume_front("_ZNSolsE")){ if(r.size()==1)c=r[0]; } else if(r.consume_front("_ZNSo9_M_insertI")){ if(r.size()==8&&r.ends_with("EERSoT_"))c=r[0]; }
  return c&&strchr("ijlmxydfbst",c)?c:0; }
static const char*mathName(StringRef n){
  static const char*m[]={"floor","ceil","fabs","trunc","round","floorf","ceilf","fabsf",nullptr};
  for(int i=0;m[i];i++)if(n==m[i])return m[i]; return nullptr;}

struct Inst {
  Function&F; std::map<Value*,std::vector<Value*>> sh; std::vector<PHINode*> phis; 
  std::map<PHINode*,std::vector<PHINode*>> phiSh;
  bool dropVec=false;
  Inst(Function&f):F(f){}
  Value* shadow(Value*V,unsigned leaf=0){
    if(isa<Constant>(V)||isa<MetadataAsValue>(V)||isa<InlineAsm>(V)) return NullP;
    auto it=sh.find(V); if(it==sh.end())return NullP; 
    if(leaf>=it->second.size())return NullP; return it->second[leaf];
  }
  std::vector<Value*> shadows(Value*V){std::vector<Value*> r;unsigned n=leaves(V->getType()).size();for(unsigned i=0;i<n;i++)r.push_back(shadow(V,i));return r;}
  void set(Value*V,Value*S){sh[V]={S};}
  static bool isNull(Value*v){return isa<ConstantPointerNull>(v);}
  Value* toI64(IRBuilder<>&B,Value*V){ Type*T=V->getType();
    if(T->isIntegerTy()){ if(T->getIntegerBitWidth()==64)return V; if(T->getIntegerBitWidth()>64) return B.CreateTrunc(V,I64); return B.CreateZExt(V,I64);}
    if(T->isDoubleTy())return B.CreateBitCast(V,I64);
    if(T->isFloatTy())return B.CreateZExt(B.CreateBitCast(V,I32),I64);
    if(T->isPointerTy())return B.CreatePtrToInt(V,I64);
    return ConstantInt::get(I64,0);
  }
  Value* fromI64(IRBuilder<>&B,Value*V,Type*T){
    if(T->isIntegerTy()){return B.CreateTruncOrBitCast(V,T);} 
    if(T->isDoubleTy())return B.CreateBitCast(V,T);
    if(T->isFloatTy())return B.CreateBitCast(B.CreateTrunc(V,I32),T);
    report_fatal_error("fromI64");
  }
  Value* toD(IRBuilder<>&B,Value*V){ if(V->getType()->isDoubleTy())return V; return B.CreateFPExt(V,DblTy);} 
  static unsigned wcode(Type*T){ if(T->isIntegerTy())return T->getIntegerBitWidth(); if(T->isFloatTy())return 1032; if(T->isDoubleTy())return 1064; return 0;}
  Value* i32c(int v){return ConstantInt::get(I32,v);} 
  Value* concretize(IRBuilder<>&B,Value*V){ Value*S=shadow(V); if(isNull(S))return V;
    Value*r=B.CreateCall(F_conc,{S,i32c(wcode(V->getType())),toI64(B,V)}); return fromI64(B,r,V->getType()); }
  Value* argSlot(IRBuilder<>&B,unsigned i){return B.CreateConstInBoundsGEP2_64(GArgs->getValueType(),GArgs,0,i);} 
  Value* retSlot(IRBuilder<>&B,unsigned i){return B.CreateConstInBoundsGEP2_64(GRet->getValueType(),GRet,0,i);} 
  Value* off(IRBuilder<>&B,Value*P,uint64_t o){ if(!o)return P; return B.CreateConstGEP1_64(I8,P,o);} 

  void entry(){
    IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
    unsigned slot=0;
    if(auto*SP=F.getSubprogram()){ if(auto*fi=SP->getFile()){ std::string p=(fi->getFilename().starts_with("/")?fi->getFilename().str():(fi->getDirectory()+"/"+fi->getFilename()).str());
        if(p.find(SrcPrefix)!=std::string::npos){ int id=fnNames.size(); std::string nm=SP->getName().str(); fnNames.push_back(p.substr(p.find(SrcPrefix)+SrcPrefix.size())+":"+nm+":"+std::to_string(SP->getLine())); B.CreateCall(F_fn,{i32c(id)});} } }
    for(auto&A:F.args()){
      if(A.hasByValAttr()){ Value*sl=argSlot(B,slot); Value*src=B.CreateLoad(PtrTy,sl); B.CreateStore(NullP,sl); B.CreateCall(F_memcpy,{&A,src,ConstantInt::get(I64,DL->getTypeAllocSize(A.getParamByValType()))}); slot++; continue; }
      auto L=leaves(A.getType()); std::vector<Value*> v;
      for(auto&l:L){ if(shadowable(l.ty)){ Value*sl=argSlot(B,slot); Value*x=B.CreateLoad(PtrTy,sl); B.CreateStore(NullP,sl); v.push_back(x);} else v.push_back(NullP); slot++; }
      if(slot>60)report_fatal_error("too many args");
      sh[&A]=v;
    }
  }
  // pass arg shadows
  void setArgs(IRBuilder<>&B,CallBase*CB){
    unsigned slot=0;
    for(unsigned i=0;i<CB->arg_size();i++){ Value*A=CB->getArgOperand(i);
      if(CB->isByValArgument(i)){ B.CreateStore(A,argSlot(B,slot)); slot++; continue; }
      if(A->getType()->isMetadataTy())continue;
      auto L=leaves(A->getType());
      for(unsigned k=0;k<L.size();k++){ if(shadowable(L[k].ty)){ B.CreateStore(shadow(A,k),argSlot(B,slot)); } slot++; }
    }
  }
  void clearArgs(IRBuilder<>&B,CallBase*CB){
    unsigned slot=0;
    for(unsigned i=0;i<CB->arg_size();i++){ Value*A=CB->getArgOperand(i);
      if(CB->isByValArgument(i)){ B.CreateStore(NullP,argSlot(B,slot)); slot++; continue; }
      auto L=leaves(A->getType());
      for(unsigned k=0;k<L.size();k++){ if(shadowable(L[k].ty)&&!isNull(shadow(A,k))) B.CreateStore(NullP,argSlot(B,slot)); slot++; }
    }
  }
  Instruction* afterPoint(CallBase*CB){
    if(auto*II=dyn_cast<InvokeInst>(CB)){ BasicBlock*N=SplitEdge(II->getParent(),II->getNormalDest()); return &*N->getFirstInsertionPt(); }
    return CB->getNextNode();
  }
  void readRet(CallBase*CB,Instruction*after){
    if(CB->getType()->isVoidTy()||!anyShadowable(CB->getType()))return;
    IRBuilder<>B(after); auto L=leaves(CB->getType()); std::vector<Value*>v; 
    for(unsigned k=0;k<L.size();k++){ if(shadowable(L[k].ty)&&k<8){ Value*s=retSlot(B,k); Value*x=B.CreateLoad(PtrTy,s); B.CreateStore(NullP,s); v.push_back(x);} else v.push_back(NullP);} 
    sh[CB]=v;
  }
  void call(CallBase*CB){
    if(CB->isInlineAsm())return;
    Function*Fn=CB->getCalledFunction();
    if(!Fn){ if(auto*al=dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) Fn=dyn_cast<Function>(al->getAliaseeObject()); }
    IRBuilder<>B(CB);
    if(Fn&&Fn->isIntrinsic()){ intrinsic(CB,Fn); return; }
    if(Fn&&Fn->isDeclaration()&&!startsWith(Fn->getName(),"sym_")){
      StringRef n=Fn->getName();
      if(const char*m=mathName(n)){ Value*S=shadow(CB->getArgOperand(0)); if(!isNull(S)){ set(CB,B.CreateCall(F_math,{B.CreateGlobalStringPtr(m),i32c(wcode(CB->getType())),S})); } return; }
      if(n=="free"||startsWith(n,"_ZdlPv")||startsWith(n,"_ZdaPv")) B.CreateCall(F_free,{CB->getArgOperand(0)});
      if(n=="memcpy"||n=="memmove"){ Value*nn=concretize(B,CB->getArgOperand(2)); B.CreateCall(F_memcpy,{CB->getArgOperand(0),CB->getArgOperand(1),nn}); CB->setArgOperand(2,nn); return; }
      if(n=="memset"){ Value*nn=concretize(B,CB->getArgOperand(2)); Value*vv=concretize(B,CB->getArgOperand(1)); B.CreateCall(F_clear,{CB->getArgOperand(0),nn}); CB->setArgOperand(2,nn);CB->setArgOperand(1,vv); return; }
      if(char lt=streamLetter(n)) if(CB->arg_size()==2&&!isNull(shadow(CB->getArgOperand(1)))){ Value*V=CB->getArgOperand(1); std::vector<Value*> as={CB->getArgOperand(0),toI64(B,V),shadow(V),i32c(wcode(V->getType())),i32c(lt)}; Instruction*N;
        if(auto*II=dyn_cast<InvokeInst>(CB)) N=B.CreateInvoke(F_print,II->getNormalDest(),II->getUnwindDest(),as); else N=B.CreateCall(F_print,as);
        CB->replaceAllUsesWith(N); CB->eraseFromParent(); return; }
      if(!whitelisted(n)) B.CreateCall(F_unmod,{B.CreateGlobalStringPtr(n)});
      for(unsigned i=0;i<CB->arg_size();i++){ Value*A=CB->getArgOperand(i); if(A->getType()->isMetadataTy())continue; if(shadowable(A->getType())&&!isNull(shadow(A))) CB->setArgOperand(i,concretize(B,A)); }
      if(readsMem(n)){ Value*len=ConstantInt::get(I64,0); if(n=="memcmp"||n=="bcmp"||n=="memchr")len=CB->getArgOperand(2); B.CreateCall(F_chkmem,{CB->getArgOperand(0),len}); if(n!="memchr"&&n!="strlen")B.CreateCall(F_chkmem,{CB->getArgOperand(1),len}); }
      if(n=="gmtime"||n=="localtime"||n=="gmtime_r"||n=="localtime_r") B.CreateCall(F_chkmem,{CB->getArgOperand(0),ConstantInt::get(I64,8)});
      if(n=="mktime"||n=="timegm") B.CreateCall(F_chkmem,{CB->getArgOperand(0),ConstantInt::get(I64,56)});
      if(n=="strftime") B.CreateCall(F_chkmem,{CB->getArgOperand(3),ConstantInt::get(I64,56)});
      return;
    }
    // instrumented callee (direct or indirect) or runtime api
    setArgs(B,CB);
    if(!Fn){ unsigned n=0; if(!CB->getType()->isVoidTy()) n=leaves(CB->getType()).size(); for(unsigned k=0;k<n&&k<8;k++) B.CreateStore(NullP,retSlot(B,k)); }
    bool needRet=!CB->getType()->isVoidTy()&&anyShadowable(CB->getType());
    if(!needRet&&Fn)return;
    Instruction*after=afterPoint(CB);
    readRet(CB,after);
    if(!Fn){ IRBuilder<>B2(after); clearArgs(B2,CB);} 
  }
  void intrinsic(CallBase*CB,Function*Fn){
    IRBuilder<>B(CB);
    switch(Fn->getIntrinsicID()){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ Value*nn=concretize(B,CB->getArgOperand(2)); CB->setArgOperand(2,nn); B.CreateCall(F_memcpy,{CB->getArgOperand(0),CB->getArgOperand(1),B.CreateZExtOrTrunc(nn,I64)}); return; }
      case Intrinsic::memset: { Value*nn=concretize(B,CB->getArgOperand(2)); Value*vv=concretize(B,CB->getArgOperand(1)); CB->setArgOperand(2,nn); CB->setArgOperand(1,vv); B.CreateCall(F_clear,{CB->getArgOperand(0),B.CreateZExtOrTrunc(nn,I64)}); return; }
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::fabs: case Intrinsic::trunc: case Intrinsic::round: { Value*S=shadow(CB->getArgOperand(0)); if(isNull(S))return; std::string nm=Intrinsic::getBaseName(Fn->getIntrinsicID()).str().substr(5); set(CB,B.CreateCall(F_math,{B.CreateGlobalStringPtr(nm),i32c(wcode(CB->getType())),S})); return; }
      case Intrinsic::expect: set(CB,shadow(CB->getArgOperand(0))); return;
      default: 
        for(unsigned i=0;i<CB->arg_size();i++){ Value*A=CB->getArgOperand(i); if(A->getType()->isMetadataTy()||!shadowable(A->getType()))continue; if(!isNull(shadow(A))) CB->setArgOperand(i,concretize(B,A)); }
        return;
    }
  }
  void visit(Instruction*I){
    IRBuilder<>B(I);
    switch(I->getOpcode()){
      case Instruction::PHI: return; // pre-created
      case Instruction::Alloca: { auto*A=cast<AllocaInst>(I); if(A->isArrayAllocation()&&!isNull(shadow(A->getArraySize()))) A->setOperand(0,concretize(B,A->getArraySize()));
         IRBuilder<>B2(I->getNextNode()); Value*sz=ConstantInt::get(I64,DL->getTypeAllocSize(A->getAllocatedType())); if(A->isArrayAllocation()) sz=B2.CreateMul(sz,B2.CreateZExtOrTrunc(A->getArraySize(),I64)); B2.CreateCall(F_clear,{A,sz}); return; }
      case Instruction::Load: { auto*L=cast<LoadInst>(I); auto ls=leaves(L->getType()); if(!anyShadowable(L->getType()))return; IRBuilder<>B2(I); std::vector<Value*>v; for(auto&l:ls){ if(shadowable(l.ty)) v.push_back(B2.CreateCall(F_load,{off(B2,L->getPointerOperand(),l.off),i32c(wcode(l.ty)),i32c(DL->getTypeStoreSize(l.ty))})); else v.push_back(NullP);} sh[I]=v; return; }
      case Instruction::Store: { auto*S=cast<StoreInst>(I); Value*V=S->getValueOperand(); auto ls=leaves(V->getType()); for(unsigned k=0;k<ls.size();k++){ Value*s=shadowable(ls[k].ty)?shadow(V,k):NullP; Value*p=off(B,S->getPointerOperand(),ls[k].off); if(isNull(s)) B.CreateCall(F_clear,{p,ConstantInt::get(I64,DL->getTypeStoreSize(ls[k].ty))}); else if(ls.size()==1&&V->getType()->isIntegerTy(8)) S->setOperand(0,B.CreateTrunc(B.CreateCall(F_byte,{p,s,toI64(B,V)}),V->getType())); else B.CreateCall(F_store,{p,i32c(DL->getTypeStoreSize(ls[k].ty)),s}); } return; }
      case Instruction::Br: { auto*Br=cast<BranchInst>(I); if(Br->isConditional()){ Value*s=shadow(Br->getCondition()); if(!isNull(s)) Br->setCondition(B.CreateCall(F_branch,{s,Br->getCondition()})); } return; }
      case Instruction::Switch: { auto*S=cast<SwitchInst>(I); Value*s=shadow(S->getCondition()); if(!isNull(s)) S->setCondition(concretize(B,S->getCondition())); return; }
      case Instruction::Select: { auto*S=cast<SelectInst>(I); Value*c=shadow(S->getCondition()); Type*T=S->getType();
         if(S->getCondition()->getType()->isVectorTy()) return;
         if(shadowable(T)){ Value*a=shadow(S->getTrueValue()),*b=shadow(S->getFalseValue()); if(isNull(a)&&isNull(b)&&isNull(c))return; 
            set(I,B.CreateCall(F_select,{c,S->getCondition(),a,b,toI64(B,S->getTrueValue()),toI64(B,S->getFalseValue()),i32c(wcode(T))})); }
         else { if(!isNull(c)) S->setCondition(B.CreateCall(F_branch,{c,S->getCondition()})); 
            auto ls=leaves(T); std::vector<Value*>v; for(unsigned k=0;k<ls.size();k++) v.push_back(B.CreateSelect(S->getCondition(),shadow(S->getTrueValue(),k),shadow(S->getFalseValue(),k))); if(ls.size()>1)sh[I]=v; }
         return; }
      case Instruction::GetElementPtr: { for(unsigned i=1;i<I->getNumOperands();i++){ Value*o=I->getOperand(i); if(!isNull(shadow(o))) I->setOperand(i,concretize(B,o)); } return; }
      case Instruction::ICmp: { auto*Cm=cast<ICmpInst>(I); if(!shadowable(Cm->getOperand(0)->getType()))return; Value*a=shadow(Cm->getOperand(0)),*b=shadow(Cm->getOperand(1)); if(isNull(a)&&isNull(b))return; set(I,B.CreateCall(F_icmp,{i32c(Cm->getPredicate()),i32c(wcode(Cm->getOperand(0)->getType())),a,b,toI64(B,Cm->getOperand(0)),toI64(B,Cm->getOperand(1))})); return; }
      case Instruction::FCmp: { auto*Cm=cast<FCmpInst>(I); if(!shadowable(Cm->getOperand(0)->getType()))return; Value*a=shadow(Cm->getOperand(0)),*b=shadow(Cm->getOperand(1)); if(isNull(a)&&isNull(b))return; set(I,B.CreateCall(F_fcmp,{i32c(Cm->getPredicate()),i32c(wcode(Cm->getOperand(0)->getType())),a,b,toD(B,Cm->getOperand(0)),toD(B,Cm->getOperand(1))})); return; }
      case Instruction::FNeg: { if(!shadowable(I->getType()))return; Value*a=shadow(I->getOperand(0)); if(isNull(a))return; set(I,B.CreateCall(F_fbin,{i32c(Instruction::FSub),i32c(wcode(I->getType())),NullP,a,ConstantFP::get(DblTy,0.0),ConstantFP::get(DblTy,0.0)})); return; }
      case Instruction::ExtractValue: { auto*E=cast<ExtractValueInst>(I); unsigned n; unsigned b=leafIndex(E->getAggregateOperand()->getType(),E->getIndices(),n); std::vector<Value*>v; for(unsigned k=0;k<n;k++)v.push_back(shadow(E->getAggregateOperand(),b+k)); sh[I]=v; return; }
      case Instruction::InsertValue: { auto*E=cast<InsertValueInst>(I); unsigned n; unsigned b=leafIndex(E->getType(),E->getIndices(),n); auto v=shadows(E->getAggregateOperand()); for(unsigned k=0;k<n;k++)v[b+k]=shadow(E->getInsertedValueOperand(),k); sh[I]=v; return; }
      case Instruction::ExtractElement: { auto*ci=dyn_cast<ConstantInt>(I->getOperand(1)); if(!ci){return;} set(I,shadow(I->getOperand(0),ci->getZExtValue())); return; }
      case Instruction::InsertElement: { auto*ci=dyn_cast<ConstantInt>(I->getOperand(2)); if(!ci)return; auto v=shadows(I->getOperand(0)); v[ci->getZExtValue()]=shadow(I->getOperand(1)); sh[I]=v; return; }
      case Instruction::Freeze: sh[I]=shadows(I->getOperand(0)); return;
      case Instruction::Ret: { auto*R=cast<ReturnInst>(I); Value*V=R->getReturnValue(); if(!V||!anyShadowable(V->getType()))return; auto ls=leaves(V->getType()); for(unsigned k=0;k<ls.size()&&k<8;k++) if(shadowable(ls[k].ty)) B.CreateStore(shadow(V,k),retSlot(B,k)); return; }
      case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
      default: break;
    }
    if(auto*BO=dyn_cast<BinaryOperator>(I)){
      if(!shadowable(I->getType()))return;
      Value*a=shadow(BO->getOperand(0)),*b=shadow(BO->getOperand(1)); if(isNull(a)&&isNull(b))return;
      if(I->getType()->isFloatingPointTy()) set(I,B.CreateCall(F_fbin,{i32c(I->getOpcode()),i32c(wcode(I->getType())),a,b,toD(B,BO->getOperand(0)),toD(B,BO->getOperand(1))}));
      else { Value*x=toI64(B,BO->getOperand(0)),*y=toI64(B,BO->getOperand(1)); set(I,B.CreateCall(F_bin,{i32c(I->getOpcode()),i32c(wcode(I->getType())),a,b,x,y}));
        unsigned op=I->getOpcode(); if(op==Instruction::SDiv||op==Instruction::UDiv||op==Instruction::SRem||op==Instruction::URem){ Value*nb=B.CreateCall(F_safediv,{a,b,y}); BO->setOperand(1,fromI64(B,nb,I->getType())); } }
      return;
    }
    if(auto*CI=dyn_cast<CastInst>(I)){
      Type*S=CI->getSrcTy(),*D=CI->getDestTy();
      if(isa<IntToPtrInst>(CI)){ if(!isNull(shadow(CI->getOperand(0)))) CI->setOperand(0,concretize(B,CI->getOperand(0))); return; }
      if(S->isVectorTy()||D->isVectorTy()){ return; }
      if(!shadowable(S))return; Value*a=shadow(CI->getOperand(0)); if(isNull(a))return;
      if(!shadowable(D)){ CI->setOperand(0,concretize(B,CI->getOperand(0))); return; }
      set(I,B.CreateCall(F_cast,{i32c(CI->getOpcode()),i32c(wcode(S)),i32c(wcode(D)),a})); return;
    }
  }
  void run(){
    std::vector<Instruction*> work; ReversePostOrderTraversal<Function*> rpot(&F); 
    for(BasicBlock*BB:rpot) for(Instruction&I:*BB) work.push_back(&I);
    entry();
    for(auto*I:work) if(auto*P=dyn_cast<PHINode>(I)){ if(!anyShadowable(P->getType()))continue; auto ls=leaves(P->getType()); std::vector<Value*>v; std::vector<PHINode*>ps; for(unsigned k=0;k<ls.size();k++){ auto*np=PHINode::Create(PtrTy,P->getNumIncomingValues(),"",P); v.push_back(np); ps.push_back(np);} sh[P]=v; phiSh[P]=ps; }
    for(auto*I:work) visit(I);
    for(auto&kv:phiSh){ PHINode*P=kv.first; for(unsigned k=0;k<kv.second.size();k++) for(unsigned i=0;i<P->getNumIncomingValues();i++) kv.second[k]->addIncoming(shadow(P->getIncomingValue(i),k),P->getIncomingBlock(i)); }
  }
};

int main(int argc,char**argv){
  if(argc<4){errs()<<"usage: instr in.bc out.bc fnlist [srcprefix]\n";return 2;}
  if(argc>4)SrcPrefix=argv[4];
  LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(argv[1],err,ctx); if(!mod){err.print("instr",errs());return 2;}
  M=mod.get(); C=&ctx; DL=&M->getDataLayout();
  PtrTy=PointerType::getUnqual(ctx);I64=Type::getInt64Ty(ctx);I32=Type::getInt32Ty(ctx);I1=Type::getInt1Ty(ctx);I8=Type::getInt8Ty(ctx);VoidTy=Type::getVoidTy(ctx);DblTy=Type::getDoubleTy(ctx);
  NullP=ConstantPointerNull::get(cast<PointerType>(PtrTy));
  { // DCE + mem2reg + lowerswitch
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    for(auto&F:*M){F.removeFnAttr(Attribute::OptimizeNone);}
    ModulePassManager MPM; MPM.addPass(GlobalDCEPass()); FunctionPassManager FPM; FPM.addPass(PromotePass()); FPM.addPass(LowerSwitchPass()); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*M,MAM);
  }
  auto FT=[&](Type*R,std::vector<Type*>a){return FunctionType::get(R,a,false);};
  F_bin=M->getOrInsertFunction("__sym_bin",FT(PtrTy,{I32,I32,PtrTy,PtrTy,I64,I64}));
  F_icmp=M->getOrInsertFunction("__sym_icmp",FT(PtrTy,{I32,I32,PtrTy,PtrTy,I64,I64}));
  F_fbin=M->getOrInsertFunction("__sym_fbin",FT(PtrTy,{I32,I32,PtrTy,PtrTy,DblTy,DblTy}));
  F_fcmp=M->getOrInsertFunction("__sym_fcmp",FT(PtrTy,{I32,I32,PtrTy,PtrTy,DblTy,DblTy}));
  F_cast=M->getOrInsertFunction("__sym_cast",FT(PtrTy,{I32,I32,I32,PtrTy}));
  F_branch=M->getOrInsertFunction("__sym_branch",FT(I1,{PtrTy,I1}));
  F_conc=M->getOrInsertFunction("__sym_concretize",FT(I64,{PtrTy,I32,I64}));
  F_select=M->getOrInsertFunction("__sym_select",FT(PtrTy,{PtrTy,I1,PtrTy,PtrTy,I64,I64,I32}));
  F_load=M->getOrInsertFunction("__sym_load",FT(PtrTy,{PtrTy,I32,I32}));
  F_store=M->getOrInsertFunction("__sym_store",FT(VoidTy,{PtrTy,I32,PtrTy}));
  F_byte=M->getOrInsertFunction("__sym_byte",FT(I64,{PtrTy,PtrTy,I64}));
  F_clear=M->getOrInsertFunction("__sym_clear",FT(VoidTy,{PtrTy,I64}));
  F_memcpy=M->getOrInsertFunction("__sym_memcpy",FT(VoidTy,{PtrTy,PtrTy,I64}));
  F_free=M->getOrInsertFunction("__sym_free",FT(VoidTy,{PtrTy}));
  F_unmod=M->getOrInsertFunction("__sym_unmodelled",FT(VoidTy,{PtrTy}));
  F_fn=M->getOrInsertFunction("__sym_fn",FT(VoidTy,{I32}));
  F_math=M->getOrInsertFunction("__sym_math",FT(PtrTy,{PtrTy,I32,PtrTy}));
  F_chkmem=M->getOrInsertFunction("__sym_chkmem",FT(VoidTy,{PtrTy,I64}));
  F_safediv=M->getOrInsertFunction("__sym_safediv",FT(I64,{PtrTy,PtrTy,I64}));
  F_print=M->getOrInsertFunction("__sym_print",FT(PtrTy,{PtrTy,I64,PtrTy,I32,I32}));
  GArgs=new GlobalVariable(*M,ArrayType::get(PtrTy,64),false,GlobalValue::ExternalLinkage,nullptr,"__sym_args");
  GRet=new GlobalVariable(*M,ArrayType::get(PtrTy,8),false,GlobalValue::ExternalLinkage,nullptr,"__sym_ret");
  std::vector<Function*> fs; for(auto&F:*M) if(!F.isDeclaration()&&!startsWith(F.getName(),"__sym_")&&!startsWith(F.getName(),"sym_rt_")) fs.push_back(&F);
  for(auto*F:fs){ Inst(*F).run(); }
  // keep the instrumented program to itself: the runtime and libz3 must not bind to instrumented library templates
  for(auto&F:*M) if(!F.isDeclaration()&&!F.getName().starts_with("h_")){ F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); }
  for(auto&G:M->globals()) if(!G.isDeclaration()&&!G.getName().starts_with("__sym")&&!G.getName().starts_with("llvm.")){ G.setComdat(nullptr); if(!G.hasLocalLinkage()){ G.setLinkage(GlobalValue::InternalLinkage); G.setVisibility(GlobalValue::DefaultVisibility);} }
  if(verifyModule(*M,&errs())){errs()<<"instr: broken module\n";return 3;}
  std::ofstream fl(argv[3]); for(auto&s:fnNames)fl<<s<<"\n";
  std::error_code ec; raw_fd_ostream os(argv[2],ec); WriteBitcodeToFile(*M,os); return 0;
}
