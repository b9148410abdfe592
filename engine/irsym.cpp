#include <set>
#include <functional>
// irsym: symbolic executor for LLVM IR (bounded, exhaustive, forking).
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <set>
#include <functional>
#include <signal.h>
using namespace llvm;

static Evaluator *EV; static BitBlaster *BB,*AB; static LinBack *LB,*NB; static LocalSearch *LS; static Z3Back *Z3;
struct Val { u64 c=0; Expr*e=nullptr; };
static inline u64 m64(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline Expr* toE(const Val&v,unsigned w){ return v.e?v.e:PP->mkConst(w,v.c); }
static inline Val fromE(Expr*e){ if(e->k==K_CONST&&e->w<=64) return Val{(u64)e->val,nullptr}; return Val{0,e}; }

// ---------------------------------------------------------------- shared stats
struct Shared {
  std::atomic<int> active; std::atomic<int> stop; std::atomic<u64> paths, errPaths, killed, forks, queries, satq, unsatq, unkq, instrs, checks, checkQueries, chkUnk, linHits, ivHits, lsHits, violations, leftover, limitPaths, z3checks, z3mism, checksSym, coreHits, sampled, diffHits;
  std::atomic<u64> solverUs; std::atomic<int> procs; std::atomic<u64> peakRss;
  std::atomic<int> tabLock; int nTab; char tabName[512][96]; std::atomic<u64> tabCnt[512], tabSym[512];
  std::atomic<u64> reach[1]; std::atomic<u64> checkCnt[256], checkSolver[256];
  std::atomic<u8> cover[1<<18];
};
static Shared *SH;
// shared table of the check and reach ids met so far
static int tabIdx(const std::string&n){
  static std::unordered_map<std::string,int> mine; auto it=mine.find(n); if(it!=mine.end()) return it->second;
  while(SH->tabLock.exchange(1)) ; int r=-1;
  for(int i=0;i<SH->nTab;i++) if(n.substr(0,95)==SH->tabName[i]){ r=i; break; }
  if(r<0&&SH->nTab<511){ r=SH->nTab; strncpy(SH->tabName[r],n.c_str(),95); SH->nTab++; }
  if(r<0) r=511; SH->tabLock=0; mine[n]=r; return r;
}
static double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Opts { std::string file, entry="harness", out="out"; int procs=8; double timeS=300; u64 stepLimit=20000000; int maxViol=3; int64_t conflicts=20000000; int z3every=0; bool abs=false,atoms=false,nra=false; bool verbose=false; u64 maxRssMb=3500; bool uninit=true; int selChain=0; u64 seed=1; int samples=0; bool selFork=false; double qsec=20;} O;
static double deadline;

// ---------------------------------------------------------------- memory
struct SymByte { Expr*e; u8 off; };
struct Obj { u32 ref=1; u32 size=0; u8 flags=0; std::vector<u8> b; std::vector<SymByte> s; bool hasSym=false;
  std::vector<u8> init; };
enum { OF_RO=1, OF_FREED=2 };
static const u64 RG_GLOB=1ull<<52, RG_HEAP=2ull<<52, RG_STACK=3ull<<52, RG_FN=4ull<<52; static const u64 OBASE=1<<20;
static inline u64 addrOf(u64 rg,u64 id){ return rg+(id<<24)+OBASE; }

struct FnInfo;
struct Frame { FnInfo*fn; u32 pc; u32 base; u32 stackMark; int retDst; };
struct PCNode { Expr*e; std::shared_ptr<PCNode> prev; };
struct InputRec { std::string name; Expr*e; i64 c; };
struct State {
  std::vector<Val> regs; std::vector<Frame> frames;
  std::vector<Obj*> glob, heap, stack;
  std::vector<Expr*> pc;      // asserted
  std::vector<Expr*> implied; // known consequences
  ModelP model; u64 steps=0; u32 depth=0;
  std::vector<std::pair<u32,Expr*>> inputs; // (name idx, expr)
  std::map<u32,u32> occ;
  std::vector<std::pair<i64,i64>> bnd; size_t bndPc=0; // bounds of the inputs implied by pc
  bool dead=false; bool stale=false; // stale: the model may not satisfy pc (a query gave up)
  State(){}
  State(const State&o):regs(o.regs),frames(o.frames),glob(o.glob),heap(o.heap),stack(o.stack),pc(o.pc),implied(o.implied),model(o.model),steps(o.steps),depth(o.depth),inputs(o.inputs),occ(o.occ),bnd(o.bnd),bndPc(o.bndPc),stale(o.stale){
    for(auto*v:{&glob,&heap,&stack}) for(Obj*x:*v) if(x) x->ref++; }
  ~State(){ for(auto*v:{&glob,&heap,&stack}) for(Obj*x:*v) rel(x); }
  static void rel(Obj*x){ if(x&&--x->ref==0) delete x; }
};
struct PathError { std::string kind,msg; };
[[noreturn]] static void perr(const std::string&k,const std::string&m){ throw PathError{k,m}; }
struct Kill {};
struct PathDone {};

static std::vector<Obj*>& region(State&s,u64 a){ switch(a>>52){ case 1: return s.glob; case 2: return s.heap; case 3: return s.stack; } perr("memory","access to an address outside any object (null or wild pointer)"); }
static Obj*& findObj(State&s,u64 a,i64&off){
  auto&v=region(s,a); u64 id=(a>>24)&0xFFFFFFF; off=(i64)(a&0xFFFFFF)-(i64)OBASE;
  if(id>=v.size()||!v[id]) perr("memory","access to freed or unallocated object");
  return v[id];
}
static Obj* rdObj(State&s,u64 a,u64 n,i64&off){ Obj*o=findObj(s,a,off); if(off<0||(u64)off+n>o->size) perr("memory","out-of-bounds read of "+std::to_string(n)+" bytes at offset "+std::to_string(off)+" of an object of "+std::to_string(o->size)+" bytes"); return o; }
static Obj* wrObj(State&s,u64 a,u64 n,i64&off){ Obj*&o=findObj(s,a,off); if(off<0||(u64)off+n>o->size) perr("memory","out-of-bounds write of "+std::to_string(n)+" bytes at offset "+std::to_string(off)+" of an object of "+std::to_string(o->size)+" bytes");
  if(o->flags&OF_RO) perr("memory","write to constant");
  if(o->ref>1){ Obj*c=new Obj(*o); c->ref=1; o->ref--; o=c; } return o; }
static Val loadV(State&s,u64 a,unsigned w){
  unsigned n=(w+7)/8; i64 off; Obj*o=rdObj(s,a,n,off);
  if(!o->hasSym||[&]{ for(unsigned i=0;i<n;i++) if(o->s[off+i].e) return false; return true; }()){
    if(w<=64){ u64 v=0; memcpy(&v,&o->b[off],n); return Val{v&m64(w),nullptr}; }
    W v=0; for(unsigned i=0;i<n;i++) v|=W(o->b[off+i])<<(8*i); return Val{0,PP->mkConst(w,v)};
  }
  SymByte*sb=&o->s[off];
  if(sb[0].e&&sb[0].off==0){ Expr*e=sb[0].e; bool ok=true; for(unsigned i=1;i<n;i++) if(sb[i].e!=e||sb[i].off!=i){ok=false;break;}
    if(ok){ if(e->w==w) return Val{0,e}; if(e->w>w&&e->k!=K_FRAT) return fromE(PP->extract(e,0,w)); } }
  Expr*r=nullptr;
  for(unsigned i=0;i<n;){
    Expr*by; unsigned j=i+1;
    if(sb[i].e){ if(sb[i].e->k==K_FRAT) perr("engine","partial access to a symbolic double"); Expr*e=sb[i].e; while(j<n&&sb[j].e==e&&sb[j].off==sb[i].off+(j-i)) j++; unsigned bw=std::min(8u*(j-i),(unsigned)e->w-sb[i].off*8); by=PP->zext(PP->extract(e,sb[i].off*8,bw),8*(j-i)); }
    else { W v=o->b[off+i]; while(j<n&&!sb[j].e){ v|=W(o->b[off+j])<<(int)(8*(j-i)); j++; } by=PP->mkConst(8*(j-i),v); }
    i=j;
    r=r?PP->concat(by,r):by; }
  if(r->w>w) r=PP->extract(r,0,w);
  return fromE(r);
}
static void storeV(State&s,u64 a,Val v,unsigned w){
  unsigned n=(w+7)/8; i64 off; Obj*o=wrObj(s,a,n,off);
  if(!v.e||v.e->k==K_CONST){
    if(!v.e) memcpy(&o->b[off],&v.c,n); else { W x=v.e->val; for(unsigned i=0;i<n;i++) o->b[off+i]=(u8)(x>>(8*i)); }
    if(o->hasSym) for(unsigned i=0;i<n;i++) o->s[off+i].e=nullptr;
  } else {
    if(!o->hasSym){ o->s.assign(o->size,SymByte{nullptr,0}); o->hasSym=true; }
    Expr*e=v.e; if(w<8*n) e=PP->zext(e,8*n);
    for(unsigned i=0;i<n;i++) o->s[off+i]=SymByte{e,(u8)i};
  }
}
static Obj* newObj(u64 n){ Obj*o=new Obj(); o->size=(u32)n; o->b.assign(n,0xA5); return o; }
static u64 heapAlloc(State&s,u64 n){ if(n>(8u<<20)) perr("memory","allocation of "+std::to_string(n)+" bytes"); s.heap.push_back(newObj(n)); return addrOf(RG_HEAP,s.heap.size()-1); }
static void heapFree(State&s,u64 a){ if(!a) return; i64 off; if((a>>52)!=2) perr("memory","free of a non-heap pointer"); Obj*&o=findObj(s,a,off); if(off!=0) perr("memory","free of an interior pointer"); State::rel(o); o=nullptr; }

// ---------------------------------------------------------------- code
enum Opc : u16 { I_BIN, I_CAST, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_SEL, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_CALLIND, I_EXT, I_COPY, I_UNREACH, I_EXTRACTV, I_TRAP, I_NOP, I_FREEZE };
struct Inst { u16 op; u16 sub=0; u16 w=0, w2=0; u16 n=1; int dst=-1; int a=0,b=0,c=0; u64 imm=0; void*p=nullptr; std::vector<int> xs; std::vector<u64> us; const Instruction*src=nullptr; };
struct Edge { u32 target; std::vector<std::pair<int,int>> copies; };
struct FnInfo { Function*f; std::string name; std::vector<Inst> code; u32 nslots=0; bool ready=false; std::vector<u32> argSlots; u32 id; std::vector<Edge> edges; std::vector<unsigned> retW; u32 coverBase=0; u32 nblocks=0; bool executed=false; };
static LLVMContext *CTX; static std::unique_ptr<Module> M; static const DataLayout*DL;
static std::map<Function*,FnInfo*> fns; static std::vector<FnInfo*> fnById; static u32 coverNext=0;
static std::vector<Val> cpool; // constants; operand index -1-i
static std::map<GlobalVariable*,u64> gaddr; static std::map<const Function*,u64> faddr; static std::vector<Function*> fnByAddr;
static std::vector<std::string> names; static std::map<std::string,u32> nameIdx;
static u32 nameId(const std::string&s){ auto it=nameIdx.find(s); if(it!=nameIdx.end()) return it->second; names.push_back(s); nameIdx[s]=names.size()-1; return names.size()-1; }

struct EngineErr { std::string m; };
static void leafTypes(Type*t,std::vector<unsigned>&ws){
  if(t->isIntegerTy()) ws.push_back(t->getIntegerBitWidth());
  else if(t->isPointerTy()) ws.push_back(64);
  else if(t->isDoubleTy()) ws.push_back(64);
  else if(t->isFloatTy()) ws.push_back(32);
  else if(t->isX86_FP80Ty()) ws.push_back(80);
  else if(auto*s=dyn_cast<StructType>(t)){ for(auto*x:s->elements()) leafTypes(x,ws); }
  else if(auto*a=dyn_cast<ArrayType>(t)){ for(u64 i=0;i<a->getNumElements();i++) leafTypes(a->getElementType(),ws); }
  else if(auto*v=dyn_cast<FixedVectorType>(t)){ for(u64 i=0;i<v->getNumElements();i++) leafTypes(v->getElementType(),ws); }
  else if(t->isVoidTy()||t->isMetadataTy()||t->isLabelTy()||t->isTokenTy()) {}
  else throw EngineErr{"unsupported type"};
}
static unsigned nslots(Type*t){ std::vector<unsigned> w; leafTypes(t,w); return w.size(); }
static void leafOffsets(Type*t,u64 off,std::vector<std::pair<u64,unsigned>>&v){
  if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) leafOffsets(s->getElementType(i),off+sl->getElementOffset(i),v); }
  else if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) leafOffsets(a->getElementType(),off+i*es,v); }
  else if(auto*a=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) leafOffsets(a->getElementType(),off+i*es,v); }
  else { std::vector<unsigned> w; leafTypes(t,w); if(!w.empty()) v.push_back({off,w[0]}); }
}
static W apW(const APInt&x){ W v=0; for(unsigned i=0;i<x.getNumWords()&&i<4;i++) v|=W(x.getRawData()[i])<<(64*i); return v; }
static u64 fnAddr(const Function*f){ auto it=faddr.find(f); if(it!=faddr.end()) return it->second; u64 a=RG_FN+((u64)fnByAddr.size()+1)*16; fnByAddr.push_back(const_cast<Function*>(f)); faddr[f]=a; return a; }
static u64 globalAddr(GlobalVariable*g);
static void constVals(Constant*c,std::vector<Val>&out){
  Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ unsigned w=ci->getBitWidth(); if(w<=64) out.push_back(Val{ci->getZExtValue(),nullptr}); else out.push_back(Val{0,PP->mkConst(w,apW(ci->getValue()))}); return; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ out.push_back(Val{cf->getValueAPF().bitcastToAPInt().getZExtValue(),nullptr}); return; }
  if(isa<ConstantPointerNull>(c)){ out.push_back(Val{}); return; }
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ std::vector<unsigned> w; leafTypes(t,w); for(unsigned x:w) out.push_back(x<=64?Val{}:Val{0,PP->mkConst(x,0)}); return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<cd->getNumElements();i++) constVals(cd->getElementAsConstant(i),out); return; }
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){ for(unsigned i=0;i<ca->getNumOperands();i++) constVals(ca->getOperand(i),out); return; }
  if(auto*f=dyn_cast<Function>(c)){ out.push_back(Val{fnAddr(f),nullptr}); return; }
  if(auto*g=dyn_cast<GlobalVariable>(c)){ out.push_back(Val{globalAddr(g),nullptr}); return; }
  if(auto*ga=dyn_cast<GlobalAlias>(c)){ constVals(ga->getAliasee(),out); return; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    auto one=[&](unsigned i){ std::vector<Val> v; constVals(ce->getOperand(i),v); return v.at(0).c; };
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) throw EngineErr{"const gep"}; out.push_back(Val{one(0)+(u64)off.getSExtValue(),nullptr}); return; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: out.push_back(Val{one(0),nullptr}); return;
    case Instruction::Trunc: out.push_back(Val{one(0)&m64(ce->getType()->getIntegerBitWidth()),nullptr}); return;
    case Instruction::Sub: out.push_back(Val{one(0)-one(1),nullptr}); return;
    case Instruction::Add: out.push_back(Val{one(0)+one(1),nullptr}); return;
    default: throw EngineErr{std::string("const expr ")+ce->getOpcodeName()}; }
  }
  throw EngineErr{"unsupported constant"};
}
static State*initState;
static void initGlobalBytes(Constant*c,u64 addr){
  if(isa<UndefValue>(c)) return;
  std::vector<std::pair<u64,unsigned>> lo; leafOffsets(c->getType(),0,lo);
  std::vector<Val> v; constVals(c,v);
  for(size_t i=0;i<lo.size();i++) storeV(*initState,addr+lo[i].first,v[i],lo[i].second);
}
static std::vector<std::pair<GlobalVariable*,u64>> gInitQueue;
static u64 globalAddr(GlobalVariable*g){
  auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  u64 sz=g->getValueType()->isSized()?(u64)DL->getTypeAllocSize(g->getValueType()):64; if(!g->hasInitializer()&&sz<64) sz=64;
  Obj*o=newObj(sz); std::fill(o->b.begin(),o->b.end(),0); initState->glob.push_back(o); u64 a=addrOf(RG_GLOB,initState->glob.size()-1); gaddr[g]=a;
  if(g->hasInitializer()) gInitQueue.push_back({g,a});
  return a;
}

struct Compiler {
  FnInfo&F; std::map<const Value*,int> slot; std::map<const BasicBlock*,u32> bstart; std::map<const BasicBlock*,u32> bidx;
  std::vector<std::pair<u32,std::pair<const BasicBlock*,const BasicBlock*>>> fix;
  std::map<Constant*,int> cmap;
  Compiler(FnInfo&f):F(f){}
  int newSlots(Type*t){ int s=F.nslots; F.nslots+=std::max(1u,nslots(t)); return s; }
  int opnd(const Value*v){
    auto it=slot.find(v); if(it!=slot.end()) return it->second;
    if(auto*c=dyn_cast<Constant>(v)){
      auto*cc=const_cast<Constant*>(c); auto j=cmap.find(cc); if(j!=cmap.end()) return j->second;
      std::vector<Val> vs; constVals(cc,vs); int idx=-1-(int)cpool.size(); for(auto&x:vs) cpool.push_back(x); if(vs.empty()) cpool.push_back(Val{});
      cmap[cc]=idx; return idx; }
    if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)) return 0;
    throw EngineErr{"operand before definition"};
  }
  static int at(int o,int i){ return o>=0?o+i:o-i; }
  int edge(const BasicBlock*from,const BasicBlock*to){ F.edges.emplace_back(); fix.push_back({(u32)F.edges.size()-1,{from,to}}); return F.edges.size()-1; }
  void run(){
    Function*f=F.f;
    for(auto&a:f->args()){ int s=newSlots(a.getType()); slot[&a]=s; F.argSlots.push_back(s); }
    std::vector<unsigned> rw; leafTypes(f->getReturnType(),rw); F.retW=rw;
    for(auto&bb:*f) for(auto&i:bb) if(!i.getType()->isVoidTy()) slot[&i]=newSlots(i.getType());
    F.coverBase=coverNext; u32 bi=0;
    for(auto&bb:*f){
      bstart[&bb]=F.code.size(); bidx[&bb]=bi;
      { Inst x; x.op=I_NOP; x.imm=F.coverBase+bi; F.code.push_back(x); }
      bi++;
      for(auto&i:bb) comp(i);
    }
    F.nblocks=bi; coverNext+=bi; if(coverNext>sizeof(SH->cover)) coverNext=0;
    for(auto&p:fix){ Edge&e=F.edges[p.first]; auto*from=p.second.first,*to=p.second.second; e.target=bstart[to];
      for(auto&phi:to->phis()){ int src=opnd(phi.getIncomingValueForBlock(from)); int d=slot[&phi]; unsigned n=nslots(phi.getType()); for(unsigned i=0;i<n;i++) e.copies.push_back({d+(int)i,at(src,i)}); } }
    F.ready=true;
  }
  unsigned W1(Type*t){ std::vector<unsigned> w; leafTypes(t,w); return w.empty()?0:w[0]; }
  void comp(const Instruction&I){
    Inst x; x.src=&I; x.op=I_NOP; if(!I.getType()->isVoidTy()) x.dst=slot[&I];
    Type*t=I.getType();
    switch(I.getOpcode()){
    case Instruction::PHI: return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      x.op=I_BIN; x.sub=I.getOpcode(); x.w=W1(t); x.n=nslots(t); x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      x.op=I_FBIN; x.sub=I.getOpcode(); x.w=W1(t); x.n=nslots(t); x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); break;
    case Instruction::FNeg: x.op=I_FNEG; x.w=W1(t); x.n=nslots(t); x.a=opnd(I.getOperand(0)); break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      x.op=I_CAST; x.sub=I.getOpcode(); x.w=W1(I.getOperand(0)->getType()); x.w2=W1(t); x.n=nslots(t);
      if(I.getOpcode()==Instruction::BitCast&&nslots(I.getOperand(0)->getType())!=nslots(t)) throw EngineErr{"vector bitcast"};
      x.a=opnd(I.getOperand(0)); break; }
    case Instruction::ICmp: x.op=I_ICMP; x.sub=cast<ICmpInst>(I).getPredicate(); x.w=W1(I.getOperand(0)->getType()); x.n=nslots(t); x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); break;
    case Instruction::FCmp: x.op=I_FCMP; x.sub=cast<FCmpInst>(I).getPredicate(); x.w=W1(I.getOperand(0)->getType()); x.n=nslots(t); x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); break;
    case Instruction::Select: { x.op=I_SEL; x.n=nslots(t); x.sub=I.getOperand(0)->getType()->isVectorTy(); x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); x.c=opnd(I.getOperand(2)); std::vector<unsigned> ws; leafTypes(t,ws); for(auto w:ws) x.us.push_back(w); break; }
    case Instruction::Freeze: { x.op=I_COPY; x.n=nslots(t); x.a=opnd(I.getOperand(0)); break; }
    case Instruction::GetElementPtr: {
      if(t->isVectorTy()) throw EngineErr{"vector gep"};
      x.op=I_GEP; x.a=opnd(I.getOperand(0)); x.imm=0;
      for(auto gi=gep_type_begin(&I),ge=gep_type_end(&I);gi!=ge;++gi){
        Value*idx=gi.getOperand();
        if(auto*st=gi.getStructTypeOrNull()){ x.imm+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
        else { u64 sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(idx)) x.imm+=sc*(u64)ci->getSExtValue(); else { x.xs.push_back(opnd(idx)); x.us.push_back(idx->getType()->getIntegerBitWidth()); x.us.push_back(sc); } } }
      break; }
    case Instruction::Load: { x.op=I_LOAD; x.a=opnd(I.getOperand(0)); std::vector<std::pair<u64,unsigned>> lo; leafOffsets(t,0,lo); for(auto&p:lo){ x.us.push_back(p.first); x.us.push_back(p.second);} x.n=lo.size(); break; }
    case Instruction::Store: { x.op=I_STORE; x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); std::vector<std::pair<u64,unsigned>> lo; leafOffsets(I.getOperand(0)->getType(),0,lo); for(auto&p:lo){ x.us.push_back(p.first); x.us.push_back(p.second);} x.n=lo.size(); break; }
    case Instruction::Alloca: { auto&al=cast<AllocaInst>(I); x.op=I_ALLOCA; x.imm=DL->getTypeAllocSize(al.getAllocatedType()); x.a=opnd(al.getArraySize()); break; }
    case Instruction::Br: { auto&br=cast<BranchInst>(I); if(br.isUnconditional()){ x.op=I_BR; x.b=edge(I.getParent(),br.getSuccessor(0)); } else { x.op=I_CBR; x.a=opnd(br.getCondition()); x.b=edge(I.getParent(),br.getSuccessor(0)); x.c=edge(I.getParent(),br.getSuccessor(1)); } break; }
    case Instruction::Switch: { auto&sw=cast<SwitchInst>(I); x.op=I_SWITCH; x.w=W1(sw.getCondition()->getType()); x.a=opnd(sw.getCondition()); x.b=edge(I.getParent(),sw.getDefaultDest()); for(auto c:sw.cases()){ x.us.push_back(c.getCaseValue()->getZExtValue()); x.xs.push_back(edge(I.getParent(),c.getCaseSuccessor())); } break; }
    case Instruction::Ret: x.op=I_RET; x.n=I.getNumOperands()?nslots(I.getOperand(0)->getType()):0; if(x.n) x.a=opnd(I.getOperand(0)); break;
    case Instruction::Unreachable: x.op=I_UNREACH; break;
    case Instruction::Invoke: case Instruction::Call: {
      auto&cb=cast<CallBase>(I);
      if(isa<DbgInfoIntrinsic>(I)) return;
      x.n=t->isVoidTy()?0:nslots(t);
      if(cb.isInlineAsm()){ x.op=I_EXT; x.p=const_cast<InlineAsm*>(cast<InlineAsm>(cb.getCalledOperand())); x.sub=2; for(auto&a:cb.args()) x.xs.push_back(opnd(a.get())); }
      else {
        Function*cf=dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
        if(auto*ga=dyn_cast<GlobalAlias>(cb.getCalledOperand())) cf=dyn_cast<Function>(ga->getAliaseeObject());
        if(cf&&cf->isIntrinsic()){
          switch(cf->getIntrinsicID()){
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: return;
          default: break; }
        }
        for(auto&a:cb.args()){ x.xs.push_back(opnd(a.get())); std::vector<unsigned> w; leafTypes(a->getType(),w); x.us.push_back(w.empty()?0:w[0]); x.us.push_back(w.size()); }
        if(!cf){ x.op=I_CALLIND; x.a=opnd(cb.getCalledOperand()); }
        else if(cf->isDeclaration()){ x.op=I_EXT; x.sub=cf->isIntrinsic()?1:0; x.p=cf; x.w=x.n?W1(t):0; x.imm=cf->getIntrinsicID(); }
        else { x.op=I_CALL; x.p=cf; }
      }
      F.code.push_back(x);
      if(auto*inv=dyn_cast<InvokeInst>(&I)){ Inst y; y.op=I_BR; y.src=&I; y.b=edge(I.getParent(),inv->getNormalDest()); F.code.push_back(y); }
      return; }
    case Instruction::ExtractValue: { auto&ev=cast<ExtractValueInst>(I); Type*at_=ev.getAggregateOperand()->getType(); unsigned off=0; for(unsigned idx:ev.indices()){ if(auto*st=dyn_cast<StructType>(at_)){ for(unsigned i=0;i<idx;i++) off+=nslots(st->getElementType(i)); at_=st->getElementType(idx);} else { auto*ar=cast<ArrayType>(at_); off+=idx*nslots(ar->getElementType()); at_=ar->getElementType(); } }
      x.op=I_COPY; x.n=nslots(t); x.a=at(opnd(ev.getAggregateOperand()),off); break; }
    case Instruction::InsertValue: { auto&iv=cast<InsertValueInst>(I); Type*at_=t; unsigned off=0; for(unsigned idx:iv.indices()){ if(auto*st=dyn_cast<StructType>(at_)){ for(unsigned i=0;i<idx;i++) off+=nslots(st->getElementType(i)); at_=st->getElementType(idx);} else { auto*ar=cast<ArrayType>(at_); off+=idx*nslots(ar->getElementType()); at_=ar->getElementType(); } }
      x.op=I_COPY; x.n=nslots(t); x.a=opnd(iv.getAggregateOperand()); F.code.push_back(x); Inst y; y.op=I_COPY; y.src=&I; y.dst=x.dst+off; y.n=nslots(iv.getInsertedValueOperand()->getType()); y.a=opnd(iv.getInsertedValueOperand()); F.code.push_back(y); return; }
    case Instruction::ExtractElement: { auto*ci=dyn_cast<ConstantInt>(I.getOperand(1)); if(!ci) throw EngineErr{"extractelement"}; x.op=I_COPY; x.n=nslots(t); x.a=at(opnd(I.getOperand(0)),ci->getZExtValue()*x.n); break; }
    case Instruction::InsertElement: { auto*ci=dyn_cast<ConstantInt>(I.getOperand(2)); if(!ci) throw EngineErr{"insertelement"}; x.op=I_COPY; x.n=nslots(t); x.a=opnd(I.getOperand(0)); F.code.push_back(x); Inst y; y.op=I_COPY; y.src=&I; y.n=1; y.dst=x.dst+ci->getZExtValue(); y.a=opnd(I.getOperand(1)); F.code.push_back(y); return; }
    case Instruction::ShuffleVector: { auto&sv=cast<ShuffleVectorInst>(I); unsigned n1=nslots(sv.getOperand(0)->getType()); auto mask=sv.getShuffleMask(); for(unsigned i=0;i<mask.size();i++){ if(mask[i]<0) continue; Inst y; y.op=I_COPY; y.src=&I; y.n=1; y.dst=x.dst+i; y.a=(unsigned)mask[i]<n1?at(opnd(sv.getOperand(0)),mask[i]):at(opnd(sv.getOperand(1)),mask[i]-n1); F.code.push_back(y);} return; }
    case Instruction::LandingPad: x.op=I_TRAP; x.imm=1; break;
    case Instruction::Resume: x.op=I_TRAP; x.imm=1; break;
    case Instruction::Fence: return;
    default: throw EngineErr{std::string("unsupported instruction ")+I.getOpcodeName()};
    }
    F.code.push_back(x);
  }
};
static std::string engineNote;
static FnInfo* getFn(Function*f){
  auto it=fns.find(f); if(it!=fns.end()&&it->second->ready) return it->second;
  FnInfo*fi=new FnInfo(); fi->f=f; fi->name=f->getName().str(); fi->id=fnById.size(); fnById.push_back(fi); fns[f]=fi;
  Compiler c(*fi); c.run();
  return fi;
}

// ---------------------------------------------------------------- executor
struct Exec {
  std::vector<State*> work; State*cur=nullptr; u64 modelIds=1; u64 localQ=0; int checkIdCount=0;
  u64 locInstr=0;
  u64 rng=88172645463325252ull;
  Val &R(int o){ return o>=0? cur->regs[cur->frames.back().base+o] : cpool[-1-o]; }
  Expr*E(int o,unsigned w){ return toE(R(o),w); }
  void setR(int d,Val v){ cur->regs[cur->frames.back().base+d]=v; }

  Res query(const std::vector<Expr*>&pc,Expr*extra,ModelP*out){
    SH->queries++; localQ++;
    auto t0=std::chrono::steady_clock::now();
    auto m=std::make_shared<Model>(); m->id=(u64)getpid()<<32|modelIds++;
    Res r=UNKNOWN;
    if(LB){
      if(LB->check(pc,extra,1000)==UNSAT) r=UNSAT;
      else if(LS->run(pc,extra,cur->model.get(),m.get(),0.3)){ m->id=(u64)getpid()<<32|modelIds++; SH->lsHits++; r=SAT; }
      else if(NB&&NB->check(pc,extra,(unsigned)(O.qsec*500))==UNSAT) r=UNSAT;
      if(r==UNSAT){ BB->coreOk=false; SH->linHits++; } }
    if(r==UNKNOWN&&AB){ Model tmp; tmp.id=0; if(AB->check(pc,extra,&tmp,O.conflicts,std::max(0.5,std::min(O.qsec,deadline-nowS()+5)))==UNSAT){ r=UNSAT; BB->coreOk=false; SH->linHits++; } else if(LS->run(pc,extra,cur->model.get(),m.get(),0.3)){ m->id=(u64)getpid()<<32|modelIds++; SH->lsHits++; r=SAT; } }
    if(r==UNKNOWN) r=BB->check(pc,extra,m.get(),O.conflicts,std::max(0.5,std::min(O.qsec,deadline-nowS()+5)));
    SH->solverUs+=std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now()-t0).count();
    if(O.verbose&&extra){ double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); if(dt>0.3){ fprintf(stderr,"SLOW %.2fs res=%d pc=%zu: %s\n",dt,(int)r,pc.size(),show(extra,14).c_str()); fprintf(stderr,"  stack:"); for(auto it=cur->frames.rbegin();it!=cur->frames.rend();++it) fprintf(stderr," < %s",demangle(it->fn->name).substr(0,60).c_str()); fprintf(stderr,"\n"); } }
    if(O.verbose&&extra&&r==UNSAT&&(localQ%97)==0) fprintf(stderr,"UNS %.1fms pc=%zu core=%zu: %s\n",1e3*std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(),pc.size(),BB->coreOk?BB->core.size():0,show(extra,9).c_str());
    if(r==SAT){ SH->satq++;
      { EV->setModel(m.get()); bool bad=extra&&!EV->ev(extra); for(size_t i=0;!bad&&i<pc.size();i++) bad=!EV->ev(pc[i]);
        if(bad){ fprintf(stderr,"irsym: solver model fails evaluation, asking Z3\n"); if(!Z3) Z3=new Z3Back(*PP); r=Z3->check(pc,extra,m.get()); m->id=(u64)getpid()<<32|modelIds++;
          if(r==SAT){ EV->setModel(m.get()); bad=extra&&!EV->ev(extra); for(Expr*e:pc) bad|=!EV->ev(e); if(bad) r=UNKNOWN; }
          if(r!=SAT){ SH->satq--; (r==UNSAT?SH->unsatq:SH->unkq)++; BB->coreOk=false; return r; } } }
      if(out) *out=m; }
    else if(r==UNSAT){ SH->unsatq++;
      if(O.z3every&&localQ%O.z3every==0){ Res z=Z3->check(pc,extra,nullptr); SH->z3checks++; if(z==SAT){ SH->z3mism++; fprintf(stderr,"Z3 DISAGREES (says sat)\n"); } }
    } else SH->unkq++;
    return r;
  }
  u64 curStamp=0,nextStamp=0;
  void markTrue(Expr*e){ e->pcStamp=curStamp; }
  bool isTrue(Expr*e){ return e->pcStamp==curStamp; }
  void addPC(Expr*e){ // conjunctions are kept as separate literals
    if(e==PP->T) return;
    if(e->k==K_AND&&e->w==1){ addPC(e->a[0]); addPC(e->a[1]); markTrue(e); cur->implied.push_back(e); return; }
    if(e->k==K_NOT&&e->a[0]->k==K_OR){ addPC(PP->not_(e->a[0]->a[0])); addPC(PP->not_(e->a[0]->a[1])); markTrue(e); cur->implied.push_back(e); return; }
    if(isTrue(e)) return;
    cur->pc.push_back(e); markTrue(e); }
  void addImplied(Expr*e){ if(isTrue(e)) return; cur->implied.push_back(e); markTrue(e); }
  void enter(State*s){ cur=s; dgReset(); ivOwner=nullptr; ++nextStamp; curStamp=nextStamp; for(Expr*e:s->pc) markTrue(e); for(Expr*e:s->implied) markTrue(e); }
  // ---- difference constraints implied by the path condition: edge u->v with
  // weight k says v <= u + k; node 0 is the constant zero
  struct DEdge { int to; SW k; };
  std::unordered_map<Expr*,int> dgId; std::vector<std::vector<DEdge>> dgOut; std::vector<SW> dgDist; std::vector<u8> dgIn; State*dgOwner=nullptr; size_t dgCount=0; std::vector<int> dgQ; std::vector<Expr*> dgNodes;
  void dgReset(){ dgOwner=nullptr; }
  bool dgAtom(Expr*e,int&n,SW&c){ // e = node n + c
    c=0;
    for(;;){
      if(e->k==K_SEXT||(e->k==K_ZEXT&&e->a[0]->lo>=0)||(e->k==K_EXTRACT&&e->nowrap&&e->aux==0)) { e=e->a[0]; continue; }
      if(e->k==K_ADD&&e->nowrap&&e->a[1]->k==K_CONST){ c+=sgn(e->a[1]->val,e->w); e=e->a[0]; continue; }
      break; }
    SW lim=(SW)1<<70; if(c>lim||c<-lim) return false;
    if(e->k==K_CONST){ c+=sgn(e->val,e->w); n=0; return c<=lim&&c>=-lim; }
    auto it=dgId.find(e); if(it!=dgId.end()){ n=it->second; return true; }
    n=dgOut.size(); dgId[e]=n; dgOut.emplace_back(); 
    if(e->hi<lim) dgOut[0].push_back({n,e->hi}); if(e->lo>-lim) dgOut[n].push_back({0,-e->lo});
    return true; }
  void dgLe(int a,int b,SW k){ if(a!=b) dgOut[b].push_back({a,k}); } // a <= b + k
  void dgFact(Expr*e){
    bool neg=false; if(e->k==K_NOT){ neg=true; e=e->a[0]; }
    if(e->k!=K_SLT&&(e->k!=K_EQ||neg)) return; if(e->a[0]->w==1||e->a[0]->k==K_FRAT) return;
    int a,b; SW ca,cb; if(!dgAtom(e->a[0],a,ca)||!dgAtom(e->a[1],b,cb)) return;
    if(e->k==K_EQ){ dgLe(a,b,cb-ca); dgLe(b,a,ca-cb); }
    else if(!neg) dgLe(a,b,cb-ca-1); else dgLe(b,a,ca-cb); }
  void dgSync(){
    if(dgOwner!=cur||dgCount>cur->pc.size()){ dgId.clear(); dgOut.clear(); dgOut.emplace_back(); dgOwner=cur; dgCount=0; }
    for(;dgCount<cur->pc.size();dgCount++) dgFact(cur->pc[dgCount]); }
  bool dgImplies(int a,int b,SW k){ // a <= b + k ?
    if(a==b) return k>=0;
    size_t n=dgOut.size(); dgDist.assign(n,(SW)0); dgIn.assign(n,0); dgQ.clear(); dgQ.push_back(b); dgIn[b]=3; size_t h=0; u64 work_=0;
    while(h<dgQ.size()){ int u=dgQ[h++]; dgIn[u]&=~2; if(++work_>20000) return false;
      for(auto&e:dgOut[u]){ SW d=dgDist[u]+e.k; if(!(dgIn[e.to]&1)||d<dgDist[e.to]){ dgDist[e.to]=d; if(e.to==a&&d<=k) return true; if(e.to==b) continue; if(!(dgIn[e.to]&2)) dgQ.push_back(e.to); dgIn[e.to]|=3; } } }
    return false; }
  // 1: implied, 0: refuted, -1: unknown
  int tri(Expr*c,int depth=0){
    if(c==PP->T) return 1; if(c==PP->F) return 0;
    if(isTrue(c)) return 1;
    if(c->k==K_NOT){ int r=tri(c->a[0],depth); return r<0?r:1-r; }
    if(isTrue(PP->not_(c))) return 0;
    if(c->w!=1||depth>6) return -1;
    switch(c->k){
    case K_AND: { int x=tri(c->a[0],depth+1); if(x==0) return 0; int y=tri(c->a[1],depth+1); if(y==0) return 0; return x==1&&y==1?1:-1; }
    case K_OR: { int x=tri(c->a[0],depth+1); if(x==1) return 1; int y=tri(c->a[1],depth+1); if(y==1) return 1; return x==0&&y==0?0:-1; }
    case K_XOR: { int x=tri(c->a[0],depth+1); if(x<0) return -1; int y=tri(c->a[1],depth+1); return y<0?-1:x^y; }
    case K_ITE: { int x=tri(c->a[0],depth+1); if(x>=0) return tri(c->a[x?1:2],depth+1); int y=tri(c->a[1],depth+1),z=tri(c->a[2],depth+1); return y==z?y:-1; }
    case K_SLT: case K_EQ: {
      if(c->a[0]->w==1||c->a[0]->k==K_FRAT) return -1;
      int a,b; SW ca,cb; if(!dgAtom(c->a[0],a,ca)||!dgAtom(c->a[1],b,cb)) return -1;
      bool le=dgImplies(a,b,cb-ca),ge=dgImplies(b,a,ca-cb);
      if(c->k==K_SLT){ if(ge) return 0; if(dgImplies(a,b,cb-ca-1)) return 1; if(le&&isTrue(PP->not_(PP->eq(c->a[0],c->a[1])))) return 1; return -1; }
      if(le&&ge) return 1; if(dgImplies(a,b,cb-ca-1)||dgImplies(b,a,ca-cb-1)) return 0; return -1; }
    default: return -1; }
  }
  // ---- intervals of terms under the path condition
  typedef __int128 I; struct Iv { I lo,hi; }; u64 ivNow=1; State*ivOwner=nullptr;
  static I big(){ return (I)1<<100; }
  static Iv base(Expr*e){ Iv r; SW B=(SW)1<<100; r.lo=e->lo<-B?-big():(I)e->lo; r.hi=e->hi>B?big():(I)e->hi; return r; }
  static I satMul(I a,I b,bool&ok){ if(a==0||b==0) return 0; I m=(I)1<<62; if(a>m||a<-m||b>m||b<-m){ ok=false; return 0; } return a*b; }
  static I fdiv(I a,I b){ I q=a/b; if(a%b!=0&&((a<0)!=(b<0))) q--; return q; }
  Iv iv(Expr*e){
    if(e->k==K_CONST){ return base(e); }
    if(e->ivStamp==ivNow) return Iv{e->ivLo,e->ivHi};
    Iv r=base(e),x=r; bool have=false;
    switch(e->k){
    case K_VAR: if(e->aux<cur->bnd.size()&&cur->bnd[e->aux].first<=cur->bnd[e->aux].second){ x.lo=cur->bnd[e->aux].first; x.hi=cur->bnd[e->aux].second; have=true; } break;
    case K_ADD: { Iv a=iv(e->a[0]),b=iv(e->a[1]); x=Iv{a.lo+b.lo,a.hi+b.hi}; have=true; break; }
    case K_SUB: { Iv a=iv(e->a[0]),b=iv(e->a[1]); x=Iv{a.lo-b.hi,a.hi-b.lo}; have=true; break; }
    case K_MUL: { Iv a=iv(e->a[0]),b=iv(e->a[1]); bool ok=true; I q[4]={satMul(a.lo,b.lo,ok),satMul(a.lo,b.hi,ok),satMul(a.hi,b.lo,ok),satMul(a.hi,b.hi,ok)}; if(ok){ x=Iv{*std::min_element(q,q+4),*std::max_element(q,q+4)}; if(e->a[0]==e->a[1]&&x.lo<0) x.lo=0; have=true; } break; }
    case K_SEXT: x=iv(e->a[0]); have=true; break;
    case K_ZEXT: x=iv(e->a[0]); have=x.lo>=0; break;
    case K_EXTRACT: if(e->aux==0){ x=iv(e->a[0]); have=true; } break;
    case K_ASHR: if(e->a[1]->k==K_CONST&&e->a[1]->val<90){ x=iv(e->a[0]); int s=(int)e->a[1]->val; x.lo>>=s; x.hi>>=s; have=true; } break;
    case K_FLOORDIV: case K_UDIV: { Iv a=iv(e->a[0]),b=iv(e->a[1]); if(e->k==K_UDIV&&(a.lo<0||b.lo<=0)) break; if(b.lo<=0&&b.hi>=0) break; if(a.lo<=-big()||a.hi>=big()||b.lo<=-big()||b.hi>=big()) break; I q[4]={fdiv(a.lo,b.lo),fdiv(a.lo,b.hi),fdiv(a.hi,b.lo),fdiv(a.hi,b.hi)}; x=Iv{*std::min_element(q,q+4),*std::max_element(q,q+4)}; have=true; break; }
    case K_ITE: if(e->w>1){ int c=ivB(e->a[0]); Iv a=iv(e->a[1]),b=iv(e->a[2]); x=c==1?a:c==0?b:Iv{std::min(a.lo,b.lo),std::max(a.hi,b.hi)}; have=true; } break;
    default: break; }
    if(have){ // usable when it cannot wrap (or is known not to)
      bool fits=e->w>=127||(x.lo>=-((I)1<<(e->w-1))&&x.hi<=((I)1<<(e->w-1))-1);
      if((fits||e->nowrap)&&x.lo>-big()&&x.hi<big()){ if(x.lo>r.lo) r.lo=x.lo; if(x.hi<r.hi) r.hi=x.hi; }
      if(r.lo>r.hi) r=base(e); }
    e->ivStamp=ivNow; e->ivLo=r.lo; e->ivHi=r.hi; return r; }
  int ivB(Expr*c,int d=0){ // 1 true, 0 false, -1 unknown
    if(c==PP->T) return 1; if(c==PP->F) return 0; if(d>8) return -1;
    switch(c->k){
    case K_NOT: { int r=ivB(c->a[0],d+1); return r<0?r:1-r; }
    case K_AND: { int x=ivB(c->a[0],d+1); if(x==0) return 0; int y=ivB(c->a[1],d+1); if(y==0) return 0; return x==1&&y==1?1:-1; }
    case K_OR: { int x=ivB(c->a[0],d+1); if(x==1) return 1; int y=ivB(c->a[1],d+1); if(y==1) return 1; return x==0&&y==0?0:-1; }
    case K_SLT: { if(c->a[0]->w==1) return -1; Iv a=iv(c->a[0]),b=iv(c->a[1]); if(a.hi<b.lo&&a.hi<big()&&b.lo>-big()) return 1; if(a.lo>=b.hi&&a.lo>-big()&&b.hi<big()) return 0; return -1; }
    case K_ULT: { if(c->a[0]->w==1) return -1; Iv a=iv(c->a[0]),b=iv(c->a[1]); if(a.lo<0||b.lo<0) return -1; if(a.hi<b.lo&&a.hi<big()) return 1; if(a.lo>=b.hi&&b.hi<big()) return 0; return -1; }
    case K_EQ: { if(c->a[0]->w==1||c->a[0]->k==K_FRAT) return -1; Iv a=iv(c->a[0]),b=iv(c->a[1]); if(a.hi<b.lo||b.hi<a.lo) return 0; if(a.lo==a.hi&&b.lo==b.hi&&a.lo==b.lo&&a.lo>-big()&&a.lo<big()) return 1; return -1; }
    default: return -1; } }
  bool ivChg;
  bool noWrap(Expr*e,const Iv&x){ return e->nowrap||((I)1<<(e->w>100?100:e->w-1))>x.hi&&-((I)1<<(e->w>100?100:e->w-1))<=x.lo; }
  void narrow(Expr*e,I lo,I hi,int d=0){ // e is known to lie in [lo,hi]
    if(e->k==K_CONST||d>20) return; Iv c=iv(e); if(lo<=c.lo&&hi>=c.hi) return; lo=std::max(lo,c.lo); hi=std::min(hi,c.hi); if(lo>hi) return;
    switch(e->k){
    case K_VAR: { if(lo<-((I)1<<62)||hi>((I)1<<62)) return; if(e->aux>=cur->bnd.size()) cur->bnd.resize(e->aux+1,{1,0}); auto&b=cur->bnd[e->aux]; b={(i64)lo,(i64)hi}; ivChg=true; ivNow++; return; }
    case K_ADD: { Iv a=iv(e->a[0]),b=iv(e->a[1]); if(!noWrap(e,Iv{a.lo+b.lo,a.hi+b.hi})) return; narrow(e->a[0],lo-b.hi,hi-b.lo,d+1); a=iv(e->a[0]); narrow(e->a[1],lo-a.hi,hi-a.lo,d+1); return; }
    case K_SUB: { Iv a=iv(e->a[0]),b=iv(e->a[1]); if(!noWrap(e,Iv{a.lo-b.hi,a.hi-b.lo})) return; narrow(e->a[0],lo+b.lo,hi+b.hi,d+1); a=iv(e->a[0]); narrow(e->a[1],a.lo-hi,a.hi-lo,d+1); return; }
    case K_MUL: { if(!e->nowrap) return; for(int s=0;s<2;s++){ Expr*x=e->a[s],*y=e->a[1-s]; Iv b=iv(y); if(b.lo!=b.hi||b.lo==0) continue; I k=b.lo; I l=lo,h=hi; if(k<0){ k=-k; I t=-l; l=-h; h=t; } narrow(x,-fdiv(-l,k),fdiv(h,k),d+1); return; } return; }
    case K_SEXT: narrow(e->a[0],lo,hi,d+1); return;
    case K_ZEXT: if(iv(e->a[0]).lo>=0) narrow(e->a[0],lo,hi,d+1); return;
    case K_EXTRACT: if(e->aux==0&&(e->nowrap||noWrap(e,iv(e->a[0])))) narrow(e->a[0],lo,hi,d+1); return;
    case K_ASHR: if(e->a[1]->k==K_CONST&&e->a[1]->val<60){ I f=(I)1<<(int)e->a[1]->val; if(lo>-((I)1<<40)&&hi<((I)1<<40)) narrow(e->a[0],lo*f,hi*f+f-1,d+1); } return;
    case K_FLOORDIV: { Iv b=iv(e->a[1]); if(b.lo==b.hi&&b.lo>0&&lo>-((I)1<<40)&&hi<((I)1<<40)&&b.lo<((I)1<<40)) narrow(e->a[0],lo*b.lo,hi*b.lo+b.lo-1,d+1); return; }
    default: return; } }
  void ivFact(Expr*e){
    bool neg=false; if(e->k==K_NOT){ neg=true; e=e->a[0]; }
    if((e->k!=K_SLT&&e->k!=K_EQ)||e->a[0]->w==1||e->a[0]->k==K_FRAT) return;
    Expr*a=e->a[0],*b=e->a[1]; Iv x=iv(a),y=iv(b);
    if(e->k==K_EQ){ if(!neg){ narrow(a,y.lo,y.hi); x=iv(a); narrow(b,x.lo,x.hi); } else for(int s=0;s<2;s++){ Expr*p=s?b:a,*q=s?a:b; Iv z=iv(q),w=iv(p); if(z.lo==z.hi&&w.lo<w.hi){ if(w.lo==z.lo) narrow(p,w.lo+1,w.hi); else if(w.hi==z.lo) narrow(p,w.lo,w.hi-1); } } return; }
    if(!neg){ narrow(a,x.lo,y.hi-1); x=iv(a); narrow(b,x.lo+1,y.hi); }
    else { narrow(b,y.lo,x.hi); y=iv(b); narrow(a,y.lo,x.hi); } }
  void ivSync(){
    if(ivOwner!=cur){ ivOwner=cur; ivNow++; }
    if(cur->bndPc==cur->pc.size()) return;
    size_t from=cur->bndPc; cur->bndPc=cur->pc.size();
    for(int r=0;r<4;r++){ ivChg=false; for(size_t i=r?(cur->pc.size()>60?cur->pc.size()-60:0):from;i<cur->pc.size();i++) ivFact(cur->pc[i]); if(!ivChg) break; } }
  bool known(Expr*c,bool&val){
    if(isTrue(c)){ val=true; return true; }
    if(c->k==K_NOT){ if(isTrue(c->a[0])){ val=false; return true; } }
    else { Expr*n=PP->not_(c); if(isTrue(n)){ val=false; return true; } }
    { ivSync(); int q=ivB(c); if(q>=0){ SH->ivHits++; val=q; addImplied(q?c:PP->not_(c)); return true; } }
    dgSync(); int r=tri(c); if(r<0) return false;
    SH->diffHits++; val=r; addImplied(r?c:PP->not_(c)); return true;
  }
  // cores of earlier UNSAT answers, by the literal that was asked for
  std::unordered_map<Expr*,std::vector<std::vector<Expr*>>> cores; size_t nCores=0;
  bool coreHit(Expr*lit){
    auto it=cores.find(lit); if(it==cores.end()) return false;
    auto&v=it->second;
    for(size_t i=0;i<v.size();i++){ bool ok=true; for(Expr*e:v[i]) if(!isTrue(e)){ ok=false; break; } if(ok){ if(i) std::swap(v[i],v[i/2]); return true; } }
    return false;
  }
  bool evalB(Expr*c){ EV->setModel(cur->model.get()); return EV->ev(c)!=0; }
  // the forked state re-executes the current instruction and finds the literal in its path condition
  void forkOther(Expr*other,ModelP m,bool stale){
      State*o=new State(*cur); o->model=m; o->stale=stale; o->depth++; u64 sv=curStamp; { State*k=cur; ++nextStamp; curStamp=nextStamp; cur=o; for(Expr*e:o->pc) markTrue(e); for(Expr*e:o->implied) markTrue(e); addPC(other); cur=k; ++nextStamp; curStamp=nextStamp; for(Expr*e:k->pc) markTrue(e); for(Expr*e:k->implied) markTrue(e); } (void)sv;
      // the forked state re-executes the current instruction and finds the literal in its path condition
      o->frames.back().pc--; 
      work.push_back(o); SH->forks++;
  }
  // decide a 1-bit condition, forking when both sides are feasible
  bool decide(Expr*c){
    if(c==PP->T) return true; if(c==PP->F) return false;
    bool kv; if(known(c,kv)) return kv;
    if(cur->stale){ // look at both sides
      ModelP m1,m2; Res r1=query(cur->pc,c,&m1),r2=r1==UNSAT?UNKNOWN:query(cur->pc,PP->not_(c),&m2);
      if(r1==UNSAT){ addImplied(PP->not_(c)); return false; }
      if(r2==UNSAT){ addImplied(c); if(r1==SAT){ cur->model=m1; cur->stale=false; } return true; }
      forkOther(PP->not_(c),r2==SAT?m2:cur->model,r2!=SAT);
      if(r1==SAT){ cur->model=m1; cur->stale=false; }
      addPC(c); cur->depth++; return true; }
    bool mv=evalB(c);
    Expr*taken=mv?c:PP->not_(c),*other=mv?PP->not_(c):c;
    if(coreHit(other)){ SH->coreHits++; addImplied(taken); return mv; }
    ModelP m; Res r=query(cur->pc,other,&m);
    if(r==SAT){
      forkOther(other,m,false);
      addPC(taken); cur->depth++;
    } else if(r==UNSAT){ if(BB->coreOk&&BB->core.size()<=12&&nCores<400000){ auto&v=cores[other]; if(v.size()<24){ v.push_back(BB->core); nCores++; } } addImplied(taken); }
    else { forkOther(other,m?m:cur->model,true); addPC(taken); cur->depth++; }
    return mv;
  }
  void refresh(){ if(!cur->stale) return; ModelP m; Res r=query(cur->pc,PP->T,&m); if(r==SAT){ cur->model=m; cur->stale=false; } else if(r==UNSAT) throw Kill{}; else perr("engine","feasibility of the path not decided"); }
  u64 concretize(Val&v,unsigned w){ // fork over the values of a symbolic word
    if(!v.e) return v.c;
    if(v.e->k==K_CONST) return (u64)v.e->val;
    for(;;){
      if(cur->stale) refresh();
      // known equality?
      EV->setModel(cur->model.get()); W val=EV->ev(v.e);
      // look in pc for eq(v.e,const)
      for(auto*vv:{&cur->pc,&cur->implied}) for(Expr*e:*vv) if(e->k==K_EQ&&((e->a[0]==v.e&&e->a[1]->k==K_CONST))) return (u64)e->a[1]->val;
      Expr*c=PP->eq(v.e,PP->mkConst(w,val));
      if(decide(c)) return (u64)val;
    }
  }
  void killUnless(Expr*c){
    if(c==PP->T) return; if(c==PP->F) throw Kill{};
    bool kv; if(known(c,kv)){ if(kv) return; throw Kill{}; }
    if(!cur->stale&&evalB(c)){ addPC(c); return; }
    ModelP m; Res r=query(cur->pc,c,&m); if(r==SAT){ cur->model=m; cur->stale=false; addPC(c); return; }
    if(r==UNKNOWN){ cur->stale=true; addPC(c); return; }
    throw Kill{};
  }
  static std::string jesc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((u8)c<32) o+=' '; else o+=c; } return o; }
  void writeModel(const std::string&fn,const std::string&kind,const std::string&msg,const ModelP&m){
    FILE*f=fopen(fn.c_str(),"w"); if(!f) return;
    fprintf(f,"# kind %s\n# msg %s\n",kind.c_str(),msg.c_str());
    std::string st; for(auto it=cur->frames.rbegin();it!=cur->frames.rend();++it){ st+=demangle(it->fn->name).substr(0,160)+" < "; }
    fprintf(f,"# stack %s\n",st.c_str());
    EV->setModel(m.get());
    for(auto&p:cur->inputs){ W v=EV->ev(p.second); i64 x=(i64)(u64)v; fprintf(f,"%s %lld\n",names[p.first].c_str(),(long long)x); }
    fclose(f);
  }
  void report(const std::string&kind,const std::string&msg,const ModelP&m){
    u64 n=SH->violations++;
    writeModel(O.out+".viol"+std::to_string(n)+".txt",kind,msg,m);
    if((int)n+1>=O.maxViol) SH->stop=1;
  }
  std::string cstr(u64 a){ std::string s; for(;;){ Val v=loadV(*cur,a,8); if(v.e||!v.c) break; s+=(char)v.c; a++; } return s; }
  void doCheck(Val c,const std::string&id){
    int ix=tabIdx("check:"+id); SH->tabCnt[ix]++; SH->checks++;
    if(!c.e){ if(c.c) return; refresh(); report("check",id,cur->model); throw PathDone{}; }
    Expr*cond=c.e; if(cond->w!=1) cond=PP->not_(PP->eq(cond,PP->mkConst(cond->w,0)));
    if(cond==PP->T) return;
    bool kv; if(known(cond,kv)){ if(kv) return; refresh(); report("check",id,cur->model); throw PathDone{}; }
    SH->tabSym[ix]++; SH->checksSym++;
    if(!cur->stale&&!evalB(cond)){ report("check",id,cur->model); }
    else { ModelP m; Res r=query(cur->pc,PP->not_(cond),&m); SH->checkQueries++; if(r==SAT) report("check",id,m); else if(r==UNKNOWN) SH->chkUnk++; else { addImplied(cond); return; } }
    killUnless(cond);
  }
  // ---- doubles as exact rationals
  bool asFrat(Val v,unsigned w,Expr*&n,Expr*&d){
    if(v.e){ if(v.e->k==K_FRAT){ n=v.e->a[0]; d=v.e->a[1]; return true; } return false; }
    double x; if(w==64) memcpy(&x,&v.c,8); else { float f; u32 c=(u32)v.c; memcpy(&f,&c,4); x=f; }
    if(!std::isfinite(x)) return false;
    int ex; double fr=frexp(x,&ex); // x=fr*2^ex
    i64 mant=(i64)ldexp(fr,53); ex-=53; while(mant&&!(mant&1)){mant/=2;ex++;}
    if(mant==0){ n=PP->mkConst(Pool::RW,0); d=PP->mkConst(Pool::RW,1); return true; }
    if(ex>60||ex<-120) return false;
    W mn=(W)(SW)mant; if(ex>0) mn=(W)((SW)mant*((SW)1<<ex));
    n=PP->mkConst(Pool::RW,mn); d=PP->mkConst(Pool::RW,ex<0?(W(1)<<-ex):W(1)); return true;
  }
  Expr*chkNW(Expr*e){ if(e->k==K_CONST) return e; if((e->k==K_MUL||e->k==K_ADD||e->k==K_SUB)&&!e->nowrap) perr("engine","rational model overflow"); return e; }
  Val mkF(Expr*n,Expr*d){
    if(n->k==K_CONST&&d->k==K_CONST){ double x=Evaluator::toD(n->val,n->w)/Evaluator::toD(d->val,d->w); Val v; memcpy(&v.c,&x,8); return v; }
    // cancel common factors (the denominator is known to be non-zero)
    { Pool::Prod a,b; PP->prod(n,a); PP->prod(d,b); bool ch=Pool::cancel(a,b); if(b.neg){ a.neg=!a.neg; b.neg=false; ch=true; }
      if(ch&&PP->rangeOk(a,Pool::RW)&&PP->rangeOk(b,Pool::RW)) { n=PP->rebuild(a,Pool::RW); d=PP->rebuild(b,Pool::RW);
        if(n->k==K_CONST&&d->k==K_CONST) return mkF(n,d); } }
    if(n->k==K_CONST&&n->val==0) return Val{0,nullptr};
    return Val{0,PP->frat(n,d)};
  }
  Val fop(int op,Val a,Val b,unsigned w){
    if(!a.e&&!b.e){
      if(w==64){ double x,y,r=0; memcpy(&x,&a.c,8); memcpy(&y,&b.c,8);
        switch(op){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; case Instruction::FRem:r=fmod(x,y);break; }
        Val v; memcpy(&v.c,&r,8); return v; }
      float x,y,r=0; u32 p=(u32)a.c,q=(u32)b.c; memcpy(&x,&p,4); memcpy(&y,&q,4);
      switch(op){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; case Instruction::FRem:r=fmodf(x,y);break; }
      Val v; u32 o; memcpy(&o,&r,4); v.c=o; return v; }
    Expr*n1,*d1,*n2,*d2; if(!asFrat(a,w,n1,d1)||!asFrat(b,w,n2,d2)) perr("engine","unsupported symbolic floating-point operand");
    if(op==Instruction::FMul){ 
      if(n1==d2) return mkF(n2,d1); if(n2==d1) return mkF(n1,d2);
      return mkF(chkNW(PP->mul(n1,n2)),chkNW(PP->mul(d1,d2))); }
    if(op==Instruction::FDiv){ 
      Expr*den=chkNW(PP->mul(d1,n2)); 
      Expr*z=PP->eq(den,PP->mkConst(Pool::RW,0)); if(z!=PP->F){ if(decide(z)) perr("fp","floating-point division by zero"); }
      if(d1==d2) return mkF(n1,n2);
      return mkF(chkNW(PP->mul(n1,d2)),den); }
    if(d1==d2) return mkF(chkNW(op==Instruction::FAdd?PP->add(n1,n2):PP->sub(n1,n2)),d1);
    Expr*x=chkNW(PP->mul(n1,d2)),*y=chkNW(PP->mul(n2,d1)); if(op==Instruction::FAdd) return mkF(chkNW(PP->add(x,y)),chkNW(PP->mul(d1,d2))); if(op==Instruction::FSub) return mkF(chkNW(PP->sub(x,y)),chkNW(PP->mul(d1,d2)));
    perr("engine","unsupported symbolic frem");
  }
  Expr*fratCmp(Val a,Val b,unsigned w,int which){ // which 0: a<b 1: a==b
    Expr*n1,*d1,*n2,*d2; if(!asFrat(a,w,n1,d1)||!asFrat(b,w,n2,d2)){
      // infinities against finite rationals
      auto inf=[&](Val v,int&s){ if(v.e) return false; double x; if(w==64) memcpy(&x,&v.c,8); else return false; if(std::isinf(x)){ s=x>0?1:-1; return true;} return false; };
      int s; if(inf(a,s)) return which==0?PP->b(s<0):PP->F; if(inf(b,s)) return which==0?PP->b(s>0):PP->F;
      perr("engine","unsupported symbolic floating-point comparison"); }
    Expr*z=PP->mkConst(Pool::RW,0);
    Expr*l=chkNW(PP->mul(n1,d2)),*r=chkNW(PP->mul(n2,d1));
    if(which==1) return PP->eq(l,r);
    Expr*s1=PP->slt(d1,z),*s2=PP->slt(d2,z); Expr*flip=PP->bin(K_XOR,s1,s2);
    return PP->ite(flip,PP->slt(r,l),PP->slt(l,r));
  }
  Expr*ffloor(Expr*n,Expr*d){ return PP->div(K_FLOORDIV,n,d); }
  Val fcmp(int pred,Val a,Val b,unsigned w){
    if(!a.e&&!b.e){ double x,y; if(w==64){memcpy(&x,&a.c,8);memcpy(&y,&b.c,8);} else { float p,q; u32 u=(u32)a.c,v=(u32)b.c; memcpy(&p,&u,4); memcpy(&q,&v,4); x=p;y=q; }
      bool un=std::isnan(x)||std::isnan(y); bool r=false;
      switch(pred){ case FCmpInst::FCMP_OEQ:r=!un&&x==y;break; case FCmpInst::FCMP_OGT:r=!un&&x>y;break; case FCmpInst::FCMP_OGE:r=!un&&x>=y;break; case FCmpInst::FCMP_OLT:r=!un&&x<y;break; case FCmpInst::FCMP_OLE:r=!un&&x<=y;break; case FCmpInst::FCMP_ONE:r=!un&&x!=y;break; case FCmpInst::FCMP_ORD:r=!un;break; case FCmpInst::FCMP_UNO:r=un;break; case FCmpInst::FCMP_UEQ:r=un||x==y;break; case FCmpInst::FCMP_UGT:r=un||x>y;break; case FCmpInst::FCMP_UGE:r=un||x>=y;break; case FCmpInst::FCMP_ULT:r=un||x<y;break; case FCmpInst::FCMP_ULE:r=un||x<=y;break; case FCmpInst::FCMP_UNE:r=un||x!=y;break; case FCmpInst::FCMP_TRUE:r=true;break; default:r=false; }
      return Val{(u64)r,nullptr}; }
    Expr*r;
    switch(pred){
    case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: r=fratCmp(a,b,w,1); break;
    case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: r=PP->not_(fratCmp(a,b,w,1)); break;
    case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: r=fratCmp(a,b,w,0); break;
    case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: r=fratCmp(b,a,w,0); break;
    case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: r=PP->not_(fratCmp(b,a,w,0)); break;
    case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: r=PP->not_(fratCmp(a,b,w,0)); break;
    case FCmpInst::FCMP_ORD: r=PP->T; break; case FCmpInst::FCMP_UNO: r=PP->F; break;
    default: perr("engine","fcmp"); }
    return fromE(r);
  }
  Val fround(int kind,Val v,unsigned w){ // 0 floor 1 ceil 2 trunc 3 round(half away) -> double
    if(!v.e){ double x; if(w==64) memcpy(&x,&v.c,8); else { float f; u32 c=(u32)v.c; memcpy(&f,&c,4); x=f; } double r=kind==0?floor(x):kind==1?ceil(x):kind==2?trunc(x):round(x); Val o; if(w==64) memcpy(&o.c,&r,8); else { float f=(float)r; u32 c; memcpy(&c,&f,4); o.c=c; } return o; }
    Expr*n,*d; if(!asFrat(v,w,n,d)) perr("engine","unsupported symbolic rounding"); Expr*one=PP->mkConst(Pool::RW,1);
    return mkF(froundI(kind,n,d),one);
  }
  Expr*froundI(int kind,Expr*n,Expr*d){
    if(kind==0) return ffloor(n,d);
    if(kind==1) return PP->neg(ffloor(PP->neg(n),d));
    Expr*z=PP->mkConst(Pool::RW,0); Expr*negv=PP->bin(K_XOR,PP->slt(n,z),PP->slt(d,z));
    if(kind==2) return PP->ite(negv,PP->neg(ffloor(PP->neg(n),d)),ffloor(n,d));
    Expr*two=PP->mkConst(Pool::RW,2); Expr*d2=chkNW(PP->mul(d,two));
    Expr*p=ffloor(chkNW(PP->add(chkNW(PP->mul(n,two)),d)),d2);
    Expr*q=PP->neg(ffloor(chkNW(PP->add(chkNW(PP->mul(PP->neg(n),two)),d)),d2));
    return PP->ite(negv,q,p);
  }
  Val cast_(const Inst&I,Val v){
    unsigned w=I.w,w2=I.w2;
    switch(I.sub){
    case Instruction::PtrToInt: case Instruction::IntToPtr: if(w2<w) goto tr; if(w2>w) goto ze; return v;
    case Instruction::BitCast: return v;
    tr: case Instruction::Trunc: if(!v.e) return Val{v.c&m64(w2),nullptr}; return fromE(PP->extract(v.e,0,w2));
    ze: case Instruction::ZExt: if(!v.e&&w2<=64) return v; return fromE(PP->zext(toE(v,w),w2));
    case Instruction::SExt: if(!v.e&&w2<=64){ i64 x=(i64)(v.c<<(64-w))>>(64-w); return Val{(u64)x&m64(w2),nullptr}; } return fromE(PP->sext(toE(v,w),w2));
    case Instruction::SIToFP: case Instruction::UIToFP: {
      bool sg=I.sub==Instruction::SIToFP;
      if(!v.e||v.e->k==K_CONST){ double d; 
        if(w<=64){ i64 x=sg?(i64)(v.c<<(64-w))>>(64-w):(i64)v.c; if(w2==64){ d=sg?(double)x:(double)(u64)x; Val o; memcpy(&o.c,&d,8); return o;} else { float f=sg?(float)x:(float)(u64)x; Val o; u32 c; memcpy(&c,&f,4); o.c=c; return o; } }
        d=sg?Evaluator::toD(v.e->val,w):Evaluator::toD(v.e->val,256); Val o; memcpy(&o.c,&d,8); return o; }
      Expr*e=v.e; if(e->w>Pool::RW) perr("engine","wide sitofp");
      return mkF(sg?PP->sext(e,Pool::RW):PP->zext(e,Pool::RW),PP->mkConst(Pool::RW,1)); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if(!v.e){ double x; if(w==64) memcpy(&x,&v.c,8); else { float f; u32 c=(u32)v.c; memcpy(&f,&c,4); x=f; }
        if(w2<=64){ u64 r=I.sub==Instruction::FPToSI?(u64)(i64)x:(u64)x; return Val{r&m64(w2),nullptr}; }
        SW r=0; double t=trunc(x); bool ng=t<0; if(ng)t=-t; int ex; double fr=frexp(t,&ex); u64 man=(u64)ldexp(fr,64); W uu=man; ex-=64; uu=ex>=0?uu<<ex:uu>>-ex; r=ng?-(SW)uu:(SW)uu; return Val{0,PP->mkConst(w2,(W)r)}; }
      Expr*n,*d; if(!asFrat(v,w,n,d)) perr("engine","unsupported symbolic fptosi");
      Expr*q=froundI(2,n,d); return fromE(PP->extract(q,0,w2)); }
    case Instruction::FPExt: if(!v.e){ float f; u32 c=(u32)v.c; memcpy(&f,&c,4); double d=f; Val o; memcpy(&o.c,&d,8); return o; } return v;
    case Instruction::FPTrunc: if(!v.e){ double d; memcpy(&d,&v.c,8); float f=(float)d; u32 c; memcpy(&c,&f,4); return Val{c,nullptr}; } perr("engine","symbolic fptrunc");
    }
    perr("engine","cast");
  }
  Val binop(int op,Val a,Val b,unsigned w){
    if(!a.e&&!b.e){
      u64 x=a.c,y=b.c,r=0; i64 sx=(i64)(x<<(64-w))>>(64-w),sy=(i64)(y<<(64-w))>>(64-w);
      switch(op){
      case Instruction::Add:r=x+y;break; case Instruction::Sub:r=x-y;break; case Instruction::Mul:r=x*y;break;
      case Instruction::And:r=x&y;break; case Instruction::Or:r=x|y;break; case Instruction::Xor:r=x^y;break;
      case Instruction::Shl:r=y>=w?0:x<<y;break; case Instruction::LShr:r=y>=w?0:x>>y;break; case Instruction::AShr:r=(u64)(sx>>(y>=w?w-1:y));break;
      case Instruction::UDiv: if(!y) perr("arith","division by zero"); r=x/y;break; case Instruction::URem: if(!y) perr("arith","division by zero"); r=x%y;break;
      case Instruction::SDiv: if(!y) perr("arith","division by zero"); r=sy==-1?(u64)-sx:(u64)(sx/sy);break;
      case Instruction::SRem: if(!y) perr("arith","division by zero"); r=sy==-1?0:(u64)(sx%sy);break; }
      return Val{r&m64(w),nullptr}; }
    Expr*x=toE(a,w),*y=toE(b,w);
    switch(op){
    case Instruction::Add: return fromE(PP->add(x,y)); case Instruction::Sub: return fromE(PP->sub(x,y)); case Instruction::Mul: return fromE(PP->mul(x,y));
    case Instruction::And: return fromE(PP->bin(K_AND,x,y)); case Instruction::Or: return fromE(PP->bin(K_OR,x,y)); case Instruction::Xor: return fromE(PP->bin(K_XOR,x,y));
    case Instruction::Shl: return fromE(PP->shift(K_SHL,x,y)); case Instruction::LShr: return fromE(PP->shift(K_LSHR,x,y)); case Instruction::AShr: return fromE(PP->shift(K_ASHR,x,y));
    default: {
      Expr*z=PP->eq(y,PP->mkConst(w,0)); if(z!=PP->F&&decide(z)) perr("arith","division by zero");
      return fromE(PP->div(op==Instruction::UDiv?K_UDIV:op==Instruction::URem?K_UREM:op==Instruction::SDiv?K_SDIV:K_SREM,x,y)); } }
  }
  Val icmp(int p,Val a,Val b,unsigned w){
    if(!a.e&&!b.e){ u64 x=a.c,y=b.c; i64 sx=(i64)(x<<(64-w))>>(64-w),sy=(i64)(y<<(64-w))>>(64-w); bool r;
      switch(p){ case ICmpInst::ICMP_EQ:r=x==y;break; case ICmpInst::ICMP_NE:r=x!=y;break; case ICmpInst::ICMP_UGT:r=x>y;break; case ICmpInst::ICMP_UGE:r=x>=y;break; case ICmpInst::ICMP_ULT:r=x<y;break; case ICmpInst::ICMP_ULE:r=x<=y;break; case ICmpInst::ICMP_SGT:r=sx>sy;break; case ICmpInst::ICMP_SGE:r=sx>=sy;break; case ICmpInst::ICMP_SLT:r=sx<sy;break; default:r=sx<=sy; }
      return Val{(u64)r,nullptr}; }
    Expr*x=toE(a,w),*y=toE(b,w);
    switch(p){ case ICmpInst::ICMP_EQ:return fromE(PP->eq(x,y)); case ICmpInst::ICMP_NE:return fromE(PP->not_(PP->eq(x,y))); case ICmpInst::ICMP_UGT:return fromE(PP->ult(y,x)); case ICmpInst::ICMP_UGE:return fromE(PP->not_(PP->ult(x,y))); case ICmpInst::ICMP_ULT:return fromE(PP->ult(x,y)); case ICmpInst::ICMP_ULE:return fromE(PP->not_(PP->ult(y,x))); case ICmpInst::ICMP_SGT:return fromE(PP->slt(y,x)); case ICmpInst::ICMP_SGE:return fromE(PP->not_(PP->slt(x,y))); case ICmpInst::ICMP_SLT:return fromE(PP->slt(x,y)); default:return fromE(PP->not_(PP->slt(y,x))); }
  }
  void jump(FnInfo*f,int ei){
    Edge&e=f->edges[ei]; Frame&fr=cur->frames.back();
    size_t n=e.copies.size();
    if(n==1){ cur->regs[fr.base+e.copies[0].first]=R(e.copies[0].second); }
    else if(n){ Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=R(e.copies[i].second); for(size_t i=0;i<n;i++) cur->regs[fr.base+e.copies[i].first]=t[i]; }
    fr.pc=e.target;
  }
  void pushFrame(FnInfo*f,int retDst){
    u32 base=cur->regs.size(); cur->regs.resize(base+f->nslots); f->executed=true;
    cur->frames.push_back(Frame{f,0,base,(u32)cur->stack.size(),retDst});
    if(cur->frames.size()>2000) perr("limit","recursion too deep");
  }
  void callFn(Function*cf,const Inst&I){
    FnInfo*f=getFn(cf);
    std::vector<Val> args; size_t k=0;
    for(size_t i=0;i<I.xs.size();i++){ unsigned n=I.us[2*i+1]; for(unsigned j=0;j<n;j++) args.push_back(R(Compiler::at(I.xs[i],j))); }
    // byval pointers are copied by reference here; acceptable because callee copies are not mutated through callers in this code base
    pushFrame(f,I.dst);
    u32 base=cur->frames.back().base; 
    for(size_t i=0;i<f->argSlots.size();i++){ unsigned n=i<I.xs.size()?I.us[2*i+1]:0; for(unsigned j=0;j<n;j++) cur->regs[base+f->argSlots[i]+j]=args[k++]; }
    // byval handling
    size_t ai=0; for(auto&a:cf->args()){ if(a.hasByValAttr()){ u64 sz=DL->getTypeAllocSize(a.getParamByValType()); cur->stack.push_back(newObj(sz)); u64 na=addrOf(RG_STACK,cur->stack.size()-1); u64 src=cur->regs[base+f->argSlots[ai]].c; copyMem(na,src,sz); cur->regs[base+f->argSlots[ai]]=Val{na,nullptr}; } ai++; }
  }
  void copyMem(u64 d,u64 s,u64 n){
    if(!n) return; i64 so,dof; Obj*src=rdObj(*cur,s,n,so); src->ref++; struct G{Obj*o;~G(){State::rel(o);}} g{src};
    Obj*dst=wrObj(*cur,d,n,dof);
    std::vector<u8> tb(src->b.begin()+so,src->b.begin()+so+n); std::vector<SymByte> ts; if(src->hasSym) ts.assign(src->s.begin()+so,src->s.begin()+so+n);
    memcpy(&dst->b[dof],tb.data(),n);
    if(!ts.empty()){ bool any=false; for(auto&x:ts) if(x.e){any=true;break;} if(any||dst->hasSym){ if(!dst->hasSym){ dst->s.assign(dst->size,SymByte{nullptr,0}); dst->hasSym=true; } std::copy(ts.begin(),ts.end(),dst->s.begin()+dof); } }
    else if(dst->hasSym) for(u64 i=0;i<n;i++) dst->s[dof+i].e=nullptr;
  }
  Val getInput(const std::string&nm,i64 lo,i64 hi,bool full64){
    u32 ni=nameId(nm); u32 oc=cur->occ[ni]++;
    static std::map<std::tuple<u32,u32,i64,i64>,Expr*> vars;
    auto key=std::make_tuple(ni,oc,lo,hi); auto it=vars.find(key); Expr*e;
    if(it!=vars.end()) e=it->second; else { e=PP->mkVar(nm+"#"+std::to_string(oc),64,full64?smin_w(64):(SW)lo,full64?smax_w(64):(SW)hi); vars[key]=e; }
    if(!full64&&lo==hi){ cur->inputs.push_back({ni,PP->mkConst(64,(W)(SW)lo)}); return Val{(u64)lo,nullptr}; }
    cur->inputs.push_back({ni,e}); return Val{0,e};
  }
  // externals and intrinsics. returns true if pc must advance normally
  void ext(const Inst&I);
  void asmCall(const Inst&I);
  void step();
  void runState(State*s);
  void loop();
};
#define ARG(i) (R(I.xs[i]))
static bool isPtrLikeName(const std::string&n){ return false; }
void Exec::ext(const Inst&I){
  Function*f=(Function*)I.p; unsigned w=I.w;
  auto conc=[&](int i,unsigned ww=64)->u64{ Val v=ARG(i); return concretize(v,ww); };
  if(I.sub==1){
    switch((unsigned)I.imm){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d=conc(0),s=conc(1),n=conc(2); if(n) copyMem(d,s,n); return; }
    case Intrinsic::memset: { u64 d=conc(0); Val v=ARG(1); u64 n=conc(2); if(!n) return; i64 off; Obj*o=wrObj(*cur,d,n,off); if(!v.e){ memset(&o->b[off],(int)v.c,n); if(o->hasSym) for(u64 i=0;i<n;i++) o->s[off+i].e=nullptr; } else { for(u64 i=0;i<n;i++) storeV(*cur,d+i,v,8); } return; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { 
      for(unsigned l=0;l<I.n;l++){ Val a=R(Compiler::at(I.xs[0],l)),b=R(Compiler::at(I.xs[1],l)); bool sg=I.imm==Intrinsic::smax||I.imm==Intrinsic::smin; bool mx=I.imm==Intrinsic::smax||I.imm==Intrinsic::umax;
      Val lt=icmp(sg?ICmpInst::ICMP_SLT:ICmpInst::ICMP_ULT,a,b,w); Val r; bool kv; if(!lt.e) r=(lt.c!=0)==mx?b:a; else if(known(lt.e,kv)||(O.selFork&&((kv=decide(lt.e)),true))) r=kv==mx?b:a; else r=fromE(PP->ite(lt.e,toE(mx?b:a,w),toE(mx?a:b,w))); setR(I.dst+l,r);} return; }
    case Intrinsic::abs: { Val a=ARG(0); if(!a.e){ i64 x=(i64)(a.c<<(64-w))>>(64-w); setR(I.dst,Val{(u64)(x<0?-x:x)&m64(w),nullptr}); } else setR(I.dst,fromE(PP->ite(PP->slt(a.e,PP->mkConst(w,0)),PP->neg(a.e),a.e))); return; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      Expr*a=toE(ARG(0),w),*b=toE(ARG(1),w); bool sg=I.imm==Intrinsic::sadd_with_overflow||I.imm==Intrinsic::ssub_with_overflow||I.imm==Intrinsic::smul_with_overflow;
      int k=(I.imm==Intrinsic::sadd_with_overflow||I.imm==Intrinsic::uadd_with_overflow)?0:(I.imm==Intrinsic::ssub_with_overflow||I.imm==Intrinsic::usub_with_overflow)?1:2;
      unsigned w2=k==2?2*w:w+1; Expr*x=sg?PP->sext(a,w2):PP->zext(a,w2),*y=sg?PP->sext(b,w2):PP->zext(b,w2);
      Expr*r=k==0?PP->add(a,b):k==1?PP->sub(a,b):PP->mul(a,b);
      Expr*ov;
      if(!sg&&k==0) ov=PP->ult(r,a); else if(!sg&&k==1) ov=PP->ult(a,b);
      else if(sg&&k<2&&r->nowrap) ov=PP->F; else if(sg&&k==2&&r->nowrap) ov=PP->F;
      else if(r->k==K_CONST&&a->k==K_CONST&&b->k==K_CONST||true){ Expr*full=k==0?PP->add(x,y):k==1?PP->sub(x,y):PP->mul(x,y); Expr*back=sg?PP->sext(PP->extract(full,0,w),w2):PP->zext(PP->extract(full,0,w),w2); 
        if(sg&&full->lo>=smin_w(w)&&full->hi<=smax_w(w)) ov=PP->F; else
        if(sg) ov=PP->bin(K_OR,PP->slt(full,PP->mkConst(w2,(W)smin_w(w))),PP->slt(PP->mkConst(w2,(W)smax_w(w)),full)); else ov=PP->not_(PP->eq(full,back)); }
      setR(I.dst,fromE(r)); setR(I.dst+1,fromE(ov)); return; }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { Expr*a=toE(ARG(0),w),*b=toE(ARG(1),w); if(I.imm==Intrinsic::usub_sat) setR(I.dst,fromE(PP->ite(PP->ult(a,b),PP->mkConst(w,0),PP->sub(a,b)))); else { Expr*r=PP->add(a,b); setR(I.dst,fromE(PP->ite(PP->ult(r,a),PP->mkConst(w,maskw(w)),r))); } return; }
    case Intrinsic::ctlz: case Intrinsic::cttz: { Val a=ARG(0); Expr*e=toE(a,w); Expr*r=PP->mkConst(w,w); bool lz=I.imm==Intrinsic::ctlz; for(unsigned i=0;i<w;i++){ unsigned bit=lz?i:w-1-i; r=PP->ite(PP->extract(e,bit,1),PP->mkConst(w,lz?w-1-bit:bit),r); } setR(I.dst,fromE(r)); return; }
    case Intrinsic::ctpop: { Expr*e=toE(ARG(0),w); Expr*r=PP->mkConst(w,0); for(unsigned i=0;i<w;i++) r=PP->add(r,PP->zext(PP->extract(e,i,1),w)); setR(I.dst,fromE(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Expr*a=toE(ARG(0),w),*b=toE(ARG(1),w); Val s=ARG(2); Expr*cat=PP->concat(a,b); Expr*sh; if(!s.e) sh=PP->mkConst(2*w,s.c%w); else if((w&(w-1))==0) sh=PP->zext(PP->bin(K_AND,s.e,PP->mkConst(w,w-1)),2*w); else sh=PP->zext(PP->div(K_UREM,s.e,PP->mkConst(w,w)),2*w);
      Expr*r=I.imm==Intrinsic::fshl?PP->extract(PP->shift(K_SHL,cat,sh),w,w):PP->extract(PP->shift(K_LSHR,cat,sh),0,w); setR(I.dst,fromE(r)); return; }
    case Intrinsic::bswap: { Expr*e=toE(ARG(0),w),*r=nullptr; for(unsigned i=0;i<w;i+=8){ Expr*b=PP->extract(e,i,8); r=r?PP->concat(r,b):b; } setR(I.dst,fromE(r)); return; }
    case Intrinsic::expect: setR(I.dst,ARG(0)); return;
    case Intrinsic::is_constant: setR(I.dst,Val{0,nullptr}); return;
    case Intrinsic::objectsize: setR(I.dst,Val{~0ull,nullptr}); return;
    case Intrinsic::stacksave: setR(I.dst,Val{}); return; case Intrinsic::stackrestore: return;
    case Intrinsic::threadlocal_address: setR(I.dst,ARG(0)); return;
    case Intrinsic::floor: setR(I.dst,fround(0,ARG(0),w)); return;
    case Intrinsic::ceil: setR(I.dst,fround(1,ARG(0),w)); return;
    case Intrinsic::trunc: setR(I.dst,fround(2,ARG(0),w)); return;
    case Intrinsic::round: setR(I.dst,fround(3,ARG(0),w)); return;
    case Intrinsic::fmuladd: case Intrinsic::fma: { Val m=fop(Instruction::FMul,ARG(0),ARG(1),w); setR(I.dst,fop(Instruction::FAdd,m,ARG(2),w)); return; }
    case Intrinsic::fabs: { Val v=ARG(0); if(!v.e){ v.c&=m64(w-1); setR(I.dst,v);} else { Expr*n,*d; if(!asFrat(v,w,n,d)) perr("engine","fabs"); Expr*z=PP->mkConst(Pool::RW,0); auto ab=[&](Expr*x){ return PP->ite(PP->slt(x,z),PP->neg(x),x); }; setR(I.dst,mkF(ab(n),ab(d))); } return; }
    case Intrinsic::sqrt: { Val v=ARG(0); if(v.e) perr("engine","symbolic sqrt"); double d; memcpy(&d,&v.c,8); d=std::sqrt(d); Val o; memcpy(&o.c,&d,8); setR(I.dst,o); return; }
    case Intrinsic::ldexp: { Val v=ARG(0); u64 n=conc(1,32); if(v.e){ Expr*nn,*d; if(!asFrat(v,w,nn,d)) perr("engine","ldexp"); int k=(int)((int32_t)(n)); W sc=W(1)<<(k<0?-k:k); if(k>=0) setR(I.dst,mkF(chkNW(PP->mul(nn,PP->mkConst(Pool::RW,sc))),d)); else setR(I.dst,mkF(nn,chkNW(PP->mul(d,PP->mkConst(Pool::RW,sc))))); } else { double x; memcpy(&x,&v.c,8); x=ldexp(x,(int)n); Val o; memcpy(&o.c,&x,8); setR(I.dst,o);} return; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: perr("ub","undefined behaviour trap reached (sanitizer check "+std::to_string(I.imm==Intrinsic::ubsantrap?ARG(0).c:0)+")");
    case Intrinsic::vector_reduce_add: { Val r=R(I.xs[0]); for(unsigned j=1;j<I.us[1];j++) r=binop(Instruction::Add,r,R(Compiler::at(I.xs[0],j)),w); setR(I.dst,r); return; }
    default: perr("engine","unsupported intrinsic "+f->getName().str()); }
  }
  std::string n=f->getName().str();
  if(n=="sym_int"){ std::string nm=cstr(conc(0)); i64 lo=(i64)conc(1),hi=(i64)conc(2); setR(I.dst,getInput(nm,lo,hi,false)); return; }
  if(n=="sym_u64"){ setR(I.dst,getInput(cstr(conc(0)),INT64_MIN,INT64_MAX,true)); return; }
  if(n=="sym_assume"){ Val c=ARG(0); unsigned cw=I.us[0]; if(!c.e){ if(!c.c) throw Kill{}; return; } Expr*e=c.e; if(e->w!=1) e=PP->not_(PP->eq(e,PP->mkConst(e->w,0))); killUnless(e); return; }
  if(n=="sym_check"){ doCheck(ARG(0),cstr(conc(1))); return; }
  if(n=="sym_fail"){ doCheck(Val{0,nullptr},cstr(conc(0))); return; }
  if(n=="sym_reach"){ SH->tabCnt[tabIdx("reach:"+cstr(conc(0)))]++; return; }
  if(n=="sym_done"){ throw PathDone{}; }
  if(n=="sym_is_symbolic"){ setR(I.dst,Val{1,nullptr}); return; }
  if(n=="sym_concretize"){ setR(I.dst,Val{conc(0),nullptr}); return; }
  if(n=="sym_branch"){ Val c=ARG(0); if(!c.e) setR(I.dst,c); else { Expr*e=c.e; unsigned cw=e->w; if(cw!=1) e=PP->not_(PP->eq(e,PP->mkConst(cw,0))); setR(I.dst,Val{(u64)decide(e),nullptr}); } return; }
  if(n=="sym_max_value"){ // largest value of an expression the current path allows is not needed by clients
    setR(I.dst,ARG(0)); return; }
  if(n=="sym_note"){ return; }
  if(n=="malloc"||n=="_Znwm"||n=="_Znam"||n=="_ZnwmSt11align_val_t"||n=="_ZnwmRKSt9nothrow_t"){ setR(I.dst,Val{heapAlloc(*cur,conc(0)),nullptr}); return; }
  if(n=="calloc"){ u64 sz=conc(0)*conc(1); u64 a=heapAlloc(*cur,sz); memset(cur->heap.back()->b.data(),0,sz); setR(I.dst,Val{a,nullptr}); return; }
  if(n=="free"||n=="_ZdlPv"||n=="_ZdlPvm"||n=="_ZdaPv"||n=="_ZdaPvm"||n=="_ZdlPvSt11align_val_t"||n=="_ZdlPvmSt11align_val_t"){ heapFree(*cur,conc(0)); return; }
  if(n=="memcpy"||n=="memmove"){ u64 d=conc(0); copyMem(d,conc(1),conc(2)); setR(I.dst,Val{d,nullptr}); return; }
  if(n=="memcmp"||n=="bcmp"){ u64 a=conc(0),b=conc(1),k=conc(2); Val r{0,nullptr}; 
    if(n=="bcmp"){ Expr*e=PP->T; for(u64 i=0;i<k;i++) e=PP->bin(K_AND,e,PP->eq(toE(loadV(*cur,a+i,8),8),toE(loadV(*cur,b+i,8),8))); setR(I.dst,fromE(PP->zext(PP->not_(e),32))); return; }
    Expr*e=PP->mkConst(32,0); for(u64 i=k;i-->0;){ Expr*x=toE(loadV(*cur,a+i,8),8),*y=toE(loadV(*cur,b+i,8),8); e=PP->ite(PP->eq(x,y),e,PP->ite(PP->ult(x,y),PP->mkConst(32,0xffffffffu),PP->mkConst(32,1))); } setR(I.dst,fromE(e)); return; }
  if(n=="strlen"){ u64 a=conc(0),k=0; while(loadV(*cur,a+k,8).c) k++; setR(I.dst,Val{k,nullptr}); return; }
  if(n=="floor"){ setR(I.dst,fround(0,ARG(0),64)); return; } if(n=="ceil"){ setR(I.dst,fround(1,ARG(0),64)); return; } if(n=="trunc"){ setR(I.dst,fround(2,ARG(0),64)); return; } if(n=="round"){ setR(I.dst,fround(3,ARG(0),64)); return; }
  if(n=="lround"||n=="llround"){ Val r=fround(3,ARG(0),64); Inst c; c.sub=Instruction::FPToSI; c.w=64; c.w2=64; setR(I.dst,cast_(c,r)); return; }
  if(n=="ldexp"||n=="scalbn"){ Val v=ARG(0); i64 k=(i64)(int32_t)conc(1,32); if(v.e){ Expr*nn,*d; if(!asFrat(v,64,nn,d)||k<-180||k>180) perr("engine","ldexp"); W sc=W(1)<<(int)(k<0?-k:k); if(k>=0) setR(I.dst,mkF(chkNW(PP->mul(nn,PP->mkConst(Pool::RW,sc))),d)); else setR(I.dst,mkF(nn,chkNW(PP->mul(d,PP->mkConst(Pool::RW,sc))))); } else { double x; memcpy(&x,&v.c,8); x=ldexp(x,(int)k); Val o; memcpy(&o.c,&x,8); setR(I.dst,o);} return; }
  { static std::map<std::string,double(*)(double)> m1={{"sqrt",sqrt},{"sin",sin},{"cos",cos},{"acos",acos},{"asin",asin},{"atan",atan},{"fabs",fabs},{"exp",exp},{"log",log}};
    auto it=m1.find(n); if(it!=m1.end()){ Val v=ARG(0); if(v.e) perr("engine","symbolic "+n); double d; memcpy(&d,&v.c,8); d=it->second(d); Val o; memcpy(&o.c,&d,8); setR(I.dst,o); return; }
    static std::map<std::string,double(*)(double,double)> m2={{"atan2",atan2},{"pow",pow},{"hypot",hypot},{"fmod",fmod}};
    auto i2=m2.find(n); if(i2!=m2.end()){ Val v=ARG(0),u=ARG(1); if(v.e||u.e) perr("engine","symbolic "+n); double d,e; memcpy(&d,&v.c,8); memcpy(&e,&u.c,8); d=i2->second(d,e); Val o; memcpy(&o.c,&d,8); setR(I.dst,o); return; } }
  if(n=="abort"||n=="__assert_fail"||n=="exit"||n=="_exit"||n=="_ZSt9terminatev"){ perr("abort",n=="__assert_fail"?"assertion failed: "+cstr(conc(0)):n+" called"); }
  if(n.find("__throw_")!=std::string::npos||n=="__cxa_throw"||n=="__cxa_rethrow") perr("exception",demangle(n)+" called");
  if(n=="__cxa_atexit"||n=="atexit"){ setR(I.dst,Val{}); return; }
  if(n=="__cxa_guard_acquire"){ u64 a=conc(0); Val v=loadV(*cur,a,8); setR(I.dst,Val{v.c?0ull:1ull,nullptr}); return; }
  if(n=="__cxa_guard_release"){ storeV(*cur,conc(0),Val{1,nullptr},8); return; }
  if(n=="__cxa_pure_virtual") perr("abort","pure virtual call");
  if(n=="puts"||n=="printf"||n=="fprintf"||n=="fflush"||n=="putchar"||n=="fwrite"){ if(I.dst>=0) setR(I.dst,Val{0,nullptr}); return; }
  perr("engine","unsupported external function "+demangle(n));
}
void Exec::asmCall(const Inst&I){
  InlineAsm*ia=(InlineAsm*)I.p; std::string s=ia->getAsmString(); std::string cons=ia->getConstraintString();
  auto has=[&](const char*x){ return s.find(x)!=std::string::npos; };
  // operands in the order of the constraints: outputs are numbered first
  // supported templates (see large_ints.hpp): shrd/shld/div/idiv/mul/imul with (a,d) register pairs, add/adc, sub/sbb
  perr("engine","inline asm: "+s+" | "+cons);
}
void Exec::step(){
  // executes instructions of cur until the path ends (exceptions) or work must be shared
  for(;;){
    Frame&fr=cur->frames.back(); FnInfo*F=fr.fn; Inst&I=F->code[fr.pc++];
    if(++cur->steps>O.stepLimit) perr("limit","instruction limit exceeded (possible non-termination)");
    locInstr++;
    switch(I.op){
    case I_NOP: SH->cover[I.imm&((1<<18)-1)].store(1,std::memory_order_relaxed); break;
    case I_BIN: for(unsigned l=0;l<I.n;l++) setR(I.dst+l,binop(I.sub,R(Compiler::at(I.a,l)),R(Compiler::at(I.b,l)),I.w)); break;
    case I_FBIN: for(unsigned l=0;l<I.n;l++) setR(I.dst+l,fop(I.sub,R(Compiler::at(I.a,l)),R(Compiler::at(I.b,l)),I.w)); break;
    case I_FNEG: for(unsigned l=0;l<I.n;l++){ Val v=R(Compiler::at(I.a,l)); if(!v.e){ v.c^=1ull<<(I.w-1); setR(I.dst+l,v);} else { Expr*n,*d; if(!asFrat(v,I.w,n,d)) perr("engine","fneg"); setR(I.dst+l,mkF(PP->neg(n),d)); } } break;
    case I_CAST: for(unsigned l=0;l<I.n;l++) setR(I.dst+l,cast_(I,R(Compiler::at(I.a,l)))); break;
    case I_ICMP: for(unsigned l=0;l<I.n;l++) setR(I.dst+l,icmp(I.sub,R(Compiler::at(I.a,l)),R(Compiler::at(I.b,l)),I.w)); break;
    case I_FCMP: for(unsigned l=0;l<I.n;l++) setR(I.dst+l,fcmp(I.sub,R(Compiler::at(I.a,l)),R(Compiler::at(I.b,l)),I.w)); break;
    case I_COPY: if(I.n==1) setR(I.dst,R(I.a)); else { std::vector<Val> t(I.n); for(unsigned l=0;l<I.n;l++) t[l]=R(Compiler::at(I.a,l)); for(unsigned l=0;l<I.n;l++) setR(I.dst+l,t[l]); } break;
    case I_SEL: {
      std::vector<Val> t(I.n);
      for(unsigned l=0;l<I.n;l++){ Val c=I.sub?R(Compiler::at(I.a,l)):R(I.a); Val x=R(Compiler::at(I.b,l)),y=R(Compiler::at(I.c,l));
        bool kv; if(!c.e) t[l]=c.c?x:y; else if(known(c.e,kv)) t[l]=kv?x:y; else if(O.selFork&&I.us[l]>1&&!(!x.e&&!y.e&&x.c==y.c)) t[l]=decide(c.e)?x:y; else { unsigned w=(unsigned)I.us[l];
          bool fx=(x.e&&x.e->k==K_FRAT)||(y.e&&y.e->k==K_FRAT);
          if(fx){ Expr*n1,*d1,*n2,*d2; if(asFrat(x,w,n1,d1)&&asFrat(y,w,n2,d2)) t[l]=mkF(PP->ite(c.e,n1,n2),PP->ite(c.e,d1,d2)); else t[l]=decide(c.e)?x:y; }
          else if(!x.e&&!y.e&&x.c==y.c) t[l]=x; else t[l]=fromE(PP->ite(c.e,toE(x,w),toE(y,w))); } }
      for(unsigned l=0;l<I.n;l++) setR(I.dst+l,t[l]); break; }
    case I_GEP: { Val b=R(I.a); bool sym=b.e; for(size_t i=0;i<I.xs.size();i++) if(R(I.xs[i]).e) sym=true;
      if(!sym){ u64 a=b.c+I.imm; for(size_t i=0;i<I.xs.size();i++){ unsigned w=I.us[2*i]; i64 x=(i64)(R(I.xs[i]).c<<(64-w))>>(64-w); a+=(u64)x*I.us[2*i+1]; } setR(I.dst,Val{a,nullptr}); }
      else { Expr*a=PP->add(toE(b,64),PP->mkConst(64,I.imm)); for(size_t i=0;i<I.xs.size();i++){ unsigned w=I.us[2*i]; a=PP->add(a,PP->mul(PP->sext(E(I.xs[i],w),64),PP->mkConst(64,I.us[2*i+1]))); } setR(I.dst,fromE(a)); } break; }
    case I_LOAD: { Val p=R(I.a); u64 a=concretize(p,64); if(I.n==1) setR(I.dst,loadV(*cur,a+I.us[0],(unsigned)I.us[1])); else { std::vector<Val> t(I.n); for(unsigned l=0;l<I.n;l++) t[l]=loadV(*cur,a+I.us[2*l],(unsigned)I.us[2*l+1]); for(unsigned l=0;l<I.n;l++) setR(I.dst+l,t[l]); } break; }
    case I_STORE: { Val p=R(I.b); u64 a=concretize(p,64); for(unsigned l=0;l<I.n;l++) storeV(*cur,a+I.us[2*l],R(Compiler::at(I.a,l)),(unsigned)I.us[2*l+1]); break; }
    case I_ALLOCA: { Val n=R(I.a); u64 k=concretize(n,64); cur->stack.push_back(newObj(I.imm*k)); setR(I.dst,Val{addrOf(RG_STACK,cur->stack.size()-1),nullptr}); break; }
    case I_BR: jump(F,I.b); break;
    case I_CBR: { Val c=R(I.a); bool t=c.e?decide(c.e):c.c!=0; jump(F,t?I.b:I.c); break; }
    case I_SWITCH: { Val c=R(I.a); if(!c.e){ int e=I.b; for(size_t i=0;i<I.us.size();i++) if(I.us[i]==c.c){ e=I.xs[i]; break; } jump(F,e); }
      else { int e=I.b; for(size_t i=0;i<I.us.size();i++) if(decide(PP->eq(c.e,PP->mkConst(I.w,I.us[i])))){ e=I.xs[i]; break; } jump(F,e); } break; }
    case I_RET: {
      std::vector<Val> t(I.n); for(unsigned l=0;l<I.n;l++) t[l]=R(Compiler::at(I.a,l));
      u32 mark=fr.stackMark; int rd=fr.retDst; u32 base=fr.base;
      while(cur->stack.size()>mark){ State::rel(cur->stack.back()); cur->stack.pop_back(); }
      cur->regs.resize(base); cur->frames.pop_back();
      if(cur->frames.empty()) throw PathDone{};
      if(rd>=0) for(unsigned l=0;l<I.n;l++) setR(rd+l,t[l]);
      break; }
    case I_CALL: callFn((Function*)I.p,I); break;
    case I_CALLIND: { Val p=R(I.a); u64 a=concretize(p,64); if((a>>52)!=4) perr("memory","indirect call through an invalid pointer"); Function*cf=fnByAddr[((a-RG_FN)/16)-1]; if(cf->isDeclaration()){ Inst J=I; J.op=I_EXT; J.sub=0; J.p=cf; J.w=0; ext(J);} else callFn(cf,I); break; }
    case I_EXT: if(I.sub==2) asmCall(I); else ext(I); break;
    case I_UNREACH: perr("ub","unreachable code reached");
    case I_TRAP: perr("exception","exception handling reached");
    default: perr("engine","bad opcode");
    }
  }
}
static void doFork(Exec&X);
void Exec::runState(State*s){
  enter(s);
  try { step(); }
  catch(PathDone&){ u64 k=SH->paths++; if(O.samples&&cur&&!cur->stale){ u64 lim=k<2?2:(u64)O.samples; if((k<2||(k*2654435761u+O.seed)%7==0)&&SH->sampled<lim){ u64 id=SH->sampled++; if(id<lim) writeModel(O.out+".path"+std::to_string(id)+".txt","path","completed path",cur->model); } } }
  catch(Kill&){ SH->killed++; }
  catch(PathError&e){
    SH->errPaths++;
    if(e.kind=="engine"){ SH->limitPaths++; static int shown=0; if(shown++<3){ fprintf(stderr,"irsym: %s\n  in",e.msg.c_str()); for(auto it=cur->frames.rbegin();it!=cur->frames.rend();++it) fprintf(stderr," < %s",demangle(it->fn->name).substr(0,120).c_str()); fprintf(stderr,"\n"); 
        FILE*f=fopen((O.out+".engine").c_str(),"a"); if(f){ fprintf(f,"%s\n",e.msg.c_str()); fclose(f);} } }
    else { bool rep=true; try { refresh(); } catch(Kill&){ rep=false; SH->errPaths--; SH->killed++; } catch(PathError&){ rep=false; SH->limitPaths++; } if(rep) report(e.kind,e.msg,cur->model); }
  }
  catch(EngineErr&e){ SH->errPaths++; SH->limitPaths++; static int shown=0; if(shown++<3){ fprintf(stderr,"irsym: engine: %s\n",e.m.c_str()); FILE*f=fopen((O.out+".engine").c_str(),"a"); if(f){ fprintf(f,"%s\n",e.m.c_str()); fclose(f);} } }
  delete cur; cur=nullptr;
  SH->instrs+=locInstr; locInstr=0;
}
static u64 rssMb(){ FILE*f=fopen("/proc/self/statm","r"); unsigned long a=0,b=0; if(f){ if(fscanf(f,"%lu %lu",&a,&b)!=2) b=0; fclose(f);} return b*4096/1048576; }
void Exec::loop(){
  u64 cnt=0;
  while(!work.empty()){
    if(SH->stop||nowS()>deadline){ SH->leftover+=work.size(); break; }
    if((++cnt&15)==0){ u64 r=rssMb(); u64 p=SH->peakRss; while(r>p&&!SH->peakRss.compare_exchange_weak(p,r)); if(r>O.maxRssMb){ SH->leftover+=work.size(); fprintf(stderr,"irsym: memory limit\n"); break; } }
    // share work
    while(work.size()>=2){
      int a=SH->active; if(a>=O.procs) break;
      if(!SH->active.compare_exchange_strong(a,a+1)) continue;
      fflush(stdout); fflush(stderr);
      pid_t p=fork();
      if(p<0){ SH->active--; break; }
      size_t half=(work.size()+1)/2;
      if(p==0){ SH->procs++; work.resize(half); cnt=0; prctl(PR_SET_PDEATHSIG,0); }
      else { work.erase(work.begin(),work.begin()+half); }
    }
    State*s=work.back(); work.pop_back();
    runState(s);
  }
}
int main(int argc,char**argv){
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--lin") O.abs=true; else if(a=="--atoms") O.atoms=true; else if(a=="--nra") O.nra=true; else if(a=="--entry") O.entry=nx(); else if(a=="--out") O.out=nx(); else if(a=="--procs") O.procs=stoi(nx()); else if(a=="--time") O.timeS=stod(nx()); else if(a=="--steps") O.stepLimit=stoull(nx()); else if(a=="--maxviol") O.maxViol=stoi(nx()); else if(a=="--z3every") O.z3every=stoi(nx()); else if(a=="-v") O.verbose=true; else if(a=="--samples") O.samples=stoi(nx()); else if(a=="--selfork") O.selFork=true; else if(a=="--qsec") O.qsec=stod(nx()); else if(a=="--seed") O.seed=stoull(nx()); else if(a=="--conflicts") O.conflicts=stoll(nx()); else if(a=="--rss") O.maxRssMb=stoull(nx()); else O.file=a; }
  SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)SH,0,sizeof(Shared));
  double t0=nowS(); deadline=t0+O.timeS;
  PP=new Pool(); EV=new Evaluator(*PP); BB=new BitBlaster(*PP); LS=new LocalSearch(*PP,*EV); AB=O.atoms?new BitBlaster(*PP,1):nullptr; LB=O.abs||O.nra?new LinBack(*PP,false):nullptr; NB=O.nra?new LinBack(*PP,true):nullptr; Z3=O.z3every?new Z3Back(*PP):nullptr;
  CTX=new LLVMContext(); SMDiagnostic err; M=parseIRFile(O.file,err,*CTX); if(!M){ err.print("irsym",errs()); return 3; }
  DL=&M->getDataLayout();
  initState=new State(); auto m=std::make_shared<Model>(); m->id=0; initState->model=m;
  try {
    for(auto&g:M->globals()) if(!g.getName().starts_with("llvm.")) globalAddr(&g);
    while(!gInitQueue.empty()){ auto q=gInitQueue; gInitQueue.clear(); for(auto&p:q) initGlobalBytes(p.first->getInitializer(),p.second); }
  } catch(EngineErr&e){ fprintf(stderr,"irsym: %s\n",e.m.c_str()); return 3; } catch(PathError&e){ fprintf(stderr,"irsym: %s\n",e.msg.c_str()); return 3; }
  for(auto&p:gaddr) if(p.first->isConstant()){ i64 off; Obj*o=findObj(*initState,p.second,off); o->flags|=OF_RO; }
  Function*ef=M->getFunction(O.entry); if(!ef){ fprintf(stderr,"irsym: no entry %s\n",O.entry.c_str()); return 3; }
  // compile every defined function up front so that forked workers share identical tables
  std::vector<std::string> bad;
  std::map<Function*,std::string> badFns;
  for(auto&f:*M) if(!f.isDeclaration()){ try{ getFn(&f);}catch(EngineErr&e){ badFns[&f]=e.m; } }
  // global constructors
  Exec X;
  std::vector<Function*> ctors;
  if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&op:ca->operands()){ auto*st=cast<ConstantStruct>(op.get()); if(auto*cf=dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back(cf); }
  X.enter(initState);
  for(auto*cf:ctors){ try{ X.pushFrame(getFn(cf),-1); X.step(); } catch(PathDone&){} catch(PathError&e){ fprintf(stderr,"irsym: constructor: %s\n",e.msg.c_str()); return 3; } initState->frames.clear(); initState->regs.clear(); initState->steps=0; }
  for(auto*f:fnById) f->executed=false;
  X.pushFrame(getFn(ef),-1);
  prctl(PR_SET_CHILD_SUBREAPER,1);
  SH->active=1; fflush(stdout);
  pid_t p=fork();
  if(p==0){
    X.work.push_back(initState); SH->procs++;
    X.loop();
    SH->active--; _exit(0);
  }
  bool crash=false; for(;;){ int st; pid_t q=waitpid(-1,&st,0); if(q<0) break; if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ crash=true; SH->stop=1; fprintf(stderr,"irsym: worker died, status %x\n",st);} }
  double wall=nowS()-t0;
  // report
  FILE*o=fopen((O.out+".json").c_str(),"w"); if(!o) return 3;
  bool exhaustive=!crash&&SH->leftover==0&&SH->chkUnk==0&&SH->limitPaths==0&&!SH->stop;
  fprintf(o,"{\"paths\":%llu,\"killed\":%llu,\"error_paths\":%llu,\"engine_limit_paths\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"core_hits\":%llu,\"diff_hits\":%llu,\"instructions\":%llu,\"checks\":%llu,\"checks_symbolic\":%llu,\"check_queries\":%llu,\"violations\":%llu,\"leftover\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"procs\":%d,\"peak_rss_mb\":%llu,\"crash\":%s,\"exhaustive\":%s,\"z3_crosschecks\":%llu,\"z3_disagreements\":%llu,\"check_unknown\":%llu,\"lin_hits\":%llu",
    (unsigned long long)SH->paths,(unsigned long long)SH->killed,(unsigned long long)SH->errPaths,(unsigned long long)SH->limitPaths,(unsigned long long)SH->forks,(unsigned long long)SH->queries,(unsigned long long)SH->satq,(unsigned long long)SH->unsatq,(unsigned long long)SH->unkq,(unsigned long long)SH->coreHits,(unsigned long long)SH->diffHits,(unsigned long long)SH->instrs,(unsigned long long)SH->checks,(unsigned long long)SH->checksSym,(unsigned long long)SH->checkQueries,(unsigned long long)SH->violations,(unsigned long long)SH->leftover,SH->solverUs/1e6,wall,(int)SH->procs,(unsigned long long)SH->peakRss,crash?"true":"false",exhaustive?"true":"false",(unsigned long long)SH->z3checks,(unsigned long long)SH->z3mism,(unsigned long long)SH->chkUnk,(unsigned long long)SH->linHits);
  // coverage per function
  fprintf(o,",\"functions\":["); bool first=true; u32 tb=0,cb=0;
  for(auto*f:fnById){ u32 c=0; for(u32 i=0;i<f->nblocks;i++) if(SH->cover[(f->coverBase+i)&((1<<18)-1)]) c++; if(c){ tb+=f->nblocks; cb+=c; std::string d=demangle(f->name); if(d.find("poly_ops")!=std::string::npos||d.find("harness")!=std::string::npos){ fprintf(o,"%s{\"name\":\"%s\",\"blocks\":%u,\"covered\":%u}",first?"":",",Exec::jesc(d.substr(0,200)).c_str(),f->nblocks,c); first=false; } } }
  fprintf(o,"],\"blocks_total\":%u,\"blocks_covered\":%u",tb,cb);
  fprintf(o,",\"ids\":{"); first=true;
  for(int i=0;i<SH->nTab;i++){ fprintf(o,"%s\"%s\":[%llu,%llu]",first?"":",",Exec::jesc(SH->tabName[i]).c_str(),(unsigned long long)SH->tabCnt[i],(unsigned long long)SH->tabSym[i]); first=false; }
  fprintf(o,"}}\n"); fclose(o);
  printf("paths=%llu killed=%llu err=%llu forks=%llu queries=%llu (sat %llu unsat %llu unk %llu/%llu iv %llu lin %llu ls %llu) instr=%llu checks=%llu/%llu viol=%llu leftover=%llu solver=%.1fs wall=%.1fs rss=%lluMB %s\n",(unsigned long long)SH->paths,(unsigned long long)SH->killed,(unsigned long long)SH->errPaths,(unsigned long long)SH->forks,(unsigned long long)SH->queries,(unsigned long long)SH->satq,(unsigned long long)SH->unsatq,(unsigned long long)SH->unkq,(unsigned long long)SH->chkUnk,(unsigned long long)SH->ivHits,(unsigned long long)SH->linHits,(unsigned long long)SH->lsHits,(unsigned long long)SH->instrs,(unsigned long long)SH->checks,(unsigned long long)SH->checksSym,(unsigned long long)SH->violations,(unsigned long long)SH->leftover,SH->solverUs/1e6,wall,(unsigned long long)SH->peakRss,exhaustive?"EXHAUSTIVE":"INCOMPLETE");
  return crash?4:0;
}
