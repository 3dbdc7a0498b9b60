#pragma once
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <semaphore.h>
#include <pthread.h>
#include <atomic>
#include <string>
#include <unordered_map>
#include <vector>

struct Val
{
  u64 c;
  Expr * e;
};

enum Op : u16
{
  O_MOV, O_BIN /*c=K*/, O_ICMP, O_SELECT, O_ZEXT, O_SEXT, O_TRUNCATE, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
  O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_UNREACHABLE, O_LPAD, O_RESUME,
  O_CTPOP, O_CTLZ, O_CTTZ, O_BSWAP, O_ABS, O_SMIN, O_SMAX, O_UMIN, O_UMAX, O_FSHL, O_FSHR,
  O_OVF /*c=kind*/, O_SAT, O_BITREV,
  O_FBIN, O_FCMP, O_FNEG, O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP, O_FPEXT, O_FPTRUNC, O_FUN1, O_FUN2,
  O_CMPXCHG, O_RMW, O_UNSUPPORTED, O_NOP,
  // specialised fast ops
  O_ADD, O_SUB, O_AND, O_OR, O_XOR, O_EQ, O_NE, O_ULT, O_SLT
};

struct Inst
{
  u16 op;
  u8 w;   // operand/result width
  u8 w2;
  i32 d, a, b, c;
  u32 x;
  u64 imm;
};

struct Move { i32 dst, src; u32 w; };
struct Edge { u32 fromBlock, toBlock; u32 mv, nmv; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 defEdge; };
struct GepIdx { i32 ref; u8 w; u64 scale; };

struct FnInfo;
struct Engine;
typedef void (*Builtin)(Engine &, struct CallInfo &, Val * R, Val * args, u32 nargs, Val * ret);

struct CallInfo
{
  FnInfo * target = nullptr;
  Builtin builtin = nullptr;
  void * native = nullptr;
  i32 callee = 0;
  bool indirect = false, noresolve = false;
  std::string name;
  std::vector<i32> args;
  std::vector<u8> argw; // width; 0x80|w for fp
  std::vector<std::pair<u32, u64>> byval; // arg index -> size
  i32 dst = -1;
  u32 nret = 0;
  std::vector<u8> retw;
  bool invoke = false;
  u32 normalEdge = 0, unwindEdge = 0;
};

struct LpadInfo { std::vector<std::pair<int, u64>> clauses; bool cleanup = false; };

struct Block { u32 start, end; i32 ipdom = -2; /* -2 unknown, -1 none */ };

struct FnInfo
{
  llvm::Function * F = nullptr;
  std::string name;
  u32 id = 0;
  bool decoded = false, entered = false;
  bool pdomDone = false;
  u32 nslots = 0;
  u32 nargs = 0; // flattened
  std::vector<Inst> code;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<Move> moves;
  std::vector<Block> blocks;
  std::vector<u32> pcBlock; // block index per pc
  std::vector<CallInfo *> calls;
  std::vector<SwitchInfo> switches;
  std::vector<std::vector<GepIdx>> geps;
  std::vector<LpadInfo> lpads;
  std::vector<std::string> strs;
  std::vector<std::vector<i32>> rets;
  std::vector<llvm::BasicBlock *> bbs;
  std::unordered_map<u32, int> mergeFail; // block -> failures
};

struct Frame
{
  FnInfo * f;
  Val * R;
  u32 pc;
  u64 sp;
};

// ---- shared memory --------------------------------------------------------
static const int MAXVIOL = 64;
static const int MAXREACH = 256;
static const int MAXSAMPLE = 64;
struct ViolRec
{
  char kind[32];
  char msg[1024];
  char bt[3000];
  char inputs[20000];
};
struct ReachRec { char name[64]; std::atomic<u64> n; };
struct SampleRec { char inputs[6000]; u64 obs; };
struct Waiter { sem_t sem; };
static const int MAXWAIT = 30000;
struct Shared
{
  pthread_mutex_t mx;
  int tokens;
  int nwait;
  int stack[MAXWAIT];
  int freeList[MAXWAIT];
  int nfree;
  std::atomic<int> live;
  std::atomic<int> stop;
  std::atomic<u64> paths, infeasible, errors, limits, forks, decisions, queries, sat, unsat, unknown, cacheHits, insts, asserts,
      assertsConst, assertQ, solverUs, maxQueryUs, merges, choices, natConc, resolve, started;
  int nviol, nerr, nreach, nsample;
  u64 sampleSeen;
  ViolRec viol[MAXVIOL];
  char err[16][2000];
  ReachRec reach[MAXREACH];
  SampleRec sample[MAXSAMPLE];
  u8 entered[400000];
  u8 nativeUsed[1];
  Waiter w[MAXWAIT];
};

struct Exc { u64 obj, ti; };

struct VarInfo { std::string name; unsigned w; bool choice; u64 cval; };

struct Engine
{
  llvm::LLVMContext ctx;
  std::vector<std::unique_ptr<llvm::Module>> mods;
  std::unordered_map<std::string, llvm::GlobalValue *> defs;
  std::unordered_map<llvm::GlobalValue *, u64> gaddr;
  std::unordered_map<llvm::Function *, FnInfo *> fninfo;
  std::vector<FnInfo *> fns;
  Shared * sh = nullptr;

  // registers
  Val * regBase = nullptr, * regTop = nullptr, * regEnd = nullptr;
  std::vector<Frame> frames;
  u64 sp = 0;
  u64 heapTop = 0;

  // path state
  std::vector<Expr *> pc;
  std::vector<u128> model;
  std::vector<VarInfo> vars;
  u32 epoch = 1;
  u64 instCount = 0, instLimit = 2000000000ull;
  u64 obsHash = 1469598103934665603ull;
  bool concreteMode = false;
  std::vector<u64> replayVals;
  size_t replayPos = 0;

  // config
  int jobs = 8;
  u32 queryTimeoutMs = 120000;
  bool trace = false;
  u64 maxPaths = ~0ull;
  std::vector<std::string> hargs;
  bool noMerge = false;

  // --- api
  void load(const std::vector<std::string> & files);
  FnInfo * fnFor(llvm::Function * F);
  llvm::GlobalValue * resolve(llvm::GlobalValue * g);
  u64 addrOf(llvm::GlobalValue * g);
  void decode(FnInfo * f);
  void computePdom(FnInfo * f);
  u64 evalConst64(const llvm::Constant * c);
  void evalConst(const llvm::Constant * c, std::vector<Val> & out);
  void initGlobal(u64 addr, const llvm::Constant * c, const llvm::DataLayout & dl);
  void runCtors();

  u64 heapAlloc(u64 n, u64 align = 16);
  void heapFree(u64 p, const char * what);

  void call(FnInfo * f, const std::vector<Val> & args, std::vector<Val> * ret = nullptr);
  void run(size_t depth);
  void pushFrame(FnInfo * f, const Val * args, u32 nargs, const CallInfo * ci);
  void popFrame();
  void takeEdge(Frame & fr, u32 edge);
  void throwExc(u64 obj, u64 ti);
  void callNative(CallInfo & ci, void * fn, Val * args, u32 nargs, Val * ret);
  bool doCall(CallInfo & ci, Frame & fr);

  // memory
  void load(Val & out, Val addr, unsigned w);
  void store(Val addr, Val v, unsigned w);
  Val loadConc(u64 a, unsigned w);
  void storeConc(u64 a, Val v, unsigned w);
  void checkAccess(u64 a, u64 n, bool wr);
  bool accessOk(u64 a, u64 n);
  Expr * loadByte(u64 a);
  bool hasSym(u64 a, u64 n);
  void concretizeMem(u64 a, u64 n);
  void resolveAddrs(Expr * e, std::vector<u64> & out);
  void dropUnmapped(Expr * e, std::vector<u64> & out);

  // symbolic
  Expr * toE(Val v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
  static Val fromE(Expr * e)
  {
    if (e->k == K::Const && e->w <= 64) return Val{ (u64)e->val, nullptr };
    return Val{ 0, e };
  }
  bool decide(Expr * c);
  bool feasible(Expr * c, std::vector<u128> & m); // pc && c sat?
  void assume(Expr * c);
  void addPC(Expr * c);
  u64 concretize(Val v, unsigned w);
  int checkSat(Expr * extra, std::vector<u128> & m);
  u128 evalM(Expr * e) { return evalExpr(e, model, epoch); }
  void setModel(std::vector<u128> & m) { model.swap(m); epoch++; }
  Expr * freshVar(unsigned w, const char * name);
  u64 choose(u64 n, const char * name);
  u64 concPtr(Val v) { return v.e ? concretize(v, 64) : v.c; }
  std::string cstr(u64 p);

  bool forkState(); // true in child
  void endPath(const char * why);
  [[noreturn]] void finish();
  void violation(const char * kind, const std::string & msg);
  [[noreturn]] void violationEnd(const char * kind, const std::string & msg);
  [[noreturn]] void unsupported(const std::string & msg);
  std::string backtrace();
  std::string inputsStr();

  // slow ops
  Val binSym(K k, Val a, Val b, unsigned w);
  bool execPure(FnInfo * f, Inst & in, Val * R, Expr * guard, struct MergeCtx & mc);
  bool tryMerge(Frame & fr, u32 block, const std::vector<std::pair<u32, Expr *>> & outs);
  bool mergeRegion(FnInfo * f, Val * R, u32 startBlock, const std::vector<std::pair<u32, Expr *>> & outs, i32 stopBlock,
      MergeCtx & mc, std::vector<Val> * ret);
};
extern Engine * E;
