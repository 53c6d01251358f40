#pragma once
#include "state.hpp"
#include "weak.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <array>
#include <set>
#include <unordered_set>
#include <deque>

namespace cosym {
struct Opnd { int reg = -1; u16 w = 64; Val imm; };
struct PhiMove { int dst; Opnd src; };
struct Edge { u32 target = 0; std::vector<PhiMove> phis; };
enum Op : u8 { OP_BIN, OP_ICMP, OP_SELECT, OP_CAST, OP_COPY, OP_GEP, OP_LOAD, OP_STORE, OP_ALLOCA, OP_BR, OP_CONDBR, OP_SWITCH, OP_RET,
  OP_CALL, OP_LANDINGPAD, OP_RESUME, OP_UNREACHABLE, OP_CMPXCHG, OP_RMW, OP_FENCE, OP_ICALL, OP_UNSUPPORTED, OP_FBIN };
struct Leaf { u64 off; u16 w; };
struct Fn; struct Ins; struct State; struct Exec;
enum class R { Next, Stay, Dead };
using Handler = std::function<R(State&, const Ins&, std::vector<Val>&)>;
struct Ins {
  Op op; u8 sub = 0; u8 ord = 0, ord2 = 0; bool isInvoke = false, isCleanup = false, noalign = false; u16 w = 0; int dst = -1; 
  std::vector<Opnd> ops; u64 k = 0; u64 k2 = 0;               // gep const offset / alignment / size
  std::vector<Leaf> leaves;                                   // load/store leaves, or argument leaf counts
  std::vector<u64> scales; std::vector<u64> clauses; u32 e0 = 0, e1 = 0; std::vector<std::pair<u64, u32>> cases;
  Fn* callee = nullptr; const Handler* h = nullptr; std::vector<int> argLeaves; std::vector<u64> byval; int nret = 0; std::vector<u16> retW;
  const llvm::Instruction* I = nullptr; Fn* parent = nullptr; std::string extName;
};
struct Fn { llvm::Function* F = nullptr; std::string name; bool lowered = false, repo = false; std::vector<Ins> code; std::vector<Edge> edges; int nregs = 0; std::vector<int> argRegs; std::vector<u16> argW; bool entered = false; u64 steps = 0; };

struct Frame { Fn* fn; u32 pc = 0; std::vector<Val> regs; std::vector<u32> allocas; bool dropRet = false; bool skipPreempt = false; };
struct ExcInfo { u64 type = 0, dtor = 0; int count = 0; bool rethrown = false; };
enum TStat : u8 { T_RUN, T_JOIN, T_MUTEX, T_SEM, T_DONE };
struct Thread { int tid = 0; TStat st = T_RUN; u64 waitOn = 0; std::vector<Frame> stack; std::vector<u64> caught; std::vector<std::pair<u64, u64>> tlsDtors; bool exiting = false; bool noPreempt = false; int ops = 0, quiet = 0; u64 statePtr = 0; };
constexpr int MAXRT = 8; using VC = std::array<u32, MAXRT>;
struct RClock { VC vc{}, rf{}, pd{}; }; struct RRec { u64 mask; u32 clk; u8 tid, wr, at; }; struct RPage { u32 rc = 0; std::vector<RRec> r; }; struct RObj { u32 rc = 0; std::map<u64, Ref<RPage>> pg; };
struct LogEntry { std::string name; E e; u64 conc; u8 kind; };  // 0 symbol, 1 choice
struct State {
  Mem mem; std::vector<Thread> th; int cur = 0; std::vector<E> pc; Model model; u64 steps = 0; int phase = 0;
  std::map<u64, ExcInfo> exc; std::map<std::pair<u64, int>, u64> tls; std::map<u64, int> mutexOwner; std::vector<std::pair<u64, u64>> atexits;
  std::vector<LogEntry> log; std::set<std::string> reached; std::map<std::string, u64> notes; int symCount = 0, envCount = 0; int preempts = 0; i64 heapLive = 0; std::map<std::pair<u64, u64>, std::vector<u64>> reusable; /* with the parameter reuse: released blocks by size and alignment */ int depth = 0; std::vector<int> schedule;
  bool weak = false; int wnode = -1; size_t wpc = 0; u32 wOrd = 0, wLocal = 0; std::map<u64, E> wLast; std::set<u64> wDead, wKnown; u32 wJoined = 0;
  std::vector<RClock> rclk; std::map<u64, VC> rsync; std::map<u64, Ref<RObj>> rsh;
  Thread& t() { return th[cur]; } Frame& f() { return th[cur].stack.back(); }
};
struct Violation { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, u64>> inputs; std::vector<int> schedule; std::vector<u8> kinds; std::string witness; };

struct Options { std::string entry; u64 maxSteps = 30'000'000; double maxSecs = 600; int jobs = 8; int preempt = 0; int maxEnum = 64; std::map<std::string, u64> params; bool trace = false; int maxViol = 6; std::string out; bool threads = false; bool runAtexit = false; };
}
