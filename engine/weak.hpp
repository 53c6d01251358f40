// Event trees of the threads of a concurrent instance, and the encoding of their executions under the C++ memory model.
#pragma once
#include "expr.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>
namespace cosym {
enum WType : u8 { W_ROOT, W_R, W_W, W_U, W_F, W_JOIN, W_END, W_VIOL };
struct WNode {
  int id = 0, th = 0, parent = -1, pos = 0; WType type = W_ROOT; u64 loc = 0; u32 bytes = 0; u8 ord = 0;   // ord: llvm::AtomicOrdering, 0 = plain
  bool poison = false;                 // a write that leaves the location without a value (allocation, release)
  E rval = nullptr, wval = nullptr; std::vector<E> pc;   // constraints added since the parent
  std::string kind, msg, where; std::vector<std::string> stack; int joins = -1; u32 localAtomics = 0; // atomic operations on thread-private locations since the parent
};
struct WLoc { u32 bytes = 0; E init = nullptr; bool hasInit = false; };
struct WEvent { int node, th, pos; WType type; u64 loc; u32 bytes; u8 ord; bool poison; u64 rval, wval; int rf; u64 mo, S, ts; int joins; u32 local; std::string where; };   // rf: index of the event read from, -1 initial value, -2 none
struct WWitness { bool found = false; std::string kind, msg, where; std::vector<std::string> stack; int a = -1, b = -1; std::vector<WEvent> ev; std::map<u64, u64> init; };
struct WInstance { int threads = 0; std::vector<WNode> n; std::map<u64, WLoc> locs; std::vector<E> pc; };
struct WStats { u64 instances = 0, rounds = 0, nodes = 0, events = 0, rfs = 0, clauses = 0, endable = 0; double secs = 0; };
extern WStats g_wstats;
// violation: asks for an execution that breaks something; otherwise for one in which every thread ends. base receives values of the ordinary symbols.
Sat solveWeak(const WInstance& I, bool violation, WWitness& out, Assignment& base, unsigned timeoutMs);
}
