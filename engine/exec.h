// Symbolic executor for LLVM IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct Val {
  E e = nullptr;   // null: concrete
  u128 c = 0;
  bool sym() const { return e != nullptr; }
};

// ---------------------------------------------------------------- memory
static const unsigned ASHIFT = 24;
static const uint64_t HEAP_BASE = 0x100000000000ull, STACK_BASE = 0x400000000000ull, FUNC_BASE = 0x7e0000000000ull;
static const uint64_t MAX_HEAP = 1ull << 21, THREAD_STRIDE = 1ull << 16;

enum ObjKind : uint8_t { OGlobal, OHeap, OStack };
struct Obj {
  int rc = 1;
  uint64_t base = 0, size = 0;
  ObjKind kind = OHeap;
  uint8_t allocFn = 0;       // 1 malloc, 2 new, 3 new[]
  bool freed = false, ro = false;
  uint8_t* d = nullptr;      // concrete bytes
  E* s = nullptr;            // symbolic bytes (null entry = concrete)
  uint8_t* un = nullptr;     // 1 = never written
  unsigned nsym = 0;
  // race detection metadata, per 8-byte cell (only allocated in threaded runs)
  struct Cell { uint32_t wclk = 0; int16_t wth = -1; uint32_t rclk[4] = {0, 0, 0, 0}; };
  Cell* cells = nullptr;
  Obj() {}
  Obj(const Obj& o);
  ~Obj();
};
struct Chunk { int rc = 1; Obj* o[64]; Chunk() { memset(o, 0, sizeof o); } };

struct Region {
  std::vector<Chunk*> ch;
  Region() {}
  Region(const Region& r) : ch(r.ch) { for (auto c : ch) if (c) c->rc++; }
  Region& operator=(const Region& r) { if (this != &r) { clear(); ch = r.ch; for (auto c : ch) if (c) c->rc++; } return *this; }
  ~Region() { clear(); }
  void clear();
  Obj* get(uint64_t i) const { uint64_t c = i >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[i & 63]; }
  Chunk* own(uint64_t i);
  Obj* getW(uint64_t i);
  void set(uint64_t i, Obj* o);  // takes ownership
};

// ---------------------------------------------------------------- code
struct Edge { uint32_t target; uint32_t mv, nmv; };
struct Move { int dst, src; };
struct GepIdx { int op; unsigned w; int64_t scale; };
struct CallInfo {
  const llvm::Function* fn = nullptr;
  int calleeOp = 0;
  std::vector<int> args;          // flattened operand lanes
  std::vector<unsigned> argw;     // widths of lanes
  std::vector<std::pair<unsigned, uint64_t>> byval;  // (lane, size)
  int ndst = 0;
  unsigned retw = 0;
  int builtin = -1;               // index in the builtin table, -1 unresolved, -2 interpreted
  int intrin = 0;
  std::vector<unsigned> laneRetW;
};
struct DI {
  uint16_t op = 0;
  uint8_t k = 0, fl = 0;
  uint16_t w = 0, w2 = 0;
  int dst = -1, a = 0, b = 0, c = 0;
  uint32_t x = 0, n = 0;
  const llvm::Instruction* I = nullptr;
};
struct Fn {
  const llvm::Function* f = nullptr;
  std::vector<DI> code;
  std::vector<Val> pool;
  std::vector<Edge> edges;
  std::vector<Move> moves;
  std::vector<CallInfo> calls;
  std::vector<GepIdx> geps;
  std::vector<std::pair<u128, uint32_t>> cases;
  std::vector<std::pair<int, unsigned>> packs;  // (operand, width) lists for pack/unpack
  int nslots = 0, nparams = 0;
  uint64_t execs = 0;
  std::string file;
};
struct Frame {
  Fn* fn; uint32_t pc; int retDst; uint32_t stackMark; int retN;
  std::vector<Val> r;
};
enum TStatus : uint8_t { TRun, TBlockedMutex, TBlockedJoin, TBlockedCond, TDone };
struct Thread {
  std::vector<Frame> fr;
  uint32_t stackTop = 0;
  TStatus st = TRun;
  uint64_t waitOn = 0;
  Val ret;
  bool detached = false;
  std::vector<uint32_t> vc;
};
struct Input { std::string name; unsigned w; E e; u128 c; bool internal; };
struct Obs { unsigned w; Val v; };
struct State {
  std::vector<Thread> th;
  int cur = 0;
  Region heap;
  Region stk[8];
  uint64_t heapTop = 1;
  std::vector<E> pc;
  Model model;
  std::vector<Input> inputs;
  std::vector<Obs> obs;
  std::vector<std::pair<std::string, Val>> notes;
  std::set<std::string> reached;
  uint64_t steps = 0;
  unsigned uninitUsed = 0;
  int preempt = 0;
  bool schedDone = false;   // scheduling choice for the current instruction already taken
  std::map<uint64_t, std::vector<uint32_t>> relClk;  // release clocks of atomics / mutexes
  std::map<uint64_t, int> mutexOwner;
  std::map<uint64_t, Val> tls;
  uint64_t heapBytes = 0;
  std::set<uint64_t> live;  // live heap objects allocated after the entry started
  bool trackLive = false;
  int entryPhase = 0;
};

struct Violation { std::string kind, msg, trace; std::vector<std::pair<std::string, u128>> inputs; std::vector<unsigned> widths; bool uninit; std::string pcs; };
struct PathEnd { int why; };      // 0 finished, 1 infeasible assume, 2 violation, 3 inconclusive
struct EngineError { std::string msg; };
