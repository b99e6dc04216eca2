#include <cxxabi.h>
// Symbolic executor for LLVM IR (see DESIGN.md). Concrete addresses, copy-on-write
// objects, byte-granular symbolic contents, DFS path exploration, z3 for feasibility
// and assertion checking.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <pthread.h>

using namespace llvm;

// ================================================================ memory
Obj::Obj(const Obj& o) {
  base = o.base; size = o.size; kind = o.kind; allocFn = o.allocFn; freed = o.freed; ro = o.ro; nsym = o.nsym;
  if (o.d) { d = (uint8_t*)malloc(size ? size : 1); memcpy(d, o.d, size); }
  if (o.s) { s = (E*)malloc(size * sizeof(E)); memcpy(s, o.s, size * sizeof(E)); }
  if (o.un) { un = (uint8_t*)malloc(size ? size : 1); memcpy(un, o.un, size); }
  if (o.cells) { cells = new Cell[size + 1]; std::copy(o.cells, o.cells + size, cells); }
}
Obj::~Obj() { free(d); free(s); free(un); delete[] cells; }
static void unrefObj(Obj* o) { if (o && --o->rc == 0) delete o; }
static void unrefChunk(Chunk* c) { if (c && --c->rc == 0) { for (auto o : c->o) unrefObj(o); delete c; } }
void Region::clear() { for (auto c : ch) unrefChunk(c); ch.clear(); }
Chunk* Region::own(uint64_t i) {
  uint64_t c = i >> 6;
  if (c >= ch.size()) ch.resize(c + 1, nullptr);
  if (!ch[c]) { ch[c] = new Chunk; return ch[c]; }
  if (ch[c]->rc > 1) {
    Chunk* n = new Chunk; memcpy(n->o, ch[c]->o, sizeof n->o);
    for (auto o : n->o) if (o) o->rc++;
    ch[c]->rc--; ch[c] = n;
  }
  return ch[c];
}
Obj* Region::getW(uint64_t i) {
  Chunk* c = own(i); Obj* o = c->o[i & 63];
  if (!o) return nullptr;
  if (o->rc > 1) { Obj* n = new Obj(*o); o->rc--; c->o[i & 63] = n; return n; }
  return o;
}
void Region::set(uint64_t i, Obj* o) { Chunk* c = own(i); unrefObj(c->o[i & 63]); c->o[i & 63] = o; }

// ================================================================ globals of a run
struct Options {
  std::string entry = "sx_main", bc, out, inputs, dump;
  double timeout = 600; uint64_t maxSteps = 40000000ull; int maxViol = 1; int shard = 0, nshards = 1; bool shardSeen = false;
  int maxTraces = 64; int preempt = 2; uint64_t seed = 1; bool uninitSym = true; bool leak = false; bool verbose = false; int maxSymOff = 1 << 14;
  bool stopAtLimit = true;
} opt;

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<const Function*> funcTab;
static std::unordered_map<const Function*, uint64_t> funcAddr;
static std::unordered_map<const GlobalVariable*, uint64_t> globAddr;
static std::unordered_map<const Function*, Fn*> fnCache;
static std::vector<State*> worklist;
static std::vector<Violation> violations;
struct PathTrace { std::vector<std::pair<std::string, u128>> inputs; std::vector<std::pair<unsigned, u128>> obs; bool replayable; std::vector<std::string> reached; };
static std::vector<PathTrace> traces;
static uint64_t nPaths = 0, nDone = 0, nInfeasible = 0, nIncomplete = 0, nForks = 0, totalSteps = 0, nAsserts = 0, nAssertsSym = 0, nAssertQ = 0, maxPC = 0, nSched = 0, nMemCheckSym = 0;
static std::map<std::string, uint64_t> reachedAll;
static std::vector<std::string> incompleteWhy;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

[[noreturn]] static void fail(const std::string& m) { throw EngineError{m}; }
static std::map<std::pair<unsigned, unsigned>, E> varTab;

static E newInput(State& s, unsigned w, const std::string& name, bool internal) {
  unsigned k = s.inputs.size();
  auto key = std::make_pair(k, w);
  auto it = varTab.find(key);
  E e;
  if (it != varTab.end()) e = it->second;
  else { e = mkVar(w, name + "#" + std::to_string(k)); varTab[key] = e; }
  s.inputs.push_back({name, w, e, 0, internal});
  return e;
}

static E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static Val fromE(E e) { Val v; if (e->k == CONST) { v.c = e->c; } else v.e = e; return v; }
static Val cval(u128 c) { Val v; v.c = c; return v; }

// ================================================================ reporting
static std::string where(State& s) {
  std::string r;
  Thread& t = s.th[s.cur];
  int n = 0;
  for (int i = (int)t.fr.size() - 1; i >= 0 && n < 14; i--, n++) {
    Frame& f = t.fr[i];
    const Instruction* I = f.pc < f.fn->code.size() ? f.fn->code[f.pc].I : nullptr;
    std::string loc = demangle(f.fn->f->getName().str());
    if (loc.size() > 160) loc = loc.substr(0, 157) + "...";
    if (I && I->getDebugLoc()) {
      const DILocation* d = I->getDebugLoc().get();
      loc += " @ " + d->getFilename().str() + ":" + std::to_string(d->getLine());
      for (const DILocation* ia = d->getInlinedAt(); ia; ia = ia->getInlinedAt()) loc += " < " + ia->getFilename().str() + ":" + std::to_string(ia->getLine());
    }
    r += (r.empty() ? "" : " | ") + loc;
  }
  return r;
}
static u128 evalUnder(State& s, const Val& v) { if (!v.e) return v.c; newEpoch(); return evalExpr(v.e, s.model); }

[[noreturn]] static void violate(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr) {
  Violation v; v.kind = kind; v.msg = msg; v.trace = where(s); v.uninit = s.uninitUsed > 0;
  const Model& mm = m ? *m : s.model;
  newEpoch();
  for (auto& i : s.inputs) { if (!i.internal) { v.inputs.push_back({i.name, i.e ? evalExpr(i.e, mm) : i.c}); v.widths.push_back(i.w); } }
  newEpoch();
  for (auto& n : s.notes) { v.msg += " [" + n.first + "=" + std::to_string((unsigned long long)(n.second.e ? evalExpr(n.second.e, mm) : n.second.c)) + "]"; }
  newEpoch();
  if (opt.verbose) for (E e : s.pc) v.pcs += show(e, 6) + "\n";
  violations.push_back(v);
  throw PathEnd{2};
}

// ================================================================ branching
static bool inPC(State& s, E c) { for (E e : s.pc) if (e == c) return true; return false; }
static void addPC(State& s, E c) {
  if (c->k == CONST) return;
  if (c->k == AND && c->w == 1) { addPC(s, c->op[0]); addPC(s, c->op[1]); return; }
  if (!inPC(s, c)) s.pc.push_back(c);
  if (s.pc.size() > maxPC) maxPC = s.pc.size();
}
static void markIncomplete(State& s, const std::string& why) {
  nIncomplete++;
  if (incompleteWhy.size() < 10) incompleteWhy.push_back(why + " at " + where(s));
}
// Decides a branch for `s`, pushing the sibling onto the worklist when both sides are feasible.
static bool decide(State& s, E cond) {
  if (cond->k == CONST) return cond->c;
  E nc = mkNot(cond);
  if (inPC(s, cond)) return true;
  if (inPC(s, nc)) return false;
  bool v;
  if (!cond->hasUF) {
    newEpoch();
    v = evalExpr(cond, s.model);
    g_ss.byModel++; g_ss.queries++;
  } else {
    Model m = s.model;
    int r = solveSliced(s.pc, cond, m);
    if (r < 0) { markIncomplete(s, "solver gave no answer"); throw PathEnd{3}; }
    v = r == 1; if (v) s.model = m;
  }
  E other = v ? nc : cond;
  Model m = s.model;
  int r = solveSliced(s.pc, other, m);
  if (r < 0) { markIncomplete(s, "solver gave no answer"); return v; }
  if (r == 1) {
    State* t = new State(s);
    addPC(*t, other); t->model = m;
    worklist.push_back(t); nForks++;
  }
  if (r == 1) addPC(s, v ? cond : nc);
  return v;
}
static u128 concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  if (v.e->hasUF) {
    // obtain a model value through the solver
    Model m = s.model; solveSliced(s.pc, mkEq(v.e, v.e), m);
  }
  newEpoch();
  u128 c = evalExpr(v.e, s.model);
  if (!decide(s, mkEq(v.e, mkConst(w, c)))) fail("concretize: inconsistent model");
  return c;
}
static void assume(State& s, E c) {
  if (c->k == CONST) { if (!c->c) throw PathEnd{1}; return; }
  if (inPC(s, c)) return;
  newEpoch();
  if (!c->hasUF && evalExpr(c, s.model)) { addPC(s, c); return; }
  Model m = s.model;
  int r = solveSliced(s.pc, c, m);
  if (r < 0) { markIncomplete(s, "solver gave no answer (assume)"); throw PathEnd{3}; }
  if (r == 0) throw PathEnd{1};
  s.model = m; addPC(s, c);
}
// checks that c always holds on this path; reports otherwise. Afterwards c is assumed.
static void mustHold(State& s, E c, const std::string& kind, const std::string& msg) {
  if (c->k == CONST) { if (!c->c) violate(s, kind, msg); return; }
  if (inPC(s, c)) return;
  E nc = mkNot(c);
  newEpoch();
  if (!c->hasUF && !evalExpr(c, s.model)) violate(s, kind, msg);
  Model m = s.model;
  nAssertQ++;
  int r = solveSliced(s.pc, nc, m);
  if (r < 0) { markIncomplete(s, "solver gave no answer (assert)"); return; }
  if (r == 1) violate(s, kind, msg, &m);
}

// ================================================================ objects
static const Region* regionOf(State& s, uint64_t addr, uint64_t& idx) {
  if (addr >= HEAP_BASE && addr < STACK_BASE) { idx = (addr - HEAP_BASE) >> ASHIFT; return &s.heap; }
  if (addr >= STACK_BASE && addr < FUNC_BASE) {
    uint64_t i = (addr - STACK_BASE) >> ASHIFT; unsigned t = i / THREAD_STRIDE; idx = i % THREAD_STRIDE;
    if (t < 8) return &s.stk[t];
  }
  return nullptr;
}
static Obj* findObj(State& s, uint64_t addr) { uint64_t i; const Region* r = regionOf(s, addr, i); return r ? r->get(i) : nullptr; }
static Obj* findObjW(State& s, uint64_t addr) { uint64_t i; Region* r = const_cast<Region*>(regionOf(s, addr, i)); return r ? r->getW(i) : nullptr; }

static uint64_t allocHeap(State& s, uint64_t size, ObjKind k, bool zero, uint8_t fn) {
  if (size >= (1ull << ASHIFT)) fail("allocation too large: " + std::to_string(size));
  uint64_t i = s.heapTop++;
  if (i >= MAX_HEAP) fail("out of heap indices");
  Obj* o = new Obj; o->base = HEAP_BASE + (i << ASHIFT); o->size = size; o->kind = k; o->allocFn = fn;
  o->d = (uint8_t*)calloc(1, size ? size : 1);
  if (!zero && size) { o->un = (uint8_t*)malloc(size); memset(o->un, 1, size); }
  s.heap.set(i, o);
  if (k == OHeap) { s.heapBytes += size; if (s.trackLive) s.live.insert(o->base); }
  return o->base;
}
static uint64_t allocStack(State& s, uint64_t size) {
  Thread& t = s.th[s.cur];
  uint64_t i = ++t.stackTop;
  if (i >= THREAD_STRIDE) fail("stack overflow (too many live allocas)");
  if (size >= (1ull << ASHIFT)) fail("alloca too large");
  Obj* o = new Obj; o->base = STACK_BASE + ((s.cur * THREAD_STRIDE + i) << ASHIFT); o->size = size; o->kind = OStack;
  o->d = (uint8_t*)calloc(1, size ? size : 1);
  if (size) { o->un = (uint8_t*)malloc(size); memset(o->un, 1, size); }
  s.stk[s.cur].set(i, o);
  return o->base;
}
static void popStack(State& s, uint32_t mark) {
  Thread& t = s.th[s.cur];
  while (t.stackTop > mark) { s.stk[s.cur].set(t.stackTop, nullptr); t.stackTop--; }
}

static std::string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

static std::string describe(State& s, uint64_t addr, uint64_t n) {
  std::string m = "address " + hex(addr);
  if (addr < 4096) return "null-pointer access, " + m;
  Obj* o = findObj(s, addr);
  if (!o) return "wild access, " + m;
  if (o->freed) return "use after free, object of " + std::to_string(o->size) + " bytes, offset " + std::to_string((long long)(addr - o->base));
  return std::string("out of bounds: ") + (o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global") + " object of " + std::to_string(o->size) + " bytes, offset " + std::to_string((long long)(addr - o->base)) + ", access of " + std::to_string(n);
}

// race detection -----------------------------------------------------------
static void raceAccess(State& s, Obj* o, uint64_t off, uint64_t n, bool wr, bool atomic) {
  if (s.th.size() < 2) return;
  if (o->size > 8192) return;
  if (!o->cells) o->cells = new Obj::Cell[o->size + 1];
  Thread& t = s.th[s.cur];
  auto hb = [&](int th, uint32_t clk) { return th == s.cur || ((int)t.vc.size() > th && t.vc[th] >= clk); };
  uint32_t now = t.vc.size() > (size_t)s.cur ? t.vc[s.cur] : 0;
  for (uint64_t c = off; c < off + n && c < o->size; c++) {
    Obj::Cell& x = o->cells[c];
    // wth>=0: last plain write; rclk: plain reads and atomic accesses (high bit marks atomic)
    if (x.wth >= 0 && !hb(x.wth, x.wclk)) violate(s, "data-race", "access not ordered after a write by another thread");
    for (int k = 0; k < 4; k++) if (x.rclk[k]) {
      bool at = x.rclk[k] & 0x80000000u; uint32_t clk = x.rclk[k] & 0x7fffffffu;
      if ((wr && !(atomic && at)) || (!atomic && at)) {
        if (!atomic && at && !wr) continue;  // plain read after atomic write: tolerated (conservative)
        if (!hb(k, clk)) violate(s, "data-race", "write or free not ordered after an access by another thread");
      }
    }
    if (wr && !atomic) { x.wth = s.cur; x.wclk = now; }
    if (s.cur < 4) { if (!wr || atomic) x.rclk[s.cur] = now | (atomic ? 0x80000000u : 0); }
  }
}

static E uninitByte(State& s, Obj* o, uint64_t off) {
  s.uninitUsed++;
  if (!opt.uninitSym) { o->un[off] = 0; o->d[off] = 0xCD; return nullptr; }
  E e = newInput(s, 8, "uninit", true);
  o->un[off] = 0;
  if (!o->s) o->s = (E*)calloc(o->size, sizeof(E));
  o->s[off] = e; o->nsym++;
  return e;
}
// raw object access; bounds already checked
static Val readObj(State& s, Obj* o, uint64_t off, unsigned bytes, unsigned bits) {
  bool sym = o->s && o->nsym;
  if (o->un) {
    bool un = false, all = true;
    for (unsigned i = 0; i < bytes; i++) { if (o->un[off + i]) un = true; else all = false; }
    (void)all;
    if (un) {
      Obj* w = findObjW(s, o->base); o = w;
      for (unsigned i = 0; i < bytes; i++) if (o->un[off + i]) uninitByte(s, o, off + i);
      sym = o->s && o->nsym;
    }
  }
  if (sym) {
    bool any = false;
    for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { any = true; break; }
    if (any) {
      E r = nullptr;
      for (unsigned i = 0; i < bytes; i++) {
        E b = o->s[off + i] ? o->s[off + i] : mkConst(8, o->d[off + i]);
        r = r ? mkConcat(b, r) : b;
      }
      if (r->w > bits) r = mkExtract(r, 0, bits);
      return fromE(r);
    }
  }
  Val v; u128 x = 0; memcpy(&x, o->d + off, bytes > 16 ? 16 : bytes);
  v.c = bits < 128 ? x & maskw(bits) : x;
  return v;
}
static void writeObj(State& s, Obj* o, uint64_t off, unsigned bytes, unsigned bits, const Val& v) {
  if (o->un) memset(o->un + off, 0, bytes);
  if (!v.e) {
    memcpy(o->d + off, &v.c, bytes);
    if (o->s && o->nsym) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { o->s[off + i] = nullptr; o->nsym--; }
    return;
  }
  if (!o->s) o->s = (E*)calloc(o->size, sizeof(E));
  E e = v.e;
  if (bits < bytes * 8) e = mkZExt(e, bytes * 8);
  for (unsigned i = 0; i < bytes; i++) {
    E b = mkExtract(e, i * 8, 8);
    if (b->k == CONST) { o->d[off + i] = (uint8_t)b->c; if (o->s[off + i]) { o->s[off + i] = nullptr; o->nsym--; } }
    else { if (!o->s[off + i]) o->nsym++; o->s[off + i] = b; }
  }
}

// Resolves an address to (object, offset value). Offset may stay symbolic.
static Obj* resolve(State& s, const Val& addr, uint64_t n, bool write, Val& off, const char* what) {
  if (!addr.e) {
    uint64_t a = (uint64_t)addr.c;
    Obj* o = findObj(s, a);
    if (!o || o->freed || a - o->base > o->size || n > o->size - (a - o->base)) violate(s, "memory", std::string(what) + ": " + describe(s, a, n));
    if (write && o->ro) violate(s, "memory", std::string(what) + ": write to constant data");
    off = cval(a - o->base);
    return o;
  }
  newEpoch();
  uint64_t a = (uint64_t)evalExpr(addr.e, s.model);
  Obj* o = findObj(s, a);
  if (!o || o->freed || a - o->base > o->size || n > o->size - (a - o->base)) violate(s, "memory", std::string(what) + ": " + describe(s, a, n));
  if (write && o->ro) violate(s, "memory", std::string(what) + ": write to constant data");
  nMemCheckSym++;
  E eo = mkBin(SUB, addr.e, mkConst(64, o->base));
  E in = mkBin(ULE, eo, mkConst(64, o->size - n));
  if (!decide(s, in)) fail("resolve: inconsistent model");
  off = fromE(eo);
  return o;
}
static bool candidates(E off, uint64_t maxOff, std::vector<uint64_t>& out) {
  u128 kz = off->kz, ko = off->ko;
  uint64_t step = 1;
  while (step < (1u << 20) && ((kz | ko) & step)) step <<= 1;
  uint64_t low = (uint64_t)ko & (step - 1);
  for (uint64_t o = low; o <= maxOff; o += step) {
    if ((o & (uint64_t)kz) || (~o & (uint64_t)ko)) continue;
    out.push_back(o);
    if ((int)out.size() > opt.maxSymOff) return false;
  }
  return true;
}
static Val load(State& s, const Val& addr, unsigned bytes, unsigned bits, bool atomic = false) {
  Val off; Obj* o = resolve(s, addr, bytes, false, off, "load");
  if (!off.e) { if (s.th.size() > 1) { o = findObjW(s, o->base); raceAccess(s, o, (uint64_t)off.c, bytes, false, atomic); } return readObj(s, o, (uint64_t)off.c, bytes, bits); }
  std::vector<uint64_t> cs;
  if (!candidates(off.e, o->size - bytes, cs)) { u128 c = concretize(s, off, 64); return readObj(s, findObj(s, o->base), (uint64_t)c, bytes, bits); }
  if (s.th.size() > 1) { o = findObjW(s, o->base); for (auto c : cs) raceAccess(s, o, c, bytes, false, atomic); }
  // prune candidates by the path condition when that is cheap
  if (cs.size() > 4) {
    newEpoch();
    u128 cur = evalExpr(off.e, s.model); (void)cur;
    // binary upper bound
    uint64_t lo = 0, hi = cs.size() - 1;
    while (lo < hi) {
      uint64_t mid = (lo + hi) / 2; Model m = s.model;
      int r = solveSliced(s.pc, mkBin(ULT, mkConst(64, cs[mid]), off.e), m);
      if (r == 0) hi = mid; else lo = mid + 1;
    }
    cs.resize(lo + 1);
    lo = 0; hi = cs.size() - 1;
    while (lo < hi) {
      uint64_t mid = (lo + hi + 1) / 2; Model m = s.model;
      int r = solveSliced(s.pc, mkBin(ULT, off.e, mkConst(64, cs[mid])), m);
      if (r == 0) lo = mid; else hi = mid - 1;
    }
    cs.erase(cs.begin(), cs.begin() + lo);
  }
  E r = nullptr;
  uint64_t base = o->base;
  for (size_t i = cs.size(); i-- > 0;) {
    o = findObj(s, base);
    E v = toE(readObj(s, o, cs[i], bytes, bits), bits);
    r = r ? mkIte(mkEq(off.e, mkConst(64, cs[i])), v, r) : v;
  }
  if (!r) violate(s, "memory", "load: no feasible offset");
  return fromE(r);
}
static void store(State& s, const Val& addr, unsigned bytes, unsigned bits, const Val& v, bool atomic = false) {
  Val off; Obj* o = resolve(s, addr, bytes, true, off, "store");
  o = findObjW(s, o->base);
  if (!off.e) { if (s.th.size() > 1) raceAccess(s, o, (uint64_t)off.c, bytes, true, atomic); writeObj(s, o, (uint64_t)off.c, bytes, bits, v); return; }
  std::vector<uint64_t> cs;
  if (!candidates(off.e, o->size - bytes, cs) || cs.size() > 256) { u128 c = concretize(s, off, 64); writeObj(s, findObjW(s, o->base), (uint64_t)c, bytes, bits, v); return; }
  E val = toE(v, bits);
  if (bits < bytes * 8) val = mkZExt(val, bytes * 8);
  for (uint64_t c : cs) {
    if (s.th.size() > 1) raceAccess(s, o, c, bytes, true, atomic);
    E g = mkEq(off.e, mkConst(64, c));
    if (g->k == CONST && !g->c) continue;
    for (unsigned i = 0; i < bytes; i++) {
      E old;
      if (o->un && o->un[c + i]) { old = uninitByte(s, o, c + i); if (!old) old = mkConst(8, o->d[c + i]); }
      else old = o->s && o->s[c + i] ? o->s[c + i] : mkConst(8, o->d[c + i]);
      writeObj(s, o, c + i, 1, 8, fromE(mkIte(g, mkExtract(val, i * 8, 8), old)));
    }
  }
}
static void memCopy(State& s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  Val off; Obj* so = resolve(s, cval(src), n, false, off, "memcpy source"); uint64_t soff = (uint64_t)off.c;
  Obj* d0 = resolve(s, cval(dst), n, true, off, "memcpy destination"); uint64_t doff = (uint64_t)off.c;
  uint64_t sb = so->base, db = d0->base;
  Obj* d = findObjW(s, db); so = findObj(s, sb);
  if (s.th.size() > 1) { so = findObjW(s, sb); d = findObjW(s, db); raceAccess(s, so, soff, n, false, false); raceAccess(s, d, doff, n, true, false); }
  // take a copy to allow overlap
  std::vector<uint8_t> b(so->d + soff, so->d + soff + n);
  std::vector<E> es; if (so->s && so->nsym) es.assign(so->s + soff, so->s + soff + n);
  std::vector<uint8_t> un; if (so->un) un.assign(so->un + soff, so->un + soff + n);
  memcpy(d->d + doff, b.data(), n);
  bool anySym = false; for (E e : es) if (e) { anySym = true; break; }
  if (anySym && !d->s) d->s = (E*)calloc(d->size, sizeof(E));
  if (d->s) for (uint64_t i = 0; i < n; i++) {
    E e = es.empty() ? nullptr : es[i];
    if (d->s[doff + i] && !e) d->nsym--; else if (!d->s[doff + i] && e) d->nsym++;
    d->s[doff + i] = e;
  }
  bool anyUn = false; for (auto u : un) if (u) { anyUn = true; break; }
  if (anyUn && !d->un) { d->un = (uint8_t*)calloc(1, d->size); }
  if (d->un) { if (un.empty()) memset(d->un + doff, 0, n); else memcpy(d->un + doff, un.data(), n); }
}
static void memSet(State& s, uint64_t dst, const Val& v, uint64_t n) {
  if (!n) return;
  Val off; Obj* o = resolve(s, cval(dst), n, true, off, "memset");
  o = findObjW(s, o->base);
  if (s.th.size() > 1) raceAccess(s, o, (uint64_t)off.c, n, true, false);
  for (uint64_t i = 0; i < n; i++) writeObj(s, o, (uint64_t)off.c + i, 1, 8, v);
}
static void doFree(State& s, uint64_t a, uint8_t fn) {
  if (!a) return;
  Obj* o = findObj(s, a);
  if (!o || o->kind != OHeap || o->base != a) violate(s, "memory", "free of a pointer that is not a heap block: " + hex(a));
  if (o->freed) violate(s, "memory", "double free");
  if (fn && o->allocFn && fn != o->allocFn) violate(s, "memory", "mismatched allocation and deallocation functions");
  o = findObjW(s, a);
  if (s.th.size() > 1 && o->size) raceAccess(s, o, 0, o->size, true, false);
  o->freed = true; free(o->d); o->d = nullptr; free(o->s); o->s = nullptr; free(o->un); o->un = nullptr; o->nsym = 0;
  delete[] o->cells; o->cells = nullptr;
  if (s.trackLive) s.live.erase(o->base);
}
static Val readByte(State& s, uint64_t a) { return load(s, cval(a), 1, 8); }
static std::string readCStr(State& s, uint64_t a) {
  std::string r; if (!a) return "(null)";
  for (int i = 0; i < 4096; i++) { Val v = readByte(s, a + i); uint8_t c = v.e ? (uint8_t)evalUnder(s, v) : (uint8_t)v.c; if (!c) break; r += v.e ? '?' : (char)c; }
  return r;
}

// ================================================================ decoding
enum Op : uint16_t {
  O_BIN, O_DIV, O_FBIN, O_ICMP, O_FCMP, O_TRUNC, O_ZEXT, O_SEXT, O_FCVT, O_F2I, O_I2F, O_SELECT, O_GEP, O_LOAD, O_STORE, O_ALLOCA,
  O_RMW, O_CAS, O_FENCE, O_CALL, O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACH, O_MOV, O_PACK, O_UNPACK, O_FNEG, O_UNSUP
};
static void leaves(Type* T, std::vector<std::pair<Type*, uint64_t>>& out, uint64_t off = 0) {
  if (auto* S = dyn_cast<StructType>(T)) {
    const StructLayout* L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), out, off + L->getElementOffset(i));
  } else if (auto* A = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(A->getElementType());
    for (uint64_t i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), out, off + i * es);
  } else if (auto* V = dyn_cast<FixedVectorType>(T)) {
    uint64_t es = DL->getTypeSizeInBits(V->getElementType()) / 8;
    for (unsigned i = 0; i < V->getNumElements(); i++) leaves(V->getElementType(), out, off + i * es);
  } else if (!T->isVoidTy()) out.push_back({T, off});
}
static unsigned widthOf(Type* T) {
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isHalfTy()) return 16;
  if (T->isX86_FP80Ty()) return 80;
  if (T->isFP128Ty()) return 128;
  if (T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) return 1;
  std::string s; raw_string_ostream os(s); T->print(os);
  fail("type not supported: " + os.str());
}
static unsigned nlanes(Type* T) {
  if (T->isVoidTy()) return 0;
  if (T->isSingleValueType() && !T->isVectorTy()) return 1;
  std::vector<std::pair<Type*, uint64_t>> l; leaves(T, l); return l.size();
}

static void constLanes(const Constant* C, std::vector<u128>& out);
static u128 constScalar(const Constant* C) {
  if (auto* I = dyn_cast<ConstantInt>(C)) {
    const APInt& a = I->getValue();
    if (a.getBitWidth() > 128) fail("integer constant wider than 128 bits");
    u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    return v & maskw(a.getBitWidth());
  }
  if (auto* F = dyn_cast<ConstantFP>(C)) {
    APInt a = F->getValueAPF().bitcastToAPInt();
    u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    return v;
  }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto* F = dyn_cast<Function>(C)) { auto it = funcAddr.find(F); if (it == funcAddr.end()) fail("function address?"); return it->second; }
  if (auto* G = dyn_cast<GlobalVariable>(C)) { auto it = globAddr.find(G); if (it == globAddr.end()) fail("global address?"); return it->second; }
  if (auto* A = dyn_cast<GlobalAlias>(C)) return constScalar(A->getAliasee());
  if (auto* X = dyn_cast<ConstantExpr>(C)) {
    switch (X->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(X)->accumulateConstantOffset(*DL, off)) fail("constant gep");
        return (uint64_t)(constScalar(X->getOperand(0)) + off.getSExtValue());
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constScalar(X->getOperand(0));
      case Instruction::PtrToInt: return constScalar(X->getOperand(0)) & maskw(widthOf(X->getType()));
      case Instruction::IntToPtr: return constScalar(X->getOperand(0)) & maskw(64);
      case Instruction::Trunc: return constScalar(X->getOperand(0)) & maskw(widthOf(X->getType()));
      case Instruction::ZExt: return constScalar(X->getOperand(0));
      case Instruction::Sub: return (constScalar(X->getOperand(0)) - constScalar(X->getOperand(1))) & maskw(widthOf(X->getType()));
      case Instruction::Add: return (constScalar(X->getOperand(0)) + constScalar(X->getOperand(1))) & maskw(widthOf(X->getType()));
      case Instruction::ICmp: {
        u128 a = constScalar(X->getOperand(0)), b = constScalar(X->getOperand(1));
        switch (X->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: fail("const icmp"); }
      }
      case Instruction::Select: return constScalar(X->getOperand(0)) ? constScalar(X->getOperand(1)) : constScalar(X->getOperand(2));
      default: fail(std::string("constant expression ") + X->getOpcodeName());
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os);
  fail("constant not supported: " + os.str());
}
static void constLanes(const Constant* C, std::vector<u128>& out) {
  Type* T = C->getType();
  if (T->isSingleValueType() && !T->isVectorTy()) { out.push_back(constScalar(C)); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { out.resize(out.size() + nlanes(T), 0); return; }
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < D->getNumElements(); i++) constLanes(D->getElementAsConstant(i), out); return; }
  if (auto* A = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < A->getNumOperands(); i++) constLanes(A->getOperand(i), out); return; }
  fail("aggregate constant");
}

struct Decoder {
  Fn* fn; const Function* F;
  std::unordered_map<const Value*, std::vector<int>> map;
  std::map<u128, int> cpool;
  int konst(u128 c) {
    auto it = cpool.find(c); if (it != cpool.end()) return it->second;
    int i = ~(int)fn->pool.size(); fn->pool.push_back(cval(c)); cpool[c] = i; return i;
  }
  std::vector<int> ops(const Value* v) {
    if (auto* C = dyn_cast<Constant>(v)) { std::vector<u128> l; constLanes(C, l); std::vector<int> r; for (auto x : l) r.push_back(konst(x)); return r; }
    auto it = map.find(v);
    if (it == map.end()) { std::string s; raw_string_ostream os(s); v->print(os); fail("undefined value in decode: " + os.str() + " in " + F->getName().str()); }
    return it->second;
  }
  int op1(const Value* v) { auto r = ops(v); if (r.size() != 1) fail("scalar expected"); return r[0]; }
  std::vector<int> alloc(const Value* v) { unsigned n = nlanes(v->getType()); std::vector<int> r; for (unsigned i = 0; i < n; i++) r.push_back(fn->nslots++); map[v] = r; return r; }
  DI& emit(Op o, const Instruction* I) { fn->code.emplace_back(); DI& d = fn->code.back(); d.op = o; d.I = I; return d; }
  void run();
  void inst(const Instruction& I);
  std::unordered_map<const BasicBlock*, uint32_t> bstart;
  struct Fix { uint32_t edge; const BasicBlock *from, *to; };
  std::vector<Fix> fixes;
  uint32_t edge(const BasicBlock* f, const BasicBlock* t) { fn->edges.push_back({0, 0, 0}); fixes.push_back({(uint32_t)fn->edges.size() - 1, f, t}); return fn->edges.size() - 1; }
};

static unsigned scalarW(Type* T) { return widthOf(T->getScalarType()); }

void Decoder::run() {
  for (auto& a : F->args()) { for (unsigned i = 0, n = nlanes(a.getType()); i < n; i++) map[&a].push_back(fn->nslots++); }
  fn->nparams = fn->nslots;
  ReversePostOrderTraversal<const Function*> RPOT(F);
  for (const BasicBlock* B : RPOT) for (auto& P : B->phis()) alloc(&P);
  for (const BasicBlock* B : RPOT) {
    bstart[B] = fn->code.size();
    for (auto& I : *B) if (!isa<PHINode>(I)) inst(I);
  }
  for (auto& f : fixes) {
    Edge& e = fn->edges[f.edge];
    e.target = bstart[f.to]; e.mv = fn->moves.size();
    for (auto& P : f.to->phis()) {
      const Value* in = P.getIncomingValueForBlock(f.from);
      auto d = map[&P];
      if (isa<UndefValue>(in)) { for (size_t i = 0; i < d.size(); i++) fn->moves.push_back({d[i], konst(0)}); continue; }
      auto sOps = ops(in);
      for (size_t i = 0; i < d.size(); i++) fn->moves.push_back({d[i], sOps[i]});
    }
    fn->edges[f.edge].nmv = fn->moves.size() - e.mv;
  }
}

void Decoder::inst(const Instruction& I) {
  if (isa<DbgInfoIntrinsic>(I)) return;
  Type* T = I.getType();
  switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Kind k; bool dv = false;
      switch (I.getOpcode()) {
        case Instruction::Add: k = ADD; break; case Instruction::Sub: k = SUB; break; case Instruction::Mul: k = MUL; break;
        case Instruction::And: k = AND; break; case Instruction::Or: k = OR; break; case Instruction::Xor: k = XOR; break;
        case Instruction::Shl: k = SHL; break; case Instruction::LShr: k = LSHR; break; case Instruction::AShr: k = ASHR; break;
        case Instruction::UDiv: k = UDIV; dv = true; break; case Instruction::SDiv: k = SDIV; dv = true; break;
        case Instruction::URem: k = UREM; dv = true; break; default: k = SREM; dv = true;
      }
      auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); auto d = alloc(&I);
      for (size_t i = 0; i < d.size(); i++) { DI& x = emit(dv ? O_DIV : O_BIN, &I); x.k = k; x.w = scalarW(T); x.dst = d[i]; x.a = a[i]; x.b = b[i]; }
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); auto d = alloc(&I);
      for (size_t i = 0; i < d.size(); i++) {
        DI& x = emit(O_FBIN, &I); x.w = scalarW(T); x.dst = d[i]; x.a = a[i]; x.b = b[i];
        switch (I.getOpcode()) { case Instruction::FAdd: x.k = FADD; break; case Instruction::FSub: x.k = FSUB; break; case Instruction::FMul: x.k = FMUL; break; case Instruction::FDiv: x.k = FDIV; break; default: x.k = 255; }
      }
      return;
    }
    case Instruction::FNeg: {
      auto a = ops(I.getOperand(0)); auto d = alloc(&I);
      for (size_t i = 0; i < d.size(); i++) { DI& x = emit(O_FNEG, &I); x.w = scalarW(T); x.dst = d[i]; x.a = a[i]; }
      return;
    }
    case Instruction::ICmp: case Instruction::FCmp: {
      auto& C = cast<CmpInst>(I);
      auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); auto d = alloc(&I);
      for (size_t i = 0; i < d.size(); i++) { DI& x = emit(isa<ICmpInst>(I) ? O_ICMP : O_FCMP, &I); x.k = C.getPredicate(); x.w = scalarW(I.getOperand(0)->getType()); x.dst = d[i]; x.a = a[i]; x.b = b[i]; }
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      auto a = ops(I.getOperand(0));
      unsigned w2 = scalarW(I.getOperand(0)->getType()), w = scalarW(T);
      if ((I.getOpcode() == Instruction::PtrToInt || I.getOpcode() == Instruction::IntToPtr) && w == w2) { map[&I] = a; return; }
      auto d = alloc(&I);
      for (size_t i = 0; i < d.size(); i++) {
        Op o; uint8_t k = 0;
        switch (I.getOpcode()) {
          case Instruction::Trunc: o = O_TRUNC; break; case Instruction::ZExt: o = O_ZEXT; break; case Instruction::SExt: o = O_SEXT; break;
          case Instruction::FPTrunc: case Instruction::FPExt: o = O_FCVT; break;
          case Instruction::FPToSI: o = O_F2I; k = 1; break; case Instruction::FPToUI: o = O_F2I; break;
          case Instruction::SIToFP: o = O_I2F; k = 1; break; case Instruction::UIToFP: o = O_I2F; break;
          default: o = w < w2 ? O_TRUNC : O_ZEXT;
        }
        DI& x = emit(o, &I); x.k = k; x.w = w; x.w2 = w2; x.dst = d[i]; x.a = a[i];
      }
      return;
    }
    case Instruction::BitCast: {
      auto a = ops(I.getOperand(0));
      Type* S = I.getOperand(0)->getType();
      unsigned ln = nlanes(T);
      if (ln == a.size() && scalarW(S) == scalarW(T)) { map[&I] = a; return; }
      auto d = alloc(&I);
      unsigned sw = scalarW(S), dw = scalarW(T);
      unsigned total = sw * a.size();
      // process independent groups of at most 128 bits
      unsigned g = std::max(sw, dw);
      if (g % sw || g % dw) {
        g = total; if (g > 128) fail("bitcast repack");
      }
      for (unsigned base = 0; base < total; base += g) {
        uint32_t st = fn->packs.size();
        for (unsigned j = 0; j < g / sw; j++) fn->packs.push_back({a[base / sw + j], sw});
        if (g == dw) { DI& x = emit(O_PACK, &I); x.dst = d[base / dw]; x.x = st; x.n = g / sw; x.w = g; }
        else if (g == sw && dw < sw) { for (unsigned j = 0; j < g / dw; j++) { DI& x = emit(O_UNPACK, &I); x.dst = d[base / dw + j]; x.a = a[base / sw]; x.w2 = sw; x.w = dw; x.n = j * dw; } }
        else {
          int tmp = fn->nslots++;
          DI& x = emit(O_PACK, &I); x.dst = tmp; x.x = st; x.n = g / sw; x.w = g;
          for (unsigned j = 0; j < g / dw; j++) { DI& y = emit(O_UNPACK, &I); y.dst = d[base / dw + j]; y.a = tmp; y.w2 = g; y.w = dw; y.n = j * dw; }
        }
      }
      return;
    }
    case Instruction::Freeze: case Instruction::AddrSpaceCast: map[&I] = ops(I.getOperand(0)); return;
    case Instruction::Select: {
      auto c = ops(I.getOperand(0)), a = ops(I.getOperand(1)), b = ops(I.getOperand(2)); auto d = alloc(&I);
      std::vector<std::pair<Type*, uint64_t>> l; leaves(T, l);
      for (size_t i = 0; i < d.size(); i++) { DI& x = emit(O_SELECT, &I); x.w = widthOf(l[i].first); x.dst = d[i]; x.a = c.size() == 1 ? c[0] : c[i]; x.b = a[i]; x.c = b[i]; }
      return;
    }
    case Instruction::GetElementPtr: {
      auto& G = cast<GEPOperator>(I);
      if (T->isVectorTy()) { DI& x = emit(O_UNSUP, &I); x.x = 0; alloc(&I); return; }
      int base = op1(G.getPointerOperand());
      int64_t off = 0; uint32_t st = fn->geps.size();
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        Value* idx = it.getOperand();
        if (StructType* S = it.getStructTypeOrNull()) { off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
        int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
        if (auto* C = dyn_cast<ConstantInt>(idx)) { off += C->getSExtValue() * sc; continue; }
        fn->geps.push_back({op1(idx), widthOf(idx->getType()), sc});
      }
      if (fn->geps.size() == st && off == 0) { map[&I] = {base}; return; }
      auto d = alloc(&I);
      DI& x = emit(O_GEP, &I); x.dst = d[0]; x.a = base; x.b = konst((uint64_t)off); x.x = st; x.n = fn->geps.size() - st;
      return;
    }
    case Instruction::Load: {
      auto& L = cast<LoadInst>(I);
      int p = op1(L.getPointerOperand()); auto d = alloc(&I);
      if (auto* V = dyn_cast<FixedVectorType>(T)) if (scalarW(V) % 8) {
        unsigned tot = V->getNumElements() * scalarW(V); int tmp = fn->nslots++;
        DI& x = emit(O_LOAD, &I); x.dst = tmp; x.a = p; x.w = tot; x.n = (tot + 7) / 8; x.b = konst(0);
        for (unsigned j = 0; j < d.size(); j++) { DI& y = emit(O_UNPACK, &I); y.dst = d[j]; y.a = tmp; y.w2 = tot; y.w = scalarW(V); y.n = j * scalarW(V); }
        return;
      }
      std::vector<std::pair<Type*, uint64_t>> l; leaves(T, l);
      for (size_t i = 0; i < l.size(); i++) {
        unsigned w = widthOf(l[i].first);
        DI& x = emit(O_LOAD, &I); x.dst = d[i]; x.a = p; x.b = konst(l[i].second); x.w = w; x.n = (w + 7) / 8;
        if (L.isAtomic()) { x.fl = 1; x.k = (uint8_t)L.getOrdering(); }
        if (w > 128) fail("wide load");
      }
      return;
    }
    case Instruction::Store: {
      auto& S = cast<StoreInst>(I);
      int p = op1(S.getPointerOperand()); auto v = ops(S.getValueOperand());
      Type* VT = S.getValueOperand()->getType();
      if (auto* V = dyn_cast<FixedVectorType>(VT)) if (scalarW(V) % 8) {
        unsigned tot = V->getNumElements() * scalarW(V); int tmp = fn->nslots++;
        uint32_t st = fn->packs.size(); for (int o : v) fn->packs.push_back({o, scalarW(V)});
        { DI& x = emit(O_PACK, &I); x.dst = tmp; x.x = st; x.n = v.size(); x.w = tot; }
        DI& x = emit(O_STORE, &I); x.a = p; x.b = konst(0); x.c = tmp; x.w = tot; x.n = (tot + 7) / 8; return;
      }
      if (VT->isIntegerTy() && VT->getIntegerBitWidth() > 128) fail("wide store");
      std::vector<std::pair<Type*, uint64_t>> l; leaves(VT, l);
      for (size_t i = 0; i < l.size(); i++) {
        unsigned w = widthOf(l[i].first);
        DI& x = emit(O_STORE, &I); x.a = p; x.b = konst(l[i].second); x.c = v[i]; x.w = w; x.n = (w + 7) / 8;
        if (S.isAtomic()) { x.fl = 1; x.k = (uint8_t)S.getOrdering(); }
      }
      return;
    }
    case Instruction::Alloca: {
      auto& A = cast<AllocaInst>(I);
      uint64_t es = DL->getTypeAllocSize(A.getAllocatedType());
      int n = op1(A.getArraySize()); auto d = alloc(&I);
      DI& x = emit(O_ALLOCA, &I); x.dst = d[0]; x.a = n; x.b = konst(es); x.w = widthOf(A.getArraySize()->getType()); return;
    }
    case Instruction::AtomicRMW: {
      auto& R = cast<AtomicRMWInst>(I);
      int p = op1(R.getPointerOperand()), v = op1(R.getValOperand()); auto d = alloc(&I);
      DI& x = emit(O_RMW, &I); x.dst = d[0]; x.a = p; x.b = v; x.k = (uint8_t)R.getOperation(); x.w = widthOf(T); x.n = (x.w + 7) / 8; x.fl = (uint8_t)R.getOrdering(); return;
    }
    case Instruction::AtomicCmpXchg: {
      auto& R = cast<AtomicCmpXchgInst>(I);
      int p = op1(R.getPointerOperand()), cm = op1(R.getCompareOperand()), nw = op1(R.getNewValOperand()); auto d = alloc(&I);
      DI& x = emit(O_CAS, &I); x.dst = d[0]; x.a = p; x.b = cm; x.c = nw; x.w = widthOf(R.getCompareOperand()->getType()); x.n = (x.w + 7) / 8; x.fl = (uint8_t)R.getSuccessOrdering(); x.k = (uint8_t)R.getFailureOrdering(); return;
    }
    case Instruction::Fence: { DI& x = emit(O_FENCE, &I); x.fl = (uint8_t)cast<FenceInst>(I).getOrdering(); return; }
    case Instruction::ExtractValue: {
      auto& X = cast<ExtractValueInst>(I); auto a = ops(X.getAggregateOperand());
      Type* t = X.getAggregateOperand()->getType(); unsigned st = 0;
      for (unsigned i : X.indices()) {
        if (auto* S = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) st += nlanes(S->getElementType(j)); t = S->getElementType(i); }
        else { auto* Ar = cast<ArrayType>(t); st += i * nlanes(Ar->getElementType()); t = Ar->getElementType(); }
      }
      unsigned n = nlanes(T); map[&I] = std::vector<int>(a.begin() + st, a.begin() + st + n); return;
    }
    case Instruction::InsertValue: {
      auto& X = cast<InsertValueInst>(I); auto a = ops(X.getAggregateOperand()); auto v = ops(X.getInsertedValueOperand());
      Type* t = X.getAggregateOperand()->getType(); unsigned st = 0;
      for (unsigned i : X.indices()) {
        if (auto* S = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) st += nlanes(S->getElementType(j)); t = S->getElementType(i); }
        else { auto* Ar = cast<ArrayType>(t); st += i * nlanes(Ar->getElementType()); t = Ar->getElementType(); }
      }
      for (size_t i = 0; i < v.size(); i++) a[st + i] = v[i];
      map[&I] = a; return;
    }
    case Instruction::ExtractElement: {
      auto a = ops(I.getOperand(0));
      if (auto* C = dyn_cast<ConstantInt>(I.getOperand(1))) { map[&I] = {a[C->getZExtValue()]}; return; }
      int idx = op1(I.getOperand(1)); unsigned iw = widthOf(I.getOperand(1)->getType());
      auto d = alloc(&I); int acc = a[0];
      for (size_t i = 1; i < a.size(); i++) {
        int c = fn->nslots++; { DI& x = emit(O_ICMP, &I); x.k = CmpInst::ICMP_EQ; x.w = iw; x.dst = c; x.a = idx; x.b = konst(i); }
        int o = i + 1 == a.size() ? d[0] : fn->nslots++;
        DI& x = emit(O_SELECT, &I); x.w = scalarW(T); x.dst = o; x.a = c; x.b = a[i]; x.c = acc; acc = o;
      }
      return;
    }
    case Instruction::InsertElement: {
      auto a = ops(I.getOperand(0)); int v = op1(I.getOperand(1));
      if (auto* C = dyn_cast<ConstantInt>(I.getOperand(2))) { a[C->getZExtValue()] = v; map[&I] = a; return; }
      int idx = op1(I.getOperand(2)); unsigned iw = widthOf(I.getOperand(2)->getType()); auto d = alloc(&I);
      for (size_t i = 0; i < a.size(); i++) {
        int c = fn->nslots++; { DI& x = emit(O_ICMP, &I); x.k = CmpInst::ICMP_EQ; x.w = iw; x.dst = c; x.a = idx; x.b = konst(i); }
        DI& x = emit(O_SELECT, &I); x.w = scalarW(T); x.dst = d[i]; x.a = c; x.b = v; x.c = a[i];
      }
      return;
    }
    case Instruction::ShuffleVector: {
      auto& X = cast<ShuffleVectorInst>(I); auto a = ops(X.getOperand(0)), b = ops(X.getOperand(1));
      std::vector<int> r; for (int m : X.getShuffleMask()) r.push_back(m < 0 ? konst(0) : m < (int)a.size() ? a[m] : b[m - a.size()]);
      map[&I] = r; return;
    }
    case Instruction::Br: {
      auto& B = cast<BranchInst>(I);
      if (B.isUnconditional()) { uint32_t e = edge(I.getParent(), B.getSuccessor(0)); DI& x = emit(O_BR, &I); x.x = e; return; }
      int c = op1(B.getCondition()); uint32_t e1 = edge(I.getParent(), B.getSuccessor(0)), e2 = edge(I.getParent(), B.getSuccessor(1));
      DI& x = emit(O_CBR, &I); x.a = c; x.x = e1; x.n = e2; return;
    }
    case Instruction::Switch: {
      auto& S = cast<SwitchInst>(I); int c = op1(S.getCondition()); uint32_t st = fn->cases.size();
      for (auto& cs : S.cases()) { uint32_t e = edge(I.getParent(), cs.getCaseSuccessor()); fn->cases.push_back({constScalar(cs.getCaseValue()), e}); }
      uint32_t de = edge(I.getParent(), S.getDefaultDest());
      DI& x = emit(O_SWITCH, &I); x.a = c; x.w = widthOf(S.getCondition()->getType()); x.x = st; x.n = fn->cases.size() - st; x.dst = (int)de; return;
    }
    case Instruction::Ret: {
      uint32_t st = fn->packs.size(); unsigned n = 0;
      if (I.getNumOperands()) { for (int o : ops(I.getOperand(0))) { fn->packs.push_back({o, 0}); n++; } }
      DI& x = emit(O_RET, &I); x.x = st; x.n = n; return;
    }
    case Instruction::Unreachable: emit(O_UNREACH, &I); return;
    case Instruction::Invoke: case Instruction::Call: {
      auto& C = cast<CallBase>(I);
      CallInfo ci;
      const Value* cv = C.getCalledOperand()->stripPointerCasts();
      if (auto* A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliasee()->stripPointerCasts();
      if (auto* f = dyn_cast<Function>(cv)) {
        ci.fn = f; ci.intrin = f->getIntrinsicID();
        switch (ci.intrin) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::donothing:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe:
            if (!T->isVoidTy()) { auto d = alloc(&I); for (int x : d) { DI& y = emit(O_MOV, &I); y.dst = x; y.a = konst(0); } }
            return;
          case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
            map[&I] = ops(C.getArgOperand(0)); return;
          default: break;
        }
      } else if (isa<InlineAsm>(cv)) {
        // empty asm barriers only
        if (cast<InlineAsm>(cv)->getAsmString().empty() && T->isVoidTy()) return;
        DI& x = emit(O_UNSUP, &I); x.x = 1; if (!T->isVoidTy()) alloc(&I); return;
      } else ci.calleeOp = op1(C.getCalledOperand());
      for (unsigned i = 0; i < C.arg_size(); i++) {
        Type* at = C.getArgOperand(i)->getType();
        if (at->isMetadataTy()) continue;
        if (C.isByValArgument(i)) ci.byval.push_back({(unsigned)ci.args.size(), DL->getTypeAllocSize(C.getParamByValType(i))});
        std::vector<std::pair<Type*, uint64_t>> l; leaves(at, l);
        auto o = ops(C.getArgOperand(i));
        for (size_t j = 0; j < o.size(); j++) { ci.args.push_back(o[j]); ci.argw.push_back(widthOf(l[j].first)); }
      }
      int dst = -1;
      if (!T->isVoidTy()) { auto d = alloc(&I); ci.ndst = d.size(); if (!d.empty()) dst = d[0];
        std::vector<std::pair<Type*, uint64_t>> l; leaves(T, l); for (auto& x : l) ci.laneRetW.push_back(widthOf(x.first)); if (!l.empty()) ci.retw = ci.laneRetW[0]; }
      fn->calls.push_back(std::move(ci));
      uint32_t cix = fn->calls.size() - 1;
      { DI& x = emit(O_CALL, &I); x.dst = dst; x.x = cix; }
      if (auto* Inv = dyn_cast<InvokeInst>(&I)) { uint32_t e = edge(I.getParent(), Inv->getNormalDest()); DI& y = emit(O_BR, &I); y.x = e; }
      return;
    }
    default: {
      DI& x = emit(O_UNSUP, &I); x.x = 2; if (!T->isVoidTy()) alloc(&I); return;
    }
  }
}

static Fn* getFn(const Function* F) {
  auto it = fnCache.find(F);
  if (it != fnCache.end()) return it->second;
  if (auto e = const_cast<Function*>(F)->materialize()) throw EngineError{"cannot read the body of " + F->getName().str() + ": " + toString(std::move(e))};
  Fn* fn = new Fn; fn->f = F; fnCache[F] = fn;
  if (auto* SP = F->getSubprogram()) { fn->file = SP->getDirectory().str(); std::string b = SP->getFilename().str(); fn->file = b.size() && b[0] == '/' ? b : fn->file + "/" + b; }
  Decoder d; d.fn = fn; d.F = F; d.run();
  return fn;
}

// ================================================================ builtins
struct Exec;
typedef std::function<Val(State&, CallInfo&, std::vector<Val>&)> BuiltinFn;
static std::vector<BuiltinFn> builtins;
static std::unordered_map<std::string, int> builtinIdx;
static bool g_noAdvance = false;  // a builtin pushed frames / wants re-execution

static std::vector<u128> concInputs; static bool haveConc = false;

static E popcount(E e, unsigned w) {
  E r = mkConst(w, 0);
  // tree sum with minimal widths
  std::vector<E> v; for (unsigned i = 0; i < w; i++) v.push_back(mkExtract(e, i, 1));
  unsigned cw = 1;
  while (v.size() > 1) {
    std::vector<E> n; cw++;
    for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(mkBin(ADD, mkZExt(v[i], cw), mkZExt(v[i + 1], cw)));
    if (v.size() & 1) n.push_back(mkZExt(v.back(), cw));
    v.swap(n);
  }
  r = v[0];
  return r->w > w ? mkExtract(r, 0, w) : mkZExt(r, w);
}
static E ctzE(E e, unsigned w, bool lead) {
  E r = mkConst(w, w);
  for (unsigned i = w; i-- > 0;) {
    unsigned bit = lead ? w - 1 - i : i;
    r = mkIte(mkExtract(e, bit, 1), mkConst(w, i), r);
  }
  return r;
}
static u128 bswapC(u128 v, unsigned w) { u128 r = 0; for (unsigned i = 0; i < w / 8; i++) { r = (r << 8) | (v & 0xff); v >>= 8; } return r; }

static Val minmax(const Val& a, const Val& b, unsigned w, Kind k, bool wantFirstIfLess) {
  E x = toE(a, w), y = toE(b, w); E c = mkBin(k, x, y);
  return fromE(wantFirstIfLess ? mkIte(c, x, y) : mkIte(c, y, x));
}
static E isInfE(E a) { unsigned w = a->w, mb = w == 32 ? 23 : 52; return mkEq(mkExtract(a, 0, w - 1), mkConst(w - 1, maskw(w - 1) & ~maskw(mb))); }

static unsigned ufId(const std::string& n) { for (size_t i = 0; i < g_ufs.size(); i++) if (g_ufs[i] == n) return i; g_ufs.push_back(n); return g_ufs.size() - 1; }
static Val libm1(const char* nm, unsigned w, const Val& a, double (*fd)(double), float (*ff)(float)) {
  if (!a.e) {
    if (w == 32) { uint32_t x = (uint32_t)a.c; float f; memcpy(&f, &x, 4); f = ff(f); memcpy(&x, &f, 4); if (f != f) x = 0x7fc00000; return cval(x); }
    uint64_t x = (uint64_t)a.c; double f; memcpy(&f, &x, 8); f = fd(f); memcpy(&x, &f, 8); if (f != f) x = 0x7ff8000000000000ull; return cval(x);
  }
  return fromE(mkUF(ufId(std::string(nm) + std::to_string(w)), w, a.e, nullptr));
}
static Val libm2(const char* nm, unsigned w, const Val& a, const Val& b, double (*fd)(double, double), float (*ff)(float, float)) {
  if (!a.e && !b.e) {
    if (w == 32) { uint32_t x = (uint32_t)a.c, y = (uint32_t)b.c; float f, g; memcpy(&f, &x, 4); memcpy(&g, &y, 4); f = ff(f, g); memcpy(&x, &f, 4); if (f != f) x = 0x7fc00000; return cval(x); }
    uint64_t x = (uint64_t)a.c, y = (uint64_t)b.c; double f, g; memcpy(&f, &x, 8); memcpy(&g, &y, 8); f = fd(f, g); memcpy(&x, &f, 8); if (f != f) x = 0x7ff8000000000000ull; return cval(x);
  }
  return fromE(mkUF(ufId(std::string(nm) + std::to_string(w)), w, toE(a, w), toE(b, w)));
}
static Val fminmax(const Val& a, const Val& b, unsigned w, bool mx) {
  E x = toE(a, w), y = toE(b, w);
  E c = mx ? mkFLt(x, y) : mkFLt(y, x);  // y better
  return fromE(mkIte(mkFIsNaN(x), y, mkIte(mkFIsNaN(y), x, mkIte(c, y, x))));
}
static Val ffma(const Val& a, const Val& b, const Val& c, unsigned w) { return fromE(mkFMA(toE(a, w), toE(b, w), toE(c, w))); }

static void joinVC(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void tick(State& s) { auto& vc = s.th[s.cur].vc; if ((int)vc.size() <= s.cur) vc.resize(s.cur + 1, 0); vc[s.cur]++; }
static bool isAcq(unsigned o) { return o == (unsigned)AtomicOrdering::Acquire || o == (unsigned)AtomicOrdering::AcquireRelease || o == (unsigned)AtomicOrdering::SequentiallyConsistent; }
static bool isRel(unsigned o) { return o == (unsigned)AtomicOrdering::Release || o == (unsigned)AtomicOrdering::AcquireRelease || o == (unsigned)AtomicOrdering::SequentiallyConsistent; }
static void syncAtomic(State& s, uint64_t addr, unsigned ord, bool isLoad, bool isStore, bool rmw) {
  if (s.th.size() < 2) return;
  auto& t = s.th[s.cur];
  if (isLoad && isAcq(ord)) { auto it = s.relClk.find(addr); if (it != s.relClk.end()) joinVC(t.vc, it->second); }
  if (isStore) {
    if (isRel(ord)) { if (rmw) joinVC(s.relClk[addr], t.vc); else s.relClk[addr] = t.vc; tick(s); }
    else if (!rmw) s.relClk.erase(addr);
  }
}
static bool runnable(State& s, int i) {
  Thread& t = s.th[i];
  switch (t.st) {
    case TRun: return true;
    case TBlockedMutex: return !s.mutexOwner.count(t.waitOn);
    case TBlockedJoin: return s.th[t.waitOn].st == TDone;
    case TBlockedCond: return false;
    default: return false;
  }
}
// Called before a visible operation. Returns true if another thread was switched in (re-dispatch).
static bool schedPoint(State& s) {
  if (s.th.size() < 2) return false;
  if (s.schedDone) { s.schedDone = false; return false; }
  std::vector<int> rs;
  bool curR = runnable(s, s.cur);
  if (curR) rs.push_back(s.cur);
  for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && runnable(s, i)) { if (curR && s.preempt >= opt.preempt) continue; rs.push_back(i); }
  if (rs.empty()) violate(s, "deadlock", "no thread can make progress");
  int pick = rs[0];
  if (rs.size() > 1) {
    nSched++;
    // one symbolic scheduling decision
    State save = s;
    E v = newInput(s, 3, "sched", true);
    size_t k = 0;
    // sibling states re-execute this instruction with the scheduling variable constrained; emulate by forking here
    for (k = 1; k < rs.size(); k++) {
      State* t = new State(save);
      E vv = newInput(*t, 3, "sched", true);
      E c = mkEq(vv, mkConst(3, k));
      Model m = t->model; int r = solveSliced(t->pc, c, m);
      if (r != 1) { delete t; continue; }
      addPC(*t, c); t->model = m;
      if (curR && rs[k] != s.cur) t->preempt++;
      t->cur = rs[k]; t->schedDone = true; t->th[rs[k]].st = TRun;
      worklist.push_back(t); nForks++;
    }
    E c = mkEq(v, mkConst(3, 0)); assume(s, c);
  }
  bool sw = pick != s.cur;
  s.cur = pick; s.th[pick].st = TRun;
  if (sw) { s.schedDone = true; return true; }
  return false;
}

static void pushCall(State& s, const Function* F, const std::vector<Val>& args, int retDst, int retN) {
  Fn* fn = getFn(F);
  Thread& t = s.th[s.cur];
  if (t.fr.size() > 20000) violate(s, "stack-overflow", "call depth above 20000");
  fn->execs++;
  t.fr.emplace_back();
  Frame& f = t.fr.back();
  f.fn = fn; f.pc = 0; f.retDst = retDst; f.retN = retN; f.stackMark = t.stackTop;
  f.r.resize(fn->nslots);
  for (size_t i = 0; i < args.size() && (int)i < fn->nparams; i++) f.r[i] = args[i];
}

static bool dynCastWalk(State& s, uint64_t ti, uint64_t obj, uint64_t target, std::vector<uint64_t>& found);
static std::string globalNameAt(uint64_t addr) { for (auto& g : globAddr) if (g.second == addr) return g.first->getName().str(); return ""; }
static uint64_t rd64(State& s, uint64_t a) { Val v = load(s, cval(a), 8, 64); return (uint64_t)concretize(s, v, 64); }
static std::unordered_map<uint64_t, std::string> tiKind;  // vtable address point -> class
static bool dynCastWalk(State& s, uint64_t ti, uint64_t obj, uint64_t target, std::vector<uint64_t>& found) {
  if (ti == target || readCStr(s, rd64(s, ti + 8)) == readCStr(s, rd64(s, target + 8))) { found.push_back(obj); return true; }
  uint64_t vt = rd64(s, ti);
  auto it = tiKind.find(vt);
  if (it == tiKind.end()) return false;
  if (it->second == "si") return dynCastWalk(s, rd64(s, ti + 16), obj, target, found);
  if (it->second == "vmi") {
    Val n = load(s, cval(ti + 20), 4, 32);
    for (unsigned i = 0; i < (unsigned)n.c; i++) {
      uint64_t bti = rd64(s, ti + 24 + i * 16); int64_t fl = (int64_t)rd64(s, ti + 32 + i * 16);
      int64_t off = fl >> 8;
      if (fl & 1) { uint64_t vp = rd64(s, obj); off = (int64_t)rd64(s, vp + off); }
      dynCastWalk(s, bti, obj + off, target, found);
    }
  }
  return !found.empty();
}

static uint64_t cA(State& s, const Val& v) { return (uint64_t)concretize(s, v, 64); }

static void reg(const char* n, BuiltinFn f) { builtinIdx[n] = builtins.size(); builtins.push_back(std::move(f)); }
#define BI [](State & s, CallInfo & ci, std::vector<Val> & a) -> Val
static Val V0() { return Val(); }

static void setupBuiltins() {
  // ---- harness interface
  reg("sx_var", BI { (void)ci;
    unsigned w = (unsigned)a[1].c; std::string n = readCStr(s, (uint64_t)a[0].c);
    if (haveConc) {
      unsigned k = 0; for (auto& i : s.inputs) if (!i.internal) k++;
      u128 v = k < concInputs.size() ? concInputs[k] & maskw(w) : 0; s.inputs.push_back({n, w, nullptr, v, false}); return cval(v);
    }
    return fromE(mkZExt(newInput(s, w, n, false), 64)); });
  reg("sx_assume", BI { (void)ci; assume(s, mkNot(mkEq(toE(a[0], ci.argw[0]), mkConst(ci.argw[0], 0)))); return V0(); });
  reg("sx_assert_at", BI { (void)ci; nAsserts++;
    E c = mkNot(mkEq(toE(a[0], ci.argw[0]), mkConst(ci.argw[0], 0)));
    if (c->k != CONST) nAssertsSym++;
    mustHold(s, c, "assert", readCStr(s, (uint64_t)a[1].c)); return V0(); });
  reg("sx_fail", BI { (void)ci; violate(s, "fail", readCStr(s, (uint64_t)a[0].c)); return V0(); });
  reg("sx_observe", BI { (void)ci; s.obs.push_back({64, a[0]}); return V0(); });
  reg("sx_note", BI { (void)ci; s.notes.push_back({readCStr(s, (uint64_t)a[0].c), a[1]}); return V0(); });
  reg("sx_reach", BI { (void)ci; s.reached.insert(readCStr(s, (uint64_t)a[0].c)); return V0(); });
  reg("sx_concretize", BI { (void)ci; return cval(concretize(s, a[0], 64)); });
  reg("sx_shard", BI { (void)ci; unsigned n = (unsigned)a[0].c; opt.shardSeen = true; opt.nshards = n; return cval(opt.shard); });
  reg("sx_end", BI { (void)ci; (void)s; throw PathEnd{0}; });
  reg("sx_is_symbolic", BI { (void)ci; (void)s; return cval(a[0].e ? 1 : 0); });
  reg("sx_engine", BI { (void)ci; (void)s; return cval(1); });
  reg("sx_live_heap", BI { (void)ci; (void)a; return cval(s.live.size()); });
  reg("sx_print", BI { (void)ci; fprintf(stderr, "sx: %s %s\n", readCStr(s, (uint64_t)a[0].c).c_str(), a[1].e ? show(a[1].e, 8).c_str() : std::to_string((long long)(int64_t)a[1].c).c_str()); return V0(); });
  // logical combination without branching
  // ---- allocation
  auto mal = [](uint8_t fn) { return [fn](State& s, CallInfo&, std::vector<Val>& a) -> Val { uint64_t n = cA(s, a[0]); return cval(allocHeap(s, n, OHeap, false, fn)); }; };
  reg("malloc", mal(1)); reg("_Znwm", mal(2)); reg("_Znam", mal(3)); reg("_ZnwmRKSt9nothrow_t", mal(2)); reg("_ZnamRKSt9nothrow_t", mal(3));
  reg("_ZnwmSt11align_val_t", mal(4)); reg("_ZnamSt11align_val_t", mal(5));
  reg("_ZnwmSt11align_val_tRKSt9nothrow_t", mal(4)); reg("_ZnamSt11align_val_tRKSt9nothrow_t", mal(5));
  reg("calloc", BI { (void)ci; uint64_t n = cA(s, a[0]), m = cA(s, a[1]); return cval(allocHeap(s, n * m, OHeap, true, 1)); });
  reg("aligned_alloc", BI { (void)ci; uint64_t n = cA(s, a[1]); return cval(allocHeap(s, n, OHeap, false, 1)); });
  reg("posix_memalign", BI { (void)ci; uint64_t n = cA(s, a[2]); uint64_t p = allocHeap(s, n, OHeap, false, 1); store(s, a[0], 8, 64, cval(p)); return cval(0); });
  reg("realloc", BI { (void)ci; uint64_t p = cA(s, a[0]), n = cA(s, a[1]);
    if (!p) return cval(allocHeap(s, n, OHeap, false, 1));
    Obj* o = findObj(s, p); if (!o || o->freed || o->base != p || o->kind != OHeap) violate(s, "memory", "realloc of an invalid pointer");
    uint64_t k = std::min(o->size, n); uint64_t q = allocHeap(s, n, OHeap, false, 1); memCopy(s, q, p, k); doFree(s, p, 1); return cval(q); });
  reg("__cxa_demangle", BI { (void)ci; std::string n; uint64_t p = cA(s, a[0]);
    for (;; p++) { Val v = readByte(s, p); if (v.e || !v.c) break; n.push_back((char)v.c); }
    int st = 0; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    if (uint64_t sp = cA(s, a[3])) store(s, cval(sp), 4, 32, cval((uint32_t)st));
    if (!d) return cval(0);
    uint64_t len = strlen(d) + 1, q = allocHeap(s, len, OHeap, false, 1);
    for (uint64_t i = 0; i < len; i++) store(s, cval(q + i), 1, 8, cval((uint8_t)d[i]));
    free(d); return cval(q); });
  auto fr = [](uint8_t fn) { return [fn](State& s, CallInfo&, std::vector<Val>& a) -> Val { doFree(s, cA(s, a[0]), fn); return V0(); }; };
  reg("free", fr(1)); reg("_ZdlPv", fr(2)); reg("_ZdlPvm", fr(2)); reg("_ZdaPv", fr(3)); reg("_ZdaPvm", fr(3));
  reg("_ZdlPvSt11align_val_t", fr(4)); reg("_ZdlPvmSt11align_val_t", fr(4)); reg("_ZdaPvSt11align_val_t", fr(5)); reg("_ZdaPvmSt11align_val_t", fr(5));
  reg("_ZdlPvRKSt9nothrow_t", fr(2));
  reg("malloc_usable_size", BI { (void)ci; Obj* o = findObj(s, cA(s, a[0])); return cval(o ? o->size : 0); });
  // ---- memory blocks
  reg("memcpy", BI { (void)ci; uint64_t n = cA(s, a[2]); if (n) memCopy(s, cA(s, a[0]), cA(s, a[1]), n); return a[0]; });
  builtinIdx["memmove"] = builtinIdx["memcpy"];
  reg("memset", BI { (void)ci; uint64_t n = cA(s, a[2]); if (n) memSet(s, cA(s, a[0]), a[1].e ? fromE(mkExtract(a[1].e, 0, 8)) : cval(a[1].c & 0xff), n); return a[0]; });
  reg("memcmp", BI { (void)ci; uint64_t n = cA(s, a[2]); uint64_t p = n ? cA(s, a[0]) : 0, q = n ? cA(s, a[1]) : 0;
    E r = mkConst(32, 0);
    for (uint64_t i = 0; i < n; i++) { readByte(s, p + i); readByte(s, q + i); }
    for (uint64_t i = n; i-- > 0;) { E x = toE(readByte(s, p + i), 8), y = toE(readByte(s, q + i), 8);
      r = mkIte(mkEq(x, y), r, mkIte(mkBin(ULT, x, y), mkConst(32, (u128)-1), mkConst(32, 1))); }
    return fromE(r); });
  reg("bcmp", BI { (void)ci; uint64_t n = cA(s, a[2]); uint64_t p = n ? cA(s, a[0]) : 0, q = n ? cA(s, a[1]) : 0;
    E r = mkBool(true);
    for (uint64_t i = 0; i < n; i++) r = mkAnd(r, mkEq(toE(readByte(s, p + i), 8), toE(readByte(s, q + i), 8)));
    return fromE(mkZExt(mkNot(r), 32)); });
  reg("strlen", BI { (void)ci; uint64_t p = cA(s, a[0]); uint64_t n = 0; for (;; n++) { Val v = readByte(s, p + n); if (!v.e) { if (!v.c) break; } else if (decide(s, mkEq(v.e, mkConst(8, 0)))) break; } return cval(n); });
  reg("strcmp", BI { (void)ci; uint64_t p = cA(s, a[0]), q = cA(s, a[1]);
    for (uint64_t i = 0;; i++) {
      Val x = readByte(s, p + i), y = readByte(s, q + i);
      if (!x.e && !y.e) { if (x.c != y.c) return cval((uint32_t)(x.c < y.c ? -1 : 1)); if (!x.c) return cval(0); continue; }
      E ex = toE(x, 8), ey = toE(y, 8);
      if (!decide(s, mkEq(ex, ey))) return decide(s, mkBin(ULT, ex, ey)) ? cval((uint32_t)-1) : cval(1);
      if (decide(s, mkEq(ex, mkConst(8, 0)))) return cval(0);
    } });
  reg("memchr", BI { (void)ci; uint64_t n = cA(s, a[2]), p = cA(s, a[0]); E ch = toE(a[1], 32); ch = mkExtract(ch, 0, 8);
    for (uint64_t i = 0; i < n; i++) { if (decide(s, mkEq(toE(readByte(s, p + i), 8), ch))) return cval(p + i); } return cval(0); });
  // ---- process level
  auto vi = [](const char* kind) { return [kind](State& s, CallInfo& ci, std::vector<Val>&) -> Val { violate(s, "abort", std::string(kind) + " reached (" + ci.fn->getName().str() + ")"); return V0(); }; };
  for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_throw_bad_array_new_length", "__assert_fail", "exit", "_exit", "__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_throw", "__cxa_rethrow",
       "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt16__throw_bad_castv",
       "_ZSt25__throw_bad_function_callv", "_ZSt21__throw_runtime_errorPKc", "_ZSt24__throw_invalid_argumentPKc", "_ZSt20__throw_system_errori", "_ZSt18__throw_bad_typeidv", "_ZSt21__throw_bad_exceptionv", "_ZSt20__throw_overflow_errorPKc", "_ZSt20__throw_domain_errorPKc", "_ZSt26__throw_bad_variant_accessPKc", "_ZSt27__throw_bad_optional_accessv", "_ZSt20__throw_future_errori"})
    reg(n, vi("termination"));
  reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", vi("assertion"));
  auto zero = [](State&, CallInfo&, std::vector<Val>&) -> Val { return V0(); };
  for (const char* n : {"__cxa_atexit", "atexit", "__cxa_thread_atexit", "printf", "puts", "putchar", "fprintf", "fputs", "fwrite", "fflush", "fputc", "write", "getenv", "secure_getenv", "sched_yield", "usleep", "nanosleep", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_cond_init", "pthread_cond_destroy", "pthread_attr_init", "pthread_attr_destroy", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_abort", "madvise", "pthread_setname_np"})
    reg(n, zero);
  reg("__errno_location", BI { (void)ci; (void)a; uint64_t k = 0xE0 + s.cur; auto it = s.tls.find(k); if (it != s.tls.end()) return it->second; Val v = cval(allocHeap(s, 8, OGlobal, true, 0)); s.tls[k] = v; return v; });
  // a thread that finds another one initialising waits for it; the owner is kept like that of a mutex
  reg("__cxa_guard_acquire", BI { (void)ci;
    uint64_t m = cA(s, a[0]);
    Val g = load(s, a[0], 1, 8, true);
    if (!g.e && g.c) { auto it = s.relClk.find(m); if (s.th.size() > 1 && it != s.relClk.end()) joinVC(s.th[s.cur].vc, it->second); return cval(0); }
    if (s.th.size() > 1) {
      auto it = s.mutexOwner.find(m);
      if (it != s.mutexOwner.end()) {
        if (it->second == s.cur) violate(s, "deadlock", "recursive initialisation of a static variable");
        s.th[s.cur].st = TBlockedMutex; s.th[s.cur].waitOn = m; g_noAdvance = true; schedPoint(s); return V0(); }
      s.mutexOwner[m] = s.cur;
    }
    return cval(1); });
  reg("__cxa_guard_release", BI { (void)ci;
    store(s, a[0], 1, 8, cval(1), true);
    uint64_t m = cA(s, a[0]);
    s.mutexOwner.erase(m);
    if (s.th.size() > 1) { s.relClk[m] = s.th[s.cur].vc; tick(s); }
    return V0(); });
  reg("__dynamic_cast", BI { (void)ci;
    uint64_t p = cA(s, a[0]); if (!p) return cval(0);
    uint64_t vp = rd64(s, p); int64_t top = (int64_t)rd64(s, vp - 16); uint64_t ti = rd64(s, vp - 8); uint64_t full = p + top;
    std::vector<uint64_t> f; dynCastWalk(s, ti, full, (uint64_t)a[2].c, f);
    return cval(f.empty() ? 0 : f[0]); });
  // ---- libm
#define LM1(nm) reg(#nm, BI { (void)s; return libm1(#nm, 64, a[0], [](double x) { return ::nm(x); }, [](float x) { return (float)::nm##f(x); }); }); reg(#nm "f", BI { (void)s; return libm1(#nm, 32, a[0], [](double x) { return ::nm(x); }, [](float x) { return ::nm##f(x); }); });
  LM1(exp) LM1(log) LM1(log2) LM1(log10) LM1(log1p) LM1(expm1) LM1(sin) LM1(cos) LM1(tan) LM1(asin) LM1(acos) LM1(atan) LM1(sinh) LM1(cosh) LM1(tanh) LM1(asinh) LM1(acosh) LM1(atanh) LM1(exp2) LM1(cbrt) LM1(erf) LM1(erfc) LM1(lgamma) LM1(tgamma)
#define LM2(nm) reg(#nm, BI { (void)s; return libm2(#nm, 64, a[0], a[1], [](double x, double y) { return ::nm(x, y); }, [](float x, float y) { return ::nm##f(x, y); }); }); reg(#nm "f", BI { (void)s; return libm2(#nm, 32, a[0], a[1], [](double x, double y) { return ::nm(x, y); }, [](float x, float y) { return ::nm##f(x, y); }); });
  LM2(pow) LM2(fmod) LM2(atan2) LM2(remainder) LM2(hypot) LM2(nextafter) LM2(fdim)
#define RN(nm, mode) reg(#nm, BI { (void)s; return fromE(mkFRound(toE(a[0], 64), mode)); }); reg(#nm "f", BI { (void)s; return fromE(mkFRound(toE(a[0], 32), mode)); });
  RN(floor, 3) RN(ceil, 2) RN(trunc, 4) RN(rint, 0) RN(nearbyint, 0) RN(round, 1) RN(roundeven, 0)
  reg("sqrt", BI { (void)s; return fromE(mkFSqrt(toE(a[0], 64))); }); reg("sqrtf", BI { (void)s; return fromE(mkFSqrt(toE(a[0], 32))); });
  reg("fmin", BI { (void)s; return fminmax(a[0], a[1], 64, false); }); reg("fmax", BI { (void)s; return fminmax(a[0], a[1], 64, true); });
  reg("fminf", BI { (void)s; return fminmax(a[0], a[1], 32, false); }); reg("fmaxf", BI { (void)s; return fminmax(a[0], a[1], 32, true); });
  reg("fma", BI { (void)s; return ffma(a[0], a[1], a[2], 64); }); reg("fmaf", BI { (void)s; return ffma(a[0], a[1], a[2], 32); });
  reg("llrint", BI { (void)s; return fromE(mkF2I(mkFRound(toE(a[0], 64), 0), 64, true)); });
  // concrete double formatting / parsing helpers for the runtime
  reg("sx_fmt_g", BI { (void)ci; double d; uint64_t x = (uint64_t)concretize(s, a[0], 64); memcpy(&d, &x, 8); char b[64]; snprintf(b, 64, "%.*g", (int)a[1].c, d); size_t n = strlen(b); for (size_t i = 0; i <= n; i++) store(s, cval((uint64_t)a[2].c + i), 1, 8, cval((uint8_t)b[i])); return cval(n); });
  reg("sx_strtod", BI { (void)ci; uint64_t p = cA(s, a[0]), n = cA(s, a[1]); std::string t; for (uint64_t i = 0; i < n; i++) t.push_back((char)concretize(s, readByte(s, p + i), 8)); char* e; double d = strtod(t.c_str(), &e); store(s, a[2], 8, 64, cval((uint64_t)(e - t.c_str()))); uint64_t b; memcpy(&b, &d, 8); return cval(b); });
  // ---- threads
  reg("pthread_create", BI { (void)ci;
    if (s.th.size() >= 4) fail("too many threads");
    int id = s.th.size();
    if (s.th[s.cur].vc.empty()) tick(s);
    store(s, a[0], 8, 64, cval(id));
    uint64_t fa = cA(s, a[2]); uint64_t ix = (fa - FUNC_BASE) / 16; if (fa < FUNC_BASE || ix >= funcTab.size()) fail("pthread_create: bad function");
    s.th.emplace_back();
    Thread& t = s.th.back();
    t.vc = s.th[s.cur].vc; if ((int)t.vc.size() <= id) t.vc.resize(id + 1, 0); t.vc[id] = 1;
    tick(s);
    int me = s.cur; s.cur = id; pushCall(s, funcTab[ix], {a[3]}, -1, 0); s.cur = me;
    return cval(0); });
  reg("pthread_join", BI { (void)ci;
    uint64_t id = cA(s, a[0]);
    if (id >= s.th.size()) fail("pthread_join: bad thread");
    if (s.th[id].st != TDone) { s.th[s.cur].st = TBlockedJoin; s.th[s.cur].waitOn = id; s.schedDone = false; g_noAdvance = true; schedPoint(s); return V0(); }
    joinVC(s.th[s.cur].vc, s.th[id].vc);
    if (!a[1].e && a[1].c) store(s, a[1], 8, 64, s.th[id].ret);
    return cval(0); });
  reg("pthread_self", BI { (void)ci; (void)a; return cval(s.cur); });
  reg("pthread_detach", BI { (void)ci; (void)a; (void)s; return cval(0); });
  reg("pthread_mutex_lock", BI { (void)ci;
    uint64_t m = cA(s, a[0]);
    if (schedPoint(s)) { g_noAdvance = true; return V0(); }
    if (s.mutexOwner.count(m)) {
      if (s.mutexOwner[m] == s.cur) violate(s, "deadlock", "mutex locked twice by one thread");
      s.th[s.cur].st = TBlockedMutex; s.th[s.cur].waitOn = m; g_noAdvance = true; schedPoint(s); return V0(); }
    s.mutexOwner[m] = s.cur; auto it = s.relClk.find(m); if (it != s.relClk.end()) joinVC(s.th[s.cur].vc, it->second);
    return cval(0); });
  reg("pthread_mutex_trylock", BI { (void)ci; uint64_t m = cA(s, a[0]); if (schedPoint(s)) { g_noAdvance = true; return V0(); } if (s.mutexOwner.count(m)) return cval(16); s.mutexOwner[m] = s.cur; auto it = s.relClk.find(m); if (it != s.relClk.end()) joinVC(s.th[s.cur].vc, it->second); return cval(0); });
  reg("pthread_mutex_unlock", BI { (void)ci;
    uint64_t m = cA(s, a[0]);
    auto it = s.mutexOwner.find(m); if (it == s.mutexOwner.end() || it->second != s.cur) violate(s, "lock", "unlock of a mutex not held");
    s.mutexOwner.erase(it); s.relClk[m] = s.th[s.cur].vc; tick(s);
    return cval(0); });
  reg("pthread_cond_wait", BI { (void)ci;
    uint64_t c = cA(s, a[0]), m = cA(s, a[1]);
    Thread& t = s.th[s.cur];
    // phase is encoded in tls under a per-thread key: 0 = not waiting, 1 = signalled and must re-lock
    uint64_t key = 0xC000 + s.cur; auto ph = s.tls.find(key);
    if (ph == s.tls.end()) {
      auto it = s.mutexOwner.find(m); if (it == s.mutexOwner.end() || it->second != s.cur) violate(s, "lock", "cond_wait without the mutex");
      s.mutexOwner.erase(it); s.relClk[m] = t.vc; tick(s);
      t.st = TBlockedCond; t.waitOn = c; s.tls[key] = cval(1); g_noAdvance = true; s.schedDone = false; schedPoint(s); return V0();
    }
    if (s.mutexOwner.count(m)) { t.st = TBlockedMutex; t.waitOn = m; g_noAdvance = true; s.schedDone = false; schedPoint(s); return V0(); }
    s.tls.erase(key); s.schedDone = false; s.mutexOwner[m] = s.cur; auto it = s.relClk.find(m); if (it != s.relClk.end()) joinVC(t.vc, it->second);
    return cval(0); });
  reg("pthread_cond_broadcast", BI { (void)ci; uint64_t c = cA(s, a[0]); for (auto& t : s.th) if (t.st == TBlockedCond && t.waitOn == c) t.st = TRun; return cval(0); });
  builtinIdx["pthread_cond_signal"] = builtinIdx["pthread_cond_broadcast"];  // spurious wake-ups are permitted
  builtinIdx["pthread_cond_clockwait"] = builtinIdx["pthread_cond_wait"];
  reg("sx_yield", BI { (void)ci; (void)a; if (schedPoint(s)) g_noAdvance = true; return V0(); });
}

// ================================================================ intrinsics
static bool intrinsic(State& s, CallInfo& ci, std::vector<Val>& a, std::vector<Val>& out) {
  unsigned w = ci.argw.empty() ? 0 : ci.argw[0];
  switch (ci.intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = cA(s, a[2]); if (n) memCopy(s, cA(s, a[0]), cA(s, a[1]), n); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = cA(s, a[2]); if (n) memSet(s, cA(s, a[0]), a[1], n); return true; }
    case Intrinsic::threadlocal_address: {
      if (s.cur == 0) { out = {a[0]}; return true; }
      uint64_t key = ((uint64_t)a[0].c) | ((uint64_t)s.cur << 56); auto it = s.tls.find(key);
      if (it == s.tls.end()) { Obj* o = findObj(s, (uint64_t)a[0].c); uint64_t p = allocHeap(s, o->size, OGlobal, true, 0);
        // fresh copy of the initialiser
        for (auto& g : globAddr) if (g.second == (uint64_t)a[0].c && g.first->hasInitializer() && !g.first->getInitializer()->isNullValue()) fail("non-zero thread_local initialiser");
        it = s.tls.emplace(key, cval(p)).first; }
      out = {it->second}; return true; }
    case Intrinsic::stacksave: out = {cval(0)}; return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violate(s, "ub", ci.intrin == Intrinsic::ubsantrap ? "undefined behaviour trap " + std::to_string((int)a[0].c) : "trap");
    case Intrinsic::debugtrap: violate(s, "abort", "debugtrap");
    case Intrinsic::objectsize: out = {cval(maskw(ci.retw))}; return true;
    case Intrinsic::is_constant: out = {cval(0)}; return true;
    case Intrinsic::umax: for (unsigned i = 0; i < out.size(); i++) out[i] = minmax(a[i], a[i + out.size()], w, ULT, false); return true;
    case Intrinsic::umin: for (unsigned i = 0; i < out.size(); i++) out[i] = minmax(a[i], a[i + out.size()], w, ULT, true); return true;
    case Intrinsic::smax: for (unsigned i = 0; i < out.size(); i++) out[i] = minmax(a[i], a[i + out.size()], w, SLT, false); return true;
    case Intrinsic::smin: for (unsigned i = 0; i < out.size(); i++) out[i] = minmax(a[i], a[i + out.size()], w, SLT, true); return true;
    case Intrinsic::abs: for (unsigned i = 0; i < out.size(); i++) { E x = toE(a[i], w); out[i] = fromE(mkIte(mkBin(SLT, x, mkConst(w, 0)), mkBin(SUB, mkConst(w, 0), x), x)); } return true;
    case Intrinsic::ctpop: for (unsigned i = 0; i < out.size(); i++) { if (!a[i].e) out[i] = cval(__builtin_popcountll((uint64_t)a[i].c) + __builtin_popcountll((uint64_t)(a[i].c >> 64))); else out[i] = fromE(popcount(a[i].e, w)); } return true;
    case Intrinsic::cttz: case Intrinsic::ctlz: {
      bool zp = a.back().c & 1;
      for (unsigned i = 0; i < out.size(); i++) {
        E x = toE(a[i], w);
        if (zp && ci.laneRetW.size() == 1) { /* poison on zero: value chosen = w; use is caught by clients */ }
        out[i] = fromE(ctzE(x, w, ci.intrin == Intrinsic::ctlz));
      }
      return true; }
    case Intrinsic::bswap: for (unsigned i = 0; i < out.size(); i++) {
      if (!a[i].e) out[i] = cval(bswapC(a[i].c, w));
      else { E r = nullptr; for (unsigned j = 0; j < w; j += 8) { E b = mkExtract(a[i].e, j, 8); r = r ? mkConcat(r, b) : b; } out[i] = fromE(r); } } return true;
    case Intrinsic::bitreverse: for (unsigned i = 0; i < out.size(); i++) { E r = nullptr; E x = toE(a[i], w); for (unsigned j = 0; j < w; j++) { E b = mkExtract(x, j, 1); r = r ? mkConcat(r, b) : b; } out[i] = fromE(r); } return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned n = out.size();
      for (unsigned i = 0; i < n; i++) {
        E x = toE(a[i], w), y = toE(a[i + n], w), sh = mkBin(UREM, toE(a[i + 2 * n], w), mkConst(w, w));
        E z = mkEq(sh, mkConst(w, 0)); E inv = mkBin(SUB, mkConst(w, w), sh);
        out[i] = fromE(ci.intrin == Intrinsic::fshl ? mkIte(z, x, mkOr(mkBin(SHL, x, sh), mkBin(LSHR, y, inv))) : mkIte(z, y, mkOr(mkBin(SHL, x, inv), mkBin(LSHR, y, sh))));
      }
      return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      E x = toE(a[0], w), y = toE(a[1], w);
      if (w > 64) {
        E r, o;
        switch (ci.intrin) {
          case Intrinsic::uadd_with_overflow: r = mkBin(ADD, x, y); o = mkBin(ULT, r, x); break;
          case Intrinsic::usub_with_overflow: r = mkBin(SUB, x, y); o = mkBin(ULT, x, y); break;
          case Intrinsic::sadd_with_overflow: r = mkBin(ADD, x, y); o = mkExtract(mkAnd(mkNot(mkBin(XOR, x, y)), mkBin(XOR, x, r)), w - 1, 1); break;
          case Intrinsic::ssub_with_overflow: r = mkBin(SUB, x, y); o = mkExtract(mkAnd(mkBin(XOR, x, y), mkBin(XOR, x, r)), w - 1, 1); break;
          default: fail("overflow intrinsic on wide type");
        }
        out[0] = fromE(r); out[1] = fromE(o); return true;
      }
      bool sg = ci.intrin == Intrinsic::sadd_with_overflow || ci.intrin == Intrinsic::ssub_with_overflow || ci.intrin == Intrinsic::smul_with_overflow;
      bool mul = ci.intrin == Intrinsic::umul_with_overflow || ci.intrin == Intrinsic::smul_with_overflow;
      Kind k = mul ? MUL : (ci.intrin == Intrinsic::uadd_with_overflow || ci.intrin == Intrinsic::sadd_with_overflow) ? ADD : SUB;
      unsigned ww = mul ? 2 * w : w + 1;
      E X = sg ? mkSExt(x, ww) : mkZExt(x, ww), Y = sg ? mkSExt(y, ww) : mkZExt(y, ww);
      E R = mkBin(k, X, Y); E r = mkBin(k, x, y);
      E ok = mkEq(R, sg ? mkSExt(r, ww) : mkZExt(r, ww));
      out[0] = fromE(r); out[1] = fromE(mkNot(ok)); return true; }
    case Intrinsic::uadd_sat: { for (unsigned i = 0; i < out.size(); i++) { E x = toE(a[i], w), y = toE(a[i + out.size()], w), r = mkBin(ADD, x, y); out[i] = fromE(mkIte(mkBin(ULT, r, x), mkConst(w, maskw(w)), r)); } return true; }
    case Intrinsic::usub_sat: { for (unsigned i = 0; i < out.size(); i++) { E x = toE(a[i], w), y = toE(a[i + out.size()], w); out[i] = fromE(mkIte(mkBin(ULT, x, y), mkConst(w, 0), mkBin(SUB, x, y))); } return true; }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven: {
      unsigned m = ci.intrin == Intrinsic::floor ? 3 : ci.intrin == Intrinsic::ceil ? 2 : ci.intrin == Intrinsic::trunc ? 4 : ci.intrin == Intrinsic::round ? 1 : 0;
      for (unsigned i = 0; i < out.size(); i++) out[i] = fromE(mkFRound(toE(a[i], w), m)); return true; }
    case Intrinsic::fabs: for (unsigned i = 0; i < out.size(); i++) out[i] = fromE(mkAnd(toE(a[i], w), mkConst(w, maskw(w - 1)))); return true;
    case Intrinsic::copysign: for (unsigned i = 0; i < out.size(); i++) out[i] = fromE(mkOr(mkAnd(toE(a[i], w), mkConst(w, maskw(w - 1))), mkAnd(toE(a[i + out.size()], w), mkConst(w, (u128)1 << (w - 1))))); return true;
    case Intrinsic::sqrt: for (unsigned i = 0; i < out.size(); i++) out[i] = fromE(mkFSqrt(toE(a[i], w))); return true;
    case Intrinsic::fma: out[0] = ffma(a[0], a[1], a[2], w); return true;
    case Intrinsic::fmuladd: out[0] = fromE(mkFBin(FADD, mkFBin(FMUL, toE(a[0], w), toE(a[1], w)), toE(a[2], w))); return true;
    case Intrinsic::minnum: for (unsigned i = 0; i < out.size(); i++) out[i] = fminmax(a[i], a[i + out.size()], w, false); return true;
    case Intrinsic::maxnum: for (unsigned i = 0; i < out.size(); i++) out[i] = fminmax(a[i], a[i + out.size()], w, true); return true;
    case Intrinsic::is_fpclass: {
      unsigned mask = (unsigned)a.back().c;
      for (unsigned i = 0; i < out.size(); i++) {
        E x = toE(a[i], w); E sg = mkExtract(x, w - 1, 1); E nan = mkFIsNaN(x), inf = isInfE(x); E mag = mkExtract(x, 0, w - 1);
        unsigned mb = w == 32 ? 23 : 52; E zero = mkEq(mag, mkConst(w - 1, 0)); E expz = mkEq(mkExtract(x, mb, w - 1 - mb), mkConst(w - 1 - mb, 0));
        E sub = mkAnd(expz, mkNot(zero)); E norm = mkNot(mkOr(mkOr(nan, inf), expz));
        E qbit = mkExtract(x, mb - 1, 1);
        E r = mkBool(false);
        if (mask & 1) r = mkOr(r, mkAnd(nan, mkNot(qbit))); if (mask & 2) r = mkOr(r, mkAnd(nan, qbit));
        if (mask & 4) r = mkOr(r, mkAnd(inf, sg)); if (mask & 8) r = mkOr(r, mkAnd(norm, sg)); if (mask & 16) r = mkOr(r, mkAnd(sub, sg)); if (mask & 32) r = mkOr(r, mkAnd(zero, sg));
        if (mask & 64) r = mkOr(r, mkAnd(zero, mkNot(sg))); if (mask & 128) r = mkOr(r, mkAnd(sub, mkNot(sg))); if (mask & 256) r = mkOr(r, mkAnd(norm, mkNot(sg))); if (mask & 512) r = mkOr(r, mkAnd(inf, mkNot(sg)));
        out[i] = fromE(r);
      }
      return true; }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: fail("saturating fp conversion");
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul:
    case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
      E r = toE(a[0], w);
      for (size_t i = 1; i < a.size(); i++) { E x = toE(a[i], w);
        switch (ci.intrin) {
          case Intrinsic::vector_reduce_add: r = mkBin(ADD, r, x); break; case Intrinsic::vector_reduce_mul: r = mkBin(MUL, r, x); break;
          case Intrinsic::vector_reduce_and: r = mkBin(AND, r, x); break; case Intrinsic::vector_reduce_or: r = mkBin(OR, r, x); break; case Intrinsic::vector_reduce_xor: r = mkBin(XOR, r, x); break;
          case Intrinsic::vector_reduce_umax: r = mkIte(mkBin(ULT, r, x), x, r); break; case Intrinsic::vector_reduce_umin: r = mkIte(mkBin(ULT, r, x), r, x); break;
          case Intrinsic::vector_reduce_smax: r = mkIte(mkBin(SLT, r, x), x, r); break; default: r = mkIte(mkBin(SLT, r, x), r, x); break; } }
      out[0] = fromE(r); return true; }
    case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: {
      const char* n = ci.intrin == Intrinsic::exp ? "exp" : ci.intrin == Intrinsic::log ? "log" : ci.intrin == Intrinsic::pow ? "pow" : ci.intrin == Intrinsic::sin ? "sin" : ci.intrin == Intrinsic::cos ? "cos" : ci.intrin == Intrinsic::exp2 ? "exp2" : ci.intrin == Intrinsic::log2 ? "log2" : "log10";
      std::string nm = n; if (w == 32) nm += "f";
      out[0] = builtins[builtinIdx[nm]](s, ci, a); return true; }
    case Intrinsic::load_relative: { uint64_t p = cA(s, a[0]), o = cA(s, a[1]); Val v = load(s, cval(p + o), 4, 32); out[0] = cval(p + (int64_t)(int32_t)v.c); return true; }
    case Intrinsic::ptrmask: out[0] = fromE(mkAnd(toE(a[0], 64), toE(a[1], 64))); return true;
    case Intrinsic::eh_typeid_for: out[0] = cval(1); return true;
    default: return false;
  }
}

// ================================================================ interpreter loop
static void takeEdge(Frame& f, uint32_t ei) {
  Edge& e = f.fn->edges[ei];
  if (e.nmv) {
    Move* m = &f.fn->moves[e.mv];
    auto get = [&](int o) -> const Val& { return o >= 0 ? f.r[o] : f.fn->pool[~o]; };
    if (e.nmv == 1) { Val t = get(m->src); f.r[m->dst] = t; }
    else { static std::vector<Val> tmp; tmp.resize(e.nmv); for (uint32_t i = 0; i < e.nmv; i++) tmp[i] = get(m[i].src); for (uint32_t i = 0; i < e.nmv; i++) f.r[m[i].dst] = tmp[i]; }
  }
  f.pc = e.target;
}

static void finishThreadOrPath(State& s) {
  // the current thread ran off its bottom frame
  if (s.cur == 0) throw PathEnd{0};
  s.th[s.cur].st = TDone;
  s.schedDone = false;
  std::vector<int> rs; for (int i = 0; i < (int)s.th.size(); i++) if (runnable(s, i)) rs.push_back(i);
  if (rs.empty()) violate(s, "deadlock", "no thread can make progress");
  // choosing the next thread is a scheduling decision too
  schedPoint(s);
}

static void run(State& s) {
  Thread* t = &s.th[s.cur]; Frame* f = &t->fr.back();
  DI* code = f->fn->code.data(); Val* r = f->r.data(); Val* pool = f->fn->pool.data();
  auto refresh = [&]() { t = &s.th[s.cur]; f = &t->fr.back(); code = f->fn->code.data(); r = f->r.data(); pool = f->fn->pool.data(); };
#define G(o) ((o) >= 0 ? r[o] : pool[~(o)])
  uint64_t cnt = 0;
  for (;;) {
    DI& d = code[f->pc];
    s.steps++; totalSteps++;
    if ((++cnt & 0xfffff) == 0) {
      if (elapsed() > opt.timeout) { markIncomplete(s, "time limit"); throw PathEnd{3}; }
      if (s.steps > opt.maxSteps) { violate(s, "nontermination", "one path exceeds the step limit of " + std::to_string(opt.maxSteps)); }
    }
    switch (d.op) {
      case O_BIN: {
        const Val &a = G(d.a), &b = G(d.b);
        if (!a.e && !b.e) {
          u128 x;
          if (d.w <= 64) {
            uint64_t p = (uint64_t)a.c, q = (uint64_t)b.c, m = d.w == 64 ? ~0ull : ((1ull << d.w) - 1), z;
            switch (d.k) {
              case ADD: z = (p + q) & m; break; case SUB: z = (p - q) & m; break; case MUL: z = (p * q) & m; break;
              case AND: z = p & q; break; case OR: z = p | q; break; case XOR: z = p ^ q; break;
              case SHL: z = q >= d.w ? 0 : (p << q) & m; break; case LSHR: z = q >= d.w ? 0 : p >> q; break;
              default: z = (uint64_t)evalBin((Kind)d.k, p, q, d.w);
            }
            x = z;
          } else x = evalBin((Kind)d.k, a.c, b.c, d.w);
          r[d.dst].e = nullptr; r[d.dst].c = x;
        } else r[d.dst] = fromE(mkBin((Kind)d.k, toE(a, d.w), toE(b, d.w)));
        f->pc++; break;
      }
      case O_DIV: {
        Val a = G(d.a), b = G(d.b);
        if (!b.e) { if (!b.c) violate(s, "ub", "division by zero"); }
        else mustHold(s, mkNot(mkEq(b.e, mkConst(d.w, 0))), "ub", "division by zero");
        if (d.k == SDIV || d.k == SREM) {
          E bad = mkAnd(mkEq(toE(a, d.w), mkConst(d.w, (u128)1 << (d.w - 1))), mkEq(toE(b, d.w), mkConst(d.w, maskw(d.w))));
          if (bad->k != CONST || bad->c) mustHold(s, mkNot(bad), "ub", "signed division overflow");
        }
        r[d.dst] = (!a.e && !b.e) ? cval(evalBin((Kind)d.k, a.c, b.c, d.w)) : fromE(mkBin((Kind)d.k, toE(a, d.w), toE(b, d.w)));
        f->pc++; break;
      }
      case O_FBIN: {
        const Val &a = G(d.a), &b = G(d.b);
        if (d.k == 255) { r[d.dst] = d.w == 64 ? libm2("fmod", 64, a, b, [](double x, double y) { return ::fmod(x, y); }, [](float x, float y) { return ::fmodf(x, y); }) : libm2("fmod", 32, a, b, [](double x, double y) { return ::fmod(x, y); }, [](float x, float y) { return ::fmodf(x, y); }); }
        else if (d.w == 80) {
          if (a.e || b.e) fail("symbolic long double");
          long double x = 0, y = 0; memcpy(&x, &a.c, 10); memcpy(&y, &b.c, 10); long double z = d.k == FADD ? x + y : d.k == FSUB ? x - y : d.k == FMUL ? x * y : x / y; u128 c = 0; memcpy(&c, &z, 10); r[d.dst] = cval(c);
        } else if (!a.e && !b.e) r[d.dst] = cval(evalFBin((Kind)d.k, a.c, b.c, d.w));
        else r[d.dst] = fromE(mkFBin((Kind)d.k, toE(a, d.w), toE(b, d.w)));
        f->pc++; break;
      }
      case O_FNEG: { const Val& a = G(d.a); u128 sg = (u128)1 << (d.w - 1); r[d.dst] = a.e ? fromE(mkBin(XOR, a.e, mkConst(d.w, sg))) : cval(a.c ^ sg); f->pc++; break; }
      case O_ICMP: {
        const Val &a = G(d.a), &b = G(d.b);
        if (!a.e && !b.e) {
          bool v; unsigned w = d.w;
          switch (d.k) {
            case CmpInst::ICMP_EQ: v = a.c == b.c; break; case CmpInst::ICMP_NE: v = a.c != b.c; break;
            case CmpInst::ICMP_ULT: v = a.c < b.c; break; case CmpInst::ICMP_ULE: v = a.c <= b.c; break; case CmpInst::ICMP_UGT: v = a.c > b.c; break; case CmpInst::ICMP_UGE: v = a.c >= b.c; break;
            case CmpInst::ICMP_SLT: v = sx128(a.c, w) < sx128(b.c, w); break; case CmpInst::ICMP_SLE: v = sx128(a.c, w) <= sx128(b.c, w); break;
            case CmpInst::ICMP_SGT: v = sx128(a.c, w) > sx128(b.c, w); break; default: v = sx128(a.c, w) >= sx128(b.c, w); break;
          }
          r[d.dst] = cval(v);
        } else {
          E x = toE(a, d.w), y = toE(b, d.w), e;
          switch (d.k) {
            case CmpInst::ICMP_EQ: e = mkEq(x, y); break; case CmpInst::ICMP_NE: e = mkNot(mkEq(x, y)); break;
            case CmpInst::ICMP_ULT: e = mkBin(ULT, x, y); break; case CmpInst::ICMP_ULE: e = mkBin(ULE, x, y); break; case CmpInst::ICMP_UGT: e = mkBin(ULT, y, x); break; case CmpInst::ICMP_UGE: e = mkBin(ULE, y, x); break;
            case CmpInst::ICMP_SLT: e = mkBin(SLT, x, y); break; case CmpInst::ICMP_SLE: e = mkBin(SLE, x, y); break; case CmpInst::ICMP_SGT: e = mkBin(SLT, y, x); break; default: e = mkBin(SLE, y, x); break;
          }
          r[d.dst] = fromE(e);
        }
        f->pc++; break;
      }
      case O_FCMP: {
        Val a = G(d.a), b = G(d.b); unsigned w = d.w;
        if (w == 80) {
          if (a.e || b.e) fail("symbolic long double");
          long double x = 0, y = 0; memcpy(&x, &a.c, 10); memcpy(&y, &b.c, 10); bool un = x != x || y != y, v;
          switch (d.k & 7) { case 0: v = false; break; case 1: v = x == y; break; case 2: v = x > y; break; case 3: v = x >= y; break; case 4: v = x < y; break; case 5: v = x <= y; break; case 6: v = !un && x != y; break; default: v = !un; }
          if (d.k & 8) v = v || un; if (d.k == CmpInst::FCMP_TRUE) v = true;
          r[d.dst] = cval(v); f->pc++; break;
        }
        E x = toE(a, w), y = toE(b, w), e = nullptr;
        E un = mkOr(mkFIsNaN(x), mkFIsNaN(y));
        switch (d.k) {
          case CmpInst::FCMP_FALSE: e = mkBool(false); break; case CmpInst::FCMP_TRUE: e = mkBool(true); break;
          case CmpInst::FCMP_OEQ: e = mkFEq(x, y); break; case CmpInst::FCMP_UEQ: e = mkOr(un, mkFEq(x, y)); break;
          case CmpInst::FCMP_ONE: e = mkAnd(mkNot(un), mkNot(mkFEq(x, y))); break; case CmpInst::FCMP_UNE: e = mkNot(mkFEq(x, y)); break;
          case CmpInst::FCMP_OLT: e = mkFLt(x, y); break; case CmpInst::FCMP_ULT: e = mkNot(mkFLe(y, x)); break;
          case CmpInst::FCMP_OLE: e = mkFLe(x, y); break; case CmpInst::FCMP_ULE: e = mkNot(mkFLt(y, x)); break;
          case CmpInst::FCMP_OGT: e = mkFLt(y, x); break; case CmpInst::FCMP_UGT: e = mkNot(mkFLe(x, y)); break;
          case CmpInst::FCMP_OGE: e = mkFLe(y, x); break; case CmpInst::FCMP_UGE: e = mkNot(mkFLt(x, y)); break;
          case CmpInst::FCMP_ORD: e = mkNot(un); break; default: e = un; break;
        }
        r[d.dst] = fromE(e); f->pc++; break;
      }
      case O_TRUNC: { const Val& a = G(d.a); r[d.dst] = a.e ? fromE(mkExtract(a.e, 0, d.w)) : cval(a.c & maskw(d.w)); f->pc++; break; }
      case O_ZEXT: { const Val& a = G(d.a); r[d.dst] = a.e ? fromE(mkZExt(a.e, d.w)) : cval(a.c); f->pc++; break; }
      case O_SEXT: { const Val& a = G(d.a); r[d.dst] = a.e ? fromE(mkSExt(a.e, d.w)) : cval((u128)sx128(a.c, d.w2) & maskw(d.w)); f->pc++; break; }
      case O_FCVT: {
        const Val& a = G(d.a);
        if (d.w == 80 || d.w2 == 80) {
          if (a.e) fail("symbolic long double");
          long double x = 0; if (d.w2 == 80) memcpy(&x, &a.c, 10); else if (d.w2 == 64) { double y; uint64_t q = (uint64_t)a.c; memcpy(&y, &q, 8); x = y; } else { float y; uint32_t q = (uint32_t)a.c; memcpy(&y, &q, 4); x = y; }
          u128 c = 0; if (d.w == 80) memcpy(&c, &x, 10); else if (d.w == 64) { double y = (double)x; memcpy(&c, &y, 8); } else { float y = (float)x; memcpy(&c, &y, 4); }
          r[d.dst] = cval(c);
        } else r[d.dst] = fromE(mkFCvt(toE(a, d.w2), d.w));
        f->pc++; break; }
      case O_F2I: { const Val& a = G(d.a);
        if (d.w2 == 80) { if (a.e) fail("symbolic long double"); long double x = 0; memcpy(&x, &a.c, 10); r[d.dst] = cval((d.k ? (u128)(s128)(int64_t)x : (u128)(uint64_t)x) & maskw(d.w)); f->pc++; break; }
        r[d.dst] = fromE(mkF2I(toE(a, d.w2), d.w, d.k)); f->pc++; break; }
      case O_I2F: { const Val& a = G(d.a);
        if (d.w == 80) { if (a.e) fail("symbolic long double"); long double x = d.k ? (long double)(int64_t)sx128(a.c, d.w2) : (long double)(uint64_t)a.c; u128 c = 0; memcpy(&c, &x, 10); r[d.dst] = cval(c); f->pc++; break; }
        r[d.dst] = fromE(mkI2F(toE(a, d.w2), d.w, d.k)); f->pc++; break; }
      case O_SELECT: {
        const Val& c = G(d.a);
        if (!c.e) { Val v = c.c ? G(d.b) : G(d.c); r[d.dst] = v; }
        else { const Val &x = G(d.b), &y = G(d.c); r[d.dst] = fromE(mkIte(c.e, toE(x, d.w), toE(y, d.w))); }
        f->pc++; break;
      }
      case O_GEP: {
        const Val& a = G(d.a); uint64_t off = (uint64_t)pool[~d.b].c; E eo = nullptr;
        for (uint32_t i = 0; i < d.n; i++) {
          GepIdx& g = f->fn->geps[d.x + i]; const Val& v = G(g.op);
          if (!v.e) off += (uint64_t)((int64_t)sx128(v.c, g.w) * g.scale);
          else {
            E x = g.w < 64 ? mkSExt(v.e, 64) : g.w > 64 ? mkExtract(v.e, 0, 64) : v.e;
            x = mkBin(MUL, x, mkConst(64, (u128)(uint64_t)g.scale)); eo = eo ? mkBin(ADD, eo, x) : x;
          }
        }
        if (!a.e && !eo) r[d.dst] = cval((uint64_t)a.c + off);
        else { E b = mkBin(ADD, toE(a, 64), mkConst(64, off)); if (eo) b = mkBin(ADD, b, eo); r[d.dst] = fromE(b); }
        f->pc++; break;
      }
      case O_LOAD: {
        Val a = G(d.a); uint64_t o = (uint64_t)pool[~d.b].c;
        if (o) a = a.e ? fromE(mkBin(ADD, a.e, mkConst(64, o))) : cval((uint64_t)a.c + o);
        if (d.fl) {
          if (schedPoint(s)) { refresh(); break; }
          Val v = load(s, a, d.n, d.w, true); syncAtomic(s, (uint64_t)evalUnder(s, a), d.k, true, false, false); r[d.dst] = v;
        } else r[d.dst] = load(s, a, d.n, d.w);
        f->pc++; break;
      }
      case O_STORE: {
        Val a = G(d.a); uint64_t o = (uint64_t)pool[~d.b].c;
        if (o) a = a.e ? fromE(mkBin(ADD, a.e, mkConst(64, o))) : cval((uint64_t)a.c + o);
        if (d.fl) { if (schedPoint(s)) { refresh(); break; } store(s, a, d.n, d.w, G(d.c), true); syncAtomic(s, (uint64_t)evalUnder(s, a), d.k, false, true, false); }
        else store(s, a, d.n, d.w, G(d.c));
        f->pc++; break;
      }
      case O_ALLOCA: { uint64_t n = (uint64_t)concretize(s, G(d.a), d.w) * (uint64_t)pool[~d.b].c; r[d.dst] = cval(allocStack(s, n)); f->pc++; break; }
      case O_RMW: {
        if (schedPoint(s)) { refresh(); break; }
        Val a = G(d.a), b = G(d.b); Val old = load(s, a, d.n, d.w, true); Val nv;
        E x = toE(old, d.w), y = toE(b, d.w);
        switch (d.k) {
          case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = fromE(mkBin(ADD, x, y)); break; case AtomicRMWInst::Sub: nv = fromE(mkBin(SUB, x, y)); break;
          case AtomicRMWInst::And: nv = fromE(mkBin(AND, x, y)); break; case AtomicRMWInst::Or: nv = fromE(mkBin(OR, x, y)); break; case AtomicRMWInst::Xor: nv = fromE(mkBin(XOR, x, y)); break;
          case AtomicRMWInst::UMax: nv = fromE(mkIte(mkBin(ULT, x, y), y, x)); break; case AtomicRMWInst::UMin: nv = fromE(mkIte(mkBin(ULT, x, y), x, y)); break;
          default: fail("atomicrmw operation");
        }
        store(s, a, d.n, d.w, nv, true); syncAtomic(s, (uint64_t)evalUnder(s, a), d.fl, true, true, true);
        r[d.dst] = old; f->pc++; break;
      }
      case O_CAS: {
        if (schedPoint(s)) { refresh(); break; }
        Val a = G(d.a); Val old = load(s, a, d.n, d.w, true); E eq = mkEq(toE(old, d.w), toE(G(d.b), d.w));
        bool ok = decide(s, eq);
        uint64_t ad = (uint64_t)evalUnder(s, a);
        if (ok) { store(s, a, d.n, d.w, G(d.c), true); syncAtomic(s, ad, d.fl, true, true, true); } else syncAtomic(s, ad, d.k, true, false, false);
        r[d.dst] = old; r[d.dst + 1] = cval(ok); f->pc++; break;
      }
      case O_FENCE: f->pc++; break;
      case O_MOV: r[d.dst] = G(d.a); f->pc++; break;
      case O_PACK: {
        E e = nullptr; bool conc = true; auto* p = &f->fn->packs[d.x];
        for (uint32_t i = 0; i < d.n; i++) if (G(p[i].first).e) conc = false;
        if (conc) { u128 v = 0; unsigned sh = 0; for (uint32_t i = 0; i < d.n; i++) { v |= G(p[i].first).c << sh; sh += p[i].second; } r[d.dst] = cval(v); }
        else { for (uint32_t i = 0; i < d.n; i++) { E x = toE(G(p[i].first), p[i].second); e = e ? mkConcat(x, e) : x; } r[d.dst] = fromE(e); }
        f->pc++; break;
      }
      case O_UNPACK: { const Val& a = G(d.a); r[d.dst] = a.e ? fromE(mkExtract(a.e, d.n, d.w)) : cval((a.c >> d.n) & maskw(d.w)); f->pc++; break; }
      case O_BR: takeEdge(*f, d.x); break;
      case O_CBR: {
        const Val& c = G(d.a); bool v = c.e ? decide(s, c.e) : (bool)c.c;
        takeEdge(*f, v ? d.x : d.n); break;
      }
      case O_SWITCH: {
        Val c = G(d.a); uint32_t e = (uint32_t)d.dst;
        if (!c.e) { for (uint32_t i = 0; i < d.n; i++) if (f->fn->cases[d.x + i].first == c.c) { e = f->fn->cases[d.x + i].second; break; } }
        else {
          // group cases by destination to fork once per distinct target
          std::map<uint32_t, E> byT; std::vector<uint32_t> order; E any = mkBool(false);
          for (uint32_t i = 0; i < d.n; i++) {
            E q = mkEq(c.e, mkConst(d.w, f->fn->cases[d.x + i].first)); uint32_t ed = f->fn->cases[d.x + i].second;
            Edge& E1 = f->fn->edges[ed]; uint32_t key = ed;
            if (E1.nmv == 0) for (uint32_t o : order) if (f->fn->edges[o].target == E1.target && f->fn->edges[o].nmv == 0) { key = o; break; }
            auto it = byT.find(key); if (it == byT.end()) { byT[key] = q; order.push_back(key); } else it->second = mkOr(it->second, q);
          }
          (void)any; bool done = false;
          for (uint32_t o : order) if (decide(s, byT[o])) { e = o; done = true; break; }
          (void)done;
        }
        takeEdge(*f, e); break;
      }
      case O_UNREACH: violate(s, "ub", "unreachable executed");
      case O_UNSUP: { std::string q; raw_string_ostream os(q); d.I->print(os); fail("unsupported instruction: " + os.str()); }
      case O_RET: {
        std::vector<Val> rv; for (uint32_t i = 0; i < d.n; i++) rv.push_back(G(f->fn->packs[d.x + i].first));
        int rd = f->retDst; int rn = f->retN; uint32_t mark = f->stackMark;
        popStack(s, mark);
        t->fr.pop_back();
        if (t->fr.empty()) { if (!rv.empty()) t->ret = rv[0]; if (s.cur == 0) throw PathEnd{0}; finishThreadOrPath(s); refresh(); break; }
        refresh();
        for (int i = 0; i < (int)rv.size() && i < rn; i++) r[rd + i] = rv[i];
        f->pc++;
        break;
      }
      case O_CALL: {
        CallInfo& ci = f->fn->calls[d.x];
        const Function* F = ci.fn;
        if (!F) {
          uint64_t fa = (uint64_t)concretize(s, G(ci.calleeOp), 64);
          uint64_t ix = (fa - FUNC_BASE) / 16;
          if (fa < FUNC_BASE || ix >= funcTab.size() || fa % 16) violate(s, "memory", "call through an invalid function pointer " + hex(fa));
          F = funcTab[ix];
        }
        std::vector<Val> args; args.reserve(ci.args.size()); for (int o : ci.args) args.push_back(G(o));
        int bi = ci.fn ? ci.builtin : -1;
        if (bi == -1) {
          auto it = builtinIdx.find(F->getName().str());
          bi = it != builtinIdx.end() ? it->second : F->isDeclaration() ? -3 : -2;
          if (ci.fn) ci.builtin = bi;
        }
        if (ci.intrin && ci.fn) {
          std::vector<Val> out(ci.ndst);
          if (!intrinsic(s, ci, args, out)) fail("intrinsic not supported: " + F->getName().str());
          for (int i = 0; i < ci.ndst; i++) r[d.dst + i] = out[i];
          f->pc++; break;
        }
        if (bi >= 0) {
          CallInfo* pc = &ci; CallInfo tmp; if (!ci.fn) { tmp = ci; tmp.fn = F; pc = &tmp; }
          g_noAdvance = false;
          int dst = d.dst, nd = ci.ndst;
          Val v = builtins[bi](s, *pc, args);
          if (g_noAdvance) { refresh(); break; }
          refresh();
          if (dst >= 0 && nd == 1) r[dst] = v;
          f->pc++; break;
        }
        if (bi == -3) fail("call to undefined function " + F->getName().str() + " (" + demangle(F->getName().str()) + ") from " + where(s));
        if (F->isVarArg()) { /* extra arguments are dropped; va_start is unsupported */ }
        int dst = d.dst, nd = ci.ndst;
        std::vector<std::pair<unsigned, uint64_t>> bv = ci.byval;
        pushCall(s, F, args, dst, nd);
        for (auto& b : bv) {
          uint64_t p = allocStack(s, b.second); memCopy(s, p, (uint64_t)concretize(s, args[b.first], 64), b.second); s.th[s.cur].fr.back().r[b.first] = cval(p);
        }
        refresh();
        break;
      }
      default: fail("bad opcode");
    }
  }
}

// ================================================================ set-up and exploration
static void initGlobal(State& s, const Constant* C, uint64_t addr) {
  Type* T = C->getType();
  if (C->isNullValue() || isa<UndefValue>(C)) return;
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = D->getRawDataValues(); Obj* o = findObjW(s, addr); memcpy(o->d + (addr - o->base), raw.data(), raw.size()); return;
  }
  if (auto* A = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initGlobal(s, A->getOperand(i), addr + i * es); return; }
  if (auto* S = dyn_cast<ConstantStruct>(C)) { const StructLayout* L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initGlobal(s, S->getOperand(i), addr + L->getElementOffset(i)); return; }
  if (auto* V = dyn_cast<ConstantVector>(C)) { uint64_t es = DL->getTypeAllocSize(V->getType()->getElementType()); for (unsigned i = 0; i < V->getNumOperands(); i++) initGlobal(s, V->getOperand(i), addr + i * es); return; }
  if (T->isIntegerTy() && T->getIntegerBitWidth() > 128) {
    const APInt& a = cast<ConstantInt>(C)->getValue(); Obj* o = findObjW(s, addr); memcpy(o->d + (addr - o->base), a.getRawData(), DL->getTypeStoreSize(T)); return;
  }
  u128 v = constScalar(C); Obj* o = findObjW(s, addr); memcpy(o->d + (addr - o->base), &v, DL->getTypeStoreSize(T));
}

static State* initState() {
  State* s = new State;
  s->th.emplace_back();
  for (auto& F : *M) { funcAddr[&F] = FUNC_BASE + funcTab.size() * 16; funcTab.push_back(&F); }
  for (auto& G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
    uint64_t a = allocHeap(*s, sz, OGlobal, true, 0);
    globAddr[&G] = a;
    std::string n = G.getName().str();
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") tiKind[a + 16] = "si";
    if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") tiKind[a + 16] = "vmi";
    if (n == "_ZTVN10__cxxabiv117__class_type_infoE") tiKind[a + 16] = "cls";
  }
  // type_info objects of fundamental types live in the C++ library: only their name is used
  for (auto& G : M->globals()) if (G.isDeclaration() && G.getName().starts_with("_ZTI")) {
    std::string n = G.getName().str().substr(4);
    uint64_t a = allocHeap(*s, n.size() + 1, OGlobal, true, 0);
    memcpy(findObjW(*s, a)->d, n.c_str(), n.size() + 1);
    memcpy(findObjW(*s, globAddr[&G])->d + 8, &a, 8);
  }
  for (auto& G : M->globals()) if (G.hasInitializer()) initGlobal(*s, G.getInitializer(), globAddr[&G]);
  for (auto& G : M->globals()) if (G.isConstant() && G.hasInitializer()) findObjW(*s, globAddr[&G])->ro = true;
  return s;
}

static std::string jesc(const std::string& s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
static std::string u128s(u128 v) { char b[64]; if (v >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 64, "0x%llx", (unsigned long long)v); return b; }

static uint64_t rngState;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

static void recordTrace(State& s) {
  PathTrace t; t.replayable = s.th.size() == 1;
  newEpoch();
  for (auto& i : s.inputs) { if (i.internal) { if (i.name == "uninit") t.replayable = false; } else t.inputs.push_back({i.name, i.e ? evalExpr(i.e, s.model) : i.c}); }
  for (auto& o : s.obs) { if (o.v.e && o.v.e->hasUF) t.replayable = false; t.obs.push_back({o.w, o.v.e ? evalExpr(o.v.e, s.model) : o.v.c}); }
  for (E e : s.pc) if (e->hasUF) t.replayable = false;
  for (auto& r : s.reached) t.reached.push_back(r);
  if ((int)traces.size() < opt.maxTraces) traces.push_back(t);
  else { uint64_t k = rng() % nDone; if (k < (uint64_t)opt.maxTraces) traces[k] = t; }
}

static int engineMain() {
  T0 = std::chrono::steady_clock::now();
  rngState = opt.seed * 0x9e3779b97f4a7c15ull + 1;
  LLVMContext Ctx; SMDiagnostic Err;
  M = getLazyIRFileModule(opt.bc, Err, Ctx, true);  // function bodies are read when they are first decoded
  if (M) if (auto e = M->materializeMetadata()) { fprintf(stderr, "cannot read %s: %s\n", opt.bc.c_str(), toString(std::move(e)).c_str()); return 4; }
  if (!M) { fprintf(stderr, "cannot read %s: %s\n", opt.bc.c_str(), Err.getMessage().str().c_str()); return 4; }
  DL = &M->getDataLayout();
  setupBuiltins();
  std::string error;
  double initTime = 0; uint64_t initSteps = 0;
  State* s0 = nullptr;
  try {
    s0 = initState();
    // static constructors
    if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
      std::vector<std::pair<uint64_t, const Function*>> cs;
      for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& c : cs) {
        pushCall(*s0, c.second, {}, -1, 0);
        try { run(*s0); } catch (PathEnd& p) { if (p.why != 0) { error = "static initialisation failed"; } }
        if (!error.empty()) break;
      }
    }
    initTime = elapsed(); initSteps = totalSteps;
    if (error.empty()) {
      const Function* F = M->getFunction(opt.entry);
      if (!F || F->isDeclaration()) error = "no entry " + opt.entry;
      else { s0->steps = 0; s0->trackLive = true; pushCall(*s0, F, {}, -1, 0); worklist.push_back(s0); }
    }
  } catch (EngineError& e) { error = e.msg; }
  uint64_t pathsLeft = 0;
  while (error.empty() && !worklist.empty()) {
    State* s = worklist.back(); worklist.pop_back(); nPaths++;
    if (elapsed() > opt.timeout) { markIncomplete(*s, "time limit"); pathsLeft = worklist.size() + 1; break; }
    try { run(*s); }
    catch (PathEnd& p) {
      if (p.why == 0) {
        nDone++; for (auto& x : s->reached) reachedAll[x]++;
        if (opt.leak && !s->live.empty()) { try { violate(*s, "leak", std::to_string(s->live.size()) + " heap blocks allocated by the entry are not freed"); } catch (PathEnd&) {} }
        recordTrace(*s);
      }
      else if (p.why == 1) nInfeasible++;
    } catch (EngineError& e) { error = e.msg; if (s->th.size() && !s->th[s->cur].fr.empty()) error += " at " + where(*s); }
    delete s;
    if ((int)violations.size() >= opt.maxViol) break;
  }
  // ---- report
  std::string o = "{\n";
  auto num = [&](const char* k, double v) { char b[96]; if (v == (double)(uint64_t)v) snprintf(b, 96, "\"%s\": %llu,\n", k, (unsigned long long)v); else snprintf(b, 96, "\"%s\": %.4f,\n", k, v); o += b; };
  o += "\"entry\": \"" + jesc(opt.entry) + "\",\n\"error\": \"" + jesc(error) + "\",\n";
  num("paths", nPaths); num("completed", nDone); num("infeasible", nInfeasible); num("incomplete", nIncomplete); num("left", pathsLeft); num("forks", nForks); num("steps", totalSteps - initSteps); num("init_steps", initSteps); num("init_s", initTime);
  num("asserts", nAsserts); num("asserts_symbolic", nAssertsSym); num("assert_queries", nAssertQ); num("symbolic_memory_checks", nMemCheckSym); num("queries", g_ss.queries); num("by_model", g_ss.byModel); num("by_cache", g_ss.byCache); num("z3_calls", g_ss.z3calls); num("z3_sat", g_ss.sat); num("z3_unsat", g_ss.unsat); num("z3_unknown", g_ss.unknown); num("z3_s", g_ss.z3time); num("z3_max_s", g_ss.maxq);
  num("max_pc", maxPC); num("exprs", exprCount()); num("sched_points", nSched); num("wall_s", elapsed()); num("shards", opt.shardSeen ? opt.nshards : 1);
  o += "\"incomplete_why\": ["; for (size_t i = 0; i < incompleteWhy.size(); i++) o += (i ? ", \"" : "\"") + jesc(incompleteWhy[i]) + "\""; o += "],\n";
  o += "\"reached\": {"; { bool first = true; for (auto& r : reachedAll) { o += (first ? "\"" : ", \"") + jesc(r.first) + "\": " + std::to_string(r.second); first = false; } } o += "},\n";
  o += "\"functions\": ["; { bool first = true; std::vector<std::pair<std::string, std::string>> fs; auto addSP = [&](const DISubprogram* SP) { if (!SP) return; std::string b = SP->getFilename().str(); if (b.empty() || b[0] != '/') b = SP->getDirectory().str() + "/" + b; if (b.find("/arolla/") == std::string::npos) return; std::string nm = SP->getLinkageName().str(); fs.push_back({b, nm.empty() ? SP->getName().str() : demangle(nm)}); };
    for (auto& p : fnCache) if (p.second->execs) { addSP(p.first->getSubprogram()); for (auto& B : *p.first) for (auto& I : B) for (const DILocation* d = I.getDebugLoc().get(); d; d = d->getInlinedAt()) if (d->getScope()) addSP(d->getScope()->getSubprogram()); }
    std::sort(fs.begin(), fs.end()); fs.erase(std::unique(fs.begin(), fs.end()), fs.end()); for (auto& q : fs) { o += (first ? "" : ", ") + std::string("[\"") + jesc(q.first) + "\", \"" + jesc(q.second.substr(0, 160)) + "\"]"; first = false; } } o += "],\n";
  o += "\"violations\": [";
  for (size_t i = 0; i < violations.size(); i++) {
    auto& v = violations[i];
    o += (i ? ", {" : "{") + std::string("\"kind\": \"") + v.kind + "\", \"msg\": \"" + jesc(v.msg) + "\", \"where\": \"" + jesc(v.trace) + "\", \"uninit\": " + (v.uninit ? "true" : "false") + ", \"inputs\": [";
    for (size_t j = 0; j < v.inputs.size(); j++) o += (j ? ", [\"" : "[\"") + jesc(v.inputs[j].first) + "\", \"" + u128s(v.inputs[j].second) + "\"]";
    o += "]" + (v.pcs.empty() ? "" : ", \"pc\": \"" + jesc(v.pcs) + "\"") + "}";
  }
  o += "],\n\"traces\": [";
  for (size_t i = 0; i < traces.size(); i++) {
    auto& t = traces[i];
    o += (i ? ",\n {" : "{") + std::string("\"replayable\": ") + (t.replayable ? "true" : "false") + ", \"inputs\": [";
    for (size_t j = 0; j < t.inputs.size(); j++) o += (j ? ", [\"" : "[\"") + jesc(t.inputs[j].first) + "\", \"" + u128s(t.inputs[j].second) + "\"]";
    o += "], \"obs\": ["; for (size_t j = 0; j < t.obs.size(); j++) o += (j ? ", \"" : "\"") + u128s(t.obs[j].second) + "\""; o += "]}";
  }
  o += "]\n}\n";
  if (opt.out.empty()) fputs(o.c_str(), stdout);
  else { FILE* f = fopen(opt.out.c_str(), "w"); if (!f) return 4; fputs(o.c_str(), f); fclose(f); }
  fflush(stdout);
  int rc = !violations.empty() ? 1 : !error.empty() ? 4 : nIncomplete || pathsLeft ? 3 : 0;
  if (!error.empty()) fprintf(stderr, "ENGINE-ERROR: %s\n", error.c_str());
  _exit(rc);
}
static void* thr(void*) { engineMain(); return nullptr; }
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--entry") opt.entry = next(); else if (a == "--out") opt.out = next(); else if (a == "--timeout") opt.timeout = atof(next().c_str());
    else if (a == "--qtimeout") g_qtimeout_ms = atoi(next().c_str()); else if (a == "--max-violations") opt.maxViol = atoi(next().c_str());
    else if (a == "--shard") opt.shard = atoi(next().c_str()); else if (a == "--traces") opt.maxTraces = atoi(next().c_str()); else if (a == "--preempt") opt.preempt = atoi(next().c_str());
    else if (a == "--seed") opt.seed = strtoull(next().c_str(), 0, 10); else if (a == "--uninit-concrete") opt.uninitSym = false; else if (a == "--leak") opt.leak = true; else if (a == "-v") opt.verbose = true;
    else if (a == "--max-steps") opt.maxSteps = strtoull(next().c_str(), 0, 10); else if (a == "--dump") g_dumpdir = next();
    else if (a == "--inputs") { haveConc = true; std::string l = next(); size_t p = 0; while (p < l.size()) { size_t q = l.find(',', p); if (q == std::string::npos) q = l.size(); std::string x = l.substr(p, q - p); u128 v = 0; for (char c : x.substr(x.rfind("0x", 0) == 0 ? 2 : 0)) { v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } concInputs.push_back(v); p = q + 1; } }
    else opt.bc = a;
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30);
  pthread_t th; if (pthread_create(&th, &at, thr, nullptr)) { fprintf(stderr, "thread\n"); return 4; }
  pthread_join(th, nullptr);
  return 4;
}
