// Reference counting: every object is destroyed exactly once, by whoever drops the last
// reference, in every sequence of pointer operations and every schedule.
// SX-THREADS: yes
#include <atomic>
#include <memory>
#include <thread>

#include "sx.h"
#include "arolla/util/refcount.h"
#include "arolla/util/refcount_ptr.h"
#include "arolla/util/thread_safe_shared_ptr.h"

using arolla::Refcount;
using arolla::RefcountPtr;

namespace {
struct Node : arolla::RefcountedBase {
  int* dead;
  int payload = 0;
  RefcountPtr<Node> child;
  explicit Node(int* d) : dead(d) {}
  virtual ~Node() { ++*dead; payload = -1; }
};
struct Derived : Node {
  explicit Derived(int* d) : Node(d) {}
};

// reference model: per slot, which object it refers to
struct Model {
  static constexpr int kSlots = 2, kObjs = 6;
  RefcountPtr<Node> slot[kSlots];
  int dead[kObjs] = {};
  int ref[kSlots] = {-1, -1};
  int child[kObjs];
  int made = 0;
  Model() { for (int& c : child) c = -1; }
  bool alive(int o) const {
    for (int r : ref)
      for (int x = r; x >= 0; x = child[x])
        if (x == o) return true;
    return false;
  }
  void check() const {
    for (int o = 0; o < made; ++o) sx_assert(dead[o] == (alive(o) ? 0 : 1));
    for (int s = 0; s < kSlots; ++s) {
      sx_assert((slot[s] == nullptr) == (ref[s] < 0));
      if (ref[s] >= 0) sx_assert(slot[s]->payload == ref[s] && (*slot[s]).dead == &dead[ref[s]]);
    }
    sx_assert((slot[0] == slot[1]) == (ref[0] == ref[1]));
  }
};

// K sequential operations chosen symbolically
void Sequence(int steps, int first_op) {
  Model m;
  for (int st = 0; st < steps; ++st) {
    int op = st == 0 ? first_op : (int)sx_pick("op", 0, 8);
    int i = sx_pick("i", 0, 1), j = op >= 2 && op != 8 ? (int)sx_pick("j", 0, 1) : 0;
    switch (op) {
      case 0:  // a new object
        if (m.made & 1) m.slot[i] = RefcountPtr<Node>::Make<Derived>(&m.dead[m.made]);
        else m.slot[i] = RefcountPtr<Node>::Own(std::make_unique<Node>(&m.dead[m.made]));
        m.slot[i]->payload = m.made;
        m.ref[i] = m.made++;
        break;
      case 1: m.slot[i].reset(); m.ref[i] = -1; break;
      case 2: m.slot[i] = m.slot[j]; m.ref[i] = m.ref[j]; break;
      case 3: {  // move assignment: the target holds the source's reference afterwards
        int old = m.ref[i];
        m.slot[i] = std::move(m.slot[j]);
        m.slot[j].reset();
        int r = m.ref[j];
        (void)old;
        if (i == j) { m.ref[i] = -1; } else { m.ref[i] = r; m.ref[j] = -1; }
        break;
      }
      case 4: { RefcountPtr<Node> c(m.slot[j]); m.slot[i] = nullptr; m.ref[i] = i == j ? m.ref[i] : -1; if (i == j) m.slot[i] = std::move(c); break; }
      case 5: { RefcountPtr<Node> c(std::move(m.slot[j])); int r = m.ref[j]; m.ref[j] = -1; sx_assert(m.slot[j] == nullptr); m.slot[i] = c; m.ref[i] = r; break; }
      case 6: swap(m.slot[i], m.slot[j]); std::swap(m.ref[i], m.ref[j]); break;
      case 7: m.slot[i] = RefcountPtr<Node>::NewRef(m.slot[j].get()); m.ref[i] = m.ref[j]; break;
      case 8: {  // push a new head that owns the old chain; then assign from inside it
        if (m.ref[i] >= 0 && m.child[m.ref[i]] >= 0) {
          int r = m.child[m.ref[i]];
          m.slot[i] = m.slot[i]->child;  // the right-hand side lives in the object being released
          m.ref[i] = r;
          sx_reach("assigned from inside the released object");
        } else {
          auto n = RefcountPtr<Node>::Make(&m.dead[m.made]);
          n->payload = m.made;
          n->child = m.slot[i];
          m.child[m.made] = m.ref[i];
          m.slot[i] = std::move(n);
          m.ref[i] = m.made++;
        }
        break;
      }
    }
    m.check();
  }
  int made = m.made;
  sx_assert(made <= Model::kObjs);
  m.slot[0].reset(); m.slot[1].reset();
  for (int o = 0; o < made; ++o) sx_assert(m.dead[o] == 1);
  sx_reach("sequence done");
}
}  // namespace

#ifdef SX_THOROUGH
#define STEPS 4
#else
#define STEPS 3
#endif
SX_ENTRY(sequence) { Sequence(STEPS, sx_shard(9)); }  // sx: shards=9 leak bound=sequences_of_3_operations_on_2_pointers_(4_thorough)

// n increments then decrements of either kind: only the last reports "no references left"
SX_ENTRY(counting) {  // sx: bound=up_to_4_references
  Refcount rc;
  int refs = 1;
  for (int st = 0; st < 7 && refs > 0; ++st) {
    int op = sx_pick("op", 0, 2);
    if (op == 0) { if (refs >= 4) return; rc.increment(); ++refs; }
    else { bool more = op == 1 ? rc.decrement() : rc.skewed_decrement(); --refs; sx_assert(more == (refs > 0)); }
  }
  if (refs == 0) sx_reach("last reference dropped");
}

namespace {
struct Shared {
  Refcount rc;
  int payload = 1;
  int freed = 0;
};
void drop(Shared* s, bool skewed) {
  bool more = skewed ? s->rc.skewed_decrement() : s->rc.decrement();
  if (!more) {
    // the last owner may touch everything without further synchronisation
    s->payload = -1;
    s->freed++;
  }
}
template <int kThreads>
void Threads() {
  auto* s = new Shared;
  std::thread t[kThreads];
  int mode = sx_pick("mode", 0, 3);
  for (int i = 0; i < kThreads; ++i) {
    s->rc.increment();
    t[i] = std::thread([s, i, mode] {
      sx_assert(s->payload == 1);
      if (mode & 1) { s->rc.increment(); drop(s, i & 1); sx_assert(s->payload == 1); }
      drop(s, (mode >> 1) ^ (i & 1));
    });
  }
  int v = s->payload;
  sx_assert(v == 1);
  drop(s, mode & 1);
  for (auto& x : t) x.join();
  sx_assert(s->freed == 1);
  sx_assert(s->payload == -1);
  sx_reach("freed once");
  delete s;
}
struct Obj : arolla::RefcountedBase {
  std::atomic<int>* dead;
  int payload = 7;
  ~Obj() { payload = 0; dead->fetch_add(1, std::memory_order_relaxed); }
};
}  // namespace
SX_ENTRY(threads2) { Threads<1>(); }  // sx: preempt=4 leak bound=2_threads,_4_preemptions
SX_ENTRY(threads3) { Threads<2>(); }  // sx: preempt=2 leak bound=3_threads,_2_preemptions
SX_ENTRY(ptr_threads) {  // sx: preempt=3 leak bound=2_threads,_3_preemptions
  std::atomic<int> dead{0};
  {
    auto p = RefcountPtr<Obj>::Make();
    p->dead = &dead;
    std::thread t([q = p]() mutable {
      RefcountPtr<Obj> c = q;
      sx_assert(c->payload == 7);
      q.reset();
      sx_assert(c->payload == 7);
    });
    { auto r = p; p.reset(); sx_assert(r->payload == 7); }
    t.join();
  }
  sx_assert(dead.load() == 1);
  sx_reach("object destroyed");
}

SX_ENTRY(shared_ptr_threads) {  // sx: preempt=3 leak bound=2_threads,_3_preemptions
  struct Val { int a, b; };
  arolla::ThreadSafeSharedPtr<Val> p(std::make_shared<Val>(Val{1, 1}));
  std::thread t([&] { p.store(std::make_shared<Val>(Val{2, 2})); });
  auto v = p.load();
  sx_assert(v != nullptr && v->a == v->b);
  auto w = p.load();
  sx_assert(w->a >= v->a);
  t.join();
  auto z = p.load();
  sx_assert(z->a == 2 && z->b == 2);
  sx_assert(p != nullptr);
  p.store(nullptr);
  sx_assert(p == nullptr);
  if (v->a != w->a) sx_reach("store between loads");
}
