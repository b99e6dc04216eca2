// Cancellation contexts and permanent events.
// SX-THREADS: yes
// SX-SRCS: arolla/util/cancellation.cc
#include <memory>
#include <thread>
#include <utility>

#include "sx.h"
#include "absl/status/status.h"
#include "arolla/util/cancellation.h"
#include "arolla/util/permanent_event.h"

using arolla::CancellationContext;
using arolla::CancellationContextPtr;

namespace {
// A callback's state, with its destruction observable.
struct Cb {
  int* calls; int* dead;
  Cb(int* c, int* d) : calls(c), dead(d) {}
  Cb(Cb&& o) : calls(o.calls), dead(o.dead) { o.calls = o.dead = nullptr; }
  ~Cb() { if (dead) ++*dead; }
  void operator()() && { ++*calls; }
};
}  // namespace

// Any sequence of subscribing, dropping or detaching subscriptions and cancelling.
SX_ENTRY(sequence) {  // sx: shards=5 leak weight=2 bound=7_operations,_3_subscriptions
  constexpr int N = 3;
  int calls[N] = {}, dead[N] = {};
  enum { kNone, kSubscribed, kDropped, kDetached } st[N] = {};
  bool cancelled = false;
  int want[N] = {};
  {
    auto ctx = CancellationContext::Make();
    CancellationContext::Subscription sub[N];
    int made = 0;
    for (int step = 0; step < 7; ++step) {
      int op = step == 0 ? (int)sx_shard(5) : (int)sx_pick("op", 0, 4);
      if (op == 0) {
        if (made == N) return;
        sub[made] = ctx->Subscribe(Cb(&calls[made], &dead[made]));
        st[made] = kSubscribed;
        if (cancelled) want[made] = 1;
        ++made;
      } else if (op == 1) {
        if (!made) return;
        int i = sx_pick("i", 0, made - 1);
        { CancellationContext::Subscription tmp; tmp = std::move(sub[i]); }
        if (st[i] == kSubscribed) st[i] = kDropped;
      } else if (op == 2) {
        if (!made) return;
        int i = sx_pick("i", 0, made - 1);
        std::move(sub[i]).Detach();
        if (st[i] == kSubscribed) st[i] = kDetached;
      } else if (op == 3) {
        ctx->Cancel(absl::InternalError("first"));
        if (!cancelled) for (int i = 0; i < made; ++i) if (st[i] == kSubscribed || st[i] == kDetached) want[i] = 1;
        cancelled = true;
      } else {
        if (!cancelled) return;
        ctx->Cancel(absl::AbortedError("later"));
      }
      sx_assert(ctx->Cancelled() == cancelled);
      sx_assert(ctx->GetStatus().ok() == !cancelled);
      if (cancelled) sx_assert(ctx->GetStatus().code() == absl::StatusCode::kInternal && ctx->GetStatus().message() == "first");
      for (int i = 0; i < made; ++i) {
        sx_assert(calls[i] == want[i]);
        // the callback's resources are released as soon as it ran or was dropped
        sx_assert(dead[i] == ((want[i] || st[i] == kDropped) ? 1 : 0));
      }
    }
    for (int i = made; i < N; ++i) dead[i] = 1;
  }
  for (int i = 0; i < N; ++i) sx_assert(dead[i] == 1);
  sx_reach("sequence done");
}

SX_ENTRY(scopes) {  // sx: leak bound=3_nested_scopes,_each_with_or_without_a_context
  using Scope = CancellationContext::ScopeGuard;
  auto a = CancellationContext::Make(), b = CancellationContext::Make();
  CancellationContextPtr pick[3] = {nullptr, a, b};
  bool ac = sx<bool>("a cancelled"), bc = sx<bool>("b cancelled");
  if (ac) a->Cancel();
  if (bc) b->Cancel();
  auto expect = [&](int k) {
    bool c = k == 1 ? ac : k == 2 ? bc : false;
    sx_assert(arolla::Cancelled() == c);
    sx_assert(arolla::CheckCancellation().ok() == !c);
    sx_assert(arolla::CurrentCancellationContext() == pick[k]);
    sx_assert(Scope::current_cancellation_context() == pick[k].get());
  };
  expect(0);
  int k1 = sx_pick("k1", 0, 2), k2 = sx_pick("k2", 0, 2), k3 = sx_pick("k3", 0, 2);
  {
    Scope s1(pick[k1]);
    expect(k1);
    { Scope s2(pick[k2]); expect(k2); { Scope s3(pick[k3]); expect(k3); sx_assert(s3.cancellation_context() == pick[k3].get()); } expect(k2); }
    expect(k1);
    { Scope s2(pick[k3]); expect(k3); }
    expect(k1);
  }
  expect(0);
  sx_reach("scopes left");
}

// One thread cancels while another subscribes: the callback runs exactly once.
SX_ENTRY(race_subscribe) {  // sx: preempt=4 leak weight=2 bound=2_threads,_4_preemptions
  std::atomic<int> calls{0};
  {
    auto ctx = CancellationContext::Make();
    std::thread t([ctx] { ctx->Cancel(); });
    ctx->Subscribe([&] { calls.fetch_add(1); }).Detach();
    bool seen = ctx->Cancelled();
    if (seen) sx_reach("cancelled before the check");
    else sx_reach("not yet cancelled");
    t.join();
    sx_assert(ctx->Cancelled() && !ctx->GetStatus().ok());
  }
  sx_assert(calls.load() == 1);
}
// One thread cancels while another drops its subscription: at most once, and nothing leaks
// or is freed twice.
SX_ENTRY(race_drop) {  // sx: preempt=4 leak weight=2 bound=2_threads,_4_preemptions
  std::atomic<int> calls{0};
  {
    auto ctx = CancellationContext::Make();
    auto keep = ctx->Subscribe([&] { calls.fetch_add(16); });
    {
      auto sub = ctx->Subscribe([&] { calls.fetch_add(1); });
      std::thread t([ctx] { ctx->Cancel(); });
      { auto s2 = std::move(sub); }
      t.join();
    }
  }
  int c = calls.load();
  sx_assert(c == 16 || c == 17);
  if (c == 16) sx_reach("dropped in time"); else sx_reach("callback ran");
}
SX_ENTRY(race_cancel) {  // sx: preempt=4 leak weight=2 bound=2_threads,_4_preemptions
  auto ctx = CancellationContext::Make();
  std::atomic<int> calls{0};
  auto sub = ctx->Subscribe([&] { calls.fetch_add(1); });
  std::thread t([ctx] { ctx->Cancel(absl::InternalError("a")); });
  ctx->Cancel(absl::AbortedError("b"));
  auto s1 = ctx->GetStatus();
  sx_assert(!s1.ok());
  t.join();
  sx_assert(ctx->GetStatus().code() == s1.code());
  sx_assert(calls.load() == 1);
  if (s1.code() == absl::StatusCode::kInternal) sx_reach("the other thread won"); else sx_reach("this thread won");
}
SX_ENTRY(event_threads) {  // sx: preempt=3 leak weight=2 bound=2_threads,_3_preemptions
  auto ev = arolla::PermanentEvent::Make();
  int data = 0;
  std::thread t([&data, ev] { data = 1; ev->Notify(); });
  if (ev->HasBeenNotified()) { sx_assert(data == 1); sx_reach("seen at once"); }
  if (sx<bool>("both")) { ev->Wait(); ev->Notify(); } else ev->Wait();
  sx_assert(data == 1);
  sx_assert(ev->HasBeenNotified());
  sx_assert(ev->WaitWithDeadline(absl::Now()));
  t.join();
}
SX_ENTRY(event_notifiers) {  // sx: preempt=3 leak bound=2_threads,_3_preemptions
  auto ev = arolla::PermanentEvent::Make();
  sx_assert(!ev->HasBeenNotified());
  sx_assert(!ev->WaitWithDeadline(absl::Now()));
  std::thread t([ev] { ev->Notify(); });
  ev->Notify();
  ev->Wait();
  ev->Notify();
  t.join();
  sx_assert(ev->HasBeenNotified());
  sx_reach("notified");
}
