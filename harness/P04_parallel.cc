// ExecuteTasksInParallel / StdThreading under every schedule within the preemption bound.
// SX-THREADS: yes
// SX-SRCS: arolla/util/threading.cc
#include <atomic>
#include <functional>
#include <vector>

#include "sx.h"
#include "arolla/util/threading.h"

namespace {
void Run(int max_tasks, int max_par) {
  int n = sx_pick("tasks", 0, max_tasks), par = sx_pick("parallelism", 1, max_par);
  int ran[4] = {};   // plain memory: a task run twice, or a missing join, is also a race
  std::atomic<int> running{0}, peak{0};
  std::vector<std::function<void()>> tasks;
  for (int i = 0; i < n; ++i)
    tasks.push_back([&, i] {
      int now = running.fetch_add(1) + 1;
      int p = peak.load();
      while (now > p && !peak.compare_exchange_strong(p, now)) {}
      ran[i]++;
      running.fetch_sub(1);
    });
  arolla::ExecuteTasksInParallel(par, tasks);
  for (int i = 0; i < n; ++i) sx_assert(ran[i] == 1);
  sx_assert(running.load() == 0);
  sx_assert(peak.load() <= par);
  if (n > 1 && par > 1 && peak.load() > 1) sx_reach("two tasks overlapped");
  sx_reach("all tasks ran");
}
}  // namespace
SX_ENTRY(tasks_2) { Run(2, 2); }  // sx: preempt=4 leak weight=3 bound=2_tasks,_2_workers,_4_preemptions
SX_ENTRY(tasks_3) { Run(3, 3); }  // sx: preempt=2 leak weight=4 bound=3_tasks,_3_workers,_2_preemptions
SX_ENTRY(tasks_3_deep) { Run(3, 2); }  // sx: preempt=4 leak weight=9 tier=thorough bound=3_tasks,_2_workers,_4_preemptions
SX_ENTRY(no_tasks) {  // sx: bound=none
  arolla::ExecuteTasksInParallel(sx_pick("p", 0, 3), {});
}
SX_ENTRY(std_threading) {  // sx: preempt=2 leak
  int k = sx<int>("threads");
  arolla::StdThreading th(k);
  sx_assert(th.GetRecommendedThreadCount() == (k > 1 ? k : 1));
  arolla::StdThreading two(2);
  int a = 0, b = 0, root = 0;
  two.WithThreading([&] {
    root++;
    auto join = two.StartThread([&] { a = 5; });
    auto join2 = two.StartThread([&] { b = 6; });
    join();
    sx_assert(a == 5);
    join2();
    sx_assert(b == 6);
  });
  sx_assert(root == 1);
  sx_reach("threads joined");
}
