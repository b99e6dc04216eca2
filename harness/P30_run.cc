// Running sequences of bound operators: jumps, failures, cancellation, and
// expressions made of sequences.
// SX-SRCS: arolla/qexpr/bound_operators.cc arolla/qexpr/simple_executable.cc arolla/qexpr/evaluation_engine.cc arolla/util/cancellation.cc arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/derived_qtype.cc arolla/qtype/tuple_qtype.cc arolla/qtype/named_field_qtype.cc arolla/qtype/typed_slot.cc arolla/qtype/typed_ref.cc arolla/qtype/typed_value.cc arolla/util/string.cc arolla/util/repr.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/unit.cc arolla/util/status.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc arolla/memory/raw_buffer_factory.cc
// SX-FLAGS: -I$VERIF/harness/stub_sstream
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "sx.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qexpr/bound_operators.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/evaluation_engine.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qexpr/simple_executable.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/util/cancellation.h"

using namespace arolla;

namespace {

#ifdef SX_THOROUGH
constexpr int kSteps = 6, kOps = 4, kProgram = 4;
#else
constexpr int kSteps = 5, kOps = 3, kProgram = 3;
#endif

using Ops = std::vector<std::unique_ptr<BoundOperator>>;

// What one execution of an operator may do.
enum Act { kNone, kJump, kJumpTwice, kFail, kJumpFail, kFailJump, kSetOk, kCancel, kActs };

struct Step {
  int op;
  Act act;
  int64_t jump = 0;
};

absl::Status Error(int step) {
  return absl::Status(absl::StatusCode(3 + step % 3), std::string(1, char('a' + step)));
}

// The operators all share this history: each execution appends to it.
struct History {
  int ops = 0;
  bool cancellable = false;
  int part = 0;
  CancellationContextPtr cancel;
  std::vector<Step> steps;
  void Execute(int op, EvaluationContext* ctx) {
    sx_assert(ctx->status().ok());
    sx_assert(ctx->requested_jump() == 0);
    sx_assert(!ctx->signal_received());
    int step = steps.size();
    steps.push_back({op, kFail, 0});
    Step& s = steps.back();
    if (step < kSteps - 1) s.act = Act(sx_pick("act", 0, kActs - 1));
    if (step == 0 && s.act % 3 != part) sx_end();
    if (s.act == kCancel && !cancellable) sx_end();
    if (s.act == kJump || s.act == kJumpFail || s.act == kJumpTwice || s.act == kFailJump) {
      s.jump = sx_pick("target", 0, ops) - (op + 1);
    }
    switch (s.act) {
      case kNone: break;
      case kJump: ctx->set_requested_jump(s.jump); break;
      case kJumpTwice:
        ctx->set_requested_jump(1);
        ctx->set_requested_jump(s.jump);
        break;
      case kFail: ctx->set_status(Error(step)); break;
      case kJumpFail:
        ctx->set_requested_jump(s.jump);
        ctx->set_status(Error(step));
        break;
      case kFailJump:
        ctx->set_status(Error(step));
        ctx->set_requested_jump(s.jump);
        break;
      case kSetOk: ctx->set_status(absl::OkStatus()); break;
      case kCancel: cancel->Cancel(Error(step)); break;
      default: break;
    }
    if (s.act == kFail || s.act == kJumpFail || s.act == kFailJump) {
      sx_assert(!ctx->status().ok());
      sx_assert(ctx->signal_received());
    } else {
      sx_assert(ctx->status().ok());
    }
  }
};

}  // namespace

// Every history of up to kSteps executions of up to kOps operators.
SX_ENTRY(run) { // sx: shards=24 weight=2 bound=up_to_3_operators_(4_in_thorough),_histories_of_up_to_5_executions_(6),_every_jump_that_stays_in_the_sequence
  int part = sx_shard(24), shard = part % 8;
  History h;
  h.part = part / 8;
  h.cancellable = shard % 2;
  h.ops = shard / 2;
#ifndef SX_THOROUGH
  if (h.ops > kOps) sx_end();
#endif
  if (h.ops == 0) h.ops = kOps == 3 ? 0 : 4;
  Ops ops;
  bool functor = sx_pick("kind", 0, 2 - 1);
  for (int i = 0; i < h.ops; ++i) {
    if (functor && i == 0) {
      // Same behaviour; the failure is returned instead of being stored.
      ops.push_back(MakeBoundOperator([&h](EvaluationContext* ctx, FramePtr) -> absl::Status {
        EvaluationContext own;
        h.Execute(0, &own);
        if (own.requested_jump() != 0) ctx->set_requested_jump(own.requested_jump());
        return std::move(own).status();
      }));
    } else {
      ops.push_back(MakeBoundOperator([&h, i](EvaluationContext* ctx, FramePtr) { h.Execute(i, ctx); }));
    }
  }
  FrameLayout layout = FrameLayout::Builder().Build();
  MemoryAllocation alloc(&layout);
  EvaluationContext ctx;
  int64_t stop;
  if (h.cancellable) {
    h.cancel = CancellationContext::Make();
    CancellationContext::ScopeGuard guard(h.cancel);
    stop = RunBoundOperators(ops, &ctx, alloc.frame());
  } else {
    stop = RunBoundOperators(ops, &ctx, alloc.frame());
  }
  // The same history, by the documented rules.
  int64_t ip = 0;
  size_t n = 0;
  bool failed = false;
  while (ip < h.ops && !failed) {
    sx_assert(n < h.steps.size());
    const Step& s = h.steps[n];
    sx_assert(s.op == ip);
    switch (s.act) {
      case kFail:
      case kJumpFail:
      case kFailJump:
      case kCancel:
        failed = true;
        sx_assert(ctx.status() == Error(n));
        sx_assert(stop == ip);
        break;
      case kJump:
      case kJumpTwice:
        ip += s.jump + 1;
        break;
      default:
        ++ip;
    }
    ++n;
  }
  sx_assert(n == h.steps.size());
  if (!failed) {
    sx_assert(stop == h.ops - 1);
    sx_assert(ctx.status().ok());
    sx_assert(ctx.requested_jump() == 0);
    sx_assert(!ctx.signal_received());
  }
  sx_reach("run");
}

// Programs of the operators of the library itself.
SX_ENTRY(programs) { // sx: shards=6 weight=2 bound=programs_of_3_operators_(4_in_thorough)_of_6_kinds,_every_content_of_the_slots
  FrameLayout::Builder builder;
  auto cond = builder.AddSlot<bool>();
  auto number = builder.AddSlot<int32_t>();
  auto log = builder.AddSlot<int32_t>();
  auto layout = std::move(builder).Build();
  MemoryAllocation alloc(&layout);
  FramePtr frame = alloc.frame();
  struct Code {
    int kind;
    int64_t jump;
  };
  Code code[kProgram];
  Ops ops;
  int fuel = 0;
  for (int i = 0; i < kProgram; ++i) {
    code[i].kind = i == 0 ? sx_shard(6) : sx_pick("kind", 0, 6 - 1);
    code[i].jump = 0;
    if (code[i].kind < 2) {
      int k = kProgram + 1;
      code[i].jump = sx_pick("target", 0, k - 1) - (i + 1);
    }
    switch (code[i].kind) {
      case 0: ops.push_back(JumpBoundOperator(code[i].jump)); break;
      case 1: ops.push_back(JumpIfNotBoundOperator(cond, code[i].jump)); break;
      case 2: ops.push_back(std::make_unique<ResetBoundOperator>(TypedSlot::FromSlot(number))); break;
      case 3:
        ops.push_back(MakeBoundOperator([=](EvaluationContext*, FramePtr f) {
          f.Set(log, f.Get(log) + 1);
          f.Set(number, 5 + i);
        }));
        break;
      case 4:
        ops.push_back(MakeBoundOperator([=](EvaluationContext*, FramePtr f) { f.Set(cond, !f.Get(cond)); }));
        break;
      default:
        ops.push_back(MakeBoundOperator([=](EvaluationContext*, FramePtr f) -> absl::Status {
          if (f.Get(number) == 0) return Error(0);
          return absl::OkStatus();
        }));
    }
  }
  bool c = sx<bool>("cond");
  int32_t v = sx<int8_t>("number");
  int32_t l = 0;
  frame.Set(cond, c);
  frame.Set(number, v);
  frame.Set(log, 0);
  int64_t ip = 0;
  bool failed = false;
  while (ip < kProgram) {
    if (++fuel > kProgram + 3) sx_end();  // endless or long
    const Code& k = code[ip];
    if (k.kind == 0) {
      ip += k.jump;
    } else if (k.kind == 1) {
      if (!c) ip += k.jump;
    } else if (k.kind == 2) {
      v = 0;
    } else if (k.kind == 3) {
      ++l;
      v = 5 + ip;
    } else if (k.kind == 4) {
      c = !c;
    } else if (v == 0) {
      failed = true;
      break;
    }
    ++ip;
  }
  EvaluationContext ctx;
  int64_t stop = RunBoundOperators(ops, &ctx, frame);
  sx_assert(frame.Get(cond) == c);
  sx_assert(frame.Get(number) == v);
  sx_assert(frame.Get(log) == l);
  sx_assert(ctx.status().ok() == !failed);
  sx_assert(stop == (failed ? ip : kProgram - 1));
  sx_reach("ran");
}

namespace {
struct TrueOp {
  int* runs;
  FrameLayout::Slot<int32_t> out;
  void Run(EvaluationContext* ctx, FramePtr frame) const {
    ++*runs;
    frame.Set(out, 42);
    if (*runs > 100) ctx->set_status(Error(0));
  }
};
}  // namespace

SX_ENTRY(where_all) { // sx: bound=up_to_3_conditions_(5_in_thorough),_possibly_the_same_slot_twice,_every_value
#ifdef SX_THOROUGH
  constexpr int kConds = 5;
#else
  constexpr int kConds = 3;
#endif
  FrameLayout::Builder builder;
  std::vector<FrameLayout::Slot<bool>> slots;
  int n = sx_pick("conds", 0, kConds + 1 - 1);
  bool twice = n >= 2 && sx_pick("twice", 0, 2 - 1);
  for (int i = 0; i < n; ++i) {
    slots.push_back(twice && i == 1 ? slots[0] : builder.AddSlot<bool>());
  }
  auto presence = builder.AddSlot<bool>();
  auto out = builder.AddSlot<int32_t>();
  auto layout = std::move(builder).Build();
  MemoryAllocation alloc(&layout);
  FramePtr frame = alloc.frame();
  std::vector<bool> values(n);
  bool all = true;
  for (int i = 0; i < n; ++i) {
    if (twice && i == 1) {
      continue;
    }
    bool b = sx<bool>("cond");
    frame.Set(slots[i], b);
    all = all & b;
  }
  int32_t old = sx<int32_t>("old");
  frame.Set(out, old);
  frame.Set(presence, sx<bool>("presence"));
  int runs = 0;
  WhereAllBoundOperator<TrueOp> op(slots, presence, TrueOp{&runs, out});
  EvaluationContext ctx;
  op.Run(&ctx, frame);
  sx_assert(frame.Get(presence) == all);
  sx_assert(runs == (all ? 1 : 0));
  sx_assert(frame.Get(out) == (all ? 42 : old));
  sx_assert(ctx.status().ok());
  sx_assert(!ctx.signal_received());
  sx_reach("where_all");
}

namespace {
struct Trace {
  std::string log;
  int fail_at = -1;
};
void AddTraceOps(Ops& ops, Trace* t, char name, int n) {
  for (int i = 0; i < n; ++i) {
    char id = name + i;
    ops.push_back(MakeBoundOperator([t, id](EvaluationContext*, FramePtr) -> absl::Status {
      t->log += id;
      if ((int)t->log.size() - 1 == t->fail_at) return Error(t->fail_at);
      return absl::OkStatus();
    }));
  }
}
}  // namespace

// Literals are initialised by the init operators only, evaluation runs the
// eval operators only, sub-expressions go in order, the first failure ends.
SX_ENTRY(exprs) { // sx: shards=4 bound=up_to_3_sub-expressions_of_up_to_2_operators,_one_failure_anywhere,_nested_once
  int n = sx_shard(4);
  Trace t;
  std::vector<std::unique_ptr<BoundExpr>> subs, inner;
  std::string init, eval;
  FrameLayout::Builder builder;
  auto slot = TypedSlot::FromSlot(builder.AddSlot<int32_t>());
  auto other = TypedSlot::FromSlot(builder.AddSlot<int64_t>());
  auto layout = std::move(builder).Build();
  bool nested = n > 0 && sx_pick("nested", 0, 2 - 1);
  for (int i = 0; i < n; ++i) {
    Ops init_ops, eval_ops;
    int a = sx_pick("inits", 0, 3 - 1), b = sx_pick("evals", 0, 3 - 1);
    AddTraceOps(init_ops, &t, 'A' + 2 * i, a);
    AddTraceOps(eval_ops, &t, 'a' + 2 * i, b);
    for (int k = 0; k < a; ++k) init += char('A' + 2 * i + k);
    for (int k = 0; k < b; ++k) eval += char('a' + 2 * i + k);
    absl::flat_hash_map<std::string, TypedSlot> ins;
    ins.emplace("x", slot);
    (nested && i < 2 ? inner : subs)
        .push_back(std::make_unique<SimpleBoundExpr>(ins, slot, std::move(init_ops), std::move(eval_ops)));
    if (nested && (i == 1 || i == n - 1) && !inner.empty()) {
      subs.push_back(std::make_unique<CombinedBoundExpr>(absl::flat_hash_map<std::string, TypedSlot>{}, other,
                                                         absl::flat_hash_map<std::string, TypedSlot>{},
                                                         std::move(inner)));
      inner.clear();
    }
  }
  absl::flat_hash_map<std::string, TypedSlot> ins, outs;
  ins.emplace("x", slot);
  outs.emplace("y", other);
  CombinedBoundExpr expr(ins, other, outs, std::move(subs));
  sx_assert(expr.output_slot() == other);
  sx_assert(expr.input_slots().size() == 1 && expr.input_slots().at("x") == slot);
  sx_assert(expr.named_output_slots().size() == 1 && expr.named_output_slots().at("y") == other);
  MemoryAllocation alloc(&layout);
  EvaluationContext ctx;
  bool literals = sx_pick("literals", 0, 2 - 1);
  const std::string& full = literals ? init : eval;
  t.fail_at = sx_pick("fail", 0, 8 - 1) - 1;
  if (literals) {
    expr.InitializeLiterals(&ctx, alloc.frame());
  } else {
    expr.Execute(&ctx, alloc.frame());
  }
  if (t.fail_at < 0 || t.fail_at >= (int)full.size()) {
    sx_assert(t.log == full);
    sx_assert(ctx.status().ok());
  } else {
    sx_assert(t.log == full.substr(0, t.fail_at + 1));
    sx_assert(ctx.status() == Error(t.fail_at));
  }
  sx_reach("exprs");
}

// The context of an evaluation.
SX_ENTRY(context) { // sx: bound=up_to_3_calls
  EvaluationContext ctx;
  absl::Status status;
  int64_t jump = 0;
  bool signal = false;
  for (int i = 0; i < 3; ++i) {
    switch (sx_pick("call", 0, 6 - 1)) {
      case 0:
        ctx.set_status(Error(i));
        status = Error(i);
        signal = true;
        break;
      case 1:
        ctx.set_status(absl::OkStatus());
        status = absl::OkStatus();
        break;
      case 2: {
        int64_t j = sx<int64_t>("jump");
        ctx.set_requested_jump(j);
        jump = j;
        signal = true;
        break;
      }
      case 3:
        ctx.ResetSignals();
        status = absl::OkStatus();
        jump = 0;
        signal = false;
        break;
      case 4:
        ctx.set_status()(Error(i));
        status = Error(i);
        signal = true;
        break;
      default: break;
    }
    sx_assert(ctx.status() == status);
    sx_assert(ctx.requested_jump() == jump);
    sx_assert(ctx.signal_received() == signal);
  }
  sx_reach("context");
}
