#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
#include <algorithm>
#include <cmath>

SolverStats g_ss;
unsigned g_qtimeout_ms = 60000;
std::string g_dumpdir;
static Z3_context C;
static bool inited = false;
static Z3_error_code lastErr = Z3_OK;

static void errh(Z3_context c, Z3_error_code e) { lastErr = e; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (inited) return; inited = true;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);  // non-rc context: asts live for ever
  Z3_del_config(cfg);
  Z3_set_error_handler(C, errh);
}
static Z3_ast A(E e);   // as bit-vector
static Z3_ast B(E e);   // as Bool (w==1)
static Z3_ast F(E e);   // as FP

static Z3_ast numeral(unsigned w, u128 v) {
  Z3_sort s = Z3_mk_bv_sort(C, w);
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), Z3_mk_bv_sort(C, w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, 64));
  return Z3_mk_concat(C, hi, lo);
}
static Z3_sort fpsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_16(C); }
static Z3_ast rne() { return Z3_mk_fpa_rne(C); }
static bool isFPop(E e) { switch (e->k) { case FADD: case FSUB: case FMUL: case FDIV: case FSQRT: case FMA: case FROUND: case FCVT: case SI2F: case UI2F: return true; default: return false; } }

static Z3_ast F(E e) {
  if (e->zf) return (Z3_ast)e->zf;
  Z3_ast r;
  switch (e->k) {
    case FADD: r = Z3_mk_fpa_add(C, rne(), F(e->op[0]), F(e->op[1])); break;
    case FSUB: r = Z3_mk_fpa_sub(C, rne(), F(e->op[0]), F(e->op[1])); break;
    case FMUL: r = Z3_mk_fpa_mul(C, rne(), F(e->op[0]), F(e->op[1])); break;
    case FDIV: r = Z3_mk_fpa_div(C, rne(), F(e->op[0]), F(e->op[1])); break;
    case FSQRT: r = Z3_mk_fpa_sqrt(C, rne(), F(e->op[0])); break;
    case FMA: r = Z3_mk_fpa_fma(C, rne(), F(e->op[0]), F(e->op[1]), F(e->op[2])); break;
    case FROUND: {
      Z3_ast rm = e->p == 0 ? rne() : e->p == 1 ? Z3_mk_fpa_rna(C) : e->p == 2 ? Z3_mk_fpa_rtp(C) : e->p == 3 ? Z3_mk_fpa_rtn(C) : Z3_mk_fpa_rtz(C);
      r = Z3_mk_fpa_round_to_integral(C, rm, F(e->op[0])); break; }
    case FCVT: r = Z3_mk_fpa_to_fp_float(C, rne(), F(e->op[0]), fpsort(e->w)); break;
    case SI2F: r = Z3_mk_fpa_to_fp_signed(C, rne(), A(e->op[0]), fpsort(e->w)); break;
    case UI2F: r = Z3_mk_fpa_to_fp_unsigned(C, rne(), A(e->op[0]), fpsort(e->w)); break;
    case ITE: if (e->hasFP) { r = Z3_mk_ite(C, B(e->op[0]), F(e->op[1]), F(e->op[2])); break; }  // fallthrough
    default: r = Z3_mk_fpa_to_fp_bv(C, A(e), fpsort(e->w));
  }
  e->zf = r; return r;
}
static Z3_ast fpToBits(E e) {
  Z3_ast f = F(e);
  u128 nan = e->w == 32 ? (u128)0x7fc00000u : (u128)0x7ff8000000000000ULL;
  return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f), numeral(e->w, nan), Z3_mk_fpa_to_ieee_bv(C, f));
}
static Z3_ast f2i(E e, bool sgn) {
  Z3_ast f = F(e->op[0]); unsigned fw = e->op[0]->w, w = e->w;
  // in range test in the source format
  double hiD = sgn ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
  Z3_ast hi = Z3_mk_fpa_numeral_double(C, hiD, fpsort(fw));
  Z3_ast t = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtz(C), f);
  Z3_ast lo = Z3_mk_fpa_numeral_double(C, sgn ? -hiD : 0.0, fpsort(fw));
  Z3_ast ok[2] = {Z3_mk_fpa_lt(C, t, hi), Z3_mk_fpa_geq(C, t, lo)};
  Z3_ast in = Z3_mk_and(C, 2, ok);
  Z3_ast v = sgn ? Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f, w) : Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), f, w);
  return Z3_mk_ite(C, in, v, numeral(w, (u128)1 << (w - 1)));
}
static Z3_ast B(E e) {
  if (e->zb) return (Z3_ast)e->zb;
  Z3_ast r;
  switch (e->k) {
    case CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case NOT: r = Z3_mk_not(C, B(e->op[0])); break;
    case AND: { Z3_ast x[2] = {B(e->op[0]), B(e->op[1])}; r = Z3_mk_and(C, 2, x); break; }
    case OR: { Z3_ast x[2] = {B(e->op[0]), B(e->op[1])}; r = Z3_mk_or(C, 2, x); break; }
    case XOR: r = Z3_mk_xor(C, B(e->op[0]), B(e->op[1])); break;
    case ITE: r = Z3_mk_ite(C, B(e->op[0]), B(e->op[1]), B(e->op[2])); break;
    case EQ: r = e->op[0]->w == 1 ? Z3_mk_iff(C, B(e->op[0]), B(e->op[1])) : Z3_mk_eq(C, A(e->op[0]), A(e->op[1])); break;
    case ULT: r = Z3_mk_bvult(C, A(e->op[0]), A(e->op[1])); break;
    case ULE: r = Z3_mk_bvule(C, A(e->op[0]), A(e->op[1])); break;
    case SLT: r = Z3_mk_bvslt(C, A(e->op[0]), A(e->op[1])); break;
    case SLE: r = Z3_mk_bvsle(C, A(e->op[0]), A(e->op[1])); break;
    default: r = Z3_mk_eq(C, A(e), numeral(1, 1)); break;
  }
  e->zb = r; return r;
}
static Z3_ast A(E e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r;
  switch (e->k) {
    case CONST: r = numeral(e->w, e->c); break;
    case VAR: { char n[32]; snprintf(n, 32, "v%u", e->p); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, e->w)); break; }
    case ADD: r = Z3_mk_bvadd(C, A(e->op[0]), A(e->op[1])); break;
    case SUB: r = Z3_mk_bvsub(C, A(e->op[0]), A(e->op[1])); break;
    case MUL: r = Z3_mk_bvmul(C, A(e->op[0]), A(e->op[1])); break;
    case UDIV: r = Z3_mk_bvudiv(C, A(e->op[0]), A(e->op[1])); break;
    case SDIV: r = Z3_mk_bvsdiv(C, A(e->op[0]), A(e->op[1])); break;
    case UREM: r = Z3_mk_bvurem(C, A(e->op[0]), A(e->op[1])); break;
    case SREM: r = Z3_mk_bvsrem(C, A(e->op[0]), A(e->op[1])); break;
    case SHL: r = Z3_mk_bvshl(C, A(e->op[0]), A(e->op[1])); break;
    case LSHR: r = Z3_mk_bvlshr(C, A(e->op[0]), A(e->op[1])); break;
    case ASHR: r = Z3_mk_bvashr(C, A(e->op[0]), A(e->op[1])); break;
    case CONCAT: r = Z3_mk_concat(C, A(e->op[0]), A(e->op[1])); break;
    case EXTRACT: r = Z3_mk_extract(C, e->p + e->w - 1, e->p, A(e->op[0])); break;
    case ZEXT: r = Z3_mk_zero_ext(C, e->w - e->op[0]->w, A(e->op[0])); break;
    case SEXT: r = Z3_mk_sign_ext(C, e->w - e->op[0]->w, A(e->op[0])); break;
    case FADD: case FSUB: case FMUL: case FDIV: case FSQRT: case FMA: case FROUND: case FCVT: case SI2F: case UI2F: r = fpToBits(e); break;
    case F2SI: r = f2i(e, true); break;
    case F2UI: r = f2i(e, false); break;
    case UF: {
      Z3_sort dom[2]; Z3_ast args[2]; unsigned n = e->nops;
      for (unsigned i = 0; i < n; i++) { dom[i] = Z3_mk_bv_sort(C, e->op[i]->w); args[i] = A(e->op[i]); }
      Z3_func_decl d = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("uf_" + g_ufs[e->p]).c_str()), n, dom, Z3_mk_bv_sort(C, e->w));
      r = Z3_mk_app(C, d, n, args); break; }
    default:
      if (e->w == 1) {
        switch (e->k) {
          case AND: case OR: case XOR: case NOT: case ITE: case EQ: case ULT: case ULE: case SLT: case SLE:
            r = Z3_mk_ite(C, B(e), numeral(1, 1), numeral(1, 0)); break;
          default: fprintf(stderr, "lower?\n"); abort();
        }
      } else switch (e->k) {
        case AND: r = Z3_mk_bvand(C, A(e->op[0]), A(e->op[1])); break;
        case OR: r = Z3_mk_bvor(C, A(e->op[0]), A(e->op[1])); break;
        case XOR: r = Z3_mk_bvxor(C, A(e->op[0]), A(e->op[1])); break;
        case NOT: r = Z3_mk_bvnot(C, A(e->op[0])); break;
        case ITE: r = Z3_mk_ite(C, B(e->op[0]), A(e->op[1]), A(e->op[2])); break;
        default: fprintf(stderr, "lower??\n"); abort();
      }
  }
  e->z = r; return r;
}

static bool overlap(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true;
  return false;
}

struct CacheEnt { int res; std::vector<std::pair<uint32_t, u128>> vals; };
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (auto x : v) { h ^= x; h *= 0x9e3779b97f4a7c15ULL; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;

int solveSliced(const std::vector<E>& pc, E extra, Model& m) {
  g_ss.queries++;
  if (extra->k == CONST) { if (!extra->c) return 0; return 1; }
  init();
  // slice
  std::vector<uint64_t> vs = varsOf(extra);
  std::vector<E> sl{extra};
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      const auto& o = varsOf(pc[i]);
      if (overlap(vs, o) || pc[i]->hasUF) {  // UF constraints share functions: keep them all
        if (pc[i]->hasUF && !extra->hasUF && !overlap(vs, o)) { bool any = false; for (E s : sl) any |= s->hasUF; if (!any) continue; }
        used[i] = 1; sl.push_back(pc[i]); ch = true;
        if (vs.size() < o.size()) vs.resize(o.size(), 0);
        for (size_t j = 0; j < o.size(); j++) vs[j] |= o[j];
      }
    }
  }
  std::vector<uint32_t> key; for (E e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) {
    g_ss.byCache++;
    if (it->second.res == 1) for (auto& p : it->second.vals) m.set(p.first, p.second);
    return it->second.res;
  }
  bool uf = false, fp = false;
  for (E e : sl) { uf |= e->hasUF; fp |= e->hasFP; }
  Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, uf ? (fp ? "ALL" : "QF_UFBV") : fp ? "QF_FPBV" : "QF_BV"));
  Z3_solver_inc_ref(C, s);
  Z3_params ps = Z3_mk_params(C); Z3_params_inc_ref(C, ps);
  Z3_params_set_uint(C, ps, Z3_mk_string_symbol(C, "timeout"), g_qtimeout_ms);
  Z3_solver_set_params(C, s, ps);
  for (E e : sl) Z3_solver_assert(C, s, B(e));
  lastErr = Z3_OK;
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_solver_check(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3calls++; g_ss.z3time += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (!g_dumpdir.empty()) {
    static int nd = 0;
    if (nd < 200 || dt > 1) {
      char fn[512]; snprintf(fn, 512, "%s/q%06d_%s.smt2", g_dumpdir.c_str(), nd++, r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown");
      if (FILE* f = fopen(fn, "w")) { fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(C, s)); fclose(f); }
    }
  }
  CacheEnt ce; ce.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (lastErr != Z3_OK) ce.res = -1;
  if (ce.res == 1) {
    g_ss.sat++;
    Z3_model mo = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, mo);
    for (size_t i = 0; i < vs.size() * 64; i++) if (vs[i / 64] >> (i % 64) & 1) {
      char n[32]; snprintf(n, 32, "v%u", (unsigned)i);
      unsigned w = g_vars[i].w;
      Z3_ast v = Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, w));
      Z3_ast out; u128 val = 0;
      if (Z3_model_eval(C, mo, v, true, &out)) {
        if (w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(C, out, &x); val = x; }
        else {
          Z3_ast parts[2] = {Z3_mk_extract(C, 63, 0, v), Z3_mk_extract(C, w - 1, 64, v)};
          uint64_t x[2] = {0, 0};
          for (int j = 0; j < 2; j++) { Z3_ast o2; if (Z3_model_eval(C, mo, parts[j], true, &o2)) Z3_get_numeral_uint64(C, Z3_simplify(C, o2), &x[j]); }
          val = ((u128)x[1] << 64) | x[0];
        }
      }
      ce.vals.push_back({(uint32_t)i, val});
    }
    Z3_model_dec_ref(C, mo);
    for (auto& p : ce.vals) m.set(p.first, p.second);
    // sanity: the model must satisfy the slice under our own evaluator
    if (!uf) {
      newEpoch();
      for (E e : sl) if (!evalExpr(e, m)) {
        fprintf(stderr, "ENGINE-ERROR: solver model does not satisfy constraint %s\n", show(e, 8).c_str());
        exit(5);
      }
    }
  } else if (ce.res == 0) g_ss.unsat++; else g_ss.unknown++;
  Z3_params_dec_ref(C, ps);
  Z3_solver_dec_ref(C, s);
  int res = ce.res;
  if (res >= 0) cache.emplace(std::move(key), std::move(ce));
  return res;
}
