// Runtime pieces that live in shared libraries (libstdc++, abseil, cityhash), so that
// harness modules are closed. Linked into the bitcode; the native replay links only the
// parts not provided by libstdc++ (SX_NATIVE).
#include "absl/sx/strings.h"
#include "absl/sx/containers.h"
#include "absl/sx/misc.h"
#include "cityhash/city.h"
#include "third_party/utf8_range/utf8_validity.h"
#include <cstdio>

// ------------------------------------------------------------------ abseil
extern "C" double sx_strtod(const char* p, uint64_t n, uint64_t* used);
namespace absl {
namespace sx {
std::string FormatImpl(string_view f, const FormatArg* a, size_t n, bool* ok) {
  std::string r; size_t ai = 0; bool good = true;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { r.push_back(f[i]); continue; }
    if (++i >= f.size()) { good = false; break; }
    if (f[i] == '%') { r.push_back('%'); continue; }
    bool left = false, zero = false, plus = false; int w = 0, p = -1;
    for (; i < f.size(); i++) { if (f[i] == '-') left = true; else if (f[i] == '0') zero = true; else if (f[i] == '+') plus = true; else if (f[i] == ' ' || f[i] == '#') {} else break; }
    if (i < f.size() && f[i] == '*') { if (ai < n) w = (int)a[ai++].i; i++; } else while (i < f.size() && ascii_isdigit(f[i])) w = w * 10 + (f[i++] - '0');
    if (i < f.size() && f[i] == '.') { i++; p = 0; if (i < f.size() && f[i] == '*') { if (ai < n) p = (int)a[ai++].i; i++; } else while (i < f.size() && ascii_isdigit(f[i])) p = p * 10 + (f[i++] - '0'); }
    while (i < f.size() && (f[i] == 'l' || f[i] == 'z' || f[i] == 'h' || f[i] == 'j')) i++;
    if (i >= f.size() || ai >= n) { good = false; break; }
    const FormatArg& x = a[ai++]; std::string s; char c = f[i];
    if (x.k == FormatArg::S) { if (c != 's' && c != 'v') { good = false; break; } s = p >= 0 ? x.s.substr(0, p) : x.s; }
    else if (x.k == FormatArg::C && (c == 'c' || c == 'v')) s = std::string(1, (char)x.i);
    else if (x.k == FormatArg::P) { s = "0x"; AppendU(&s, x.i, 16); }
    else if (x.k == FormatArg::D) { if (c == 'd' || c == 's' || c == 'x') { good = false; break; } AppendG(&s, x.d, p >= 0 ? p : 6); }
    else if (c == 'x' || c == 'X') AppendU(&s, x.i, 16, c == 'X');
    else if (c == 'd' || c == 'i' || c == 'v' || c == 'u') { if (x.k == FormatArg::U) AppendU(&s, x.i); else AppendI(&s, x.i); if (plus && (s.empty() || s[0] != '-')) s.insert(s.begin(), '+'); }
    else { good = false; break; }
    while ((int)s.size() < w) { if (left) s.push_back(' '); else s.insert(s.begin(), zero && x.k != FormatArg::S ? '0' : ' '); }
    r.append(s);
  }
  if (ok) *ok = good && ai == n;
  return r;
}
std::string CEsc(string_view s, bool utf8, bool hex) {
  std::string r;
  for (unsigned char c : s) {
    switch (c) {
      case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; case '"': r += "\\\""; break; case '\'': r += "\\'"; break; case '\\': r += "\\\\"; break;
      default:
        if ((utf8 && c >= 0x80) || ascii_isprint(c)) r.push_back(c);
        else if (hex) { r += "\\x"; r.push_back("0123456789abcdef"[c >> 4]); r.push_back("0123456789abcdef"[c & 15]); }
        else { r += "\\"; r.push_back('0' + (c >> 6)); r.push_back('0' + ((c >> 3) & 7)); r.push_back('0' + (c & 7)); }
    }
  }
  return r;
}
}  // namespace sx
__attribute__((weak)) from_chars_result from_chars(const char* a, const char* b, double& d, std::chars_format) { uint64_t u = 0; d = sx_strtod(a, b - a, &u); return {a + u, u ? std::errc() : std::errc::invalid_argument}; }
__attribute__((weak)) from_chars_result from_chars(const char* a, const char* b, float& d, std::chars_format) { uint64_t u = 0; d = (float)sx_strtod(a, b - a, &u); return {a + u, u ? std::errc() : std::errc::invalid_argument}; }
bool SimpleAtod(string_view s, double* out) { s = StripAsciiWhitespace(s); uint64_t u = 0; *out = sx_strtod(s.data(), s.size(), &u); return u == s.size() && u; }
bool SimpleAtof(string_view s, float* out) { double d; bool r = SimpleAtod(s, &d); *out = (float)d; return r; }
}  // namespace absl

// ------------------------------------------------------------------ cityhash
// Modelled as an injective function: every distinct (bytes, seed) gets its own value.
namespace third_party_cityhash {
namespace {
struct Entry { std::string b; uint64_t s0, s1; };
absl::NoDestructor<std::vector<Entry>> g_tab;
uint64_t Intern(const char* s, size_t n, uint64_t s0, uint64_t s1) {
  auto& t = *g_tab;
  for (size_t i = 0; i < t.size(); i++)
    if (t[i].b.size() == n && t[i].s0 == s0 && t[i].s1 == s1 && memcmp(t[i].b.data(), s, n) == 0) return i;
  t.push_back({std::string(s, n), s0, s1});
  return t.size() - 1;
}
// spread the identifiers over the word; a bijection
uint64_t Spread(uint64_t i) { return (i + 1) * 0x9E3779B97F4A7C15ull; }
}  // namespace
uint64_t CityHash64WithSeed(const char* s, size_t n, uint64_t seed) { return Spread(Intern(s, n, seed, 64)); }
std::pair<uint64_t, uint64_t> CityHash128WithSeed(const char* s, size_t n, std::pair<uint64_t, uint64_t> seed) { uint64_t i = Intern(s, n, seed.first, seed.second); return {Spread(i), Spread(i ^ 0x5555)}; }
}
namespace utf8_range {
bool IsStructurallyValid(absl::string_view s) {
  size_t i = 0, n = s.size(); auto u = [&](size_t k) { return (unsigned char)s[k]; };
  while (i < n) {
    unsigned c = u(i);
    if (c < 0x80) { i++; continue; }
    if (c < 0xC2) return false;
    if (c < 0xE0) { if (i + 1 >= n || (u(i + 1) & 0xC0) != 0x80) return false; i += 2; continue; }
    if (c < 0xF0) { if (i + 2 >= n) return false; unsigned d = u(i + 1); if ((d & 0xC0) != 0x80 || (u(i + 2) & 0xC0) != 0x80 || (c == 0xE0 && d < 0xA0) || (c == 0xED && d >= 0xA0)) return false; i += 3; continue; }
    if (c < 0xF5) { if (i + 3 >= n) return false; unsigned d = u(i + 1); if ((d & 0xC0) != 0x80 || (u(i + 2) & 0xC0) != 0x80 || (u(i + 3) & 0xC0) != 0x80 || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d >= 0x90)) return false; i += 4; continue; }
    return false;
  }
  return true;
}
}
#ifndef SX_NATIVE
// ------------------------------------------------------------------ libstdc++
#define private public
#include <thread>
#include <memory_resource>
#undef private
extern "C" { char __libc_single_threaded = 0; void* __dso_handle = nullptr; }
namespace std {
using B = _Rb_tree_node_base;
static B* inc(B* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  B* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y; return x;
}
static B* dec(B* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { B* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  B* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
B* _Rb_tree_increment(B* x) throw() { return inc(x); }
const B* _Rb_tree_increment(const B* x) throw() { return inc(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() { return dec(x); }
const B* _Rb_tree_decrement(const B* x) throw() { return dec(const_cast<B*>(x)); }
// Unbalanced insertion and removal: same ordering contract, balance is not observable.
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
B* _Rb_tree_rebalance_for_erase(B* const z, B& h) throw() {
  auto repl = [&](B* u, B* v) { if (u->_M_parent == &h && h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    B* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = h._M_right = &h; }
  else { B* l = h._M_parent; while (l->_M_left) l = l->_M_left; h._M_left = l; B* r = h._M_parent; while (r->_M_right) r = r->_M_right; h._M_right = r; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); if (x._M_next == &y) x._M_next = x._M_prev = &x; else { x._M_next->_M_prev = x._M_prev->_M_next = &x; } if (y._M_next == &x) y._M_next = y._M_prev = &y; else { y._M_next->_M_prev = y._M_prev->_M_next = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = p * 2 + 5; _M_next_resize = p; return p; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ins) const { if (ne + ins > _M_next_resize) { return {true, _M_next_bkt((ne + ins) * 2)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { auto* c = (const unsigned char*)p; size_t h = seed ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
static void* thr_run(void* p) { std::unique_ptr<thread::_State> s((thread::_State*)p); s->_M_run(); return nullptr; }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { pthread_t t; pthread_create(&t, nullptr, thr_run, s.release()); _M_id = id(t); }
void thread::join() { if (_M_id == id()) ::sx_fail("std::thread::join of a non-joinable thread"); pthread_join(*(pthread_t*)&_M_id, nullptr); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
namespace pmr {
memory_resource::~memory_resource() = default;
namespace {
struct NewDelete : memory_resource {
  void* do_allocate(size_t n, size_t) override { return ::operator new(n); }
  void do_deallocate(void* p, size_t, size_t) override { ::operator delete(p); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
alignas(NewDelete) char new_delete[sizeof(NewDelete)];
}
memory_resource* new_delete_resource() noexcept { static auto* r = new (new_delete) NewDelete; return r; }
memory_resource* get_default_resource() noexcept { return new_delete_resource(); }
// one chunk per buffer, kept in a list
class monotonic_buffer_resource::_Chunk { public: _Chunk* next; size_t size; };
monotonic_buffer_resource::~monotonic_buffer_resource() { release(); }
void monotonic_buffer_resource::_M_new_buffer(size_t n, size_t) {
  size_t size = n > _M_next_bufsiz ? n : _M_next_bufsiz;
  auto* c = (_Chunk*)_M_upstream->allocate(size + sizeof(_Chunk));
  c->next = _M_head; c->size = size; _M_head = c;
  _M_current_buf = c + 1; _M_avail = size; _M_next_bufsiz = _M_next_bufsiz * 3 / 2;
}
void monotonic_buffer_resource::_M_release_buffers() noexcept {
  while (_M_head) { _Chunk* c = _M_head; _M_head = c->next; _M_upstream->deallocate(c, c->size + sizeof(_Chunk)); }
}
}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
}
#endif
