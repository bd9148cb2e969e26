// Specification intrinsics of the contract harnesses.  The same source is (1) compiled to LLVM IR and handed to the VC
// generator, where vs_assume is a requires clause, vs_assert a named proof obligation and vs_<type>() an arbitrary
// value, and (2) compiled natively, where a solver counterexample is replayed against the real code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <utility>
#include <vector>
#include <type_traits>
extern "C" {
bool vs_bool(const char *); std::int8_t vs_i8(const char *); std::uint8_t vs_u8(const char *); std::int16_t vs_i16(const char*); std::uint16_t vs_u16(const char*);
std::int32_t vs_i32(const char *); std::uint32_t vs_u32(const char *); std::int64_t vs_i64(const char *); std::uint64_t vs_u64(const char *);
float vs_f32(const char *); double vs_f64(const char *);
double *vs_arr_f64(const char *, std::size_t n); float *vs_arr_f32(const char *, std::size_t n); std::int32_t *vs_arr_i32(const char *, std::size_t n); std::int64_t *vs_arr_i64(const char *, std::size_t n);
std::uint64_t vs_len(const char *);
std::uint64_t vs_choice(const char *, std::uint64_t n);
void vs_assume(bool); void vs_assert(bool, const char *label); void vs_cover(const char *label);
bool vs_forall_impl(std::size_t lo, std::size_t hi, bool (*)(void *, std::size_t), void *);
bool vs_exists_impl(std::size_t lo, std::size_t hi, bool (*)(void *, std::size_t), void *);
std::int32_t vs_uf_i32(std::int32_t, std::int32_t); bool vs_is_symbolic(); void vs_block(); 
void vs_dbg_f64(double); void vs_dbg_u64(std::uint64_t);
}
template <typename F> inline bool vs_forall(std::size_t lo, std::size_t hi, F f) {
  return vs_forall_impl(lo, hi, [](void *c, std::size_t i) -> bool { return (*static_cast<F *>(c))(i); }, &f);
}
template <typename F> inline bool vs_exists(std::size_t lo, std::size_t hi, F f) {
  return vs_exists_impl(lo, hi, [](void *c, std::size_t i) -> bool { return (*static_cast<F *>(c))(i); }, &f);
}
// any double; the random native runs map values outside of [lo,hi] into it (counterexamples are taken as they are)
inline double vs_ranged(const char *n, double lo, double hi) {
  double x = vs_f64(n);
  if (vs_is_symbolic() || (x >= lo && x <= hi)) return x;
  union { double d; std::uint64_t u; } b; b.d = x;
  return lo + (hi - lo) * (double((b.u * 0x9e3779b97f4a7c15ull) >> 40) / 16777216.);
}
// runs f, returns whether it threw
template <typename F> inline bool vs_throws(F f) {
  try { f(); } catch (...) { return true; }
  return false;
}
// a std::vector of symbolic length with arbitrary content
template <typename T> inline T *vs_arr(const char *n, std::size_t k);
template <> inline double *vs_arr<double>(const char *n, std::size_t k) { return vs_arr_f64(n, k); }
template <> inline float *vs_arr<float>(const char *n, std::size_t k) { return vs_arr_f32(n, k); }
template <> inline std::int32_t *vs_arr<std::int32_t>(const char *n, std::size_t k) { return vs_arr_i32(n, k); }
template <> inline std::int64_t *vs_arr<std::int64_t>(const char *n, std::size_t k) { return vs_arr_i64(n, k); }
template <typename T> struct vs_vec3 { T *b, *e, *c; };
template <typename T> inline void vs_vector(std::vector<T> &v, const char *n, std::size_t k) {
  T *p = vs_arr<T>(n, k); auto *r = reinterpret_cast<vs_vec3<T> *>(&v); r->b = p; r->e = p + k; r->c = p + k;
}
inline bool vs_same(double a, double b) { return a == b || (a != a && b != b); }
#define VS_ENTRY(n) extern "C" void vs_entry_##n()
#define VS_NOINLINE __attribute__((noinline))
