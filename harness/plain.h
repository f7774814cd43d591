// Plain (trivially copyable) elements in real memory, with larger concrete extents: the part of a claim that an implementation may
// serve through a special path (block copies, block fills, unrolled loops, byte comparisons).
#pragma once
#include "common.h"
#include <cstdlib>
#include <cstring>
#include <new>
struct P3 { char a, b, c; };
struct P16 { i64 a, b; };
struct Dm { int a = 7; short b = -3; }; // trivially copyable, but default construction does something
inline bool operator==(const Dm& x, const Dm& y) { return x.a == y.a && x.b == y.b; }
inline bool operator!=(const Dm& x, const Dm& y) { return !(x == y); }
inline bool operator==(const P3& x, const P3& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
inline bool operator!=(const P3& x, const P3& y) { return !(x == y); }
inline bool operator==(const P16& x, const P16& y) { return x.a == y.a && x.b == y.b; }
inline bool operator!=(const P16& x, const P16& y) { return !(x == y); }

// arbitrary value of a plain type
template <class T> struct any_ { static T get(const char* n) { return (T)vs_sym(n, (i64)std::numeric_limits<T>::min(), (i64)std::numeric_limits<T>::max()); } };
template <> struct any_<P3> { static P3 get(const char* n) { return P3{any_<char>::get(n), any_<char>::get(n), any_<char>::get(n)}; } };
template <> struct any_<P16> { static P16 get(const char* n) { return P16{any_<i64>::get(n), any_<i64>::get(n)}; } };
template <> struct any_<Dm> { static Dm get(const char* n) { Dm d; d.a = any_<int>::get(n); d.b = any_<short>::get(n); return d; } };
template <> struct any_<uint64_t> { static uint64_t get(const char* n) { return (uint64_t)vs_sym(n, INT64_MIN, INT64_MAX); } };
// the bits are arbitrary within the finite small numbers: kept as an opaque 64-bit word
template <> struct any_<double> {
  static double get(const char* n) { i64 v = vs_sym(n, INT64_MIN, INT64_MAX); double d; std::memcpy(&d, &v, 8); return d; }
};
template <> struct any_<float> {
  static float get(const char* n) { int v = (int)vs_sym(n, INT32_MIN, INT32_MAX); float d; std::memcpy(&d, &v, 4); return d; }
};
// same bits
template <class T> bool bits(const T& x, const T& y) { return x == y; }
inline bool bits(const double& x, const double& y) { i64 a, b; std::memcpy(&a, &x, 8); std::memcpy(&b, &y, 8); return a == b; }
inline bool bits(const float& x, const float& y) { int a, b; std::memcpy(&a, &x, 4); std::memcpy(&b, &y, 4); return a == b; }

// A memory layout of a box: concrete strides.
enum Layout { DENSE, OUTER_DENSE, PADDED, NEG0, NEGLAST, INNER2, BCAST, LAST, LAST_PAD, LAST_PAD_IN, LAST_NEG, LAST_NEG_IN };
template <size_t R>
struct Lay {
  i64 str[R + 1];
  i64 lo, n; // flat offset of the base in the buffer, buffer elements
};
template <size_t R>
Lay<R> layout(int l, const i64* e) {
  Lay<R> r = {};
  i64 s = l == INNER2 ? 2 : 1;
  if (l >= LAST) { // the last dim is dense, the others follow in order
    if (R > 0) { r.str[R - 1] = 1; s = e[R - 1]; }
    for (size_t k = 0; k + 1 < R; k++) {
      if (k == 0 ? l == LAST_PAD_IN || (R == 2 && l == LAST_PAD) : l == LAST_PAD) s += 1 + (i64)k;
      r.str[k] = s;
      s *= e[k];
    }
    if (l == LAST_NEG && R > 1) r.str[R - 2] = -r.str[R - 2];
    if (l == LAST_NEG_IN && R > 1) r.str[0] = -r.str[0];
  } else if (l == OUTER_DENSE) for (size_t k = R; k-- > 0;) { r.str[k] = s; s *= e[k]; }
  else for (size_t k = 0; k < R; k++) { r.str[k] = s; s *= e[k]; if (l == PADDED) s += 3; }
  if (R > 0) {
    if (l == NEG0) r.str[0] = -r.str[0];
    if (l == NEGLAST) r.str[R - 1] = -r.str[R - 1];
    if (l == BCAST) r.str[R - 1] = 0;
  }
  i64 lo = 0, hi = 0;
  for (size_t k = 0; k < R; k++) { i64 x = (e[k] - 1) * r.str[k]; if (x < 0) lo += x; else hi += x; }
  const i64 margin = 2;
  r.lo = margin - lo;
  r.n = hi - lo + 1 + 2 * margin;
  return r;
}
template <class T>
T* buffer(i64 n) { return (T*)std::malloc((size_t)n * sizeof(T)); }
template <class T>
T* any_buffer(i64 n, const char* name) {
  T* p = buffer<T>(n);
  for (i64 i = 0; i < n; i++) p[i] = any_<T>::get(name);
  return p;
}
template <class D>
D mkdimx(i64 m, i64 e, i64 s) { return D((index_t)m, (index_t)e, (index_t)s); }
template <class S> struct mkx_;
template <class... Ds>
struct mkx_<nda::shape<Ds...>> {
  template <size_t... Is>
  static nda::shape<Ds...> go(const i64* m, const i64* e, const i64* s, std::index_sequence<Is...>) {
    return nda::shape<Ds...>(std::tuple<Ds...>{mkdimx<Ds>(m[Is], e[Is], s[Is])...});
  }
};
template <class S>
S mkx(const i64* m, const i64* e, const i64* s) { return mkx_<S>::go(m, e, s, std::make_index_sequence<S::rank()>()); }
// calls f(position tuple as array) for every position of the box
template <size_t R, class F>
void each_pos(const i64* e, F f) {
  i64 p[R + 1] = {};
  for (size_t k = 0; k < R; k++) if (e[k] <= 0) return;
  for (;;) {
    f(p);
    size_t k = 0;
    while (k < R && ++p[k] == e[k]) p[k++] = 0;
    if (k == R) return;
  }
}
template <size_t R>
i64 dot(const i64* p, const i64* s) { i64 r = 0; for (size_t k = 0; k < R; k++) r += p[k] * s[k]; return r; }
// concrete extents of rank R, by case
template <size_t R> struct exts_;
template <> struct exts_<1> {
  static int n() { return VS_T(12, 18); }
  static void get(i64 c, i64* e) { static const i64 x[18] = {1, 2, 3, 4, 7, 8, 9, 16, 17, 33, 65, 130, 31, 32, 64, 127, 257, 520}; e[0] = x[c]; }
};
template <> struct exts_<2> {
  static int n() { return VS_T(8, 14); }
  static void get(i64 c, i64* e) {
    static const i64 x[14][2] = {{4, 3}, {8, 2}, {9, 4}, {16, 1}, {1, 17}, {17, 3}, {5, 20}, {33, 2}, {32, 4}, {3, 64}, {65, 2}, {16, 16}, {7, 33}, {130, 3}};
    e[0] = x[c][0]; e[1] = x[c][1];
  }
};
template <> struct exts_<3> {
  static int n() { return VS_T(5, 9); }
  static void get(i64 c, i64* e) {
    static const i64 x[9][3] = {{4, 4, 2}, {9, 2, 3}, {3, 5, 4}, {17, 1, 2}, {1, 8, 8}, {8, 8, 4}, {2, 2, 33}, {33, 3, 2}, {5, 9, 5}};
    for (int k = 0; k < 3; k++) e[k] = x[c][k];
  }
};
template <> struct exts_<5> {
  static int n() { return VS_T(3, 5); }
  static void get(i64 c, i64* e) {
    static const i64 x[5][5] = {{2, 2, 2, 2, 2}, {3, 1, 2, 1, 3}, {1, 2, 3, 2, 1}, {4, 2, 1, 3, 2}, {2, 3, 2, 3, 2}};
    for (int k = 0; k < 5; k++) e[k] = x[c][k];
  }
};
template <> struct exts_<6> {
  static int n() { return VS_T(2, 3); }
  static void get(i64 c, i64* e) {
    static const i64 x[3][6] = {{2, 1, 2, 1, 2, 3}, {1, 2, 2, 2, 1, 2}, {2, 2, 2, 2, 2, 2}};
    for (int k = 0; k < 6; k++) e[k] = x[c][k];
  }
};
template <size_t R>
void choose_exts(i64* e) { exts_<R>::get(vs_choose("extents", 0, exts_<R>::n() - 1), e); }
// rows of S with static stride 1 in the first dim only take these layouts
template <class S> int choose_layout(const char* n, bool bcast) {
  typedef typename std::tuple_element<S::rank() - 1, typename S::dims_type>::type Last;
  if (S::rank() > 1 && Last::Stride == 1) return (int)vs_choose(n, LAST, LAST_NEG_IN); // images and matrices
  return (int)vs_choose(n, 0, bcast ? BCAST : INNER2);
}
template <class S, size_t... Is>
bool fits_(const i64* s, std::index_sequence<Is...>) {
  bool ok = true;
  int x[] = {0, (ok = ok && (std::tuple_element<Is, typename S::dims_type>::type::Stride == dynamic || std::tuple_element<Is, typename S::dims_type>::type::Stride == s[Is]), 0)...};
  (void)x; (void)s;
  return ok;
}
// replaces m and e by the compile-time mins and extents of S, where it has any
template <class S, size_t... Is>
void statics_(i64* m, i64* e, std::index_sequence<Is...>) {
  const i64 mm[] = {(i64)std::tuple_element<Is, typename S::dims_type>::type::Min..., 0}, ee[] = {(i64)std::tuple_element<Is, typename S::dims_type>::type::Extent..., 0};
  for (size_t k = 0; k < S::rank(); k++) {
    if (m && mm[k] != dynamic) m[k] = mm[k];
    if (e && ee[k] != dynamic) e[k] = ee[k];
  }
}
template <class S> void statics(i64* m, i64* e) { statics_<S>(m, e, std::make_index_sequence<S::rank()>()); }
template <class S> bool fits(const i64* s) { return fits_<S>(s, std::make_index_sequence<S::rank()>()); }
