// BOUND: plain elements in real memory with arbitrary contents, one differing element at every position: ranks 1-3, 5, concrete extents up to 130 (thorough 520), dense, transposed, padded, reversed, strided and broadcast layouts; padding differs
// BOUND: float and double elements from {0, -0, 1, -1, inf, NaN}: up to 9 elements, the special pair at one position
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
#include <array/image.h>
#include <array/matrix.h>
#include <limits>
using namespace nda;

template <class T> bool differ(const T& a, const T& b) { return a != b; }

template <class T, class SA, class SB>
void t(bool same, bool few = false) {
  constexpr size_t R = SA::rank();
  vs_opt("forkselect", 1);
  i64 e[R + 1] = {}, m[R + 1] = {}, se[R + 1] = {};
  choose_exts<R>(e);
  statics<SA>(nullptr, e);
  statics<SB>(nullptr, e);
  int la = choose_layout<SA>("layout a", !same), lb = same ? la : choose_layout<SB>("layout b", false);
  if (few) ASSUME(la == lb || la == DENSE || lb == DENSE);
  for (size_t k = 0; k < R; k++) { m[k] = vs_sym("min", -P2(16), P2(16)); se[k] = e[k]; }
  statics<SA>(m, nullptr);
  statics<SB>(m, nullptr);
  Lay<R> a = layout<R>(la, se), b = layout<R>(lb, e);
  ASSUME(fits<SA>(a.str) && fits<SB>(b.str));
  T* ap = any_buffer<T>(a.n, "a");
  T* bp = any_buffer<T>(b.n, "b");
  each_pos<R>(e, [&](const i64* p) { bp[b.lo + dot<R>(p, b.str)] = ap[a.lo + dot<R>(p, a.str)]; });
  // the element at one position, at one end or anywhere else, is arbitrary
  i64 n = 1, pos = 0, at = -1, ai = 0;
  for (size_t k = 0; k < R; k++) n *= e[k];
  i64 w = vs_choose("where", 0, 5), want = w == 0 ? -1 : w == 1 ? 0 : w == 2 ? n - 1 : w == 3 ? n / 2 : w == 4 ? n - 2 : (n * 3) / 4;
  each_pos<R>(e, [&](const i64* p) { if (pos++ == want) { at = b.lo + dot<R>(p, b.str); ai = a.lo + dot<R>(p, a.str); } });
  bool same_values = true;
  if (at >= 0) {
    T x = any_<T>::get("other");
    bp[at] = x;
    same_values = !differ(x, ap[ai]);
  }
  array_ref<T, SA> ar(ap + a.lo, mkx<SA>(m, e, a.str));
  array_ref<T, SB> br(bp + b.lo, mkx<SB>(m, e, b.str));
  i64 how = vs_choose("how", 0, 1);
  bool q = how ? equal(ar, br) : equal(br.cref(), ar);
  CHECKM(q == same_values, "equal exactly when every element is equal");
  if (a.n > 8) vs_reach("compared");
  std::free(ap); std::free(bp);
}
template <class T, class S>
void t_op() {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  i64 e[R + 1] = {}, m[R + 1] = {};
  choose_exts<R>(e);
  int l = choose_layout<S>("layout", false);
  for (size_t k = 0; k < R; k++) m[k] = vs_sym("min", -P2(16), P2(16));
  Lay<R> s = layout<R>(l, e);
  ASSUME(fits<S>(s.str));
  T* ap = any_buffer<T>(s.n, "a");
  T* bp = any_buffer<T>(s.n, "b");
  each_pos<R>(e, [&](const i64* p) { i64 o = s.lo + dot<R>(p, s.str); bp[o] = ap[o]; });
  i64 w = vs_choose("where", 0, 3), n = 1, pos = 0, at = -1;
  for (size_t k = 0; k < R; k++) n *= e[k];
  i64 want = w == 0 ? -1 : w == 1 ? 0 : w == 2 ? n - 1 : n / 2;
  each_pos<R>(e, [&](const i64* p) { if (pos++ == want) at = s.lo + dot<R>(p, s.str); });
  bool same_values = true;
  if (at >= 0) {
    bp[at] = any_<T>::get("other");
    same_values = !differ(bp[at], ap[at]);
  }
  array_ref<T, S> ar(ap + s.lo, mkx<S>(m, e, s.str)), br(bp + s.lo, mkx<S>(m, e, s.str));
  CHECKM((ar == br) == same_values, "== is content equality");
  CHECKM((br.cref() != ar.cref()) == !same_values, "!= is its negation");
  vs_reach("op");
  std::free(ap); std::free(bp);
}
VS_HARNESS(P12_pl_c1) { t<char, shape_of_rank<1>, shape_of_rank<1>>(false, true); }
VS_HARNESS(P12_pl_i1) { t<int, dense_shape<1>, dense_shape<1>>(false); }
VS_HARNESS(P12_pl_s2) { t<short, shape_of_rank<2>, shape_of_rank<2>>(false, true); }
VS_HARNESS(P12_pl_i2) { t<int, dense_shape<2>, dense_shape<2>>(false); }
VS_HARNESS(P12_pl_t3) { t<P3, shape_of_rank<3>, shape_of_rank<3>>(false, true); }
VS_HARNESS(P12_pl_p2) { t<P16, shape_of_rank<2>, dense_shape<2>>(false); }
VS_HARNESS(P12_pl_i5) { t<int, shape_of_rank<5>, shape_of_rank<5>>(false, true); }
VS_HARNESS(P12_pl_opc1) { t_op<char, dense_shape<1>>(); }
VS_HARNESS(P12_pl_opi2) { t_op<int, shape_of_rank<2>>(); }
VS_HARNESS(P12_pl_opt3) { t_op<P3, dense_shape<3>>(); }

// floating-point equality is not equality of bits
template <class T>
T special(i64 k) {
  const T v[6] = {(T)0, -(T)0, (T)1, (T)-1, std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()};
  return v[k];
}
template <class T, class S>
void t_float() {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  T av[16], bv[16];
  i64 x = vs_choose("x", 0, 5), y = vs_choose("y", 0, 5), rest = vs_choose("rest", 0, 4), n = R == 1 ? 9 : 6, at = vs_choose("at", 0, 8);
  ASSUME(at < n);
  for (int i = 0; i < 16; i++) av[i] = bv[i] = special<T>(rest);
  av[at] = special<T>(x);
  bv[at] = special<T>(y);
  bool want = (x == y && x != 5) || (x <= 1 && y <= 1);
  i64 m[3] = {vs_sym("min", -P2(16), P2(16)), 3, 4}, e[3] = {R == 1 ? n : 3, 2, 1}, s[3] = {1, 3, 6};
  array_ref<T, S> a(av, mkx<S>(m, e, s)), b(bv, mkx<S>(m, e, s));
  CHECKM(equal(a, b) == want, "equal compares values");
  CHECKM((a == b) == want && (a != b) == !want, "== compares values");
  array<T, S> c(mkx<S>(m, e, s)), d(mkx<S>(m, e, s));
  copy(a, c);
  copy(b, d);
  CHECKM(equal(c, d) == want && (c == d) == want && (c != d) == !want, "arrays compare values");
  if (x == 5) CHECKM(!(a == a) && a != a && !equal(c, c), "a NaN is not equal to itself");
  vs_reach("float");
}
VS_HARNESS(P12_pl_f1) { t_float<float, dense_shape<1>>(); }
VS_HARNESS(P12_pl_d1) { t_float<double, shape_of_rank<1>>(); }
VS_HARNESS(P12_pl_f2) { t_float<float, dense_shape<2>>(); }
VS_HARNESS(P12_pl_f3) { t_float<float, shape_of_rank<3>>(); }
VS_HARNESS(P12_pl_chs) { t<char, chunky_image_shape<>, chunky_image_shape<>>(true); }
VS_HARNESS(P12_pl_ch3) { t<int, chunky_image_shape<3>, chunky_image_shape<3>>(false); }
VS_HARNESS(P12_pl_chpl) { t<short, chunky_image_shape<3>, planar_image_shape>(false, true); }
VS_HARNESS(P12_pl_mm) { t<int, matrix_shape<>, matrix_shape<>>(false); }
