// BOUND: ranks 0-4; extents 0..3 case split (fully symbolic up to 2^6 for rank 2), mins and the forgotten run-time strides symbolic (|min| <= 2^40, |stride| <= 2^20)
// BOUND: the compactness claim covers shape types with no compile-time stride or one compile-time stride of 1; otherwise the new strides do not overlap the compile-time ones
// VSCONFIG: -
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
#ifdef NDARRAY_INT_INDICES
static const i64 MM = P2(12), SS = P2(9), EE = P2(6);
#else
static const i64 MM = P2(40), SS = P2(20), EE = P2(6);
#endif

template <class S> struct kinds;
template <class... Ds>
struct kinds<shape<Ds...>> {
  static constexpr size_t R = sizeof...(Ds);
  static void strides(i64* s) { i64 v[] = {0, (i64)Ds::Stride...}; for (size_t i = 0; i < R; i++) s[i] = v[i + 1]; }
  static void mins(i64* s) { i64 v[] = {0, (i64)Ds::Min...}; for (size_t i = 0; i < R; i++) s[i] = v[i + 1]; }
  static void extents(i64* s) { i64 v[] = {0, (i64)Ds::Extent...}; for (size_t i = 0; i < R; i++) s[i] = v[i + 1]; }
};

// the strides (concrete values) make a bijection onto 0..n-1
inline void bijection(const RD* q, size_t R) {
  // sort the dims of extent > 1 by stride; each must be the product of the previous extents
  bool used[8] = {};
  i64 want = 1;
  for (;;) {
    size_t best = 99;
    for (size_t i = 0; i < R; i++)
      if (!used[i] && q[i].ext > 1 && (best == 99 || q[i].str < q[best].str)) best = i;
    if (best == 99) break;
    CHECKM(q[best].str == want, "strides of the compact shape leave no gap and no overlap");
    want *= q[best].ext;
    used[best] = true;
  }
}

template <class S>
void t_compact(i64 elo, i64 ehi) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {}, q[R + 1] = {};
  vs_opt("forkselect", 1);
  S s = mkc<S>(r, Rng{MM, elo, ehi, -SS, SS});
  auto c = make_compact(s);
  rd(c, q);
  i64 st[R + 1] = {}, ct[R + 1] = {};
  kinds<S>::strides(st);
  kinds<decltype(c)>::strides(ct);
  CHECKM(c.is_resolved(), "resolved");
  size_t nstat = 0, dense = 99;
  for (size_t i = 0; i < R; i++) {
    CHECKM(q[i].min == r[i].min && q[i].ext == r[i].ext, "mins and extents are kept");
    if (st[i] != (i64)dynamic) {
      nstat++;
      if (st[i] == 1) dense = i;
      CHECKM(ct[i] == st[i] && q[i].str == st[i], "compile-time strides are kept");
    }
    CHECKM(ct[i] == (i64)dynamic || ct[i] == q[i].str, "compile-time stride is the run-time one");
  }
  i64 n = prod(r, R);
  if (n > 0 && (nstat == 0 || (nstat == 1 && dense != 99))) {
    bijection(q, R);
    CHECKM(c.is_compact() && c.is_one_to_one() && (i64)c.flat_extent() == n && c.flat_min() == 0, "compact and one to one");
    if (R && nstat == 0) CHECKM(ct[0] == 1 || q[0].str == 1 || r[0].ext == 1, "innermost dimension first");
    vs_reach("compact");
  }
  // the strides that are filled in overlap neither each other nor the compile-time ones
  auto apart = [&](size_t i, size_t j) {
    if (q[i].ext <= 1 || q[j].ext <= 1) return true;
    i64 a = q[i].str < 0 ? -q[i].str : q[i].str, b = q[j].str < 0 ? -q[j].str : q[j].str;
    return a * q[i].ext <= b || b * q[j].ext <= a;
  };
  if (n > 0) {
    bool ok = true;
    for (size_t i = 0; i < R; i++) {
      ok = ok && (st[i] != 0 || q[i].ext <= 1);
      for (size_t j = i + 1; j < R; j++) ok = ok && (st[i] == (i64)dynamic || st[j] == (i64)dynamic || apart(i, j));
    }
    if (ok) {
      for (size_t i = 0; i < R; i++)
        for (size_t j = i + 1; j < R; j++) CHECKM(apart(i, j), "strides that are filled in do not overlap the others");
    }
  }
  // two shapes that differ only in run-time strides become the same
  RD r2[R + 1] = {};
  for (size_t i = 0; i < R; i++) { r2[i] = r[i]; }
  auto b = s.bounds();
  RD rb[R + 1] = {};
  rd(b, rb);
  kinds<decltype(b)>::strides(ct);
  i64 cm[R + 1] = {}, ce[R + 1] = {};
  kinds<decltype(b)>::mins(cm);
  kinds<decltype(b)>::extents(ce);
  for (size_t i = 0; i < R; i++) {
    CHECKM(rb[i].min == r[i].min && rb[i].ext == r[i].ext, "bounds keep mins and extents");
    CHECKM(ct[i] == (i64)dynamic && rb[i].str == (i64)unresolved, "bounds forget strides");
  }
  vs_trace("size", n);
}
VS_HARNESS(P06_r0) { t_compact<shape<>>(0, 0); }
VS_HARNESS(P06_r1) { t_compact<shape_of_rank<1>>(0, 3); }
VS_HARNESS(P06_r2) { t_compact<shape_of_rank<2>>(0, 3); }
VS_HARNESS(P06_r3) { t_compact<shape_of_rank<3>>(0, 3); }
VS_HARNESS(P06_r4) { t_compact<shape_of_rank<4>>(VS_T(1, 0), VS_T(2, 3)); }
VS_HARNESS(P06_d1) { t_compact<dense_shape<1>>(0, 3); }
VS_HARNESS(P06_d2) { t_compact<dense_shape<2>>(0, 3); }
VS_HARNESS(P06_d3) { t_compact<dense_shape<3>>(0, 3); }
VS_HARNESS(P06_last2) { t_compact<shape<dim<>, dense_dim<>>>(0, 3); }
VS_HARNESS(P06_last3) { t_compact<shape<dim<>, dim<>, dense_dim<>>>(0, 3); }
VS_HARNESS(P06_mid3) { t_compact<shape<dim<>, dense_dim<>, dim<>>>(0, 3); }
VS_HARNESS(P06_sd_d) { t_compact<shape<dense_dim<0, 3>, dim<0, 4>>>(0, 3); }
VS_HARNESS(P06_sd_x) { t_compact<shape<dense_dim<dynamic, 3>, dim<>>>(0, 3); }
VS_HARNESS(P06_sd_xx) { t_compact<shape<dense_dim<dynamic, 3>, dim<>, dim<dynamic, 2>>>(0, 3); }
VS_HARNESS(P06_x_sd) { t_compact<shape<dim<>, dense_dim<2, 3>>>(0, 3); }
VS_HARNESS(P06_s_sd) { t_compact<shape<dim<0, 4>, dense_dim<0, 3>>>(0, 3); }
VS_HARNESS(P06_s_sd_x) { t_compact<shape<dim<1, 2>, dense_dim<1, 3>, dim<>>>(0, 3); }
VS_HARNESS(P06_x_sd_s) { t_compact<shape<dim<>, dense_dim<1, 3>, dim<dynamic, 2>>>(0, 3); }
VS_HARNESS(P06_s_d_s) { t_compact<shape<dim<0, 2>, dense_dim<>, dim<0, 3>>>(0, 3); }
VS_HARNESS(P06_s_s) { t_compact<shape<dim<0, 3>, dim<0, 2>>>(0, 3); }
VS_HARNESS(P06_s_x_s) { t_compact<shape<dim<0, 3>, dim<>, dim<1, 2>>>(0, 3); }
VS_HARNESS(P06_x_s_x) { t_compact<shape<dim<>, dim<0, 3>, dim<>>>(0, 3); }
VS_HARNESS(P06_sd1) { t_compact<shape<dense_dim<0, 1>, dim<>>>(0, 3); }
VS_HARNESS(P06_sd0) { t_compact<shape<dense_dim<0, 0>, dim<>>>(0, 3); }
VS_HARNESS(P06_4) { t_compact<shape<dim<>, dim<0, 2>, dense_dim<0, 3>, dim<>>>(0, 2); }
VS_HARNESS(P06_4b) { t_compact<shape<dense_dim<0, 2>, dim<0, 2>, dim<0, 3>, dim<>>>(0, 3); }
// larger compile-time extents
VS_HARNESS(P06_big1) { t_compact<shape<dim<>, dense_dim<0, 11>>>(0, 3); }
VS_HARNESS(P06_big2) { t_compact<shape<dense_dim<dynamic, 9>, dim<>>>(0, 3); }
VS_HARNESS(P06_big3) { t_compact<shape<dim<>, dense_dim<-5, 64>, dim<>>>(0, 3); }
VS_HARNESS(P06_big4) { t_compact<shape<dim<dynamic, 1023>, dim<0, 17>>>(0, 3); }
VS_HARNESS(P06_big5) { t_compact<shape<dim<0, 100>, dim<>, dim<3, 7>>>(0, 3); }
VS_HARNESS(P06_big6) { t_compact<shape<dim<0, 5>, dense_dim<0, 13>, dim<0, 6>, dim<>>>(0, 3); }
#ifndef NDARRAY_INT_INDICES
VS_HARNESS(P06_big7) { t_compact<shape<dense_dim<0, 70000>, dim<0, 70000>, dim<>>>(0, 3); }
#endif
// shapes with other compile-time strides: only bounds, kept strides and resolvedness are claimed
VS_HARNESS(P06_st1) { t_compact<shape<dim<>, strided_dim<6>>>(0, 3); }
VS_HARNESS(P06_st2) { t_compact<shape<strided_dim<-3>, dim<>, dense_dim<>>>(0, 2); }
VS_HARNESS(P06_st3) { t_compact<shape<strided_dim<4>, dense_dim<0, 4>, dim<>>>(0, 2); }
VS_HARNESS(P06_st4) { t_compact<shape<strided_dim<2>, dim<>, dense_dim<0, 2>>>(0, 3); }
VS_HARNESS(P06_st5) { t_compact<shape<dim<>, strided_dim<12>, dense_dim<0, 3>>>(0, 3); }
VS_HARNESS(P06_st6) { t_compact<shape<strided_dim<-2>, dim<>, dense_dim<0, 2>>>(0, 3); }
VS_HARNESS(P06_st7) { t_compact<shape<dim<>, dense_dim<dynamic, 3>, strided_dim<-3>, dim<0, 2>>>(0, 3); }
VS_HARNESS(P06_st8) { t_compact<shape<strided_dim<2>, dim<>, dim<>>>(0, 3); }
VS_HARNESS(P06_st9) { t_compact<shape<dim<0, 3>, strided_dim<3>, dense_dim<>>>(0, 3); }
VS_HARNESS(P06_st10) { t_compact<shape<strided_dim<-1>, dim<>, dim<0, 2>>>(0, 3); }
VS_HARNESS(P06_bc) { t_compact<shape<broadcast_dim<>, dim<>>>(0, 2); }

// symbolic extents
template <class S>
void t_sym(size_t dense) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {}, q[R + 1] = {};
  S s = mk<S>(r, Rng{MM, 1, EE, -SS, SS});
  auto c = make_compact(s);
  rd(c, q);
  i64 n = prod(r, R);
  for (size_t i = 0; i < R; i++) CHECKM(q[i].min == r[i].min && q[i].ext == r[i].ext, "mins and extents are kept");
  CHECKM(q[dense].str == 1, "dense dimension");
  CHECKM((i64)c.flat_extent() == n, "compact");
  if (R == 2) CHECKM(q[1 - dense].str == r[dense].ext, "next stride");
  vs_reach("sym");
}
VS_HARNESS(P06_sym1) { t_sym<shape_of_rank<1>>(0); }
VS_HARNESS(P06_sym2) { t_sym<shape<dense_dim<>, dim<>>>(0); }
VS_HARNESS(P06_sym2b) { t_sym<shape<dim<>, dense_dim<>>>(1); }
VS_HARNESS(P06_sym2c) { t_sym<shape<dim<>, dense_dim<1, 5>>>(1); }

// fixed dense shapes and default dense shapes
template <class S>
void t_fixed(const i64* ext) {
  constexpr size_t R = S::rank();
  i64 cm[R + 1] = {}, ce[R + 1] = {}, cs[R + 1] = {};
  kinds<S>::mins(cm);
  kinds<S>::extents(ce);
  kinds<S>::strides(cs);
  i64 want = 1;
  S s;
  RD q[R + 1] = {};
  rd(s, q);
  i64 v[R + 1] = {}, off_ = 0;
  for (size_t i = 0; i < R; i++) {
    CHECKM(cm[i] == 0 && ce[i] == ext[i] && cs[i] == want, "fixed_dense_shape compile-time dims");
    CHECKM(q[i].min == 0 && q[i].ext == ext[i] && q[i].str == want, "fixed_dense_shape run-time dims");
    v[i] = vs_sym("i", 0, ext[i] - 1);
    off_ += v[i] * want;
    want *= ext[i];
  }
  CHECKM((i64)s[tup<R>(v)] == off_, "flat offset");
  CHECKM((i64)s.size() == want && s.is_compact() && s.is_one_to_one(), "compact");
  array<int, S> a;
  CHECKM((i64)a.size() == want && a.base() + off_ == &a[tup<R>(v)], "array of fixed_dense_shape");
  vs_reach("fixed");
}
VS_HARNESS(P06_fixed1) { i64 e[] = {5}; t_fixed<fixed_dense_shape<5>>(e); }
VS_HARNESS(P06_fixed2) { i64 e[] = {5, 3}; t_fixed<fixed_dense_shape<5, 3>>(e); }
VS_HARNESS(P06_fixed3) { i64 e[] = {2, 3, 4}; t_fixed<fixed_dense_shape<2, 3, 4>>(e); }
VS_HARNESS(P06_fixed4) { i64 e[] = {1, 2, 1, 3}; t_fixed<fixed_dense_shape<1, 2, 1, 3>>(e); }

VS_HARNESS(P06_fixed5) { i64 e[] = {11, 9, 17}; t_fixed<fixed_dense_shape<11, 9, 17>>(e); }
VS_HARNESS(P06_fixed6) { i64 e[] = {100, 1, 33}; t_fixed<fixed_dense_shape<100, 1, 33>>(e); }

template <size_t R>
void t_dense(i64 emax) {
  RD r[R + 1] = {}, q[R + 1] = {};
  static_assert(dense_shape<R>::rank() == R, "");
  vs_opt("forkselect", 1);
  i64 st[R + 1] = {};
  kinds<dense_shape<R>>::strides(st);
  for (size_t i = 0; i < R; i++) CHECKM(st[i] == (i == 0 ? 1 : (i64)dynamic), "dense_shape strides");
  dense_shape<R> s = mkc<dense_shape<R>>(r, Rng{MM, 0, emax, unresolved, unresolved});
  dense_array<int, R> a(s, 0);
  rd(a.shape(), q);
  i64 n = 1;
  for (size_t i = 0; i < R; i++) {
    CHECKM(q[i].min == r[i].min && q[i].ext == r[i].ext, "bounds");
    if (prod(r, R) > 0) CHECKM(r[i].ext == 1 || q[i].str == n, "dense strides");
    n *= r[i].ext;
  }
  auto b = a.shape().bounds();
  RD rb[R + 1] = {};
  rd(b, rb);
  for (size_t i = 0; i < R; i++) CHECKM(rb[i].min == r[i].min && rb[i].ext == r[i].ext, "bounds()");
  CHECKM((i64)a.size() == n, "size");
  vs_reach("dense");
}
VS_HARNESS(P06_dense1) { t_dense<1>(3); }
VS_HARNESS(P06_dense2) { t_dense<2>(3); }
VS_HARNESS(P06_dense3) { t_dense<3>(2); }
VS_HARNESS(P06_dense4) { t_dense<4>(2); }

// every shape type of rank 2 (thorough: and 3) over these dims
template <int K> struct knd;
template <> struct knd<0> { using t = dim<>; };
template <> struct knd<1> { using t = dense_dim<0, 2>; };
template <> struct knd<2> { using t = strided_dim<-3>; };
template <> struct knd<3> { using t = dim<dynamic, 3>; };
template <> struct knd<4> { using t = strided_dim<2>; };
template <> struct knd<5> { using t = dense_dim<>; };
template <> struct knd<6> { using t = dim<0, 2, 6>; };
template <> struct knd<7> { using t = dim<dynamic, 3, -1>; };
template <> struct knd<8> { using t = broadcast_dim<>; };
template <> struct knd<9> { using t = dim<-4, 2>; };
template <int N> struct sweep {
  template <class... Ds> struct at {
    template <int K> static void one() { t_compact<shape<Ds..., typename knd<K>::t>>(1, 2); }
    template <int... Ks> static void last(std::integer_sequence<int, Ks...>) {
      i64 k = vs_choose("last", 0, N - 1);
      int u[] = {(k == Ks ? (one<Ks>(), 0) : 0)...};
      (void)u;
    }
    template <int K> static void deep() { at<Ds..., typename knd<K>::t>::last(std::make_integer_sequence<int, N>()); }
    template <int... Ks> static void first(std::integer_sequence<int, Ks...>) {
      i64 k = vs_choose("first", 0, N - 1);
      int u[] = {(k == Ks ? (deep<Ks>(), 0) : 0)...};
      (void)u;
    }
  };
};
VS_HARNESS(P06_sweep2) { sweep<10>::at<>::first(std::make_integer_sequence<int, 10>()); }
VS_HARNESS(P06_sweep3a) { sweep<VS_T(4, 6)>::at<dim<>>::first(std::make_integer_sequence<int, VS_T(4, 6)>()); }
VS_HARNESS(P06_sweep3b) { sweep<VS_T(4, 6)>::at<dense_dim<0, 2>>::first(std::make_integer_sequence<int, VS_T(4, 6)>()); }
VS_HARNESS(P06_sweep3c) { sweep<VS_T(4, 6)>::at<strided_dim<2>>::first(std::make_integer_sequence<int, VS_T(4, 6)>()); }
VS_HARNESS(P06_sweep3d) { sweep<VS_T(4, 6)>::at<strided_dim<-3>>::first(std::make_integer_sequence<int, VS_T(4, 6)>()); }
