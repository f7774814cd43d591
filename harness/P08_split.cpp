// BOUND: iteration: extents 0..14 (thorough 0..40) and run-time factors 1..10 (42) case split, any |min| <= 2^40; compile-time factors 1,2,3,4,5,8; static and dynamic intervals and dims
// BOUND: piece n of a split as a formula: extents and factors symbolic up to 2^20, |min| <= 2^40 (piece count: extents up to 2^6)
// VSCONFIG: -
// VSCONFIG: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
#ifdef NDARRAY_INT_INDICES
static const i64 MM = P2(20), EE = P2(9);
#else
static const i64 MM = P2(40), EE = P2(20);
#endif
static const i64 XE = VS_T(14, 40);

template <class V> struct params;
template <index_t M, index_t E> struct params<interval<M, E>> {
  static constexpr index_t Min = M, Extent = E;
  static interval<M, E> make(i64 m, i64 e) { return interval<M, E>((index_t)m, (index_t)e); }
};
template <index_t M, index_t E, index_t S> struct params<dim<M, E, S>> {
  static constexpr index_t Min = M, Extent = E;
  static dim<M, E, S> make(i64 m, i64 e) { return dim<M, E, S>((index_t)m, (index_t)e, S != dynamic ? S : (index_t)vs_sym("str", -1000, 1000)); }
};
template <class V>
V mkv(i64& m, i64& e, i64 elo, i64 ehi) {
  m = params<V>::Min != dynamic ? (i64)params<V>::Min : vs_sym("min", -MM, MM);
  e = params<V>::Extent != dynamic ? (i64)params<V>::Extent : vs_sym("ext", elo, ehi);
  return params<V>::make(m, e);
}

// run-time factor
template <class V>
void t_dyn() {
  i64 m, e, f = vs_choose("factor", 1, VS_T(10, 42));
  V v = mkv<V>(m, e, 0, XE);
  auto s = split(v, (index_t)f);
  i64 at = m, n = 0;
  for (auto i : s) {
    CHECKM((i64)i.min() == at, "pieces are consecutive");
    CHECKM(i.extent() >= 1 && (i64)i.extent() <= f, "piece extent is in 1..factor");
    at += i.extent();
    CHECKM(at <= m + e, "piece is in range");
    CHECKM((i64)i.extent() == f || at == m + e, "only the last piece is short");
    auto r = *s[(index_t)n];
    CHECKM(r.min() == i.min() && r.extent() == i.extent(), "random access to a piece");
    auto r2 = s.begin()[(index_t)n];
    CHECKM(r2.min() == i.min() && r2.extent() == i.extent(), "random access through the iterator");
    n++;
  }
  CHECKM(at == m + e, "the pieces cover the interval");
  CHECKM((i64)s.size() == n, "size() is the number of pieces");
  CHECKM(n == (e + f - 1) / f, "number of pieces is the ceiling of extent / factor");
  CHECKM(n > 0 || !(s.begin() != s.end()), "an empty interval has no pieces");
  if (n == 0) vs_reach("empty");
  if (n > 2) vs_reach("dynamic");
  // post-increment
  if (n > 0) {
    auto it = s.begin();
    auto old = it++;
    CHECKM(old == s.begin() && (it == s.end()) == (n == 1), "post-increment");
  }
}
VS_HARNESS(P08_dyn_i) { t_dyn<interval<>>(); }
VS_HARNESS(P08_dyn_i0) { t_dyn<interval<0>>(); }
VS_HARNESS(P08_dyn_i9) { t_dyn<interval<dynamic, 9>>(); }
VS_HARNESS(P08_dyn_is) { t_dyn<interval<-4, 7>>(); }
VS_HARNESS(P08_dyn_ie) { t_dyn<interval<3, 0>>(); }
VS_HARNESS(P08_dyn_d) { t_dyn<dim<>>(); }
VS_HARNESS(P08_dyn_ds) { t_dyn<dim<2, 11, -3>>(); }
VS_HARNESS(P08_dyn_dd) { t_dyn<dense_dim<-5>>(); }

// compile-time factor
template <index_t F, class V>
void t_st() {
  i64 m, e;
  V v = mkv<V>(m, e, F, XE + F);
  auto s = split<F>(v);
  i64 at = m, prev = 0, n = 0;
  for (auto i : s) {
    static_assert(decltype(i)::Extent == F, "");
    CHECKM((i64)i.extent() == F, "every piece has the compile-time extent");
    CHECKM((i64)i.min() >= m && (i64)i.max() <= m + e - 1, "piece is in range");
    CHECKM(n == 0 ? (i64)i.min() == m : (i64)i.min() > prev, "increasing order");
    CHECKM((i64)i.min() == at || (i64)i.max() == m + e - 1, "only the last piece overlaps its predecessor");
    CHECKM((i64)i.min() <= at, "no gap");
    prev = i.min();
    at = i.max() + 1;
    auto r = *s[(index_t)n];
    CHECKM(r.min() == i.min() && r.extent() == i.extent(), "random access to a piece");
    n++;
  }
  CHECKM(at == m + e, "the pieces cover the interval");
  CHECKM((i64)s.size() == n && n == (e + F - 1) / F, "number of pieces");
  if (n > 2) vs_reach("static");
}
VS_HARNESS(P08_st1) { t_st<1, interval<>>(); }
VS_HARNESS(P08_st2) { t_st<2, interval<>>(); }
VS_HARNESS(P08_st3) { t_st<3, interval<>>(); }
VS_HARNESS(P08_st4) { t_st<4, dim<>>(); }
VS_HARNESS(P08_st5) { t_st<5, interval<0>>(); }
VS_HARNESS(P08_st8) { t_st<8, dim<dynamic, dynamic, 3>>(); }
VS_HARNESS(P08_st4s) { t_st<4, interval<-2, 11>>(); }
VS_HARNESS(P08_st4e) { t_st<4, interval<dynamic, 4>>(); }
VS_HARNESS(P08_st5d) { t_st<5, dense_dim<1, 13>>(); }
VS_HARNESS(P08_st3d) { t_st<3, dim<-7>>(); }

// piece n, for any size
template <class V>
void t_piece() {
  i64 m = vs_sym("min", -MM, MM), f = vs_sym("factor", 1, EE), n = vs_sym("n", 0, EE), in = vs_sym("in", 1, EE), rest = vs_sym("rest", 0, EE);
  // extent = n * f + in + rest with either a full piece (in == f) or the last short one (in < f, rest == 0)
  ASSUME(in <= f);
  if (in < f) ASSUME(rest == 0);
#ifdef NDARRAY_INT_INDICES
  ASSUME(n * f <= P2(20));
#endif
  i64 e = n * f + in + rest;
  V v = params<V>::make(m, e);
  auto p = *split(v, (index_t)f)[(index_t)n];
  CHECKM((i64)p.min() == m + n * f, "piece n starts after n factors");
  CHECKM((i64)p.extent() == in, "piece n has the factor's extent, or what is left");
  vs_reach("piece");
}
VS_HARNESS(P08_piece) { t_piece<interval<>>(); }
VS_HARNESS(P08_piece_d) { t_piece<dim<>>(); }
template <index_t F>
void t_spiece() {
  i64 m = vs_sym("min", -MM, MM), n = vs_sym("n", 0, EE), e = vs_sym("ext", F, EE);
  ASSUME(n * F < e);
  auto p = *split<F>(interval<>((index_t)m, (index_t)e))[(index_t)n];
  CHECKM((i64)p.min() == (e - n * F >= F ? m + n * F : m + e - F) && (i64)p.extent() == F, "piece n of a compile-time split");
  vs_reach("spiece");
}
VS_HARNESS(P08_spiece3) { t_spiece<3>(); }
VS_HARNESS(P08_spiece16) { t_spiece<16>(); }
VS_HARNESS(P08_count) {
  i64 m = vs_sym("min", -MM, MM), e = vs_sym("ext", 0, P2(6)), f = vs_sym("factor", 1, P2(6));
  i64 n = split(interval<>((index_t)m, (index_t)e), (index_t)f).size();
  CHECKM(n * f >= e && (n - 1) * f < e, "ceiling");
  CHECKM(n >= 0, "count is not negative");
  vs_reach("count");
}
#ifndef NDEBUG
// a compile-time factor larger than the interval is diagnosed, others are not
VS_HARNESS(P08_diag) {
  i64 m = vs_sym("min", -MM, MM), e = vs_sym("ext", 0, 10);
  bool a = vs_asserts([&] { split<5>(interval<>((index_t)m, (index_t)e)); });
  CHECKM(a == (e < 5), "diagnosed exactly when the factor is larger than the interval");
  vs_reach("diag");
}
#endif
