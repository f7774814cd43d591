// BOUND: ranks 1-6, a family of index/interval/dim/keep-all patterns (dims with any stride of their own, compile-time, run-time or unresolved); |min| <= 2^40, |stride| <= 2^32, extents <= 2^20, slice positions and crop intervals (inside or outside the source) symbolic; owning arrays: extents up to 3, symbolic strides up to 2^6
// BOUND: views of views: |min| <= 2^30, |stride| <= 2^20
// VSCONFIG: -
// VSCONFIG: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
static i64 CM = WIDE.m; // range of crop mins and slice positions

// one slicing argument and what it asks for
struct I { i64 at; using type = index_t; static constexpr bool keep = false; type arg() const { return (index_t)at; }
  void mk(const RD&) { at = vs_sym("at", -CM, CM); }
  void in(const RD& r) { i64 p = vs_sym("atpos", 0, 3); ASSUME(p < r.ext); at = r.min + p; }
  i64 min(const RD&) const { return at; } i64 ext(const RD&) const { return 1; } };
template <class T> struct Crop { i64 m, e; using type = T; static constexpr bool keep = true;
  type arg() const { return T((index_t)m, (index_t)e); }
  void mk(const RD&) {
    m = T::Min != dynamic ? (i64)T::Min : vs_sym("cmin", -CM, CM);
    e = T::Extent != dynamic ? (i64)T::Extent : vs_sym("cext", 0, WIDE.ehi);
  }
  void in(const RD& r) {
    i64 p = vs_choose("cpos", 0, 3);
    if (T::Min != dynamic) { m = T::Min; ASSUME(r.min <= m && m <= r.max() + 1); p = m - r.min; } else { ASSUME(p <= r.ext); m = r.min + p; }
    e = T::Extent != dynamic ? (i64)T::Extent : vs_sym("cext", 0, 3);
    ASSUME(p + e <= r.ext);
  }
  i64 min(const RD&) const { return m; } i64 ext(const RD&) const { return e; } };
typedef Crop<interval<>> V;
typedef Crop<interval<dynamic, 2>> F;
typedef Crop<interval<1, 2>> S;
typedef Crop<interval<-1>> M;
// a dim as slicing argument: its interval crops, its stride (compile-time or any run-time value) is ignored
template <class T> struct DimCrop : Crop<T> { i64 s = 0;
  T arg() const { return T((index_t)this->m, (index_t)this->e, (index_t)s); }
  void stride() { s = T::Stride != dynamic ? (i64)T::Stride : vs_choose("cunres", 0, 1) ? (i64)unresolved : vs_sym("cstr", WIDE.slo, WIDE.shi); }
  void mk(const RD& r) { Crop<T>::mk(r); stride(); }
  void in(const RD& r) { Crop<T>::in(r); stride(); } };
typedef DimCrop<dim<>> D;
typedef DimCrop<dense_dim<>> D1;
typedef DimCrop<dim<dynamic, dynamic, 0>> D0;
typedef DimCrop<dim<1, 2, -7>> DS;
typedef DimCrop<dim<dynamic, 3>> DF;
struct A { using type = std::remove_const_t<decltype(_)>; static constexpr bool keep = true;
  type arg() const { return _; }
  void mk(const RD&) {}
  void in(const RD&) {}
  i64 min(const RD& r) const { return r.min; } i64 ext(const RD& r) const { return r.ext; } };

template <class... Ps>
struct pat {
  static constexpr size_t R = sizeof...(Ps);
  static constexpr size_t K = sum_of((Ps::keep ? 1 : 0)...);
  std::tuple<Ps...> p;
  template <size_t... Is>
  void mk(const RD* r, bool inside, std::index_sequence<Is...>) {
    int u[] = {(inside ? std::get<Is>(p).in(r[Is]) : std::get<Is>(p).mk(r[Is]), 0)...};
    (void)u;
  }
  template <class X, size_t... Is>
  auto list(X&& x, std::index_sequence<Is...>) const { return x(std::get<Is>(p).arg()...); }
  template <class X, size_t... Is>
  auto tup(X&& x, std::index_sequence<Is...>) const { return x[std::make_tuple(std::get<Is>(p).arg()...)]; }
  template <size_t... Is>
  void want(const RD* r, RD* w, bool* keep, std::index_sequence<Is...>) const {
    int u[] = {(w[Is] = RD{std::get<Is>(p).min(r[Is]), std::get<Is>(p).ext(r[Is]), r[Is].str}, keep[Is] = Ps::keep, 0)...};
    (void)u;
  }
};

template <class Sh>
void check_view_shape(const Sh& s, const RD* w, const bool* keep, size_t R) {
  RD q[5] = {};
  rd(s, q);
  size_t k = 0;
  for (size_t i = 0; i < R; i++)
    if (keep[i]) {
      CHECKM(q[k].min == w[i].min && q[k].ext == w[i].ext, "view bounds");
      CHECKM(q[k].str == w[i].str, "view keeps the stride");
      k++;
    }
}
// x: array, ref; shape with values r; base
template <class P, class X>
void check_view(const P& p, X&& x, const RD* r, int* base, bool indexed) {
  constexpr size_t R = P::R, K = P::K;
  auto sq = std::make_index_sequence<R>();
  RD w[R];
  bool keep[R];
  p.want(r, w, keep, sq);
  auto v1 = p.list(x, sq);
  auto v2 = p.tup(x, sq);
  static_assert(std::remove_reference_t<decltype(v1.shape())>::rank() == K, "rank of the view");
  check_view_shape(v1.shape(), w, keep, R);
  CHECKM(v1.shape() == v2.shape() && v1.base() == v2.base(), "list and tuple forms agree");
  // any index of the view, put back into the original
  i64 full[R], vi[K + 1];
  size_t k = 0;
  i64 o = 0;
  for (size_t i = 0; i < R; i++) {
    if (keep[i]) {
      i64 pos = vs_sym("vpos", 0, WIDE.ehi - 1);
      if (indexed) ASSUME(pos < w[i].ext);
      vi[k++] = full[i] = w[i].min + pos;
    } else full[i] = w[i].min;
    o += (full[i] - r[i].min) * r[i].str;
  }
  CHECKM(&v1[tup<K>(vi)] == base + o, "the view's element is the original's at the same index");
  CHECKM(&v2[tup<K>(vi)] == base + o && &v2[tup<K>(vi)] == &x[tup<R>(full)], "the view aliases the original");
}

template <class Sh, class P>
void t_view() {
  constexpr size_t R = P::R;
  auto sq = std::make_index_sequence<R>();
  RD r[R];
  Sh s = mk<Sh>(r, WIDE);
  P p;
  p.mk(r, false, sq);
  int* base = (int*)vs_abstract(1);
  array_ref<int, Sh> a(base, s);
  const array_ref<int, Sh> ca(base, s);
  const_array_ref<int, Sh> cr(base, s);
  check_view(p, a, r, base, false);
  auto v = p.list(ca, sq);
  auto c = p.list(cr, sq);
  auto b = p.list(a, sq);
  CHECKM(v.base() == b.base() && c.base() == b.base() && v.shape() == b.shape() && c.shape() == b.shape(), "const and mutable views agree");
  // slicing a shape alone
  RD w[R];
  bool keep[R];
  p.want(r, w, keep, sq);
  check_view_shape(p.list(s, sq), w, keep, R);
  check_view_shape(p.tup(s, sq), w, keep, R);
  RD r2[R];
  rd(a.shape(), r2);
  for (size_t i = 0; i < R; i++) CHECKM(r2[i].min == r[i].min && r2[i].ext == r[i].ext && r2[i].str == r[i].str, "the original is unchanged");
  CHECKM(a.base() == base && vs_allocs() == 0, "nothing is copied");
  vs_reach("view");
}
#define T1(n, ...) VS_HARNESS(P07_##n) { t_view<__VA_ARGS__>(); }
T1(r1_i, shape_of_rank<1>, pat<V>)
T1(r1_a, shape_of_rank<1>, pat<A>)
T1(r1_f, shape_of_rank<1>, pat<F>)
T1(r1_s, shape_of_rank<1>, pat<S>)
T1(r1_m, shape<strided_dim<-4>>, pat<M>)
T1(r1_d, shape<dim<2, 5, 3>>, pat<D>)
T1(r1_d1, shape_of_rank<1>, pat<D1>)
T1(r1_d0, shape_of_rank<1>, pat<D0>)
T1(r1_dd, shape_of_rank<1>, pat<D>)
T1(r1_dd1, dense_shape<1>, pat<D>)
T1(r2_dim, shape_of_rank<2>, pat<D1, DS>)
T1(r2_dim2, shape_of_rank<2>, pat<I, D1>)
T1(r2_dim3, shape<strided_dim<100>, dense_dim<>>, pat<DF, D0>)
T1(r2_big, shape<dim<-1000, 1000, 4096>, dim<dynamic, 640, 3>>, pat<V, D>)
T1(r3_dim, shape<dense_dim<>, dim<dynamic, 5>, dim<>>, pat<DS, D, I>)
T1(r2_iv, shape_of_rank<2>, pat<I, V>)
T1(r2_vi, shape_of_rank<2>, pat<V, I>)
T1(r2_ia, shape_of_rank<2>, pat<I, A>)
T1(r2_ai, shape_of_rank<2>, pat<A, I>)
T1(r2_vv, shape_of_rank<2>, pat<V, V>)
T1(r2_aa, shape_of_rank<2>, pat<A, A>)
T1(r2_dense, dense_shape<2>, pat<V, I>)
T1(r2_dense2, dense_shape<2>, pat<I, V>)
T1(r2_static, shape<dim<3, 4, -2>, dim<dynamic, 7, 8>>, pat<F, S>)
T1(r2_static2, shape<dim<3, 4>, dim<-2>>, pat<V, A>)
T1(r2_st3, shape<dim<3, 4>, dim<-2>>, pat<I, D>)
T1(r3_iva, shape_of_rank<3>, pat<I, V, A>)
T1(r3_avi, shape_of_rank<3>, pat<A, V, I>)
T1(r3_iia, shape_of_rank<3>, pat<I, I, A>)
T1(r3_iai, shape_of_rank<3>, pat<I, A, I>)
T1(r3_vii, shape_of_rank<3>, pat<V, I, I>)
T1(r3_vfs, shape<dim<1>, dense_dim<>, dim<dynamic, 3>>, pat<V, F, S>)
T1(r3_mix, shape<dim<1, 3, 4>, broadcast_dim<>, strided_dim<-5>>, pat<A, I, M>)
T1(r4_iavi, shape_of_rank<4>, pat<I, A, V, I>)
T1(r4_aiia, shape_of_rank<4>, pat<A, I, I, A>)
T1(r4_vvvv, shape_of_rank<4>, pat<V, F, D, S>)
T1(r4_vaaf, shape<dense_dim<>, dim<0>, dim<dynamic, 3>, dim<>>, pat<V, A, A, I>)
T1(r5_viavi, shape_of_rank<5>, pat<V, I, A, V, I>)
T1(r5_mix, shape<dense_dim<>, dim<0>, dim<dynamic, 3>, dim<>, strided_dim<-77>>, pat<I, S, A, D, F>)
T1(r6_iiavia, shape_of_rank<6>, pat<I, I, A, V, I, A>)

// views of views
template <class Sh, class P, class Q>
void t_compose() {
  constexpr size_t R = P::R, K = P::K, J = Q::K;
  auto sq = std::make_index_sequence<R>();
  auto sk = std::make_index_sequence<K>();
  RD r[R], w[R], r1[K + 1], w1[K + 1];
  bool keep[R], keep1[K + 1];
  // no pointer of this test wraps around to null
  Rng g = WIDE;
  if (sizeof(index_t) == 8) { g.m = P2(30); g.slo = -P2(20); g.shi = P2(20); }
  CM = g.m;
  Sh s = mk<Sh>(r, g);
  P p;
  Q q;
  p.mk(r, false, sq);
  p.want(r, w, keep, sq);
  size_t k = 0;
  size_t dimof[K + 1];
  for (size_t i = 0; i < R; i++) if (keep[i]) { dimof[k] = i; r1[k] = w[i]; r1[k].str = r[i].str; k++; }
  q.mk(r1, false, sk);
  q.want(r1, w1, keep1, sk);
  int* base = (int*)vs_abstract(1);
  array_ref<int, Sh> a(base, s);
  auto v = q.list(p.list(a, sq), sk);
  check_view_shape(v.shape(), w1, keep1, K);
  i64 full[R], vi[J + 1];
  for (size_t i = 0; i < R; i++) full[i] = w[i].min;
  size_t j = 0;
  for (size_t i = 0; i < K; i++) {
    i64 x = w1[i].min;
    if (keep1[i]) { x += vs_sym("vpos", 0, WIDE.ehi); vi[j++] = x; }
    full[dimof[i]] = x;
  }
  CHECKM(&v[tup<J>(vi)] == base + off(r, R, full), "a view of a view addresses the original's element");
  vs_reach("compose");
}
VS_HARNESS(P07_compose1) { t_compose<shape_of_rank<1>, pat<V>, pat<V>>(); }
VS_HARNESS(P07_compose2) { t_compose<shape_of_rank<2>, pat<V, F>, pat<I, V>>(); }
VS_HARNESS(P07_compose3) { t_compose<shape_of_rank<3>, pat<V, I, A>, pat<V, I>>(); }
VS_HARNESS(P07_compose3b) { t_compose<shape<dense_dim<>, dim<2>, dim<dynamic, 4>>, pat<A, V, S>, pat<I, A, V>>(); }

// owning arrays
template <class Sh, class P>
void t_own() {
  constexpr size_t R = P::R;
  auto sq = std::make_index_sequence<R>();
  RD r[R];
  Sh s = mkc<Sh>(r, Rng{P2(20), 1, 3, -P2(6), P2(6)});
  P p;
  p.mk(r, true, sq);
  p.mk(r, true, sq);
  array<int, Sh> a(s, 3);
  const array<int, Sh>& c = a;
  i64 n = vs_allocs();
  check_view(p, a, r, a.base(), true);
  auto m = p.list(a, sq);
  auto k = p.list(c, sq);
  auto kt = p.tup(c, sq);
  CHECKM(k.base() == m.base() && k.shape() == m.shape() && kt.base() == m.base() && kt.shape() == m.shape(), "views of a const array");
  static_assert(std::is_same<decltype(*m.base()), int&>::value, "");
  CHECKM(vs_allocs() == n, "no allocation");
  if (!m.empty()) {
    *m.data() = 4; // in bounds of the array
    CHECKM(*k.data() == 4, "writes through the view reach the array");
    vs_reach("own");
  }
}
VS_HARNESS(P07_own1) { t_own<shape_of_rank<1>, pat<V>>(); }
VS_HARNESS(P07_own2) { t_own<shape<dense_dim<>, dim<>>, pat<V, I>>(); }
VS_HARNESS(P07_own2a) { t_own<shape<dim<>, dim<>>, pat<I, A>>(); }
VS_HARNESS(P07_own2d) { t_own<shape_of_rank<2>, pat<DF, D1>>(); }
VS_HARNESS(P07_own2s) { t_own<shape<dense_dim<>, dim<>>, pat<D, D0>>(); }
VS_HARNESS(P07_own3) { t_own<shape<dim<dynamic, 2>, dense_dim<>, dim<>>, pat<V, I, A>>(); }

// splits as slicing arguments
VS_HARNESS(P07_split) {
  RD r[2];
  auto s = mk<shape_of_rank<2>>(r, Rng{P2(20), 1, 7, -P2(10), P2(10)});
  int* base = (int*)vs_abstract(1);
  array_ref<int, shape_of_rank<2>> a(base, s);
  i64 at = r[1].min;
  for (auto yo : split(a.y(), 3)) {
    auto v = a(_, yo);
    RD q[2];
    rd(v.shape(), q);
    i64 x = vs_sym("x", -P2(20), P2(20)), y = vs_sym("y", 0, 7) + q[1].min;
    CHECKM(q[0].min == r[0].min && q[0].ext == r[0].ext && q[1].min == at && q[1].str == r[1].str, "piece");
    CHECKM(&v(x, y) == base + ((x - r[0].min) * r[0].str + (y - r[1].min) * r[1].str), "element of a piece");
    at += q[1].ext;
    vs_reach("split");
  }
  CHECKM(at == r[1].min + r[1].ext, "covered");
}
