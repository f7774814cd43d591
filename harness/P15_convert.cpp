// BOUND: intervals, dims and shapes of rank 0-4 with every mix of static and dynamic parameters listed in the file; run-time parameters symbolic (|min| <= 2^40, extent <= 2^20, |stride| <= 2^32, or unresolved); rank changes by up to 2
// VSCONFIG: -
// VSCONFIG: int -DNDARRAY_INT_INDICES
// VSTHOROUGH: ndebug -DNDEBUG
#include "common.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;

static bool ok1(index_t stat, i64 v) { return stat == dynamic || stat == v; }
template <class D> bool compat_i(const RD& r) { return (bool)(ok1(D::Min, r.min) & ok1(D::Extent, r.ext)); }
template <class D> bool compat(const RD& r) { return (bool)(compat_i<D>(r) & (ok1(D::Stride, r.str) | (r.str == (i64)unresolved))); }
template <class D> bool strict(const RD& r) { return (bool)(compat_i<D>(r) & ok1(D::Stride, r.str)); }
template <class DT, size_t... Is>
bool all_compat(const RD* r, std::index_sequence<Is...>) {
  bool b = true;
  int u[] = {(b = b & compat<typename std::tuple_element<Is, DT>::type>(r[Is]), 0)..., 0};
  (void)u; (void)r;
  return b;
}
template <class DT, size_t... Is>
bool all_strict(const RD* r, std::index_sequence<Is...>) {
  bool b = true;
  int u[] = {(b = b & strict<typename std::tuple_element<Is, DT>::type>(r[Is]), 0)..., 0};
  (void)u; (void)r;
  return b;
}
template <class S, size_t... Is>
void static_strides(RD* r, std::index_sequence<Is...>) { // an unresolved stride becomes a static one
  int u[] = {(r[Is].str = std::tuple_element<Is, typename S::dims_type>::type::Stride != dynamic ? (i64)std::tuple_element<Is, typename S::dims_type>::type::Stride : r[Is].str, 0)..., 0};
  (void)u; (void)r;
}
template <class T>
void diagnosed(bool bad, const char* m, T f) {
#ifndef NDEBUG
  bool a = vs_asserts(f);
  CHECKM(a == bad, m);
#else
  (void)bad; (void)m; (void)f;
#endif
}
template <class D>
void unresolve(RD& r, D& d) { // the stride may be unknown
  if (D::Stride == dynamic && vs_choose("unresolved", 0, 1)) { r.str = unresolved; d.set_stride(unresolved); }
}

template <class Dst, class Src>
void t_interval() {
  RD r = {};
  r.min = Src::Min != dynamic ? (i64)Src::Min : vs_sym("min", -WIDE.m, WIDE.m);
  r.ext = Src::Extent != dynamic ? (i64)Src::Extent : vs_sym("ext", 0, WIDE.ehi);
  Src s((index_t)r.min, (index_t)r.ext);
  bool ok = compat_i<Dst>(r);
  diagnosed(!ok, "constructing an interval is diagnosed exactly when a static parameter differs", [&] { Dst d(s); (void)d; });
  diagnosed(!ok, "assigning an interval is diagnosed exactly when a static parameter differs", [&] { Dst d; d = s; });
  if (!ok) { vs_reach("incompatible"); return; }
  Dst d(s), e;
  e = s;
  CHECKM(d.min() == r.min && d.extent() == r.ext, "converted interval");
  CHECKM(e.min() == r.min && e.extent() == r.ext, "assigned interval");
  CHECKM(d == s && s == e, "equal");
  vs_reach("interval");
}
VS_HARNESS(P15_i1) { t_interval<interval<>, interval<>>(); }
VS_HARNESS(P15_i2) { t_interval<interval<2>, interval<>>(); }
VS_HARNESS(P15_i3) { t_interval<interval<dynamic, 3>, interval<>>(); }
VS_HARNESS(P15_i4) { t_interval<interval<2, 3>, interval<>>(); }
VS_HARNESS(P15_i5) { t_interval<interval<>, interval<2, 3>>(); }
VS_HARNESS(P15_i6) { t_interval<interval<2>, interval<dynamic, 3>>(); }
VS_HARNESS(P15_i7) { t_interval<interval<2, 3>, interval<dynamic, 3>>(); }
VS_HARNESS(P15_i8) { t_interval<interval<0, -1>, interval<>>(); }

template <class Dst, class Src>
void t_dim() {
  RD r = {};
  Src s = mkdim<Src>(r, WIDE);
  unresolve(r, s);
  bool ok = compat<Dst>(r);
  diagnosed(!ok, "constructing a dim is diagnosed exactly when a static parameter differs", [&] { Dst d(s); (void)d; });
  diagnosed(!ok, "assigning a dim is diagnosed exactly when a static parameter differs", [&] { Dst d; d = s; });
  if (!ok) { vs_reach("incompatible dim"); return; }
  Dst d(s), e;
  e = s;
  i64 st = Dst::Stride != dynamic ? (i64)Dst::Stride : r.str;
  CHECKM(d.min() == r.min && d.extent() == r.ext && d.stride() == st, "converted dim");
  CHECKM(e.min() == r.min && e.extent() == r.ext && e.stride() == st, "assigned dim");
  vs_reach("dim");
}
VS_HARNESS(P15_d1) { t_dim<dim<>, dim<>>(); }
VS_HARNESS(P15_d2) { t_dim<dim<5>, dim<>>(); }
VS_HARNESS(P15_d3) { t_dim<dim<dynamic, 7>, dim<>>(); }
VS_HARNESS(P15_d4) { t_dim<dense_dim<>, dim<>>(); }
VS_HARNESS(P15_d5) { t_dim<dim<1, 2, 3>, dim<>>(); }
VS_HARNESS(P15_d6) { t_dim<dim<>, dim<1, 2, 3>>(); }
VS_HARNESS(P15_d7) { t_dim<dim<1, dynamic, 3>, dim<dynamic, 2, dynamic>>(); }
VS_HARNESS(P15_d8) { t_dim<broadcast_dim<>, dim<0>>(); }
VS_HARNESS(P15_d9) { t_dim<dim<dynamic, 4, -2>, dim<dynamic, 4>>(); }

template <class Dst, class Src>
void t_shape(bool explicitly = true) {
  constexpr size_t R = Src::rank();
  RD r[R + 1] = {}, o[R + 1] = {};
  Src s = mk<Src>(r, WIDE);
  typedef typename Dst::dims_type DT;
  auto seq = std::make_index_sequence<R>();
  bool ok = all_compat<DT>(r, seq), st = all_strict<DT>(r, seq);
  CHECKM(is_compatible<Dst>(s) == st, "is_compatible is exact for resolved shapes");
  CHECKM(is_explicitly_compatible<Dst>(s) == st, "is_explicitly_compatible is exact for resolved shapes");
  diagnosed(!ok, "construction of an incompatible shape is diagnosed, of a compatible one is not", [&] { Dst d(s); (void)d; });
  diagnosed(!ok, "construction from dims", [&] { Dst d(s.dims()); (void)d; });
  diagnosed(!ok, "assignment", [&] { Dst d; d = s; });
  diagnosed(!ok, "convert_shape", [&] { convert_shape<Dst>(s); });
  if (!ok) { vs_reach("incompatible shape"); return; }
  Dst a(s), b, c(s.dims());
  b = s;
  Dst d = convert_shape<Dst>(s);
  const Dst* all[] = {&a, &b, &c, &d};
  for (const Dst* x : all) {
    rd(*x, o);
    for (size_t k = 0; k < R; k++) CHECKM(o[k].min == r[k].min && o[k].ext == r[k].ext && o[k].str == r[k].str, "parameters kept");
    CHECKM(*x == s && s == *x && !(*x != s), "equal to the source");
  }
  vs_reach("shape");
}
typedef shape_of_rank<1> G1;
typedef shape_of_rank<2> G2;
typedef shape_of_rank<3> G3;
typedef shape_of_rank<4> G4;
VS_HARNESS(P15_s0) { t_shape<shape<>, shape<>>(); }
VS_HARNESS(P15_s1) { t_shape<dense_shape<1>, G1>(); }
VS_HARNESS(P15_s1b) { t_shape<G1, dense_shape<1>>(); }
VS_HARNESS(P15_s1c) { t_shape<shape<dim<2, 3, 4>>, G1>(); }
VS_HARNESS(P15_s2) { t_shape<dense_shape<2>, G2>(); }
VS_HARNESS(P15_s2b) { t_shape<G2, dense_shape<2>>(); }
VS_HARNESS(P15_s2c) { t_shape<shape<dim<>, dense_dim<>>, G2>(); }
VS_HARNESS(P15_s2d) { t_shape<fixed_dense_shape<3, 4>, G2>(); }
VS_HARNESS(P15_s2e) { t_shape<G2, fixed_dense_shape<3, 4>>(); }
VS_HARNESS(P15_s2f) { t_shape<shape<dim<1>, dim<dynamic, dynamic, 5>>, shape<dim<dynamic, 3>, dim<2>>>(); }
VS_HARNESS(P15_s2g) { t_shape<matrix_shape<3, 2>, matrix_shape<>>(); }
VS_HARNESS(P15_s3) { t_shape<dense_shape<3>, G3>(); }
VS_HARNESS(P15_s3b) { t_shape<chunky_image_shape<3>, G3>(); }
VS_HARNESS(P15_s3c) { t_shape<chunky_image_shape<3, 4>, chunky_image_shape<>>(); }
VS_HARNESS(P15_s4) { t_shape<shape<dim<1, 2>, dense_dim<>, dim<dynamic, dynamic, 8>, dim<-1>>, G4>(); }
VS_HARNESS(P15_s4b) { t_shape<G4, shape<dim<1, 2>, dense_dim<>, dim<dynamic, dynamic, 8>, dim<-1>>>(); }

// unresolved source strides are taken over by static ones
template <class Dst, class Src>
void t_unres() {
  constexpr size_t R = Src::rank();
  RD r[R + 1] = {}, o[R + 1] = {};
  Src s = mk<Src>(r, Rng{WIDE.m, 0, WIDE.ehi, unresolved, unresolved});
  bool ok = all_compat<typename Dst::dims_type>(r, std::make_index_sequence<R>());
  diagnosed(!ok, "construct", [&] { Dst d(s); (void)d; });
  diagnosed(!ok, "assign", [&] { Dst d; d = s; });
  if (!ok) return;
  Dst a(s), b;
  b = s;
  static_strides<Dst>(r, std::make_index_sequence<R>());
  const Dst* all[] = {&a, &b};
  for (const Dst* x : all) {
    rd(*x, o);
    for (size_t k = 0; k < R; k++) CHECKM(o[k].min == r[k].min && o[k].ext == r[k].ext && o[k].str == r[k].str, "static strides replace unknown ones");
  }
  vs_reach("unresolved");
}
VS_HARNESS(P15_u1) { t_unres<dense_shape<1>, G1>(); }
VS_HARNESS(P15_u2) { t_unres<dense_shape<2>, G2>(); }
VS_HARNESS(P15_u3) { t_unres<chunky_image_shape<3, 4>, G3>(); }
VS_HARNESS(P15_u4) { t_unres<fixed_dense_shape<3, 4>, G2>(); }

// bounds() and rank changes
template <class Dst, class Src>
void t_rank() {
  constexpr size_t RS = Src::rank(), RT = Dst::rank(), RM = RS < RT ? RS : RT;
  RD r[RS + 1] = {}, o[RT + 1] = {}, q[RT + 1] = {};
  Src s = mk<Src>(r, WIDE);
  for (size_t k = 0; k < RT; k++) q[k] = k < RM ? r[k] : RD{0, 1, (i64)unresolved};
  bool ok = all_compat<typename Dst::dims_type>(q, std::make_index_sequence<RT>());
  for (size_t k = RM; k < RS; k++) ok = ok & (r[k].ext == 1);
  diagnosed(!ok, "conversion to another rank is diagnosed exactly when parameters differ or a dropped extent is not 1", [&] { convert_shape<Dst>(s); });
  if (!ok) { vs_reach("bad rank conversion"); return; }
  Dst d = convert_shape<Dst>(s);
  rd(d, o);
  for (size_t k = 0; k < RM; k++) CHECKM(o[k].min == r[k].min && o[k].ext == r[k].ext && o[k].str == r[k].str, "kept dims");
  for (size_t k = RM; k < RT; k++) CHECKM(o[k].min == 0 && o[k].ext == 1, "new dims have min 0 and extent 1");
  vs_reach("rank conversion");
}
VS_HARNESS(P15_r01) { t_rank<G1, shape<>>(); }
VS_HARNESS(P15_r02) { t_rank<dense_shape<2>, shape<>>(); }
VS_HARNESS(P15_r12) { t_rank<G2, G1>(); }
VS_HARNESS(P15_r13) { t_rank<dense_shape<3>, G1>(); }
VS_HARNESS(P15_r24) { t_rank<G4, dense_shape<2>>(); }
VS_HARNESS(P15_r23s) { t_rank<shape<dim<1>, dim<>, dim<0, 1, 5>>, G2>(); }
VS_HARNESS(P15_r10) { t_rank<shape<>, G1>(); }
VS_HARNESS(P15_r21) { t_rank<dense_shape<1>, G2>(); }
VS_HARNESS(P15_r32) { t_rank<G2, G3>(); }
VS_HARNESS(P15_r42) { t_rank<G2, G4>(); }
VS_HARNESS(P15_r43) { t_rank<dense_shape<3>, shape<dim<>, dim<>, dim<>, dim<2, 1>>>(); }

template <class S>
void t_bounds() {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {}, o[R + 1] = {};
  S s = mk<S>(r, WIDE);
  auto b = s.bounds();
  CHECKM(decltype(b)::rank() == R, "rank");
  rd(b, o);
  for (size_t k = 0; k < R; k++) CHECKM(o[k].min == r[k].min && o[k].ext == r[k].ext && o[k].str == (i64)unresolved, "same bounds, unknown strides");
  vs_reach("bounds");
}
VS_HARNESS(P15_b1) { t_bounds<dense_shape<1>>(); }
VS_HARNESS(P15_b2) { t_bounds<G2>(); }
VS_HARNESS(P15_b3) { t_bounds<chunky_image_shape<3>>(); }

// views
template <class Dst, class Src>
void t_view() {
  constexpr size_t R = Src::rank(), RT = Dst::rank();
  RD r[R + 1] = {};
  i64 v[R + 1], w[RT + R + 1] = {};
  Src s = mkp<Src>(r, v, Rng{P2(16), 1, P2(8), -P2(10), P2(10)});
  for (size_t k = 0; k < R; k++) w[k] = v[k];
  for (size_t k = RT; k < R; k++) ASSUME(r[k].ext == 1);
  RD q[RT + 1] = {};
  for (size_t k = 0; k < RT; k++) q[k] = k < R ? r[k] : RD{0, 1, (i64)unresolved};
  ASSUME(all_compat<typename Dst::dims_type>(q, std::make_index_sequence<RT>()));
  int* base = (int*)vs_abstract(1);
  array_ref<int, Src> a(base, s);
  const_array_ref<int, Src> c(base, s);
  auto x = convert_shape<Dst>(a);
  auto y = convert_shape<Dst>(c);
  CHECKM(x.base() == base && y.base() == base, "base");
  if (R <= RT ? true : true) {
    CHECKM(&x[tup<RT>(w)] == base + off(r, R, v), "same element");
    CHECKM(&y[tup<RT>(w)] == base + off(r, R, v), "same element");
  }
  vs_reach("view");
}
VS_HARNESS(P15_v2) { t_view<dense_shape<2>, G2>(); }
VS_HARNESS(P15_v3) { t_view<G3, chunky_image_shape<3>>(); }
VS_HARNESS(P15_v12) { t_view<G2, G1>(); }
VS_HARNESS(P15_v32) { t_view<G2, G3>(); }
VS_HARNESS(P15_vown) {
  array<int, dense_shape<2>> a({vs_choose("x", 0, 3), vs_choose("y", 0, 3)}, 1);
  const auto& ca = a;
  auto v = convert_shape<shape<dim<>, dim<>, dim<>>>(a);
  auto w = convert_shape<G2>(ca);
  CHECKM(v.base() == a.base() && w.base() == a.base(), "base");
  CHECKM(v.size() == a.size() && w.size() == a.size(), "size");
  for_each_index(a.shape(), [&](const index_of_rank<2>& i) { CHECKM(&w[i] == &a[i] && &v(std::get<0>(i), std::get<1>(i), 0) == &a[i], "same element"); });
  vs_reach("own");
}
