// BOUND: ranks 1-4 (every known/unknown pattern), extents 0..3 case split (rank 4: 1..2), known strides |s| <= 2^40 (int indices: 2^9) and mins symbolic
// BOUND: large: rank 3, extents from {1, 3, 2^20, 2^31+1}, at most one known stride from a table up to 2^35, element differences symbolic
// BOUND: known strides that interleave (some dim's span exceeds the next larger |stride|) are outside the collision claim
// VSCONFIG: -
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
#ifdef NDARRAY_INT_INDICES
static const i64 MM = P2(12), SS = P2(9), QQ = P2(24), EE = P2(6);
#else
static const i64 MM = P2(40), SS = P2(40), QQ = P2(48), EE = P2(6);
#endif

// among the known dims, each pair spans at most the other's |stride| (case split: every path has linear constraints)
inline bool nested(const RD* r, const bool* known, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (!known[i] || r[i].ext < 2) continue;
    if (r[i].str == 0) return false;
    for (size_t j = 0; j < i; j++) {
      if (!known[j] || r[j].ext < 2) continue;
      i64 a = r[i].str < 0 ? -r[i].str : r[i].str, b = r[j].str < 0 ? -r[j].str : r[j].str;
      if (!(a * r[i].ext <= b) && !(b * r[j].ext <= a)) return false;
    }
  }
  return true;
}
// every non-zero difference of in-range index tuples has a non-zero offset difference
inline void injective(const RD* r, size_t n, i64 acc, bool nz) {
  if (n == 0) {
    if (nz) CHECKM(acc != 0, "resolved strides make no two indices collide");
    return;
  }
  for (i64 d = -(r[n - 1].ext - 1); d <= r[n - 1].ext - 1; d++)
    if (nz || d >= 0) injective(r, n - 1, acc + d * r[n - 1].str, nz || d != 0); // differences are symmetric
}

template <class D>
D mkr(RD& r, bool& known, i64 elo, i64 ehi) {
  r.min = D::Min != dynamic ? (i64)D::Min : vs_sym("min", -MM, MM);
  r.ext = D::Extent != dynamic ? (i64)D::Extent : vs_choose("ext", elo, ehi);
  known = D::Stride != dynamic || vs_choose("known", 0, 1);
  r.str = D::Stride != dynamic ? (i64)D::Stride : known ? vs_sym("str", -SS, SS) : unresolved;
  return D((index_t)r.min, (index_t)r.ext, (index_t)r.str);
}
template <class S>
struct mkres;
template <class... Ds>
struct mkres<shape<Ds...>> {
  template <size_t... Is>
  static shape<Ds...> go(RD* r, bool* k, i64 elo, i64 ehi, std::index_sequence<Is...>) {
    return shape<Ds...>(std::tuple<Ds...>{mkr<Ds>(r[Is], k[Is], elo, ehi)...});
  }
};

template <class S>
void t_resolve(i64 elo, i64 ehi) {
  constexpr size_t R = S::rank();
  RD r[R + 1], q[R + 1];
  bool known[R + 1];
  vs_opt("forkselect", 1);
  S s = mkres<S>::go(r, known, elo, ehi, std::make_index_sequence<R>());
  bool none = true, allk = true;
  for (size_t i = 0; i < R; i++) { none = none && !known[i]; allk = allk && known[i]; }
  CHECKM(s.is_resolved() == allk, "is_resolved before");
  if (vs_choose("via_ref", 0, 1)) { // an array_ref resolves its shape
    array_ref<int, S> a((int*)vs_abstract(1), s);
    s = a.shape();
  } else
    s.resolve();
  CHECKM(s.is_resolved(), "is_resolved after");
  rd(s, q);
  for (size_t i = 0; i < R; i++) {
    CHECKM(q[i].min == r[i].min && q[i].ext == r[i].ext, "mins and extents are kept");
    CHECKM(!known[i] || q[i].str == r[i].str, "known strides are kept");
    CHECKM(known[i] || (q[i].str > 0 && q[i].str <= QQ), "unknown strides become positive");
  }
  i64 n = prod(r, R);
  if (none && n > 0) {
    i64 want = 1;
    for (size_t i = 0; i < R; i++) { CHECKM(q[i].str == want, "with no known stride the strides are the products of the inner extents"); want *= r[i].ext; }
    CHECKM(s.is_compact() && s.is_one_to_one(), "with no known stride the result is compact");
    vs_reach("compact");
  }
  if (n > 0 && !allk && nested(r, known, R)) {
    injective(q, R, 0, false);
    vs_reach("injective");
  }
  S t = s;
  t.resolve();
  CHECKM(t == s, "resolving again changes nothing");
  vs_trace("s0", R ? q[0].str : 0);
}
VS_HARNESS(P05_r1) { t_resolve<shape_of_rank<1>>(0, 3); }
VS_HARNESS(P05_r2) { t_resolve<shape_of_rank<2>>(0, VS_T(3, 4)); }
VS_HARNESS(P05_r3) { t_resolve<shape_of_rank<3>>(VS_T(1, 0), VS_T(2, 3)); }
VS_HARNESS(P05_dense2) { t_resolve<dense_shape<2>>(0, 3); }
VS_HARNESS(P05_dense3) { t_resolve<dense_shape<3>>(0, 3); }
VS_HARNESS(P05_dense_last) { t_resolve<shape<dim<>, dim<>, dense_dim<>>>(1, 3); }
VS_HARNESS(P05_dense_mid) { t_resolve<shape<dim<0>, dense_dim<dynamic, 3>, dim<>>>(1, 3); }
VS_HARNESS(P05_neg) { t_resolve<shape<strided_dim<-3>, dim<>, dim<>>>(1, 3); }
VS_HARNESS(P05_strided) { t_resolve<shape<dim<>, dim<dynamic, 2, 6>, dim<>>>(1, 3); }
VS_HARNESS(P05_bcast) { t_resolve<shape<dim<>, broadcast_dim<dynamic, 1>, dim<>>>(0, 2); }
#if VS_THOROUGH
VS_HARNESS(P05_r4) { t_resolve<shape_of_rank<4>>(1, 2); }
#endif
VS_HARNESS(P05_dense4) { t_resolve<shape<dim<>, dim<>, dense_dim<>, dim<dynamic, 2>>>(1, 2); }

// No known strides, extents fully symbolic.
template <class S>
void t_none() {
  constexpr size_t R = S::rank();
  RD r[R + 1], q[R + 1];
  S s = mk<S>(r, Rng{MM, 1, EE, unresolved, unresolved});
  s.resolve();
  rd(s, q);
  i64 want = 1;
  for (size_t i = 0; i < R; i++) {
    CHECKM(q[i].min == r[i].min && q[i].ext == r[i].ext, "mins and extents are kept");
    CHECKM(q[i].str == want, "strides are the products of the inner extents");
    want *= r[i].ext;
  }
  CHECKM(s.is_compact() && (i64)s.flat_extent() == want && s.flat_min() == 0, "compact");
  vs_reach("none");
}
VS_HARNESS(P05_none1) { t_none<shape_of_rank<1>>(); }
VS_HARNESS(P05_none2) { t_none<shape_of_rank<2>>(); }
VS_HARNESS(P05_none2d) { t_none<dense_shape<2>>(); }
VS_HARNESS(P05_none3f) { t_none<shape<fixed_dim<3>, dim<2>, dim<>>>(); }
#if VS_THOROUGH
template <int K> void none3() { t_none<shape<dim<>, fixed_dim<K>, dim<>>>(); t_none<shape<fixed_dim<K>, dim<>, dim<>>>(); }
VS_HARNESS(P05_none3_1) { none3<1>(); }
VS_HARNESS(P05_none3_2) { none3<2>(); }
VS_HARNESS(P05_none3_5) { none3<5>(); }
VS_HARNESS(P05_none3_64) { none3<64>(); }
#endif

#ifndef NDARRAY_INT_INDICES
// Large extents and strides, beyond 32 bits.
VS_HARNESS(P05_large) {
  vs_opt("forkselect", 1);
  const i64 E[4] = {1, 3, P2(20), P2(31) + 1};
  const i64 K[5] = {1, 3, P2(20), P2(32), -P2(35)};
  RD r[3], q[3];
  i64 n = 1;
  i64 which = vs_choose("known dim", 0, 3); // 3: none
  for (size_t i = 0; i < 3; i++) {
    r[i].min = vs_sym("min", -MM, MM);
    r[i].ext = E[vs_choose("ext", 0, 3)];
    r[i].str = which == (i64)i ? K[vs_choose("str", 0, 4)] : unresolved;
    if (n > P2(55) / r[i].ext) return; // sizes stay representable
    n *= r[i].ext;
  }
  shape_of_rank<3> s(dim<>(r[0].min, r[0].ext, r[0].str), dim<>(r[1].min, r[1].ext, r[1].str), dim<>(r[2].min, r[2].ext, r[2].str));
  i64 k = which < 3 ? r[which].str : 1;
  i64 span = which < 3 ? (k < 0 ? -k : k) : 1;
  if (span > P2(60) / n) return;
  s.resolve();
  rd(s, q);
  i64 want = 1;
  for (size_t i = 0; i < 3; i++) {
    CHECKM(q[i].min == r[i].min && q[i].ext == r[i].ext, "mins and extents are kept");
    if (which == 3) { CHECKM(q[i].str == want, "with no known stride the strides are the products of the inner extents"); want *= r[i].ext; }
    else if (which == (i64)i) CHECKM(q[i].str == r[i].str, "known strides are kept");
    else CHECKM(q[i].str > 0 && q[i].str != unresolved, "unknown strides become positive");
  }
  i64 o = 0;
  bool nz = false;
  for (size_t i = 0; i < 3; i++) {
    i64 d = r[i].ext == 1 ? 0 : vs_sym("difference", -(r[i].ext - 1), r[i].ext - 1);
    nz = vs_ite(d != 0, 1, nz);
    o += d * q[i].str;
  }
  CHECKM(!nz || o != 0, "resolved strides make no two indices collide");
  vs_reach("large");
}
#endif
