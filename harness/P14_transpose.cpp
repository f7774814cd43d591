// BOUND: ranks 0-4, all permutations of rank 2 and 3, selected ones of ranks 4 to 6, partial transposes, selections and repetitions by reorder; all dimension parameters symbolic (|min| <= 2^40, extent <= 2^20, |stride| <= 2^32 for shapes; |stride| <= 2^10, extents case split up to 3 for views)
// VSCONFIG: -
// VSCONFIG: int -DNDARRAY_INT_INDICES
// VSTHOROUGH: ndebug -DNDEBUG
#include "common.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;

template <class S, class Q, size_t I, size_t J>
void same_static() {
  typedef typename std::tuple_element<I, typename Q::dims_type>::type A;
  typedef typename std::tuple_element<J, typename S::dims_type>::type B;
  CHECKM(A::Min == B::Min && A::Extent == B::Extent && A::Stride == B::Stride, "compile-time parameters follow the dimension");
}
// q's dimension I is s's dimension Js[I]
template <class S, class Q, size_t... Is, size_t... Js>
void check_dims(const Q& q, const RD* r, std::index_sequence<Is...>, std::index_sequence<Js...>) {
  static constexpr size_t js[] = {Js..., 0};
  RD o[Q::rank() + 1] = {};
  rd(q, o);
  for (size_t i = 0; i < sizeof...(Js); i++) {
    CHECKM(o[i].min == r[js[i]].min, "min");
    CHECKM(o[i].ext == r[js[i]].ext, "extent");
    CHECKM(o[i].str == r[js[i]].str, "stride");
  }
  int u[] = {(same_static<S, Q, Is, Js>(), 0)..., 0};
  (void)u;
  vs_reach("permuted");
}
template <class S, class Q, size_t... Js>
void check_perm(const Q& q, const RD* r, std::index_sequence<Js...> js) {
  CHECKM(Q::rank() == sizeof...(Js), "rank");
  check_dims<S>(q, r, std::make_index_sequence<sizeof...(Js)>(), js);
}

// The full permutation of a partial transpose
template <size_t R, size_t... Js>
using full = std::index_sequence<Js...>;

template <class S, size_t... Js>
void sh_transpose() {
  RD r[S::rank() + 1] = {};
  S s = mk<S>(r, WIDE);
  auto t = transpose<Js...>(s);
  check_perm<S>(t, r, std::index_sequence<Js...>());
  check_perm<S>(reorder<Js...>(s), r, std::index_sequence<Js...>());
  RD o[S::rank() + 1] = {};
  rd(s, o);
  for (size_t i = 0; i < S::rank(); i++) CHECKM(o[i].min == r[i].min && o[i].ext == r[i].ext && o[i].str == r[i].str, "argument unchanged");
}
template <class S, size_t... Js>
void sh_reorder() {
  RD r[S::rank() + 1] = {};
  S s = mk<S>(r, WIDE);
  check_perm<S>(reorder<Js...>(s), r, std::index_sequence<Js...>());
}
typedef shape_of_rank<2> G2;
typedef shape_of_rank<3> G3;
typedef shape_of_rank<4> G4;
typedef shape<dim<1, 2, 3>, dim<>, dense_dim<4>> M3;
typedef shape<dense_dim<>, dim<2, 5>, broadcast_dim<>, dim<-3, dynamic, 7>> M4;
VS_HARNESS(P14_t1) { sh_transpose<dense_shape<1>, 0>(); }
VS_HARNESS(P14_t2) { sh_transpose<G2, 0, 1>(); sh_transpose<dense_shape<2>, 1, 0>(); sh_transpose<G2, 1, 0>(); sh_transpose<shape<dim<3, 4, 5>, dim<6, 7, 8>>, 1, 0>(); }
VS_HARNESS(P14_t3) {
  sh_transpose<G3, 0, 1, 2>(); sh_transpose<G3, 0, 2, 1>(); sh_transpose<G3, 1, 0, 2>();
  sh_transpose<G3, 1, 2, 0>(); sh_transpose<G3, 2, 0, 1>(); sh_transpose<G3, 2, 1, 0>();
}
VS_HARNESS(P14_t3m) {
  sh_transpose<M3, 0, 1, 2>(); sh_transpose<M3, 0, 2, 1>(); sh_transpose<M3, 1, 0, 2>();
  sh_transpose<M3, 1, 2, 0>(); sh_transpose<M3, 2, 0, 1>(); sh_transpose<M3, 2, 1, 0>();
}
VS_HARNESS(P14_t4) { sh_transpose<G4, 3, 1, 0, 2>(); sh_transpose<G4, 1, 2, 3, 0>(); sh_transpose<M4, 2, 3, 1, 0>(); sh_transpose<M4, 3, 2, 1, 0>(); sh_transpose<M4, 1, 3, 0, 2>(); }
VS_HARNESS(P14_t5) { sh_transpose<shape_of_rank<5>, 4, 2, 0, 1, 3>(); sh_transpose<shape_of_rank<5>, 1, 0, 3, 4, 2>(); sh_transpose<shape<dense_dim<>, dim<2, 5>, broadcast_dim<>, dim<-3, dynamic, 7>, dim<>>, 2, 4, 1, 0, 3>(); }
VS_HARNESS(P14_t6) { sh_transpose<shape_of_rank<6>, 5, 3, 1, 0, 2, 4>(); }
VS_HARNESS(P14_partial) {
  { RD r[5] = {}; G4 s = mk<G4>(r, WIDE); check_perm<G4>(transpose<1, 0>(s), r, std::index_sequence<1, 0, 2, 3>()); check_perm<G4>(transpose<1, 2, 0>(s), r, std::index_sequence<1, 2, 0, 3>()); check_perm<G4>(transpose<0>(s), r, std::index_sequence<0, 1, 2, 3>()); }
  { RD r[5] = {}; M4 s = mk<M4>(r, WIDE); check_perm<M4>(transpose<1, 0>(s), r, std::index_sequence<1, 0, 2, 3>()); check_perm<M4>(transpose<2, 1, 0>(s), r, std::index_sequence<2, 1, 0, 3>()); }
  { RD r[4] = {}; M3 s = mk<M3>(r, WIDE); check_perm<M3>(transpose<1, 0>(s), r, std::index_sequence<1, 0, 2>()); check_perm<M3>(transpose<0, 1>(s), r, std::index_sequence<0, 1, 2>()); }
}
VS_HARNESS(P14_reorder) {
  sh_reorder<G3, 1, 2>(); sh_reorder<G3, 2>(); sh_reorder<M3, 2, 0>(); sh_reorder<M4, 3, 1>(); sh_reorder<M4, 0, 2, 3>(); sh_reorder<G3>(); sh_reorder<G2, 1, 1, 0>();
}

// ---- views
template <class T>
const void* addr(const T& x) { return &x; }
template <class S, size_t... Js>
void v_transpose() {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{P2(16), 0, 3, -P2(10), P2(10)});
  static constexpr size_t js[] = {Js..., 0};
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> a(base, s);
  const_array_ref<int, S> c(base, s);
  auto t = transpose<Js...>(a);
  auto tc = transpose<Js...>(c);
  auto q = reorder<Js...>(a);
  check_perm<S>(t.shape(), r, std::index_sequence<Js...>());
  check_perm<S>(tc.shape(), r, std::index_sequence<Js...>());
  check_perm<S>(q.shape(), r, std::index_sequence<Js...>());
  CHECKM(t.base() == base && tc.base() == base && q.base() == base, "base");
  if (prod(r, R)) {
    i64 v[R + 1], w[R + 1];
    for (size_t k = 0; k < R; k++) v[k] = pick(r[k], 3);
    for (size_t k = 0; k < R; k++) w[k] = v[js[k]];
    i64 o = off(r, R, v);
    CHECKM(addr(calln<R>(t, w)) == base + o, "permuted index, same element");
    CHECKM(addr(calln<R>(tc, w)) == base + o, "const");
    CHECKM(addr(q[tup<R>(w)]) == base + o, "reorder");
    vs_reach("view");
  } else vs_reach("empty view");
}
VS_HARNESS(P14_v2) { v_transpose<dense_shape<2>, 1, 0>(); v_transpose<G2, 1, 0>(); }
VS_HARNESS(P14_v2m) { v_transpose<matrix_shape<>, 1, 0>(); }
VS_HARNESS(P14_v3) { v_transpose<G3, 2, 0, 1>(); }
VS_HARNESS(P14_v3b) { v_transpose<M3, 1, 2, 0>(); }
VS_HARNESS(P14_v3c) { v_transpose<chunky_image_shape<3>, 2, 0, 1>(); }
VS_HARNESS(P14_v4) { v_transpose<M4, 3, 1, 0, 2>(); }
VS_HARNESS(P14_v5) { v_transpose<shape<dim<>, dim<dynamic, 2>, dense_dim<>, dim<1, 2>, dim<>>, 3, 0, 4, 2, 1>(); }

// owning arrays: the same storage seen through the permuted indices
VS_HARNESS(P14_own) {
  RD r[4] = {};
  typedef shape<dim<>, dense_dim<>, dim<0, 2>> S;
  S s = mkc<S>(r, Rng{100, 0, 3, unresolved, unresolved});
  array<int, S> a(s, 0);
  const array<int, S>& ca = a;
  int n = 0;
  for_each_index(a.shape(), [&](const index_of_rank<3>& i) { a[i] = n++; });
  auto t = transpose<2, 0, 1>(a);
  auto tc = transpose<2, 0, 1>(ca);
  auto p = transpose<1, 0, 2>(a);
  auto q = reorder<1, 2, 0>(a);
  auto qc = reorder<1, 2, 0>(ca);
  for_each_index(a.shape(), [&](const index_of_rank<3>& i) {
    i64 x = std::get<0>(i), y = std::get<1>(i), z = std::get<2>(i);
    CHECKM(&t(z, x, y) == &a(x, y, z) && &tc(z, x, y) == &a(x, y, z), "transpose");
    CHECKM(&p(y, x, z) == &a(x, y, z), "transpose of two");
    CHECKM(&q(y, z, x) == &a(x, y, z) && &qc(y, z, x) == &a(x, y, z), "reorder");
  });
  CHECKM(t.size() == a.size() && p.size() == a.size() && q.size() == a.size(), "size");
  if (n) vs_reach("own");
}
// a reordered view that leaves dimensions out shows their first element
VS_HARNESS(P14_drop) {
  RD r[4] = {};
  G3 s = mkc<G3>(r, Rng{P2(16), 1, 3, -P2(10), P2(10)});
  int* base = (int*)vs_abstract(1);
  array_ref<int, G3> a(base, s);
  auto q = reorder<2, 0>(a);
  i64 v[3] = {pick(r[0], 3), r[1].min, pick(r[2], 3)};
  CHECKM(q.dim<0>() == s.dim<2>() && q.dim<1>() == s.dim<0>(), "dims");
  CHECKM(&q(v[2], v[0]) == base + off(r, 3, v), "element");
  CHECKM(&q(v[2], v[0]) == &a(v[0], v[1], v[2]), "element of the view");
  vs_reach("drop");
}
VS_HARNESS(P14_null) {
  array_ref<int, dense_shape<2>> n;
  auto t = transpose<1, 0>(n);
  CHECKM(t.base() == nullptr && t.empty(), "null");
  dense_array<int, 3> e;
  auto u = transpose<2, 1, 0>(e);
  CHECKM(u.base() == nullptr && u.empty(), "empty array");
  vs_reach("null");
}
