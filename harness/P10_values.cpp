// BOUND: ranks 0-4, extents 0..5 (rank 2), 0..3 (rank 3), 0..2 (rank 4) case split, every stride symbolic in |s| <= 2^10, any min; generic, matrix, chunky and planar image shapes; references over memory that must not be touched and owning arrays
// BOUND: an element addressed by several indices (broadcast strides) is passed once per index
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;
static const i64 MM = P2(20), SS = P2(10);

// The offsets of all in-range indices, each to be visited once.
struct Offsets {
  i64 o[260];
  bool used[260] = {};
  i64 n = 0, calls = 0;
  void build(const RD* r, size_t R, size_t d, i64 acc) {
    if (d == R) { o[n++] = acc; return; }
    for (i64 p = 0; p < r[d].ext; p++) build(r, R, d + 1, acc + p * r[d].str);
  }
  void visit(const void* at, const int* base) {
    calls++;
    for (i64 k = 0; k < n; k++)
      if (!used[k] && vs_must(at == base + o[k])) { used[k] = true; return; }
    for (i64 k = 0; k < n; k++)
      if (!used[k] && at == base + o[k]) { used[k] = true; return; }
    CHECKM(false, "for_each_value passes only addressed elements, each once");
  }
};

template <class S>
void t_values(i64 elo, i64 ehi) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{MM, elo, ehi, -SS, SS});
  int* base = (int*)vs_abstract(1);
  Offsets o;
  o.build(r, R, 0, 0);
  if (vs_choose("const", 0, 1)) {
    const const_array_ref<int, S> c(base, s);
    c.for_each_value([&](const int& x) { o.visit(&x, base); });
  } else {
    array_ref<int, S> a(base, s);
    auto f = [&](int& x) { o.visit(&x, base); };
    a.for_each_value(f);
  }
  CHECKM(o.calls == o.n, "as many calls as indices");
  vs_trace("calls", o.calls);
  if (o.n == 0) vs_reach("empty");
  if (o.n > 3) vs_reach("values");
}
VS_HARNESS(P10_r0) { t_values<shape<>>(0, 0); }
VS_HARNESS(P10_r1) { t_values<shape_of_rank<1>>(0, 4); }
VS_HARNESS(P10_r2) { t_values<shape_of_rank<2>>(0, VS_T(5, 7)); }
VS_HARNESS(P10_r3) { t_values<shape_of_rank<3>>(0, VS_T(3, 4)); }
VS_HARNESS(P10_r4) { t_values<shape<dim<>, dim<dynamic, 2>, dim<dynamic, dynamic, 1>, dim<0, 2>>>(0, VS_T(2, 3)); }
VS_HARNESS(P10_d1) { t_values<dense_shape<1>>(0, 4); }
VS_HARNESS(P10_d2) { t_values<dense_shape<2>>(0, 3); }
VS_HARNESS(P10_d3) { t_values<dense_shape<3>>(0, VS_T(3, 4)); }
VS_HARNESS(P10_last) { t_values<shape<dim<>, dense_dim<>>>(0, 3); }
VS_HARNESS(P10_bc) { t_values<shape<broadcast_dim<>, dim<>, strided_dim<-2>>>(0, 2); }
VS_HARNESS(P10_st) { t_values<shape<dim<1, 2, 3>, dim<0, 3, 1>, dim<dynamic, dynamic, -6>>>(0, 3); }
VS_HARNESS(P10_fixed) { t_values<fixed_dense_shape<3, 2, 2>>(0, 3); }
VS_HARNESS(P10_neg) { t_values<shape<strided_dim<-1>, strided_dim<-3>>>(0, 3); }
VS_HARNESS(P10_e12) { t_values<shape<dim<dynamic, 1>, dim<>, dim<dynamic, 1>>>(0, 4); }
VS_HARNESS(P10_matrix) { t_values<matrix_shape<>>(0, 3); }
VS_HARNESS(P10_matrix32) { t_values<matrix_shape<3, 2>>(0, 3); }
VS_HARNESS(P10_vector) { t_values<vector_shape<3>>(0, 3); }
VS_HARNESS(P10_image) { t_values<image_shape>(0, 2); }
VS_HARNESS(P10_planar) { t_values<planar_image_shape>(0, 2); }
VS_HARNESS(P10_chunky) { t_values<chunky_image_shape<>>(0, 3); }
VS_HARNESS(P10_chunky3) { t_values<chunky_image_shape<3>>(0, 3); }
VS_HARNESS(P10_chunky34) { t_values<chunky_image_shape<3, 4>>(0, 3); }
VS_HARNESS(P10_chunky32) { t_values<chunky_image_shape<3, 2>>(0, 2); }
VS_HARNESS(P10_chunkyx) { t_values<chunky_image_shape<dynamic, 4>>(0, 3); }
VS_HARNESS(P10_chunky1) { t_values<chunky_image_shape<1>>(0, 3); }

// strides resolved by the library, and crops of them, over memory of exactly the right size
template <class S>
void t_own(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{MM, 0, emax, unresolved, unresolved});
  array<int, S> a(s, 1);
  rd(a.shape(), r);
  i64 n = prod(r, R), calls = 0;
  a.for_each_value([&](int& x) { CHECKM(x == 1, "each value once, by a mutable array"); x = 2; calls++; });
  CHECKM(calls == n, "count");
  const array<int, S>& c = a;
  i64 calls2 = 0;
  c.for_each_value([&](const int& x) { CHECKM(x == 2, "const array values"); calls2++; });
  CHECKM(calls2 == n, "const count");
  if (n) vs_reach("own");
}
VS_HARNESS(P10_own0) { t_own<shape<>>(0); }
VS_HARNESS(P10_own1) { t_own<shape_of_rank<1>>(4); }
VS_HARNESS(P10_own2) { t_own<dense_shape<2>>(3); }
VS_HARNESS(P10_own3) { t_own<shape_of_rank<3>>(3); }
VS_HARNESS(P10_own4) { t_own<shape<dim<>, dense_dim<>, dim<dynamic, 2>, dim<>>>(2); }
VS_HARNESS(P10_ownm) { t_own<matrix_shape<>>(3); }
VS_HARNESS(P10_ownc) { t_own<chunky_image_shape<3>>(3); }
VS_HARNESS(P10_ownp) { t_own<planar_image_shape>(2); }
VS_HARNESS(P10_ownf) { t_own<fixed_dense_shape<4, 3>>(2); }

// a crop of an owning array: only the elements of the crop
VS_HARNESS(P10_crop) {
  array<int, dense_shape<2>> a({{2, 4}, {1, 3}}, 0);
  i64 x0 = vs_choose("x0", 2, 5), y0 = vs_choose("y0", 1, 3), w = vs_choose("w", 0, 4), h = vs_choose("h", 0, 3);
  ASSUME(x0 + w <= 6 && y0 + h <= 4);
  i64 calls = 0;
  a(interval<>(x0, w), interval<>(y0, h)).for_each_value([&](int& v) { v++; calls++; });
  CHECKM(calls == w * h, "count");
  for (int y = 1; y < 4; y++)
    for (int x = 2; x < 6; x++)
      CHECKM(a(x, y) == (x >= x0 && x < x0 + w && y >= y0 && y < y0 + h ? 1 : 0), "exactly the crop");
  vs_reach("crop");
}

// null references
template <class S>
void t_null() {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{MM, 0, 2, -SS, SS});
  ASSUME(prod(r, R) == 0);
  i64 calls = 0;
  array_ref<int, S> a((int*)nullptr, s);
  a.for_each_value([&](int&) { calls++; });
  const_array_ref<int, S> b(nullptr, s);
  b.for_each_value([&](const int&) { calls++; });
  array<int, S> c;
  if (c.base() == nullptr) c.for_each_value([&](int&) { calls++; });
  CHECKM(calls == 0, "a null reference makes no calls");
  vs_reach("null");
}
VS_HARNESS(P10_null1) { t_null<shape_of_rank<1>>(); }
VS_HARNESS(P10_null2) { t_null<dense_shape<2>>(); }
VS_HARNESS(P10_null3) { t_null<image_shape>(); }
VS_HARNESS(P10_nullm) { t_null<matrix_shape<>>(); }
VS_HARNESS(P10_nullc) { t_null<chunky_image_shape<3>>(); }
VS_HARNESS(P10_nullc4) { t_null<chunky_image_shape<3, 4>>(); }
VS_HARNESS(P10_nulldef) {
  i64 calls = 0;
  array_ref<int, dense_shape<2>> a;
  a.for_each_value([&](int&) { calls++; });
  array_ref<int, matrix_shape<>> m;
  m.for_each_value([&](int&) { calls++; });
  dense_array<int, 3> d;
  d.for_each_value([&](int&) { calls++; });
  CHECKM(calls == 0 && a.empty() && m.empty() && d.empty(), "default constructed");
  vs_reach("nulldef");
}

// a callable object that is used twice
template <class S>
void t_keepv() {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{100, 0, 2, unresolved, unresolved});
  array<int, S> a(s, 0);
  i64 n = 0, how = vs_choose("how", 0, 2), e = a.size();
  Keep f(&n);
  for (int k = 0; k < 2; k++) {
    if (how == 0) a.for_each_value(f);
    else if (how == 1) a.ref().for_each_value(f);
    else a.cref().for_each_value(f);
    CHECKM(n == (k + 1) * e, "count");
  }
  if (e > 1) vs_reach("keep");
}
VS_HARNESS(P10_keep2) { t_keepv<dense_shape<2>>(); }
VS_HARNESS(P10_keepm) { t_keepv<matrix_shape<>>(); }
VS_HARNESS(P10_keepch) { t_keepv<chunky_image_shape<2>>(); }
VS_HARNESS(P10_keepim) { t_keepv<image_shape>(); }
