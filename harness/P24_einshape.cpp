// BOUND: inferred shapes: 9 expression forms, ranks 0-4, every min and stride symbolic, extents symbolic in [0, 2^20] (shape only) or case split 0..3 (sums); static, partly static and dynamic operand shapes
// BOUND: sums: int and unsigned elements with symbolic contents, symbolic initial value
// BOUND: diagnosis: any min and any extent in [1, 2^20] of result and operands on both sides of agreement, loops of at most 1 iteration executed (extent 1) when the operands agree
// VSCONFIG: -
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/ein_reduce.h>
#include <array/matrix.h>
using namespace nda;
static const i64 MM = P2(20), SS = P2(10);
static const Rng G = {MM, 0, VS_T(P2(9), P2(12)), -SS, SS};

// the inferred dims: bounds of `want`, strides compact in order
static void compact_check(const RD* got, const RD* want, size_t n) {
  bool b = true, st = true, full = true;
  for (size_t k = 0; k < n; k++) {
    b = b & (got[k].min == want[k].min) & (got[k].ext == want[k].ext);
    st = st & (got[k].str == (k ? got[k - 1].str * want[k - 1].ext : 1));
    full = full & (want[k].ext > 0);
  }
  CHECKM(b, "bounds of the operand dims with the result's indices");
  CHECKM(!full | st, "compact strides, first result index densest");
}
template <class S1>
static array_ref<int, S1> ref(S1 s, int k) { return array_ref<int, S1>((int*)vs_abstract(k), s); }

VS_HARNESS(P24_shape_t) { // transpose and identity
  RD a[3], g[3];
  auto s = mk<shape_of_rank<2>>(a, G);
  auto A = ref(s, 0);
  auto t = make_ein_reduce_shape<1, 0>(ein<0, 1>(A));
  rd(t, g);
  RD w[2] = {a[1], a[0]};
  compact_check(g, w, 2);
  rd(make_ein_reduce_shape<0, 1>(ein<0, 1>(A)), g);
  compact_check(g, a, 2);
  rd(make_ein_reduce_shape<1>(ein<0, 1>(A)), g);
  compact_check(g, a + 1, 1);
  static_assert(decltype(make_ein_reduce_shape<>(ein<0, 1>(A)))::rank() == 0, "");
  vs_reach("t");
}
VS_HARNESS(P24_shape_mm) {
  RD a[3], b[3], g[3];
  auto sa = mk<shape_of_rank<2>>(a, G);
  auto sb = mk<shape_of_rank<2>>(b, G);
  auto A = ref(sa, 0), B = ref(sb, 1);
  rd(make_ein_reduce_shape<0, 1>(ein<0, 2>(A) * ein<2, 1>(B)), g);
  RD w[2] = {a[0], b[1]};
  compact_check(g, w, 2);
  rd(make_ein_reduce_shape<1, 0>(ein<0, 2>(A) * ein<2, 1>(B)), g);
  RD w2[2] = {b[1], a[0]};
  compact_check(g, w2, 2);
  vs_reach("mm");
}
VS_HARNESS(P24_shape_nested) { // through negation, casts, min/max, scalars and callables
  RD a[3], b[3], g[3];
  auto sa = mk<shape_of_rank<1>>(a, G);
  auto sb = mk<shape_of_rank<1>>(b, G);
  auto A = ref(sa, 0), B = ref(sb, 1);
  int sc = 1;
  auto f = [](index_t, index_t) { return 1; };
  rd(make_ein_reduce_shape<1, 0>(-cast<long>(ein<0>(A)) + max(ein(sc) * ein<0, 1>(f), min(ein<1>(B), ein(sc)))), g);
  RD w[2] = {b[0], a[0]};
  compact_check(g, w, 2);
  vs_reach("nested");
}
VS_HARNESS(P24_shape_multi) { // several operands carry a result index: the bounds are those of them all
  RD a[3], b[3], g[3];
  auto sa = mk<shape_of_rank<2>>(a, Rng{MM, 1, P2(9), 1, SS});
  b[0] = RD{a[0].min, a[0].ext, vs_sym("bs", 1, SS)};
  shape_of_rank<1> sb(dim<>(b[0].min, b[0].ext, b[0].str));
  auto A = ref(sa, 0);
  auto B = ref(sb, 1);
  rd(make_ein_reduce_shape<0, 1>(ein<0, 1>(A) - ein<0>(B)), g);
  compact_check(g, a, 2);
  rd(make_ein_reduce_shape<1, 0>(ein<0>(B) - ein<0, 1>(A)), g);
  RD w[2] = {a[1], a[0]};
  compact_check(g, w, 2);
  vs_reach("multi");
}
VS_HARNESS(P24_shape_r4) {
  RD a[4], b[4], g[4];
  const Rng G6 = {MM, 0, P2(6), -SS, SS};
  auto sa = mk<shape_of_rank<3>>(a, G6);
  auto sb = mk<shape_of_rank<3>>(b, G6);
  auto A = ref(sa, 0), B = ref(sb, 1);
  rd(make_ein_reduce_shape<3, 1, 4, 0>(ein<0, 1, 2>(A) * ein<2, 3, 4>(B)), g);
  RD w[4] = {b[1], a[1], b[2], a[0]};
  compact_check(g, w, 4);
  vs_reach("r4");
}
VS_HARNESS(P24_shape_static) {
  RD a[3], b[3], g[3];
  auto sa = mk<shape<dim<2, 3, 7>, dim<dynamic, 5>>>(a, G);
  auto sb = mk<shape<dim<>, dense_dim<-1, 4>>>(b, G);
  auto A = ref(sa, 0);
  auto B = ref(sb, 1);
  auto s = make_ein_reduce_shape<0, 1>(ein<0, 2>(A) * ein<2, 1>(B));
  rd(s, g);
  RD w[2] = {a[0], b[1]};
  compact_check(g, w, 2);
  auto s2 = make_ein_reduce_shape<1, 0>(ein<0, 2>(A) * ein<2, 1>(B));
  rd(s2, g);
  RD w2[2] = {b[1], a[0]};
  compact_check(g, w2, 2);
  CHECKM(std::decay_t<decltype(s.x())>::Extent == 3 && std::decay_t<decltype(s.y())>::Min == -1, "compile-time bounds are kept");
  // C arrays and pointers
  int c[6], n = (int)vs_sym("n", 0, 100);
  rd(make_ein_reduce_shape<1, 0>(ein<0>(c) * ein<1>(&c[0], n)), g);
  RD w3[2] = {{0, n, 0}, {0, 6, 0}};
  compact_check(g, w3, 2);
  vs_reach("static");
}

// ---- sums
static unsigned g_z;
template <class A>
static void fill(A& a) { a.for_each_value([](unsigned& x) { x = (unsigned)vs_sym("x", 0, 255); }); }
VS_HARNESS(P24_sum_mm) {
  i64 m = vs_choose("m", 0, 3), n = vs_choose("n", 0, 2), k = vs_choose("k", 0, 3);
  i64 m0 = vs_sym("m0", -MM, MM), n0 = vs_sym("n0", -MM, MM), k0 = vs_sym("k0", -MM, MM);
  dense_array<unsigned, 2> A({{m0, m}, {k0, k}});
  array<unsigned, matrix_shape<>> B({{k0, k}, {n0, n}});
  fill(A); fill(B);
  unsigned init = (unsigned)vs_sym("init", 0, 1000);
  auto C = make_ein_sum<unsigned, 0, 1>(ein<0, 2>(A) * ein<2, 1>(B), init);
  RD g[2], w[2] = {{m0, m, 1}, {n0, n, m}};
  rd(C.shape(), g);
  compact_check(g, w, 2);
  for (i64 i = 0; i < m; i++)
    for (i64 j = 0; j < n; j++) {
      unsigned s = init;
      for (i64 l = 0; l < k; l++) s += A(m0 + i, k0 + l) * B(k0 + l, n0 + j);
      CHECKM(C(m0 + i, n0 + j) == s, "initial value plus the sum");
    }
  if (m && n && k) vs_reach("sum"); else vs_reach("empty");
}
VS_HARNESS(P24_sum_misc) {
  i64 m = vs_choose("m", 0, 3), n = vs_choose("n", 0, 3);
  i64 m0 = vs_sym("m0", -MM, MM), n0 = vs_sym("n0", -MM, MM);
  dense_array<unsigned, 2> A({{m0, m}, {n0, n}});
  dense_array<unsigned, 1> x({{n0, n}});
  fill(A); fill(x);
  auto y = make_ein_sum<unsigned, 0>(ein<0, 1>(A) * ein<1>(x));
  CHECKM(y.x().min() == m0 && y.x().extent() == m && y.x().stride() == 1, "shape of Ax");
  for (i64 i = 0; i < m; i++) {
    unsigned s = 0;
    for (i64 j = 0; j < n; j++) s += A(m0 + i, n0 + j) * x(n0 + j);
    CHECKM(y(m0 + i) == s, "Ax");
  }
  auto d = make_ein_sum<unsigned>(ein<1>(x) * ein<1>(x), 5u);
  unsigned s = 5, sr = 0, all = 0;
  for (i64 j = 0; j < n; j++) s += x(n0 + j) * x(n0 + j);
  CHECKM(d() == s, "dot");
  auto t = make_ein_sum<unsigned, 1>(ein<0, 1>(A));
  for (i64 j = 0; j < n; j++) {
    sr = 0;
    for (i64 i = 0; i < m; i++) sr += A(m0 + i, n0 + j);
    CHECKM(t(n0 + j) == sr, "column sums");
    all += sr;
  }
  CHECKM(make_ein_sum<unsigned>(ein<0, 1>(A))() == all, "full sum");
  auto o = make_ein_sum<unsigned, 2, 0>(ein<0>(x) * ein<2>(y));
  for (i64 i = 0; i < m; i++)
    for (i64 j = 0; j < n; j++) CHECKM(o(m0 + i, n0 + j) == x(n0 + j) * y(m0 + i), "outer product");
  if (m && n) vs_reach("misc");
}
VS_HARNESS(P24_sum_own) { // allocator argument, fully static shapes
  dense_array<unsigned, 1, uninitialized_std_allocator<unsigned>> q({4});
  array<unsigned, shape<dim<0, 2, 3>, dim<0, 3, 1>>> A;
  fill(A);
  auto C = make_ein_sum<unsigned, 1, 0>(ein<0, 1>(A), 9u, uninitialized_std_allocator<unsigned>());
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 3; j++) CHECKM(C(j, i) == A(i, j) + 9, "transposed sum");
  RD g[2], w[2] = {{0, 3, 0}, {0, 2, 0}};
  rd(C.shape(), g);
  compact_check(g, w, 2);
  vs_reach("own");
}
// the result and its accumulation have the requested type
VS_HARNESS(P24_sum_types) {
  dense_array<int32_t, 1> x({3});
  dense_array<uint8_t, 2> A({3, 2});
  x.for_each_value([](int32_t& v) { v = (int32_t)vs_sym("x", -P2(31), P2(31) - 1); });
  A.for_each_value([](uint8_t& v) { v = (uint8_t)vs_sym("a", 0, 255); });
  i64 init = vs_sym("init", -P2(40), P2(40));
  auto s = make_ein_sum<i64>(ein<0>(x), init);
  CHECKM(s() == init + x(0) + x(1) + x(2), "summed in the requested type");
  auto t = make_ein_sum<unsigned, 1>(ein<0, 1>(A));
  auto u = make_ein_sum<uint8_t, 1>(ein<0, 1>(A), (uint8_t)3);
  auto p = make_ein_sum<i64, 0>(cast<i64>(ein<0>(x)) * ein<0>(x));
  for (int j = 0; j < 2; j++) {
    CHECKM(t(j) == 0u + A(0, j) + A(1, j) + A(2, j), "summed in the requested type");
    CHECKM(u(j) == (uint8_t)(3 + A(0, j) + A(1, j) + A(2, j)), "summed in the requested type");
  }
  for (int j = 0; j < 3; j++) CHECKM(p(j) == (i64)x(j) * x(j), "summed in the requested type");
  vs_reach("types");
}
// the given allocator is used
static i64 g_from[4];
static int g_nfrom, g_nback;
template <class T>
struct Al {
  using value_type = T;
  using propagate_on_container_move_assignment = std::true_type;
  using is_always_equal = std::false_type;
  i64 id;
  Al(i64 id = 0) : id(id) {}
  T* allocate(size_t n) { g_from[g_nfrom++ & 3] = id; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, size_t) { g_nback++; ::operator delete(p); }
  friend bool operator==(const Al& a, const Al& b) { return a.id == b.id; }
  friend bool operator!=(const Al& a, const Al& b) { return a.id != b.id; }
};
VS_HARNESS(P24_sum_alloc) {
  dense_array<unsigned, 2> A({3, 2});
  fill(A);
  i64 id = vs_sym("id", 1, 1000);
  g_nfrom = g_nback = 0;
  {
    auto e = ein<0, 1>(A);
    auto C = make_ein_sum<unsigned, 1>(e, 9u, Al<unsigned>(id));
    CHECKM(C.get_allocator().id == id && g_nfrom >= 1, "the given allocator is used");
    for (int k = 0; k < g_nfrom; k++) CHECKM(g_from[k & 3] == id, "the given allocator is used");
    for (int j = 0; j < 2; j++) CHECKM(C(j) == 9 + A(0, j) + A(1, j) + A(2, j), "column sums");
  }
  CHECKM(g_nfrom == g_nback, "memory is returned");
  vs_reach("alloc");
}

// ---- diagnosis (assertions enabled): a summed index with disagreeing bounds, or a result that the operands
// do not cover.
VS_HARNESS(P24_diag_sum) {
  RD a = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)}, b = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)};
  static int r;
  bool agree = (a.min == b.min) & (a.ext == b.ext);
  if (agree) ASSUME(a.ext == 1);
  auto f = [&] {
    int z[1] = {1};
    r = 0;
    // operands over one element each when they agree, otherwise never reached
    array_ref<int, shape<dim<>>> A(z, shape<dim<>>(dim<>(a.min, a.ext, a.str))), B(z, shape<dim<>>(dim<>(b.min, b.ext, b.str)));
    ein_reduce(ein(r) += ein<0>(A) * ein<0>(B));
  };
  bool fired = vs_asserts(f);
  CHECKM(fired == !agree, "disagreeing bounds on a summed index are diagnosed, agreeing ones are not");
  if (fired) vs_reach("fired"); else { CHECKM(r == 1, "sum"); vs_reach("quiet"); }
}
VS_HARNESS(P24_diag_sum3) { // the disagreeing operand is the last of three, on the second index
  RD a = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), 1}, b = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), 1};
  static int r;
  bool agree = (a.min == b.min) & (a.ext == b.ext);
  if (agree) ASSUME(a.ext == 1);
  auto f = [&] {
    int z[1] = {1};
    r = 0;
    array_ref<int, shape<dim<>, dim<>>> A(z, shape<dim<>, dim<>>(dim<>(5, 1, 1), dim<>(a.min, a.ext, a.str)));
    array_ref<int, shape<dim<>>> B(z, shape<dim<>>(dim<>(a.min, a.ext, a.str)));
    array_ref<int, shape<dim<>, dim<>>> C(z, shape<dim<>, dim<>>(dim<>(b.min, b.ext, b.str), dim<>(5, 1, 1)));
    ein_reduce(ein(r) += ein<0, 1>(A) * ein<1>(B) - -ein<1, 0>(C));
  };
  bool fired = vs_asserts(f);
  CHECKM(fired == !agree, "a later operand's disagreeing bounds are diagnosed");
  if (fired) vs_reach("fired"); else { CHECKM(r == 2, "sum"); vs_reach("quiet"); }
}
VS_HARNESS(P24_diag_res) {
  RD r = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)}, a = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)};
  ASSUME(r.str != 0);
  static int z, o;
  bool contains = (a.min <= r.min) & (r.min + r.ext <= a.min + a.ext);
  if (contains) ASSUME(r.ext == 1);
  if (contains) ASSUME(a.min == r.min);
  auto f = [&] {
    z = 7; o = 0;
    array_ref<int, shape<dim<>>> R(&o, shape<dim<>>(dim<>(r.min, r.ext, r.str)));
    array_ref<const int, shape<dim<>>> A(&z, shape<dim<>>(dim<>(a.min, a.ext, a.str)));
    ein_reduce(ein<0>(R) = ein<0>(A));
  };
  bool fired = vs_asserts(f);
  CHECKM(fired == !contains, "operands that do not contain the result's bounds are diagnosed, others are not");
  if (fired) vs_reach("fired"); else { CHECKM(o == 7, "assigned"); vs_reach("quiet"); }
}
// operands may exceed the result without a diagnosis
VS_HARNESS(P24_diag_slack) {
  i64 lo = vs_sym("lo", 0, 3), hi = vs_sym("hi", 0, 3), m = vs_sym("m", -MM, MM), e = vs_choose("e", 0, 2);
  static int src[16], dst[4];
  auto f = [&] {
    for (int k = 0; k < 16; k++) src[k] = k;
    for (int k = 0; k < 4; k++) dst[k] = -1;
    array_ref<int, shape<dense_dim<>>> R(dst, shape<dense_dim<>>(dense_dim<>(m, e)));
    array_ref<const int, shape<dense_dim<>>> A(src, shape<dense_dim<>>(dense_dim<>(m - lo, e + lo + hi)));
    ein_reduce(ein<0>(R) = ein<0>(A));
  };
  CHECKM(!vs_asserts(f), "a result inside the operand is not diagnosed");
  for (int k = 0; k < 4; k++) CHECKM(dst[k] == (k < e ? (int)(k + lo) : -1), "assigned from the same indices");
  vs_reach("slack");
}
// make_ein_sum with disagreeing operands on a result index
VS_HARNESS(P24_diag_infer) {
  RD a = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", 1, SS)}, b = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", 1, SS)};
  bool inside = (b.min <= a.min) & (a.min + a.ext <= b.min + b.ext);
  auto f = [&] {
    auto A = ref(shape<dim<>>(dim<>(a.min, a.ext, a.str)), 0), B = ref(shape<dim<>>(dim<>(b.min, b.ext, b.str)), 1);
    auto s = make_ein_reduce_shape<0>(ein<0>(A) * ein<0>(B));
    vs_trace("e", s.x().extent());
  };
  bool fired = vs_asserts(f);
  if (!inside) { CHECKM(fired, "an operand that does not contain the inferred result bounds is diagnosed"); vs_reach("fired"); }
  if ((a.min == b.min) & (a.ext == b.ext)) { CHECKM(!fired, "agreeing operands are not"); vs_reach("quiet"); }
}
// an operand that carries a summed index in two dims of different bounds
VS_HARNESS(P24_diag_rep) {
  RD a = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)}, b = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)};
  static int r;
  bool agree = (a.min == b.min) & (a.ext == b.ext);
  ASSUME(a.ext == 1 || !agree);
  auto f = [&] {
    static int z[1];
    z[0] = 3; r = 0;
    array_ref<int, shape<dim<>, dim<>>> A(z, shape<dim<>, dim<>>(dim<>(a.min, a.ext, a.str), dim<>(b.min, b.ext, b.str)));
    ein_reduce(ein(r) += ein<0, 0>(A));
  };
  bool fired = vs_asserts(f);
  CHECKM(fired == !agree, "disagreeing bounds of two dims of an operand on the same index are diagnosed, agreeing ones are not");
  if (fired) vs_reach("fired"); else { CHECKM(r == 3, "sum"); vs_reach("quiet"); }
}
// an operand that carries a result index twice, and a result that does
VS_HARNESS(P24_diag_rep_res) {
  RD r = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)}, a = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)};
  ASSUME(r.str != 0);
  static int z, o;
  bool contains = (a.min <= r.min) & (r.min + r.ext <= a.min + a.ext);
  if (contains) ASSUME(r.ext == 1);
  if (contains) ASSUME(a.min == r.min);
  i64 which = vs_choose("which", 0, 1);
  auto f = [&] {
    z = 7; o = 0;
    shape<dim<>> one(dim<>(r.min, r.ext, r.str));
    shape<dim<>, dim<>> two(dim<>(r.min, r.ext, r.str), dim<>(a.min, a.ext, a.str));
    if (which == 0) {
      array_ref<int, shape<dim<>>> R(&o, one);
      array_ref<const int, shape<dim<>, dim<>>> A(&z, two);
      ein_reduce(ein<0>(R) = ein<0, 0>(A));
    } else {
      array_ref<int, shape<dim<>, dim<>>> R(&o, two);
      array_ref<const int, shape<dim<>>> A(&z, one);
      ein_reduce(ein<0, 0>(R) = ein<0>(A));
    }
  };
  bool fired = vs_asserts(f);
  CHECKM(fired == !contains, "every dim that carries the index must contain the bounds of the result");
  if (fired) vs_reach("fired"); else { CHECKM(o == 7, "assigned"); vs_reach("quiet"); }
}
// results whose dim has stride 0
VS_HARNESS(P24_diag_zero) {
  RD r = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), 0}, a = {vs_sym("m", -MM, MM), vs_sym("e", 1, P2(20)), vs_sym("s", -SS, SS)};
  static int z, o;
  bool contains = (a.min <= r.min) & (r.min + r.ext <= a.min + a.ext);
  if (contains) ASSUME(r.ext == 1);
  if (contains) ASSUME(a.min == r.min);
  i64 which = vs_choose("which", 0, 1);
  auto f = [&] {
    z = 7; o = 0;
    array_ref<int, shape<dim<>>> R(&o, shape<dim<>>(dim<>(r.min, r.ext, 0)));
    array_ref<int, shape<broadcast_dim<>>> Rb(&o, shape<broadcast_dim<>>(broadcast_dim<>(r.min, r.ext)));
    array_ref<const int, shape<dim<>>> A(&z, shape<dim<>>(dim<>(a.min, a.ext, a.str)));
    if (which) ein_reduce(ein<0>(Rb) += ein<0>(A));
    else ein_reduce(ein<0>(R) += ein<0>(A));
  };
  bool fired = vs_asserts(f);
  CHECKM(fired == !contains, "a result that the operand contains is not diagnosed whatever its stride");
  if (fired) vs_reach("fired"); else { CHECKM(o == 7, "assigned"); vs_reach("quiet"); }
}
