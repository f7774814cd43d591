// BOUND: values: every operator and assignment, over int/int64/uint8 element types with symbolic contents, owning arrays, references, const arrays, scalars, pointers, C arrays, callables; extents 0..3; mixed element types with the usual conversions
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/ein_reduce.h>
using namespace nda;

template <class T, i64 N>
struct Vals {
  T x[N];
  Vals(i64 lo, i64 hi) { for (i64 k = 0; k < N; k++) x[k] = (T)vs_sym("x", lo, hi); }
};
// every operator against plain arithmetic, elementwise: r = expr(a, b)
template <class F, class G>
static void t_op(F expr, G ref, bool nz = false) {
  const i64 B = 1000;
  Vals<int, 3> a(-B, B), b(-B, B), c(-B, B);
  if (nz) for (int k = 0; k < 3; k++) ASSUME(b.x[k] != 0);
  int m = (int)vs_sym("min", -5, 5);
  array<int, shape<dim<>>> r(shape<dim<>>({m, 3}), 77);
  array<int, shape<dim<>>> A(shape<dim<>>({m, 3})), Bv(shape<dim<>>({m, 3}));
  for (int k = 0; k < 3; k++) { A(m + k) = a.x[k]; Bv(m + k) = b.x[k]; }
  const array<int, shape<dim<>>>& BC = Bv;
  int s = c.x[0];
  const int cs = c.x[1];
  auto lhs = ein_reduce(ein<0>(r) = expr(ein<0>(A), ein<0>(BC), ein(s), ein(cs)));
  for (int k = 0; k < 3; k++) CHECKM(r(m + k) == ref(a.x[k], b.x[k], s, cs), "operator has its usual meaning");
  CHECKM(lhs.base() == r.base() && lhs.shape() == r.shape(), "the left-hand side is returned");
  for (int k = 0; k < 3; k++) CHECKM(A(m + k) == a.x[k] && Bv(m + k) == b.x[k], "operands are unchanged");
  vs_reach("op");
}
typedef int I;
VS_HARNESS(P23_op_add) { t_op([](auto a, auto b, auto, auto) { return a + b; }, [](I a, I b, I, I) { return a + b; }); }
VS_HARNESS(P23_op_sub) { t_op([](auto a, auto b, auto, auto) { return a - b; }, [](I a, I b, I, I) { return a - b; }); }
VS_HARNESS(P23_op_mul) { t_op([](auto a, auto b, auto, auto) { return a * b; }, [](I a, I b, I, I) { return a * b; }); }
VS_HARNESS(P23_op_div) { t_op([](auto a, auto b, auto, auto) { return a / b; }, [](I a, I b, I, I) { return a / b; }, true); }
VS_HARNESS(P23_op_neg) { t_op([](auto a, auto b, auto, auto) { return -a - -b; }, [](I a, I b, I, I) { return -a + b; }); }
VS_HARNESS(P23_op_min) { t_op([](auto a, auto b, auto s, auto) { return min(min(a, b), s); }, [](I a, I b, I s, I) { return std::min(std::min(a, b), s); }); }
VS_HARNESS(P23_op_max) { t_op([](auto a, auto b, auto, auto t) { return max(a, max(b, t)); }, [](I a, I b, I, I t) { return std::max(std::max(a, b), t); }); }
VS_HARNESS(P23_op_mix) { t_op([](auto a, auto b, auto s, auto t) { return (a - s) - (b - t) + max(a, b) * s; }, [](I a, I b, I s, I t) { return (a - s) - (b - t) + std::max(a, b) * s; }); }
VS_HARNESS(P23_op_assoc) { t_op([](auto a, auto b, auto s, auto t) { return a - b - s - t; }, [](I a, I b, I s, I t) { return a - b - s - t; }); }
VS_HARNESS(P23_op_prec) { t_op([](auto a, auto b, auto s, auto t) { return a + b * s - t; }, [](I a, I b, I s, I t) { return a + b * s - t; }); }
VS_HARNESS(P23_op_cast) {
  t_op([](auto a, auto b, auto, auto) { return cast<uint8_t>(a) + cast<int>(cast<int8_t>(a - b)); }, [](I a, I b, I, I) { return (int)(uint8_t)a + (int)(int8_t)(a - b); });
}
VS_HARNESS(P23_cast_wide) { // products computed in the wider type
  int32_t a[2] = {(int32_t)vs_sym("a", -P2(31), P2(31) - 1), 5}, b[2] = {7, (int32_t)vs_sym("b", -P2(31), P2(31) - 1)};
  int64_t r[2] = {0, 0};
  ein_reduce(ein<0>(r) += cast<int64_t>(ein<0>(a)) * cast<int64_t>(ein<0>(b)));
  CHECKM(r[0] == (int64_t)a[0] * 7 && r[1] == 5 * (int64_t)b[1], "cast before the product");
  vs_reach("cast");
}
// operands of different types: the operators convert as they do in plain code
template <class A, class B, class F>
static void t_mixed(F f) {
  A a = (A)vs_sym("a", -P2(31), P2(31) - 1);
  B b = (B)vs_sym("b", -P2(20), P2(32) - 1);
  dense_array<A, 1> x({2}, a);
  dense_array<B, 1> y({2}, b);
  dense_array<int64_t, 1> r({2}, (int64_t)0);
  ein_reduce(ein<0>(r) = f(ein<0>(x), ein<0>(y)));
  const int64_t want = (int64_t)f(a, b);
  CHECKM(r(0) == want && r(1) == want, "usual arithmetic conversions");
  vs_reach("mixed");
}
template <class A, class B>
static void t_mixed3() {
  switch (vs_choose("op", 0, 2)) {
  case 0: t_mixed<A, B>([](auto a, auto b) { return a + b; }); break;
  case 1: t_mixed<A, B>([](auto a, auto b) { return a - b; }); break;
  default: t_mixed<A, B>([](auto a, auto b) { return a * b; });
  }
}
VS_HARNESS(P23_mixed_iu) { t_mixed3<int64_t, uint32_t>(); }
VS_HARNESS(P23_mixed_ui) { t_mixed3<uint32_t, int32_t>(); }
VS_HARNESS(P23_mixed_bb) { t_mixed3<uint8_t, uint8_t>(); }
VS_HARNESS(P23_mixed_bi) { t_mixed3<int8_t, uint32_t>(); }
template <class F, class G>
static void t_assign(F f, G g) {
  int r0 = (int)vs_sym("r0", -1000, 1000), a[3];
  for (int k = 0; k < 3; k++) a[k] = (int)vs_sym("a", -20, 20);
  // scalar result (reduction), pointer operand
  int r = r0, e = r0;
  auto lhs = ein_reduce(f(ein(r), ein<0>(&a[0], 3)));
  for (int k = 0; k < 3; k++) g(e, a[k]);
  CHECKM(r == e, "scalar result");
  CHECKM(lhs.base() == &r, "returns the left-hand side");
  // elementwise, C array operand, part of a larger buffer untouched
  int buf[7];
  for (int k = 0; k < 7; k++) buf[k] = r0 + k;
  array_ref<int, shape<dim<>>> rr(buf + 1, shape<dim<>>(dim<>(0, 3, 2)));
  ein_reduce(f(ein<0>(rr), ein<0>(a)));
  for (int k = 0; k < 7; k++) {
    int x = r0 + k;
    if (k % 2 == 1) g(x, a[k / 2]);
    CHECKM(buf[k] == x, "each result element once, everything else untouched");
  }
  vs_reach("assign");
}
VS_HARNESS(P23_assign) { t_assign([](auto r, auto a) { return r = a; }, [](int& r, int a) { r = a; }); }
VS_HARNESS(P23_addassign) { t_assign([](auto r, auto a) { return r += a; }, [](int& r, int a) { r += a; }); }
VS_HARNESS(P23_subassign) { t_assign([](auto r, auto a) { return r -= a; }, [](int& r, int a) { r -= a; }); }
VS_HARNESS(P23_mulassign) { t_assign([](auto r, auto a) { return r *= a; }, [](int& r, int a) { r *= a; }); }

// result part of a larger buffer: sums into a crop, all else untouched; static and dynamic shapes
template <class SR, class SA, class SB>
static void t_mat(int m, int n, int k) {
  typedef unsigned U; // wraps: the oracle may sum in any order
  array<U, SA> A(SA({0, m}, {0, k}));
  array<U, SB> B(SB({0, k}, {0, n}));
  array<U, SR> C(SR({0, m}, {0, n}), 3u);
  A.for_each_value([](U& x) { x = (U)vs_sym("x", 0, 255); });
  B.for_each_value([](U& x) { x = (U)vs_sym("x", 0, 255); });
  ein_reduce(ein<1, 0>(C) += ein<1, 2>(A) * ein<2, 0>(B));
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      U s = 3;
      for (int l = 0; l < k; l++) s += A(i, l) * B(l, j);
      CHECKM(C(i, j) == s, "matrix product added to the previous contents");
    }
  vs_reach("mat");
}
typedef shape_of_rank<2> G2;
typedef shape<dim<>, dense_dim<>> RM;
VS_HARNESS(P23_mat_dyn) {
  int m = vs_choose("m", 0, 3), n = vs_choose("n", 0, 3), k = vs_choose("k", 0, 3);
  t_mat<RM, RM, RM>(m, n, k);
}
VS_HARNESS(P23_mat_static) { t_mat<shape<dim<0, 3>, dense_dim<0, 2>>, shape<dim<0, 3>, dense_dim<0, 4>>, shape<dim<0, 4>, dense_dim<0, 2>>>(3, 2, 4); }
VS_HARNESS(P23_mat_mix) { t_mat<shape<dense_dim<>, dim<0, 2>>, shape<dim<0, 3>, dim<>>, shape<dense_dim<0, 3>, dim<>>>(3, 2, 3); }

// the idioms of the header
VS_HARNESS(P23_idioms) {
  Vals<int, 9> x(-9, 9);
  Vals<int, 3> u(-9, 9), w(-9, 9), z(-9, 9);
  dense_array<int, 2> A({3, 3});
  int k = 0;
  A.for_each_value([&](int& e) { e = x.x[k++]; });
  dense_array<int, 0> tr({}, 0), dot({}, 0);
  ein_reduce(ein<>(tr) += ein<0, 0>(A));
  CHECKM(tr() == A(0, 0) + A(1, 1) + A(2, 2), "trace");
  ein_reduce(ein<>(dot) += (ein<0>(u.x) + ein<0>(w.x)) * ein<0>(z.x));
  CHECKM(dot() == (u.x[0] + w.x[0]) * z.x[0] + (u.x[1] + w.x[1]) * z.x[1] + (u.x[2] + w.x[2]) * z.x[2], "dot");
  int mx = -1000;
  ein_reduce(ein<>(array_ref<int, shape<>>(&mx, {})) = max(ein<0>(u.x), ein<>(array_ref<int, shape<>>(&mx, {}))));
  CHECKM(mx == std::max(u.x[0], std::max(u.x[1], u.x[2])), "reduction by max of itself");
  dense_array<int, 1> d({3}, 0);
  ein_reduce(ein<1>(d) = ein<1, 1>(A));
  for (int i = 0; i < 3; i++) CHECKM(d(i) == A(i, i), "diagonal");
  // cross product of the header's tests: a permutation symbol callable
  int c[3] = {0, 0, 0};
  auto eps = [](index_t i, index_t j, index_t k) { return (int)(((j - i) * (k - i) * (k - j)) / 2); };
  ein_reduce(ein<0>(c) += ein<0, 1, 2>(eps) * ein<1>(u.x) * ein<2>(w.x));
  for (int i = 0; i < 3; i++)
    CHECKM(c[i] == u.x[(i + 1) % 3] * w.x[(i + 2) % 3] - u.x[(i + 2) % 3] * w.x[(i + 1) % 3], "cross product");
  vs_reach("idioms");
}

// expressions kept after the statement that built them, and reduced more than once
template <class A, class B>
__attribute__((noinline)) static auto keep1(const A& a, const B& b) { return max(ein<0, 2>(a) * ein<2, 1>(b), -ein<0, 2>(a)) + cast<int>(ein<2, 1>(b)); }
template <class A, class B>
__attribute__((noinline)) static auto keep2(const A& a, const B& b) { return min(ein<0, 1>(a) - ein<1, 0>(b), ein<0, 1>(a)) / ein<1>(b.base() + 0, 2); }
__attribute__((noinline)) static int noise(int n) {
  volatile int x[64];
  for (int k = 0; k < 64; k++) x[k] = n;
  return x[n];
}
VS_HARNESS(P23_kept) {
  Vals<int, 4> a(-100, 100), b(1, 100);
  dense_array<int, 2> A({2, 2}), B({2, 2}), C({2, 2}, 0), D({2, 2}, 0);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++) { A(i, j) = a.x[2 * i + j]; B(i, j) = b.x[2 * i + j]; }
  auto e = keep1(A, B);
  noise(7);
  auto f = ein<0, 1>(C) += e;
  noise(9);
  ein_reduce(f);
  ein_reduce(ein<1, 0>(D) += e);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++) {
      int s = 0;
      for (int k = 0; k < 2; k++) s += std::max(A(i, k) * B(k, j), -A(i, k)) + B(k, j);
      CHECKM(C(i, j) == s && D(j, i) == s, "a kept expression is evaluated as written");
    }
  auto g = keep2(A, B);
  noise(3);
  ein_reduce(ein<0, 1>(C) = g);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++) CHECKM(C(i, j) == std::min(A(i, j) - B(j, i), A(i, j)) / b.x[2 * j], "a kept expression is evaluated as written");
  vs_reach("kept");
}
