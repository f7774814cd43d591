// BOUND: ranks 0-4, extents 0..4 (rank 1), 0..3 (rank 2), 0..2 (ranks 3, 4) case split, every dynamic stride symbolic in |s| <= 2^10, any min; memory is seen only through the element's assignment operator
// BOUND: the callables are copyable function objects, returning values or references; owning arrays with arbitrary previous int contents
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;
static const i64 MM = P2(16), SS = P2(10);

struct Val { i64 k; i64 idx[4]; };
static struct Ev { const void* at; Val v; } g_ev[100];
static int g_n;
struct E {
  int v;
  E& operator=(const Val& x) { g_ev[g_n].at = this; g_ev[g_n++].v = x; return *this; }
};
static int g_fill;
struct FE { // element for fill: assigned from the same type
  int v;
  FE(int v = 0) : v(v) {}
  FE(const FE& o) : v(o.v) {}
  FE& operator=(const FE& o) { g_ev[g_n].at = this; g_ev[g_n++].v.k = o.v; return *this; }
};
static void* g_seq[100];
static int g_seqn;
static int* g_base;
static i64 g_o[100];
static int g_cnt;
static void expect(const RD* r, size_t R, size_t d, i64 acc) {
  if (d == R) { g_o[g_cnt++] = acc; return; }
  for (i64 p = 0; p < r[d].ext; p++) expect(r, R, d + 1, acc + p * r[d].str);
}
// all in-range addresses are among the events, once each
static void verify_all() {
  CHECKM(g_n == g_cnt, "one assignment per index");
  bool used[100] = {};
  for (int e = 0; e < g_n; e++) {
    int hit = -1;
    for (int k = 0; k < g_cnt && hit < 0; k++) if (!used[k] && vs_must(g_ev[e].at == g_base + g_o[k])) hit = k;
    for (int k = 0; k < g_cnt && hit < 0; k++) if (!used[k] && g_ev[e].at == g_base + g_o[k]) hit = k;
    CHECKM(hit >= 0, "only addressed elements are written, once each");
    if (hit < 0) return;
    used[hit] = true;
  }
}

template <class S>
void t_fill(i64 elo, i64 ehi) {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{MM, elo, ehi, -SS, SS});
  g_base = (int*)vs_abstract(1);
  g_n = g_cnt = 0;
  expect(r, R, 0, 0);
  i64 op = vs_choose("op", 0, 3);
  if (op == 0) {
    array_ref<FE, S> a((FE*)g_base, s);
    FE value(vs_sym("value", -100, 100));
    int v = value.v;
    fill(a, value);
    verify_all();
    for (int e = 0; e < g_n; e++) CHECKM(g_ev[e].v.k == v, "the value is assigned");
    CHECKM(value.v == v, "value unchanged");
  } else if (op == 1) {
    array_ref<E, S> a((E*)g_base, s);
    int calls = 0;
    generate(a, [&calls]() { return Val{calls++, {}}; });
    verify_all();
    CHECKM(calls == g_n, "one generator call per element");
    for (int e = 0; e < g_n; e++) CHECKM(g_ev[e].v.k == e, "results are assigned in call order");
    g_seqn = 0;
    a.for_each_value([](E& x) { g_seq[g_seqn++] = &x; });
    CHECKM(g_seqn == g_n, "count");
    for (int e = 0; e < g_n; e++) CHECKM(g_seq[e] == g_ev[e].at, "in value traversal order");
  } else {
    array_ref<E, S> a((E*)g_base, s);
    int calls = 0;
    auto mkval = [&](const typename S::index_type& i) {
      Val v = {calls++, {}};
      auto t = arr(i);
      for (size_t k = 0; k < R; k++) v.idx[k] = t[k];
      return v;
    };
    if (op == 2) transform_index(a, mkval);
    else transform_indices(a, [&](auto... i) { return mkval(typename S::index_type(i...)); });
    verify_all();
    CHECKM(calls == g_n, "one call per element");
    for (int e = 0; e < g_n; e++) {
      CHECKM(g_ev[e].v.k == e, "assigned from the call made for it");
      CHECKM(inr(r, R, g_ev[e].v.idx), "index in range");
      CHECKM(g_ev[e].at == g_base + off(r, R, g_ev[e].v.idx), "assigned to the element at its own index");
    }
    int q = 0;
    bool order = true;
    for_each_index(s, [&](const typename S::index_type& i) {
      auto t = arr(i);
      for (size_t k = 0; k < R; k++) order = order & (q < g_n && t[k] == g_ev[q].v.idx[k]);
      q++;
    });
    CHECKM(order && q == g_n, "in index order");
  }
  vs_trace("n", g_n);
  if (g_n == 0) vs_reach("empty");
  if (g_n > 3 && op == 0) vs_reach("filled");
  if (g_n > 3 && op == 1) vs_reach("generated");
  if (g_n > 3 && op == 2) vs_reach("transformed");
  if (g_n > 3 && op == 3) vs_reach("transformed indices");
}
VS_HARNESS(P13_r0) { t_fill<shape<>>(0, 0); }
VS_HARNESS(P13_r1) { t_fill<shape_of_rank<1>>(0, 4); }
VS_HARNESS(P13_r2) { t_fill<shape_of_rank<2>>(0, VS_T(3, 5)); }
VS_HARNESS(P13_r3) { t_fill<shape_of_rank<3>>(0, VS_T(2, 3)); }
VS_HARNESS(P13_r4) { t_fill<shape<dim<>, dim<>, dim<dynamic, dynamic, 1>, dim<dynamic, 2>>>(0, 2); }
VS_HARNESS(P13_d2) { t_fill<dense_shape<2>>(0, 3); }
VS_HARNESS(P13_d3) { t_fill<dense_shape<3>>(0, VS_T(2, 3)); }
VS_HARNESS(P13_bc) { t_fill<shape<broadcast_dim<>, dim<>>>(0, 3); }
VS_HARNESS(P13_fixed) { t_fill<fixed_dense_shape<3, 2, 2>>(0, 0); }
VS_HARNESS(P13_matrix) { t_fill<matrix_shape<>>(0, 3); }
VS_HARNESS(P13_image) { t_fill<image_shape>(0, 2); }
VS_HARNESS(P13_planar) { t_fill<planar_image_shape>(0, 2); }
VS_HARNESS(P13_chunky) { t_fill<chunky_image_shape<>>(0, 2); }
VS_HARNESS(P13_chunky3) { t_fill<chunky_image_shape<3>>(0, 2); }
VS_HARNESS(P13_chunky34) { t_fill<chunky_image_shape<3, 4>>(0, 2); }

// arrays, including padding and other memory
template <class S>
void t_own() {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{100, 0, 2, unresolved, unresolved});
  array<int, S> a(s, -1);
  rd(a.shape(), r);
  i64 op = vs_choose("op", 0, 3), calls = 0;
  int v = vs_sym("value", INT32_MIN, INT32_MAX);
  auto lin = [&](const typename S::index_type& i) {
    auto t = arr(i);
    i64 x = 0;
    for (size_t k = 0; k < R; k++) x = x * 10 + (t[k] - r[k].min);
    return (int)x;
  };
  switch (op) {
  case 0: fill(a, v); break;
  case 1: { auto g = [&calls, v]() { calls++; return v; }; generate(a, g); break; }
  case 2: transform_index(a, lin); break;
  case 3: transform_indices(a, [&](auto... i) { return lin(typename S::index_type(i...)); }); break;
  }
  i64 n = 0;
  for_each_index(a.shape(), [&](const typename S::index_type& i) { CHECKM(a[i] == (op < 2 ? v : lin(i)), "value"); n++; });
  if (op == 1) CHECKM(calls == n, "calls");
  if (n > 1) vs_reach("own");
}
VS_HARNESS(P13_own0) { t_own<shape<>>(); }
VS_HARNESS(P13_own1) { t_own<shape_of_rank<1>>(); }
VS_HARNESS(P13_own2) { t_own<dense_shape<2>>(); }
VS_HARNESS(P13_own3) { t_own<shape<dim<>, dim<dynamic, dynamic, 1>, dim<0, 2>>>(); }
VS_HARNESS(P13_ownch) { t_own<chunky_image_shape<2>>(); }

// writing through a view leaves the rest of the memory alone
VS_HARNESS(P13_view) {
  int m[24];
  for (int i = 0; i < 24; i++) m[i] = 1000 + i;
  i64 st = vs_choose("stride", -3, 3), st2 = vs_choose("stride2", -3, 6), e1 = vs_choose("e1", 0, 3), e2 = vs_choose("e2", 0, 3), op = vs_choose("op", 0, 2);
  i64 lo = (st < 0 ? st * (e1 - 1) : 0) + (st2 < 0 ? st2 * (e2 - 1) : 0), hi = (st > 0 ? st * (e1 - 1) : 0) + (st2 > 0 ? st2 * (e2 - 1) : 0);
  ASSUME(e1 > 0 && e2 > 0 && hi - lo < 24);
  array_ref<int, shape_of_rank<2>> a(m - lo, shape_of_rank<2>(dim<>(5, e1, st), dim<>(-2, e2, st2)));
  if (op == 0) fill(a, 7);
  else if (op == 1) generate(a, []() { return 7; });
  else transform_indices(a, [](index_t, index_t) { return 7; });
  for (int i = 0; i < 24; i++) {
    bool in = false;
    for (i64 x = 0; x < e1; x++) for (i64 y = 0; y < e2; y++) in = in || i == x * st + y * st2 - lo;
    CHECKM(m[i] == (in ? 7 : 1000 + i), "exactly the addressed elements");
  }
  vs_reach("view");
}
VS_HARNESS(P13_null) {
  array_ref<int, dense_shape<2>> n;
  array<int, dense_shape<1>> z;
  int calls = 0;
  fill(n, 1); fill(z, 2);
  generate(n, [&]() { return calls++; });
  generate(z, [&]() { return calls++; });
  transform_index(n, [&](const index_of_rank<2>&) { return calls++; });
  transform_indices(z, [&](index_t) { return calls++; });
  CHECKM(calls == 0, "nothing to do");
  vs_reach("null");
}

// the same callable object serves several arrays
template <class S>
void t_keep() {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{100, 0, 2, unresolved, unresolved});
  array<int, S> a(s, -1), b(s, -1);
  i64 n = 0, op = vs_choose("op", 0, 2), ref = vs_choose("ref", 0, 1), e = a.size();
  Keep f(&n);
  for (int k = 0; k < 2; k++) {
    array<int, S>& x = k ? b : a;
    if (op == 0) { if (ref) generate(x.ref(), f); else generate(x, f); }
    else if (op == 1) { if (ref) transform_index(x.ref(), f); else transform_index(x, f); }
    else { if (ref) transform_indices(x.ref(), f); else transform_indices(x, f); }
    CHECKM(n == (k + 1) * e, "one call per element, also with a callable used before");
  }
  i64 sum = 0;
  for_each_index(a.shape(), [&](const typename S::index_type& i) { sum += a[i] + b[i]; });
  CHECKM(sum == e * (2 * e + 1), "every element has one of the results");
  if (e > 1) vs_reach("keep");
}
VS_HARNESS(P13_keep1) { t_keep<shape_of_rank<1>>(); }
VS_HARNESS(P13_keep2) { t_keep<dense_shape<2>>(); }
VS_HARNESS(P13_keepch) { t_keep<chunky_image_shape<2>>(); }
VS_HARNESS(P13_keepm) { t_keep<matrix_shape<>>(); }

// callables that return a reference to an object they keep
struct Kept {
  i64 v;
  Kept(i64 v = 0) : v(v) {}
  Kept(const Kept& o) : v(o.v) {}
  Kept(Kept&& o) : v(o.v) { o.v = -999; }
  Kept& operator=(const Kept& o) { v = o.v; return *this; }
  Kept& operator=(Kept&& o) { v = o.v; o.v = -999; return *this; }
};
template <class S>
void t_kept() {
  RD r[S::rank() + 1] = {};
  S s = mkc<S>(r, Rng{100, 0, 2, unresolved, unresolved});
  array<Kept, S> a(s);
  Kept keep(vs_sym("kept", 0, 1000));
  const Kept ckeep = keep;
  i64 v = keep.v;
  typedef typename S::index_type Ix;
  i64 op = vs_choose("op", 0, 7);
  switch (op) {
  case 0: generate(a, [&]() -> Kept& { return keep; }); break;
  case 1: generate(a.ref(), [&]() -> const Kept& { return ckeep; }); break;
  case 2: transform_index(a, [&](const Ix&) -> Kept& { return keep; }); break;
  case 3: transform_index(a.ref(), [&](const Ix&) -> const Kept& { return ckeep; }); break;
  case 4: transform_indices(a, [&](auto...) -> Kept& { return keep; }); break;
  case 5: transform_indices(a.ref(), [&](auto...) -> const Kept& { return ckeep; }); break;
  case 6: fill(a, keep); break;
  case 7: fill(a.ref(), ckeep); break;
  }
  CHECKM(keep.v == v && ckeep.v == v, "an object the callable keeps is not changed");
  for_each_index(a.shape(), [&](const Ix& i) { CHECKM(a[i].v == v, "every element gets the result"); });
  if (a.size() > 1) vs_reach("kept");
}
VS_HARNESS(P13_kept1) { t_kept<shape_of_rank<1>>(); }
VS_HARNESS(P13_kept2) { t_kept<dense_shape<2>>(); }
VS_HARNESS(P13_kept0) { t_kept<shape<>>(); }
