// BOUND: addressing: 14 expression forms (trace, diagonal, dot, outer, matrix product, matrix-vector, transpose, contraction, broadcast, missing index, repeated operand), extents 0..3 (rank-1/2 loops) or 0..2 (rank-3/4 loops) case split, every stride symbolic in |s| <= 2^10, any min, operands up to 3 larger than the result on either side; memory that is never dereferenced except through the element operators
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/ein_reduce.h>
using namespace nda;
static const i64 MM = P2(20), SS = P2(10);

// ---- Addressing: elements whose operators record the addresses of their operands.
struct Log { const void* a[3]; int kind; };
static Log g_log[80];
static int g_n;
struct L { int v; };
struct T1 { const void* p; };
struct T2 { const void *p, *q; int kind; };
static T2 operator*(const L& a, const L& b) { return T2{&a, &b, '*'}; }
static T2 operator+(const L& a, const L& b) { return T2{&a, &b, '+'}; }
static T2 operator-(const L& a, const L& b) { return T2{&a, &b, '-'}; }
static T1 operator-(const L& a) { return T1{&a}; }
struct R {
  int v;
  R& put(const void* p, const void* q, int kind) {
    if (g_n < 80) g_log[g_n++] = Log{{this, p, q}, kind};
    return *this;
  }
  R& operator=(const L& x) { return put(&x, nullptr, '='); }
  R& operator+=(const L& x) { return put(&x, nullptr, '+'); }
  R& operator-=(const L& x) { return put(&x, nullptr, '-'); }
  R& operator*=(const L& x) { return put(&x, nullptr, '*'); }
  R& operator+=(const T1& x) { return put(x.p, nullptr, '+' * 256 + '-'); }
  R& operator=(const T2& x) { return put(x.p, x.q, '=' * 256 + x.kind); }
  R& operator+=(const T2& x) { return put(x.p, x.q, '+' * 256 + x.kind); }
  R& operator-=(const T2& x) { return put(x.p, x.q, '-' * 256 + x.kind); }
};

// One operand as the oracle sees it: its dims and the loop index of each dim.
template <class E, size_t N>
struct Op {
  typedef array_ref<E, shape_of_rank<N>> ref;
  RD d[N + 1];
  int ix[N + 1];
  E* base;
  i64 at(const i64* v) const { i64 o = 0; for (size_t k = 0; k < N; k++) o += (v[ix[k]] - d[k].min) * d[k].str; return o; }
  template <size_t... Is>
  ref get_(std::index_sequence<Is...>) const { return ref(base, shape_of_rank<N>(dim<>(d[Is].min, d[Is].ext, d[Is].str)...)); }
  ref get() const { return get_(std::make_index_sequence<N>()); }
};
struct Loop { i64 min, ext; };
// result index: the result's dim decides the loop.  Operands may exceed it (slack) or not.
template <class E, size_t N>
static Op<E, N> mkop(int k, const Loop* lp, const int* ix, const bool* grow) {
  Op<E, N> o;
  o.base = (E*)vs_abstract(k);
  for (size_t d = 0; d < N; d++) {
    o.ix[d] = ix[d];
    i64 lo = 0, hi = 0;
    if (grow && grow[ix[d]]) { lo = vs_sym("lo", 0, 3); hi = vs_sym("hi", 0, 3); }
    o.d[d] = RD{lp[ix[d]].min - lo, lp[ix[d]].ext + lo + hi, vs_sym("str", -SS, SS)};
    if (grow && !grow[ix[d]]) continue;
    if (!grow) ASSUME(o.d[d].str != 0);
  }
  return o;
}
static void mkloops(Loop* lp, int n, i64 emax) {
  for (int k = 0; k < n; k++) { lp[k].min = vs_sym("min", -MM, MM); lp[k].ext = vs_choose("ext", 0, emax); }
}
// the documented execution order: index 0 innermost
template <class F>
static void loops(const Loop* lp, int n, i64* v, const F& f) {
  if (n == 0) { f(); return; }
  for (i64 p = 0; p < lp[n - 1].ext; p++) { v[n - 1] = lp[n - 1].min + p; loops(lp, n - 1, v, f); }
}
static int g_e;
static void expect(const void* r, const void* p, const void* q, int kind) {
  bool ok = g_e < g_n;
  CHECKM(ok, "an update for every combination of index values");
  if (!ok) return;
  const Log& e = g_log[g_e++];
  CHECKM(e.kind == kind, "the written operator");
  CHECKM((e.a[0] == r) & (e.a[1] == p) & (e.a[2] == q), "result and operands addressed by their own indices");
}
static void done() {
  CHECKM(g_e == g_n, "each combination of index values once");
  if (g_n == 0) vs_reach("none");
  if (g_n > 3) vs_reach("some");
}

// r<RI> OP a<AI>, over N loops
#define START(N, emax) vs_opt("forkselect", 1); Loop lp[N + 1]; mkloops(lp, N, emax); i64 v[N + 1] = {}; g_n = g_e = 0
#define IX(name, ...) static const int name[] = {__VA_ARGS__, 0}

VS_HARNESS(P23_copy2) { // transpose
  START(2, 3);
  IX(ri, 0, 1); IX(ai, 1, 0); const bool grow[] = {true, true};
  auto r = mkop<R, 2>(0, lp, ri, nullptr);
  auto a = mkop<L, 2>(1, lp, ai, grow);
  ein_reduce(ein<0, 1>(r.get()) = ein<1, 0>(a.get()));
  loops(lp, 2, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), nullptr, '='); });
  done();
}
VS_HARNESS(P23_diag) {
  START(1, 3);
  IX(ri, 0); IX(ai, 0, 0); const bool grow[] = {true};
  auto r = mkop<R, 1>(0, lp, ri, nullptr);
  auto a = mkop<L, 2>(1, lp, ai, grow);
  ein_reduce(ein<0>(r.get()) = ein<0, 0>(a.get()));
  loops(lp, 1, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), nullptr, '='); });
  done();
}
VS_HARNESS(P23_trace) {
  START(1, 3);
  IX(ai, 0, 0); const bool grow[] = {false};
  Op<R, 0> r; r.base = (R*)vs_abstract(0);
  auto a = mkop<L, 2>(1, lp, ai, grow);
  ein_reduce(ein<>(r.get()) += ein<0, 0>(a.get()));
  loops(lp, 1, v, [&] { expect(r.base, a.base + a.at(v), nullptr, '+'); });
  done();
}
VS_HARNESS(P23_dot) {
  START(1, 3);
  IX(ai, 0); const bool grow[] = {false};
  Op<R, 0> r; r.base = (R*)vs_abstract(0);
  auto a = mkop<L, 1>(1, lp, ai, grow), b = mkop<L, 1>(2, lp, ai, grow);
  ein_reduce(ein<>(r.get()) -= ein<0>(a.get()) * ein<0>(b.get()));
  loops(lp, 1, v, [&] { expect(r.base, a.base + a.at(v), b.base + b.at(v), '-' * 256 + '*'); });
  done();
}
VS_HARNESS(P23_outer) {
  START(2, 3);
  IX(ri, 0, 1); IX(ai, 0); IX(bi, 1); const bool grow[] = {true, true};
  auto r = mkop<R, 2>(0, lp, ri, nullptr);
  auto a = mkop<L, 1>(1, lp, ai, grow), b = mkop<L, 1>(2, lp, bi, grow);
  ein_reduce(ein<0, 1>(r.get()) = ein<0>(a.get()) * ein<1>(b.get()));
  loops(lp, 2, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), b.base + b.at(v), '=' * 256 + '*'); });
  done();
}
VS_HARNESS(P23_matmul) { // ein<i, j>(AB) += ein<i, k>(A) * ein<k, j>(B)
  START(3, VS_T(2, 3));
  IX(ri, 0, 1); IX(ai, 0, 2); IX(bi, 2, 1); const bool grow[] = {true, true, false};
  auto r = mkop<R, 2>(0, lp, ri, nullptr);
  auto a = mkop<L, 2>(1, lp, ai, grow), b = mkop<L, 2>(2, lp, bi, grow);
  ein_reduce(ein<0, 1>(r.get()) += ein<0, 2>(a.get()) * ein<2, 1>(b.get()));
  loops(lp, 3, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), b.base + b.at(v), '+' * 256 + '*'); });
  done();
}
VS_HARNESS(P23_matmul_kin) { // k innermost, j outermost
  START(3, 2);
  IX(ri, 1, 2); IX(ai, 1, 0); IX(bi, 0, 2); const bool grow[] = {false, true, true};
  auto r = mkop<R, 2>(0, lp, ri, nullptr);
  auto a = mkop<L, 2>(1, lp, ai, grow), b = mkop<L, 2>(2, lp, bi, grow);
  ein_reduce(ein<1, 2>(r.get()) += ein<1, 0>(a.get()) * ein<0, 2>(b.get()));
  loops(lp, 3, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), b.base + b.at(v), '+' * 256 + '*'); });
  done();
}
VS_HARNESS(P23_matvec) {
  START(2, 3);
  IX(ri, 0); IX(ai, 0, 1); IX(bi, 1); const bool grow[] = {true, false};
  auto r = mkop<R, 1>(0, lp, ri, nullptr);
  auto a = mkop<L, 2>(1, lp, ai, grow);
  auto b = mkop<L, 1>(2, lp, bi, grow);
  ein_reduce(ein<0>(r.get()) += ein<0, 1>(a.get()) * ein<1>(b.get()));
  loops(lp, 2, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), b.base + b.at(v), '+' * 256 + '*'); });
  done();
}
VS_HARNESS(P23_sum) { // full contraction of a rank 3 operand, negated
  START(3, 2);
  IX(ai, 2, 0, 1); const bool grow[] = {false, false, false};
  Op<R, 0> r; r.base = (R*)vs_abstract(0);
  auto a = mkop<L, 3>(1, lp, ai, grow);
  ein_reduce(ein<>(r.get()) += -ein<2, 0, 1>(a.get()));
  loops(lp, 3, v, [&] { expect(r.base, a.base + a.at(v), nullptr, '+' * 256 + '-'); });
  done();
}
VS_HARNESS(P23_bcast) { // operand without one of the result's indices, and a rank 0 operand
  START(2, 3);
  IX(ri, 1, 0); IX(ai, 1); const bool grow[] = {true, true};
  auto r = mkop<R, 2>(0, lp, ri, nullptr);
  auto a = mkop<L, 1>(1, lp, ai, grow);
  Op<L, 0> b; b.base = (L*)vs_abstract(2);
  ein_reduce(ein<1, 0>(r.get()) -= ein<1>(a.get()) - ein<>(b.get()));
  loops(lp, 2, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), b.base, '-' * 256 + '-'); });
  done();
}
VS_HARNESS(P23_skip) { // loop indices 1 and 3 only
  START(4, 2);
  ASSUME(lp[0].ext == 1 && lp[0].min == 0 && lp[2].ext == 1 && lp[2].min == 0);
  IX(ri, 3); IX(ai, 3, 1); const bool grow[] = {true, false, true, true};
  auto r = mkop<R, 1>(0, lp, ri, nullptr);
  auto a = mkop<L, 2>(1, lp, ai, grow);
  ein_reduce(ein<3>(r.get()) *= ein<3, 1>(a.get()));
  loops(lp, 4, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), nullptr, '*'); });
  done();
}
VS_HARNESS(P23_same) { // the same operand twice, with different indices
  START(3, 2);
  ASSUME(lp[0].ext == lp[1].ext && lp[0].min == lp[1].min);
  IX(ri, 0, 1); IX(ai, 0, 2); const bool grow[] = {false, false, false};
  auto r = mkop<R, 2>(0, lp, ri, nullptr);
  auto a = mkop<L, 2>(1, lp, ai, grow);
  Op<L, 2> b = a;
  b.ix[0] = 1;
  ein_reduce(ein<0, 1>(r.get()) += ein<0, 2>(a.get()) * ein<1, 2>(a.get()));
  loops(lp, 3, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), b.base + b.at(v), '+' * 256 + '*'); });
  done();
}
VS_HARNESS(P23_contract4) { // rank 4 loop
  START(4, VS_T(2, 2));
  IX(ri, 0, 3); IX(ai, 0, 1, 2); IX(bi, 3, 2, 1); const bool grow[] = {true, false, false, true};
  auto r = mkop<R, 2>(0, lp, ri, nullptr);
  auto a = mkop<L, 3>(1, lp, ai, grow), b = mkop<L, 3>(2, lp, bi, grow);
  ein_reduce(ein<0, 3>(r.get()) += ein<0, 1, 2>(a.get()) * ein<3, 2, 1>(b.get()));
  loops(lp, 4, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), b.base + b.at(v), '+' * 256 + '*'); });
  done();
}
VS_HARNESS(P23_stencil) { // a result with a stride 0 dim accumulates
  START(2, 3);
  IX(ri, 0, 1); IX(ai, 0, 1); const bool grow[] = {true, false};
  auto r = mkop<R, 2>(0, lp, ri, nullptr);
  r.d[1].str = 0;
  auto a = mkop<L, 2>(1, lp, ai, grow);
  ein_reduce(ein<0, 1>(r.get()) += ein<0, 1>(a.get()));
  loops(lp, 2, v, [&] { expect(r.base + r.at(v), a.base + a.at(v), nullptr, '+'); });
  done();
}

// ---- Callable operands see exactly the index values, once per combination.
VS_HARNESS(P23_callable) {
  vs_opt("forkselect", 1);
  Loop lp[3];
  mkloops(lp, 3, 2);
  array<int, shape_of_rank<2>> r({{lp[0].min, lp[0].ext}, {lp[2].min, lp[2].ext}}, 0);
  array<int, shape_of_rank<1>> a({{lp[1].min, lp[1].ext}}, 1);
  i64 seen[16][3];
  int n = 0;
  auto f = [&](index_t i, index_t j, index_t k) { if (n < 16) { seen[n][0] = i; seen[n][1] = j; seen[n][2] = k; } n++; return 1; };
  ein_reduce(ein<0, 2>(r) += ein<2, 1, 0>(f) * ein<1>(a));
  i64 v[3];
  int e = 0;
  loops(lp, 3, v, [&] { if (e < n && e < 16) CHECKM((seen[e][0] == v[2]) & (seen[e][1] == v[1]) & (seen[e][2] == v[0]), "callable operand gets the index values"); e++; });
  CHECKM(e == n, "one call per combination");
  r.for_each_value([&](int x) { CHECKM(x == lp[1].ext, "sum over the missing index"); });
  if (n == 8) vs_reach("callable");
}
