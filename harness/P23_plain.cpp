// BOUND: plain unsigned/int64/float elements: extents up to 130 (thorough 520) in one dimension, matrices up to 17 rows, dense, transposed, padded, reversed and strided operand layouts, arbitrary integer contents (arithmetic modulo 2^n), float contents that are small concrete integers; elementwise, dot, row sums, matrix-vector, matrix product, outer product, with =, +=, -=, *=
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
#include <array/ein_reduce.h>
using namespace nda;
template <class T, size_t R>
struct Op {
  i64 e[R + 1] = {}, m[R + 1] = {};
  Lay<R> l;
  T *p, *keep;
  static T val(const char* n, i64 i) { return std::is_floating_point<T>::value ? (T)((i * 7) % 13 - 6) : any<T>(n); }
  template <class U> static std::enable_if_t<std::is_floating_point<U>::value, T> any(const char*) { return 0; }
  template <class U> static std::enable_if_t<!std::is_floating_point<U>::value, T> any(const char* n) { return any_<U>::get(n); }
  Op(const char* n, int lay, const i64* ext, const i64* mn) {
    for (size_t k = 0; k < R; k++) { e[k] = ext[k]; m[k] = mn[k]; }
    l = layout<R>(lay, e);
    p = buffer<T>(l.n); keep = buffer<T>(l.n);
    for (i64 i = 0; i < l.n; i++) p[i] = keep[i] = val(n, i);
  }
  ~Op() { std::free(p); std::free(keep); }
  array_ref<T, shape_of_rank<R>> ref() { return array_ref<T, shape_of_rank<R>>(p + l.lo, mkx<shape_of_rank<R>>(m, e, l.str)); }
  i64 at(i64 i, i64 j = 0) const { i64 q[3] = {i, j, 0}; return l.lo + dot<R>(q, l.str); }
  void untouched() { for (i64 i = 0; i < l.n; i++) CHECKM(bits(p[i], keep[i]), "an operand is not written"); }
  // f(q...) gives the expected value of the element, everything else keeps its value
  template <class F>
  void expect(F f) {
    each_pos<R>(e, [&](const i64* q) { i64 o = l.lo + dot<R>(q, l.str); keep[o] = f(q, keep[o]); });
    for (i64 i = 0; i < l.n; i++) CHECKM(bits(p[i], keep[i]), "the result, and nothing else, holds the written sum");
  }
};
static int lay(const char* n) { return (int)vs_choose(n, 0, INNER2); }

template <class T>
void t_vec() {
  vs_opt("forkselect", 1);
  i64 e[2], m[1] = {vs_sym("min", -100, 100)};
  choose_exts<1>(e);
  int la = lay("la"), lb = lay("lb");
  ASSUME(la == lb || la == DENSE || lb == DENSE);
  Op<T, 1> a("a", la, e, m), b("b", lb, e, m), r("r", la, e, m);
  auto A = a.ref(), B = b.ref(), Rr = r.ref();
  T s = Op<T, 1>::val("s", 5);
  const T s0 = s;
  switch (vs_choose("op", 0, 5)) {
  case 0: ein_reduce(ein<0>(Rr) = ein<0>(A) * ein<0>(B)); r.expect([&](const i64* q, T) { return (T)(a.p[a.at(*q)] * b.p[b.at(*q)]); }); break;
  case 1: ein_reduce(ein<0>(Rr) += ein<0>(A) - ein<0>(B)); r.expect([&](const i64* q, T o) { return (T)(o + (a.p[a.at(*q)] - b.p[b.at(*q)])); }); break;
  case 2: ein_reduce(ein<0>(Rr) -= ein<0>(A) * ein(s)); r.expect([&](const i64* q, T o) { return (T)(o - a.p[a.at(*q)] * s); }); break;
  case 3: ein_reduce(ein<0>(Rr) *= ein<0>(B)); r.expect([&](const i64* q, T o) { return (T)(o * b.p[b.at(*q)]); }); break;
  case 4: {
    ein_reduce(ein(s) += ein<0>(A) * ein<0>(B));
    T x = s0;
    for (i64 k = 0; k < e[0]; k++) x = (T)(x + a.p[a.at(k)] * b.p[b.at(k)]);
    CHECKM(bits(s, x), "dot product");
    r.untouched();
    break;
  }
  case 5: {
    T x = make_ein_sum<T>(ein<0>(A) + ein<0>(B), s);
    T y = s0;
    for (i64 k = 0; k < e[0]; k++) y = (T)(y + (a.p[a.at(k)] + b.p[b.at(k)]));
    CHECKM(bits(x, y), "sum");
    r.untouched();
    break;
  }
  }
  a.untouched(); b.untouched();
  if (e[0] > 100) vs_reach("long");
}
VS_HARNESS(P23_pl_vu) { t_vec<unsigned>(); }
VS_HARNESS(P23_pl_vl) { t_vec<uint64_t>(); }
VS_HARNESS(P23_pl_vf) { t_vec<float>(); }

template <class T>
void t_mat() {
  vs_opt("forkselect", 1);
  static const i64 x[][3] = {{4, 4, 4}, {8, 3, 2}, {9, 1, 5}, {1, 17, 3}, {17, 2, 4}, {2, 4, 33}, {3, 65, 1}, {5, 7, 9}, {16, 8, 8}, {8, 16, 17}};
  i64 c = vs_choose("size", 0, VS_T(7, 9)), I = x[c][0], J = x[c][1], K = x[c][2];
  i64 m0 = vs_sym("m0", -100, 100), m1 = -3, m2 = vs_sym("m2", -100, 100);
  int la = lay("la"), lb = lay("lb"), lc = vs_choose("lc", 0, 1) ? OUTER_DENSE : DENSE;
  ASSUME(la == lb || la == DENSE || lb == DENSE);
  i64 eA[] = {I, K}, mA[] = {m0, m2}, eB[] = {K, J}, mB[] = {m2, m1}, eC[] = {I, J}, mC[] = {m0, m1};
  Op<T, 2> a("a", la, eA, mA), b("b", lb, eB, mB), r("r", lc, eC, mC);
  auto A = a.ref(), B = b.ref(), C = r.ref();
  enum { i = 0, j = 1, k = 2 };
  switch (vs_choose("op", 0, 3)) {
  case 0:
    ein_reduce(ein<i, j>(C) += ein<i, k>(A) * ein<k, j>(B));
    r.expect([&](const i64* q, T o) { for (i64 z = 0; z < K; z++) o = (T)(o + a.p[a.at(q[0], z)] * b.p[b.at(z, q[1])]); return o; });
    break;
  case 1: {
    auto s = make_ein_sum<T, i, j>(ein<i, k>(A) * ein<k, j>(B));
    for (i64 y = 0; y < J; y++)
      for (i64 x = 0; x < I; x++) {
        T o = 0;
        for (i64 z = 0; z < K; z++) o = (T)(o + a.p[a.at(x, z)] * b.p[b.at(z, y)]);
        CHECKM(bits((T)s((index_t)(m0 + x), (index_t)(m1 + y)), o), "inferred matrix product");
      }
    r.untouched();
    break;
  }
  case 2: { // row sums into a column of the result
    auto col = C(_, (index_t)(m1 + J - 1));
    ein_reduce(ein<i>(col) -= ein<i, k>(A));
    r.expect([&](const i64* q, T o) { if (q[1] == J - 1) for (i64 z = 0; z < K; z++) o = (T)(o - a.p[a.at(q[0], z)]); return o; });
    break;
  }
  case 3: // outer product of a column and a row
    ein_reduce(ein<i, j>(C) = ein<i>(A(_, (index_t)m2)) * ein<j>(B((index_t)m2, _)));
    r.expect([&](const i64* q, T) { return (T)(a.p[a.at(q[0], 0)] * b.p[b.at(0, q[1])]); });
    break;
  }
  a.untouched(); b.untouched();
  if (I * J > 60) vs_reach("large");
}
VS_HARNESS(P23_pl_mu) { t_mat<unsigned>(); }
VS_HARNESS(P23_pl_mf) { t_mat<float>(); }
