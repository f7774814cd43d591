// BOUND: Euclidean division and modulus: all of int8_t; int16_t and int in [-2^6, 2^6] (thorough 2^8); dividends in [-2^30, 2^30] for each divisor in -9..9
// BOUND: rationals over int: numerators and denominators (either sign, non-zero denominator) in [-15, 15] for constructors, [-12, 12] for rounding, [-4, 4] for comparison, [-3, 3] for arithmetic; rounding of numerators in [-2^9, 2^9] over each denominator -4..5; conversion from any int of 20 bits
// VSCONFIG: -

#include "common.h"
#include <cmath>
#include <cstdlib>
#include <numeric>
#include <examples/resample/rational.h>

template <class T>
static void t_euclid(i64 lo, i64 hi) {
  T a = (T)vs_sym("a", lo, hi), b = (T)vs_sym("b", lo, hi);
  ASSUME(b != 0);
  ASSUME(!(a == (T)((T)1 << (sizeof(T) * 8 - 1)) && b == (T)-1));
  i64 q = euclidean_div<T>(a, b), r = euclidean_mod<T>(a, b);
  CHECKM((r >= 0) & (r < std::abs((i64)b)), "0 <= r < |b|");
  CHECKM(q * b + r == a, "a = q * b + r");
  vs_reach("euclid");
}
VS_HARNESS(P29_euclid8) { t_euclid<int8_t>(-128, 127); }
VS_HARNESS(P29_euclid16) { t_euclid<int16_t>(-P2(VS_T(6, 8)), P2(VS_T(6, 8))); }
// wide dividends by one divisor at a time
VS_HARNESS(P29_euclid_wide) {
  int a = (int)vs_sym("a", -P2(30), P2(30)), b = (int)vs_choose("b", VS_T(-9, -40), VS_T(9, 40));
  ASSUME(b != 0);
  i64 q = euclidean_div(a, b), r = euclidean_mod(a, b);
  CHECKM((r >= 0) & (r < std::abs((i64)b)), "0 <= r < |b|");
  CHECKM(q * b + r == a, "a = q * b + r");
  vs_reach("euclid_wide");
}
VS_HARNESS(P29_euclid32) { t_euclid<int>(-P2(VS_T(6, 8)), P2(VS_T(6, 8))); }

typedef rational<int> Q;
struct F { i64 n, d; }; // the exact fraction, d != 0
static Q mkq(F& f, i64 B) {
  f.n = vs_sym("n", -B, B);
  f.d = vs_sym("d", -B, B);
  ASSUME(f.d != 0);
  return Q((int)f.n, (int)f.d);
}
// n/d == f
static bool same(const Q& q, const F& f) { return (i64)q.numerator() * f.d == f.n * q.denominator(); }
static i64 sgn(i64 x) { return x < 0 ? -1 : 1; }

VS_HARNESS(P29_make) {
  F f;
  Q q = mkq(f, VS_T(15, 40));
  CHECKM(same(q, f), "represents n / d");
  vs_reach("make");
}
VS_HARNESS(P29_int) {
  int x = (int)vs_sym("x", -P2(20), P2(20));
  Q q(x), z;
  CHECKM(q.numerator() == x && q.denominator() == 1 && z.numerator() == 0 && z.denominator() == 1, "integers");
  CHECKM(floor(q) == x && ceil(q) == x && round(q) == x, "integers round to themselves");
  vs_reach("int");
}
static const i64 BR = VS_T(12, 30);
// Rationals that keep a negative denominator compare and round wrongly: a recorded finding, with entries of its own below.
static Q mkpos(F& f, i64 B) { Q q = mkq(f, B); ASSUME(q.denominator() > 0); return q; }
static Q mkneg(F& f, i64 B) { Q q = mkq(f, B); ASSUME(q.denominator() < 0); return q; }
VS_HARNESS(P29_positive) { // which ones those are: n / d in lowest terms with d < -1 as given
  F f;
  Q q = mkq(f, BR);
  if (f.d > 0 || f.n % f.d == 0) CHECKM(q.denominator() > 0, "denominator positive");
  vs_reach("positive");
}
VS_HARNESS(P29_finding_floor) { F f; Q q = mkneg(f, 5); i64 n = -f.n, d = -f.d, r = floor(q); CHECKM((r * d <= n) & (n < (r + 1) * d), "floor of a rational that keeps a negative denominator"); }
VS_HARNESS(P29_finding_ceil) { F f; Q q = mkneg(f, 5); i64 n = -f.n, d = -f.d, r = ceil(q); CHECKM(((r - 1) * d < n) & (n <= r * d), "ceil of a rational that keeps a negative denominator"); }
VS_HARNESS(P29_finding_round) { F f; Q q = mkneg(f, 5); i64 n = -f.n, d = -f.d, r = round(q); CHECKM(((2 * r - 1) * d <= 2 * n) & (2 * n < (2 * r + 1) * d), "round of a rational that keeps a negative denominator"); }
VS_HARNESS(P29_finding_frac) { F f; Q q = mkneg(f, 5); Q r = frac(q); i64 n = -f.n, d = -f.d, fl = (n - (((n % d) + d) % d)) / d; CHECKM(same(r, F{n - fl * d, d}), "frac of a rational that keeps a negative denominator"); }
VS_HARNESS(P29_finding_cmp) {
  F a, b;
  Q x = mkneg(a, 3), y = mkpos(b, 3);
  i64 l = a.n * b.d * sgn(a.d) * sgn(b.d), r = b.n * a.d * sgn(a.d) * sgn(b.d);
  CHECKM(((x < y) == (l < r)) & ((x <= y) == (l <= r)) & ((x > y) == (l > r)) & ((x >= y) == (l >= r)), "ordering of a rational that keeps a negative denominator");
}
VS_HARNESS(P29_neg_eq) { // equality and both-negative ordering are not affected
  F a, b;
  Q x = mkneg(a, VS_T(4, 8)), y = mkq(b, VS_T(4, 8));
  CHECKM((x == y) == (a.n * b.d == b.n * a.d), "==");
  CHECKM((x != y) == (a.n * b.d != b.n * a.d), "!=");
  vs_reach("neg_eq");
}
VS_HARNESS(P29_floor) {
  F f;
  Q q = mkpos(f, BR);
  i64 s = sgn(f.d), n = f.n * s, d = f.d * s, r = floor(q);
  CHECKM((r * d <= n) & (n < (r + 1) * d), "floor: the greatest integer not above");
  vs_reach("floor");
}
VS_HARNESS(P29_ceil) {
  F f;
  Q q = mkpos(f, BR);
  i64 s = sgn(f.d), n = f.n * s, d = f.d * s, r = ceil(q);
  CHECKM(((r - 1) * d < n) & (n <= r * d), "ceil: the least integer not below");
  vs_reach("ceil");
}
VS_HARNESS(P29_round) {
  F f;
  Q q = mkpos(f, BR);
  i64 s = sgn(f.d), n = f.n * s, d = f.d * s, r = round(q);
  CHECKM(((2 * r - 1) * d <= 2 * n) & (2 * n < (2 * r + 1) * d), "round: the nearest integer, halves up");
  vs_reach("round");
}
VS_HARNESS(P29_frac) {
  F f;
  Q q = mkpos(f, BR);
  Q r = frac(q);
  i64 s = sgn(f.d), n = f.n * s, d = f.d * s, fl = floor(q);
  CHECKM(same(r, F{n - fl * d, d}), "frac: the distance from the floor");
  vs_reach("frac");
}
VS_HARNESS(P29_wide) { // wide numerators over one denominator at a time
  F f;
  f.n = vs_sym("n", -P2(VS_T(9, 12)), P2(VS_T(9, 12)));
  f.d = vs_choose("d", VS_T(-4, -9), VS_T(5, 9));
  ASSUME(f.d != 0);
  Q q((int)f.n, (int)f.d);
  CHECKM(same(q, f), "represents n / d");
  ASSUME(q.denominator() > 0);
  i64 s = sgn(f.d), n = f.n * s, d = f.d * s, r = floor(q), c = ceil(q), o = round(q);
  CHECKM((r * d <= n) & (n < (r + 1) * d), "floor");
  CHECKM(((c - 1) * d < n) & (n <= c * d), "ceil");
  CHECKM(((2 * o - 1) * d <= 2 * n) & (2 * n < (2 * o + 1) * d), "round");
  vs_reach("wide");
}
VS_HARNESS(P29_float) {
  F f;
  Q q = mkq(f, 6);
  float x = to_float(q), y = (float)q.numerator() / (float)q.denominator();
  uint32_t xb, yb;
  __builtin_memcpy(&xb, &x, 4);
  __builtin_memcpy(&yb, &y, 4);
  CHECKM(xb == yb, "to_float is the quotient");
  vs_reach("float");
}
// comparison, min and max
VS_HARNESS(P29_cmp) {
  F a, b;
  Q x = mkpos(a, VS_T(4, 8)), y = mkpos(b, VS_T(4, 8));
  i64 l = a.n * b.d * sgn(a.d) * sgn(b.d), r = b.n * a.d * sgn(a.d) * sgn(b.d);
  CHECKM((x < y) == (l < r), "<");
  CHECKM((x <= y) == (l <= r), "<=");
  CHECKM((x > y) == (l > r), ">");
  CHECKM((x >= y) == (l >= r), ">=");
  CHECKM((x == y) == (l == r), "==");
  CHECKM((x != y) == (l != r), "!=");
  CHECKM(same(min(x, y), l < r ? a : b), "min");
  CHECKM(same(max(x, y), l > r ? a : b), "max");
  vs_reach("cmp");
}
template <class O>
static void arith(O op) {
  F a, b;
  Q x = mkq(a, VS_T(3, 6)), y = mkq(b, VS_T(3, 6));
  op(x, y, a, b);
  vs_reach("arith");
}
VS_HARNESS(P29_add) { arith([](Q x, Q y, F a, F b) { CHECKM(same(x + y, F{a.n * b.d + b.n * a.d, a.d * b.d}), "+"); }); }
VS_HARNESS(P29_sub) { arith([](Q x, Q y, F a, F b) { CHECKM(same(x - y, F{a.n * b.d - b.n * a.d, a.d * b.d}), "-"); }); }
VS_HARNESS(P29_mul) { arith([](Q x, Q y, F a, F b) { CHECKM(same(x * y, F{a.n * b.n, a.d * b.d}), "*"); }); }
VS_HARNESS(P29_div) { arith([](Q x, Q y, F a, F b) { ASSUME(b.n != 0); CHECKM(same(x / y, F{a.n * b.d, a.d * b.n}), "/"); }); }
// an integer on the left
VS_HARNESS(P29_scalar) {
  F b;
  Q y = mkq(b, VS_T(3, 6));
  int k = (int)vs_sym("k", -VS_T(5, 20), VS_T(5, 20));
  CHECKM(same(k + y, F{k * b.d + b.n, b.d}), "k + y");
  CHECKM(same(k - y, F{k * b.d - b.n, b.d}), "k - y");
  CHECKM(same(k * y, F{k * b.n, b.d}), "k * y");
  if (b.n != 0) CHECKM(same(k / y, F{k * b.d, b.n}), "k / y");
  vs_reach("scalar");
}
