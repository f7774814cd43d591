// BOUND: ranks 1-4, every combination of extents 0..17 (rank 1), 0..9 (rank 2), 0..5 (rank 3), 0..3 (rank 4), symbolic mins; ranges that are intervals, dims, pointer ranges and split() results; larger extents up to 1030 from a list
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/z_order.h>
#include <vector>
using namespace nda;
static const i64 MM = P2(20);

// position on the z-curve: bits interleaved, last range most significant
static i64 morton(const i64* p, int R) {
  i64 z = 0;
  for (int b = 11; b >= 0; b--)
    for (int d = R - 1; d >= 0; d--) z = z * 2 + ((p[d] >> b) & 1);
  return z;
}
struct Visit {
  int R;
  i64 ext[4];
  bool seen[2048] = {};
  i64 n = 0, last = -1;
  void at(const i64* p) {
    i64 k = 0;
    bool ok = true;
    for (int d = R - 1; d >= 0; d--) { ok = ok && 0 <= p[d] && p[d] < ext[d]; k = k * ext[d] + p[d]; }
    CHECKM(ok, "only elements of the ranges");
    if (!ok) return;
    CHECKM(!seen[k], "each combination once");
    seen[k] = true;
    n++;
    i64 z = morton(p, R);
    CHECKM(z > last, "visits follow the z-curve");
    last = z;
  }
  void done() {
    i64 t = 1;
    for (int d = 0; d < R; d++) t *= ext[d];
    CHECKM(n == t, "every combination");
    if (t == 0) vs_reach("empty");
    if (t > 4) vs_reach("visits");
  }
};
#define EXT(d, hi) v.ext[d] = vs_choose("ext", 0, hi); i64 m##d = vs_sym("min", -MM, MM); interval<> r##d((index_t)m##d, (index_t)v.ext[d])
VS_HARNESS(P25_r1) {
  Visit v = {1};
  EXT(0, VS_T(17, 40));
  for_all_in_z_order(std::make_tuple(r0), [&](index_t a) { i64 p[] = {a - m0}; v.at(p); });
  v.done();
}
VS_HARNESS(P25_r2) {
  Visit v = {2};
  EXT(0, VS_T(9, 17)); EXT(1, VS_T(9, 17));
  for_all_in_z_order(std::make_tuple(r0, r1), [&](index_t a, index_t b) { i64 p[] = {a - m0, b - m1}; v.at(p); });
  v.done();
}
VS_HARNESS(P25_r2_tuple) {
  Visit v = {2};
  EXT(0, 5); EXT(1, 5);
  for_each_in_z_order(std::make_tuple(r0, r1), [&](const std::tuple<index_t, index_t>& i) { i64 p[] = {std::get<0>(i) - m0, std::get<1>(i) - m1}; v.at(p); });
  v.done();
}
VS_HARNESS(P25_r3) {
  Visit v = {3};
  EXT(0, VS_T(5, 9)); EXT(1, VS_T(5, 9)); EXT(2, VS_T(5, 9));
  for_all_in_z_order(std::make_tuple(r0, r1, r2), [&](index_t a, index_t b, index_t c) { i64 p[] = {a - m0, b - m1, c - m2}; v.at(p); });
  v.done();
}
VS_HARNESS(P25_r4) {
  Visit v = {4};
  EXT(0, VS_T(3, 5)); EXT(1, VS_T(3, 5)); EXT(2, VS_T(3, 5)); EXT(3, VS_T(3, 5));
  for_each_in_z_order(std::make_tuple(r0, r1, r2, r3), [&](const std::tuple<index_t, index_t, index_t, index_t>& i) {
    i64 p[] = {std::get<0>(i) - m0, std::get<1>(i) - m1, std::get<2>(i) - m2, std::get<3>(i) - m3};
    v.at(p);
  });
  v.done();
}
// dims of a shape (one of them static) and a range of values behind pointers: values, not positions, are passed
VS_HARNESS(P25_mixed) {
  Visit v = {3};
  EXT(0, 3);
  dim<2, 3, 5> d1;
  v.ext[1] = 3;
  v.ext[2] = vs_choose("n", 0, 4);
  std::vector<i64> x;
  for (i64 k = 0; k < v.ext[2]; k++) x.push_back(vs_sym("x", -9, 9) * 8 + k);
  for_all_in_z_order(std::make_tuple(dim<>(r0, 4), d1, x), [&](index_t a, index_t b, i64 c) {
    i64 k = c & 7;
    bool ok = k < v.ext[2];
    CHECKM(ok, "a value of the range");
    if (ok) CHECKM(c == x[k], "the value itself");
    i64 p[] = {a - m0, b - 2, vs_conc(k)};
    v.at(p);
  });
  v.done();
}
// tiles: split() ranges
VS_HARNESS(P25_tiles) {
  Visit v = {2};
  i64 w = vs_choose("w", 1, VS_T(9, 17)), h = vs_choose("h", 1, VS_T(9, 17)), f = vs_choose("f", 1, 4);
  i64 m = vs_sym("min", -MM, MM);
  v.ext[0] = (w + f - 1) / f;
  v.ext[1] = (h + 1) / 2;
  for_all_in_z_order(std::make_tuple(split(interval<>((index_t)m, (index_t)w), (index_t)f), split(interval<>(0, (index_t)h), (index_t)2)),
      [&](interval<> a, interval<> b) {
        i64 p[] = {vs_conc((a.min() - m) / f), b.min() / 2};
        CHECKM(a.min() == m + p[0] * f && a.extent() == std::min(f, w - p[0] * f), "the tile of x");
        CHECKM(b.min() == p[1] * 2 && b.extent() == std::min<i64>(2, h - p[1] * 2), "the tile of y");
        v.at(p);
      });
  v.done();
}
// a z-ordered tiling of an array visits each of its elements once
VS_HARNESS(P25_array) {
  dense_array<int, 2> a({vs_choose("w", 2, VS_T(7, 11)), vs_choose("h", 2, VS_T(7, 11))}, 0);
  for_all_in_z_order(std::make_tuple(split<2>(a.x()), split<2>(a.y())), [&](auto x, auto y) {
    for (index_t j : y) for (index_t i : x) a(i, j)++;
  });
  // split<2> of an odd extent overlaps its last two pieces by one
  for (index_t j : a.y())
    for (index_t i : a.x()) {
      int e = (a.width() % 2 && i == a.width() - 2 ? 2 : 1) * (a.height() % 2 && j == a.height() - 2 ? 2 : 1);
      CHECKM(a(i, j) == e, "each element of each tile once");
    }
  vs_reach("array");
}

// larger extents: powers of two, their neighbours and unequal sizes
VS_HARNESS(P25_large1) {
  static const i64 x[] = {31, 32, 33, 64, 65, 127, 129, 255, 257, 300, 513, 1025, 1030, 2047};
  Visit v = {1};
  v.ext[0] = x[vs_choose("case", 0, VS_T(12, 13))];
  i64 m0 = vs_sym("min", -MM, MM);
  interval<> r0((index_t)m0, (index_t)v.ext[0]);
  for_all_in_z_order(std::make_tuple(r0), [&](index_t a) { i64 p[] = {a - m0}; v.at(p); });
  v.done();
}
VS_HARNESS(P25_large2) {
  static const i64 x[][2] = {{33, 2}, {1, 65}, {2, 100}, {257, 3}, {300, 1}, {3, 257}, {17, 31}, {32, 32}, {1, 1025}, {600, 3}};
  Visit v = {2};
  i64 c = vs_choose("case", 0, VS_T(7, 9));
  for (int d = 0; d < 2; d++) v.ext[d] = x[c][d];
  interval<> r0(-3, (index_t)v.ext[0]), r1(4, (index_t)v.ext[1]);
  for_all_in_z_order(std::make_tuple(r0, r1), [&](index_t a, index_t b) { i64 p[] = {a + 3, b - 4}; v.at(p); });
  v.done();
}
VS_HARNESS(P25_large3) {
  static const i64 x[][3] = {{33, 2, 3}, {1, 65, 2}, {2, 1, 100}, {1, 1, 257}, {300, 1, 2}, {9, 10, 11}, {2, 270, 1}};
  Visit v = {3};
  i64 c = vs_choose("case", 0, VS_T(5, 6));
  for (int d = 0; d < 3; d++) v.ext[d] = x[c][d];
  interval<> r0(0, (index_t)v.ext[0]), r1(4, (index_t)v.ext[1]), r2(-9, (index_t)v.ext[2]);
  for_all_in_z_order(std::make_tuple(r0, r1, r2), [&](index_t a, index_t b, index_t c) { i64 p[] = {a, b - 4, c + 9}; v.at(p); });
  v.done();
}
VS_HARNESS(P25_large4) {
  static const i64 x[][4] = {{1, 2, 1, 66}, {2, 2, 33, 2}, {17, 1, 2, 3}, {1, 40, 2, 2}, {1, 1, 1, 257}};
  Visit v = {4};
  i64 c = vs_choose("case", 0, 4);
  for (int d = 0; d < 4; d++) v.ext[d] = x[c][d];
  interval<> r0(0, (index_t)v.ext[0]), r1(4, (index_t)v.ext[1]), r2(-9, (index_t)v.ext[2]), r3(1, (index_t)v.ext[3]);
  for_all_in_z_order(std::make_tuple(r0, r1, r2, r3), [&](index_t a, index_t b, index_t c, index_t d) { i64 p[] = {a, b - 4, c + 9, d - 1}; v.at(p); });
  v.done();
}
// rank 5
VS_HARNESS(P25_r5) {
  i64 e[5], t = 1, n = 0, last = -1;
  for (int d = 0; d < 5; d++) { e[d] = vs_choose("ext", 0, 2); t *= e[d]; }
  interval<> r[5];
  for (int d = 0; d < 5; d++) r[d] = interval<>(0, (index_t)e[d]);
  for_all_in_z_order(std::make_tuple(r[0], r[1], r[2], r[3], r[4]), [&](index_t a, index_t b, index_t c, index_t d, index_t f) {
    i64 p[] = {a, b, c, d, f};
    i64 z = morton(p, 5);
    for (int k = 0; k < 5; k++) CHECKM(0 <= p[k] && p[k] < e[k], "only elements of the ranges");
    CHECKM(z > last, "visits follow the z-curve");
    last = z;
    n++;
  });
  CHECKM(n == t, "every combination once");
  if (t > 4) vs_reach("visits");
  if (t == 0) vs_reach("empty");
}
