// BOUND: results of 4..9 x 3..7 elements with tiles of 4 x 3 (element size 32 bytes), inner size 0..3 for every variant and 255..258, 512, 513 for the variant that splits the inner dimension (tile 256); int elements with tiles of 4 x 24; any mins, padded rows, symbolic contents of A, B and of the result beforehand
// VSCONFIG: - -DNDEBUG
#include "common.h"
#include <immintrin.h>
#define main matrix_main
#include <examples/linear_algebra/matrix.cpp>
#undef main

// Element of 32 bytes, so that the tiles are small: 4 x 3, cache lines of 2.
struct W {
  unsigned v;
  unsigned pad[7];
  W() : v(0) {}
  W(int x) : v((unsigned)x) {}
  W& operator+=(const W& o) { v += o.v; return *this; }
};
static W operator*(const W& a, const W& b) { W r; r.v = a.v * b.v; return r; }
static unsigned val(const W& a) { return a.v; }
static unsigned val(int a) { return (unsigned)a; }
static unsigned val(unsigned a) { return a; }

template <class T>
struct Mat {
  std::vector<T> buf;
  i64 r, c, mr, mc, pitch;
  Mat(i64 r, i64 c, i64 mr, i64 mc, i64 pad) : buf((size_t)(r * (c + pad) + 1)), r(r), c(c), mr(mr), mc(mc), pitch(c + pad) {}
  matrix_ref<T> ref() { return matrix_ref<T>(buf.data(), matrix_shape<>(dim<>(mr, r, pitch), dense_dim<>(mc, c))); }
  const_matrix_ref<T> cref() { return ref(); }
  T& at(i64 i, i64 j) { return buf[i * pitch + j]; }
  void fill_sym() { for (i64 i = 0; i < r; i++) for (i64 j = 0; j < pitch; j++) at(i, j) = T((int)vs_sym("x", 0, 9999)); }
};
template <class T>
using fn_t = void (*)(const_matrix_ref<T>, const_matrix_ref<T>, matrix_ref<T>);

// How many of the tiles of split<t>(0..e) contain i (the last tile is moved back to end at e).
static i64 cover(i64 i, i64 e, i64 t) {
  i64 c = 0;
  for (i64 b = 0; b < e; b += t) {
    i64 s = b + t > e ? e - t : b;
    c += s <= i && i < s + t;
  }
  return c;
}
// finding: 0 none; 1/2 the recorded findings (see known_findings.json): the result is either right or wrong in exactly the recorded way.
template <class T>
static void run(fn_t<T> f, i64 m, i64 n, i64 k, bool mins = true, int finding = 0) {
  i64 im = mins ? vs_sym("im", -1000, 1000) : 0, jm = mins ? vs_sym("jm", -1000, 1000) : 0, km = mins ? vs_sym("km", -1000, 1000) : 0;
  Mat<T> A(m, k, im, km, 1), B(k, n, km, jm, 0), C(m, n, im, jm, 2);
  A.fill_sym(); B.fill_sym(); C.fill_sym();
  std::vector<T> old = C.buf;
  f(A.cref(), B.cref(), C.ref());
  bool right = true;
  for (i64 i = 0; i < m; i++) {
    for (i64 j = 0; j < n; j++) {
      unsigned s = 0;
      for (i64 l = 0; l < k; l++) s += val(A.at(i, l)) * val(B.at(l, j));
      if (finding) {
        unsigned wrong = val(old[i * C.pitch + j]);
        if (finding == 2) {
          unsigned s0 = 0;
          for (i64 l = 0; l < 256; l++) s0 += val(A.at(i, l)) * val(B.at(l, j));
          wrong = s0 + (unsigned)(cover(i, m, 4) * cover(j, n, 3)) * (s - s0);
        }
        CHECKM((val(C.at(i, j)) == s) | (val(C.at(i, j)) == wrong), "the naive product, but for the recorded finding");
        right = right & (val(C.at(i, j)) == s);
        continue;
      }
      CHECKM(val(C.at(i, j)) == s, "the naive product, whatever the result held before");
    }
    for (i64 j = n; j < C.pitch; j++) CHECKM(val(C.at(i, j)) == val(old[i * C.pitch + j]), "padding is untouched");
  }
  if (finding == 1) CHECKM(right, "multiply_reduce_tiles_z_order leaves the result as it was if the inner size is zero");
  if (finding == 2) CHECKM(right, "multiply_reduce_tiles_z_order adds the overlap of tiles more than once if the inner size exceeds 256");
  vs_reach("product");
}
static void small(fn_t<W> f, i64 k0 = 0) {
  i64 m = vs_choose("m", 4, 9), n = vs_choose("n", 3, 7), k = vs_choose("k", k0, VS_T(2, 5));
  run<W>(f, m, n, k);
}
VS_HARNESS(P27_reduce_cols) { small(multiply_reduce_cols<W>); }
VS_HARNESS(P27_ein_reduce_cols) { small(multiply_ein_reduce_cols<W>); }
VS_HARNESS(P27_reduce_rows) { small(multiply_reduce_rows<W>); }
VS_HARNESS(P27_ein_reduce_rows) { small(multiply_ein_reduce_rows<W>); }
VS_HARNESS(P27_reduce_matrix) { small(multiply_reduce_matrix<W>); }
VS_HARNESS(P27_ein_reduce_matrix) { small(multiply_ein_reduce_matrix<W>); }
VS_HARNESS(P27_reduce_tiles) { small(multiply_reduce_tiles<W>); }
VS_HARNESS(P27_ein_reduce_tiles) { small(multiply_ein_reduce_tiles<W>); }
VS_HARNESS(P27_z_order) { small(multiply_reduce_tiles_z_order<W>, 1); }
// sizes below the tile sizes, for the variants without tiles
static void tiny(fn_t<W> f) {
  i64 m = vs_choose("m", 0, 3), n = vs_choose("n", 0, 3), k = vs_choose("k", 0, 3);
  run<W>(f, m, n, k);
}
VS_HARNESS(P27_tiny) {
  switch (vs_choose("f", 0, 5)) {
  case 0: tiny(multiply_reduce_cols<W>); break;
  case 1: tiny(multiply_ein_reduce_cols<W>); break;
  case 2: tiny(multiply_reduce_rows<W>); break;
  case 3: tiny(multiply_ein_reduce_rows<W>); break;
  case 4: tiny(multiply_reduce_matrix<W>); break;
  default: tiny(multiply_ein_reduce_matrix<W>); break;
  }
}
VS_HARNESS(P27_ref) {
  int m = (int)vs_choose("m", 0, 3), n = (int)vs_choose("n", 0, 3), k = (int)vs_choose("k", 0, 3);
  Mat<unsigned> A(m, k, 0, 0, 0), B(k, n, 0, 0, 0), C(m, n, 0, 0, 0);
  A.fill_sym(); B.fill_sym(); C.fill_sym();
  multiply_ref(A.buf.data(), B.buf.data(), C.buf.data(), m, k, n);
  for (i64 i = 0; i < m; i++)
    for (i64 j = 0; j < n; j++) {
      unsigned s = 0;
      for (i64 l = 0; l < k; l++) s += A.at(i, l) * B.at(l, j);
      CHECKM(C.at(i, j) == s, "the naive product");
    }
  if (m * n * k == 27) vs_reach("ref");
}
// inner sizes around the inner tile
static const i64 ks[] = {255, 256, 257, 258, 512, 513};
VS_HARNESS(P27_z_order_k) {
  i64 k = ks[vs_choose("k", VS_T(1, 0), VS_T(3, 5))];
  i64 m = vs_choose("m", 4, VS_T(5, 8)), n = vs_choose("n", 3, VS_T(4, 6));
  if (k > 256) { ASSUME(m % 4 == 0 && n % 3 == 0); } // else: finding_overlap
  run<W>(multiply_reduce_tiles_z_order<W>, m, n, k, false);
}
VS_HARNESS(P27_z_order_k_even) {
  i64 k = ks[vs_choose("k", VS_T(2, 1), VS_T(2, 5))], t = vs_choose("t", 0, 1);
  run<W>(multiply_reduce_tiles_z_order<W>, t ? 8 : 4, t ? 3 : 6, k, false);
}
// Recorded findings.
VS_HARNESS(P27_finding_k0) { run<W>(multiply_reduce_tiles_z_order<W>, vs_choose("m", 4, 5), vs_choose("n", 3, 4), 0, true, 1); }
VS_HARNESS(P27_finding_overlap) {
  i64 k = ks[vs_choose("k", 2, VS_T(2, 5))];
  i64 m = vs_choose("m", 4, VS_T(5, 8)), n = vs_choose("n", 3, VS_T(4, 6));
  ASSUME(m % 4 != 0 || n % 3 != 0);
  run<W>(multiply_reduce_tiles_z_order<W>, m, n, k, false, 2);
}
// int elements: tiles of 4 x 24
VS_HARNESS(P27_int_tiles) {
  i64 m = vs_choose("m", 4, 5), n = vs_choose("n", 24, VS_T(25, 27)), k = vs_choose("k", 1, 2);
  switch (vs_choose("f", 0, 2)) {
  case 0: run<unsigned>(multiply_reduce_tiles<unsigned>, m, n, k); break;
  case 1: run<unsigned>(multiply_ein_reduce_tiles<unsigned>, m, n, k); break;
  default: run<unsigned>(multiply_reduce_tiles_z_order<unsigned>, m, n, k); break;
  }
}
