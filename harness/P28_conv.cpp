// BOUND: outputs of 3..7 channels x 4..9 columns (tiles of 3 x 4, element size 32 bytes) and 6..13 channels (tiles of 6 x 4, 16 bytes), 1..2 rows and batches, kernels of 1..3 x 1..2, 1..2 input channels; any mins (shared by input, kernel and output positions), compact and padded layouts, symbolic contents in [-99, 99] and of the output beforehand
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "common.h"
#include <algorithm>
#include <cmath>
template <int N>
struct W {
  int v;
  int pad[N / 4 - 1];
  W() : v(0) {}
  W(int x) : v(x) {}
  W(const W& o) : v(o.v) {} // passed by reference
  W& operator=(const W& o) { v = o.v; return *this; }
  W& operator+=(const W& o) { v += o.v; return *this; }
  bool operator<(const W& o) const { return v < o.v; }
  bool operator>(const W& o) const { return v > o.v; }
};
template <int N>
static W<N> operator*(const W<N>& a, const W<N>& b) { return W<N>(a.v * b.v); }
template <int N>
static W<N> operator+(const W<N>& a, const W<N>& b) { return W<N>(a.v + b.v); }
// The maximum as one term instead of two paths.
template <int N>
static const W<N>& max_(const W<N>& a, const W<N>& b) {
  static W<N> r[4];
  static int k;
  k = (k + 1) & 3;
  r[k].v = (int)vs_ite(a.v < b.v, b.v, a.v);
  return r[k];
}
namespace std {
template <> const W<32>& max<W<32>>(const W<32>& a, const W<32>& b) { return max_(a, b); }
template <> const W<16>& max<W<16>>(const W<16>& a, const W<16>& b) { return max_(a, b); }
}
#define main conv_main
#include <examples/linear_algebra/conv2d_relu.cpp>
#undef main

template <class T, class A>
static void fill_sym(A& a, i64 lo, i64 hi) { a.for_each_value([=](T& x) { x = T((int)vs_sym("x", lo, hi)); }); }

struct Sz { i64 co, x, y, n, ci, kx, ky; };
template <class T, class S>
static void run(Sz z, bool mins, bool tiled, i64 pad) {
  i64 xm = 0, ym = 0, nm = 0, cm = 0, km = 0, lm = 0, im = 0;
  if (mins) {
    xm = vs_sym("xm", -1000, 1000); ym = vs_sym("ym", -1000, 1000); nm = vs_sym("nm", -1000, 1000); cm = vs_sym("cm", -1000, 1000);
    km = vs_sym("km", -10, 10); lm = vs_sym("lm", -10, 10); im = vs_sym("im", -1000, 1000);
  }
  array<T, S> in(S({im, z.ci}, {xm + km, z.x + z.kx - 1}, {ym + lm, z.y + z.ky - 1}, {nm, z.n}));
  array<T, S> fl(S({cm, z.co}, {km, z.kx}, {lm, z.ky}, {im, z.ci}));
  array<T, dense_shape<1>> bias(dense_shape<1>(dense_dim<>(cm, z.co)));
  fill_sym<T>(in, -9, 9);
  fill_sym<T>(fl, -9, 9);
  fill_sym<T>(bias, -99, 99);
  array<T, shape_of_rank<4>> out(shape_of_rank<4>({cm, z.co}, dim<>(xm, z.x, z.co + pad), {ym, z.y}, {nm, z.n}));
  fill_sym<T>(out, -99, 99);
  if (tiled) conv2d_tiled(in.cref(), fl.cref(), bias.cref(), out.ref());
  else conv2d_naive(in.cref(), fl.cref(), bias.cref(), out.ref());
  for (i64 n = nm; n < nm + z.n; n++)
    for (i64 y = ym; y < ym + z.y; y++)
      for (i64 x = xm; x < xm + z.x; x++)
        for (i64 c = cm; c < cm + z.co; c++) {
          int s = bias(c).v;
          for (i64 ci = im; ci < im + z.ci; ci++)
            for (i64 dy = lm; dy < lm + z.ky; dy++)
              for (i64 dx = km; dx < km + z.kx; dx++) s += fl(c, dx, dy, ci).v * in(ci, x + dx, y + dy, n).v;
          CHECKM(out(c, x, y, n).v == (int)vs_ite(0 < s, s, 0), "max(0, bias + sum of filter times input)");
        }
  vs_reach("conv");
}
typedef shape<dense_dim<>, dim<>, dim<>, dim<>> S4;
VS_HARNESS(P28_tiles) { // every output size, small kernels
  run<W<32>, S4>(Sz{vs_choose("co", 3, 7), vs_choose("x", 4, 9), 1, 1, 1, vs_choose("kx", 1, 2), 1}, true, true, 0);
}
VS_HARNESS(P28_kernels) {
  run<W<32>, S4>(Sz{vs_choose("co", 3, 4), vs_choose("x", 4, 5), vs_choose("y", 1, 2), vs_choose("n", 1, 2), vs_choose("ci", 1, 2), vs_choose("kx", 1, 3), vs_choose("ky", 1, 2)}, false, true, vs_choose("pad", 0, 1));
}
VS_HARNESS(P28_mins) {
  run<W<32>, shape_of_rank<4>>(Sz{vs_choose("co", 3, 5), vs_choose("x", 4, 6), 2, 1, 2, 2, 2}, true, true, 1);
}
VS_HARNESS(P28_wide) {
  run<W<16>, S4>(Sz{vs_choose("co", 6, 13), vs_choose("x", 4, 9), 1, 1, 1, 2, 1}, false, true, 0);
}
VS_HARNESS(P28_empty) { // no input channels or no kernel: max(0, bias)
  run<W<32>, S4>(Sz{4, 5, vs_choose("y", 0, 1), vs_choose("n", 0, 1), vs_choose("ci", 0, 1), 1, 1}, false, true, 0);
}
VS_HARNESS(P28_naive) {
  run<W<32>, S4>(Sz{vs_choose("co", 0, 2), vs_choose("x", 0, 3), vs_choose("y", 0, 1), vs_choose("n", 0, 1), vs_choose("ci", 0, 2), vs_choose("kx", 1, 2), vs_choose("ky", 1, 2)}, true, false, 0);
}
