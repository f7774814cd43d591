// BOUND: build_kernels: inputs of 1..3 (thorough 1..4) positions, 1..2 output positions, input and output mins in [-3, 3] (thorough [-5, 5]), rates p/q with p, q in 1..3 (thorough 1..5), and an arbitrary reconstruction kernel (any integer value in [-1, 2] (thorough [-1, 3]) at each tap, with a positive sum over the input); positions and weights are case split, so all floating point is exact evaluation
// BOUND: resample: one arbitrary non-zero pixel (resampling is linear), of symbolic value where the weights are multiples of 1/32; input widths up to 3 (thorough 5), output heights 64, 65 (thorough also 127, 128, 130), rates 1/3, 1/2, 2/3, 1, 3/2, 2, 3, mins -1..2, box/linear/quadratic/cubic kernels, planar and generic strides, 1..2 channels; heights 1, 2, 63 as a recorded finding
// BOUND: support of the predefined kernels: every finite float; the Lanczos kernels only outside their lobes
// VSCONFIG: -
#include "common.h"
#include <cmath>
#include <cstring>
#include <array/image.h>
#include <examples/resample/resample.h>
using namespace nda;
typedef rational<index_t> Q;

static i64 gnin;           // number of inputs per output position
static i64 ncall;
static float garg[64];
static i64 gw[64], glo, ghi;
static float abstract_kernel(float s) {
  i64 n = ncall++;
  if (n >= 64) { CHECKM(0, "the kernel is evaluated once per input and output position"); return 0; }
  garg[n] = s;
  gw[n] = vs_choose("w", glo, ghi);
  if (n % gnin == gnin - 1) { // the last tap of this output position
    i64 sum = 0;
    for (i64 k = 0; k < gnin; k++) sum += gw[n - k];
    ASSUME(sum > 0);
  }
  return (float)gw[n];
}
static void t_kernels(i64 nin, i64 nout, i64 B, i64 lo, i64 hi) {
  const i64 P = VS_T(3, 5);
  i64 p = vs_choose("p", 1, P), q = vs_choose("q", 1, P);
  i64 im = vs_choose("im", -B, B), om = vs_choose("om", -B, B);
  glo = lo; ghi = hi;
  gnin = nin;
  ncall = 0;
  internal::kernel_array ks = internal::build_kernels({(index_t)im, (index_t)nin}, {(index_t)om, (index_t)nout}, Q((index_t)p, (index_t)q), abstract_kernel);
  CHECKM(ks.x().min() == om && ks.x().extent() == nout, "one kernel per output position");
  CHECKM(ncall == nin * nout, "the kernel is evaluated once per input and output position");
  for (i64 x = 0; x < nout; x++) {
    const auto& k = ks((index_t)(om + x));
    const i64* w = gw + x * nin;
    i64 lo = 0, hi = nin - 1, sum = 0;
    while (w[lo] == 0) lo++;
    while (w[hi] == 0) hi--;
    for (i64 i = 0; i < nin; i++) sum += w[i];
    CHECKM(k.x().min() == im + lo, "the kernel starts at the first input with a weight");
    CHECKM(k.x().extent() == hi - lo + 1, "the kernel ends at the last input with a weight");
    for (i64 i = 0; i < nin; i++) {
      // the exact position: s = (im + i - ((om + x + 1/2) q / p - 1/2)) * min(p/q, 1)
      i64 num = (2 * (im + i) + 1) * p - (2 * (om + x) + 1) * q; // over 2p
      double s = (double)num / (double)(2 * p) * (p < q ? (double)p / q : 1.0);
      double e = (double)garg[x * nin + i] - s;
      CHECKM((e < 1e-3) & (e > -1e-3), "the kernel is evaluated at the distance to the mapped position");
      if (i < lo || i > hi) continue;
      float kw = k((index_t)(im + i));
      double d = (double)kw * (double)sum - (double)w[i];
      CHECKM((d < 1e-5) & (d > -1e-5), "weights are normalised");
    }
  }
  vs_reach("kernels");
}
VS_HARNESS(P30_kernels) { t_kernels(vs_choose("nin", 1, VS_T(3, 4)), 1, 0, -1, VS_T(2, 3)); }
VS_HARNESS(P30_kernels_min) { t_kernels(vs_choose("nin", 1, 2), 1, VS_T(3, 5), 0, 1); }
VS_HARNESS(P30_kernels_two) { t_kernels(2, 2, 1, -1, 1); }

// The kernels vanish outside their support, so that every output reads a bounded neighbourhood.
static float anyf() {
  uint32_t b = (uint32_t)vs_sym("bits", 0, 0xffffffffll);
  float f;
  std::memcpy(&f, &b, 4);
  ASSUME(f == f);
  return f;
}
VS_HARNESS(P30_support) {
  float s = anyf();
  float a = s < 0 ? -s : s;
  switch (vs_choose("kernel", 0, 7)) {
  case 0: CHECKM(box(s) == (a <= 0.5f ? 1.0f : 0.0f), "box"); break;
  case 1: if (a >= 1.0f) CHECKM(linear(s) == 0, "linear support"); else CHECKM(linear(s) == 1.0f - a, "linear"); break;
  case 2: if (a >= 1.5f) CHECKM(interpolating_quadratic(s) == 0, "quadratic support"); break;
  case 3: if (a >= 1.5f) CHECKM(quadratic_bspline(s) == 0, "quadratic support"); break;
  case 4: if (a > 2.0f) CHECKM(interpolating_cubic(s) == 0, "cubic support"); break;
  case 5: if (a > 2.0f) CHECKM(cubic_bspline(s) == 0, "cubic support"); break;
  case 6: if (a > 4.0f) CHECKM(lanczos<4>(s) == 0, "lanczos support"); break;
  default: if (a > 2.0f) CHECKM(lanczos<2>(s) == 0, "lanczos support"); break;
  }
  vs_reach("support");
}

static continuous_kernel kern(int k) { return k == 0 ? box : k == 1 ? linear : k == 2 ? interpolating_quadratic : cubic_bspline; }
// The weight of input r (of [m, m + n)) in output x.
static void weights(int k, i64 p, i64 q, i64 m, i64 n, i64 x, double* w) {
  continuous_kernel f = kern(k);
  double s = 0;
  for (i64 i = 0; i < n; i++) {
    i64 num = (2 * (m + i) + 1) * p - (2 * x + 1) * q;
    w[i] = f((float)((double)num / (2 * p) * (p < q ? (double)p / q : 1.0)));
    s += w[i];
  }
  for (i64 i = 0; i < n; i++) w[i] /= s;
}
// Resampling is linear in the pixels, so it is decided by its response to one arbitrary pixel of arbitrary value.
struct Cfg { int k; i64 px, qx, py, qy; };
static const i64 MAXN = 200, MAXY = 130;
template <class SI, class SO>
static void t_resample(Cfg g, SI si, SO so, bool finding = false) {
  si.resolve();
  so.resolve();
  dense_array<float, 1> ibuf({{0, (index_t)si.flat_extent()}}, 0.0f), obuf({{0, (index_t)so.flat_extent()}}, -777.0f);
  array_ref<float, SI> src(ibuf.base() - si.flat_min(), si);
  array_ref<float, SO> out(obuf.base() - so.flat_min(), so);
  i64 h = si.y().extent();
  const i64 rows[] = {0, h - 1, h / 2, 1, h - 2, 10, h / 2 - 1, 31, 32};
  i64 ix = vs_choose("ix", 0, si.x().extent() - 1), iy = rows[vs_choose("iy", 0, VS_T(1, 8))], ic = vs_choose("ic", 0, si.c().extent() - 1);
  if (iy < 0 || iy >= h) return;
  // the pixel's value: symbolic if every weight is a multiple of 1/32 (then the floating point is exact), else one value
  double wx[32][8], wy[MAXY][MAXN]; // per output column and row
  bool dyadic = true;
  for (i64 x : so.x()) {
    double* w = wx[x - so.x().min()];
    weights(g.k, g.px, g.qx, si.x().min(), si.x().extent(), x, w);
    dyadic = dyadic & (w[ix] * 32 == (double)(i64)(w[ix] * 32));
  }
  for (i64 y : so.y()) {
    double* w = wy[y - so.y().min()];
    weights(g.k, g.py, g.qy, si.y().min(), h, y, w);
    dyadic = dyadic & (w[iy] * 32 == (double)(i64)(w[iy] * 32));
  }
  float v = dyadic ? (float)(1024 * vs_sym("value", 1, 1023)) : 200.0f;
  src((index_t)(si.x().min() + ix), (index_t)(si.y().min() + iy), (index_t)(si.c().min() + ic)) = v;
  array_ref<const float, SI> in = src;
  auto go = [&]() { resample(in, out, Q((index_t)g.px, (index_t)g.qx), Q((index_t)g.py, (index_t)g.qy), kern(g.k)); };
  if (finding) {
    if (vs_asserts(go)) { CHECKM(0, "resample fails an assertion for an output height of 1..63"); return; }
  } else go();
  bool ok = true, zero = true;
  size_t seen = 0;
  for (i64 y : out.y()) {
    for (i64 x : out.x()) {
      for (i64 c : out.c()) {
        float o = out((index_t)x, (index_t)y, (index_t)c);
        double w = wx[x - so.x().min()][ix] * wy[y - so.y().min()][iy];
        seen++;
        if (c - si.c().min() != ic || w == 0) { zero = zero & (o == 0); continue; }
        double e = (double)o - (double)v * w;
        ok = ok & (e < 1e-3) & (e > -1e-3);
      }
    }
  }
  CHECKM(zero, "pixels outside the kernel's support do not contribute");
  CHECKM(ok, "every output pixel is the weighted sum of the input pixels under its kernels");
  i64 untouched = 0;
  for (size_t i = 0; i < obuf.size(); i++) untouched += obuf((index_t)i) == -777.0f ? 1 : 0;
  CHECKM(untouched == (i64)(obuf.size() - seen), "only the output's pixels are written");
  vs_reach("resample");
}
typedef shape<dim<>, dim<>, dim<>> G3;
static const i64 RP[] = {1, 2, 1, 3, 3, 1, 2}, RQ[] = {1, 1, 2, 2, 1, 3, 3};
// the output's extent for an input of n positions (which the output then covers)
static i64 outn(i64 n, i64 p, i64 q) { return (n * p + q - 1) / q; }
// every horizontal rate and kernel; 64 rows
VS_HARNESS(P30_resample_x) {
  i64 r = vs_choose("rate", 0, 6), k = vs_choose("kernel", 0, 3), w = vs_choose("w", 1, VS_T(3, 5));
  if (VS_T(1, 0)) ASSUME((w + r + k) % 3 == 0); // a third of the combinations in the quick tier
  Cfg g = {(int)k, RP[r], RQ[r], 2, 1};
  t_resample(g, planar_image_shape((index_t)w, 32, 1), planar_image_shape((index_t)outn(w, g.px, g.qx), 64, 1));
}
// vertical rates; heights around the strip size
VS_HARNESS(P30_resample_y) {
  i64 r = vs_choose("rate", 0, 5), k = vs_choose("kernel", 0, 3);
  static const i64 H[] = {64, 65, 127, 128, 130};
  i64 oh = H[vs_choose("oh", 0, VS_T(1, 4))];
  Cfg g = {(int)k, 1, 1, RP[r], RQ[r]};
  if (VS_T(1, 0)) ASSUME((r + k) % 2 == 0);
  i64 ih = (oh * g.qy + g.py - 1) / g.py;
  if (ih > MAXN) return;
  t_resample(g, planar_image_shape(1, (index_t)ih, 1), planar_image_shape(1, (index_t)oh, 1));
}
// cropped and offset inputs and outputs with generic strides, two channels
VS_HARNESS(P30_resample_crop) {
  i64 k = vs_choose("kernel", 1, 2), im = vs_choose("im", -1, 1), om = vs_choose("om", 0, 1), cs = vs_choose("chunky", 0, 1);
  if (VS_T(1, 0)) ASSUME((im + om + k + cs) % 2 == 0);
  G3 si = cs ? G3({(index_t)im, 3, 2}, {(index_t)-im, 66, 6}, {0, 2, 1}) : G3({(index_t)im, 3, 1}, {(index_t)-im, 66, -4}, {0, 2, 300});
  G3 so = cs ? G3({(index_t)(im + om), 2, 1}, {(index_t)(om - im), 64, 3}, {0, 2, 200}) : G3({(index_t)(im + om), 2, -2}, {(index_t)(om - im), 65, 4}, {0, 2, 1});
  t_resample(Cfg{(int)k, 1, 1, 1, 1}, si, so);
}
// Recorded finding.
VS_HARNESS(P30_finding_small) {
  i64 oh = vs_choose("oh", 0, 2);
  oh = oh == 0 ? 1 : oh == 1 ? 2 : 63;
  t_resample(Cfg{0, 1, 1, 1, 1}, planar_image_shape(2, (index_t)oh, 1), planar_image_shape(2, (index_t)oh, 1), true);
}
