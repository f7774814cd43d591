// BOUND: any image mins, extents 0..2^10 and strides |s| <= 2^10, any crop window (inside, partly or wholly outside, inverted) with |coordinate| <= 2^21; generic, planar and chunky shapes (static and dynamic channels); base addresses that are never dereferenced
// BOUND: owning images: widths 1..3 (thorough: 0..3), heights 0..2, windows starting from -1 to 2, every pixel of the view read and written
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/image.h>
using namespace nda;
static const i64 MM = P2(20), SS = P2(10);

// the intersection of [x0, x1) with a dim
static void isect(const RD& d, i64 x0, i64 x1, i64& lo, i64& n) {
  lo = std::max(x0, d.min);
  i64 hi = std::min(x1, d.min + d.ext);
  n = hi - lo < 0 ? 0 : hi - lo;
}
template <class S>
static void t_crop(bool empty_image) {
  vs_opt("forkselect", 1);
  RD r[4], g[4];
  S s = mk<S>(r, Rng{MM, empty_image ? 0 : 1, P2(10), -SS, SS});
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> im(base, s);
  i64 w[4];
  for (int k = 0; k < 4; k++) w[k] = vs_sym("w", -2 * MM, 2 * MM);
  i64 zero = vs_choose("zero", 0, 1);
  i64 xm, xn, ym, yn;
  isect(r[0], w[0], w[2], xm, xn);
  isect(r[1], w[1], w[3], ym, yn);
  if (empty_image) ASSUME(r[0].ext == 0 || r[1].ext == 0 || r[2].ext == 0);
  array_ref<int, S> c;
  if (zero) c = crop(im, w[0], w[1], w[2], w[3], crop_origin::zero);
  else c = vs_choose("dflt", 0, 1) ? crop(im, w[0], w[1], w[2], w[3]) : crop(im, w[0], w[1], w[2], w[3], crop_origin::crop);
  rd(c.shape(), g);
  if (xn == 0 || yn == 0) {
    CHECKM(g[0].ext == xn && g[1].ext == yn, "a window that misses the image gives an empty view");
    CHECKM(c.empty(), "empty view");
    vs_reach("disjoint");
    return;
  }
  CHECKM((g[0].ext == xn) & (g[1].ext == yn), "extents of the intersection");
  CHECKM((g[0].min == (zero ? 0 : xm)) & (g[1].min == (zero ? 0 : ym)), "origin at the window or at zero");
  CHECKM((g[2].min == r[2].min) & (g[2].ext == r[2].ext), "all channels");
  CHECKM((g[0].str == r[0].str) & (g[1].str == r[1].str) & (g[2].str == r[2].str), "strides are kept");
  if (r[2].ext == 0) { CHECKM(c.empty(), "empty view"); return; }
  i64 px = vs_sym("px", 0, P2(10) - 1), py = vs_sym("py", 0, P2(10) - 1), pc = vs_sym("pc", 0, P2(10) - 1);
  ASSUME((px < xn) & (py < yn) & (pc < r[2].ext));
  const int* p = &c((index_t)(g[0].min + px), (index_t)(g[1].min + py), (index_t)(g[2].min + pc));
  const int* q = base + ((xm - r[0].min + px) * r[0].str + (ym - r[1].min + py) * r[1].str + pc * r[2].str);
  CHECKM(p == q, "each pixel of the view is the original pixel");
  vs_reach("crop");
}
VS_HARNESS(P26_crop) { t_crop<image_shape>(false); }
VS_HARNESS(P26_crop_planar) { t_crop<planar_image_shape>(false); }
VS_HARNESS(P26_crop_chunky) { t_crop<chunky_image_shape<>>(false); }
VS_HARNESS(P26_crop_chunky3) { t_crop<chunky_image_shape<3>>(false); }
VS_HARNESS(P26_crop_chunky34) { t_crop<chunky_image_shape<3, 4>>(false); }
VS_HARNESS(P26_crop_empty) { 
  vs_opt("forkselect", 1);
  RD r[4], g[4];
  auto s = mk<image_shape>(r, Rng{MM, 0, P2(10), -SS, SS});
  ASSUME((r[0].ext == 0) | (r[1].ext == 0) | (r[2].ext == 0));
  image_ref<int> im((int*)vs_abstract(1), s);
  i64 w[4];
  for (int k = 0; k < 4; k++) w[k] = vs_sym("w", -2 * MM, 2 * MM);
  auto c = crop(im, w[0], w[1], w[2], w[3]);
  rd(c.shape(), g);
  CHECKM((g[0].ext >= 0) & (g[1].ext >= 0) & (g[2].ext == r[2].ext), "no negative extents");
  CHECKM((g[0].ext <= r[0].ext) & (g[1].ext <= r[1].ext), "nothing outside the image");
  CHECKM(c.empty(), "a crop of an empty image is empty");
  vs_reach("empty");
}
VS_HARNESS(P26_crop_null) {
  vs_opt("forkselect", 1);
  RD r[4], g[4];
  auto s = mk<image_shape>(r, Rng{MM, 1, P2(10), -SS, SS});
  image_ref<int> im(nullptr, s);
  i64 w[4], xm, xn, ym, yn;
  for (int k = 0; k < 4; k++) w[k] = vs_sym("w", -2 * MM, 2 * MM);
  auto c = crop(im, w[0], w[1], w[2], w[3], vs_choose("z", 0, 1) ? crop_origin::zero : crop_origin::crop);
  isect(r[0], w[0], w[2], xm, xn);
  isect(r[1], w[1], w[3], ym, yn);
  rd(c.shape(), g);
  CHECKM((g[0].ext == xn) & (g[1].ext == yn), "extents of the intersection");
  CHECKM(c.base() == nullptr, "a crop of a null reference is null");
  vs_reach("null");
}
VS_HARNESS(P26_crop_shape) {
  RD r[4], g[4];
  auto s = mk<planar_image_shape>(r, Rng{MM, 0, P2(10), -SS, SS});
  i64 x0 = vs_sym("x0", -MM, MM), y0 = vs_sym("y0", -MM, MM), w = vs_sym("w", 0, P2(10)), h = vs_sym("h", 0, P2(10));
  i64 z = vs_choose("z", 0, 1);
  rd(crop_image_shape(s, x0, y0, x0 + w, y0 + h, z ? crop_origin::zero : crop_origin::crop), g);
  CHECKM((g[0].ext == w) & (g[1].ext == h) & (g[2].ext == r[2].ext) & (g[2].min == r[2].min), "requested extents");
  CHECKM((g[0].min == (z ? 0 : x0)) & (g[1].min == (z ? 0 : y0)), "requested origin");
  CHECKM((g[0].str == r[0].str) & (g[1].str == r[1].str) & (g[2].str == r[2].str), "strides");
  vs_reach("shape");
}

// owning images: reads and writes through the view
template <class S>
static void t_own(i64 C) {
  i64 W = vs_choose("W", VS_T(1, 0), 3), H = vs_choose("H", 0, 2), x = vs_sym("x", -MM, MM), y = vs_sym("y", -MM, MM);
  array<int, S> im({{x, W}, {y, H}, {0, C}}, 0);
  array<int, S> copy;
  i64 n = 0;
  im.for_each_value([&](int& v) { v = (int)n++; });
  copy = im;
  i64 x0 = vs_choose("x0", -1, VS_T(2, 3)), y0 = vs_choose("y0", VS_T(0, -1), VS_T(1, 2)), x1 = x0 + vs_choose("w", VS_T(0, -1), VS_T(3, 4)), y1 = y0 + vs_choose("h", VS_T(1, 0), VS_T(2, 3));
  i64 zero = vs_choose("zero", 0, 1);
  auto c = (x1 & 1) ? (crop(const_cast<const array<int, S>&>(im), x + x0, y + y0, x + x1, y + y1, zero ? crop_origin::zero : crop_origin::crop), crop(im, x + x0, y + y0, x + x1, y + y1, zero ? crop_origin::zero : crop_origin::crop))
                                   : crop(im, x + x0, y + y0, x + x1, y + y1, zero ? crop_origin::zero : crop_origin::crop);
  i64 lx = std::max<i64>(x0, 0), ly = std::max<i64>(y0, 0), nx = std::max<i64>(std::min(x1, W) - lx, 0), ny = std::max<i64>(std::min(y1, H) - ly, 0);
  CHECKM(c.width() == nx && c.height() == ny && c.channels() == C, "extents");
  c.for_each_value([&](int& v) { v += 1000; });
  for (i64 k = 0; k < C; k++)
    for (i64 j = 0; j < H; j++)
      for (i64 i = 0; i < W; i++) {
        bool in = lx <= i && i < lx + nx && ly <= j && j < ly + ny;
        CHECKM(im(x + i, y + j, k) == copy(x + i, y + j, k) + (in ? 1000 : 0), "exactly the pixels of the window");
      }
  if (nx && ny) {
    CHECKM(&c(zero ? 0 : x + lx, zero ? 0 : y + ly, 0) == &im(x + lx, y + ly, 0), "first pixel");
    vs_reach("own");
  } else {
    CHECKM(c.empty(), "empty");
    vs_reach("ownempty");
  }
}
VS_HARNESS(P26_own_image) { t_own<image_shape>(2); }
VS_HARNESS(P26_own_planar) { t_own<planar_image_shape>(1); }
VS_HARNESS(P26_own_chunky) { t_own<chunky_image_shape<3>>(3); }

// slice_channel
template <class S>
static void t_chan() {
  RD r[4], g[3];
  i64 v[3];
  S s = mkp<S>(r, v, Rng{MM, 1, P2(10), -SS, SS});
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> im(base, s);
  auto c = slice_channel(im, (index_t)v[2]);
  rd(c.shape(), g);
  CHECKM((g[0].min == r[0].min) & (g[0].ext == r[0].ext) & (g[0].str == r[0].str), "x is kept");
  CHECKM((g[1].min == r[1].min) & (g[1].ext == r[1].ext) & (g[1].str == r[1].str), "y is kept");
  const int* p = &c((index_t)v[0], (index_t)v[1]);
  CHECKM(p == base + off(r, 3, v), "pixels of exactly that channel");
  CHECKM(c.shape().rank() == 2, "two-dimensional");
  vs_reach("chan");
}
VS_HARNESS(P26_chan) { t_chan<image_shape>(); }
VS_HARNESS(P26_chan_planar) { t_chan<planar_image_shape>(); }
VS_HARNESS(P26_chan_chunky) { t_chan<chunky_image_shape<>>(); }
VS_HARNESS(P26_chan_chunky34) { t_chan<chunky_image_shape<3, 4>>(); }
VS_HARNESS(P26_chan_own) {
  chunky_image<int, 3> im({{2, 2}, {5, 3}, {}}, 0);
  int n = 0;
  im.for_each_value([&](int& v) { v = n++; });
  i64 k = vs_choose("k", 0, 2);
  const auto& cim = im;
  auto c = slice_channel(im, k);
  auto cc = slice_channel(cim, k);
  for (int y = 5; y < 8; y++)
    for (int x = 2; x < 4; x++) CHECKM(c(x, y) == im(x, y, k) && &cc(x, y) == &im(x, y, k), "channel");
  vs_reach("chan_own");
}
// documented strides of the image shapes
VS_HARNESS(P26_strides) {
  i64 w = vs_sym("w", 1, 1000), h = vs_sym("h", 2, 1000), c = vs_sym("c", 1, 64), xs = vs_sym("xs", 0, 64);
  planar_image_shape p(w, h, c);
  p.resolve();
  CHECKM(p.x().stride() == 1 && p.y().stride() == w, "planar: x dense");
  chunky_image_shape<3> k3(w, h, {});
  k3.resolve();
  CHECKM(k3.c().stride() == 1 && k3.x().stride() == 3 && k3.c().extent() == 3 && k3.y().stride() == 3 * w, "chunky: c dense, then x");
  chunky_image_shape<3, 4> k34(w, h, {});
  k34.resolve();
  CHECKM(k34.c().stride() == 1 && k34.x().stride() == 4 && k34.c().extent() == 3 && k34.y().stride() >= 4 * (w - 1) + 3, "padded chunky");
  chunky_image_shape<> kd(w, h, c);
  kd.resolve();
  CHECKM(kd.c().stride() == 1 && kd.x().stride() == c, "dynamic chunky");
  chunky_image_shape<> kp(dim<>(0, w, c + xs), h, c);
  kp.resolve();
  CHECKM(kp.c().stride() == 1 && kp.x().stride() == c + xs, "padding of x is kept");
  vs_reach("strides");
}
// iteration order: c innermost, then x, then y
template <class S>
static void t_order(i64 C) {
  i64 w = vs_choose("w", 0, 3), h = vs_choose("h", 0, 3), x = vs_sym("x", -MM, MM), y = vs_sym("y", -MM, MM);
  S s({x, w}, {y, h}, {0, C});
  i64 n = 0;
  for_each_index(s, [&](const std::tuple<index_t, index_t, index_t>& i) {
    CHECKM((std::get<2>(i) == n % C) & (std::get<0>(i) == x + n / C % w) & (std::get<1>(i) == y + n / C / w), "c, then x, then y");
    n++;
  });
  CHECKM(n == w * h * C, "each once");
  if (n) vs_reach("order");
}
VS_HARNESS(P26_order3) { t_order<chunky_image_shape<3>>(3); }
VS_HARNESS(P26_order34) { t_order<chunky_image_shape<3, 4>>(3); }

// the named array and reference types are those of the image shapes, mutable or not
template <class A, class Ref, class CRef>
static void t_types(A im, i64 c) {
  i64 n = 0;
  for_each_index(im.shape(), [&](const typename A::index_type& i) { im[i] = (int)n++; });
  Ref r = im.ref();
  CRef cr = im.cref(), rr = r;
  const A& cim = im;
  CRef cc = cim.ref();
  CHECKM(n == 6 * c, "every pixel");
  n = 0;
  for_each_index(im.shape(), [&](const typename A::index_type& i) {
    CHECKM(&r[i] == &im[i] && &cr[i] == &im[i] && &rr[i] == &im[i] && &cc[i] == &im[i] && im[i] == n++, "the same pixel");
  });
  static_assert(std::is_same<decltype(cr(0, 0, 0)), const int&>::value && std::is_same<decltype(r(0, 0, 0)), int&>::value, "constness");
  vs_reach("types");
}
VS_HARNESS(P26_types) {
  i64 x = vs_sym("x", -MM, MM), y = vs_sym("y", -MM, MM);
  switch (vs_choose("kind", 0, 4)) {
  case 0: t_types<image<int>, image_ref<int>, const_image_ref<int>>(image<int>({{x, 3}, {y, 2}, 2}), 2); break;
  case 1: t_types<planar_image<int>, planar_image_ref<int>, const_planar_image_ref<int>>(planar_image<int>({{x, 3}, {y, 2}, 2}), 2); break;
  case 2: t_types<chunky_image<int>, chunky_image_ref<int>, const_chunky_image_ref<int>>(chunky_image<int>({{x, 3}, {y, 2}, 2}), 2); break;
  case 3: t_types<chunky_image<int, 3>, chunky_image_ref<int, 3>, const_chunky_image_ref<int, 3>>(chunky_image<int, 3>({{x, 3}, {y, 2}, {}}), 3); break;
  case 4: {
    chunky_image<int, 3, 4> a({{x, 3}, {y, 2}, {}});
    CHECKM(a.x().stride() == 4 && a.c().stride() == 1, "padded chunky");
    t_types<chunky_image<int, 3, 4>, chunky_image_ref<int, 3, 4>, const_chunky_image_ref<int, 3, 4>>(std::move(a), 3);
    break;
  }
  }
}
