// BOUND: plain elements (char, bool, int, float, double, 3- and 16-byte structs) in real memory: ranks 1-3, 5, concrete extents up to 130 (thorough 520), dense, transposed, padded, reversed, strided layouts; fill with arbitrary values, generated values arbitrary; the whole buffer, padding included, is compared bit for bit
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;

template <class T, class S>
void t() {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  i64 e[R + 1] = {}, m[R + 1] = {};
  choose_exts<R>(e);
  statics<S>(nullptr, e);
  int l = choose_layout<S>("layout", false);
  for (size_t k = 0; k < R; k++) m[k] = vs_sym("min", -P2(16), P2(16));
  statics<S>(m, nullptr);
  Lay<R> s = layout<R>(l, e);
  ASSUME(fits<S>(s.str));
  T* p = any_buffer<T>(s.n, "v");
  T* x = buffer<T>(s.n);
  for (i64 i = 0; i < s.n; i++) x[i] = p[i];
  T* g = any_buffer<T>(s.n, "g");
  array_ref<T, S> r(p + s.lo, mkx<S>(m, e, s.str));
  i64 how = vs_choose("how", 0, 3);
  if (how == 0) {
    T v = any_<T>::get("value");
    fill(r, v);
    each_pos<R>(e, [&](const i64* q) { x[s.lo + dot<R>(q, s.str)] = v; });
  } else if (how == 1) { // the order is that of for_each_value
    i64 n = 0, k = 0;
    r.for_each_value([&](T& t) { x[&t - p] = g[k++]; });
    generate(r, [&n, g]() -> T { return g[n++]; });
    CHECKM(n == k, "one call per element");
  } else {
    auto f = [&](const index_of_rank<R>& i) -> T {
      auto a = arr(i);
      i64 o = s.lo;
      for (size_t k = 0; k < R; k++) o += (a[k] - m[k]) * s.str[k];
      return g[o];
    };
    if (how == 2) transform_index(r, f);
    else transform_indices(r, [&](auto... i) -> T { return f(index_of_rank<R>(i...)); });
    each_pos<R>(e, [&](const i64* q) { i64 o = s.lo + dot<R>(q, s.str); x[o] = g[o]; });
  }
  for (i64 i = 0; i < s.n; i++) CHECKM(bits(p[i], x[i]), "every element is assigned its value; nothing else changes");
  if (s.n > 8) vs_reach("filled");
  std::free(p); std::free(x); std::free(g);
}
VS_HARNESS(P13_pl_c1) { t<char, shape_of_rank<1>>(); }
VS_HARNESS(P13_pl_i1) { t<int, dense_shape<1>>(); }
VS_HARNESS(P13_pl_d2) { t<double, shape_of_rank<2>>(); }
VS_HARNESS(P13_pl_i2) { t<int, dense_shape<2>>(); }
VS_HARNESS(P13_pl_s2t) { t<short, shape<dim<>, dense_dim<>>>(); }
VS_HARNESS(P13_pl_t3) { t<P3, shape_of_rank<3>>(); }
VS_HARNESS(P13_pl_p2) { t<P16, dense_shape<2>>(); }
VS_HARNESS(P13_pl_f5) { t<float, shape_of_rank<5>>(); }

// special values keep their bits: a zero of either sign, a NaN, small and all-ones integers
template <class T>
void t_special(const T* vals, int nv) {
  vs_opt("forkselect", 1);
  i64 m[2] = {vs_sym("min", -P2(16), P2(16)), 0}, e[2] = {vs_choose("e", 1, 5), vs_choose("e1", 1, 3)}, pad = vs_choose("pad", 0, 1), s[2] = {1, e[0] + pad};
  T buf[32], v = vals[vs_choose("v", 0, nv - 1)];
  std::memset((void*)buf, 0x5a, sizeof buf);
  array_ref<T, dense_shape<2>> r(buf + 1, mkx<dense_shape<2>>(m, e, s));
  fill(r, v);
  T before;
  std::memset((void*)&before, 0x5a, sizeof before);
  for (i64 i = -1; i < 30; i++) {
    i64 x = i >= 0 ? i % s[1] : -1, y = i >= 0 ? i / s[1] : -1;
    bool in = i >= 0 && x < e[0] && y < e[1];
    CHECKM(bits(buf[i + 1], in ? v : before), "fill keeps the value's bits");
  }
  array<T, dense_shape<2>> a(mkx<dense_shape<2>>(m, e, s), v);
  for (i64 y = 0; y < e[1]; y++) for (i64 x = 0; x < e[0]; x++) CHECKM(bits(a.base()[x + y * s[1]], v), "constructed from the value");
  fill(a, vals[0]);
  for (i64 y = 0; y < e[1]; y++) for (i64 x = 0; x < e[0]; x++) CHECKM(bits(a.base()[x + y * s[1]], vals[0]), "fill");
  vs_reach("special");
}
VS_HARNESS(P13_pl_spf) { const float v[5] = {0.0f, -0.0f, 1.0f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN()}; t_special(v, 5); }
VS_HARNESS(P13_pl_spd) { const double v[5] = {-0.0, 0.0, 1.0, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; t_special(v, 5); }
VS_HARNESS(P13_pl_spi) { const int v[6] = {0, -1, 1, 256, INT32_MIN, 0x01010101}; t_special(v, 6); }
VS_HARNESS(P13_pl_sps) { const short v[5] = {0, -1, 1, 256, 0x0101}; t_special(v, 5); }
VS_HARNESS(P13_pl_ch) { t<int, chunky_image_shape<>>(); }
VS_HARNESS(P13_pl_ch3) { t<char, chunky_image_shape<3>>(); }
VS_HARNESS(P13_pl_ch34) { t<P3, chunky_image_shape<3, 4>>(); }
VS_HARNESS(P13_pl_planar) { t<short, planar_image_shape>(); }
