// BOUND: plain elements (char, int, double, 3- and 16-byte structs) in real memory with arbitrary contents: ranks 1-3, 5, 6, concrete extents up to 130 (thorough 520) in one dimension, dense, transposed, padded, reversed, strided and broadcast layouts on both sides; the whole destination buffer, padding included, is compared
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;

template <class T, class S, class D>
void t(bool few = false) {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  i64 e[R + 1] = {}, se[R + 1] = {}, m[R + 1] = {}, sm[R + 1] = {}, b[R + 1] = {};
  choose_exts<R>(e);
  statics<S>(nullptr, e);
  statics<D>(nullptr, e);
  int ls = choose_layout<S>("src layout", true), ld = choose_layout<D>("dst layout", false);
  if (few) ASSUME(ls == ld || ls == DENSE || ld == DENSE);
  i64 crop = vs_choose("crop", 0, 1);
  i64 fixed[R + 1] = {}, fe[R + 1] = {};
  for (size_t k = 0; k < R; k++) m[k] = vs_sym("min", -P2(16), P2(16));
  statics<S>(m, nullptr);
  statics<D>(m, nullptr);
  for (size_t k = 0; k < R; k++) fixed[k] = fe[k] = -1;
  statics<S>(fixed, fe);
  for (size_t k = 0; k < R; k++) {
    b[k] = crop && fixed[k] == -1 && fe[k] == -1 ? (k % 2 ? 0 : 1) : 0;
    sm[k] = m[k] - b[k];
    se[k] = e[k] + b[k] + (crop && k == 0 && fe[k] == -1 ? 1 : 0);
  }
  Lay<R> s = layout<R>(ls, se), d = layout<R>(ld, e);
  ASSUME(fits<S>(s.str) && fits<D>(d.str));
  T* sp = any_buffer<T>(s.n, "s");
  T* dp = any_buffer<T>(d.n, "d");
  T* x = buffer<T>(d.n);
  for (i64 i = 0; i < d.n; i++) x[i] = dp[i];
  i64 so = s.lo;
  for (size_t k = 0; k < R; k++) so += b[k] * s.str[k];
  each_pos<R>(e, [&](const i64* p) { x[d.lo + dot<R>(p, d.str)] = sp[so + dot<R>(p, s.str)]; });
  array_ref<T, S> sr(sp + s.lo, mkx<S>(sm, se, s.str));
  array_ref<T, D> dr(dp + d.lo, mkx<D>(m, e, d.str));
  i64 how = vs_choose("how", 0, 1);
  if (how == 0) nda::copy(sr.cref(), dr);
  else nda::move(sr, dr);
  for (i64 i = 0; i < d.n; i++) CHECKM(bits(dp[i], x[i]), "every destination element holds the source element at its index; nothing else changes");
  if (d.n > 8) vs_reach("copied");
  std::free(sp); std::free(dp); std::free(x);
}
VS_HARNESS(P11_pl_c1) { t<char, shape_of_rank<1>, shape_of_rank<1>>(); }
VS_HARNESS(P11_pl_i1) { t<int, dense_shape<1>, dense_shape<1>>(); }
VS_HARNESS(P11_pl_b2) { t<double, shape_of_rank<2>, shape_of_rank<2>>(true); }
VS_HARNESS(P11_pl_i2) { t<int, dense_shape<2>, dense_shape<2>>(); }
VS_HARNESS(P11_pl_i2t) { t<int, dense_shape<2>, shape<dim<>, dense_dim<>>>(); }
VS_HARNESS(P11_pl_t3) { t<P3, shape_of_rank<3>, shape_of_rank<3>>(true); }
VS_HARNESS(P11_pl_p2) { t<P16, shape_of_rank<2>, dense_shape<2>>(); }
VS_HARNESS(P11_pl_i5) { t<int, shape_of_rank<5>, shape_of_rank<5>>(true); }
VS_HARNESS(P11_pl_c6) { t<unsigned char, dense_shape<6>, shape_of_rank<6>>(true); }
VS_HARNESS(P11_pl_ch) { t<int, chunky_image_shape<>, chunky_image_shape<>>(); }
VS_HARNESS(P11_pl_ch3) { t<char, chunky_image_shape<3>, chunky_image_shape<3>>(); }
VS_HARNESS(P11_pl_ch34) { t<char, chunky_image_shape<3, 4>, chunky_image_shape<3>>(); }
VS_HARNESS(P11_pl_chpl) { t<int, chunky_image_shape<3>, planar_image_shape>(); }
VS_HARNESS(P11_pl_plch) { t<int, planar_image_shape, chunky_image_shape<3>>(); }
VS_HARNESS(P11_pl_mm) { t<int, matrix_shape<>, matrix_shape<>>(); }
VS_HARNESS(P11_pl_mg) { t<int, matrix_shape<>, dense_shape<2>>(); }

// whole arrays: make_copy and friends
template <class T, class S>
void t_make() {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  i64 e[R + 1] = {}, m[R + 1] = {};
  choose_exts<R>(e);
  int l = choose_layout<S>("layout", false);
  for (size_t k = 0; k < R; k++) m[k] = vs_sym("min", -P2(16), P2(16));
  Lay<R> s = layout<R>(l, e);
  ASSUME(fits<S>(s.str));
  array<T, S> a(mkx<S>(m, e, s.str));
  T* v = any_buffer<T>(s.n, "v");
  each_pos<R>(e, [&](const i64* p) { a.base()[dot<R>(p, s.str)] = v[s.lo + dot<R>(p, s.str)]; });
  auto chk = [&](const auto& c) {
    i64 q[R + 1] = {};
    auto st = arr(c.shape().stride());
    for (size_t k = 0; k < R; k++) q[k] = st[k];
    CHECKM(c.base() != a.base(), "a copy has its own memory");
    each_pos<R>(e, [&](const i64* p) { CHECKM(bits(c.base()[dot<R>(p, q)], v[s.lo + dot<R>(p, s.str)]), "value at each index"); });
  };
  switch (vs_choose("how", 0, 4)) {
  case 0: chk(make_copy(a)); break;
  case 1: chk(make_compact_copy(a)); break;
  case 2: chk(make_copy(a.cref(), shape_of_rank<R>(a.shape().bounds()), std::allocator<T>())); break;
  case 3: chk(make_move(a, shape_of_rank<R>(a.shape().bounds()))); break;
  case 4: chk(make_compact_move(a)); break;
  }
  vs_reach("made");
  std::free(v);
}
VS_HARNESS(P11_pl_mkc1) { t_make<char, shape_of_rank<1>>(); }
VS_HARNESS(P11_pl_mki2) { t_make<int, shape_of_rank<2>>(); }
VS_HARNESS(P11_pl_mkd3) { t_make<double, shape_of_rank<3>>(); }
VS_HARNESS(P11_pl_mkt2) { t_make<P3, dense_shape<2>>(); }
