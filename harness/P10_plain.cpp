// BOUND: plain elements in real memory: ranks 1-3, 5, 6, concrete extents up to 130 (thorough 520), dense, transposed, padded, reversed, strided and broadcast layouts; matrix, chunky and planar image shapes, padded and reversed; references and owning arrays
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;

template <class T, class S>
void t() {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  i64 e[R + 1] = {}, m[R + 1] = {};
  choose_exts<R>(e);
  statics<S>(nullptr, e);
  int l = choose_layout<S>("layout", true);
  for (size_t k = 0; k < R; k++) m[k] = vs_sym("min", -P2(16), P2(16));
  statics<S>(m, nullptr);
  Lay<R> s = layout<R>(l, e);
  ASSUME(fits<S>(s.str));
  T* p = any_buffer<T>(s.n, "v");
  int* seen = buffer<int>(s.n);
  for (i64 i = 0; i < s.n; i++) seen[i] = 0;
  array_ref<T, S> r(p + s.lo, mkx<S>(m, e, s.str));
  const_array_ref<T, S> c = r.cref();
  bool inside = true;
  auto note = [&](const T& x) {
    i64 o = &x - p;
    if (o >= 0 && o < s.n) seen[o]++;
    else inside = false;
  };
  if (vs_choose("const", 0, 1)) c.for_each_value([&](const T& x) { note(x); });
  else r.for_each_value([&](T& x) { note(x); });
  each_pos<R>(e, [&](const i64* q) { seen[s.lo + dot<R>(q, s.str)]--; });
  CHECKM(inside, "only elements of the array");
  for (i64 i = 0; i < s.n; i++) CHECKM(seen[i] == 0, "each element once per index");
  if (s.n > 8) vs_reach("values");
  std::free(p); std::free(seen);
}
VS_HARNESS(P10_pl_c1) { t<char, shape_of_rank<1>>(); }
VS_HARNESS(P10_pl_i1) { t<int, dense_shape<1>>(); }
VS_HARNESS(P10_pl_d2) { t<double, shape_of_rank<2>>(); }
VS_HARNESS(P10_pl_i2) { t<int, dense_shape<2>>(); }
VS_HARNESS(P10_pl_i2t) { t<int, shape<dim<>, dense_dim<>>>(); }
VS_HARNESS(P10_pl_t3) { t<P3, shape_of_rank<3>>(); }
VS_HARNESS(P10_pl_i5) { t<int, shape_of_rank<5>>(); }
VS_HARNESS(P10_pl_c6) { t<unsigned char, dense_shape<6>>(); }
VS_HARNESS(P10_pl_p6) { t<P16, shape_of_rank<6>>(); }
VS_HARNESS(P10_pl_m34) { t<int, matrix_shape<dynamic, 12>>(); }
VS_HARNESS(P10_pl_ch) { t<int, chunky_image_shape<>>(); }
VS_HARNESS(P10_pl_ch3) { t<char, chunky_image_shape<3>>(); }
VS_HARNESS(P10_pl_ch34) { t<char, chunky_image_shape<3, 4>>(); }
VS_HARNESS(P10_pl_ch8) { t<char, chunky_image_shape<8>>(); }
VS_HARNESS(P10_pl_planar) { t<int, planar_image_shape>(); }
