// BOUND: plain elements (char, int, double, 3-byte structs) with arbitrary contents: ranks 1-3, old extents up to 130 (thorough 520) in one dimension, new extents = old + {-2..3}, new mins = old + {-1, 0, 2}, dense, transposed, padded, reversed, strided old and new layouts
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
using namespace nda;

template <class T, class S>
void t(bool few = true) {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  i64 e[R + 1] = {}, m[R + 1] = {}, ne[R + 1] = {}, nm[R + 1] = {}, sh[R + 1] = {};
  choose_exts<R>(e);
  int la = choose_layout<S>("old layout", false), lb = choose_layout<S>("new layout", false);
  if (few) ASSUME(la == lb || la == DENSE || lb == DENSE);
  i64 grow = vs_choose("grow", -2, 3), shift = vs_choose("shift", -1, 2);
  ASSUME(shift != 1);
  for (size_t k = 0; k < R; k++) {
    m[k] = vs_sym("min", -P2(16), P2(16));
    sh[k] = k == 0 ? shift : k == 1 && grow > 1 ? -1 : 0;
    ne[k] = k == 0 || grow == 2 ? e[k] + grow : e[k];
    if (ne[k] < 0) ne[k] = 0;
    nm[k] = m[k] + sh[k];
  }
  Lay<R> a = layout<R>(la, e), b = layout<R>(lb, ne);
  ASSUME(fits<S>(a.str) && fits<S>(b.str));
  array<T, S> x(mkx<S>(m, e, a.str));
  T* v = any_buffer<T>(a.n, "v");
  each_pos<R>(e, [&](const i64* p) { x.base()[dot<R>(p, a.str)] = v[a.lo + dot<R>(p, a.str)]; });
  S ns = mkx<S>(nm, ne, b.str);
  x.reshape(ns);
  CHECKM(x.shape() == ns, "the array has the new shape");
  each_pos<R>(ne, [&](const i64* p) {
    bool in = true;
    i64 q[R + 1] = {};
    for (size_t k = 0; k < R; k++) { q[k] = p[k] + sh[k]; in = in && q[k] >= 0 && q[k] < e[k]; }
    T got = x.base()[dot<R>(p, b.str)];
    CHECKM(bits(got, in ? v[a.lo + dot<R>(q, a.str)] : T()), "values of the intersection are kept, the others are default");
  });
  if (a.n > 8) vs_reach("reshaped");
  std::free(v);
}
VS_HARNESS(P19_pl_c1) { t<char, shape_of_rank<1>>(); }
VS_HARNESS(P19_pl_i2) { t<int, dense_shape<2>>(); }
VS_HARNESS(P19_pl_d2) { t<double, shape_of_rank<2>>(); }
VS_HARNESS(P19_pl_t3) { t<P3, shape_of_rank<3>>(); }
VS_HARNESS(P19_pl_m1) { t<Dm, shape_of_rank<1>>(); }
VS_HARNESS(P19_pl_m2) { t<Dm, dense_shape<2>>(); }
