// BOUND: mins, extents and strides in [-2^40, 2^40] (with the int index type [-2^12, 2^12]), resolved or not, static and dynamic; intervals, dims, and shapes of rank 0..3; Abseil replaced by a stand-in that records characters and integer values
// VSCONFIG: - -I@V/harness/stub
// VSCONFIG: int -I@V/harness/stub -DNDARRAY_INT_INDICES
#include "common.h"
#include <absl/absl.h>
using namespace nda;

#ifdef NDARRAY_INT_INDICES
static const i64 B = P2(12);
#else
static const i64 B = P2(40);
#endif

// What is expected: literal characters and values.
struct Want {
  absl::Text t;
  Want& s(const char* c) { t.Append(c); return *this; }
  Want& n(i64 v) { t.num(v); return *this; }
};
static void same(const absl::Text& got, const Want& w) {
  CHECKM(!got.bad, "format and arguments agree");
  CHECKM(got.n == w.t.n, "text");
  bool ok = true;
  for (size_t i = 0; i < w.t.n; i++) ok = ok & (got.t[i].ch == w.t.t[i].ch) & (got.t[i].v == w.t.t[i].v);
  CHECKM(ok, "text");
  vs_reach("text");
}
template <class T>
static absl::Text text(const T& x) { absl::Text s; AbslStringify(s, x); return s; }

template <class I>
static void t_interval() {
  i64 m = I::Min != dynamic ? (i64)I::Min : vs_sym("min", -B, B), e = I::Extent != dynamic ? (i64)I::Extent : vs_sym("ext", 0, B);
  same(text(I((index_t)m, (index_t)e)), Want().s("[").n(m).s(", ").n(m + e).s(")"));
}
VS_HARNESS(P31_interval) { t_interval<interval<>>(); }
VS_HARNESS(P31_interval_static) {
  switch (vs_choose("type", 0, 3)) {
  case 0: t_interval<interval<0>>(); break;
  case 1: t_interval<interval<-3>>(); break;
  case 2: t_interval<interval<dynamic, 7>>(); break;
  default: t_interval<interval<2, 5>>(); break;
  }
}
static void want_dim(Want& w, const RD& r, bool str) {
  w.s("dim(").n(r.min).s(", ").n(r.ext);
  if (str) w.s(", ").n(r.str);
  w.s(")");
}
static const Rng G = {B, 0, B, -B, B};
template <class D>
static void t_dim() {
  RD r;
  D d = mkdim<D>(r, G);
  Want w;
  want_dim(w, r, true);
  same(text(d), w);
  if (D::Stride == dynamic) { // the stride is not known yet
    D u((index_t)r.min, (index_t)r.ext);
    Want v;
    want_dim(v, r, false);
    same(text(u), v);
  }
}
VS_HARNESS(P31_dim) { t_dim<dim<>>(); }
VS_HARNESS(P31_dim_static) {
  switch (vs_choose("type", 0, 7)) {
  case 0: t_dim<dim<0>>(); break;
  case 1: t_dim<dim<-2, 4>>(); break;
  case 2: t_dim<dim<0, 4, 9>>(); break;
  case 3: t_dim<dense_dim<>>(); break;
  case 4: t_dim<broadcast_dim<>>(); break;
  case 5: t_dim<dim<dynamic, 6>>(); break;
  case 6: t_dim<dim<dynamic, dynamic, -5>>(); break;
  default: t_dim<dim<7, dynamic, 2>>(); break;
  }
}
// ranks and order; which of the strides are known
template <class S>
static void t_shape() {
  RD r[4];
  S s = mk<S>(r, G);
  Want w;
  w.s("shape<").n((i64)S::rank()).s(">(");
  for (size_t i = 0; i < S::rank(); i++) { if (i) w.s(", "); want_dim(w, r[i], true); }
  w.s(")");
  same(text(s), w);
}
VS_HARNESS(P31_shape) {
  switch (vs_choose("type", 0, 6)) {
  case 0: t_shape<shape<>>(); break;
  case 1: t_shape<shape<dim<>>>(); break;
  case 2: t_shape<shape<dim<>, dim<>>>(); break;
  case 3: t_shape<shape<dim<>, dim<>, dim<>>>(); break;
  case 4: t_shape<shape<dense_dim<>, dim<0, 3>, dim<2, dynamic, 8>>>(); break;
  case 5: t_shape<shape<dim<1, 2, 3>, dim<-4, 5, 6>>>(); break;
  default: t_shape<dense_shape<2>>(); break;
  }
}
VS_HARNESS(P31_shape_unresolved) {
  i64 m = vs_sym("min", -B, B), e = vs_sym("ext", 0, B), f = vs_sym("ext", 0, B), t = vs_sym("str", -B, B);
  shape<dim<>, dim<>, dense_dim<>> s(dim<>((index_t)m, (index_t)e), dim<>(0, (index_t)f, (index_t)t), dense_dim<>(0, 4));
  same(text(s), Want().s("shape<").n(3).s(">(dim(").n(m).s(", ").n(e).s("), dim(").n(0).s(", ").n(f).s(", ").n(t).s("), dim(").n(0).s(", ").n(4).s(", ").n(1).s("))"));
}
// a shape as arrays hold it
VS_HARNESS(P31_array_shape) {
  i64 x = vs_choose("x", 1, 3), y = vs_choose("y", 1, 3), m = vs_sym("m", -B, B);
  array_of_rank<int, 2> a(shape_of_rank<2>(dim<>((index_t)m, (index_t)x), dim<>(0, (index_t)y)));
  same(text(a.shape()), Want().s("shape<").n(2).s(">(dim(").n(m).s(", ").n(x).s(", ").n(1).s("), dim(").n(0).s(", ").n(y).s(", ").n(x).s("))"));
}
