// BOUND: ranks 0-3; old and new extents 0..3 (rank 1), 0..2 (rank 2), 0..2 with one dimension fixed (rank 3); new min within 3 of the old (any overlap, including none), the old min symbolic in |m| <= 2^16; strides compact, padded, overlapping-free explicit, negative; static extents/mins/strides in the listed shapes; element values symbolic; default and 32-bit index type
// VSCONFIG: -
// VSCONFIG: int -DNDARRAY_INT_INDICES
// VSTHOROUGH: ndebug -DNDEBUG
#define ARR_VALUES
#include "arrmodel.h"
#include <array/image.h>
#include <array/matrix.h>

template <class A>
static void check(A& a, const typename A::shape_type& ns, bool same_means_nothing = true) {
  typedef Arr<A> AR;
  constexpr size_t R = A::rank();
  typename AR::M old = {}, nw = {};
  old.owns = old.known = a.base() != nullptr || R == 0;
  AR::shape_of(a, old);
  i64 v[R + 1];
  if (a.base())
    for (i64 e = 0; e < old.n(); e++) { nth(old, e, v); a[tup<R>(v)].v = old.val[e] = vs_sym("val", -1000, 1000); }
  else for (size_t k = 0; k < R; k++) old.r[k].ext = 0; // nothing to keep
  auto rs = ns;
  rs.resolve();
  rd(rs, nw.r);
  const El* b0 = a.base();
  bool same = a.shape() == rs;
  i64 al = vs_allocs(), lv = vs_live();
  a.reshape(ns);
  typename AR::M got = {};
  AR::shape_of(a, got);
  for (size_t k = 0; k < R; k++) CHECKM(got.r[k].min == nw.r[k].min && got.r[k].ext == nw.r[k].ext && got.r[k].str == nw.r[k].str, "the new shape");
  if (same && same_means_nothing) CHECKM(a.base() == b0 && vs_allocs() == al, "reshaping to the same shape does nothing");
  CHECKM(vs_live() - lv <= 1 && lv - vs_live() <= 1, "one allocation");
  for (i64 e = 0; e < nw.n(); e++) {
    nth(nw, e, v);
    i64 want = DEFV;
    if (inr(old.r, R, v)) {
      i64 m = 1, f = 0;
      for (size_t k = 0; k < R; k++) { f += vs_conc(v[k] - old.r[k].min) * m; m *= old.r[k].ext; }
      want = old.val[f];
    }
    CHECKM(a[tup<R>(v)].v == want, "element kept if in both shapes, default constructed otherwise");
  }
  vs_reach(same ? "same" : "reshaped");
}
// dim with chosen extent, stride kind
static i64 st(i64 inner, int kind) { return kind == 0 ? (i64)unresolved : kind == 1 ? inner : -inner; }
struct Dm { i64 min, ext; };
static Dm pickd(i64 elo, i64 ehi) { return Dm{vs_sym("min", -P2(16), P2(16)), vs_choose("ext", elo, ehi)}; }
static Dm moved(const Dm& o, i64 dlo, i64 dhi, i64 elo, i64 ehi) { return Dm{o.min + vs_choose("shift", dlo, dhi), vs_choose("new ext", elo, ehi)}; }

VS_HARNESS(P19_r0) { vs_opt("forkselect", 1); array<El, shape<>> a; check(a, shape<>()); }
VS_HARNESS(P19_g1) {
  vs_opt("forkselect", 1);
  Dm o = pickd(0, 3), n = moved(o, -4, 4, 0, 3);
  array_of_rank<El, 1> a(shape_of_rank<1>(dim<>(o.min, o.ext, st(2, vs_choose("str", 0, 2)))));
  check(a, shape_of_rank<1>(dim<>(n.min, n.ext, st(3, vs_choose("str", 0, 2)))));
}
VS_HARNESS(P19_d1) {
  vs_opt("forkselect", 1);
  Dm o = pickd(0, VS_T(4, 6)), n = moved(o, -VS_T(4, 7), VS_T(4, 7), 0, VS_T(4, 6));
  dense_array<El, 1> a(dense_shape<1>(dense_dim<>(o.min, o.ext)));
  check(a, dense_shape<1>(dense_dim<>(n.min, n.ext)));
}
VS_HARNESS(P19_fe) { // static extent, dynamic min
  vs_opt("forkselect", 1);
  typedef shape<dim<dynamic, 3, 1>> S;
  i64 m = vs_sym("min", -P2(16), P2(16));
  array<El, S> a(S(dim<dynamic, 3, 1>(m, 3)));
  check(a, S(dim<dynamic, 3, 1>(m + vs_choose("shift", -4, 4), 3)));
}
VS_HARNESS(P19_fm) { // static min
  vs_opt("forkselect", 1);
  typedef shape<dim<2, dynamic, 1>> S;
  array<El, S> a(S(dim<2, dynamic, 1>(2, vs_choose("ext", 0, 4))));
  check(a, S(dim<2, dynamic, 1>(2, vs_choose("new ext", 0, 4))));
}
VS_HARNESS(P19_fs) { // static min and extent, dynamic stride
  vs_opt("forkselect", 1);
  typedef shape<dim<1, 3>> S;
  array<El, S> a(S(dim<1, 3>(1, 3, st(2, vs_choose("str", 0, 2)))));
  check(a, S(dim<1, 3>(1, 3, st(3, vs_choose("str", 0, 2)))));
}
template <class S>
static S s2(const Dm& x, const Dm& y, int lay) {
  switch (lay) {
  case 0: return S(dim<>(x.min, x.ext), dim<>(y.min, y.ext));
  case 1: return S(dim<>(x.min, x.ext, 1), dim<>(y.min, y.ext, 4));
  default: return S(dim<>(x.min, x.ext, -3), dim<>(y.min, y.ext));
  }
}
VS_HARNESS(P19_g2) {
  vs_opt("forkselect", 1);
  Dm x = pickd(0, 2), y = pickd(0, 2), nx = moved(x, -2, 1, 0, 2), ny = moved(y, -1, 2, 0, 2);
  int l = vs_choose("layouts", 0, 2);
  array_of_rank<El, 2> a(s2<shape_of_rank<2>>(x, y, l));
  check(a, s2<shape_of_rank<2>>(nx, ny, VS_T((l * 2 + 1) % 3, (int)vs_choose("new layout", 0, 2))));
}
VS_HARNESS(P19_d2) {
  vs_opt("forkselect", 1);
  Dm x = pickd(0, 2), y = pickd(1, 2), nx = moved(x, -3, 3, 1, 3), ny = moved(y, -2, 2, 0, 2);
  dense_array<El, 2> a(dense_shape<2>(dense_dim<>(x.min, x.ext), dim<>(y.min, y.ext)));
  check(a, dense_shape<2>(dense_dim<>(nx.min, nx.ext), dim<>(ny.min, ny.ext)));
}
VS_HARNESS(P19_d2big) { // disjoint in both dimensions, large gaps
  vs_opt("forkselect", 1);
  Dm x = pickd(0, 2), y = pickd(0, 2);
  i64 gx = vs_sym("gap", 4, 1000), gy = vs_sym("gap", 4, 1000);
  dense_array<El, 2> a(dense_shape<2>(dense_dim<>(x.min, x.ext), dim<>(y.min, y.ext)));
  check(a, dense_shape<2>(dense_dim<>(vs_choose("sx", 0, 1) ? x.min + gx : x.min - gx, vs_choose("new ext", 0, 2)), dim<>(vs_choose("sy", 0, 1) ? y.min + gy : y.min - gy, vs_choose("new ext", 0, 2))));
}
VS_HARNESS(P19_mat) {
  vs_opt("forkselect", 1);
  typedef matrix_shape<dynamic, 2> S;
  matrix<El, dynamic, 2> a(S(vs_choose("rows", 0, 3), 2));
  check(a, S(vs_choose("new rows", 0, 3), 2));
}
VS_HARNESS(P19_chunky) {
  vs_opt("forkselect", 1);
  typedef chunky_image_shape<2> S;
  chunky_image<El, 2> a(S(vs_choose("w", 0, 2), vs_choose("h", 0, 2), 2));
  check(a, S(vs_choose("nw", 0, 2), vs_choose("nh", 0, 2), 2));
}
VS_HARNESS(P19_g3) {
  vs_opt("forkselect", 1);
  Dm x = pickd(1, 2), y = pickd(1, 2), z = pickd(0, 1), nx = moved(x, -1, 1, 1, 2), ny = moved(y, -1, 1, 1, 2), nz = moved(z, -1, 1, 1, VS_T(1, 2));
  array_of_rank<El, 3> a(shape_of_rank<3>(dim<>(x.min, x.ext), dim<>(y.min, y.ext), dim<>(z.min, z.ext)));
  check(a, shape_of_rank<3>(dim<>(nx.min, nx.ext), dim<>(ny.min, ny.ext, 1), dim<>(nz.min, nz.ext)));
}
// reshaping an empty, default constructed or moved-from array
VS_HARNESS(P19_from_empty) {
  vs_opt("forkselect", 1);
  array_of_rank<El, 2> a;
  int k = vs_choose("start", 0, 2);
  if (k == 1) { array_of_rank<El, 2> t({2, 2}, El(5)); a = std::move(t); array_of_rank<El, 2> u(std::move(a)); }
  if (k == 2) { array_of_rank<El, 2> t({3, 0}); a = std::move(t); }
  check(a, shape_of_rank<2>(dim<>(vs_sym("m", -100, 100), vs_choose("ext", 0, 2)), dim<>(vs_sym("m", -100, 100), vs_choose("ext", 0, 2))));
}
