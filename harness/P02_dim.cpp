// BOUND: dims: |min| <= 2^40, extents 0..2^20, |stride| <= 2^32, all symbolic; ranks 0-3 and 5 for whole-shape membership
// VSCONFIG: -
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
static const i64 M = WIDE.m, EX = WIDE.ehi, ST = WIDE.shi;

template <class A, class B>
void t_dims() {
  RD ra, rb;
  A a = mkdim<A>(ra, WIDE);
  B b = mkdim<B>(rb, WIDE);
  CHECKM(a.min() == ra.min && a.extent() == ra.ext && a.size() == ra.ext && a.stride() == ra.str && a.max() == ra.max(), "accessors");
  bool eq = ra.min == rb.min && ra.ext == rb.ext && ra.str == rb.str;
  CHECKM((a == b) == eq && (b == a) == eq, "dim ==");
  CHECKM((a != b) == !eq && (b != a) == !eq, "dim !=");
  i64 p = vs_sym("at", -2 * M, 2 * M);
  CHECKM(a.is_in_range((index_t)p) == ra.has(p), "is_in_range(index)");
  CHECKM((i64)a.flat_offset((index_t)p) == ra.off(p), "flat_offset");
  if (rb.ext > 0) {
    bool want = ra.min <= rb.min && rb.min + rb.ext <= ra.min + ra.ext;
    CHECKM(a.is_in_range(b) == want, "is_in_range(dim)");
    CHECKM(a.is_in_range(interval<B::Min, B::Extent>((index_t)rb.min, (index_t)rb.ext)) == want, "is_in_range(interval)");
  }
  if (ra.ext > 0) {
    index_t c = clamp((index_t)p, a);
    CHECKM(ra.has(c) && (!ra.has(p) || c == p) && (p >= ra.min || c == ra.min) && (p <= ra.max() || c == ra.max()), "clamp to a dim");
  }
  A c = a;
  CHECKM(c == a && c.stride() == ra.str, "copy");
  dim<> g = a;
  CHECKM(g.min() == ra.min && g.extent() == ra.ext && g.stride() == ra.str, "conversion to a dynamic dim keeps everything");
  dim<> h;
  h = a;
  CHECKM(h == a, "assignment to a dynamic dim keeps everything");
  dim<> gi(interval<>((index_t)ra.min, (index_t)ra.ext), (index_t)ra.str);
  CHECKM(gi == a, "dim from interval and stride");
  vs_reach("dims");
}
VS_HARNESS(P02_dim_dd) { t_dims<dim<>, dim<>>(); }
VS_HARNESS(P02_dim_dense) { t_dims<dense_dim<>, dim<>>(); }
VS_HARNESS(P02_dim_bcast) { t_dims<broadcast_dim<>, strided_dim<3>>(); }
VS_HARNESS(P02_dim_fixed) { t_dims<fixed_dim<5>, fixed_dim<5, -2>>(); }
VS_HARNESS(P02_dim_static) { t_dims<dim<1, 4, 6>, dim<1, dynamic, 6>>(); }
VS_HARNESS(P02_dim_min) { t_dims<dim<-4>, dim<dynamic, 3>>(); }

VS_HARNESS(P02_dim_mutate) {
  RD r;
  dim<> a = mkdim<dim<>>(r, WIDE);
  i64 x = vs_sym("x", -M, M);
  dim<> b = a;
  b.set_min((index_t)x);
  CHECKM(b.min() == x && b.extent() == r.ext && b.stride() == r.str, "set_min changes only min");
  i64 e = vs_sym("e", 0, EX);
  b = a;
  b.set_extent((index_t)e);
  CHECKM(b.min() == r.min && b.extent() == e && b.stride() == r.str, "set_extent changes only extent");
  b = a;
  b.set_max((index_t)x);
  CHECKM(b.min() == r.min && b.max() == x && b.stride() == r.str, "set_max changes only extent");
  b = a;
  i64 s = vs_sym("s", -ST, ST);
  b.set_stride((index_t)s);
  CHECKM(b.min() == r.min && b.extent() == r.ext && b.stride() == s, "set_stride changes only stride");
  // static parameters stay
  dim<2, dynamic, 5> c(2, (index_t)r.ext);
  CHECKM(c.stride() == 5 && c.min() == 2 && c.extent() == r.ext, "static min and stride");
  c.set_extent((index_t)e);
  CHECKM(c.stride() == 5 && c.min() == 2 && c.extent() == e, "static min and stride after set_extent");
  c.set_stride(unresolved);
  CHECKM(c.stride() == 5, "an unresolved stride leaves a static stride");
  dim<> d((index_t)r.min, (index_t)r.ext);
  CHECKM(d.min() == r.min && d.extent() == r.ext && d.stride() == unresolved, "stride defaults to unresolved");
  CHECKM((dense_dim<>((index_t)r.min, (index_t)r.ext).stride() == 1 && broadcast_dim<>((index_t)r.ext).stride() == 0), "static stride defaults");
  CHECKM(dim<>((index_t)e).min() == 0 && dim<>((index_t)e).extent() == e, "dim(extent)");
  CHECKM((dim<7>((index_t)e).min() == 7), "dim(extent) with a static min");
  CHECKM(dim<>().extent() == 0 && dim<>().min() == 0 && (dim<3, 4>().extent() == 4 && dim<3, 4>().min() == 3), "dim()");
  vs_reach("mutate");
}

template <class S, class T>
void t_shape_in() {
  constexpr size_t R = S::rank();
  RD a[R + 1], b[R + 1];
  S s = mk<S>(a, WIDE);
  T t = mk<T>(b, WIDE);
  i64 v[R + 1];
  for (size_t i = 0; i < R; i++) v[i] = vs_sym("idx", -2 * M, 2 * M);
  CHECKM(s.is_in_range(tup<R>(v)) == inr(a, R, v), "shape.is_in_range(tuple)");
  CHECKM(calln<R>([&](auto... x) { return s.is_in_range(x...); }, v) == inr(a, R, v), "shape.is_in_range(list)");
  bool ne = true, sub = true;
  for (size_t i = 0; i < R; i++) {
    ne = ne & (b[i].ext > 0);
    sub = sub & (a[i].min <= b[i].min) & (b[i].min + b[i].ext <= a[i].min + a[i].ext);
  }
  if (ne) CHECKM(s.is_in_range(t.dims()) == sub, "shape.is_in_range(dims)");
  RD q[R + 1];
  rd(s, q);
  bool ok = true;
  for (size_t i = 0; i < R; i++) ok = ok & (q[i].min == a[i].min) & (q[i].ext == a[i].ext) & (q[i].str == a[i].str);
  CHECKM(ok, "dim accessors");
  CHECKM(s.min() == tup<R>(([&] { for (size_t i = 0; i < R; i++) v[i] = a[i].min; return v; })()), "shape.min()");
  CHECKM(s.max() == tup<R>(([&] { for (size_t i = 0; i < R; i++) v[i] = a[i].max(); return v; })()), "shape.max()");
  CHECKM(s.extent() == tup<R>(([&] { for (size_t i = 0; i < R; i++) v[i] = a[i].ext; return v; })()), "shape.extent()");
  CHECKM(s.stride() == tup<R>(([&] { for (size_t i = 0; i < R; i++) v[i] = a[i].str; return v; })()), "shape.stride()");
  for (size_t i = 0; i < R; i++) {
    dim<> d = s.dim(i);
    CHECKM(d.min() == a[i].min && d.extent() == a[i].ext && d.stride() == a[i].str, "dim(i)");
  }
  bool eq = true;
  for (size_t i = 0; i < R; i++) eq = eq & (a[i].min == b[i].min) & (a[i].ext == b[i].ext) & (a[i].str == b[i].str);
  CHECKM((s == t) == eq && (s != t) == !eq, "shape == and !=");
  vs_reach("shape_in");
}
VS_HARNESS(P02_shape1) { t_shape_in<shape_of_rank<1>, shape<dense_dim<>>>(); }
VS_HARNESS(P02_shape2) { t_shape_in<shape_of_rank<2>, shape<dim<2>, dim<dynamic, 4>>>(); }
VS_HARNESS(P02_shape2s) { t_shape_in<shape<dim<0, 4, 1>, dim<0, 5, 4>>, shape<dense_dim<>, dim<>>>(); }
VS_HARNESS(P02_shape3) { t_shape_in<shape_of_rank<3>, shape_of_rank<3>>(); }
VS_HARNESS(P02_shape5) { t_shape_in<shape_of_rank<5>, shape_of_rank<5>>(); }
VS_HARNESS(P02_alias) {
  RD r[4];
  shape_of_rank<4> s = mk<shape_of_rank<4>>(r, WIDE);
  auto same = [&](const dim<>& d, int i) { return d.min() == r[i].min && d.extent() == r[i].ext && d.stride() == r[i].str; };
  CHECKM(same(s.i(), 0) && same(s.j(), 1) && same(s.k(), 2), "i j k");
  CHECKM(same(s.x(), 0) && same(s.y(), 1) && same(s.z(), 2) && same(s.c(), 2) && same(s.w(), 3), "x y z c w");
  CHECKM(s.width() == r[0].ext && s.height() == r[1].ext && s.channels() == r[2].ext && s.rows() == r[0].ext && s.columns() == r[1].ext, "width height channels rows columns");
  const shape_of_rank<4> c = s;
  CHECKM(same(c.i(), 0) && same(c.j(), 1) && same(c.k(), 2) && same(c.x(), 0) && same(c.y(), 1) && same(c.z(), 2) && same(c.c(), 2) && same(c.w(), 3), "const aliases");
  int* base = (int*)vs_abstract(1);
  array_ref<int, shape_of_rank<4>> a(base, s);
  CHECKM(same(a.i(), 0) && same(a.j(), 1) && same(a.k(), 2) && same(a.x(), 0) && same(a.y(), 1) && same(a.z(), 2) && same(a.c(), 2) && same(a.w(), 3), "ref aliases");
  CHECKM(a.width() == r[0].ext && a.height() == r[1].ext && a.channels() == r[2].ext && a.rows() == r[0].ext && a.columns() == r[1].ext, "ref extents");
  CHECKM(same(a.dim<0>(), 0) && same(a.dim<3>(), 3) && same(a.dim(2), 2), "ref dim");
  const auto b = a;
  CHECKM(same(b.i(), 0) && same(b.j(), 1) && same(b.k(), 2) && same(b.x(), 0) && same(b.y(), 1) && same(b.z(), 2) && same(b.c(), 2) && same(b.w(), 3) && same(b.dim<1>(), 1) && same(b.dim(1), 1), "const ref aliases");
  i64 nm = vs_sym("nm", -M, M);
  s.y().set_min((index_t)nm);
  CHECKM(s.dim<1>().min() == nm && s.dim<0>().min() == r[0].min && s.dim<2>().min() == r[2].min, "alias writes reach the named dim");
  vs_reach("alias");
}
VS_HARNESS(P02_alias_arr) {
  RD r[4];
  shape_of_rank<4> s = mkc<shape_of_rank<4>>(r, Rng{P2(20), 2, 2, 0, 0});
  s.dim<0>().set_stride(1); s.dim<1>().set_stride(2); s.dim<2>().set_stride(8); s.dim<3>().set_stride(16);
  s.dim<1>().set_extent(3); s.dim<3>().set_extent(1);
  array<char, shape_of_rank<4>> a(s, 0);
  auto same = [&](const dim<>& d, int i) { return d.min() == r[i].min && d == s.dim(i); };
  CHECKM(same(a.i(), 0) && same(a.j(), 1) && same(a.k(), 2) && same(a.x(), 0) && same(a.y(), 1) && same(a.z(), 2) && same(a.c(), 2) && same(a.w(), 3), "array aliases");
  CHECKM(a.width() == 2 && a.height() == 3 && a.channels() == 2 && a.rows() == 2 && a.columns() == 3 && a.size() == 12 && !a.empty(), "array extents");
  CHECKM(same(a.dim<0>(), 0) && same(a.dim<3>(), 3) && same(a.dim(2), 2), "array dim");
  vs_reach("alias_arr");
}
