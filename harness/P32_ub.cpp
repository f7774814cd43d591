// BOUND: default index type: |min| <= 2^62, extents <= 2^20 (case split where loops run), |stride| <= 2^38 with all flat offsets < 2^60; 32-bit index type: |min| <= 2^30, extents <= 2^10, |stride| <= 2^18 with all flat offsets and sizes < 2^30; indices asked about that need not be in range: any value up to 2^62 (2^30)
// BOUND: signed overflow, shifts, divisions, pointer arithmetic, unreachable code and array bounds are checked by instrumentation the compiler puts into the code under test, every memory access by the executor's memory model
// VSCONFIG: - trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSCONFIG: nd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSCONFIG: int -DNDARRAY_INT_INDICES trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSTHOROUGH: intnd -DNDARRAY_INT_INDICES -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P03_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P04_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P05_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P06_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P08_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P09_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P10_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P11_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P12_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P13_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P14_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P15_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P16_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P17_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P18_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P19_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P20_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P21_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P22_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P23_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P25_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P26_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P31_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: quick P33_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// BOUND: the harnesses named by VSREUSE (the other properties' operations and histories, with their bounds) run once more with this instrumentation and without their own assertions
// VSREUSE: thorough P03_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P03_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P04_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P04_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P05_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P05_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P06_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P06_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P08_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P08_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P09_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P09_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P10_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P10_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P11_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P11_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P12_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P12_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P13_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P13_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P14_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P14_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P15_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P15_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P16_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P16_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P17_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P17_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P18_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P18_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P19_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P19_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P20_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P20_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P21_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P21_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P22_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P22_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P23_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P23_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P25_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P25_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P26_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P26_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P31_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P31_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P33_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P33_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P24_*.cpp ub trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
// VSREUSE: thorough P24_*.cpp ubnd -DNDEBUG trap:-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable trap:-fsanitize-trap=all
#include "common.h"
#include <array/image.h>
#include <array/matrix.h>
#include <array/ein_reduce.h>
#include <array/z_order.h>
using namespace nda;
#ifdef NDARRAY_INT_INDICES
static const i64 MM = P2(30), EE = P2(10), SS = P2(18), FF = P2(30);
#else
static const i64 MM = P2(62), EE = P2(20), SS = P2(38), FF = P2(60);
#endif
static i64 any() { return vs_sym("any", -MM, MM); }
// flat offsets of in-range indices are representable
template <size_t R>
static void fits(const RD* r) {
  i64 s = 0;
  for (size_t k = 0; k < R; k++) {
    i64 d = (r[k].ext - 1) * r[k].str;
    s += d < 0 ? -d : d;
  }
  ASSUME(s < FF);
  i64 p = 1;
  for (size_t k = 0; k < R; k++) p *= r[k].ext;
  ASSUME(p < FF);
}
template <class T> static void use(const T& t) { volatile bool b = t != T(); (void)b; }
template <class S> static void use_shape(const S& s) { volatile bool b = s.size() != 0; (void)b; }

// intervals and dims
VS_HARNESS(P32_dim) {
  vs_opt("forkselect", 1);
  i64 m = vs_sym("min", -MM, MM), e = vs_sym("ext", 0, EE), a = any();
  interval<> x((index_t)m, (index_t)e), y((index_t)any(), (index_t)vs_sym("ext", 0, EE));
  use(x.max()); use(x.is_in_range((index_t)a)); use(x.is_in_range(y)); use(x == y); use(*x.begin()); use(*x.end());
  use(clamp((index_t)a, x));
  x.set_max((index_t)(m + e - 1));
  i64 f = vs_sym("pos", 0, EE);
  use(range((index_t)m, (index_t)(m + f)).extent());
  use(r<4>((index_t)m).max());
  if (e > 0 && f < e) {
    dim<> d((index_t)m, (index_t)e, (index_t)vs_sym("str", -SS, SS));
    use(d.flat_offset((index_t)(m + f)));
    use(d.is_in_range((index_t)a)); use(d.is_in_range(y)); use(d == d); use(*d.end());
  }
  vs_reach("dim");
}
// splits
template <class T> static void walk(const T& s) {
  i64 n = 0;
  for (auto i : s) { use(i.min()); use(i.max()); n++; }
  volatile i64 k = s.size();
  CHECKM(k == n, "size");
}
VS_HARNESS(P32_split) {
  vs_opt("forkselect", 1);
  i64 m = vs_sym("min", -MM, MM), e = vs_choose("ext", 0, 9);
  interval<> x((index_t)m, (index_t)e);
  dim<> d((index_t)m, (index_t)e, 3);
  switch (vs_choose("split", 0, 4)) {
  case 0: if (e >= 3) walk(split<3>(x)); break;
  case 1: if (e >= 1) walk(split<1>(d)); break;
  case 2: walk(split(x, (index_t)vs_choose("factor", 1, 4))); break;
  case 3: walk(split(d, (index_t)vs_sym("factor", 1, EE))); break;
  default: if (e >= 4) { auto s = split<4>(d); use((*s[1]).min()); use(s.begin()[(e - 1) / 4].max()); }
  }
  vs_reach("split");
}

// shapes: queries with in-range and arbitrary indices
template <class S>
void t_shape(i64 ehi) {
  vs_opt("forkselect", 1);
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{MM, 0, ehi, -SS, SS});
  fits<R>(r);
  i64 v[R + 1], w[R + 1];
  bool some = true;
  for (size_t k = 0; k < R; k++) { some = some && r[k].ext > 0; w[k] = any(); }
  use(s.size()); use(s.empty()); use(s.is_resolved());
  use(s.is_in_range(tup<R>(w)));
  use(calln<R>([&](auto... i) { return s.is_in_range(i...); }, w));
  use(s.is_compact()); use(s.is_one_to_one());
  use(s == s);
  if (some) {
    for (size_t k = 0; k < R; k++) v[k] = pick(r[k], r[k].ext);
    use(s[tup<R>(v)]); use(s.is_in_range(tup<R>(v)));
    use(calln<R>([&](auto... i) { return s(i...); }, v));
    use(s.flat_min()); use(s.flat_max()); use(s.flat_extent());
    use(s.is_subset_of(s, 0));
    use_shape(make_compact(s));
    vs_reach("shape");
  }
  S t = s;
  t.resolve();
  use(t.is_resolved());
}
VS_HARNESS(P32_shape0) { t_shape<shape<>>(1); }
VS_HARNESS(P32_shape1) { t_shape<shape_of_rank<1>>(4); }
VS_HARNESS(P32_shape2) { t_shape<shape_of_rank<2>>(3); }
VS_HARNESS(P32_shape3) { t_shape<shape_of_rank<3>>(2); }
VS_HARNESS(P32_shapes) { t_shape<shape<dim<dynamic, 3, -4>, dim<2>>>(3); }
VS_HARNESS(P32_shapec) { t_shape<chunky_image_shape<3>>(2); }
VS_HARNESS(P32_shape1w) { // any extent
  vs_opt("forkselect", 1);
  RD r[1];
  auto s = mk<shape_of_rank<1>>(r, Rng{MM, 1, EE, -SS, SS});
  fits<1>(r);
  i64 v = pick(r[0], EE);
  use(s(v)); use(s.size()); use(s.flat_min()); use(s.flat_max()); use(s.flat_extent()); use(s.is_compact()); use(s.is_in_range(any()));
  vs_reach("wide");
}
// resolving: unresolved strides around fixed ones
template <size_t D, class S>
static std::enable_if_t<(D < S::rank())> unres(S& s, i64 k) { if (k >> D & 1) s.template dim<D>().set_stride(unresolved); }
template <size_t D, class S>
static std::enable_if_t<(D >= S::rank())> unres(S&, i64) {}
template <class S>
void t_resolve(i64 ehi) {
  vs_opt("forkselect", 1);
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{MM, 0, ehi, -SS, SS});
  i64 un = vs_choose("unresolved", 0, (1 << R) - 1);
  unres<0>(s, un); unres<1>(s, un); unres<2>(s, un);
  use(s.is_resolved());
  s.resolve();
  CHECKM(s.is_resolved(), "resolved");
  use(s.size());
  vs_reach("resolve");
}
VS_HARNESS(P32_resolve1) { t_resolve<shape_of_rank<1>>(4); }
VS_HARNESS(P32_resolve2) { t_resolve<shape_of_rank<2>>(3); }
VS_HARNESS(P32_resolve3) { t_resolve<shape_of_rank<3>>(2); }

// views: indexing and cropping compute addresses
template <class S>
void t_view(i64 ehi) {
  vs_opt("forkselect", 1);
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{MM, 1, ehi, -P2(12), P2(12)});
  fits<R>(r);
  i64 v[R + 1];
  for (size_t k = 0; k < R; k++) v[k] = pick(r[k], r[k].ext);
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> a(base, s);
  CHECKM(&a[tup<R>(v)] == base + off(r, R, v), "address");
  calln<R>([&](auto... i) { return &a(i...); }, v);
  use(a.size()); use(a.empty()); use((const void*)a.data());
  vs_reach("view");
}
VS_HARNESS(P32_view1) { t_view<shape_of_rank<1>>(4); }
VS_HARNESS(P32_view2) { t_view<shape_of_rank<2>>(3); }
VS_HARNESS(P32_view3) { t_view<dense_shape<3>>(2); }
VS_HARNESS(P32_slice) {
  vs_opt("forkselect", 1);
  RD r[2];
  i64 v[2], l[2];
  auto s = mkp<shape_of_rank<2>>(r, v, Rng{MM, 1, P2(8), -P2(12), P2(12)});
  fits<2>(r);
  for (int k = 0; k < 2; k++) l[k] = vs_sym("len", 1, P2(8));
  ASSUME(v[0] + l[0] <= r[0].min + r[0].ext && v[1] + l[1] <= r[1].min + r[1].ext);
  int* base = (int*)vs_abstract(1);
  array_ref<int, shape_of_rank<2>> a(base, s);
  interval<> x((index_t)v[0], (index_t)l[0]), y((index_t)v[1], (index_t)l[1]);
  const int* p = base + off(r, 2, v);
  switch (vs_choose("how", 0, 5)) {
  case 0: CHECKM(a(x, y).base() == p, "crop"); break;
  case 1: CHECKM(a((index_t)v[0], y).base() == p, "slice"); break;
  case 2: CHECKM(a(x, (index_t)v[1]).base() == p, "slice"); break;
  case 3: CHECKM(a(_, (index_t)v[1]).base() == base + (v[1] - r[1].min) * r[1].str, "slice"); break;
  case 4: CHECKM(a(x, _).base() == base + (v[0] - r[0].min) * r[0].str, "crop"); break;
  default: CHECKM(a(_, _).base() == base, "all"); break;
  }
  vs_reach("slice");
}
VS_HARNESS(P32_crop) { // image crops clamp arbitrary bounds
  vs_opt("forkselect", 1);
  i64 m[3] = {vs_sym("min x", -MM / 2, MM / 2), vs_sym("min y", -MM / 2, MM / 2), vs_sym("min c", -MM, MM)};
  i64 w = 2, h = 2;
  image_shape s(dim<dynamic, dynamic, dynamic>((index_t)m[0], (index_t)w, 3), dim<>((index_t)m[1], (index_t)h, 9), dense_dim<>((index_t)m[2], 3));
  image_ref<char> a((char*)vs_abstract(1), s);
  // anything from a bounds' length away to far away
  i64 far = MM / 4;
  bool x = vs_choose("x", 0, 1);
  i64 x0 = m[0] + (x ? vs_choose("x0", -1, 2) : 0), x1 = m[0] + (x ? vs_choose("x1", 1, 3) : 2), y0 = m[1] + (x ? 1 : vs_choose("y0", -1, 2)), y1 = m[1] + (x ? 2 : vs_choose("y1", 1, 3));
  switch (vs_choose("far", 0, 4)) {
  case 1: x0 = m[0] - far; break;
  case 2: x1 = m[0] + far; break;
  case 3: y0 = m[1] - vs_sym("far y", 1, far); break;
  case 4: y1 = m[1] + vs_sym("far y", 1, far); break;
  }
  ASSUME(x0 <= x1 && y0 <= y1);
  auto c = crop(a, (index_t)x0, (index_t)y0, (index_t)x1, (index_t)y1, vs_choose("origin", 0, 1) ? crop_origin::zero : crop_origin::crop);
  use(c.width()); use(c.height()); use((const void*)c.base());
  vs_reach("crop");
}

// loops
template <class S>
void t_loop(i64 ehi) {
  vs_opt("forkselect", 1);
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  const S s = mkc<S>(r, Rng{MM, 0, ehi, -SS, SS});
  fits<R>(r);
  i64 n = 0;
  for_each_index(s, [&](const index_of_rank<R>& i) { n++; use(s[i]); });
  for_all_indices(s, [&](auto... i) { n++; use(s[index_of_rank<R>(i...)]); });
  CHECKM(n == 2 * prod(r, R), "calls");
  vs_reach("loop");
}
VS_HARNESS(P32_loop0) { t_loop<shape<>>(1); }
VS_HARNESS(P32_loop1) { t_loop<shape_of_rank<1>>(3); }
VS_HARNESS(P32_loop2) { t_loop<shape_of_rank<2>>(2); }
VS_HARNESS(P32_loop3) { t_loop<shape_of_rank<3>>(2); }
VS_HARNESS(P32_loopm) { t_loop<matrix_shape<>>(2); }
VS_HARNESS(P32_zorder) {
  vs_opt("forkselect", 1);
  interval<> x((index_t)vs_sym("min", -MM, MM), (index_t)vs_choose("ext", 0, 3)), y((index_t)vs_sym("min", -MM, MM), (index_t)vs_choose("ext", 0, 3));
  i64 n = 0;
  for_all_in_z_order(std::make_tuple(x, y), [&](index_t a, index_t b) { n++; use(a); use(b); });
  for_each_in_z_order(std::make_tuple(y, x, x), [&](const std::tuple<index_t, index_t, index_t>&) { n++; });
  CHECKM(n == x.extent() * y.extent() * (1 + x.extent()), "calls");
  vs_reach("z");
}

// operations on the values of views, over memory that must not be touched except by the element type
struct V {
  char c;
  V() = default;
  V(const V&) {}
  V& operator=(const V&) { return *this; }
  V& operator=(V&&) { return *this; }
  bool operator==(const V&) const { return true; }
  bool operator!=(const V&) const { return false; }
};
template <class SA, class SB>
void t_values(i64 ehi) {
  vs_opt("forkselect", 1);
  constexpr size_t R = SA::rank();
  RD a[R + 1] = {}, b[R + 1] = {};
  SA sa = mkc<SA>(a, Rng{MM, 0, ehi, -P2(12), P2(12)});
  // the other view has the same bounds up to one more on either side
  SB sb = mk_shape<SB>::go(b, Rng{MM, 0, ehi + 2, -P2(12), P2(12)}, std::make_index_sequence<R>());
  for (size_t k = 0; k < R; k++) {
    i64 lo = vs_choose("before", 0, k == 0), hi = vs_choose("after", 0, k == 0);
    ASSUME(b[k].min == a[k].min - lo && b[k].ext == a[k].ext + lo + hi);
  }
  fits<R>(a); fits<R>(b);
  array_ref<V, SA> x((V*)vs_abstract(1), sa);
  array_ref<V, SB> y((V*)vs_abstract(2), sb);
  const_array_ref<V, SB> cy = y;
  switch (vs_choose("op", 0, 4)) {
  case 0: copy(cy, x); break;
  case 1: move(y, x); break;
  case 2: fill(x, V()); generate(x, [] { return V(); }); break;
  case 3: { i64 n = 0; x.for_each_value([&](V&) { n++; }); CHECKM(n == prod(a, R), "values"); break; }
  default: use(equal(x, x)); use(equal(x, y)); break;
  }
  vs_reach("values");
}
typedef shape_of_rank<1> G1;
typedef shape_of_rank<2> G2;
VS_HARNESS(P32_values1) { t_values<G1, G1>(3); }
VS_HARNESS(P32_values1d) { t_values<dense_shape<1>, G1>(3); }
VS_HARNESS(P32_values2) { t_values<G2, G2>(2); }
VS_HARNESS(P32_values2s) { t_values<shape<dim<dynamic, 2>, dim<>>, dense_shape<2>>(2); }

VS_HARNESS(P32_image) { // the traversal that fuses x and c
  vs_opt("forkselect", 1);
  RD r[3];
  auto s = mkc<chunky_image_shape<3>>(r, Rng{MM, 0, 2, -P2(12), P2(12)});
  fits<3>(r);
  image_ref<V> d((V*)vs_abstract(2), image_shape());
  array_ref<V, chunky_image_shape<3>> x((V*)vs_abstract(1), s);
  i64 n = 0;
  x.for_each_value([&](V&) { n++; });
  CHECKM(n == prod(r, 3), "values");
  vs_reach("image");
}

// owning arrays with large mins
template <class S> static std::enable_if_t<(S::rank() > 0)> setst(S& s, i64 st) { if (std::decay_t<decltype(s.template dim<0>())>::Stride == dynamic) s.template dim<0>().set_stride(st); }
static void setst(shape<>&, i64) {}
template <class A>
void t_own(i64 ehi) {
  vs_opt("forkselect", 1);
  typedef typename A::shape_type S;
  constexpr size_t R = A::rank();
  {
    RD r[R + 1] = {};
    S s = mkc<S>(r, Rng{MM, 0, ehi, 0, 0});
    i64 un = (1 << R) - 1, st = vs_choose("layout", 0, 2);
    unres<0>(s, un); unres<1>(s, un); unres<2>(s, un);
    if (st) setst(s, st == 1 ? 2 : -1);
    A a(s, 5);
    const A b(a);
    CHECKM(a == b, "copies");
    A c;
    c = b;
    i64 n = 0;
    c.for_each_value([&](int& v) { v++; n++; });
    CHECKM(n == (i64)a.size(), "values");
    A d(std::move(c));
    swap(a, d);
    d.assign(a);
    d.reshape(s);
    auto e = make_compact_copy(a);
    CHECKM(equal(e, a), "compact copies");
    d.clear();
    fill(a, 4);
  }
  CHECKM(vs_live() == 0, "no leak");
  vs_reach("own");
}
VS_HARNESS(P32_own0) { t_own<array<int, shape<>>>(1); }
VS_HARNESS(P32_own1) { t_own<array_of_rank<int, 1>>(3); }
VS_HARNESS(P32_own1d) { t_own<dense_array<int, 1>>(3); }
VS_HARNESS(P32_own2) { t_own<array_of_rank<int, 2>>(2); }
VS_HARNESS(P32_own2d) { t_own<dense_array<int, 2, auto_allocator<int, 2>>>(2); }
VS_HARNESS(P32_own3i) { t_own<array<int, chunky_image_shape<2>>>(1); }

// reductions
enum { i = 0, j = 1, k = 2 }; // dimensions of the reductions
VS_HARNESS(P32_ein) {
  vs_opt("forkselect", 1);
  i64 m = vs_sym("min i", -MM, MM), n = vs_sym("min j", -MM, MM), o = vs_sym("min k", -MM, MM);
  i64 x = vs_choose("x", 1, 2), y = vs_choose("y", 1, 2), z = vs_choose("z", 1, 2);
  array_of_rank<int, 2> A(G2(dim<>(m, x), dim<>(n, y)), 1), B(G2(dim<>(n, y), dim<>(o, z)), 2), C(G2(dim<>(m, x), dim<>(o, z)), 0);
  switch (vs_choose("how", 0, 3)) {
  case 0:
    ein_reduce(ein<i, k>(C) += ein<i, j>(A) * ein<j, k>(B));
    break;
  case 1: { auto R = make_ein_sum<int, i, k>(ein<i, j>(A) * ein<j, k>(B)); CHECKM(R(m, o) == 2 * y, "sum"); break; }
  case 2: { auto R = make_ein_sum<int, j>(ein<i, j>(A)); CHECKM(R(n) == x, "sum"); break; }
  default: { auto R = make_ein_sum<int>(ein<i, j>(A)); CHECKM(R() == x * y, "sum"); break; }
  }
  vs_reach("ein");
}
// transposition, reinterpretation and conversion
VS_HARNESS(P32_conv) {
  vs_opt("forkselect", 1);
  RD r[2], q[1];
  i64 v[2];
  auto s = mkp<G2>(r, v, Rng{MM, 1, P2(8), -P2(12), P2(12)});
  fits<2>(r);
  auto t = mk<G1>(q, Rng{MM, 1, P2(8), -P2(12), P2(12)});
  fits<1>(q);
  int* base = (int*)vs_abstract(1);
  array_ref<int, G2> a(base, s);
  auto tr = transpose<1, 0>(a);
  CHECKM(&tr(v[1], v[0]) == &a(v[0], v[1]), "transposed");
  auto se = reorder<1>(a);
  CHECKM(&se(v[1]) == base + (v[1] - r[1].min) * r[1].str, "selected");
  use(is_compatible<dense_shape<2>>(s));
  use(t.is_subset_of(s, vs_sym("offset", -P2(12), P2(12))));
  if (is_compatible<dense_shape<2>>(s)) { auto d = convert_shape<dense_shape<2>>(a); use((const void*)d.base()); }
  use(s == G2(s)); use_shape(s);
  vs_reach("conv");
}
