// BOUND: |min| <= 2^40, extents 0..2^20, |stride| <= 2^32, probes within 2^41, all symbolic; iteration loops up to 5 indices (8 thorough); membership of empty sub-intervals is outside
// VSCONFIG: -
// VSCONFIG: int -DNDARRAY_INT_INDICES
// VSTHOROUGH: ndebug -DNDEBUG
#include "common.h"
using namespace nda;
static const i64 M = WIDE.m, EX = WIDE.ehi;

template <class I>
I mki(RD& r) {
  r.min = I::Min != dynamic ? (i64)I::Min : vs_sym("min", -M, M);
  r.ext = I::Extent != dynamic ? (i64)I::Extent : vs_sym("ext", 0, EX);
  r.str = 0;
  return I((index_t)r.min, (index_t)r.ext);
}

template <class V>
void probe(const V& a, const RD& r) {
  CHECKM(a.min() == r.min && a.extent() == r.ext && a.size() == r.ext, "min/extent/size");
  CHECKM(a.max() == r.min + r.ext - 1, "max");
  i64 p = vs_sym("at", -2 * M, 2 * M);
  CHECKM(a.is_in_range((index_t)p) == r.has(p), "is_in_range(index)");
  CHECKM(*a.begin() == r.min && *a.end() == r.min + r.ext, "begin/end values");
  if (r.ext > 0) {
    index_t c = clamp((index_t)p, a);
    CHECKM(r.has(c), "clamped value is in range");
    CHECKM(!r.has(p) || c == p, "clamping an in-range index keeps it");
    CHECKM(p >= r.min || c == r.min, "clamping from below gives min");
    CHECKM(p <= r.max() || c == r.max(), "clamping from above gives max");
    CHECKM(clamp((index_t)p, a.min(), a.max()) == c, "clamp forms agree");
  }
  vs_reach("probe");
}

template <class A, class B>
void t_in(const A& a, const RD& ra, const B& b, const RD& rb) {
  CHECKM((a == b) == (ra.min == rb.min && ra.ext == rb.ext), "interval ==");
  CHECKM((a != b) == !(ra.min == rb.min && ra.ext == rb.ext), "interval !=");
  if (rb.ext > 0) {
    bool want = ra.min <= rb.min && rb.min + rb.ext <= ra.min + ra.ext;
    CHECKM(a.is_in_range(b) == want, "is_in_range(interval)");
    i64 p = vs_sym("p", -2 * M, 2 * M);
    CHECKM(!(a.is_in_range(b) && rb.has(p)) || a.is_in_range((index_t)p), "subset implies membership");
  }
}

template <class A, class B>
void t_pair() {
  RD ra, rb;
  A a = mki<A>(ra);
  B b = mki<B>(rb);
  probe(a, ra);
  t_in(a, ra, b, rb);
  t_in(b, rb, a, ra);
  // dims as the inner argument
  RD rd_;
  dim<B::Min, B::Extent, dynamic> d((index_t)rb.min, (index_t)rb.ext, (index_t)vs_sym("str", -P2(10), P2(10)));
  (void)rd_;
  if (rb.ext > 0) CHECKM(a.is_in_range(d) == (ra.min <= rb.min && rb.min + rb.ext <= ra.min + ra.ext), "is_in_range(dim)");
  A c(a);
  A e = a;
  CHECKM(c == a && e.min() == ra.min && e.extent() == ra.ext, "copy");
  vs_reach("pair");
}
VS_HARNESS(P02_dd) { t_pair<interval<>, interval<>>(); }
VS_HARNESS(P02_ds) { t_pair<interval<>, interval<3>>(); }
VS_HARNESS(P02_de) { t_pair<interval<>, interval<dynamic, 7>>(); }
VS_HARNESS(P02_ss) { t_pair<interval<-2, 5>, interval<1, 2>>(); }
VS_HARNESS(P02_se) { t_pair<interval<-2>, interval<dynamic, 4>>(); }
VS_HARNESS(P02_sd) { t_pair<interval<4, 6>, interval<>>(); }
VS_HARNESS(P02_ee) { t_pair<fixed_interval<4>, fixed_interval<1>>(); }
VS_HARNESS(P02_zz) { t_pair<interval<0, 0>, interval<0>>(); }

VS_HARNESS(P02_mutate) {
  RD r;
  interval<> a = mki<interval<>>(r);
  i64 nm = vs_sym("newmin", -M, M);
  interval<> b = a;
  b.set_min((index_t)nm);
  CHECKM(b.min() == nm && b.extent() == r.ext && b.max() == nm + r.ext - 1, "set_min keeps the extent");
  i64 ne = vs_sym("newext", 0, EX);
  interval<> c = a;
  c.set_extent((index_t)ne);
  CHECKM(c.min() == r.min && c.extent() == ne, "set_extent keeps the min");
  i64 nx = vs_sym("newmax", -M, M);
  interval<> d = a;
  d.set_max((index_t)nx);
  CHECKM(d.min() == r.min && d.max() == nx && d.extent() == nx - r.min + 1, "set_max keeps the min");
  interval<5> e((index_t)5, (index_t)r.ext);
  e.set_max((index_t)nx);
  CHECKM(e.min() == 5 && e.max() == nx, "set_max with static min");
  CHECKM(interval<>((index_t)nm).min() == nm && interval<>((index_t)nm).extent() == 1, "one-argument interval has extent 1");
  CHECKM((interval<dynamic, 6>((index_t)nm).extent() == 6), "one-argument interval with static extent");
  CHECKM((interval<>().min() == 0 && interval<>().extent() == 1 && interval<3, 4>().min() == 3 && interval<3, 4>().extent() == 4), "defaults");
  CHECKM((interval<3, 4>::Max == 6 && interval<3>::Max == dynamic), "static max");
  vs_reach("mutate");
}
VS_HARNESS(P02_range) {
  i64 b = vs_sym("begin", -M, M), n = vs_sym("n", 0, EX);
  interval<> x = range((index_t)b, (index_t)(b + n)), y = r((index_t)b, (index_t)(b + n));
  CHECKM(x.min() == b && x.extent() == n && x.max() == b + n - 1, "range(begin, end)");
  CHECKM(x == y, "r is range");
  auto z = range<9>((index_t)b);
  auto w = r<9>((index_t)b);
  CHECKM(z.min() == b && z.extent() == 9 && decltype(z)::Extent == 9 && w == z, "range<extent>(begin)");
  interval<> cv = z;
  CHECKM(cv.min() == b && cv.extent() == 9, "conversion keeps the indices");
  fixed_interval<9> back((interval<>((index_t)b, 9)));
  CHECKM(back == z, "conversion to static extent");
  interval<> as(0, 0);
  as = z;
  CHECKM(as == z, "assignment keeps the indices");
  CHECKM(!vs_asserts([&] { fixed_interval<9> q(interval<>((index_t)b, (index_t)n)); (void)q; }) || n != 9, "compatible conversion is accepted");
#ifndef NDEBUG
  CHECKM(vs_asserts([&] { fixed_interval<9> q(interval<>((index_t)b, (index_t)n)); (void)q; }) || n == 9, "incompatible conversion is diagnosed");
#endif
  vs_reach("range");
}

template <class V>
void t_iter(const V& a, const RD& r) {
  i64 n = 0;
  for (index_t i : a) {
    CHECKM(i == r.min + n, "iteration is consecutive");
    n++;
  }
  CHECKM(n == r.ext, "iteration visits extent indices");
  auto it = a.begin();
  i64 k = vs_sym("k", -100, 100);
  CHECKM(*(it + (index_t)k) == r.min + k && *(it - (index_t)k) == r.min - k && it[(index_t)k] == r.min + k, "iterator + - []");
  CHECKM((it + (index_t)k) - it == k, "iterator difference");
  auto j = it;
  CHECKM(*j++ == r.min && *j == r.min + 1 && *j-- == r.min + 1 && *j == r.min, "post increment and decrement");
  CHECKM(*++j == r.min + 1 && *--j == r.min, "pre increment and decrement");
  j += (index_t)k;
  CHECKM(*j == r.min + k && (j == it) == (k == 0) && (j != it) == (k != 0), "+= and comparison");
  j -= (index_t)k;
  CHECKM(j == it, "-=");
  CHECKM(a.end() - a.begin() == r.ext, "end - begin is the extent");
  vs_trace("n", n);
  vs_reach("iter");
}
VS_HARNESS(P02_iter) {
  RD r;
  r.min = vs_sym("min", -M, M);
  r.ext = vs_choose("ext", 0, VS_T(5, 8));
  interval<> a((index_t)r.min, (index_t)r.ext);
  t_iter(a, r);
  i64 n = 0;
  for (auto i = nda::begin(a); i != nda::end(a); ++i) n++;
  CHECKM(n == r.ext, "free begin/end");
  dim<> d((index_t)r.min, (index_t)r.ext, (index_t)vs_sym("str", -9, 9));
  t_iter(d, r);
}
VS_HARNESS(P02_iter_static) {
  RD r{-2, 3, 0};
  t_iter(interval<-2, 3>(), r);
  t_iter(dim<-2, 3, 7>(), r);
}
