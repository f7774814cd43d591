// Shared harness helpers: symbolic dims/shapes with the raw values recorded for the oracle.
#pragma once
#include "vs.h"
#ifndef VS_NO_ARRAY
#include <array/array.h>
#include <array>
#include <tuple>
#include <type_traits>
#include <utility>
using nda::dynamic;
using nda::index_t;

// The oracle's view of one dimension.
struct RD {
  i64 min, ext, str;
  i64 max() const { return min + ext - 1; }
  bool has(i64 i) const { return min <= i && i < min + ext; }
  i64 off(i64 i) const { return (i - min) * str; }
};

// Ranges of the symbolic dimension parameters.
struct Rng {
  i64 m;        // |min| <= m
  i64 elo, ehi; // extent
  i64 slo, shi; // stride
};
constexpr i64 P2(int n) { return (i64)1 << n; }
#ifdef NDARRAY_INT_INDICES
constexpr Rng WIDE = {P2(12), 0, P2(9), -P2(9), P2(9)};
#else
constexpr Rng WIDE = {P2(40), 0, P2(20), -P2(32), P2(32)};
#endif

template <class D>
D mkdim(RD& r, const Rng& g) {
  r.min = D::Min != dynamic ? (i64)D::Min : vs_sym("min", -g.m, g.m);
  r.ext = D::Extent != dynamic ? (i64)D::Extent : vs_sym("ext", g.elo, g.ehi);
  r.str = D::Stride != dynamic ? (i64)D::Stride : vs_sym("str", g.slo, g.shi);
  return D((index_t)r.min, (index_t)r.ext, (index_t)r.str);
}
// Dim whose dynamic extent takes concrete values (case split).
template <class D>
D mkdimc(RD& r, const Rng& g) {
  r.min = D::Min != dynamic ? (i64)D::Min : vs_sym("min", -g.m, g.m);
  r.ext = D::Extent != dynamic ? (i64)D::Extent : vs_choose("ext", g.elo, g.ehi);
  r.str = D::Stride != dynamic ? (i64)D::Stride : vs_sym("str", g.slo, g.shi);
  return D((index_t)r.min, (index_t)r.ext, (index_t)r.str);
}

// Non-empty dim together with one arbitrary in-range index: extent = 1 + pos + rest, index = min + pos
// (every dim and every in-range index of it has this form, and it keeps the solver's terms small).
// The sign of the stride is case split.
template <class D>
D mkdimp(RD& r, i64& idx, const Rng& g) {
  i64 pos = vs_sym("pos", 0, D::Extent != dynamic ? (i64)D::Extent - 1 : g.ehi - 1);
  r.min = D::Min != dynamic ? (i64)D::Min : vs_sym("min", -g.m, g.m);
  r.ext = D::Extent != dynamic ? (i64)D::Extent : 1 + pos + vs_sym("rest", 0, g.ehi - 1);
  r.str = D::Stride != dynamic ? (i64)D::Stride : vs_sym("str", g.slo, g.shi);
  idx = r.min + pos;
  if (r.str < 0) vs_trace("neg", 1);
  return D((index_t)r.min, (index_t)r.ext, (index_t)r.str);
}

template <class S>
struct mk_shape;
template <class... Ds>
struct mk_shape<nda::shape<Ds...>> {
  template <size_t... Is>
  static nda::shape<Ds...> go(RD* r, const Rng& g, std::index_sequence<Is...>) {
    (void)r;
    return nda::shape<Ds...>(std::tuple<Ds...>{mkdim<Ds>(r[Is], g)...});
  }
  template <size_t... Is>
  static nda::shape<Ds...> goc(RD* r, const Rng& g, std::index_sequence<Is...>) {
    (void)r;
    return nda::shape<Ds...>(std::tuple<Ds...>{mkdimc<Ds>(r[Is], g)...});
  }
  template <size_t... Is>
  static nda::shape<Ds...> gop(RD* r, i64* v, const Rng& g, std::index_sequence<Is...>) {
    (void)r; (void)v;
    return nda::shape<Ds...>(std::tuple<Ds...>{mkdimp<Ds>(r[Is], v[Is], g)...});
  }
};
// Shape with symbolic parameters (mk) / with case-split extents (mkc).
template <class S>
S mk(RD* r, const Rng& g) { return mk_shape<S>::go(r, g, std::make_index_sequence<S::rank()>()); }
template <class S>
S mkc(RD* r, const Rng& g) { return mk_shape<S>::goc(r, g, std::make_index_sequence<S::rank()>()); }
template <class S>
S mkp(RD* r, i64* v, const Rng& g) { return mk_shape<S>::gop(r, v, g, std::make_index_sequence<S::rank()>()); }

template <size_t R>
struct Idx { i64 v[R ? R : 1]; };
template <size_t... Is>
inline nda::index_of_rank<sizeof...(Is)> tup_(const i64* v, std::index_sequence<Is...>) {
  (void)v;
  return nda::index_of_rank<sizeof...(Is)>((index_t)v[Is]...);
}
template <size_t R>
nda::index_of_rank<R> tup(const i64* v) { return tup_(v, std::make_index_sequence<R>()); }
// call f(v[0], ..., v[R-1])
template <class F, size_t... Is>
auto call_(F&& f, const i64* v, std::index_sequence<Is...>) -> decltype(f((index_t)v[Is]...)) { (void)v; return f((index_t)v[Is]...); }
template <size_t R, class F>
auto calln(F&& f, const i64* v) -> decltype(call_(f, v, std::make_index_sequence<R>())) { return call_(f, v, std::make_index_sequence<R>()); }

template <class T, size_t... Is>
inline std::array<nda::index_t, sizeof...(Is)> arr__(const T& t, std::index_sequence<Is...>) { return {{(nda::index_t)std::get<Is>(t)...}}; }
// an index tuple as an array
template <class T>
inline auto arr(const T& t) { return arr__(t, std::make_index_sequence<std::tuple_size<T>::value>()); }
constexpr size_t sum_of() { return 0; }
template <class... R>
constexpr size_t sum_of(size_t a, R... r) { return a + sum_of(r...); }

// Any in-range index of a dim, as min + position (keeps the solver's terms small).
inline i64 pick(const RD& r, i64 emax) { i64 k = vs_sym("pos", 0, emax > 0 ? emax - 1 : 0); ASSUME(k < r.ext); return r.min + k; }
// oracle helpers
inline i64 off(const RD* r, size_t n, const i64* v) { i64 s = 0; for (size_t i = 0; i < n; i++) s += (v[i] - r[i].min) * r[i].str; return s; }
inline i64 prod(const RD* r, size_t n) { i64 s = 1; for (size_t i = 0; i < n; i++) s *= r[i].ext; return s; }
inline bool inr(const RD* r, size_t n, const i64* v) { bool b = true; for (size_t i = 0; i < n; i++) b = b & (r[i].min <= v[i]) & (v[i] < r[i].min + r[i].ext); return b; }

template <class S, size_t... Is>
void rd_(const S& s, RD* r, std::index_sequence<Is...>) {
  int u[] = {0, (r[Is].min = s.template dim<Is>().min(), r[Is].ext = s.template dim<Is>().extent(), r[Is].str = s.template dim<Is>().stride(), 0)...};
  (void)u; (void)r; (void)s;
}
// read back a shape's parameters through its public accessors
template <class S>
void rd(const S& s, RD* r) { rd_(s, r, std::make_index_sequence<S::rank()>()); }

// a callable that notices when a library function moves from it although it was passed as an lvalue
struct Keep {
  i64* n;
  explicit Keep(i64* p) : n(p) {}
  Keep(const Keep&) = default;
  Keep(Keep&& o) : n(o.n) { o.n = nullptr; }
  template <class... A>
  int operator()(A&&...) const {
    CHECKM(n != nullptr, "a callable passed as an lvalue is still whole");
    return n ? (int)++*n : 0;
  }
};
#endif
