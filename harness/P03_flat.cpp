// BOUND: ranks 0-5; |min| <= 2^40, extents 0..2^10, |stride| <= 2^20, all symbolic; owning arrays: extents up to 3, |stride| <= 2^6
// VSCONFIG: -
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
#ifdef NDARRAY_INT_INDICES
static const Rng G = {P2(12), 0, P2(6), -P2(9), P2(9)};
#else
static const Rng G = {P2(40), 0, P2(10), -P2(20), P2(20)};
#endif

template <class S>
std::enable_if_t<S::rank() != 0 && std::tuple_element_t<0, typename S::dims_type>::Extent == 0> t_ne() {}
template <class S>
std::enable_if_t<std::tuple_element_t<0, typename S::dims_type>::Extent != 0> t_ne() {
  constexpr size_t R = S::rank();
  RD r[R + 1];
  i64 v[R + 1];
  S s = mkp<S>(r, v, G);
  i64 lo[R + 1], hi[R + 1];
  for (size_t i = 0; i < R; i++) {
    lo[i] = r[i].str < 0 ? r[i].max() : r[i].min;
    hi[i] = r[i].str < 0 ? r[i].min : r[i].max();
  }
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> a(base, s);
  const_array_ref<int, S> c(base, s);
  // the extreme in-range indices attain flat_min / flat_max, and no in-range index is beyond them
  i64 flo = off(r, R, lo), fhi = off(r, R, hi), o = off(r, R, v);
  CHECKM((i64)s.flat_min() == flo, "flat_min is attained");
  CHECKM((i64)s.flat_max() == fhi, "flat_max is attained");
  CHECKM((i64)s.flat_extent() == fhi - flo + 1, "flat_extent");
  CHECKM((i64)s.flat_min() <= o && o <= (i64)s.flat_max(), "every offset is between flat_min and flat_max");
  CHECKM(a.data() == base + flo && c.data() == base + flo, "data() is the lowest addressed element");
  vs_reach("nonempty");
}
template <class S>
void t_flat() {
  constexpr size_t R = S::rank();
  RD r[R + 1];
  { // any extents
    S s = mk<S>(r, G);
    i64 n = prod(r, R);
    CHECKM((i64)s.size() == n, "size is the product of the extents");
    CHECKM(s.empty() == (n == 0), "empty iff size is 0");
    bool ne = true;
    for (size_t i = 0; i < R; i++) ne = ne & (r[i].ext > 0);
    CHECKM(s.empty() == !ne, "empty iff some extent is 0");
    int* base = (int*)vs_abstract(1);
    array_ref<int, S> a(base, s);
    CHECKM((i64)a.size() == n, "ref size");
    CHECKM(a.empty() == (n == 0), "ref empty");
  }
  t_ne<S>();
}
VS_HARNESS(P03_r0) { RD r[1]; shape<> s = mk<shape<>>(r, G); CHECKM(s.size() == 1 && !s.empty() && s.flat_min() == 0 && s.flat_max() == 0 && s.flat_extent() == 1, "scalar shape"); }
VS_HARNESS(P03_r1) { t_flat<shape_of_rank<1>>(); }
VS_HARNESS(P03_r2) { t_flat<shape_of_rank<2>>(); }
VS_HARNESS(P03_r3) { t_flat<shape_of_rank<3>>(); }
VS_HARNESS(P03_r4) { t_flat<shape_of_rank<4>>(); }
VS_HARNESS(P03_r5) { t_flat<shape_of_rank<5>>(); }
VS_HARNESS(P03_m5) { t_flat<shape<dense_dim<>, dim<dynamic, 7>, dim<0>, strided_dim<-40>, dim<>>>(); }
VS_HARNESS(P03_dense2) { t_flat<dense_shape<2>>(); }
VS_HARNESS(P03_static) { t_flat<shape<dim<1, 4, -3>, dim<dynamic, 5>>>(); }
VS_HARNESS(P03_static_big) { t_flat<shape<dim<-1000, 1000, -4096>, dim<dynamic, 77, 12345>, dim<100>>>(); }
VS_HARNESS(P03_static_big2) { t_flat<shape<dense_dim<8, 16>, dim<33, dynamic, -640>, dim<dynamic, 129>>>(); }
VS_HARNESS(P03_bcast) { t_flat<shape<broadcast_dim<>, strided_dim<-2>, dim<3>>>(); }
VS_HARNESS(P03_zero) { t_flat<shape<dim<0, 0>, dim<>>>(); }
VS_HARNESS(P03_mixed) { t_flat<shape<dim<dynamic, 3>, dense_dim<>, dim<2, dynamic, 6>>>(); }

template <class S>
void t_own(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1];
  S s = mkc<S>(r, Rng{P2(20), 0, emax, -P2(6), P2(6)});
  i64 n = prod(r, R);
  i64 before = vs_live();
  array<int, S> a(s, 5);
  const array<int, S>& c = a;
  CHECKM((i64)a.size() == n && a.empty() == (n == 0), "array size and empty");
  if (n > 0) {
    i64 flo = 0, fhi = 0;
    for (size_t i = 0; i < R; i++) {
      i64 e = (r[i].ext - 1) * r[i].str;
      flo += vs_ite(e < 0, e, 0);
      fhi += vs_ite(e < 0, 0, e);
    }
    CHECKM(a.data() == a.base() + flo && c.data() == a.data(), "array data()");
    CHECKM(vs_live() == before + 1, "one block");
    *a.data() = 1;              // the lowest and highest addressed element are inside the block
    a.data()[fhi - flo] = 2;
    if (fhi > flo) CHECKM(*a.data() == 1, "distinct ends");
    vs_reach("own");
  } else {
    if (vs_live() == before) CHECKM(a.base() == nullptr && a.data() == nullptr, "an empty array that owns nothing has null pointers");
    vs_reach("own_empty");
  }
}
VS_HARNESS(P03_own1) { t_own<shape_of_rank<1>>(3); }
VS_HARNESS(P03_own2) { t_own<shape_of_rank<2>>(3); }
VS_HARNESS(P03_own3) { t_own<shape<dense_dim<>, dim<2>, strided_dim<-5>>>(2); }
