// BOUND: ranks 0-7; |min| <= 2^40, extents 0..2^20, |stride| <= 2^32 and indices within 2^41 all symbolic (32-bit index type: 2^12, 2^9, 2^9, 2^13)
// VSCONFIG: -
// VSCONFIG: int -DNDARRAY_INT_INDICES
// VSCONFIG: ndebug -DNDEBUG
#include "common.h"
using namespace nda;

template <class S>
void t_flat() {
  constexpr size_t R = S::rank();
  RD r[R + 1];
  S s = mk<S>(r, WIDE);
  i64 v[R + 1];
  for (size_t i = 0; i < R; i++) v[i] = vs_sym("idx", -2 * WIDE.m, 2 * WIDE.m);
  i64 want = off(r, R, v);
  CHECKM((i64)s[tup<R>(v)] == want, "shape[tuple] is sum (i-min)*stride");
  CHECKM((i64)calln<R>(s, v) == want, "shape(list) is sum (i-min)*stride");
  const S& cs = s;
  CHECKM((i64)cs[tup<R>(v)] == want && (i64)calln<R>(cs, v) == want, "const shape");
  i64 mn[R + 1];
  for (size_t i = 0; i < R; i++) mn[i] = r[i].min;
  CHECKM((i64)s[tup<R>(mn)] == 0, "the min index has offset 0");
  CHECKM((i64)s[s.min()] == 0, "min() has offset 0");

  // references over memory that must not be touched by addressing
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> a(base, s);
  CHECKM(a.base() == base, "base()");
  CHECKM(&a[tup<R>(v)] == base + want, "ref[tuple]");
  CHECKM(&calln<R>(a, v) == base + want, "ref(list)");
  const array_ref<int, S> ca(a);
  CHECKM(&ca[tup<R>(v)] == base + want && &calln<R>(ca, v) == base + want, "const ref");
  const_array_ref<int, S> cr(base, s);
  CHECKM(&cr[tup<R>(v)] == base + want && &calln<R>(cr, v) == base + want, "ref to const");
  const_array_ref<int, S> cv = a;
  CHECKM(&cv[tup<R>(v)] == base + want && cv.base() == base, "converted ref to const");
  CHECKM(&a[s.min()] == base, "element at min is base");
  // strides wider than a byte element
  struct E24 { char x[24]; };
  E24* b2 = (E24*)vs_abstract(2);
  array_ref<E24, S> w(b2, s);
  CHECKM(&w[tup<R>(v)] == b2 + want, "24 byte elements");
  vs_reach("flat");
}

VS_HARNESS(P01_rank0) { t_flat<shape<>>(); }
VS_HARNESS(P01_d1) { t_flat<shape_of_rank<1>>(); }
VS_HARNESS(P01_d2) { t_flat<shape_of_rank<2>>(); }
VS_HARNESS(P01_d3) { t_flat<shape_of_rank<3>>(); }
VS_HARNESS(P01_d4) { t_flat<shape_of_rank<4>>(); }
VS_HARNESS(P01_d5) { t_flat<shape_of_rank<5>>(); }
VS_HARNESS(P01_d6) { t_flat<dense_shape<6>>(); }
VS_HARNESS(P01_d7) { t_flat<shape<dim<>, dim<2>, dense_dim<>, dim<dynamic, 5>, dim<dynamic, dynamic, -70>, dim<1, 3>, dim<>>>(); }
VS_HARNESS(P01_dense1) { t_flat<shape<dense_dim<>>>(); }
VS_HARNESS(P01_dense3) { t_flat<dense_shape<3>>(); }
VS_HARNESS(P01_static_min) { t_flat<shape<dim<7>, dim<-3>>>(); }
VS_HARNESS(P01_static_ext) { t_flat<shape<dim<dynamic, 5>, dim<2, 3>>>(); }
VS_HARNESS(P01_static_str) { t_flat<shape<strided_dim<-4>, broadcast_dim<>, strided_dim<11>>>(); }
VS_HARNESS(P01_static_all) { t_flat<shape<dim<-3, 4, 5>, dim<1, 2, -7>>>(); }
VS_HARNESS(P01_static_big) { t_flat<shape<dim<-1000, 1000, 4096>, dim<dynamic, 77, -12345>, dim<100>>>(); }
VS_HARNESS(P01_static_big2) { t_flat<shape<dense_dim<8, 16>, dim<33, dynamic, 640>, dim<dynamic, 129>>>(); }
VS_HARNESS(P01_mixed) { t_flat<shape<dim<dynamic, 3, dynamic>, dense_dim<>, dim<2, dynamic, 6>, dim<>>>(); }
VS_HARNESS(P01_mixed2) { t_flat<shape<dim<>, dim<dynamic, dynamic, 9>, dim<4>>>(); }
VS_HARNESS(P01_fixed) { t_flat<fixed_dense_shape<3, 4, 5>>(); }

// Owning arrays: small extents, any min, any stride order.
template <class S>
void t_owned(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1];
  S s = mkc<S>(r, Rng{P2(24), 1, emax, -P2(6), P2(6)});
  i64 v[R + 1];
  for (size_t i = 0; i < R; i++) { v[i] = pick(r[i], r[i].ext); }
  i64 want = off(r, R, v);
  array<int, S> a(s, 0);
  const array<int, S>& c = a;
  CHECKM(&a[tup<R>(v)] == a.base() + want, "array[tuple]");
  CHECKM(&calln<R>(a, v) == a.base() + want, "array(list)");
  CHECKM(&c[tup<R>(v)] == c.base() + want && &calln<R>(c, v) == c.base() + want, "const array");
  CHECKM(c.base() == a.base(), "const base");
  CHECKM(&a[a.shape().min()] == a.base(), "element at min is base");
  auto rf = a.ref();
  auto cf = c.ref();
  CHECKM(&rf[tup<R>(v)] == a.base() + want && &calln<R>(cf, v) == a.base() + want, "ref of array");
  a[tup<R>(v)] = 7;
  CHECKM(calln<R>(c, v) == 7, "write is read back");
  vs_trace("sum", want);
  vs_reach("owned");
}
VS_HARNESS(P01_own0) { t_owned<shape<>>(1); }
VS_HARNESS(P01_own1) { t_owned<shape_of_rank<1>>(4); }
VS_HARNESS(P01_own2) { t_owned<shape_of_rank<2>>(3); }
VS_HARNESS(P01_own3) { t_owned<shape<strided_dim<4>, dim<-2, 2>, dense_dim<dynamic, 2>>>(2); }
VS_HARNESS(P01_ownf) { t_owned<shape<dim<3, 2, 1>, dim<0, 3, -2>>>(2); }

// rank 0 arrays and references convert to their element
VS_HARNESS(P01_scalar) {
  int v = (int)vs_sym("v", -1000, 1000), w = (int)vs_sym("w", -1000, 1000);
  array<int, shape<>> a({}, v);
  int& r = a;
  CHECKM(&r == a.base() && &r == &a(), "a scalar array converts to its element");
  r = w;
  const array<int, shape<>>& c = a;
  const int& cr = c;
  CHECKM(&cr == a.base() && cr == w, "a const scalar array converts to its element");
  array_ref<int, shape<>> f = a.ref();
  int& fr = f;
  CHECKM(&fr == a.base(), "a scalar reference converts to its element");
  const_array_ref<int, shape<>> g = a;
  const int& gr = g;
  CHECKM(&gr == a.base() && gr == w && w == a && a == w, "a scalar reference to const converts to its element");
  int x = v;
  array_ref<int, shape<>> h(&x);
  CHECKM(&h() == &x && &h[std::tuple<>()] == &x, "reference to a scalar");
  vs_reach("scalar");
}
// index arguments of other integer types mean the same index
VS_HARNESS(P01_types) {
  using S = shape<dim<>, dim<dynamic, 5>, dim<>>;
  RD r[4];
  S s = mk<S>(r, WIDE);
  i64 v[3] = {vs_sym("i", -100, 100), vs_sym("j", 0, 250), vs_sym("k", 0, 60000)};
  i64 want = off(r, 3, v);
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> a(base, s);
  CHECKM((i64)s((signed char)v[0], (unsigned char)v[1], (unsigned short)v[2]) == want, "narrow index types");
  CHECKM((i64)s((short)v[0], (unsigned)v[1], (size_t)v[2]) == want, "unsigned index types");
  CHECKM(&a((int)v[0], (long long)v[1], (unsigned long)v[2]) == base + want, "wide index types");
  CHECKM(&a[std::make_tuple((int)v[0], (short)v[1], (int)v[2])] == base + want, "a tuple of other index types");
  struct Conv { index_t i; operator index_t() const { return i; } };
  CHECKM((i64)s(Conv{(index_t)v[0]}, (index_t)v[1], Conv{(index_t)v[2]}) == want, "a type that converts to an index");
  vs_reach("types");
}
// make_array_ref, make_shape and make_shape_from_tuple keep the dims and the base
VS_HARNESS(P01_make) {
  using S = shape<dim<>, dim<2, 5>, dense_dim<>>;
  RD r[4];
  S s = mk<S>(r, WIDE);
  i64 v[4];
  for (int i = 0; i < 3; i++) v[i] = vs_sym("idx", -2 * WIDE.m, 2 * WIDE.m);
  int* base = (int*)vs_abstract(1);
  auto a = make_array_ref(base, s);
  auto b = make_array_ref(base, make_shape(s.dim<0>(), s.dim<1>(), s.dim<2>()));
  auto c = make_array_ref((const int*)base, make_shape_from_tuple(s.dims()));
  static_assert(std::is_same<decltype(a), array_ref<int, S>>::value && std::is_same<decltype(b), array_ref<int, S>>::value && std::is_same<decltype(c), array_ref<const int, S>>::value, "types");
  i64 want = off(r, 3, v);
  CHECKM(&a[tup<3>(v)] == base + want && &b[tup<3>(v)] == base + want && &c[tup<3>(v)] == base + want, "made references address the same elements");
  vs_reach("make");
}
