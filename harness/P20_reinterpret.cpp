// BOUND: reinterpret_shape and set_shape between shapes of rank 0-3: extents 1..3 of both case split, every stride (|s| <= 2^10), min and offset symbolic, on memory that must not be dereferenced; subset test compared with the exact range of both shapes' offsets
// BOUND: move_reinterpret_shape: owning arrays with extents 1..3 per dim, every offset and stride for which the new shape fits, static and dynamic shapes, default / stateful propagating allocators; element values symbolic
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;
static const i64 MM = P2(16), SS = P2(10);

static void range(const RD* r, size_t R, i64& lo, i64& hi) {
  lo = hi = 0;
  for (size_t k = 0; k < R; k++) {
    i64 d = (r[k].ext - 1) * r[k].str;
    if (d < 0) lo += d; else hi += d;
  }
}
template <class Fn>
static bool diagnosed(bool bad, const char* m, Fn f) { // false: do not go on
#ifndef NDEBUG
  bool a = vs_asserts(f);
  CHECKM(a == bad, m);
  return !a;
#else
  (void)m;
  if (bad) return false;
  f();
  return true;
#endif
}

template <class N, class O>
void t_reinterpret(i64 emax) {
  vs_opt("forkselect", 1);
  constexpr size_t RO = O::rank(), RN = N::rank();
  RD o[RO + 1] = {}, n[RN + 1] = {};
  O os = mkc<O>(o, Rng{MM, 1, emax, -SS, SS});
  N ns = mkc<N>(n, Rng{MM, 1, emax, -SS, SS});
  i64 of = vs_sym("offset", -P2(13), P2(13));
  i64 ol, oh, nl, nh;
  range(o, RO, ol, oh);
  range(n, RN, nl, nh);
  bool ok = (ol <= of + nl) & (of + nh <= oh);
  int* base = (int*)vs_abstract(1);
  array_ref<int, O> a(base, os);
  const_array_ref<int, O> c(base, os);
  array_ref<int, N> x;
  const_array_ref<int, N> y;
  bool go = diagnosed(!ok, "a new shape is accepted exactly when it stays within the original's memory", [&] { x = reinterpret_shape(a, ns, of); });
  if (!go) { vs_reach("rejected"); return; }
  y = reinterpret_shape(c, ns, of);
  i64 v[RN + 1];
  for (size_t k = 0; k < RN; k++) v[k] = pick(n[k], emax);
  CHECKM(&x[tup<RN>(v)] == base + of + off(n, RN, v), "the element at base + offset + flat offset");
  CHECKM(&y[tup<RN>(v)] == base + of + off(n, RN, v), "the element at base + offset + flat offset");
  CHECKM(x.base() == base + of && x.shape() == ns && y.shape() == ns, "base and shape");
  vs_reach("accepted");
}
typedef shape_of_rank<1> G1;
typedef shape_of_rank<2> G2;
VS_HARNESS(P20_g1g1) { t_reinterpret<G1, G1>(VS_T(4, 6)); }
VS_HARNESS(P20_d1g1) { t_reinterpret<dense_shape<1>, G1>(VS_T(4, 6)); }
VS_HARNESS(P20_g2g1) { t_reinterpret<G2, G1>(VS_T(3, 4)); }
VS_HARNESS(P20_g1g2) { t_reinterpret<G1, G2>(VS_T(3, 4)); }
VS_HARNESS(P20_d2d2) { t_reinterpret<dense_shape<2>, dense_shape<2>>(2); }
VS_HARNESS(P20_r0g1) { t_reinterpret<shape<>, G1>(3); }
VS_HARNESS(P20_g1r0) { t_reinterpret<G1, shape<>>(3); }
VS_HARNESS(P20_f2d1) { t_reinterpret<fixed_dense_shape<2, 3>, dense_shape<1>>(8); }
VS_HARNESS(P20_d1f2) { t_reinterpret<dense_shape<1>, shape<dim<0, 2, 1>, dim<0, 3, 2>>>(7); }
VS_HARNESS(P20_c3d1) { t_reinterpret<chunky_image_shape<2>, dense_shape<1>>(VS_T(2, 3)); }

template <class S>
void t_set_shape(i64 emax) {
  vs_opt("forkselect", 1);
  constexpr size_t R = S::rank();
  RD o[R + 1] = {}, n[R + 1] = {};
  S os = mkc<S>(o, Rng{MM, 1, emax, -SS, SS}), ns = mkc<S>(n, Rng{MM, 1, emax, -SS, SS});
  i64 of = vs_sym("offset", -P2(13), P2(13)), ol, oh, nl, nh;
  range(o, R, ol, oh);
  range(n, R, nl, nh);
  bool ok = (ol <= of + nl) & (of + nh <= oh);
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> a(base, os);
  bool go = diagnosed(!ok, "set_shape accepts exactly the shapes within the original's memory", [&] { a.set_shape(ns, of); });
  if (!go) return;
  i64 v[R + 1];
  for (size_t k = 0; k < R; k++) v[k] = pick(n[k], emax);
  CHECKM(&a[tup<R>(v)] == base + of + off(n, R, v), "the element at base + offset + flat offset");
  vs_reach("set");
}
VS_HARNESS(P20_set1) { t_set_shape<G1>(VS_T(4, 6)); }
VS_HARNESS(P20_set2) { t_set_shape<G2>(2); }
VS_HARNESS(P20_setd1) { t_set_shape<dense_shape<1>>(5); }

// a new shape given by strides within an allocation of n elements
VS_HARNESS(P20_own_set) {
  vs_opt("forkselect", 1);
  i64 n = vs_choose("n", 1, 5);
  dense_array<int, 1> d({n}, 3);
  array_of_rank<int, 1> a(G1(dim<>(vs_sym("min", -9, 9), n)), 3);
  i64 m = vs_sym("new min", -9, 9), e = vs_choose("new ext", 1, 5), s = vs_choose("str", -3, 3), of = vs_choose("offset", -1, 5);
  i64 lo = of + (s < 0 ? (e - 1) * s : 0), hi = of + (s > 0 ? (e - 1) * s : 0);
  bool ok = lo >= 0 && hi < n;
  int* b = a.base();
  for (i64 k = 0; k < n; k++) b[k] = (int)(100 + k);
  bool go = diagnosed(!ok, "set_shape accepts exactly the shapes within the allocation", [&] { a.set_shape(G1(dim<>(m, e, s)), of); });
  if (!go) return;
  CHECKM(a.size() == (size_t)e && a.dim<0>().min() == m && a.base() == b + of, "shape and base");
  for (i64 k = 0; k < e; k++) CHECKM(a(m + k) == 100 + of + k * s, "elements");
  vs_reach("own");
}

// element type and constness
template <class S>
void t_type(i64 emax) {
  vs_opt("forkselect", 1);
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  i64 v[R + 1];
  S s = mkp<S>(r, v, Rng{MM, 1, emax, -SS, SS});
  int* base = (int*)vs_abstract(1);
  array_ref<int, S> a(base, s);
  const_array_ref<int, S> c(base, s);
  auto u = reinterpret<unsigned>(a);
  auto f = reinterpret<const float>(c);
  auto k = reinterpret_const<int>(c);
  CHECKM((void*)&u[tup<R>(v)] == (void*)(base + off(r, R, v)), "address unchanged");
  CHECKM((const void*)&f[tup<R>(v)] == (const void*)(base + off(r, R, v)), "address unchanged");
  CHECKM(&k[tup<R>(v)] == base + off(r, R, v), "address unchanged");
  CHECKM(u.shape() == s && f.shape() == s && k.shape() == s, "shape unchanged");
  vs_reach("type");
}
VS_HARNESS(P20_type0) { t_type<shape<>>(1); }
VS_HARNESS(P20_type1) { t_type<G1>(P2(9)); }
VS_HARNESS(P20_type2) { t_type<dense_shape<2>>(P2(9)); }
VS_HARNESS(P20_type3) { t_type<chunky_image_shape<3>>(P2(9)); }
VS_HARNESS(P20_type_own) {
  dense_array<int, 2> a({vs_choose("x", 0, 2), vs_choose("y", 0, 2)}, 7);
  const dense_array<int, 2>& c = a;
  auto u = reinterpret<unsigned>(a);
  auto w = reinterpret<unsigned>(c);
  CHECKM((void*)u.base() == (void*)a.base() && (const void*)w.base() == (const void*)a.base(), "address unchanged");
  CHECKM(u.shape() == a.shape() && w.shape() == a.shape(), "shape unchanged");
  if (!a.empty()) CHECKM(u(0, 0) == 7u && w(0, 0) == 7u, "value");
  vs_reach("own type");
}

// move_reinterpret_shape
static struct { void* p; size_t n; int id; } g_pb[16];
static int g_np;
template <class T, bool PROP = true>
struct Pal { // stateful, checks that blocks come back as they were handed out
  using value_type = T;
  using propagate_on_container_move_assignment = std::integral_constant<bool, PROP>;
  int id = 0;
  Pal() {}
  explicit Pal(int i) : id(i) {}
  T* allocate(size_t n) {
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    g_pb[g_np].p = p; g_pb[g_np].n = n; g_pb[g_np++].id = id;
    return p;
  }
  void deallocate(T* p, size_t n) {
    int k = -1;
    for (int i = 0; i < g_np; i++) if (g_pb[i].p == p) k = i;
    CHECKM(k >= 0, "only memory obtained from an allocator is returned, once");
    if (k < 0) return;
    CHECKM(g_pb[k].n == n && g_pb[k].id == id, "returned with its size to the allocator it came from");
    g_pb[k] = g_pb[--g_np];
    ::operator delete(p);
  }
  friend bool operator==(const Pal& a, const Pal& b) { return a.id == b.id; }
  friend bool operator!=(const Pal& a, const Pal& b) { return a.id != b.id; }
};
template <class N, class A>
void t_move(A& a, const N& ns, i64 of, bool ok) {
  constexpr size_t R = N::rank();
  typedef typename A::allocator_type Al;
  int* b = a.base();
  auto os = a.shape();
  i64 k = 0;
  for (int* p = a.data(); k < (i64)os.flat_extent(); k++) p[k] = (int)(100 + k);
  i64 fm = os.flat_min(), lv = vs_live();
#ifndef NDEBUG
  if (!ok) {
    CHECKM(vs_asserts([&] { auto r = move_reinterpret_shape(std::move(a), ns, of); (void)r; }), "a shape that leaves the original's memory is diagnosed");
    return;
  }
  if (vs_choose("diagnosed?", 0, 1)) {
    CHECKM(!vs_asserts([&] { auto r = move_reinterpret_shape(std::move(a), ns, of); (void)r; }), "a shape within the original's memory is accepted");
    return;
  }
#else
  if (!ok) return;
#endif
  {
    array<int, N, Al> r = move_reinterpret_shape(std::move(a), ns, of);
    CHECKM(r.base() == b + of && r.shape() == ns, "base + offset, new shape");
    CHECKM(vs_live() == lv, "the allocation is transferred");
    CHECKM(a.base() == nullptr, "the source has no memory");
    RD n[R + 1] = {};
    rd(ns, n);
    i64 tot = prod(n, R), v[R + 1];
    for (i64 e = 0; e < tot; e++) {
      i64 q = e;
      for (size_t d = 0; d < R; d++) { v[d] = n[d].min + q % n[d].ext; q /= n[d].ext; }
      CHECKM(r[tup<R>(v)] == 100 - fm + of + off(n, R, v), "elements are the original memory");
    }
  }
  CHECKM(vs_live() == lv - 1, "released once");
  if (vs_choose("reuse", 0, 1)) {
    A c(os, 5);
    a = c;
    CHECKM(a == c, "the source can be assigned");
  }
  vs_reach("moved");
}
VS_HARNESS(P20_move_g1) {
  vs_opt("forkselect", 1);
  {
    i64 n = vs_choose("n", 1, 4), os = vs_choose("old stride", 0, 1) ? 1 : -1;
    array_of_rank<int, 1, Pal<int, false>> a(G1(dim<>(vs_sym("min", -9, 9), n, os)));
    i64 e = vs_choose("new ext", 1, 4), s = vs_choose("str", -2, 2), of = vs_choose("offset", -3, 3);
    i64 lo = of + (s < 0 ? (e - 1) * s : 0), hi = of + (s > 0 ? (e - 1) * s : 0);
    bool ok = os > 0 ? lo >= 0 && hi < n : lo > -n && hi <= 0;
    t_move(a, G1(dim<>(vs_sym("new min", -9, 9), e, s)), of, ok);
  }
  CHECKM(vs_live() == 0, "no leak");
}
VS_HARNESS(P20_move_d1g2) {
  vs_opt("forkselect", 1);
  {
    array<int, dense_shape<1>, Pal<int>> a(dense_shape<1>(6), Pal<int>(3));
    i64 x = vs_choose("x", 1, 3), y = vs_choose("y", 1, 2), sx = vs_choose("sx", 1, 2), sy = vs_choose("sy", 2, 3), of = vs_choose("offset", -1, 3);
    i64 hi = of + (x - 1) * sx + (y - 1) * sy;
    t_move(a, G2(dim<>(0, x, sx), dim<>(vs_sym("new min", -9, 9), y, sy)), of, of >= 0 && hi < 6);
  }
  CHECKM(vs_live() == 0, "no leak");
}
VS_HARNESS(P20_move_fixed) { // static shapes
  vs_opt("forkselect", 1);
  {
    array<int, shape<dim<0, 6, 1>>, Pal<int>> a;
    i64 of = vs_choose("offset", -2, 4);
    t_move(a, shape<dim<0, 2, 1>, dim<0, 2, 2>>(), of, of >= 0 && of + 3 < 6);
  }
  CHECKM(vs_live() == 0, "no leak");
}
VS_HARNESS(P20_move_conv) { // the variant that converts the shape
  vs_opt("forkselect", 1);
  {
    i64 x = vs_choose("x", 0, 2), y = vs_choose("y", 0, 2);
    array_of_rank<int, 2, Pal<int>> a(G2(dim<>(0, x, 1), dim<>(0, y)), Pal<int>(2));
    int* b = a.base();
    auto r = move_reinterpret_shape<dense_shape<2>>(std::move(a));
    CHECKM(r.base() == b && a.base() == nullptr && r.width() == x && r.height() == y, "transferred");
  }
  CHECKM(vs_live() == 0, "no leak");
  vs_reach("conv");
}
