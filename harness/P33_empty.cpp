// BOUND: references to empty shapes: rank 1-3, at least one extent zero, the others 0..3; mins |m| <= 2^20, strides |s| <= 2^10 of either sign or zero (and static, dense, broadcast); null and non-null (never dereferenceable) bases; every traversal, copy, view and comparison operation
// BOUND: arrays: empty shapes as above (rank 2: extents 0..1) (strides also unresolved) reached by default construction, construction, assignment, clear and being moved from, then one or two of 16 operations, then reuse with elements
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
static i64 g_user; // calls of user functions, constructors, destructors and assignments of elements
struct El {
  int v;
  El() : v(7) { g_user++; }
  El(int x) : v(x) { g_user++; }
  El(const El& o) : v(o.v) { g_user++; }
  El(El&& o) : v(o.v) { g_user++; }
  El& operator=(const El& o) { v = o.v; g_user++; return *this; }
  El& operator=(El&& o) { v = o.v; g_user++; return *this; }
  ~El() { g_user++; }
  bool operator!=(const El& o) const { g_user++; return v != o.v; }
  bool operator==(const El& o) const { g_user++; return v == o.v; }
};
static const i64 SM = P2(20), SS = P2(10);
#ifdef NDARRAY_INT_INDICES
static const Rng G = {P2(16), 0, 3, -SS, SS};
#else
static const Rng G = {SM, 0, 3, -SS, SS};
#endif

static const Rng GA = {G.m, 0, 1, G.slo, G.shi}; // for arrays of rank 2
template <class S> static const Rng& ga() { return S::rank() > 1 ? GA : G; }
// A shape with at least one extent of zero.
template <class S>
static S mk_empty(RD* r, const Rng& g = G) {
  S s = mkc<S>(r, g);
  bool e = false;
  for (size_t k = 0; k < S::rank(); k++) e |= r[k].ext == 0;
  ASSUME(e);
  return s;
}
template <class S, size_t... Is>
static void views(const array_ref<El, S>& a, const RD* r, std::index_sequence<Is...>) {
  // crop to all, to nothing; slice where there is an index
  auto c = a(interval<>((index_t)r[Is].min, (index_t)r[Is].ext)...);
  CHECKM(c.empty() && c.shape().empty(), "a crop of nothing is empty");
  if (a.base() == nullptr) CHECKM(c.base() == nullptr, "a view of a null reference is null");
  c.for_each_value([](El&) { g_user++; });
  auto d = a(interval<>((index_t)r[Is].min, 0)...);
  CHECKM(d.empty() && d.shape().empty(), "an empty crop is empty");
  if (a.base() == nullptr) CHECKM(d.base() == nullptr, "a view of a null reference is null");
  d.for_each_value([](El&) { g_user++; });
}
template <class S> static void slice_views(const array_ref<El, S>&, const RD*, std::integral_constant<size_t, 1>) {}
template <class S>
static void slice_views(const array_ref<El, S>& a, const RD* r, std::integral_constant<size_t, 2>) {
  if (r[0].ext > 0) {
    auto c = a((index_t)r[0].min, _);
    CHECKM(c.shape().empty() && c.empty(), "a slice of nothing is empty");
    if (a.base() == nullptr) CHECKM(c.base() == nullptr, "a view of a null reference is null");
    c.for_each_value([](El&) { g_user++; });
  }
  if (r[1].ext > 0) {
    auto c = a(_, (index_t)r[1].max());
    CHECKM(c.shape().empty() && c.empty(), "a slice of nothing is empty");
    if (a.base() == nullptr) CHECKM(c.base() == nullptr, "a view of a null reference is null");
    c.for_each_value([](El&) { g_user++; });
  }
}
template <class S>
static void slice_views(const array_ref<El, S>& a, const RD* r, std::integral_constant<size_t, 3>) {
  if (r[1].ext > 0 && (r[0].ext == 0 || r[2].ext == 0)) {
    auto c = a(_, (index_t)r[1].min, _);
    CHECKM(c.shape().empty() && c.empty(), "a slice of nothing is empty");
    if (a.base() == nullptr) CHECKM(c.base() == nullptr, "a view of a null reference is null");
    c.for_each_value([](El&) { g_user++; });
  }
}
template <class S>
static auto transposed(const array_ref<El, S>& a, std::integral_constant<size_t, 1>) { return transpose<0>(a); }
template <class S>
static auto transposed(const array_ref<El, S>& a, std::integral_constant<size_t, 2>) { return transpose<1, 0>(a); }
template <class S>
static auto transposed(const array_ref<El, S>& a, std::integral_constant<size_t, 3>) { return transpose<2, 0, 1>(a); }

struct Count { template <class... A> void operator()(A&&...) const { g_user++; } };
struct Gen { int operator()() const { g_user++; return 1; } };
struct GenI { template <class... A> int operator()(A&&...) const { g_user++; return 1; } };

enum { N_REF = 16 };
template <class S>
static void t_ref() {
  vs_opt("forkselect", 1);
  typedef std::integral_constant<size_t, S::rank()> R;
  RD r[4];
  S s = mk_empty<S>(r);
  El* base = vs_choose("null", 0, 1) ? nullptr : (El*)vs_abstract(1);
  array_ref<El, S> a(base, s);
  CHECKM(a.empty() && a.shape().empty() && a.size() == 0, "empty");
  CHECKM(a.base() == base && a.cref().base() == base, "base");
  i64 l0 = vs_live();
  g_user = 0;
  switch (vs_choose("op", 0, N_REF - 1)) {
  case 0: a.for_each_value([](El&) { g_user++; }); break;
  case 1: for_each_index(a.shape(), Count()); break;
  case 2: for_all_indices(a.shape(), Count()); break;
  case 3: { array_ref<int, S> ai((int*)base, s); fill(ai, 3); break; }
  case 4: generate(a, Gen()); break;
  case 5: transform_index(a, GenI()); break;
  case 6: transform_indices(a, GenI()); break;
  case 7: { // copy and move to and from an empty one of any other bounds
    RD q[4];
    array_ref<El, S> b(vs_choose("null", 0, 1) ? nullptr : (El*)vs_abstract(2), mk_empty<S>(q));
    copy(a, b);
    move(a, b);
    bool same = true;
    for (size_t k = 0; k < S::rank(); k++) same = same & (q[k].min == r[k].min) & (q[k].ext == r[k].ext);
    CHECKM(equal(a, b) == same, "empty references are equal if their bounds are");
    CHECKM((a == b) == (a.cref() == b.cref()), "comparison");
    break;
  }
  case 8: { array_ref<El, S> b(a); CHECKM(a == b && !(a != b) && equal(a, b), "equal to itself"); break; }
  case 9: {
    array_ref<El, shape_of_rank<S::rank()>> g = a;
    CHECKM(g.base() == base && g.empty(), "converted");
    g.for_each_value([](El&) { g_user++; });
    auto c = convert_shape<shape_of_rank<S::rank()>>(a);
    CHECKM(c.base() == base && c.empty(), "converted");
    break;
  }
  case 10: { auto t = transposed(a, R()); CHECKM(t.base() == base && t.empty(), "transposed"); t.for_each_value([](El&) { g_user++; }); break; }
  case 11: { auto c = make_copy(a); CHECKM(c.empty() && equal(a, c), "copy"); break; }
  case 12: { auto c = make_compact_copy(a); CHECKM(c.empty() && equal(a, c), "compact copy"); break; }
  case 13: { views(a, r, std::make_index_sequence<S::rank()>()); slice_views(a, r, R()); break; }
  case 14: { auto u = reinterpret<unsigned>(a); CHECKM((void*)u.base() == (void*)base && u.empty(), "reinterpreted"); auto k = reinterpret_const<El>(a.cref()); CHECKM(k.base() == base, "reinterpreted"); break; }
  default: {
    auto c = make_copy(a, make_compact(a.shape()), std::allocator<El>());
    CHECKM(c.empty(), "copy");
    auto m = make_move(a, a.shape());
    CHECKM(m.empty(), "move");
    break;
  }
  }
  CHECKM(g_user == 0, "no user function is called for an empty array");
  CHECKM(vs_live() == l0, "nothing stays allocated");
  vs_reach("ref");
}
VS_HARNESS(P33_ref1) { t_ref<shape_of_rank<1>>(); }
VS_HARNESS(P33_ref2) { t_ref<shape_of_rank<2>>(); }
VS_HARNESS(P33_ref3) { vs_opt("forkselect", 1); t_ref<shape<dense_dim<>, dim<>, dim<dynamic, 0>>>(); }
VS_HARNESS(P33_ref_dense) { t_ref<dense_shape<2>>(); }
VS_HARNESS(P33_ref_neg) { t_ref<shape<dim<>, dim<dynamic, dynamic, -2>>>(); }
VS_HARNESS(P33_ref_bcast) { t_ref<shape<broadcast_dim<>, dense_dim<>>>(); }
VS_HARNESS(P33_ref_static) { t_ref<shape<dim<0, 0, 1>, dim<>>>(); }

// Null references of any shape type: default constructed, or of a non-empty shape.
template <class S>
static void t_null() {
  array_ref<El, S> a;
  const_array_ref<El, S> c;
  CHECKM(a.base() == nullptr && a.empty() && c.base() == nullptr && c.empty(), "a default constructed reference is null and empty");
  array_ref<El, S> b(a), d;
  d = b;
  CHECKM(b.base() == nullptr && d.base() == nullptr, "copies of null references are null");
  CHECKM(b.empty() && d.empty(), "copies of null references are empty");
  const_array_ref<El, S> e = a;
  CHECKM(e.base() == nullptr && e.empty(), "null to const");
  auto u = reinterpret<unsigned>(a);
  CHECKM(u.base() == nullptr && u.empty(), "reinterpreted");
  vs_reach("null");
}
VS_HARNESS(P33_null) {
  switch (vs_choose("type", 0, 6)) {
  case 0: t_null<shape<>>(); break;
  case 1: t_null<shape_of_rank<1>>(); break;
  case 2: t_null<shape_of_rank<3>>(); break;
  case 3: t_null<dense_shape<2>>(); break;
  case 4: t_null<shape<dim<0, 3, 1>, dim<2, 4, 3>>>(); break;
  case 5: t_null<shape<dim<dynamic, 5>>>(); break;
  default: t_null<shape<broadcast_dim<>>>(); break;
  }
}
VS_HARNESS(P33_null_nonempty) { // a null reference with a shape that has elements
  RD r[2];
  shape_of_rank<2> s = mk<shape_of_rank<2>>(r, Rng{SM, 1, P2(10), -SS, SS});
  array_ref<El, shape_of_rank<2>> a(nullptr, s);
  CHECKM(a.base() == nullptr && a.empty(), "a null reference is empty");
  CHECKM((a.dim<0>().extent() == r[0].ext) & (a.dim<1>().min() == r[1].min), "its shape is kept");
  auto c = a(interval<>((index_t)r[0].min, (index_t)r[0].ext), _);
  CHECKM(c.base() == nullptr && c.empty(), "a view of a null reference is null");
  auto t = transpose<1, 0>(a);
  CHECKM(t.base() == nullptr && t.empty(), "a view of a null reference is null");
  auto l = a(_, (index_t)(r[1].min + r[1].ext - 1));
  CHECKM(l.base() == nullptr && l.empty(), "a view of a null reference is null");
  vs_reach("null_nonempty");
}

// Owning arrays.
template <class S> struct fullshape;
template <> struct fullshape<shape_of_rank<1>> { static shape_of_rank<1> get() { return shape_of_rank<1>(2); } };
template <> struct fullshape<shape_of_rank<2>> { static shape_of_rank<2> get() { return shape_of_rank<2>(2, dim<>(0, 1)); } };
template <> struct fullshape<dense_shape<2>> { static dense_shape<2> get() { return dense_shape<2>(1, 2); } };
template <> struct fullshape<shape<dim<>, dim<dynamic, dynamic, -2>>> { static shape<dim<>, dim<dynamic, dynamic, -2>> get() { return shape<dim<>, dim<dynamic, dynamic, -2>>(dim<>(0, 2, 1), dim<dynamic, dynamic, -2>(0, 1)); } };

template <class A>
static void is_empty(const A& a, bool nomem) {
  CHECKM(a.empty() && a.size() == 0 && a.shape().empty(), "empty");
  CHECKM(a.cref().empty(), "empty");
  if (nomem) CHECKM(a.base() == nullptr && a.data() == nullptr, "no memory, null base");
  CHECKM(a.base() == nullptr || vs_live() > 0, "a non-null base is memory");
}
template <class A>
static void is_empty_int(const A& a) { CHECKM(a.empty() && a.size() == 0 && (a.base() == nullptr || vs_live() > 0), "empty"); }
enum { N_ARR = 16 };
template <class A>
static void op(int k, A& a, A& b) {
  typedef typename A::shape_type S;
  i64 u = g_user;
  switch (k) {
  case 0: a = (const A&)b; is_empty(a, false); break;
  case 1: a = std::move(b); is_empty(a, false); is_empty(b, false); break;
  case 2: a.assign((const A&)b); break;
  case 3: a.assign(std::move(b)); break;
  case 4: swap(a, b); break;
  case 5: a.clear(); is_empty(a, true); break;
  case 6: { RD q[4]; a.reshape(mk_empty<S>(q, ga<S>())); is_empty(a, false); for (size_t d = 0; d < S::rank(); d++) CHECKM(a.dim(d).min() == q[d].min && a.dim(d).extent() == q[d].ext, "reshaped"); break; }
  case 7: { A c((const A&)a); is_empty(c, false); CHECKM(c == a && !(c != a), "a copy is equal"); break; }
  case 8: { A c(std::move(a)); is_empty(c, false); is_empty(a, true); break; }
  case 9: a.for_each_value([](El&) { g_user++; }); ((const A&)a).for_each_value([](const El&) { g_user++; }); break;
  case 10: generate(a, Gen()); break;
  case 11: { copy(a, b); move(b, a); break; }
  case 12: { auto c = make_compact_copy(a); is_empty(c, false); auto m = make_move(a, a.shape()); is_empty(m, false); break; }
  case 13: { array<int, S> c(a.shape()); c.set_shape(c.shape()); is_empty_int(c); array<int, S> d(c); is_empty_int(d); break; }
  case 14: { bool e = true; for (size_t d = 0; d < S::rank(); d++) e = e & (a.dim(d).min() == b.dim(d).min()) & (a.dim(d).extent() == b.dim(d).extent()); CHECKM(equal(a, b) == e, "equal"); break; }
  default: { RD q[4]; A c(mk_empty<S>(q, ga<S>())); is_empty(c, false); a = std::move(c); is_empty(a, false); break; }
  }
  CHECKM(g_user == u, "no element or user function is touched for an empty array");
}
template <class A>
static void start(A& x, int kind) {
  typedef typename A::shape_type S;
  RD r[4];
  switch (kind) {
  case 0: break;
  case 1: { A t(mk_empty<S>(r, ga<S>())); is_empty(t, false); x = std::move(t); break; }
  case 2: { x = A(fullshape<S>::get()); A t(std::move(x)); break; } // moved-from
  case 3: { x = A(fullshape<S>::get()); x.clear(); break; }
  default: { El v(5); x.assign(mk_empty<S>(r, ga<S>()), v); break; }
  }
}
template <class A>
static void t_arr(int starts, int starts_b, int ops) {
  typedef typename A::shape_type S;
  vs_opt("forkselect", 1);
  {
    A a, b;
    is_empty(a, true);
    start(a, vs_choose("start a", 0, starts));
    start(b, vs_choose("start b", 0, starts_b));
    is_empty(a, false);
    int k = 0;
    for (int n = 0; n < ops; n++) op(k = vs_choose("op", 0, N_ARR - 1), a, b);
    // and it can still be used
    if (k & 1) a.reshape(fullshape<S>::get());
    else { El v(9); a.assign(fullshape<S>::get(), v); }
    i64 n = 0, full = 2;
    a.for_each_value([&](El&) { n++; });
    CHECKM(n == full && !a.empty() && a.base() != nullptr, "an empty array can be given elements");
  }
  CHECKM(vs_live() == 0, "everything is released");
  vs_reach("arr");
}
VS_HARNESS(P33_arr1) { t_arr<array<El, shape_of_rank<1>>>(4, 1, 1); }
VS_HARNESS(P33_arr2) { t_arr<array<El, shape_of_rank<2>>>(VS_T(0, 3), 0, 1); }
VS_HARNESS(P33_arr_dense) { t_arr<array<El, dense_shape<2>>>(4, VS_T(0, 1), 1); }
VS_HARNESS(P33_arr_neg) { t_arr<array<El, shape<dim<>, dim<dynamic, dynamic, -2>>>>(4, VS_T(0, 1), 1); }
VS_HARNESS(P33_arr1_two) { t_arr<array<El, shape_of_rank<1>>>(VS_T(0, 2), 0, 2); }
