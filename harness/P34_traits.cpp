// BOUND: user-specialised shape_traits / copy_shape_traits of shapes of rank 1 to 3 with one static dimension; extents 0..3 case split (rank 3: 0..2), mins symbolic in |m| <= 2^20, strides symbolic in |s| <= 2^10 for references and resolved by the library for arrays; the order of the user's traits is the reverse of the default with the dimensions exchanged
// BOUND: what is not checked: that equal, ==, construction and reshape go through the user's traits (only that their results are right)
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
static const i64 MM = P2(20), SS = P2(10);
using T1 = shape<dim<dynamic, dynamic, 7>>;
using T1d = shape<dim<dynamic, dynamic, 1>>;
using T2 = shape<dim<>, dim<dynamic, 3>>;
using T2b = shape<dim<dynamic, 2>, dim<>>;
using T3 = shape<dim<>, dim<dynamic, 2>, dim<>>;

struct Log {
  i64 index = 0, value = 0, copies = 0;
};
static Log lg;
// The order of the user's traits: the first dimension outermost, every dimension backwards.
template <class F> void rev(const T1& s, F&& f) {
  for (index_t i = 0; i < s.template dim<0>().extent(); i++) f(index_of_rank<1>(s.template dim<0>().max() - i));
}
template <class F> void rev(const T1d& s, F&& f) {
  for (index_t i = 0; i < s.template dim<0>().extent(); i++) f(index_of_rank<1>(s.template dim<0>().max() - i));
}
template <class S, class F> void rev2(const S& s, F&& f) {
  for (index_t i = 0; i < s.template dim<0>().extent(); i++)
    for (index_t j = 0; j < s.template dim<1>().extent(); j++) f(index_of_rank<2>(s.template dim<0>().max() - i, s.template dim<1>().max() - j));
}
template <class F> void rev(const T2& s, F&& f) { rev2(s, f); }
template <class F> void rev(const T2b& s, F&& f) { rev2(s, f); }
template <class F> void rev(const T3& s, F&& f) {
  for (index_t i = 0; i < s.template dim<0>().extent(); i++)
    for (index_t j = 0; j < s.template dim<1>().extent(); j++)
      for (index_t k = 0; k < s.template dim<2>().extent(); k++)
        f(index_of_rank<3>(s.template dim<0>().max() - i, s.template dim<1>().max() - j, s.template dim<2>().max() - k));
}
template <class S>
struct MyTraits {
  using shape_type = S;
  template <class Fn> static void for_each_index(const S& s, Fn&& fn) { lg.index++; rev(s, fn); }
  template <class Ptr, class Fn> static void for_each_value(const S& s, Ptr base, Fn&& fn) {
    lg.value++;
    rev(s, [&](const typename S::index_type& i) { fn(base[s[i]]); });
  }
};
template <class S, class D>
struct MyCopy {
  template <class Fn, class A, class B>
  static void for_each_value(const S& s, A src, const D& d, B dst, Fn&& fn) {
    lg.copies++;
    rev(d, [&](const typename D::index_type& i) { fn(src[s[i]], dst[d[i]]); });
  }
};
namespace nda {
template <> class shape_traits<T1> : public MyTraits<T1> {};
template <> class shape_traits<T1d> : public MyTraits<T1d> {};
template <> class shape_traits<T2> : public MyTraits<T2> {};
template <> class shape_traits<T2b> : public MyTraits<T2b> {};
template <> class shape_traits<T3> : public MyTraits<T3> {};
template <> class copy_shape_traits<T2, T2b> : public MyCopy<T2, T2b> {};
template <> class copy_shape_traits<T2, T2> : public MyCopy<T2, T2> {};
template <> class copy_shape_traits<T1, T1d> : public MyCopy<T1, T1d> {};
template <> class copy_shape_traits<T3, T3> : public MyCopy<T3, T3> {};
} // namespace nda

// the k-th index of the user's order
template <size_t R>
void nth(const RD* r, i64 k, i64* v) {
  for (size_t d = R; d-- > 0;) { v[d] = r[d].min + r[d].ext - 1 - k % r[d].ext; k /= r[d].ext; }
}
template <size_t R>
struct Seq {
  const RD* r;
  i64 n = 0;
  void call(const i64* v) {
    CHECKM(n < prod(r, R), "not more calls than indices");
    if (n >= prod(r, R)) return;
    i64 w[R + 1];
    nth<R>(r, n++, w);
    for (size_t d = 0; d < R; d++) CHECKM(v[d] == w[d], "the order is that of the shape's traits");
  }
};
template <size_t R, size_t... Is>
void untup(const index_of_rank<R>& t, i64* v, std::index_sequence<Is...>) { i64 u[] = {0, (v[Is] = std::get<Is>(t))...}; (void)u; }
template <size_t R> struct each { Seq<R>* o; int operator()(const index_of_rank<R>& t) const { i64 v[R + 1]; untup<R>(t, v, std::make_index_sequence<R>()); o->call(v); return (int)o->n; } };
template <size_t R, class S> struct list_;
template <size_t R, size_t... Is>
struct list_<R, std::index_sequence<Is...>> {
  Seq<R>* o;
  template <size_t> using ix = index_t;
  int operator()(ix<Is>... a) const { i64 v[] = {(i64)a..., 0}; o->call(v); return (int)o->n; }
};
template <size_t R> using list = list_<R, std::make_index_sequence<R>>;

template <class S>
void t_index(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  const S s = mkc<S>(r, Rng{MM, 0, emax, -SS, SS});
  lg = Log();
  Seq<R> o{r};
  if (vs_choose("tuple", 0, 1)) for_each_index(s, each<R>{&o});
  else for_all_indices(s, list<R>{&o});
  CHECKM(o.n == prod(r, R), "as many calls as indices");
  CHECKM(o.n == 0 || lg.index >= 1, "through the traits of the shape");
  vs_trace("calls", o.n);
  if (o.n > 2) vs_reach("index");
}
VS_HARNESS(P34_index1) { t_index<T1>(3); }
VS_HARNESS(P34_index2) { t_index<T2>(3); }
VS_HARNESS(P34_index2b) { t_index<T2b>(3); }
VS_HARNESS(P34_index3) { t_index<T3>(VS_T(2, 3)); }

// for_each_value of references and arrays, and what is defined by it
template <class S>
void t_value(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  const S s = mkc<S>(r, Rng{MM, 0, emax, -SS, SS});
  int* base = (int*)vs_abstract(1);
  lg = Log();
  i64 n = 0;
  auto see = [&](const int* at) {
    i64 w[R + 1];
    CHECKM(n < prod(r, R), "not more calls than elements");
    if (n >= prod(r, R)) return;
    nth<R>(r, n++, w);
    CHECKM(at == base + off(r, R, w), "the values come in the order of the shape's traits");
  };
  if (vs_choose("const", 0, 1)) {
    const array_ref<const int, S> a(base, s);
    a.for_each_value([&](const int& x) { see(&x); });
  } else {
    array_ref<int, S> a(base, s);
    a.for_each_value([&](int& x) { see(&x); });
  }
  CHECKM(n == prod(r, R), "as many calls as elements");
  CHECKM(n == 0 || lg.value >= 1, "through the traits of the shape");
  vs_trace("calls", n);
  if (n > 2) vs_reach("value");
}
VS_HARNESS(P34_value1) { t_value<T1>(3); }
VS_HARNESS(P34_value2) { t_value<T2>(3); }
VS_HARNESS(P34_value3) { t_value<T3>(VS_T(2, 3)); }

// arrays with the user's traits: construction, traversal, generate, fill and index transforms
template <class S>
void t_array(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  const S s = mkc<S>(r, Rng{MM, 0, emax, unresolved, unresolved});
  int x0 = (int)vs_sym("x", -100, 100);
  array<int, S> a(s, x0);
  rd(a.shape(), r);
  const i64 n = prod(r, R);
  auto at = [&](i64 k) -> int& { i64 w[R + 1]; nth<R>(r, k, w); return a[tup<R>(w)]; };
  for (i64 k = 0; k < n; k++) CHECKM(at(k) == x0, "construction sets every element");
  lg = Log();
  Seq<R> o{r};
  i64 c = 0;
  switch (vs_choose("op", 0, 7)) {
  case 0: generate(a, [&] { return (int)c++; }); CHECKM(c == n, "one call per element"); for (i64 k = 0; k < n; k++) CHECKM(at(k) == k, "generated in the order of the traits"); CHECKM(n == 0 || lg.value >= 1, "generate"); break;
  case 1: generate(a.ref(), [&] { return (int)c++; }); CHECKM(c == n, "one call per element"); for (i64 k = 0; k < n; k++) CHECKM(at(k) == k, "generated in the order of the traits"); CHECKM(n == 0 || lg.value >= 1, "generate"); break;
  case 2: fill(a, 5); for (i64 k = 0; k < n; k++) CHECKM(at(k) == 5, "filled"); break;
  case 3: transform_index(a, each<R>{&o}); CHECKM(o.n == n, "all"); for (i64 k = 0; k < n; k++) CHECKM(at(k) == k + 1, "transformed in the order of the traits"); break;
  case 4: transform_indices(a.ref(), list<R>{&o}); CHECKM(o.n == n, "all"); for (i64 k = 0; k < n; k++) CHECKM(at(k) == k + 1, "transformed in the order of the traits"); break;
  case 5: a.for_each_value([&](int& v) { v = (int)c++; }); CHECKM(c == n, "all"); for (i64 k = 0; k < n; k++) CHECKM(at(k) == k, "array values in the order of the traits"); break;
  case 6: {
    const array<int, S>& ca = a;
    for (i64 k = 0; k < n; k++) at(k) = (int)k;
    ca.for_each_value([&](const int& v) { CHECKM(v == c, "const array values in the order of the traits"); c++; });
    CHECKM(c == n, "all");
    break;
  }
  case 7: {
    for (i64 k = 0; k < n; k++) at(k) = (int)k;
    array<int, S> b(a), d;
    d = b;
    CHECKM(b == a && equal(d, a), "copies are equal");
    array<int, S> e(std::move(b));
    CHECKM(e == d, "moved");
    if (n) { d[d.shape().max()] = -1; CHECKM(d != a && !equal(a, d), "a change shows"); }
    break;
  }
  }
  if (n > 2) vs_reach("array");
}
VS_HARNESS(P34_array1) { t_array<T1d>(3); }
VS_HARNESS(P34_array1s) { t_array<T1>(3); }
VS_HARNESS(P34_array2) { t_array<T2>(3); }
VS_HARNESS(P34_array2b) { t_array<T2b>(3); }
VS_HARNESS(P34_array3) { t_array<T3>(2); }

// copies and moves between two shape types go through the traits of that pair
template <class S, class D>
void t_copy(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {}, q[R + 1] = {};
  const D d = mkc<D>(q, Rng{MM, 0, emax, unresolved, unresolved});
  S s = S(d.bounds());
  array<int, S> a(s);
  rd(a.shape(), r);
  const i64 n = prod(r, R);
  for (i64 k = 0; k < n; k++) { i64 w[R + 1]; nth<R>(r, k, w); a[tup<R>(w)] = (int)k; }
  array<int, D> b(d, -1);
  lg = Log();
  int op = (int)vs_choose("op", 0, 4);
  if (op == 0) copy(a, b);
  if (op == 1) copy(a.cref(), b.ref());
  if (op == 2) move(a, b);
  if (op == 3) move(a.ref(), b.ref());
  if (op == 4) b = make_copy(a, d);
  for (i64 k = 0; k < n; k++) { i64 w[R + 1]; nth<R>(r, k, w); CHECKM(b[tup<R>(w)] == k, "each element at its own index"); }
  if (n) {
    CHECKM(lg.copies >= 1, "through the traits of the pair of shapes");
    vs_reach("copy");
  }
}
VS_HARNESS(P34_copy2) { t_copy<T2, T2>(3); }
VS_HARNESS(P34_copy1) { t_copy<T1, T1d>(3); }
VS_HARNESS(P34_copy3) { t_copy<T3, T3>(2); }
VS_HARNESS(P34_copy2b) {
  // 2x3 of T2b from T2
  i64 m0 = vs_sym("m0", -MM, MM), m1 = vs_sym("m1", -MM, MM);
  T2 s(dim<>((index_t)m0, 2), dim<dynamic, 3>((index_t)m1, 3));
  T2b d(dim<dynamic, 2>((index_t)m0, 2), dim<>((index_t)m1, 3));
  array<int, T2> a(s);
  for (i64 i = 0; i < 2; i++) for (i64 j = 0; j < 3; j++) a((index_t)(m0 + i), (index_t)(m1 + j)) = (int)(10 * i + j);
  array<int, T2b> b(d, -1);
  lg = Log();
  if (vs_choose("move", 0, 1)) move(a, b);
  else copy(a, b);
  CHECKM(lg.copies >= 1, "through the traits of the pair of shapes");
  for (i64 i = 0; i < 2; i++) for (i64 j = 0; j < 3; j++) CHECKM(b((index_t)(m0 + i), (index_t)(m1 + j)) == 10 * i + j, "each element at its own index");
  vs_reach("copy2b");
}
