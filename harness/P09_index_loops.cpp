// BOUND: ranks 5 and 6 with some static extents and selected loop orders; extents up to 130 (thorough 520) from a list in ranks 1-3
// BOUND: ranks 0-4, extents 0..9 (rank 1), 0..5 (rank 2), 0..4 (rank 3), 0..2 (rank 4) case split, |min| <= 2^40 symbolic; every loop order permutation up to rank 3 and all 24 of rank 4; generic, matrix, chunky and planar image shapes
// VSCONFIG: -
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;
#ifdef NDARRAY_INT_INDICES
static const i64 MM = P2(20);
#else
static const i64 MM = P2(40);
#endif

// Checks that call number n has the n-th index of the nest whose innermost loop is dim ord[0].
template <size_t R>
struct Order {
  const RD* r;
  const size_t* ord;
  i64 n = 0;
  void call(const i64* v) {
    i64 k = n++;
    for (size_t l = 0; l < R; l++) {
      const RD& d = r[ord[l]];
      CHECKM(d.ext > 0, "no call for an empty shape");
      CHECKM(v[ord[l]] == d.min + k % d.ext, "the n-th call has the n-th index in order");
      k /= d.ext;
    }
    CHECKM(k == 0, "not more calls than indices");
  }
  void done() {
    CHECKM(n == prod(r, R), "as many calls as indices");
  }
};
template <size_t R, size_t... Is>
void untup(const index_of_rank<R>& t, i64* v, std::index_sequence<Is...>) { i64 u[] = {0, (v[Is] = std::get<Is>(t))...}; (void)u; (void)v; (void)t; }
template <size_t R>
struct each { Order<R>* o; void operator()(const index_of_rank<R>& t) const { i64 v[R + 1]; untup<R>(t, v, std::make_index_sequence<R>()); o->call(v); } };
template <size_t R, class Seq> struct list_;
template <size_t R, size_t... Is>
struct list_<R, std::index_sequence<Is...>> {
  Order<R>* o;
  template <size_t> using ix = index_t;
  void operator()(ix<Is>... a) const { i64 v[] = {(i64)a..., 0}; o->call(v); }
};
template <size_t R> using list = list_<R, std::make_index_sequence<R>>;

template <class S, size_t... Ord>
void t_order(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  const S s = mkc<S>(r, Rng{MM, 0, emax, -100, 100});
  size_t ord[R + 1] = {Ord...};
  if (sizeof...(Ord) == 0) for (size_t i = 0; i < R; i++) ord[i] = i;
  if (vs_choose("tuple", 0, 1)) {
    Order<R> o{r, ord};
    for_each_index<Ord...>(s, each<R>{&o});
    o.done();
    vs_trace("calls", o.n);
  } else {
    Order<R> o{r, ord};
    list<R> f{&o};
    for_all_indices<Ord...>(s, f);
    o.done();
    vs_trace("calls", o.n);
  }
  if (prod(r, R) == 0) vs_reach("empty");
  else vs_reach("order");
}
VS_HARNESS(P09_r0) { t_order<shape<>>(0); }
VS_HARNESS(P09_r1) { t_order<shape_of_rank<1>>(9); }
VS_HARNESS(P09_r2) { t_order<shape_of_rank<2>>(VS_T(5, 8)); }
VS_HARNESS(P09_r3) { t_order<shape_of_rank<3>>(VS_T(4, 5)); }
VS_HARNESS(P09_r4) { t_order<shape_of_rank<4>>(VS_T(2, 3)); }
VS_HARNESS(P09_r5) { t_order<shape<dim<>, dim<dynamic, 1>, dim<>, dim<0, 2>, dim<>>>(2); }
VS_HARNESS(P09_r6) { t_order<shape<dim<>, dim<dynamic, 2>, dim<dynamic, 1>, dim<0, 2>, dim<>, dim<dynamic, 2>>>(2); }
VS_HARNESS(P09_dense2) { t_order<dense_shape<2>>(3); }
VS_HARNESS(P09_dense4) { t_order<dense_shape<4>>(2); }
VS_HARNESS(P09_st2) { t_order<shape<dim<-1, 3>, dim<2>>>(3); }
VS_HARNESS(P09_st3) { t_order<shape<dim<3>, dim<dynamic, 2, -4>, dim<1, 3>>>(3); }
VS_HARNESS(P09_fixed) { t_order<fixed_dense_shape<2, 3, 2>>(3); }
VS_HARNESS(P09_zero) { t_order<shape<dim<>, dim<0, 0>>>(3); }
VS_HARNESS(P09_planar) { t_order<planar_image_shape>(2); }
VS_HARNESS(P09_image) { t_order<image_shape>(2); }
VS_HARNESS(P09_o1) { t_order<shape_of_rank<1>, 0>(4); }
VS_HARNESS(P09_o01) { t_order<shape_of_rank<2>, 0, 1>(3); }
VS_HARNESS(P09_o10) { t_order<shape_of_rank<2>, 1, 0>(3); }
VS_HARNESS(P09_o10s) { t_order<shape<dim<-1, 3>, dim<2>>, 1, 0>(3); }
VS_HARNESS(P09_o012) { t_order<shape_of_rank<3>, 0, 1, 2>(3); }
VS_HARNESS(P09_o021) { t_order<shape_of_rank<3>, 0, 2, 1>(3); }
VS_HARNESS(P09_o102) { t_order<shape_of_rank<3>, 1, 0, 2>(3); }
VS_HARNESS(P09_o120) { t_order<shape_of_rank<3>, 1, 2, 0>(3); }
VS_HARNESS(P09_o201) { t_order<shape_of_rank<3>, 2, 0, 1>(3); }
VS_HARNESS(P09_o210) { t_order<shape_of_rank<3>, 2, 1, 0>(3); }
VS_HARNESS(P09_o201s) { t_order<shape<dim<3>, dim<dynamic, 2, -4>, dim<1, 3>>, 2, 0, 1>(3); }
VS_HARNESS(P09_mat10) { t_order<matrix_shape<>, 0, 1>(3); }
VS_HARNESS(P09_chunky210) { t_order<chunky_image_shape<3>, 1, 2, 0>(3); }
#define P4(a, b, c, d) VS_HARNESS(P09_o4_##a##b##c##d) { t_order<shape_of_rank<4>, a, b, c, d>(2); }
P4(0,1,2,3) P4(0,1,3,2) P4(0,2,1,3) P4(0,2,3,1) P4(0,3,1,2) P4(0,3,2,1)
P4(1,0,2,3) P4(1,0,3,2) P4(1,2,0,3) P4(1,2,3,0) P4(1,3,0,2) P4(1,3,2,0)
P4(2,0,1,3) P4(2,0,3,1) P4(2,1,0,3) P4(2,1,3,0) P4(2,3,0,1) P4(2,3,1,0)
P4(3,0,1,2) P4(3,0,2,1) P4(3,1,0,2) P4(3,1,2,0) P4(3,2,0,1) P4(3,2,1,0)

VS_HARNESS(P09_o5_31420) { t_order<shape<dim<>, dim<dynamic, 2>, dim<0, 2>, dim<>, dim<dynamic, 1>>, 3, 1, 4, 2, 0>(2); }
VS_HARNESS(P09_o5_43210) { t_order<shape<dim<>, dim<dynamic, 2>, dim<0, 1>, dim<>, dim<dynamic, 3>>, 4, 3, 2, 1, 0>(2); }
VS_HARNESS(P09_o6) { t_order<shape<dim<>, dim<dynamic, 2>, dim<0, 1>, dim<>, dim<dynamic, 3>, dim<dynamic, 1>>, 2, 5, 3, 0, 4, 1>(2); }

// larger extents
template <class S, size_t... Ord>
void t_big() {
  constexpr size_t R = S::rank();
  vs_opt("forkselect", 1);
  i64 e[R + 1] = {}, m[R + 1] = {}, st[R + 1] = {};
  RD r[R + 1] = {};
  choose_exts<R>(e);
  for (size_t k = 0; k < R; k++) { m[k] = vs_sym("min", -MM, MM); st[k] = k == 0 ? 1 : 7; r[k] = RD{m[k], e[k], st[k]}; }
  S s = mkx<S>(m, e, st);
  size_t ord[R + 1] = {Ord...};
  if (sizeof...(Ord) == 0) for (size_t i = 0; i < R; i++) ord[i] = i;
  Order<R> o{r, ord};
  if (vs_choose("tuple", 0, 1)) for_each_index<Ord...>(s, each<R>{&o});
  else { list<R> f{&o}; for_all_indices<Ord...>(s, f); }
  o.done();
  vs_reach("big");
}
VS_HARNESS(P09_big1) { t_big<shape_of_rank<1>>(); }
VS_HARNESS(P09_big2) { t_big<dense_shape<2>>(); }
VS_HARNESS(P09_big3) { t_big<shape_of_rank<3>>(); }
VS_HARNESS(P09_big2o) { t_big<shape_of_rank<2>, 1, 0>(); }
VS_HARNESS(P09_big3o) { t_big<shape_of_rank<3>, 1, 2, 0>(); }
VS_HARNESS(P09_big5o) { t_big<shape_of_rank<5>, 4, 0, 3, 1, 2>(); }

// shapes with a specialised traversal: every index exactly once; images go through the channels innermost
template <class S>
void t_special(i64 emax, int inner) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  const S s = mkc<S>(r, Rng{MM, 0, emax, -100, 100});
  i64 n = prod(r, R), calls = 0;
  bool seen[4 * 4 * 4 + 1] = {};
  auto f = [&](const index_of_rank<R>& t) {
    i64 v[R + 1], k = 0;
    untup<R>(t, v, std::make_index_sequence<R>());
    for (size_t i = 0; i < R; i++) {
      i64 p = vs_conc(v[i] - r[i].min);
      CHECKM(0 <= p && p < r[i].ext, "index is in range");
      if (p < 0 || p >= r[i].ext) return;
      k = k * r[i].ext + p;
    }
    CHECKM(!seen[k], "index not visited before");
    seen[k] = true;
    if (inner >= 0) CHECKM(v[inner] == r[inner].min + calls % r[inner].ext, "channels are the innermost loop");
    calls++;
  };
  if (vs_choose("tuple", 0, 1)) for_each_index(s, f);
  else {
    for_all_indices(s, [&](auto... a) { f(index_of_rank<R>(a...)); });
  }
  CHECKM(calls == n, "every index visited");
  if (n) vs_reach("special");
}
VS_HARNESS(P09_matrix) { t_special<matrix_shape<>>(3, -1); }
VS_HARNESS(P09_matrix32) { t_special<matrix_shape<3, 2>>(3, -1); }
VS_HARNESS(P09_matrixr) { t_special<matrix_shape<2>>(3, -1); }
VS_HARNESS(P09_chunky) { t_special<chunky_image_shape<>>(3, 2); }
VS_HARNESS(P09_chunky3) { t_special<chunky_image_shape<3>>(2, 2); }
VS_HARNESS(P09_chunky34) { t_special<chunky_image_shape<3, 4>>(2, 2); }
VS_HARNESS(P09_chunkyx) { t_special<chunky_image_shape<dynamic, 4>>(2, 2); }

// the bounds of a shape and its dims iterate alike
VS_HARNESS(P09_dims) {
  RD r[3];
  const auto s = mkc<shape<dim<>, dense_dim<2>>>(r, Rng{MM, 0, 3, -100, 100});
  i64 n = 0;
  for (index_t y : s.y()) {
    i64 k = 0;
    for (index_t x : s.x()) { CHECKM((i64)x == r[0].min + k, "x"); k++; }
    CHECKM(k == r[0].ext && (i64)y == r[1].min + n, "y");
    n++;
  }
  CHECKM(n == r[1].ext, "count");
  vs_reach("dims");
}

// a callable object that is used twice
VS_HARNESS(P09_keep) {
  RD r[3] = {};
  auto s = mkc<shape<dim<>, dense_dim<>>>(r, Rng{MM, 0, 2, -100, 100});
  i64 n = 0, how = vs_choose("how", 0, 3), e = prod(r, 2);
  Keep f(&n);
  for (int k = 0; k < 2; k++) {
    if (how == 0) for_all_indices(s, f);
    else if (how == 1) for_each_index(s, f);
    else if (how == 2) for_all_indices<1, 0>(s, f);
    else for_each_index<1, 0>(s, f);
    CHECKM(n == (k + 1) * e, "count");
  }
  if (e > 1) vs_reach("keep");
}
