// BOUND: copy/move between views: ranks 0-4, destination extents 0..4 (rank 1), 0..3 (rank 2), 0..2 (ranks 3, 4) case split, source bounds up to 1 larger on each side, every stride of both sides symbolic in |s| <= 2^10 (static in the static shapes), any min; memory that must not be dereferenced except through the element's assignment operator
// BOUND: make_copy/make_compact_copy/make_move/make_compact_move: ranks 0-3, extents 0..3, concrete and padded strides, values read back
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;
static const i64 MM = P2(16), SS = P2(10);

// Element whose assignments are recorded.
struct Ev { const void* s; const void* d; int kind; };
static Ev g_ev[100];
static int g_n;
struct E {
  int v;
  E() = default;
  E(const E&) = default;
  E& operator=(const E& o) { g_ev[g_n++] = Ev{&o, this, 1}; return *this; }
  E& operator=(E&& o) { g_ev[g_n++] = Ev{&o, this, 2}; return *this; }
};
// Other element type that can be assigned from E.
struct F {
  int v;
  F& operator=(const E& o) { g_ev[g_n++] = Ev{&o, this, 1}; return *this; }
  F& operator=(E&& o) { g_ev[g_n++] = Ev{&o, this, 2}; return *this; }
};

static i64 g_so[100], g_do[100];
static int g_cnt;
static void expect(const RD* s, const RD* d, size_t R, size_t k, i64 so, i64 dof) {
  if (k == R) { g_so[g_cnt] = so; g_do[g_cnt++] = dof; return; }
  for (i64 p = 0; p < d[k].ext; p++) expect(s, d, R, k + 1, so + (d[k].min - s[k].min + p) * s[k].str, dof + p * d[k].str);
}
static void verify(const void* sb, const void* db, int kind) {
  bool used[100] = {};
  CHECKM(g_n == g_cnt, "as many assignments as destination indices");
  for (int e = 0; e < g_n; e++) {
    CHECKM(g_ev[e].kind == kind, "assigned by the right assignment operator");
    int hit = -1;
    for (int k = 0; k < g_cnt && hit < 0; k++)
      if (!used[k] && vs_must((g_ev[e].s == (const int*)sb + g_so[k]) & (g_ev[e].d == (const int*)db + g_do[k]))) hit = k;
    for (int k = 0; k < g_cnt && hit < 0; k++)
      if (!used[k] && (g_ev[e].s == (const int*)sb + g_so[k]) & (g_ev[e].d == (const int*)db + g_do[k])) hit = k;
    CHECKM(hit >= 0, "each destination element is assigned from the source element at its index");
    if (hit < 0) return;
    used[hit] = true;
  }
}

// how the source's bounds exceed the destination's
enum { PER_DIM, SHARED };
template <class SS_, class DS_, class TS = E, class TD = E>
void t_copy(i64 elo, i64 ehi, int mode = PER_DIM) {
  constexpr size_t R = SS_::rank();
  vs_opt("forkselect", 1);
  RD s[R + 1] = {}, d[R + 1] = {};
  DS_ dst = mkc<DS_>(d, Rng{MM, elo, ehi, -SS, SS});
  SS_ src = mk_shape<SS_>::go(s, Rng{2 * MM, 0, 8, -SS, SS}, std::make_index_sequence<R>());
  i64 a0 = mode == SHARED ? vs_choose("before", 0, 1) : 0, b0 = mode == SHARED ? vs_choose("after", 0, 1) : 0;
  bool nonempty = prod(d, R) != 0;
  if (nonempty)
    for (size_t k = 0; k < R; k++) {
      i64 a = mode == SHARED ? a0 : vs_choose("before", 0, 1), b = mode == SHARED ? b0 : vs_choose("after", 0, 1);
      ASSUME(s[k].min == d[k].min - a);
      ASSUME(s[k].ext == a + d[k].ext + b);
      s[k].ext = a + d[k].ext + b;
    }
  TS* sb = (TS*)vs_abstract(1);
  TD* db = (TD*)vs_abstract(2);
  g_n = 0; g_cnt = 0;
  expect(s, d, R, 0, 0, 0);
  bool mv = vs_choose("move", 0, 1);
  array_ref<TD, DS_> dr(db, dst);
  array_ref<TS, SS_> sr(sb, src);
  const_array_ref<TS, SS_> sc(sb, src);
  if (mv) nda::move(sr, dr);
  else if (vs_choose("const", 0, 1)) nda::copy(sc, dr);
  else nda::copy(sr, dr);
  vs_trace("n", g_n);
  verify(sb, db, mv ? 2 : 1);
  if (!nonempty) vs_reach("empty");
  if (g_cnt > 3) vs_reach("copied");
}
VS_HARNESS(P11_r0) { t_copy<shape<>, shape<>>(0, 0); }
VS_HARNESS(P11_r1) { t_copy<shape_of_rank<1>, shape_of_rank<1>>(0, 4); }
VS_HARNESS(P11_r2) { t_copy<shape_of_rank<2>, shape_of_rank<2>>(0, VS_T(3, 4)); }
VS_HARNESS(P11_r3) { t_copy<shape_of_rank<3>, shape_of_rank<3>>(0, 2, VS_T(SHARED, PER_DIM)); }
VS_HARNESS(P11_r4) { t_copy<shape<dim<>, dim<>, dim<dynamic, 2>, dim<dynamic, dynamic, 3>>, shape<dim<>, dim<>, dim<dynamic, dynamic, 1>, dim<dynamic, 2>>>(1, 2, SHARED); }
VS_HARNESS(P11_conv2) { t_copy<shape_of_rank<2>, shape_of_rank<2>, E, F>(0, 2); }
VS_HARNESS(P11_d1) { t_copy<dense_shape<1>, dense_shape<1>>(0, 4); }
VS_HARNESS(P11_d2) { t_copy<dense_shape<2>, dense_shape<2>>(0, VS_T(3, 4)); }
VS_HARNESS(P11_d2r2) { t_copy<dense_shape<2>, shape_of_rank<2>>(0, 3); }
VS_HARNESS(P11_r2d2) { t_copy<shape_of_rank<2>, dense_shape<2>>(0, 3); }
VS_HARNESS(P11_d2t) { t_copy<dense_shape<2>, shape<dim<>, dense_dim<>>>(0, 3); }
VS_HARNESS(P11_td2) { t_copy<shape<dim<>, dense_dim<>>, dense_shape<2>>(0, 3); }
VS_HARNESS(P11_d3) { t_copy<dense_shape<3>, dense_shape<3>>(0, 2, VS_T(SHARED, PER_DIM)); }
VS_HARNESS(P11_d3t) { t_copy<dense_shape<3>, shape<dim<>, dim<>, dense_dim<>>>(0, 2, VS_T(SHARED, PER_DIM)); }
VS_HARNESS(P11_bc) { t_copy<shape<broadcast_dim<>, dim<>>, shape_of_rank<2>>(0, 3); }
VS_HARNESS(P11_fixed) { t_copy<fixed_dense_shape<5, 4>, shape<dim<1, 3>, dim<1, 2>>>(0, 0); }
VS_HARNESS(P11_fixedsame) { t_copy<fixed_dense_shape<3, 2, 2>, fixed_dense_shape<3, 2, 2>>(0, 0); }
VS_HARNESS(P11_neg) { t_copy<shape<strided_dim<-1>, strided_dim<-4>>, shape<dim<>, strided_dim<-1>>>(0, 3); }
VS_HARNESS(P11_matrix) { t_copy<matrix_shape<>, matrix_shape<>>(0, 3); }
VS_HARNESS(P11_matrixt) { t_copy<matrix_shape<>, shape_of_rank<2>>(0, 3); }
VS_HARNESS(P11_chunky_planar) { t_copy<chunky_image_shape<2>, planar_image_shape>(0, 2, SHARED); }
VS_HARNESS(P11_planar_chunky) { t_copy<planar_image_shape, chunky_image_shape<2, 3>>(0, 2, SHARED); }
VS_HARNESS(P11_chunky) { t_copy<chunky_image_shape<>, chunky_image_shape<>>(0, 2, SHARED); }

// symbolic extents in one dimension: every index up to a large extent is reached by the loop's own step,
// checked here for up to N iterations of a symbolic extent
VS_HARNESS(P11_sym1) {
  i64 dm = vs_sym("dmin", -MM, MM), de = vs_sym("dext", 0, 8), a = vs_sym("before", 0, MM), b = vs_sym("after", 0, MM);
  i64 s1 = vs_sym("s1", -SS, SS), s2 = vs_sym("s2", -SS, SS);
  array_ref<E, shape_of_rank<1>> src((E*)vs_abstract(1), shape_of_rank<1>(dim<>(dm - a, a + de + b, s1)));
  array_ref<E, shape_of_rank<1>> dst((E*)vs_abstract(2), shape_of_rank<1>(dim<>(dm, de, s2)));
  g_n = 0;
  nda::copy(src, dst);
  CHECKM(g_n == de, "count");
  for (int e = 0; e < g_n; e++) {
    CHECKM(g_ev[e].s == src.base() + (a + e) * s1, "source");
    CHECKM(g_ev[e].d == dst.base() + e * s2, "destination");
  }
  vs_reach("sym1");
}

// ---- owning arrays: contents
struct M {
  int v; // -1: moved from
  M(int v = 0) : v(v) {}
  M(const M& o) : v(o.v) {}
  M(M&& o) : v(o.v) { o.v = -1; }
  M& operator=(const M& o) { v = o.v; return *this; }
  M& operator=(M&& o) { v = o.v; o.v = -1; return *this; }
  bool operator!=(const M& o) const { return v != o.v; }
  bool operator==(const M& o) const { return v == o.v; }
};
template <class T>
// (moves with the array: the library default-constructs the allocator of a moved-to array otherwise)
struct TagAlloc { // stateful allocator
  typedef T value_type;
  typedef std::true_type propagate_on_container_move_assignment;
  int id;
  TagAlloc(int id = 0) : id(id) {}
  template <class U> TagAlloc(const TagAlloc<U>& o) : id(o.id) {}
  T* allocate(size_t n) { return (T*)::operator new(n * sizeof(T)); }
  void deallocate(T* p, size_t) { ::operator delete(p); }
  friend bool operator==(const TagAlloc& a, const TagAlloc& b) { return a.id == b.id; }
  friend bool operator!=(const TagAlloc& a, const TagAlloc& b) { return a.id != b.id; }
};
// value of the element at an index: distinct per index
template <class Tup>
int val(const Tup& i, const RD* r) {
  constexpr size_t R = std::tuple_size<Tup>::value;
  auto a = arr(i);
  i64 v = 1;
  for (size_t k = 0; k < R; k++) v = v * 11 + (a[k] - r[k].min);
  return (int)v;
}

enum Op { COPY, COPYSHAPE, COMPACT, MOVE, COMPACTMOVE, NOPS };
template <class SS_, class DS_>
void t_make(i64 ehi, Op op) {
  constexpr size_t R = SS_::rank();
  RD r[R + 1] = {}, q[R + 1] = {};
  // source layout: padded or resolved
  Rng g{100, 0, ehi, unresolved, unresolved};
  SS_ s = mkc<SS_>(r, g);
  typedef array<M, SS_, TagAlloc<M>> A;
  A a(s, TagAlloc<M>(7));
  for_each_index(a.shape(), [&](const typename SS_::index_type& i) { a[i].v = val(i, r); });
  A orig(a);
  SS_ ss = a.shape();
  bool ref = vs_choose("ref", 0, 1);
  bool moved = false, compact = false;
  auto checkdst = [&](auto&& d, int id) {
    CHECKM(d.get_allocator().id == id, "allocator");
    rd(d.shape(), q);
    size_t n = 0;
    for (size_t k = 0; k < R; k++) CHECKM(q[k].min == r[k].min && q[k].ext == r[k].ext, "bounds");
    for_each_index(d.shape(), [&](const typename SS_::index_type& i) { CHECKM(d[i].v == val(i, r), "contents"); n++; });
    CHECKM(n == d.size(), "size");
    if (compact) {
      RD w[R + 1] = {};
      rd(make_compact(ss), w);
      for (size_t k = 0; k < R; k++) CHECKM(q[k].str == w[k].str, "compact result");
    }
    if (d.size() > 1) vs_reach("made");
  };
  auto ar = a.ref();
  auto ac = const_cast<const A&>(a).ref();
  TagAlloc<M> al(9);
  switch (op) {
  case COPY:
    if (ref) { checkdst(make_copy(ac, al), 9); checkdst(make_copy(ar, al), 9); }
    else { checkdst(make_copy(a, al), 9); checkdst(make_copy(const_cast<const A&>(a)), 0); }
    break;
  case COPYSHAPE: {
    DS_ ds = convert_shape<DS_>(shape_of_rank<R>(a.shape().bounds()));
    if (ref) { checkdst(make_copy(ac, ds, al), 9); checkdst(make_copy(ar, ds, al), 9); }
    else { checkdst(make_copy(a, ds, al), 9); checkdst(make_copy(const_cast<const A&>(a), ds), 0); }
    break;
  }
  case COMPACT:
    compact = true;
    if (ref) checkdst(make_compact_copy(ac, al), 9);
    else checkdst(make_compact_copy(a, al), 9);
    break;
  case MOVE: {
    moved = true;
    DS_ ds = convert_shape<DS_>(shape_of_rank<R>(a.shape().bounds()));
    if (ref) checkdst(make_move(ar, ds, al), 9);
    else checkdst(make_move(a, ds, al), 9);
    break;
  }
  case COMPACTMOVE:
    moved = compact = true;
    if (ref) checkdst(make_compact_move(ar, al), 9);
    else checkdst(make_compact_move(a, al), 9);
    break;
  default: break;
  }
  CHECKM(a.shape() == ss, "source shape unchanged");
  for_each_index(a.shape(), [&](const typename SS_::index_type& i) {
    if (moved) CHECKM(a[i].v == -1, "elements moved from");
    else CHECKM(a[i].v == val(i, r), "source unchanged");
  });
}
#define MAKE(n, S, D, e) \
  VS_HARNESS(P11_mk_copy_##n) { t_make<S, D>(e, COPY); } \
  VS_HARNESS(P11_mk_shape_##n) { t_make<S, D>(e, COPYSHAPE); } \
  VS_HARNESS(P11_mk_compact_##n) { t_make<S, D>(e, COMPACT); } \
  VS_HARNESS(P11_mk_move_##n) { t_make<S, D>(e, MOVE); } \
  VS_HARNESS(P11_mk_cmove_##n) { t_make<S, D>(e, COMPACTMOVE); }
typedef shape<dim<dynamic, dynamic, 2>, dim<>> pad2;
typedef shape<dim<>, dense_dim<>> row2;
typedef shape<dim<dynamic, dynamic, 3>, dim<>, dim<0, 2>> pad3;
MAKE(0, shape<>, shape<>, 0)
MAKE(1, shape<strided_dim<3>>, dense_shape<1>, 3)
MAKE(2, pad2, row2, 3)
MAKE(2d, dense_shape<2>, row2, 2)
MAKE(3, pad3, dense_shape<3>, 2)
MAKE(ch, chunky_image_shape<3>, planar_image_shape, 3)

// rvalue sources
template <class S>
void t_rvalue(i64 ehi) {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{100, 0, ehi, unresolved, unresolved});
  typedef array<M, S, TagAlloc<M>> A;
  A a(s, TagAlloc<M>(7));
  for_each_index(a.shape(), [&](const typename S::index_type& i) { a[i].v = val(i, r); });
  S ss = a.shape();
  const M* base = a.base();
  i64 same = vs_choose("samealloc", 0, 1), how = vs_choose("how", 0, 2);
  TagAlloc<M> al(same ? 7 : 9);
  auto check = [&](const auto& d, bool steals) {
    CHECKM(d.get_allocator().id == al.id, "allocator of the result");
    for_each_index(d.shape(), [&](const typename S::index_type& i) { CHECKM(d[i].v == val(i, r), "contents moved"); });
    if (steals && d.size()) CHECKM(d.base() == base, "same shape and allocator: storage is moved");
    if (a.base()) for_each_index(a.shape(), [&](const typename S::index_type& i) { CHECKM(a[i].v == -1, "no element is left behind as a copy"); });
    if (d.size() > 1) vs_reach("rvalue");
  };
  if (how == 0) { A d = make_move(std::move(a), ss, al); CHECKM(d.shape() == ss, "shape"); check(d, same); }
  else if (how == 1) {
    auto d = make_compact_move(std::move(a), al);
    CHECKM(d.shape() == make_compact(ss), "compact shape");
    check(d, false);
  } else if (same) {
    A d(S(), al);
    nda::move(std::move(a), d);
    CHECKM(d.shape() == ss, "shape");
    check(d, true);
  }
}
VS_HARNESS(P11_rv1) { t_rvalue<dense_shape<1>>(3); }
VS_HARNESS(P11_rv2) { t_rvalue<dense_shape<2>>(3); }
VS_HARNESS(P11_rvp) { t_rvalue<pad2>(2); }
VS_HARNESS(P11_rv3) { t_rvalue<shape_of_rank<3>>(2); }

// wrappers taking arrays
VS_HARNESS(P11_arrays) {
  RD r[3] = {{0, 4, 1}, {0, 3, 4}};
  dense_array<M, 2> a({4, 3});
  for_each_index(a.shape(), [&](const index_of_rank<2>& i) { a[i].v = val(i, r); });
  i64 x0 = vs_choose("x0", 0, 2), y0 = vs_choose("y0", 0, 2), w = vs_choose("w", 0, 2), h = vs_choose("h", 0, 1);
  array<M, row2> b(row2(dim<>(x0, w), dense_dim<>(y0, h)), M(-2));
  i64 how = vs_choose("how", 0, 6);
  const dense_array<M, 2>& ca = a;
  switch (how) {
  case 0: nda::copy(a, b); break;
  case 1: nda::copy(a.ref(), b); break;
  case 2: nda::copy(a, b.ref()); break;
  case 3: nda::copy(ca, b.ref()); break;
  case 4: nda::move(a, b); break;
  case 5: nda::move(a.ref(), b); break;
  case 6: nda::move(a, b.ref()); break;
  }
  for_each_index(a.shape(), [&](const index_of_rank<2>& i) {
    i64 x = std::get<0>(i), y = std::get<1>(i);
    bool in = x >= x0 && x < x0 + w && y >= y0 && y < y0 + h;
    if (in) CHECKM(b(x, y).v == val(i, r), "copied");
    CHECKM(a(x, y).v == (in && how >= 4 ? -1 : val(i, r)), "only the copied elements of the source are moved from");
  });
  vs_reach("arrays");
}
// out-of-bounds destinations are diagnosed
VS_HARNESS(P11_oob) {
#ifndef NDEBUG
  i64 sm = vs_sym("smin", -MM, MM), se = vs_sym("sext", 0, 100), dm = vs_sym("dmin", -MM, MM), de = vs_sym("dext", 1, 2);
  ASSUME(dm < sm || dm + de > sm + se);
  array_ref<E, dense_shape<1>> src((E*)vs_abstract(1), dense_shape<1>(dense_dim<>(sm, se)));
  array_ref<E, dense_shape<1>> dst((E*)vs_abstract(2), dense_shape<1>(dense_dim<>(dm, de)));
  CHECKM(vs_asserts([&] { nda::copy(src, dst); }), "copy outside the source is diagnosed");
  CHECKM(vs_asserts([&] { nda::move(src, dst); }), "move outside the source is diagnosed");
#endif
  vs_reach("oob");
}
