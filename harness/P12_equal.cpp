// BOUND: ranks 0-4, extents 0..4 (rank 1), 0..3 (rank 2), 0..2 (ranks 3, 4) case split, mins of both sides and every dynamic stride symbolic (|s| <= 2^10), at most two differing elements at symbolic positions (in memory seen only through operator!=)
// BOUND: owning arrays: 2x2 and 3-element arrays with arbitrary int contents, with padding left uninitialised
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
#include <array/image.h>
#include <array/matrix.h>
using namespace nda;
static const i64 MM = P2(16), SS = P2(10);

// Elements are compared through operator!=, which decides by the pair of addresses.
static const int *g_a, *g_b;
static i64 g_ao[100], g_bo[100];
static int g_cnt;
static i64 g_p1, g_p2; // positions of differing pairs
static bool differ(const void* a, const void* b) {
  bool found = false, ne = false;
  for (int k = 0; k < g_cnt; k++) {
    bool m = (a == g_a + g_ao[k]) & (b == g_b + g_bo[k]);
    bool w = (b == g_a + g_ao[k]) & (a == g_b + g_bo[k]);
    found = found | m | w;
    ne = ne | ((m | w) & ((g_p1 == k) | (g_p2 == k)));
  }
  CHECKM(found, "only elements at equal indices are compared");
  return ne;
}
struct X {
  int v;
  bool operator!=(const X& o) const { return differ(this, &o); }
  bool operator==(const X& o) const { return !differ(this, &o); }
};
static void expect(const RD* a, const RD* b, size_t R, size_t k, i64 ao, i64 bo) {
  if (k == R) { g_ao[g_cnt] = ao; g_bo[g_cnt++] = bo; return; }
  for (i64 p = 0; p < a[k].ext; p++) expect(a, b, R, k + 1, ao + p * a[k].str, bo + p * b[k].str);
}

enum { SAME, EQUAL }; // operator== on equal shape types; equal()
template <class SA, class SB>
struct cmp {
  static bool eq(const array_ref<X, SA>&, const array_ref<X, SB>&) { return false; }
  static bool ne(const array_ref<X, SA>&, const array_ref<X, SB>&) { return true; }
};
template <class S>
struct cmp<S, S> {
  static bool eq(const array_ref<X, S>& a, const array_ref<X, S>& b) { return a == b; }
  static bool ne(const array_ref<X, S>& a, const array_ref<X, S>& b) { return a != b; }
};
template <class SA, class SB>
void t_eq(i64 elo, i64 ehi, int how, bool big = false) { // big: equal extents, one difference, at the ends
  constexpr size_t R = SA::rank();
  vs_opt("forkselect", 1);
  RD a[R + 1] = {}, b[R + 1] = {};
  SA sa = mkc<SA>(a, Rng{MM, elo, ehi, -SS, SS});
  SB sb = mkc<SB>(b, Rng{MM, elo, ehi, -SS, SS});
  g_a = (int*)vs_abstract(1);
  g_b = (int*)vs_abstract(2);
  g_cnt = 0;
  bool same = true, bounds = true, exts = true;
  if (big) for (size_t k = 0; k < R; k++) ASSUME(a[k].ext == b[k].ext);
  for (size_t k = 0; k < R; k++) {
    exts = exts && a[k].ext == b[k].ext;
    bounds = bounds && a[k].min == b[k].min && a[k].ext == b[k].ext;
    same = same && a[k].min == b[k].min && a[k].ext == b[k].ext && a[k].str == b[k].str;
  }
  if (exts) expect(a, b, R, 0, 0, 0);
  g_p1 = vs_sym("p1", -1, g_cnt - 1);
  g_p2 = vs_sym("p2", -1, g_cnt - 1);
  ASSUME(g_p1 <= g_p2);
  if (big) g_p1 = g_p2 = vs_choose("diff", 0, 1) == 0 ? -1 : vs_choose("last", 0, 1) ? g_cnt - 1 : 0;
  array_ref<X, SA> ra((X*)g_a, sa);
  array_ref<X, SB> rb((X*)g_b, sb);
  bool eqv = g_p2 < 0;
  if (how == SAME) {
    if (vs_choose("ne", 0, 1)) CHECKM((cmp<SA, SB>::ne(ra, rb)) == !(same && eqv), "!= is the negation of equality of shapes and elements");
    else CHECKM((cmp<SA, SB>::eq(ra, rb)) == (same && eqv), "== is equality of shapes and elements");
    if (same && !eqv) vs_reach("differ");
    if (same && eqv && g_cnt > 1) vs_reach("same");
    if (bounds && !same) vs_reach("other strides");
  } else {
    CHECKM(equal(ra, rb) == (bounds && eqv), "equal() is equality of bounds and elements");
    if (bounds && !eqv) vs_reach("equal differs");
    if (bounds && eqv && g_cnt > 1) vs_reach("equal holds");
  }
  if (g_cnt == 0 && bounds) vs_reach("empty");
}
#define SAMETY(n, S, lo, hi) VS_HARNESS(P12_op_##n) { t_eq<S, S>(lo, hi, SAME); } VS_HARNESS(P12_eq_##n) { t_eq<S, S>(lo, hi, EQUAL); }
SAMETY(r0, shape<>, 0, 0)
SAMETY(r1, shape_of_rank<1>, 0, 4)
SAMETY(r2, shape_of_rank<2>, 0, VS_T(2, 3))
SAMETY(d1, dense_shape<1>, 0, 4)
SAMETY(d2, dense_shape<2>, 0, VS_T(2, 3))
SAMETY(m, matrix_shape<>, 0, VS_T(2, 3))
typedef fixed_dense_shape<3, 2> f32;
SAMETY(fix, f32, 0, 0)
VS_HARNESS(P12_op_r3) { t_eq<shape<dim<>, dim<dynamic, 2>, dim<>>, shape<dim<>, dim<dynamic, 2>, dim<>>>(1, 2, SAME, !VS_THOROUGH); }
VS_HARNESS(P12_eq_r3) { t_eq<shape<dim<>, dim<dynamic, 2>, dim<>>, dense_shape<3>>(1, 2, EQUAL, !VS_THOROUGH); }
VS_HARNESS(P12_eq_r4) { t_eq<shape<dim<>, dim<dynamic, 2>, dim<dynamic, 1>, dim<dynamic, dynamic, -5>>, shape<dim<0>, dim<>, dim<>, dense_dim<dynamic, 2>>>(1, 2, EQUAL, !VS_THOROUGH); }
VS_HARNESS(P12_eq_rd) { t_eq<shape_of_rank<2>, dense_shape<2>>(0, VS_T(2, 3), EQUAL); }
VS_HARNESS(P12_eq_dr) { t_eq<dense_shape<2>, shape<dim<>, dense_dim<>>>(0, VS_T(2, 3), EQUAL); }
VS_HARNESS(P12_eq_chunky) { t_eq<chunky_image_shape<2>, planar_image_shape>(1, 2, EQUAL, !VS_THOROUGH); }
VS_HARNESS(P12_eq_neg) { t_eq<shape<strided_dim<-1>, dim<>>, shape<strided_dim<2>, dim<>>>(0, 2, EQUAL); }
VS_HARNESS(P12_eq_bc) { t_eq<shape<broadcast_dim<>, dim<>>, shape_of_rank<2>>(0, 2, EQUAL); }

// owning arrays with arbitrary contents; the padding is never initialised
template <class SA, class SB>
void t_own(bool same) {
  constexpr size_t R = SA::rank();
  RD r[R + 1] = {};
  array<int, SA, uninitialized_std_allocator<int>> a(mkc<SA>(r, Rng{100, 1, 2, unresolved, unresolved}));
  array<int, SB, uninitialized_std_allocator<int>> b(convert_shape<SB>(shape_of_rank<R>(a.shape().bounds())));
  bool all = true;
  for_each_index(a.shape(), [&](const typename SA::index_type& i) {
    a[i] = (int)vs_sym("a", INT32_MIN, INT32_MAX);
    b[i] = (int)vs_sym("b", INT32_MIN, INT32_MAX);
    all = all & (a[i] == b[i]);
  });
  i64 how = vs_choose("how", 0, 3);
  const auto& ca = a;
  const auto& cb = b;
  bool e = how == 0 ? equal(a, b) : how == 1 ? equal(a.ref(), cb) : how == 2 ? equal(ca, b.cref()) : equal(a.cref(), b.ref());
  CHECKM(e == all, "content equality");
  vs_trace("e", e);
  if (a.size() > 1) vs_reach("own");
  (void)same;
}
typedef shape<dim<dynamic, dynamic, 2>, dim<>> pad2;
VS_HARNESS(P12_own1) { t_own<dense_shape<1>, shape<strided_dim<3>>>(false); }
VS_HARNESS(P12_own2) { t_own<pad2, dense_shape<2>>(false); }
VS_HARNESS(P12_own2t) { t_own<shape<dim<>, dense_dim<>>, pad2>(false); }
template <class S>
void t_ownop() {
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  typedef array<int, S, uninitialized_std_allocator<int>> A;
  A a(mkc<S>(r, Rng{100, 1, 2, unresolved, unresolved}));
  A b(a.shape());
  bool all = true;
  for_each_index(a.shape(), [&](const typename S::index_type& i) {
    a[i] = (int)vs_sym("a", INT32_MIN, INT32_MAX);
    b[i] = (int)vs_sym("b", INT32_MIN, INT32_MAX);
    all = all & (a[i] == b[i]);
  });
  const A& ca = a;
  CHECKM((ca == b) == all, "==");
  CHECKM((a != b) == !all, "!=");
  CHECKM((a.ref() == b.ref()) == all, "ref ==");
  CHECKM((a.cref() != b.cref()) == !all, "cref !=");
  CHECKM(a == a && !(a != a), "reflexive");
  vs_reach("ownop");
}
VS_HARNESS(P12_ownop1) { t_ownop<dense_shape<1>>(); }
VS_HARNESS(P12_ownop2) { t_ownop<dense_shape<2>>(); }
VS_HARNESS(P12_ownoppad) { t_ownop<pad2>(); }
VS_HARNESS(P12_ownop3) { t_ownop<shape<dim<>, dim<dynamic, 1>, dim<dynamic, 2>>>(); }

// empty and default constructed operands
template <class S>
void t_empty() {
  array<X, S> a, b;
  CHECKM(a == b && !(a != b), "default constructed arrays");
  CHECKM(equal(a, b), "equal");
  array_ref<X, S> ra, rb;
  CHECKM(ra == rb && !(ra != rb) && equal(ra, rb) && equal(a, rb), "default constructed refs");
  constexpr size_t R = S::rank();
  RD r[R + 1] = {};
  S s = mkc<S>(r, Rng{100, 0, 2, -5, 5});
  ASSUME(prod(r, R) == 0);
  g_cnt = 0;
  array_ref<X, S> rc((X*)vs_abstract(1), s), rn(nullptr, s);
  CHECKM(rc == rn && rn == rc && !(rn != rc) && equal(rc, rn), "empty with and without memory");
  vs_reach("empties");
}
VS_HARNESS(P12_empty1) { t_empty<shape_of_rank<1>>(); }
VS_HARNESS(P12_empty2) { t_empty<dense_shape<2>>(); }
VS_HARNESS(P12_empty3) { t_empty<shape_of_rank<3>>(); }
VS_HARNESS(P12_emptym) { t_empty<matrix_shape<>>(); }
VS_HARNESS(P12_emptyc) { t_empty<chunky_image_shape<3>>(); }
