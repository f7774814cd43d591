// BOUND: compactness: ranks 1-3, case-split extents up to 4 (rank 1: 6), |stride| <= 2^20 and |min| <= 2^40 symbolic, non-overlapping dims; the witness offset is symbolic
// BOUND: one-to-one: ranks 1-3, extents up to 5/4/3 case split, strides symbolic; subset: ranks 1-3, extents to 2^10, offset to 2^40
// VSCONFIG: -
// VSTHOROUGH: int -DNDARRAY_INT_INDICES
#include "common.h"
using namespace nda;
#ifdef NDARRAY_INT_INDICES
static const i64 MM = P2(12), SS = P2(9), EE = P2(7);
#else
static const i64 MM = P2(40), SS = P2(20), EE = P2(10);
#endif

// All index tuples of a small shape, row by row; f(offset).
template <class F>
void all_off(const RD* r, size_t n, i64 acc, F&& f) {
  if (n == 0) { f(acc); return; }
  for (i64 i = 0; i < r[n - 1].ext; i++) all_off(r, n - 1, acc + i * r[n - 1].str, f);
}

// is_compact <=> no unaddressed offset between flat_min and flat_max, and is_one_to_one soundness.
template <class S>
void t_pred(i64 emax) {
  constexpr size_t R = S::rank();
  RD r[R + 1];
  S s = mkc<S>(r, Rng{MM, 1, emax, -SS, SS});
  i64 offs[64];
  i64 n = 0;
  all_off(r, R, 0, [&](i64 o) { offs[n++] = o; });
  i64 lo = 0, hi = 0;
  for (size_t i = 0; i < R; i++) {
    i64 e = (r[i].ext - 1) * r[i].str;
    if (r[i].str < 0) lo += e; else hi += e;
  }
  bool inj = true;
  for (i64 i = 0; i < n; i++)
    for (i64 j = 0; j < i; j++) inj = inj & (offs[i] != offs[j]);
  array_ref<int, S> a((int*)vs_abstract(1), s);
  bool compact = s.is_compact(), one = s.is_one_to_one();
  CHECKM(a.is_compact() == compact, "ref.is_compact agrees");
  CHECKM(!inj || one, "an injective shape is reported one-to-one");
  CHECKM(one || !inj, "a shape reported not one-to-one is not injective");
  if (inj) {
    // n distinct offsets within [lo, hi] fill it exactly when hi - lo + 1 == n (pigeonhole)
    CHECKM(compact == (hi - lo + 1 == n), "is_compact");
    // a hole witnesses non-compactness
    i64 h = vs_sym("hole", -P2(30), P2(30));
    ASSUME(lo <= h && h <= hi);
    bool hit = false;
    for (i64 i = 0; i < n; i++) hit = hit | (offs[i] == h);
    CHECKM(hit || !compact, "a compact shape addresses every offset between its ends");
    if (compact) vs_reach("compact"); else vs_reach("not_compact");
  } else
    vs_reach("overlapping");
}
VS_HARNESS(P04_p1) { t_pred<shape_of_rank<1>>(6); }
VS_HARNESS(P04_p2) { t_pred<shape_of_rank<2>>(VS_T(4, 6)); }
VS_HARNESS(P04_p3) { t_pred<shape_of_rank<3>>(VS_T(3, 4)); }
VS_HARNESS(P04_dense2) { t_pred<dense_shape<2>>(4); }
VS_HARNESS(P04_dense3) { t_pred<shape<dense_dim<dynamic, 2>, dim<0, 2>, dim<>>>(3); }
VS_HARNESS(P04_neg) { t_pred<shape<strided_dim<-1>, dim<>>>(3); }
VS_HARNESS(P04_static) { t_pred<shape<dim<1, 3, 4>, dim<0, 4, 1>>>(3); }
VS_HARNESS(P04_static3) { t_pred<shape<dim<1, 3, 1000>, dim<0, 4, 250>>>(3); }
VS_HARNESS(P04_static4) { t_pred<shape<dim<1, 2, -64>, dense_dim<0, 16>>>(3); }
VS_HARNESS(P04_static2) { t_pred<shape<dim<1, 3, 5>, dim<0, 4, 1>>>(3); }
VS_HARNESS(P04_bcast) { t_pred<shape<broadcast_dim<>, dense_dim<>>>(3); }
VS_HARNESS(P04_scalar) { shape<> s; CHECKM(s.is_compact() && s.is_one_to_one() && s.is_subset_of(s, 0), "scalar"); }
VS_HARNESS(P04_empty) {
  RD r[2];
  shape_of_rank<2> s = mk<shape_of_rank<2>>(r, Rng{MM, 0, EE, -SS, SS});
  ASSUME(r[0].ext == 0 || r[1].ext == 0);
  CHECKM(s.is_one_to_one(), "an empty shape maps no two indices together");
  vs_reach("empty");
}

// Subset: the flat interval of one within the other's, shifted by the offset.  (other shifted by -offset
// is how references with a moved base pointer use it.)
template <class S, class T>
void t_subset() {
  constexpr size_t R = S::rank(), Q = T::rank();
  RD a[R + 1], b[Q + 1];
  i64 va[R + 1], vb[Q + 1];
  Rng g{MM, 1, EE, -SS, SS};
  S s = mkp<S>(a, va, g);
  T t = mkp<T>(b, vb, g);
  i64 o = vs_sym("offset", -MM, MM);
  auto ends = [](const RD* r, size_t n, i64& lo, i64& hi) {
    lo = hi = 0;
    for (size_t i = 0; i < n; i++) { if (r[i].str < 0) lo += (r[i].ext - 1) * r[i].str; else hi += (r[i].ext - 1) * r[i].str; }
  };
  i64 alo, ahi, blo, bhi;
  ends(a, R, alo, ahi);
  ends(b, Q, blo, bhi);
  bool want = alo >= blo + o && ahi <= bhi + o;
  CHECKM(s.is_subset_of(t, (index_t)o) == want, "is_subset_of");
  // meaning: every addressed offset of s is within t's ends moved by o
  i64 x = off(a, R, va);
  CHECKM(!s.is_subset_of(t, (index_t)o) || (blo + o <= x && x <= bhi + o), "an element of a subset lies within the other's ends");
  CHECKM(s.is_subset_of(s, 0), "reflexive");
  if (want) vs_reach("subset"); else vs_reach("not_subset");
}
VS_HARNESS(P04_sub11) { t_subset<shape_of_rank<1>, shape_of_rank<1>>(); }
VS_HARNESS(P04_sub22) { t_subset<shape_of_rank<2>, shape_of_rank<2>>(); }
VS_HARNESS(P04_sub12) { t_subset<shape_of_rank<1>, dense_shape<2>>(); }
VS_HARNESS(P04_sub32) { t_subset<dense_shape<3>, shape<dim<>, dim<dynamic, 4, -3>>>(); }
