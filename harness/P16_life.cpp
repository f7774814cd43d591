// BOUND: histories of up to 2 operations (thorough: 3) out of 16, chosen symbolically, on two arrays starting default constructed, with a shape, filled, or moved-from; ranks 0-2; extents 0..2, compact, padded, negative and overlapping-free strides, static extents; mins symbolic; copyable and move-only elements; std::allocator and unequal non-propagating allocators
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#define ARR_LIFE
#include "arrmodel.h"
#include "arrpick.h"

// Start state of an array.
template <class A>
static void start(A& x, int kind) {
  typedef typename A::shape_type S;
  typedef typename A::value_type T;
  switch (kind) {
  case 0: break;                                                          // default constructed
  case 1: { A t(Pick<S>::get(), x.get_allocator()); x = std::move(t); break; } // default elements
  default: { A t(Pick<S>::get(), x.get_allocator()); x = std::move(t); A u(std::move(x)); break; } // moved-from
  }
  (void)sizeof(T);
}
enum { N_MOVE_OPS = 9, N_OPS = 18 };
// op on (x, y); returns false if not applicable in this state
template <class A>
static bool can_copy_from(const A& y) { return y.base() != nullptr || y.shape().empty(); } // not a moved-from array of static extent
template <class A>
static void op_move(int k, A& x, A& y) {
  typedef typename A::shape_type S;
  switch (k) {
  case 0: if (can_copy_from(y) && can_copy_from(x)) x = std::move(y); break;
  case 1: if (can_copy_from(y) && can_copy_from(x)) x.assign(std::move(y)); break;
  case 2: { A t(std::move(x)); balanced(y, t, Arr<A>::elements(x)); break; }
  case 3: if (can_copy_from(y)) { A t(std::move(y), x.get_allocator()); balanced(x, t, Arr<A>::elements(y)); } break;
  case 4: if (can_copy_from(y) && can_copy_from(x)) { swap(x, y); } break;
  case 5: x.clear(); break;
  case 6: if (can_copy_from(x)) x.reshape(Pick<S>::get()); break;
  case 7: { A t(Pick<S>::get(), x.get_allocator()); balanced(x, y, Arr<A>::elements(t)); if (can_copy_from(x)) x = std::move(t); break; }
  case 8: if (can_copy_from(x)) { auto t = make_move(x, x.shape()); balanced(x, y, Arr<A>::elements(t)); } break;
  }
}
template <class A>
static void op(int k, A& x, A& y) {
  typedef typename A::shape_type S;
  typedef typename A::value_type T;
  switch (k) {
  default: op_move(k, x, y); break;
  case 9: if (can_copy_from(y) && can_copy_from(x)) x = (const A&)y; break;
  case 10: if (can_copy_from(y) && can_copy_from(x)) x.assign((const A&)y); break;
  case 11: { T v(vs_sym("v", 0, 9)); x.assign(Pick<S>::get(), v); break; }
  case 12: if (can_copy_from(x)) { A t(x); balanced(x, y, Arr<A>::elements(t)); } break;
  case 13: if (can_copy_from(x)) { A t(x, y.get_allocator()); balanced(x, y, Arr<A>::elements(t)); } break;
  case 14: { T v(1); A t(Pick<S>::get(), v, x.get_allocator()); balanced(x, y, Arr<A>::elements(t) + 1); if (can_copy_from(x)) x = t; break; }
  case 15: if (can_copy_from(x)) { const A& s = x; x = s; } break;
  case 16: if (can_copy_from(x)) { auto t = make_compact_copy(x); balanced(x, y, (i64)t.size()); } break;
  case 17: if (x.base()) { T v(2); fill(x, v); generate(x, [] { return T(3); }); } break;
  }
}

template <class A, int NOPS, class F>
static void histories(F f, int steps, int starts) {
  vs_opt("forkselect", 1);
  typedef typename A::allocator_type Al;
  g_nalive = 0;
  {
    A a(mkal<Al>::get(1)), b(mkal<Al>::get(2));
    balanced(a, b);
    start(a, vs_choose("start a", 0, starts));
    start(b, vs_choose("start b", 0, starts));
    balanced(a, b);
    for (int s = 0; s < steps; s++) {
      int k = vs_choose("op", 0, NOPS - 1);
      if (s > 0 && vs_choose("swap roles", 0, 1)) f(k, b, a);
      else f(k, a, b);
      balanced(a, b);
    }
  }
  CHECKM(g_nalive == 0, "no element is alive after all arrays are gone");
  CHECKM(vs_live() == 0, "no memory is left after all arrays are gone");
  vs_reach("done");
}
template <class A> static void copyable(int starts = 2) { histories<A, N_OPS>([](int k, A& x, A& y) { op(k, x, y); }, VS_T(1, 2), starts); }
template <class A> static void copyable2(int starts = 0) { histories<A, N_OPS>([](int k, A& x, A& y) { op(k, x, y); }, VS_T(2, 3), starts); }
template <class A> static void movable(int starts = 2) { histories<A, N_MOVE_OPS>([](int k, A& x, A& y) { op_move(k, x, y); }, VS_T(1, 2), starts); }

VS_HARNESS(P16_r0) { copyable<array<El, shape<>>>(); }
VS_HARNESS(P16_d1) { copyable<dense_array<El, 1>>(); }
VS_HARNESS(P16_d1x2) { copyable2<dense_array<El, 1>>(); }
VS_HARNESS(P16_g1) { copyable<array_of_rank<El, 1>>(1); }
VS_HARNESS(P16_g2) { copyable<array_of_rank<El, 2>>(); }
VS_HARNESS(P16_f1) { copyable<array<El, FX>>(); }
VS_HARNESS(P16_f1x2) { copyable2<array<El, FX>>(); }
VS_HARNESS(P16_fp) { copyable<array<El, shape<dim<0, 2, 3>>>>(); }
VS_HARNESS(P16_mo_d1) { movable<dense_array<Mo, 1>>(); }
VS_HARNESS(P16_mo_g2) { movable<array_of_rank<Mo, 2>>(); }
VS_HARNESS(P16_own_d1) { copyable<dense_array<El, 1, Own<El>>>(); }
VS_HARNESS(P16_own_d1x2) { copyable2<dense_array<El, 1, Own<El>>>(); }
VS_HARNESS(P16_own_f1) { copyable<array<El, FX, Own<El>>>(); }
VS_HARNESS(P16_own_g2) { copyable<array_of_rank<El, 2, Own<El>>>(); }
VS_HARNESS(P16_prop_d1) { copyable<dense_array<El, 1, Own<El, true, true, true>>>(); }
VS_HARNESS(P16_auto_d1) { copyable<dense_array<El, 1, auto_allocator<El, 1>>>(); }
VS_HARNESS(P16_auto_d1x2) { copyable2<dense_array<El, 1, auto_allocator<El, 1>>>(); }
VS_HARNESS(P16_auto_g2) { copyable<array_of_rank<El, 2, auto_allocator<El, 16>>>(); }
