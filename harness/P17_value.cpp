// BOUND: single operations (thorough: 2-step histories; quick for the rank 1 shapes marked x2) out of 18, chosen symbolically, on two arrays starting default constructed, with a shape and symbolic values, cleared, or moved-from; ranks 0-2; extents 0..2, compact, padded, negative strides, static extents; mins and element values symbolic; equal, unequal and propagating allocators, automatic storage
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#define ARR_VALUES
#include "arrmodel.h"
#include "arrpick.h"

template <class A> struct Mach {
  typedef Arr<A> AR;
  typedef typename AR::M M;
  typedef typename A::shape_type S;
  static constexpr size_t R = A::rank();
  struct St { A* a; M m; };

  static M made(const S& s0, bool known) { // model of a freshly made array of default elements
    S s = s0;
    s.resolve();
    M m = {};
    m.owns = true;
    m.known = known;
    rd(s, m.r);
    for (i64 e = 0; e < m.n(); e++) m.val[e] = DEFV;
    return m;
  }
  static void set(A& a, M& m) { // fill with symbolic values
    i64 v[R + 1];
    for (i64 e = 0; e < m.n(); e++) { nth(m, e, v); a[tup<R>(v)].v = m.val[e] = vs_sym("val", -1000, 1000); }
  }
  static void start(St& x, int kind) {
    x.m = made(S(), true);
    if (kind == 0) return;
    S s = Pick<S>::get();
    A t(s, x.a->get_allocator());
    x.m = made(s, true);
    set(t, x.m);
    AR::verify(t, x.m, "constructed with a shape");
    *x.a = std::move(t);
    if (kind == 2) { A u(std::move(*x.a)); x.m = after_move(*x.a); }
    if (kind == 3) { x.a->clear(); x.m = made(S(), true); }
  }
  // After being moved from an array is some valid value: read its shape.
  static M after_move(const A& a) {
    M m = {};
    m.owns = a.base() != nullptr;
    rd(a.shape(), m.r);
    return m;
  }
  static bool valid(const M& m) { return m.owns || m.n() == 0; }
  static void moved(St& y) { y.m = after_move(*y.a); if (!y.m.owns && y.m.n() == 0) y.m.known = true; }

  static bool eqm(const M& x, const M& y) {
    bool s = same_shape(x, y);
    if (s) for (i64 e = 0; e < x.n(); e++) s = s & (x.val[e] == y.val[e]);
    return s;
  }
  static void step(int k, St& x, St& y) {
    A& a = *x.a;
    A& b = *y.a;
    const A& ca = a;
    const A& cb = b;
    if (k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 9 || k == 10)
      if (!valid(x.m) || !valid(y.m)) { if (k != 1 && k != 9) return; if (!valid(y.m)) return; }
    switch (k) {
    case 0: { M ym = y.m; a = std::move(b); x.m = ym; moved(y); break; }
    case 1: { M ym = y.m; a.assign(std::move(b)); x.m = ym; moved(y); break; }
    case 2: {
      M xm = x.m;
      A t(std::move(a));
      AR::verify(t, xm, "move constructed");
      moved(x);
      if (vs_choose("back", 0, 1)) { a = std::move(t); x.m = xm; }
      break;
    }
    case 3: { M ym = y.m; A t(std::move(b), ca.get_allocator()); AR::verify(t, ym, "move constructed with an allocator"); moved(y); break; }
    case 4: { M t = x.m; swap(a, b); x.m = y.m; y.m = t; break; }
    case 5: a.clear(); x.m = made(S(), true); break;
    case 6: { S s = Pick<S>::get(); A t(s); a = std::move(t); x.m = made(s, true); break; }
    case 7: { M t = x.m; if (!valid(x.m) || !valid(y.m)) return; a.swap(b); x.m = y.m; y.m = t; break; }
    case 8: { if (!valid(x.m)) return; auto t = make_move(a, a.shape()); AR::verify(t, x.m, "make_move"); x.m.known = x.m.n() == 0; break; }
    case 9: if (!valid(y.m)) return; a = cb; x.m = y.m; break;
    case 10: a.assign(cb); x.m = y.m; break;
    case 11: {
      i64 v = vs_sym("v", 0, 9);
      El e(v);
      S s = Pick<S>::get();
      x.m = made(s, true);
      for (i64 i = 0; i < x.m.n(); i++) x.m.val[i] = v;
      a.assign(s, e);
      break;
    }
    case 12: { if (!valid(x.m)) return; A t(ca); AR::verify(t, x.m, "copy constructed"); separate(t, a); break; }
    case 13: { if (!valid(x.m)) return; A t(ca, cb.get_allocator()); AR::verify(t, x.m, "copy constructed with an allocator"); separate(t, a); break; }
    case 14: {
      i64 v = vs_sym("v", 0, 9);
      S s = Pick<S>::get();
      A t(s, El(v), ca.get_allocator());
      M tm = made(s, true);
      for (i64 i = 0; i < tm.n(); i++) tm.val[i] = v;
      AR::verify(t, tm, "constructed with a shape and value");
      a = t;
      x.m = tm;
      AR::verify(t, tm, "source of copy assignment unchanged");
      separate(t, a);
      break;
    }
    case 15: { const El* p = a.base(); if (!valid(x.m)) return; a = ca; CHECKM(a.base() == p, "self-assignment keeps the storage"); break; }
    case 16: { if (!valid(x.m)) return; auto t = make_copy(ca); AR::verify(t, x.m, "make_copy"); separate(t, a); break; }
    case 17: { if (!x.m.owns) return; A t(S(ca.shape())); A u(t); a.assign(ca); t.assign(u); break; }
    case 18: {
      if (!valid(x.m) || !valid(y.m) || !x.m.known || !y.m.known) return;
      bool e = eqm(x.m, y.m);
      CHECKM((ca == cb) == e && (ca != cb) == !e, "equality of arrays is equality of shape and values");
      break;
    }
    }
  }
  // writing to one array does not change the other
  template <class B>
  static void separate(B& t, A& a) {
    M m = {};
    rd(t.shape(), m.r);
    if (t.base() == nullptr || a.base() == nullptr || m.n() == 0) return;
    i64 v[R + 1];
    for (i64 e = 0; e < m.n(); e++) {
      nth(m, e, v);
      i64 was = a[tup<R>(v)].v;
      t[tup<R>(v)].v = 5555;
      CHECKM(a[tup<R>(v)].v == was, "a copy has separate storage");
    }
  }
  static void run(int steps, int starts, int lo = 0, int hi = 18) {
    vs_opt("forkselect", 1);
    typedef typename A::allocator_type Al;
    {
      A a(mkal<Al>::get(1)), b(mkal<Al>::get(2));
      St x{&a, {}}, y{&b, {}};
      start(x, vs_choose("start a", 0, starts));
      start(y, vs_choose("start b", 0, starts));
      AR::verify(a, x.m, "start");
      AR::verify(b, y.m, "start");
      for (int s = 0; s < steps; s++) {
        int k = vs_choose("op", lo, hi);
        if (s > 0 && vs_choose("swap roles", 0, 1)) step(k, y, x);
        else step(k, x, y);
        AR::verify(a, x.m, "the array's shape and values");
        AR::verify(b, y.m, "the other array's shape and values");
      }
    }
    vs_reach("done");
  }
};
template <class A> static void one(int starts = 3) { Mach<A>::run(VS_T(1, 2), starts); }
template <class A> static void two(int starts = 1) { Mach<A>::run(VS_T(2, 3), starts); }

VS_HARNESS(P17_r0) { one<array<El, shape<>>>(); }
VS_HARNESS(P17_r0x2) { two<array<El, shape<>>>(3); }
VS_HARNESS(P17_d1) { one<dense_array<El, 1>>(); }
VS_HARNESS(P17_d1x2) { two<dense_array<El, 1>>(0); }
VS_HARNESS(P17_g1) { one<array_of_rank<El, 1>>(1); }
VS_HARNESS(P17_g2) { one<array_of_rank<El, 2>>(2); }
VS_HARNESS(P17_f1) { one<array<El, FX>>(); }
VS_HARNESS(P17_f1x2) { two<array<El, FX>>(1); }
VS_HARNESS(P17_fp) { one<array<El, shape<dim<0, 2, 3>>>>(); }
VS_HARNESS(P17_own_d1) { one<dense_array<El, 1, Own<El>>>(); }
VS_HARNESS(P17_own_d1x2) { two<dense_array<El, 1, Own<El>>>(0); }
VS_HARNESS(P17_own_g2) { one<array_of_rank<El, 2, Own<El>>>(2); }
VS_HARNESS(P17_own_f1) { one<array<El, FX, Own<El>>>(); }
VS_HARNESS(P17_copy_d1) { one<dense_array<El, 1, Own<El, true, false, false>>>(); }
VS_HARNESS(P17_swap_d1) { one<dense_array<El, 1, Own<El, false, false, true>>>(); }
VS_HARNESS(P17_move_d1) { one<dense_array<El, 1, Own<El, false, true, false>>>(); }
VS_HARNESS(P17_prop_g2) { one<array_of_rank<El, 2, Own<El, true, true, true>>>(1); }
VS_HARNESS(P17_auto_d1) { one<dense_array<El, 1, auto_allocator<El, 1>>>(); }
VS_HARNESS(P17_auto_f1x2) { two<array<El, FX, auto_allocator<El, 4>>>(); }
