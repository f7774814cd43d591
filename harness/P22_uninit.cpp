// BOUND: arrays of rank 0-2, extents 0..3 / 0..2, compact, padded, negative strides; the contents of the memory handed out are symbolic; construction from shape, value, copy, move (equal and unequal allocators), assign, clear, reshape; standard, automatic-storage and stateful wrapped allocators with each propagation trait
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "common.h"
using namespace nda;

// Allocator handing out memory with known contents.
static int g_pre[16];
static i64 g_handed, g_back;
static void* g_last;
template <class T, bool C = false, bool M = false, bool S = false>
struct Pre {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, C>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, M>;
  using propagate_on_container_swap = std::integral_constant<bool, S>;
  int id = 0;
  Pre select_on_container_copy_construction() const { Pre p; p.id = id + 100; return p; }
  T* allocate(size_t n) {
    CHECKM(n <= 16, "within the harness bounds");
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    for (size_t i = 0; i < n; i++) p[i] = g_pre[i];
    g_handed++;
    g_last = p;
    return p;
  }
  void deallocate(T* p, size_t n) { g_back++; ::operator delete(p); (void)n; }
  friend bool operator==(const Pre& a, const Pre& b) { return a.id == b.id; }
  friend bool operator!=(const Pre& a, const Pre& b) { return a.id != b.id; }
};
template <class Al> static Al with_id(int id) { Al a; a.id = id; return a; }
static void prefill() { for (int i = 0; i < 16; i++) g_pre[i] = (int)vs_sym("memory", -1000, 1000); }

template <class S> struct Sh;
template <> struct Sh<shape<>> { static shape<> get() { return shape<>(); } };
template <> struct Sh<dense_shape<1>> { static dense_shape<1> get() { return dense_shape<1>(dense_dim<>(vs_sym("min", -50, 50), vs_choose("ext", 0, 3))); } };
template <> struct Sh<shape_of_rank<2>> {
  static shape_of_rank<2> get() {
    i64 x = vs_choose("x", 0, 2), y = vs_choose("y", 0, 2);
    switch (vs_choose("layout", 0, 2)) {
    case 0: return shape_of_rank<2>(dim<>(0, x), dim<>(vs_sym("min", -50, 50), y));
    case 1: return shape_of_rank<2>(dim<>(0, x, 2), dim<>(0, y, 5));
    default: return shape_of_rank<2>(dim<>(3, x, -1), dim<>(0, y, 4));
    }
  }
};
template <> struct Sh<shape<dim<0, 3, 2>>> { static shape<dim<0, 3, 2>> get() { return shape<dim<0, 3, 2>>(); } };

// The memory behind `a` holds `want(flat offset)` at addressed elements and the original contents elsewhere.
template <class A, class W>
static void memory(const A& a, W want) {
  if (!a.base()) return;
  i64 lo = a.shape().flat_min(), n = (i64)a.shape().flat_extent();
  RD r[A::rank() + 1] = {};
  rd(a.shape(), r);
  for (i64 f = 0; f < n; f++) {
    bool addressed = false;
    i64 tot = prod(r, A::rank());
    for (i64 e = 0; e < tot; e++) {
      i64 q = e, o = 0;
      for (size_t k = 0; k < A::rank(); k++) { o += q % r[k].ext * r[k].str; q /= r[k].ext; }
      addressed |= o - lo == f;
    }
    CHECKM(a.data()[f] == (addressed ? want(f) : g_pre[f]), "memory contents");
  }
}
template <class S>
static void t_std() {
  vs_opt("forkselect", 1);
  g_handed = g_back = 0;
  prefill();
  {
    typedef uninitialized_allocator<Pre<int>> Al;
    typedef array<int, S, Al> A;
    S s = Sh<S>::get();
    int v = (int)vs_sym("v", -99, 99);
    auto left = [](i64 f) { return g_pre[f]; };
    auto value = [v](i64) { return v; };
    switch (vs_choose("op", 0, 8)) {
    case 0: { A a(s); memory(a, left); break; }
    case 1: { A a(s, v); memory(a, value); break; }
    case 2: { A a(s, v), b(a); memory(b, value); break; }
    case 3: { A a(s, v, with_id<Al>(1)), b(std::move(a), with_id<Al>(2)); CHECKM(a.base() == nullptr || a.base() != b.base(), "individually"); memory(b, value); break; }
    case 4: { A a(s, v, with_id<Al>(1)), b(s, with_id<Al>(2)); b = std::move(a); memory(b, value); break; }
    case 5: { A a(s, v), b; b = a; memory(b, value); A c(s); c = a; memory(c, value); break; }
    case 6: { A a(s, v); a.clear(); memory(a, left); a.assign(s, v); memory(a, value); break; }
    case 7: { A a; a.reshape(s); memory(a, left); a.assign(s, v); break; }
    case 8: { A a(s, with_id<Al>(7)); CHECKM(a.get_allocator().id == 7, "the given allocator"); auto b = make_array<int>(s, v, with_id<Al>(8)); memory(b, value); break; }
    }
  }
  CHECKM(g_handed == g_back && vs_live() == 0, "everything is returned through the wrapped allocator");
  vs_reach("std");
}
VS_HARNESS(P22_r0) { t_std<shape<>>(); }
VS_HARNESS(P22_d1) { t_std<dense_shape<1>>(); }
VS_HARNESS(P22_g2) { t_std<shape_of_rank<2>>(); }
VS_HARNESS(P22_f1) { t_std<shape<dim<0, 3, 2>>>(); }

// Traits and equality are the wrapped allocator's.
template <class B>
static void t_traits() {
  typedef uninitialized_allocator<B> U;
  typedef std::allocator_traits<B> TB;
  typedef std::allocator_traits<U> TU;
  CHECKM(bool(TU::propagate_on_container_copy_assignment::value) == bool(TB::propagate_on_container_copy_assignment::value), "copy assignment propagation");
  CHECKM(bool(TU::propagate_on_container_move_assignment::value) == bool(TB::propagate_on_container_move_assignment::value), "move assignment propagation");
  CHECKM(bool(TU::propagate_on_container_swap::value) == bool(TB::propagate_on_container_swap::value), "swap propagation");
}
template <bool C, bool M, bool S>
static void t_prop() {
  vs_opt("forkselect", 1);
  typedef Pre<int, C, M, S> B;
  typedef uninitialized_allocator<B> U;
  t_traits<B>();
  g_handed = g_back = 0;
  prefill();
  int x = (int)vs_sym("id", 0, 3), y = (int)vs_sym("id", 0, 3);
  U a = with_id<U>(x), b = with_id<U>(y);
  CHECKM((a == b) == (x == y) && (a != b) == (x != y), "equality is the wrapped allocator's");
  {
    typedef array<int, dense_shape<1>, U> A;
    A p(dense_shape<1>(2), 5, a), q(dense_shape<1>(3), 6, b);
    switch (vs_choose("op", 0, 4)) {
    case 4: { A t(p); CHECKM(t.get_allocator().id == x + 100, "the wrapped allocator selects the allocator of copies"); break; }
    case 0: p = (const A&)q; CHECKM(p.get_allocator().id == (C ? y : x), "copy assignment"); break;
    case 1: p = std::move(q); CHECKM(p.get_allocator().id == (M ? y : x), "move assignment"); break;
    case 2: if (M && !S) break; swap(p, q); CHECKM(p.get_allocator().id == (S ? y : x), "swap"); break;
    case 3: { A t(std::move(q)); CHECKM(t.get_allocator().id == (M ? y : 0), "move construction"); break; }
    }
  }
  CHECKM(g_handed == g_back && vs_live() == 0, "everything is returned");
  vs_reach("prop");
}
VS_HARNESS(P22_p000) { t_prop<false, false, false>(); }
VS_HARNESS(P22_p001) { t_prop<false, false, true>(); }
VS_HARNESS(P22_p010) { t_prop<false, true, false>(); }
VS_HARNESS(P22_p100) { t_prop<true, false, false>(); }
VS_HARNESS(P22_p111) { t_prop<true, true, true>(); }
VS_HARNESS(P22_traits) {
  t_traits<std::allocator<int>>();
  t_traits<auto_allocator<int, 4>>();
  uninitialized_std_allocator<int> a, b;
  CHECKM(a == b && !(a != b), "standard allocators are equal");
  uninitialized_auto_allocator<int, 4> c, d;
  CHECKM(c == d && !(c != d), "unused automatic allocators are equal");
  int* p = c.allocate(2);
  CHECKM((char*)p >= (char*)&c && (char*)p < (char*)(&c + 1), "served from the buffer");
  CHECKM(c != d && !(c == d), "used automatic allocators are not");
  int* q = c.allocate(2);
  CHECKM(!((char*)q >= (char*)&c && (char*)q < (char*)(&c + 1)), "not served twice");
  c.deallocate(q, 2);
  c.deallocate(p, 2);
  CHECKM(c == d && vs_live() == 0, "returned");
  vs_reach("traits");
}

// Automatic storage: the bytes of the buffer are left alone.
VS_HARNESS(P22_auto) {
  vs_opt("forkselect", 1);
  typedef dense_array<int, 1, uninitialized_auto_allocator<int, 4>> A;
  alignas(A) static int raw[sizeof(A) / sizeof(int)];
  for (size_t i = 0; i < sizeof(A) / sizeof(int); i++) raw[i] = (int)vs_sym("memory", -1000, 1000);
  int copy[sizeof(A) / sizeof(int)];
  for (size_t i = 0; i < sizeof(A) / sizeof(int); i++) copy[i] = raw[i];
  i64 n = vs_choose("n", 1, 4);
  int v = (int)vs_sym("v", -99, 99);
  {
    A* a = new (raw) A(dense_shape<1>(n));
    i64 k = a->base() - raw;
    CHECKM(k >= 0 && k + n <= (i64)(sizeof(A) / sizeof(int)), "in the buffer");
    for (i64 i = 0; i < n; i++) CHECKM((*a)(i) == copy[k + i], "default constructed elements are not written");
    a->assign(dense_shape<1>(n), v);
    for (i64 i = 0; i < n; i++) CHECKM((*a)(i) == v, "elements constructed from a value are written");
    A b(*a);
    for (i64 i = 0; i < n; i++) CHECKM(b(i) == v, "copied elements are written");
    A c(std::move(b));
    for (i64 i = 0; i < n; i++) CHECKM(c(i) == v, "moved elements are written");
    a->~A();
  }
  CHECKM(vs_live() == 0, "everything is returned");
  vs_reach("auto");
}
VS_HARNESS(P22_std_values) { // with the standard allocator: every value-constructed element is initialised
  vs_opt("forkselect", 1);
  {
    typedef array<int, shape_of_rank<2>, uninitialized_std_allocator<int>> A;
    int v = (int)vs_sym("v", -99, 99);
    auto s = Sh<shape_of_rank<2>>::get();
    A a(s, v), b(a), c(s);
    c = b;
    CHECKM(a == b && b == c, "equal");
    i64 n = 0;
    c.for_each_value([&](int& x) { CHECKM(x == v, "value"); n++; });
    CHECKM(n == (i64)s.size(), "every element");
  }
  CHECKM(vs_live() == 0, "everything is returned");
  vs_reach("std values");
}
