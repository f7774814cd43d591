// Histories of operations on two owning arrays `a` and `b`, against a model of their shapes and values
// (P17, P18) and of the set of live elements (P16).  Define ARR_LIFE / ARR_VALUES / ARR_ALLOC before including.
#pragma once
#include "common.h"
using namespace nda;

static const i64 DEFV = 4242; // value of a default constructed element
#ifdef ARR_LIFE
static const void* g_alive[96];
static int g_nalive;
static int alive_at(const void* p) {
  for (int i = 0; i < g_nalive; i++)
    if (g_alive[i] == p) return i;
  return -1;
}
static void born(const void* p) {
  CHECKM(alive_at(p) < 0, "element constructed while already alive");
  CHECKM(g_nalive < 96, "element count");
  g_alive[g_nalive++] = p;
}
static void need(const void* p, const char* m) { CHECKM(alive_at(p) >= 0, m); }
static void dies(const void* p) {
  int i = alive_at(p);
  CHECKM(i >= 0, "element destroyed while not alive");
  if (i >= 0) g_alive[i] = g_alive[--g_nalive];
}
#else
static void born(const void*) {}
static void need(const void*, const char*) {}
static void dies(const void*) {}
#endif

struct El {
  i64 v;
  El() : v(DEFV) { born(this); }
  explicit El(i64 x) : v(x) { born(this); }
  El(const El& o) : v(o.v) { need(&o, "copy from an element that is not alive"); born(this); }
  El(El&& o) : v(o.v) { need(&o, "move from an element that is not alive"); o.v = -1; born(this); }
  El& operator=(const El& o) { need(this, "assignment to an element that is not alive"); need(&o, "assignment from an element that is not alive"); v = o.v; return *this; }
  El& operator=(El&& o) {
    need(this, "assignment to an element that is not alive"); need(&o, "assignment from an element that is not alive");
    i64 x = o.v;
    o.v = -1;
    v = x;
    return *this;
  }
  ~El() { dies(this); }
  bool operator==(const El& o) const { return v == o.v; }
  bool operator!=(const El& o) const { return v != o.v; }
};
// Element that cannot be copied.
struct Mo : El {
  Mo() {}
  explicit Mo(i64 x) : El(x) {}
  Mo(Mo&&) = default;
  Mo& operator=(Mo&&) = default;
};

enum { MAXE = 12 };
template <size_t R>
struct Model {
  bool owns;  // the array has storage
  bool known; // element values are known
  RD r[R + 1];
  i64 val[MAXE];
  i64 n() const { return prod(r, R); }
};
template <size_t R>
static bool same_shape(const Model<R>& a, const Model<R>& b) {
  bool s = true;
  for (size_t k = 0; k < R; k++) s = s & (a.r[k].min == b.r[k].min) & (a.r[k].ext == b.r[k].ext) & (a.r[k].str == b.r[k].str);
  return s;
}
// the index of the n-th element, dimension 0 innermost
template <size_t R>
static void nth(const Model<R>& m, i64 n, i64* v) {
  for (size_t k = 0; k < R; k++) { v[k] = m.r[k].min + n % m.r[k].ext; n /= m.r[k].ext; }
}

template <class A>
struct Arr {
  static constexpr size_t R = A::rank();
  typedef typename A::shape_type S;
  typedef typename A::value_type T;
  typedef Model<R> M;

  static void shape_of(const A& a, M& m) { rd(a.shape(), m.r); }
  // A constructed array's value
  static void verify(const A& a, const M& m, const char* what) {
    RD r[R + 1] = {};
    rd(a.shape(), r);
    if (m.owns) {
      for (size_t k = 0; k < R; k++) CHECKM(r[k].min == m.r[k].min && r[k].ext == m.r[k].ext && r[k].str == m.r[k].str, what);
      CHECKM(m.n() == 0 || a.base() != nullptr, "an array with elements has storage");
    } else {
      CHECKM(a.base() == nullptr, "no storage");
    }
    if (!m.owns || !m.known) return;
    i64 v[R + 1];
    for (i64 e = 0; e < m.n(); e++) { nth(m, e, v); CHECKM(a[tup<R>(v)].v == m.val[e], what); }
  }
  static i64 elements(const A& a) { return a.base() ? (i64)a.size() : 0; }
#ifdef ARR_LIFE
  static void all_alive(const A& a) {
    if (!a.base()) return;
    M m = {};
    shape_of(a, m);
    i64 v[R + 1];
    for (i64 e = 0; e < m.n(); e++) { nth(m, e, v); CHECKM(alive_at(&a[tup<R>(v)]) >= 0, "every addressed element of the array is alive"); }
  }
#endif
};

// Exactly the elements of the given arrays are alive.
template <class A>
static void balanced(const A& a, const A& b, i64 extra = 0) {
#ifdef ARR_LIFE
  Arr<A>::all_alive(a);
  Arr<A>::all_alive(b);
  CHECKM(g_nalive == Arr<A>::elements(a) + Arr<A>::elements(b) + extra, "the live elements are exactly those addressed by the arrays");
#else
  (void)a; (void)b; (void)extra;
#endif
}
