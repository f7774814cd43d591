// BOUND: plain elements (char, int, double, 3- and 16-byte structs): ranks 1-3, 5, concrete extents up to 130 (thorough 520), dense, transposed, padded, reversed, strided layouts, arbitrary contents; one construction or assignment from {shape, shape+value, copy, copy+allocator, move, copy assignment, move assignment, assign, clear, swap} onto an array that is default constructed, of the same shape, of the same bounds with other strides, or smaller
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
#include <memory>
using namespace nda;

template <class T, class S>
struct Case {
  static constexpr size_t R = S::rank();
  i64 e[R + 1] = {}, m[R + 1] = {};
  Lay<R> l;
  T* v = nullptr; // values by flat offset (within the layout)
  ~Case() { std::free(v); }
  S shape() const { return mkx<S>(m, e, l.str); }
  template <class A>
  void put(A& a) const { each_pos<R>(e, [&](const i64* p) { i64 o = dot<R>(p, l.str); a.base()[o] = v[l.lo + o]; }); }
  template <class A>
  void expect(const A& a) const {
    CHECKM(a.shape() == shape(), "shape");
    each_pos<R>(e, [&](const i64* p) { i64 o = dot<R>(p, l.str); CHECKM(bits(a.base()[o], v[l.lo + o]), "value at each index"); });
  }
  template <class A>
  void expect(const A& a, const T& x) const {
    CHECKM(a.shape() == shape(), "shape");
    each_pos<R>(e, [&](const i64* p) { CHECKM(bits(a.base()[dot<R>(p, l.str)], x), "every element has the value"); });
  }
};
template <class T, class S, class Alloc = std::allocator<T>>
void t() {
  constexpr size_t R = S::rank();
  typedef array<T, S, Alloc> A;
  vs_opt("forkselect", 1);
  Case<T, S> c;
  choose_exts<R>(c.e);
  for (size_t k = 0; k < R; k++) c.m[k] = vs_sym("min", -P2(16), P2(16));
  c.l = layout<R>(choose_layout<S>("layout", false), c.e);
  ASSUME(fits<S>(c.l.str));
  c.v = any_buffer<T>(c.l.n, "v");
  T w = any_<T>::get("value");
  A src(c.shape());
  c.expect(src, T());
  c.put(src);
  c.expect(src);
  // the target before the operation
  i64 before = vs_choose("before", 0, 3);
  i64 e2[R + 1] = {};
  for (size_t k = 0; k < R; k++) e2[k] = c.e[k];
  if (before == 3) e2[R - 1] = 1;
  Lay<R> l2 = layout<R>(before == 1 ? 0 : (int)DENSE, e2);
  S s2 = before == 1 ? c.shape() : mkx<S>(c.m, e2, l2.str);
  A dst = before == 0 ? A() : A(s2, w);
  i64 op = vs_choose("op", 0, 9);
  switch (op) {
  case 0: { A x(c.shape(), w); c.expect(x, w); break; }
  case 1: { A x(src); c.expect(x); c.put(x); break; }
  case 2: { A x(src, Alloc()); c.expect(x); break; }
  case 3: { A x(std::move(src)); c.expect(x); src = x; c.expect(src); break; }
  case 4: { dst = src; c.expect(dst); c.expect(src); CHECKM(dst.base() != src.base(), "own memory"); break; }
  case 5: { dst = std::move(src); c.expect(dst); break; }
  case 6: { dst.assign(src); c.expect(dst); c.expect(src); break; }
  case 7: { dst.assign(c.shape(), w); c.expect(dst, w); c.expect(src); break; }
  case 8: { using std::swap; swap(dst, src); c.expect(dst); CHECKM(before == 0 || src.shape() == s2, "swapped"); break; }
  case 9: { dst.assign(std::move(src)); c.expect(dst); break; }
  }
  if (c.l.n > 8) vs_reach("done");
}
VS_HARNESS(P17_pl_c1) { t<char, shape_of_rank<1>>(); }
VS_HARNESS(P17_pl_i2) { t<int, dense_shape<2>>(); }
VS_HARNESS(P17_pl_g2) { t<double, shape_of_rank<2>>(); }
VS_HARNESS(P17_pl_t3) { t<P3, shape_of_rank<3>>(); }
VS_HARNESS(P17_pl_p2) { t<P16, dense_shape<2>>(); }
VS_HARNESS(P17_pl_i5) { t<int, shape_of_rank<5>>(); }
VS_HARNESS(P17_pl_au) { t<int, dense_shape<1>, auto_allocator<int, 20>>(); }
VS_HARNESS(P17_pl_m2) { t<Dm, shape_of_rank<2>>(); }
