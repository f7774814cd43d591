// BOUND: larger arrays: ranks 1-3, 5, concrete extents up to 130 (thorough 520), dense, transposed, padded, reversed, strided layouts; one construction or assignment from {shape, shape+value, copy, copy+allocator, move, move+allocator, copy assignment, move assignment, assign, assign shape, clear, swap, reshape} onto an array that is default constructed, of the same shape, or smaller; equal and unequal allocators
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "plain.h"
using namespace nda;

// one flag per byte of the memory elements may live in
static const int POOL = 16384;
static char g_pool[POOL], g_alive[POOL];
static i64 g_top, g_n;
struct B1 {
  char v;
  i64 at() const { return (const char*)this - g_pool; }
  bool is() const { i64 a = at(); return a >= 0 && a < POOL && g_alive[a]; }
  void born() { i64 a = at(); if (a < 0 || a >= POOL) return; CHECKM(!g_alive[a], "element constructed while already alive"); g_alive[a] = 1; g_n++; }
  void use() const { i64 a = at(); if (a < 0 || a >= POOL) return; CHECKM(g_alive[a], "use of an element that is not alive"); }
  B1() : v(1) { born(); }
  explicit B1(char x) : v(x) { born(); }
  B1(const B1& o) : v(o.v) { o.use(); born(); }
  B1(B1&& o) : v(o.v) { o.use(); born(); }
  B1& operator=(const B1& o) { use(); o.use(); v = o.v; return *this; }
  B1& operator=(B1&& o) { use(); o.use(); v = o.v; return *this; }
  ~B1() { i64 a = at(); if (a < 0 || a >= POOL) return; CHECKM(g_alive[a], "element destroyed while not alive"); g_alive[a] = 0; g_n--; }
  bool operator!=(const B1& o) const { return v != o.v; }
};
template <class T>
struct Pool {
  using value_type = T;
  using propagate_on_container_move_assignment = std::false_type;
  using is_always_equal = std::false_type;
  int id;
  Pool(int id = 0) : id(id) {}
  T* allocate(size_t n) { T* p = (T*)(g_pool + g_top); g_top += (i64)n; CHECKM(g_top <= POOL, "memory asked for"); return p; }
  void deallocate(T* p, size_t n) { for (size_t i = 0; i < n; i++) CHECKM(!g_alive[(char*)(p + i) - g_pool], "memory returned with live elements"); }
  friend bool operator==(const Pool& a, const Pool& b) { return a.id == b.id; }
  friend bool operator!=(const Pool& a, const Pool& b) { return a.id != b.id; }
};
template <class S>
struct L {
  static constexpr size_t R = S::rank();
  typedef array<B1, S, Pool<B1>> A;
  static i64 count(const A& a) {
    if (!a.base()) return 0;
    i64 e[R + 1] = {}, s[R + 1] = {}, n = 0;
    RD r[R + 1] = {};
    rd(a.shape(), r);
    for (size_t k = 0; k < R; k++) { e[k] = r[k].ext; s[k] = r[k].str; }
    bool all = true;
    each_pos<R>(e, [&](const i64* p) { all = all & a.base()[dot<R>(p, s)].is(); n++; });
    CHECKM(all, "every addressed element of the array is alive");
    return n;
  }
  static void run() {
    vs_opt("forkselect", 1);
    i64 e[R + 1] = {}, m[R + 1] = {}, e2[R + 1] = {}, e3[R + 1] = {};
    choose_exts<R>(e);
    Lay<R> l = layout<R>(choose_layout<S>("layout", false), e);
    ASSUME(fits<S>(l.str));
    for (int i = 0; i < POOL; i++) g_alive[i] = 0;
    g_top = g_n = 0;
    {
      S s = mkx<S>(m, e, l.str);
      A src(s, Pool<B1>(1));
      i64 op = vs_choose("op", 0, 12);
      i64 before = op >= 5 && op <= 11 ? vs_choose("before", 0, 2) : 0, id = op >= 2 && op != 3 && op <= 11 ? vs_choose("id", 0, 1) : 0;
      for (size_t k = 0; k < R; k++) { e2[k] = e[k]; e3[k] = e[k] > 2 ? e[k] - 1 : e[k] + 1; }
      if (before == 2) e2[R - 1] = 1;
      S s2 = mkx<S>(m, e2, layout<R>(DENSE, e2).str), s3 = mkx<S>(m, e3, layout<R>(DENSE, e3).str);
      A dst = before == 0 ? A(Pool<B1>((int)id)) : A(s2, Pool<B1>((int)id));
      A x(Pool<B1>(0));
      CHECKM(g_n == count(src) + count(dst), "the live elements are those addressed by the arrays");
      switch (op) {
      case 0: { A y(s, B1(3)); CHECKM(g_n == count(src) + count(dst) + count(y), "constructed"); break; }
      case 1: { A y(src); CHECKM(g_n == count(src) + count(dst) + count(y), "constructed"); break; }
      case 2: { A y(src, Pool<B1>((int)id)); CHECKM(g_n == count(src) + count(dst) + count(y), "constructed"); break; }
      case 3: { A y(std::move(src)); CHECKM(g_n == count(src) + count(dst) + count(y), "constructed"); break; }
      case 4: { A y(std::move(src), Pool<B1>((int)id)); CHECKM(g_n == count(src) + count(dst) + count(y), "constructed"); break; }
      case 5: dst = src; break;
      case 6: dst = std::move(src); break;
      case 7: dst.assign(src); break;
      case 8: dst.assign(std::move(src)); break;
      case 9: dst.assign(s, B1(5)); break;
      case 10: dst.clear(); src.clear(); break;
      case 11: if (dst.get_allocator() == src.get_allocator()) { using std::swap; swap(dst, src); } break;
      case 12: src.reshape(s3); break;
      }
      CHECKM(g_n == count(src) + count(dst), "the live elements are those addressed by the arrays");
      if (count(dst) + count(src) > 8) vs_reach("done");
    }
    CHECKM(g_n == 0, "no element is alive in the end");
  }
};
VS_HARNESS(P16_pl_g1) { L<shape_of_rank<1>>::run(); }
VS_HARNESS(P16_pl_d2) { L<dense_shape<2>>::run(); }
VS_HARNESS(P16_pl_g2) { L<shape_of_rank<2>>::run(); }
VS_HARNESS(P16_pl_g3) { L<shape_of_rank<3>>::run(); }
VS_HARNESS(P16_pl_g5) { L<shape_of_rank<5>>::run(); }
