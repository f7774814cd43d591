// BOUND: every combination of propagate_on_container_{copy,move}_assignment and _swap, equal and unequal stateful allocators (ids symbolic), allocators with and without a select_on_container_copy_construction; single operations (thorough: 2-step histories) out of 17 (make_copy, make_move and their compact forms, from arrays, refs and rvalues, counting as one) on two arrays of rank 1 or 2 starting default constructed, with elements or moved-from; extents 0..2; element values symbolic
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#define ARR_VALUES
#include "arrmodel.h"

// Every block handed out, with the allocator it came from.
struct Blk { void* p; size_t n; i64 id; };
static Blk g_blk[24];
static int g_nblk;
static i64 g_handed, g_constructed, g_destroyed;
template <class T, bool POCCA, bool POCMA, bool POCS, bool SEL>
struct Log {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, POCCA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, POCMA>;
  using propagate_on_container_swap = std::integral_constant<bool, POCS>;
  using is_always_equal = std::false_type;
  i64 id;
  Log() : id(0) {}
  explicit Log(i64 i) : id(i) {}
  Log select_on_container_copy_construction() const { return SEL ? Log(id + 1000) : *this; }
  T* allocate(size_t n) {
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    CHECKM(n > 0, "no empty requests");
    g_blk[g_nblk++] = Blk{p, n, id};
    g_handed++;
    return p;
  }
  void deallocate(T* p, size_t n) {
    int k = -1;
    for (int i = 0; i < g_nblk; i++) if (g_blk[i].p == p) k = i;
    CHECKM(k >= 0, "only memory obtained from an allocator is returned, once");
    if (k < 0) return;
    CHECKM(g_blk[k].n == n, "returned with the size it was requested with");
    CHECKM(g_blk[k].id == id, "returned to an allocator equal to the one it came from");
    g_blk[k] = g_blk[--g_nblk];
    ::operator delete(p);
  }
  template <class U, class... Args>
  void construct(U* p, Args&&... args) { g_constructed++; ::new ((void*)p) U(std::forward<Args>(args)...); }
  template <class U>
  void destroy(U* p) { g_destroyed++; p->~U(); }
  friend bool operator==(const Log& a, const Log& b) { return a.id == b.id; }
  friend bool operator!=(const Log& a, const Log& b) { return a.id != b.id; }
};

template <class S> struct Sh;
template <> struct Sh<dense_shape<1>> { static dense_shape<1> get(int k) { return dense_shape<1>(dense_dim<>(vs_sym("min", -50, 50), k)); } };
template <> struct Sh<shape_of_rank<2>> { static shape_of_rank<2> get(int k) { return shape_of_rank<2>(dim<>(vs_sym("min", -50, 50), k, k == 1 ? 3 : (i64)unresolved), dim<>(0, 2)); } };
template <> struct Sh<shape<dim<0, 2, 1>>> { static shape<dim<0, 2, 1>> get(int) { return shape<dim<0, 2, 1>>(); } };

template <class S, bool POCCA, bool POCMA, bool POCS, bool SEL>
struct T {
  typedef Log<El, POCCA, POCMA, POCS, SEL> L;
  typedef array<El, S, L> A;
  typedef Arr<A> AR;
  typedef typename AR::M M;
  static constexpr size_t R = A::rank();
  static M model(const S& s0, i64 v) {
    S s = s0;
    s.resolve();
    M m = {};
    m.owns = m.known = true;
    rd(s, m.r);
    for (i64 e = 0; e < m.n(); e++) m.val[e] = v;
    return m;
  }
  static M peek(const A& a) {
    M m = {};
    m.owns = a.base() != nullptr;
    rd(a.shape(), m.r);
    return m;
  }
  static bool valid(const M& m) { return m.owns || m.n() == 0; }
  // blocks currently held with this id
  template <class B>
  static void id_is(const B& a, i64 id, const char* what) {
    CHECKM(a.get_allocator().id == id, what);
    if (!a.base()) return;
    int k = -1;
    for (int i = 0; i < g_nblk; i++) if (g_blk[i].p == (const void*)a.data()) k = i;
    if (k >= 0) CHECKM(g_blk[k].id == id, "the array's memory came from its allocator");
  }
  // a result returned by value keeps its allocator only if it propagates on moves
  template <class B>
  static void made(const B& t, i64 z) { id_is(t, POCMA ? z : t.get_allocator().id, "the given allocator is used"); }
  // the same elements, whatever their strides
  template <class B>
  static void compact(const B& t, const M& m) {
    RD r[R + 1] = {};
    rd(t.shape(), r);
    for (size_t k = 0; k < R; k++) CHECKM(r[k].min == m.r[k].min && r[k].ext == m.r[k].ext, "same interval");
    i64 v[R + 1];
    for (i64 e = 0; m.known && e < m.n(); e++) { nth(m, e, v); CHECKM(t[tup<R>(v)].v == m.val[e], "same elements"); }
  }
  static void op(int k, A& a, M& am, i64& ai, A& b, M& bm, i64& bi) {
    const A& ca = a;
    const A& cb = b;
    const El* bp = b.base();
    i64 h = g_handed;
    switch (k) {
    case 0: if (!valid(am) || !valid(bm)) return;
      a = cb; am = bm; if (POCCA) ai = bi; break;
    case 1: { if (!valid(am) || !valid(bm)) return;
      M m = bm;
      bool exch = POCMA || ai == bi;
      a = std::move(b);
      am = m; bm = peek(b);
      if (exch) CHECKM(a.base() == bp && g_handed == h, "the memory is taken over");
      else if (bp && m.n()) CHECKM(a.base() != bp, "elements are transferred individually");
      if (POCMA) { ai = bi; bi = b.get_allocator().id; }
      break; }
    case 2: { if (!valid(bm)) return; A t(cb); AR::verify(t, bm, "copy"); id_is(t, SEL ? bi + 1000 : bi, "copy construction selects the allocator"); break; }
    case 3: { if (!valid(bm)) return; i64 z = vs_sym("id", 0, 3); A t(cb, L(z)); AR::verify(t, bm, "copy"); id_is(t, z, "the given allocator is used"); break; }
    case 4: { M m = bm;
      if (!valid(bm)) return;
      A t(std::move(b));
      AR::verify(t, m, "move");
      bm = peek(b);
      i64 ti = POCMA ? bi : 0;
      id_is(t, ti, "move construction");
      if (POCMA || bi == 0) CHECKM(t.base() == bp && g_handed == h, "the memory is taken over");
      else if (bp && m.n()) CHECKM(t.base() != bp, "elements are transferred individually");
      bi = POCMA ? b.get_allocator().id : bi;
      break; }
    case 5: { M m = bm;
      if (!valid(bm)) return;
      i64 z = vs_sym("id", 0, 3);
      bool eq = z == bi;
      A t(std::move(b), L(z));
      AR::verify(t, m, "move");
      bm = peek(b);
      id_is(t, z, "the given allocator is used");
      if (eq) CHECKM(t.base() == bp && g_handed == h, "the memory is taken over");
      else if (bp && m.n()) CHECKM(t.base() != bp, "elements are transferred individually");
      break; }
    case 6: { if (!valid(am) || !valid(bm)) return;
      const El* ap = a.base();
      swap(a, b);
      M m = am; am = bm; bm = m;
      if (POCS) {
        i64 i = ai; ai = bi; bi = i;
        CHECKM(a.base() == bp && b.base() == ap && g_handed == h, "swap exchanges the memory");
      } else if (POCMA && ai != bi) { // exchanging unequal allocators that do not propagate is up to the container
        ai = a.get_allocator().id; bi = b.get_allocator().id;
      }
      break; }
    case 7: a.clear(); am = model(S(), DEFV); break;
    case 8: { S s = Sh<S>::get((int)vs_choose("ext", 0, 2)); a.assign(s, El(7)); am = model(s, 7); break; }
    case 9: { if (!valid(am)) return; S s = Sh<S>::get((int)vs_choose("ext", 0, 2)); a.reshape(s); am = peek(a); am.known = false; break; }
    case 10: if (!valid(am) || !valid(bm)) return;
      a.assign(cb); am = bm; break;
    case 11: { if (!valid(am) || !valid(bm)) return; M m = bm; a.assign(std::move(b)); am = m; bm = peek(b); break; }
    case 12: { S s = Sh<S>::get(2); i64 z = vs_sym("id", 0, 3); A t(s, L(z)); AR::verify(t, model(s, DEFV), "made"); id_is(t, z, "the given allocator is used"); A u(s, El(3), L(z)); AR::verify(u, model(s, 3), "made"); id_is(u, z, "the given allocator is used"); A w{L(z)}; id_is(w, z, "the given allocator is used"); break; }
    case 13: { S s = Sh<S>::get(1); A t(s); id_is(t, 0, "default allocator"); A u(s, El(3)); id_is(u, 0, "default allocator"); A w; id_is(w, 0, "default allocator"); break; }
    case 14: { if (!valid(bm)) return; i64 z = vs_sym("id", 0, 3);
      const S sh = b.shape();
      switch (vs_choose("how", 0, 11)) {
      case 0: { auto t = make_copy(b, L(z)); AR::verify(t, bm, "make_copy"); made(t, z); break; }
      case 1: { auto t = make_copy(b.cref(), L(z)); AR::verify(t, bm, "make_copy"); made(t, z); break; }
      case 2: { auto t = make_copy(b, sh, L(z)); AR::verify(t, bm, "make_copy"); made(t, z); break; }
      case 3: { auto t = make_copy(b.cref(), sh, L(z)); AR::verify(t, bm, "make_copy"); made(t, z); break; }
      case 4: { auto t = make_compact_copy(b, L(z)); compact(t, bm); made(t, z); break; }
      case 5: { auto t = make_compact_copy(b.cref(), L(z)); compact(t, bm); made(t, z); break; }
      case 6: { M m = bm; auto t = make_move(b, sh, L(z)); AR::verify(t, m, "make_move"); made(t, z); bm.known = false; break; }
      case 7: { M m = bm; auto t = make_move(b.ref(), sh, L(z)); AR::verify(t, m, "make_move"); made(t, z); bm.known = false; break; }
      case 8: { M m = bm; auto t = make_compact_move(b, L(z)); compact(t, m); made(t, z); bm.known = false; break; }
      case 9: { M m = bm; auto t = make_compact_move(b.ref(), L(z)); compact(t, m); made(t, z); bm.known = false; break; }
      case 10: { M m = bm; auto t = make_move(std::move(b), sh, L(z)); AR::verify(t, m, "make_move"); made(t, z); bm = peek(b); bm.known = false; break; }
      case 11: { M m = bm; auto t = make_compact_move(std::move(b), L(z)); compact(t, m); made(t, z); bm = peek(b); bm.known = false; break; }
      }
      break; }
    case 15: { S s = Sh<S>::get(1); i64 z = vs_sym("id", 0, 3); auto t = make_array<El>(s, L(z)); AR::verify(t, model(s, DEFV), "make_array"); if (POCMA) id_is(t, z, "make_array"); auto u = make_array<El>(s, El(9), L(z)); AR::verify(u, model(s, 9), "make_array"); if (POCMA) id_is(u, z, "make_array"); break; }
    case 16: if (!valid(am)) return;
      a = ca; break;
    }
  }
  static void run(int steps) {
    vs_opt("forkselect", 1);
    g_nblk = 0; g_handed = g_constructed = g_destroyed = 0;
    {
      i64 ai = vs_sym("id a", 0, 2), bi = vs_sym("id b", 0, 2);
      A a{L(ai)}, b{L(bi)};
      M am = model(S(), DEFV), bm = am;
      A* xs[] = {&a, &b};
      M* ms[] = {&am, &bm};
      i64 is[] = {ai, bi};
      for (int q = 0; q < 2; q++) {
        int k = vs_choose("start", 0, 2);
        if (k == 0) continue;
        S s = Sh<S>::get((int)vs_choose("ext", 1, 2));
        A t(s, L(is[q]));
        *ms[q] = model(s, DEFV);
        i64 v[R + 1];
        for (i64 e = 0; e < ms[q]->n(); e++) { nth(*ms[q], e, v); t[tup<R>(v)].v = ms[q]->val[e] = vs_sym("val", -100, 100); }
        *xs[q] = std::move(t);
        if (k == 2) { A u(std::move(*xs[q]), L(is[q])); *ms[q] = peek(*xs[q]); }
      }
      for (int s = 0; s < steps; s++) {
        int k = vs_choose("op", 0, 16);
        if (s && vs_choose("roles", 0, 1)) op(k, b, bm, bi, a, am, ai);
        else op(k, a, am, ai, b, bm, bi);
        AR::verify(a, am, "values"); AR::verify(b, bm, "values");
        id_is(a, ai, "the array's allocator"); id_is(b, bi, "the other array's allocator");
      }
    }
    CHECKM(g_nblk == 0 && vs_live() == 0, "every block is returned");
    CHECKM(g_constructed == g_destroyed, "elements are constructed and destroyed through the allocator");
    vs_reach("done");
  }
};
template <class S, bool C, bool M, bool W, bool SEL> static void go() { T<S, C, M, W, SEL>::run(VS_T(1, 2)); }
typedef dense_shape<1> D1;
VS_HARNESS(P18_000) { go<D1, false, false, false, false>(); }
VS_HARNESS(P18_001) { go<D1, false, false, true, false>(); }
VS_HARNESS(P18_010) { go<D1, false, true, false, false>(); }
VS_HARNESS(P18_011) { go<D1, false, true, true, false>(); }
VS_HARNESS(P18_100) { go<D1, true, false, false, false>(); }
VS_HARNESS(P18_101) { go<D1, true, false, true, false>(); }
VS_HARNESS(P18_110) { go<D1, true, true, false, false>(); }
VS_HARNESS(P18_111) { go<D1, true, true, true, false>(); }
VS_HARNESS(P18_000s) { go<D1, false, false, false, true>(); }
VS_HARNESS(P18_111s) { go<D1, true, true, true, true>(); }
VS_HARNESS(P18_g2_000) { go<shape_of_rank<2>, false, false, false, false>(); }
VS_HARNESS(P18_g2_101) { go<shape_of_rank<2>, true, false, true, true>(); }
VS_HARNESS(P18_g2_010) { go<shape_of_rank<2>, false, true, false, false>(); }
VS_HARNESS(P18_f_000) { go<shape<dim<0, 2, 1>>, false, false, false, false>(); }
VS_HARNESS(P18_f_111) { go<shape<dim<0, 2, 1>>, true, true, true, false>(); }
