// BOUND: histories of 5 (thorough: 7) allocate/deallocate calls on one allocator, 4 (5) on two, 3 (4) allocate/deallocate/copy/move/assign/convert calls on two; request sizes 1, N, N+1 and the operations chosen symbolically; N in {1, 3, 4}, element sizes 1, 4, 8, 12, alignments up to 64; buffers aligned exactly as declared
// BOUND: arrays: 3-step histories (thorough: 4) of copy, move, assign, swap, reshape, clear on two arrays of extents 0..3 around N = 2, element values symbolic; small_matrix and small_vector up to 4x4
// VSCONFIG: -
// VSTHOROUGH: ndebug -DNDEBUG
#include "common.h"
#include <array/matrix.h>
using namespace nda;

static i64 g_base;   // blocks out of base allocators
struct BB { const void* p; size_t n; int id; };
static BB g_bb[16];
static int g_ids;
template <class T>
struct Base { // every default constructed one is different from the others
  using value_type = T;
  int id = ++g_ids;
  T* allocate(size_t n) {
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    g_bb[g_base++] = BB{p, n, id};
    return p;
  }
  void deallocate(T* p, size_t n) {
    int k = -1;
    for (int i = 0; i < g_base; i++) if (g_bb[i].p == p) k = i;
    CHECKM(k >= 0, "only the base allocator's blocks are returned to it");
    if (k < 0) return;
    CHECKM(g_bb[k].n == n, "returned with the requested size");
    CHECKM(g_bb[k].id == id, "returned to the base allocator it came from");
    g_bb[k] = g_bb[--g_base];
    ::operator delete(p);
  }
};
struct T12 { int x[3]; };
template <class T> T mkv(i64 v) { return (T)v; }
template <> T12 mkv<T12>(i64 v) { return T12{{(int)v, 0, 0}}; }
template <class T> i64 getv(const T& t) { return (i64)t; }
template <> i64 getv<T12>(const T12& t) { return t.x[0]; }

struct Block { void* p; i64 n; int a; i64 v; };
template <class T, size_t N, size_t A>
void t_api(int steps, int nal, int ops) {
  typedef auto_allocator<T, N, A, Base<T>> Al;
  vs_opt("forkselect", 1);
  g_base = 0;
  {
    Al al[2];
    bool used[2] = {false, false};
    int out[2] = {0, 0}, id[2];
    for (int i = 0; i < 2; i++) {
      T* p = al[i].allocate(N + 1);
      id[i] = g_bb[g_base - 1].id;
      al[i].deallocate(p, N + 1);
    }
    Block b[8];
    int nb = 0;
    for (int s = 0; s < steps; s++) {
      int k = s ? (int)vs_choose("op", 0, ops - 1) : 0, w = s ? (int)vs_choose("which", 0, nal - 1) : 0;
      if (k == 0) {
        i64 sz[] = {1, N, N + 1}, n = sz[vs_choose("size", 0, 2)], g = g_base;
        T* p = al[w].allocate(n);
        bool in = (char*)p >= (char*)&al[w] && (char*)p < (char*)(&al[w] + 1);
        bool want = n <= (i64)N && !used[w];
        CHECKM(in == want && g_base == g + (want ? 0 : 1), "the buffer serves a request exactly when it fits and the buffer is free");
        if (in) {
          used[w] = true;
          CHECKM((char*)(p + n) <= (char*)(&al[w] + 1), "the block lies within the buffer");
          CHECKM(((size_t)p & (A - 1)) == 0, "the buffer is aligned as declared");
        } else {
          out[w]++;
          CHECKM(g_bb[g_base - 1].id == id[w], "other requests are served by its base allocator");
        }
        for (int i = 0; i < nb; i++) CHECKM((char*)(p + n) <= (char*)b[i].p || (char*)b[i].p + b[i].n * sizeof(T) <= (char*)p, "live blocks never overlap");
        i64 v = vs_sym("v", 0, 99);
        for (i64 i = 0; i < n; i++) p[i] = mkv<T>(v);
        b[nb++] = Block{p, n, w, v};
      } else if (k == 1) {
        if (!nb) continue;
        int i = (int)vs_choose("free", 0, nb - 1);
        i64 g = g_base;
        bool in = (char*)b[i].p >= (char*)&al[b[i].a] && (char*)b[i].p < (char*)(&al[b[i].a] + 1);
        T* p = (T*)b[i].p;
        for (i64 j = 0; j < b[i].n; j++) CHECKM(getv<T>(p[j]) == b[i].v, "a live block keeps its contents");
        al[b[i].a].deallocate(p, b[i].n);
        CHECKM(g_base == g - (in ? 0 : 1), "each block is returned where it came from");
        if (in) used[b[i].a] = false;
        else out[b[i].a]--;
        b[i] = b[--nb];
      } else if (k == 2) { // a copy or a moved-to allocator has its own free buffer
        bool mv = vs_choose("move", 0, 1);
        Al c(mv ? Al(std::move(al[w])) : Al(al[w]));
        T* p = c.allocate(N);
        CHECKM((char*)p >= (char*)&c && (char*)p < (char*)(&c + 1), "copied or moved allocators do not inherit the buffer's state");
        for (size_t i = 0; i < N; i++) p[i] = mkv<T>(1);
        T* q = c.allocate(1);
        CHECKM(g_bb[g_base - 1].id == id[w], "copies and moves carry the base allocator over");
        c.deallocate(p, N);
        c.deallocate(q, 1);
      } else if (k == 3) { // assignment does not touch the buffer
        if (out[w]) continue; // the old base allocator has to take its blocks back first
        bool mv = vs_choose("move", 0, 1);
        id[w] = id[1 - w];
        if (mv) al[w] = std::move(al[1 - w]);
        else al[w] = al[1 - w];
      } else {
        auto_allocator<char, 2, 1, Base<char>> o(al[w]);
        char* p = o.allocate(2);
        CHECKM(p >= (char*)&o && p < (char*)(&o + 1), "converted allocators have their own free buffer");
        o.deallocate(p, 2);
        Al c = std::allocator_traits<Al>::select_on_container_copy_construction(al[w]);
        T* q = c.allocate(1);
        CHECKM((char*)q >= (char*)&c && (char*)q < (char*)(&c + 1), "copies for containers have their own free buffer");
        c.deallocate(q, 1);
      }
    }
    for (int i = 0; i < nb; i++) {
      T* p = (T*)b[i].p;
      for (i64 j = 0; j < b[i].n; j++) CHECKM(getv<T>(p[j]) == b[i].v, "a live block keeps its contents");
      al[b[i].a].deallocate(p, b[i].n);
    }
  }
  CHECKM(g_base == 0 && vs_live() == 0, "everything is returned");
  vs_reach("api");
}
VS_HARNESS(P21_int3) { t_api<int, 3, alignof(int)>(VS_T(5, 7), 1, 2); }
VS_HARNESS(P21_char1) { t_api<char, 1, 1>(VS_T(5, 7), 1, 2); }
VS_HARNESS(P21_i64_4a64) { t_api<int64_t, 4, 64>(VS_T(5, 6), 1, 2); }
VS_HARNESS(P21_two) { t_api<T12, 3, 32>(VS_T(4, 5), 2, 2); }
VS_HARNESS(P21_all) { t_api<int, 3, alignof(int)>(VS_T(3, 4), 2, 5); }
VS_HARNESS(P21_all64) { t_api<int64_t, 2, 64>(VS_T(3, 4), 2, 5); }

// Equality: only if either may free the other's memory.
VS_HARNESS(P21_equal) {
  vs_opt("forkselect", 1);
  typedef auto_allocator<int, 3> Al;
  Al a, b;
  const Al& ra = a;
  int n = (int)vs_choose("na", 0, 4), m = (int)vs_choose("nb", 0, 4);
  int *p = n ? a.allocate(n) : nullptr, *q = m ? b.allocate(m) : nullptr;
  bool ia = n > 0 && n <= 3, ib = m > 0 && m <= 3;
  CHECKM(a == ra && !(a != ra), "an allocator equals itself");
  CHECKM((a == b) == (!ia && !ib) && (a != b) == (ia || ib), "equal exactly when no buffer is in use");
  if (a == b) { // either may free the other's blocks
    if (p) b.deallocate(p, n);
    if (q) a.deallocate(q, m);
  } else {
    if (p) a.deallocate(p, n);
    if (q) b.deallocate(q, m);
  }
  CHECKM(a == b, "equal again after everything is freed");
  CHECKM(vs_live() == 0, "everything is returned");
  vs_reach("equal");
}

// Arrays
template <class A>
void t_arrays(int steps) {
  vs_opt("forkselect", 1);
  {
    A a, b;
    i64 n[2] = {0, 0}, m[2] = {0, 0}, v[2][4];
    A* x[2] = {&a, &b};
    for (int s = 0; s < steps; s++) {
      int w = s ? (int)vs_choose("which", 0, 1) : 0, k = (int)vs_choose("op", 0, 8);
      A &p = *x[w], &q = *x[1 - w];
      i64 *pv = v[w], *qv = v[1 - w];
      if (k == 0) {
        n[w] = vs_choose("ext", 0, 3); m[w] = vs_sym("min", -9, 9);
        i64 z = vs_sym("z", 0, 9);
        p.assign(dense_shape<1>(dense_dim<>(m[w], n[w])), (int)z);
        for (i64 i = 0; i < n[w]; i++) p(m[w] + i) = (int)(pv[i] = vs_sym("v", 0, 99));
      } else if (k == 1) { p = (const A&)q; n[w] = n[1 - w]; m[w] = m[1 - w]; for (int i = 0; i < 4; i++) pv[i] = qv[i]; }
      else if (k == 2 || k == 3) {
        if (k == 2) p = std::move(q); else p.assign(std::move(q));
        n[w] = n[1 - w]; m[w] = m[1 - w];
        for (int i = 0; i < 4; i++) pv[i] = qv[i];
        q.clear(); n[1 - w] = m[1 - w] = 0;
      } else if (k == 4) {
        swap(p, q);
        i64 t = n[0]; n[0] = n[1]; n[1] = t;
        t = m[0]; m[0] = m[1]; m[1] = t;
        for (int i = 0; i < 4; i++) { t = v[0][i]; v[0][i] = v[1][i]; v[1][i] = t; }
      } else if (k == 5) {
        i64 e = vs_choose("ext", 0, 3);
        p.reshape(dense_shape<1>(dense_dim<>(m[w], e)));
        for (i64 i = n[w]; i < e; i++) p(m[w] + i) = (int)(pv[i] = i);
        n[w] = e;
      } else if (k == 6) { p.clear(); n[w] = m[w] = 0; }
      else if (k == 7) { A t(std::move(p)); p.clear(); p = std::move(t); }
      else { A t(p); p.clear(); swap(p, t); }
      for (int z = 0; z < 2; z++) {
        CHECKM((i64)x[z]->size() == n[z], "size");
        if (n[z]) CHECKM(x[z]->dim(0).min() == m[z], "min");
        for (i64 i = 0; i < n[z]; i++) CHECKM((*x[z])(m[z] + i) == v[z][i], "arrays keep their values");
        bool inside = (char*)x[z]->base() >= (char*)x[z] && (char*)x[z]->base() < (char*)(x[z] + 1);
        bool other = (char*)x[z]->base() >= (char*)x[1 - z] && (char*)x[z]->base() < (char*)(x[1 - z] + 1);
        CHECKM(!other, "an array never uses another array's buffer");
        if (n[z]) CHECKM(inside || x[z]->base() != x[1 - z]->base(), "separate storage");
        if (n[z] == 3) CHECKM(!inside, "too big for the buffer");
      }
    }
  }
  CHECKM(vs_live() == 0, "everything is returned");
  vs_reach("arrays");
}
VS_HARNESS(P21_arrays) { t_arrays<dense_array<int, 1, auto_allocator<int, 2>>>(VS_T(3, 4)); }
VS_HARNESS(P21_uarrays) { t_arrays<dense_array<int, 1, uninitialized_auto_allocator<int, 2>>>(VS_T(2, 3)); }

// small matrices and vectors live in their buffers
template <index_t R, index_t C>
static void t_small() {
  i64 n = vs_allocs();
  int x[R * C + C];
  {
    small_matrix<int, R, C> a;
    small_vector<int, C> v;
    for (int k = 0; k < R * C; k++) a(k / C, k % C) = x[k] = (int)vs_sym("x", -1000, 1000);
    for (int k = 0; k < C; k++) v(k) = x[R * C + k] = (int)vs_sym("v", -1000, 1000);
    CHECKM(a.rows() == R && a.columns() == C && a.size() == (size_t)(R * C) && v.size() == (size_t)C, "sizes");
    CHECKM((char*)a.base() >= (char*)&a && (char*)(a.base() + R * C) <= (char*)(&a + 1), "inside the object");
    CHECKM((char*)v.base() >= (char*)&v && (char*)(v.base() + C) <= (char*)(&v + 1), "inside the object");
    small_matrix<int, R, C> b(a), c;
    c = std::move(b);
    small_vector<int, C> w(std::move(v));
    matrix_ref<int, R, C> r = c.ref();
    const_matrix_ref<int, R, C> cr = c.cref();
    vector_ref<int, C> vr = w.ref();
    const_vector_ref<int, C> vcr = w.cref();
    for (int k = 0; k < R * C; k++) CHECKM(a(k / C, k % C) == x[k] && c(k / C, k % C) == x[k] && &r(k / C, k % C) == &cr(k / C, k % C) && &r(k / C, k % C) == &c(k / C, k % C), "values");
    for (int k = 0; k < C; k++) CHECKM(w(k) == x[R * C + k] && &vr(k) == &w(k) && &vcr(k) == &w(k), "values");
    if (R > 1 && C > 1) CHECKM(&a(1, 0) == &a(0, 0) + C && &a(0, 1) == &a(0, 0) + 1, "rows are stored one after another");
  }
  CHECKM(vs_allocs() == n, "small matrices need no other memory");
  vs_reach("small");
}
VS_HARNESS(P21_small) {
  switch (vs_choose("size", 0, 4)) {
  case 0: t_small<1, 1>(); break;
  case 1: t_small<2, 3>(); break;
  case 2: t_small<4, 4>(); break;
  case 3: t_small<1, 5>(); break;
  case 4: t_small<3, 1>(); break;
  }
}
