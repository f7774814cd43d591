#include "expr.h"
#include <algorithm>
#include <cmath>
#include <deque>
#include <functional>
#include <sstream>

std::vector<VarInfo> g_vars;

namespace {
const i128 SATMAX = (((i128)1) << 120), SATMIN = -SATMAX;
i128 sat(i128 v) { return v > SATMAX ? SATMAX : v < SATMIN ? SATMIN : v; }
i128 addS(i128 a, i128 b) { return sat(a + b); }
i128 mulS(i128 a, i128 b) {
  i128 r;
  if (__builtin_mul_overflow(a, b, &r)) return ((a < 0) != (b < 0)) ? SATMIN : SATMAX;
  return sat(r);
}
i128 smin(int w) { return -(((i128)1) << (w - 1)); }
i128 smax(int w) { return (((i128)1) << (w - 1)) - 1; }

struct HashP { size_t operator()(const Node* n) const { return n->hash; } };
struct EqP {
  bool operator()(const Node* a, const Node* b) const {
    if (a->k != b->k || a->w != b->w || a->c != b->c || a->ops != b->ops || a->terms.size() != b->terms.size())
      return false;
    if (a->k == K_VAR && (a->lo != b->lo || a->hi != b->hi)) return false;
    for (size_t i = 0; i < a->terms.size(); i++)
      if (a->terms[i].c != b->terms[i].c || a->terms[i].m != b->terms[i].m) return false;
    return true;
  }
};
std::unordered_set<const Node*, HashP, EqP> table;
std::deque<Node> pool;

size_t mix(size_t h, size_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29); }

E intern(Node& n) {
  size_t h = mix(n.k * 131 + n.w, n.c);
  for (E o : n.ops) h = mix(h, o->id);
  for (auto& t : n.terms) {
    h = mix(h, t.c);
    for (E a : t.m) h = mix(h, a->id + 7);
  }
  if (n.k == K_VAR) h = mix(mix(h, (size_t)n.lo), (size_t)n.hi);
  n.hash = h;
  auto it = table.find(&n);
  if (it != table.end()) return *it;
  n.id = pool.size();
  n.undef = n.k == K_VAR && g_vars[n.c].undef;
  n.vmask = n.k == K_VAR ? (1ull << (n.c & 63)) : 0;
  for (E o : n.ops) { n.undef |= o->undef; n.vmask |= o->vmask; }
  for (auto& t : n.terms)
    for (E a : t.m) { n.undef |= a->undef; n.vmask |= a->vmask; }
  pool.push_back(n);
  Node* p = &pool.back();
  table.insert(p);
  return p;
}

Node base(Kind k, int w) {
  Node n;
  n.k = k; n.w = w; n.exact = true; n.undef = false; n.c = 0; n.id = 0; n.vmask = 0;
  n.lo = smin(w); n.hi = smax(w);
  return n;
}
E mkOp(Kind k, int w, std::vector<E> ops, i128 lo, i128 hi, u64 c = 0) {
  Node n = base(k, w);
  n.ops = std::move(ops);
  n.lo = lo; n.hi = hi; n.c = c;
  return intern(n);
}
E mkOpFull(Kind k, int w, std::vector<E> ops, u64 c = 0) { return mkOp(k, w, std::move(ops), smin(w), smax(w), c); }

bool monoLess(const std::vector<E>& a, const std::vector<E>& b) {
  if (a.size() != b.size()) return a.size() > b.size(); // higher degree first, constant last
  for (size_t i = 0; i < a.size(); i++)
    if (a[i] != b[i]) return a[i]->id < b[i]->id;
  return false;
}
struct MonoLess { bool operator()(const std::vector<E>& a, const std::vector<E>& b) const { return monoLess(a, b); } };
typedef std::map<std::vector<E>, u64, MonoLess> PolyMap;

void addTo(PolyMap& p, E e, u64 k) {
  if (e->k == K_CONST) p[{}] += k * e->c;
  else if (e->k == K_POLY) for (auto& t : e->terms) p[t.m] += k * t.c;
  else p[{e}] += k;
}
void polyInterval(const std::vector<Term>& ts, int w, i128& lo, i128& hi) {
  lo = hi = 0;
  for (auto& t : ts) {
    i128 c = sext64(t.c, w), l = 1, h = 1;
    for (size_t i = 0; i < t.m.size();) {
      E a = t.m[i];
      size_t j = i;
      while (j < t.m.size() && t.m[j] == a) j++;
      size_t pw = j - i;
      i = j;
      i128 al = a->lo, ah = a->hi;
      i128 pl = 1, ph = 1;
      if (pw % 2 == 0 && al < 0) {
        i128 mx = std::max(-al, ah);
        pl = (al <= 0 && ah >= 0) ? 0 : 1;
        if (pl) { i128 mn = std::min(al < 0 ? -al : al, ah < 0 ? -ah : ah); for (size_t q = 0; q < pw; q++) pl = mulS(pl, mn); }
        for (size_t q = 0; q < pw; q++) ph = mulS(ph, mx);
      } else {
        for (size_t q = 0; q < pw; q++) {
          // monotone for al>=0 or odd powers
          if (al >= 0) { pl = mulS(pl, al); ph = mulS(ph, ah); }
          else {
            i128 v[4] = {mulS(pl, al), mulS(pl, ah), mulS(ph, al), mulS(ph, ah)};
            pl = std::min(std::min(v[0], v[1]), std::min(v[2], v[3]));
            ph = std::max(std::max(v[0], v[1]), std::max(v[2], v[3]));
          }
        }
      }
      i128 v[4] = {mulS(l, pl), mulS(l, ph), mulS(h, pl), mulS(h, ph)};
      l = std::min(std::min(v[0], v[1]), std::min(v[2], v[3]));
      h = std::max(std::max(v[0], v[1]), std::max(v[2], v[3]));
    }
    i128 a = mulS(c, l), b = mulS(c, h);
    lo = addS(lo, std::min(a, b));
    hi = addS(hi, std::max(a, b));
  }
}
E fromMap(PolyMap& p, int w) {
  Node n = base(K_POLY, w);
  u64 mk = maskw(w);
  for (auto& kv : p) {
    u64 c = kv.second & mk;
    if (c) n.terms.push_back({kv.first, c});
  }
  if (n.terms.empty()) return mkConst(w, 0);
  if (n.terms.size() == 1) {
    if (n.terms[0].m.empty()) return mkConst(w, n.terms[0].c);
    if (n.terms[0].c == 1 && n.terms[0].m.size() == 1) return n.terms[0].m[0];
  }
  if (n.terms.size() > 4000) throw Unsupported("polynomial too large");
  i128 lo, hi;
  polyInterval(n.terms, w, lo, hi);
  if (lo >= smin(w) && hi <= smax(w)) { n.lo = lo; n.hi = hi; n.exact = true; }
  else n.exact = false;
  return intern(n);
}
// Exactness of an expression's own signed value with respect to its polynomial reading.
bool isExact(E e) { return e->k != K_POLY || e->exact; }
i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
i128 floordiv(i128 a, i128 b) { i128 q = a / b, r = a % b; if (r != 0 && ((r < 0) != (b < 0))) q--; return q; }
} // namespace

bool fitsS(i128 lo, i128 hi, int w) { return lo >= smin(w) && hi <= smax(w); }
size_t numNodes() { return pool.size(); }

E mkConst(int w, u64 v) {
  Node n = base(K_CONST, w);
  n.c = v & maskw(w);
  n.lo = n.hi = sext64(n.c, w);
  return intern(n);
}
E mkBool(bool b) {
  static E t = mkConst(1, 1), f = mkConst(1, 0);
  return b ? t : f;
}
E mkVar(const std::string& name, int w, s64 lo, s64 hi, bool undef) {
  u64 id = g_vars.size();
  g_vars.push_back({name, w, lo, hi, undef});
  return mkVarRange(id, lo, hi);
}
E mkVarRange(u64 id, s64 lo, s64 hi) {
  if (lo == hi) return mkConst(g_vars[id].w, (u64)lo);
  Node n = base(K_VAR, g_vars[id].w);
  n.c = id; n.lo = lo; n.hi = hi;
  return intern(n);
}
static bool isTrue(E e) { return e->k == K_CONST && e->w == 1 && e->c == 1; }
static bool isFalse(E e) { return e->k == K_CONST && e->w == 1 && e->c == 0; }

E mkAdd(E a, E b) {
  if (a->w != b->w) throw Unsupported("add width");
  if (a->w == 1) return mkXor(a, b);
  if (a->isConst() && b->isConst()) return mkConst(a->w, a->c + b->c);
  if (a->isConst() && a->c == 0) return b;
  if (b->isConst() && b->c == 0) return a;
  PolyMap p;
  addTo(p, a, 1); addTo(p, b, 1);
  return fromMap(p, a->w);
}
E mkSub(E a, E b) {
  if (a->w == 1) return mkXor(a, b);
  if (a == b) return mkConst(a->w, 0);
  if (a->isConst() && b->isConst()) return mkConst(a->w, a->c - b->c);
  if (b->isConst() && b->c == 0) return a;
  PolyMap p;
  addTo(p, a, 1); addTo(p, b, ~0ull);
  return fromMap(p, a->w);
}
E mkNeg(E a) { return mkSub(mkConst(a->w, 0), a); }
E mkMul(E a, E b) {
  if (a->w == 1) return mkAnd(a, b);
  if (a->isConst() && b->isConst()) return mkConst(a->w, a->c * b->c);
  if (b->isConst()) std::swap(a, b);
  if (a->isConst()) {
    if (a->c == 0) return a;
    if (a->c == 1) return b;
    PolyMap p;
    addTo(p, b, a->c);
    return fromMap(p, a->w);
  }
  std::vector<Term> ta, tb;
  if (a->k == K_POLY) ta = a->terms; else ta = {{{a}, 1}};
  if (b->k == K_POLY) tb = b->terms; else tb = {{{b}, 1}};
  if (ta.size() * tb.size() > 20000) throw Unsupported("polynomial product too large");
  PolyMap p;
  for (auto& x : ta)
    for (auto& y : tb) {
      std::vector<E> m = x.m;
      m.insert(m.end(), y.m.begin(), y.m.end());
      std::sort(m.begin(), m.end(), [](E p, E q) { return p->id < q->id; });
      // A 0/1 atom is idempotent.
      for (size_t i = 0; i + 1 < m.size();)
        if (m[i] == m[i + 1] && m[i]->k == K_ZEXT && m[i]->ops[0]->w == 1) m.erase(m.begin() + i); else i++;
      if (m.size() > 24) throw Unsupported("degree too large");
      p[m] += x.c * y.c;
    }
  return fromMap(p, a->w);
}
E mkNot(E a) {
  if (a->w != 1) return mkXor(a, mkConst(a->w, ~0ull));
  if (a->isConst()) return mkBool(!a->c);
  if (a->k == K_NOT) return a->ops[0];
  return mkOp(K_NOT, 1, {a}, -1, 0);
}
static E mkNary(Kind k, E a, E b) {
  bool absorb = k == K_OR; // value that dominates
  if (a->isConst()) return (a->c != 0) == absorb ? a : b;
  if (b->isConst()) return (b->c != 0) == absorb ? b : a;
  if (a == b) return a;
  std::vector<E> v;
  for (E x : {a, b}) {
    if (x->k == k) v.insert(v.end(), x->ops.begin(), x->ops.end());
    else v.push_back(x);
  }
  std::sort(v.begin(), v.end(), [](E p, E q) { return p->id < q->id; });
  v.erase(std::unique(v.begin(), v.end()), v.end());
  std::unordered_set<E> s(v.begin(), v.end());
  for (E x : v)
    if (x->k == K_NOT && s.count(x->ops[0])) return mkBool(absorb);
  if (v.size() == 1) return v[0];
  return mkOp(k, 1, v, -1, 0);
}
static bool isBoolZ(E e) { return e->k == K_ZEXT && e->ops[0]->w == 1; }
// e is 0/1 valued built from one bool (z or 1-z): returns the bool.
static E boolOf(E e) {
  if (isBoolZ(e)) return e->ops[0];
  if (e->isConst() && e->c <= 1) return mkBool(e->c);
  if (e->k == K_POLY && e->terms.size() == 2 && e->terms[1].m.empty() && e->terms[1].c == 1 &&
      e->terms[0].c == maskw(e->w) && e->terms[0].m.size() == 1 && isBoolZ(e->terms[0].m[0]))
    return mkNot(e->terms[0].m[0]->ops[0]);
  return nullptr;
}
static bool isMask(u64 v, int& k) { // v == 2^k - 1
  if (v == 0 || (v & (v + 1))) return false;
  k = 64 - __builtin_clzll(v);
  return true;
}
E mkAnd(E a, E b) {
  if (a->w == 1) return mkNary(K_AND, a, b);
  if (a->isConst() && b->isConst()) return mkConst(a->w, a->c & b->c);
  if (a->isConst()) std::swap(a, b);
  if (a == b) return a;
  if (b->isConst() && (b->c == 0 || b->c == maskw(a->w))) return b->c ? a : b;
  // a sign mask selects
  for (int i = 0; i < 2; i++, std::swap(a, b))
    if (a->lo >= -1 && a->hi <= 0) return mkIte(mkSlt(a, mkConst(a->w, 0)), b, mkConst(a->w, 0));
  if (b->isConst()) {
    int k;
    if (isMask(b->c, k)) {
      if (a->lo >= 0 && a->hi <= (i128)b->c) return a;
      E bo = boolOf(a);
      if (bo) return a;
      return mkOp(K_BAND, a->w, {a, b}, 0, (i128)b->c);
    }
    // ~(2^k-1): a - (a & (2^k-1))
    u64 inv = ~b->c & maskw(a->w);
    if (isMask(inv, k)) return mkSub(a, mkAnd(a, mkConst(a->w, inv)));
    if (b->sval() >= 0) return mkOp(K_BAND, a->w, {a, b}, 0, (i128)b->c);
  }
  E ba = boolOf(a), bb = boolOf(b);
  if (ba && bb) return mkZExt(mkAnd(ba, bb), a->w);
  if (a->id > b->id && !b->isConst()) std::swap(a, b);
  if (a->lo >= 0 || b->lo >= 0) {
    i128 h = a->lo >= 0 && b->lo >= 0 ? std::min(a->hi, b->hi) : a->lo >= 0 ? a->hi : b->hi;
    return mkOp(K_BAND, a->w, {a, b}, 0, h);
  }
  return mkOpFull(K_BAND, a->w, {a, b});
}
// number of low bits known to be zero
static int lowZeros(E a) {
  if (a->isConst()) return a->c ? __builtin_ctzll(a->c) : a->w;
  if (a->k != K_POLY) return 0;
  int k = 64;
  for (auto& t : a->terms) k = std::min(k, t.c ? __builtin_ctzll(t.c) : 64);
  return k;
}
// bits k.. of a multiple of 2^k
static E highPart(E a, int k) {
  if (a->isConst()) return mkConst(a->w - k, a->c >> k);
  PolyMap p;
  for (auto& t : a->terms) p[t.m] = t.c >> k;
  return mkTrunc(fromMap(p, a->w), a->w - k);
}
E mkOr(E a, E b, bool disjoint) {
  if (a->w == 1) return mkNary(K_OR, a, b);
  if (a->isConst() && b->isConst()) return mkConst(a->w, a->c | b->c);
  if (a->isConst()) std::swap(a, b);
  if (a == b) return a;
  if (b->isConst() && b->c == 0) return a;
  if (b->isConst() && b->c == maskw(a->w)) return b;
  E ba = boolOf(a), bb = boolOf(b);
  if (ba && bb) return mkZExt(mkOr(ba, bb), a->w);
  // a multiple of 2^k and a value below 2^k
  for (int i = 0; i < 2; i++, std::swap(a, b)) {
    int k = lowZeros(a);
    if (k <= 0 || b->lo < 0 || b->hi >= (i128)1 << k) continue;
    if (a->w == 64 && k >= 32 && b->hi >= (i128)1 << 24 && !b->isConst() && b->hi < ((i128)1 << 32)) return mkConcat(highPart(a, 32), mkTrunc(b, 32));
    disjoint = true;
  }
  if (disjoint) return mkAdd(a, b);
  if (a->id > b->id && !b->isConst()) std::swap(a, b);
  if (a->lo >= 0 && b->lo >= 0) {
    i128 h = std::max(a->hi, b->hi), p = 1;
    while (p <= h) p <<= 1;
    return mkOp(K_BOR, a->w, {a, b}, std::max(a->lo, b->lo), p - 1);
  }
  return mkOpFull(K_BOR, a->w, {a, b});
}
E mkXor(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->w, a->c ^ b->c);
  if (a->isConst()) std::swap(a, b);
  if (a == b) return mkConst(a->w, 0);
  if (b->isConst()) {
    if (b->c == 0) return a;
    if (a->w == 1) return mkNot(a);
    if (b->c == maskw(a->w)) return mkSub(mkConst(a->w, ~0ull), a);
    E ba = boolOf(a);
    if (ba && b->c == 1) return mkZExt(mkNot(ba), a->w);
  }
  if (a->w == 1) {
    bool neg = false;
    if (a->k == K_NOT) { a = a->ops[0]; neg = !neg; }
    if (b->k == K_NOT) { b = b->ops[0]; neg = !neg; }
    if (a == b) return mkBool(neg);
    if (a->id > b->id) std::swap(a, b);
    E r = mkOp(K_BXOR, 1, {a, b}, -1, 0);
    return neg ? mkNot(r) : r;
  }
  E ba = boolOf(a), bb = boolOf(b);
  if (ba && bb) return mkZExt(mkXor(ba, bb), a->w);
  if (a->id > b->id && !b->isConst()) std::swap(a, b);
  return mkOpFull(K_BXOR, a->w, {a, b});
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->ops[0], b, a);
  if (a->w == 1) {
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
    return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
  }
  if (a->isConst() && b->isConst()) // b + (a-b)*[c]
    return mkAdd(b, mkMul(mkSub(a, b), mkZExt(c, a->w)));
  if (a->k == K_ITE && a->ops[0] == c) a = a->ops[1];
  if (b->k == K_ITE && b->ops[0] == c) b = b->ops[2];
  if (a == b) return a;
  return mkOp(K_ITE, a->w, {c, a, b}, std::min(a->lo, b->lo), std::max(a->hi, b->hi));
}

static bool commonAtom(E d, E& atom) {
  if (d->k != K_POLY || d->terms.empty()) return false;
  for (E a : d->terms[0].m) {
    bool all = true;
    for (auto& t : d->terms)
      if (std::find(t.m.begin(), t.m.end(), a) == t.m.end()) { all = false; break; }
    if (all) { atom = a; return true; }
  }
  return false;
}
static E divAtom(E d, E atom) {
  PolyMap p;
  for (auto& t : d->terms) {
    auto m = t.m;
    m.erase(std::find(m.begin(), m.end(), atom));
    p[m] += t.c;
  }
  return fromMap(p, d->w);
}

E mkEq0(E d) {
  if (d->w == 1) return mkNot(d);
  if (d->isConst()) return mkBool(d->c == 0);
  if (d->lo > 0 || d->hi < 0) return mkBool(false);
  if (isBoolZ(d)) return mkNot(d->ops[0]);
  if (d->k == K_ZEXT) return mkEq0(d->ops[0]);
  if (d->k == K_SEXT) return mkEq0(d->ops[0]);
  if (d->k == K_POLY) {
    if (d->exact) {
      i128 g = 0, k = 0;
      for (auto& t : d->terms) {
        i128 c = sext64(t.c, d->w);
        if (t.m.empty()) k = c; else g = gcd128(g, c);
      }
      if (g > 1) {
        if (k % g) return mkBool(false);
        PolyMap p;
        for (auto& t : d->terms) p[t.m] = (u64)(s64)(sext64(t.c, d->w) / g);
        return mkEq0(fromMap(p, d->w));
      }
      // All-extremes rule for sums of 0/1 atoms.
      bool allb = true;
      for (auto& t : d->terms)
        if (!(t.m.empty() || (t.m.size() == 1 && isBoolZ(t.m[0])))) allb = false;
      if (allb && (d->lo == 0 || d->hi == 0)) {
        E r = mkBool(true);
        bool atLo = d->lo == 0;
        for (auto& t : d->terms) {
          if (t.m.empty()) continue;
          bool pos = sext64(t.c, d->w) > 0;
          E b = t.m[0]->ops[0];
          r = mkAnd(r, pos == atLo ? mkNot(b) : b);
        }
        return r;
      }
      if (allb && d->terms.size() == 2 && d->terms[1].m.empty()) return mkBool(false);
      E at;
      if (commonAtom(d, at)) {
        E q = divAtom(d, at);
        if (isExact(q)) return mkOr(mkEq0(at), mkEq0(q));
      }
    }
    // difference of two products / sign normalisation
    s64 lead = sext64(d->terms[0].c, d->w);
    if (lead < 0) {
      E n = mkNeg(d);
      s64 l2 = sext64(n->k == K_POLY ? n->terms[0].c : 1, d->w);
      if (l2 > 0) return mkEq0(n);
    }
    // x - ITE(c,a,b) where one side resolves trivially
    if (d->terms.size() <= 2 + 1) {
      for (auto& t : d->terms)
        if (t.m.size() == 1 && t.m[0]->k == K_ITE && (t.c == 1 || t.c == maskw(d->w))) {
          E ite = t.m[0];
          PolyMap p;
          for (auto& t2 : d->terms) if (&t2 != &t) p[t2.m] = t2.c;
          E rest = fromMap(p, d->w);
          E pa = mkEq0(mkAdd(rest, mkMul(mkConst(d->w, t.c), ite->ops[1])));
          E pb = mkEq0(mkAdd(rest, mkMul(mkConst(d->w, t.c), ite->ops[2])));
          if (pa->isConst() || pb->isConst() || pa == pb) return mkIte(ite->ops[0], pa, pb);
        }
    }
  }
  if (d->k == K_ITE) {
    E pa = mkEq0(d->ops[1]), pb = mkEq0(d->ops[2]);
    if (pa->isConst() || pb->isConst()) return mkIte(d->ops[0], pa, pb);
  }
  return mkOp(K_EQ0, 1, {d}, -1, 0);
}
E mkEq(E a, E b) {
  if (a == b) return mkBool(true);
  if (a->w == 1) return mkNot(mkXor(a, b));
  if (a->lo > b->hi || a->hi < b->lo) return mkBool(false);
  return mkEq0(mkSub(a, b));
}
static E mkLt0(E d) {
  if (d->isConst()) return mkBool(d->sval() < 0);
  if (d->lo >= 0) return mkBool(false);
  if (d->hi < 0) return mkBool(true);
  if (d->k == K_SEXT || d->k == K_ASHR) return mkLt0(d->ops[0]);
  if (d->k == K_ITE) {
    E pa = mkLt0(d->ops[1]), pb = mkLt0(d->ops[2]);
    if (pa->isConst() || pb->isConst()) return mkIte(d->ops[0], pa, pb);
  }
  if (d->k == K_POLY && d->exact) {
    i128 g = 0, k = 0;
    for (auto& t : d->terms) {
      i128 c = sext64(t.c, d->w);
      if (t.m.empty()) k = c; else g = gcd128(g, c);
    }
    if (g > 1) {
      PolyMap p;
      for (auto& t : d->terms) if (!t.m.empty()) p[t.m] = (u64)(s64)(sext64(t.c, d->w) / g);
      p[{}] = (u64)(s64)floordiv(k, g);
      E q = fromMap(p, d->w);
      if (isExact(q)) return mkLt0(q);
    }
    if (sext64(d->terms[0].c, d->w) < 0) {
      E n = mkSub(mkConst(d->w, ~0ull), d); // -d-1
      if (isExact(n) && (n->k != K_POLY || sext64(n->terms[0].c, n->w) > 0)) return mkNot(mkLt0(n));
    }
    bool allb = true;
    for (auto& t : d->terms) if (!(t.m.empty() || (t.m.size() == 1 && isBoolZ(t.m[0])))) allb = false;
    if (allb && d->terms.size() == 2 && d->terms[1].m.empty()) {
      // c*z + k < 0
      s64 c = sext64(d->terms[0].c, d->w), k2 = sext64(d->terms[1].c, d->w);
      bool at0 = k2 < 0, at1 = c + k2 < 0;
      E b = d->terms[0].m[0]->ops[0];
      return at0 == at1 ? mkBool(at0) : at0 ? mkNot(b) : b;
    }
    E at;
    if (commonAtom(d, at)) {
      E r = divAtom(d, at);
      if (isExact(r)) {
        E zero = mkConst(d->w, 0);
        return mkOr(mkAnd(mkLt0(at), mkSlt(zero, r)), mkAnd(mkSlt(zero, at), mkLt0(r)));
      }
    }
    if (d->terms.size() <= 3) {
      for (auto& t : d->terms)
        if (t.m.size() == 1 && t.m[0]->k == K_ITE && (t.c == 1 || t.c == maskw(d->w))) {
          E ite = t.m[0];
          PolyMap p;
          for (auto& t2 : d->terms) if (&t2 != &t) p[t2.m] = t2.c;
          E rest = fromMap(p, d->w);
          E da = mkAdd(rest, mkMul(mkConst(d->w, t.c), ite->ops[1]));
          E db = mkAdd(rest, mkMul(mkConst(d->w, t.c), ite->ops[2]));
          if (isExact(da) && isExact(db)) {
            E pa = mkLt0(da), pb = mkLt0(db);
            if (pa->isConst() || pb->isConst() || pa == pb) return mkIte(ite->ops[0], pa, pb);
          }
        }
    }
  }
  return mkOp(K_LT0, 1, {d}, -1, 0);
}
E mkSlt(E a, E b) {
  if (a == b) return mkBool(false);
  if (a->w == 1) return mkAnd(a, mkNot(b)); // -1 < 0
  if (a->hi < b->lo) return mkBool(true);
  if (a->lo >= b->hi) return mkBool(false);
  if (isExact(a) && isExact(b)) {
    E d = mkSub(a, b);
    // the polynomial difference of exact operands, if itself exact, has the integer value a-b
    if (isExact(d)) return mkLt0(d);
  }
  if (b->isConst() && b->c == 0) return mkLt0(a);
  return mkOp(K_SLT, 1, {a, b}, -1, 0);
}
E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkUlt(E a, E b) {
  if (a == b) return mkBool(false);
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if ((a->lo >= 0 && b->lo >= 0) || (a->hi < 0 && b->hi < 0)) return mkSlt(a, b);
  if (a->lo >= 0 && b->hi < 0) return mkBool(true);
  if (a->hi < 0 && b->lo >= 0) return mkBool(false);
  if (b->lo >= 0) // a may be negative (huge): need 0<=a<b
    return mkAnd(mkNot(mkLt0(a)), mkSlt(a, b));
  if (a->lo >= 0) // b may be negative (huge)
    return mkOr(mkLt0(b), mkSlt(a, b));
  if (a->isConst() && b->isConst()) return mkBool(a->c < b->c);
  return mkOp(K_ULT, 1, {a, b}, -1, 0);
}
E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }

static bool divCoefs(E a, i128 k, E& out) { // exact a divided by constant k, coefficientwise
  if (!isExact(a)) return false;
  if (a->isConst()) { if (a->sval() % k) return false; out = mkConst(a->w, (u64)(s64)(a->sval() / k)); return true; }
  if (a->k == K_POLY) {
    PolyMap p;
    for (auto& t : a->terms) {
      s64 c = sext64(t.c, a->w);
      if (c % k) return false;
      p[t.m] = (u64)(s64)(c / k);
    }
    out = fromMap(p, a->w);
    return isExact(out);
  }
  if (a->k == K_ITE) {
    E x, y;
    if (divCoefs(a->ops[1], k, x) && divCoefs(a->ops[2], k, y)) { out = mkIte(a->ops[0], x, y); return true; }
  }
  return false;
}
E mkSDiv(E a, E b, bool exact) {
  (void)exact;
  int w = a->w;
  if (b->isConst()) {
    s64 k = b->sval();
    if (k == 1) return a;
    if (k == -1) return mkNeg(a);
    if (k != 0) {
      if (a->isConst()) { i128 q = (i128)a->sval() / k; return mkConst(w, (u64)(s64)q); }
      E o;
      if (divCoefs(a, k, o)) return o;
      if (a->k == K_ITE && (a->ops[1]->isConst() || a->ops[2]->isConst()))
        return mkIte(a->ops[0], mkSDiv(a->ops[1], b), mkSDiv(a->ops[2], b));
      i128 x = a->lo / k, y = a->hi / k;
      i128 lo = std::min(x, y), hi = std::max(x, y);
      if (a->lo <= 0 && a->hi >= 0) { lo = std::min(lo, (i128)0); hi = std::max(hi, (i128)0); }
      if (lo == hi) return mkConst(w, (u64)(s64)lo);
      return mkOp(K_SDIV, w, {a, b}, lo, hi);
    }
  }
  i128 m = std::max(a->lo < 0 ? -a->lo : a->lo, a->hi < 0 ? -a->hi : a->hi);
  if (!fitsS(-m, m, w)) return mkOpFull(K_SDIV, w, {a, b});
  i128 lo = -m, hi = m;
  if (a->lo >= 0 && b->lo >= 0) lo = 0;
  if (a->lo >= 0 && b->lo >= 1) hi = a->hi / b->lo;
  return mkOp(K_SDIV, w, {a, b}, lo, hi);
}
E mkUDiv(E a, E b, bool exact) {
  if (a->lo >= 0 && b->lo >= 0) return mkSDiv(a, b, exact);
  if (a->isConst() && b->isConst() && b->c) return mkConst(a->w, a->c / b->c);
  if (b->isConst() && b->c == 1) return a;
  return mkOpFull(K_UDIV, a->w, {a, b});
}
E mkSRem(E a, E b) {
  int w = a->w;
  if (b->isConst() && b->sval() != 0) {
    i128 k = b->sval();
    if (a->isConst()) return mkConst(w, (u64)(s64)((i128)a->sval() % k));
    E o;
    if (k == 1 || k == -1 || divCoefs(a, k, o)) return mkConst(w, 0);
    i128 m = (k < 0 ? -k : k);
    if (a->lo >= 0 && a->hi < m) return a;
    if (a->lo > -m && a->hi < m) return a;
    return mkOp(K_SREM, w, {a, b}, a->lo >= 0 ? 0 : std::max(a->lo, -(m - 1)), a->hi <= 0 ? 0 : std::min(a->hi, m - 1));
  }
  i128 m = std::max(a->lo < 0 ? -a->lo : a->lo, a->hi < 0 ? -a->hi : a->hi);
  i128 n = std::max(b->lo < 0 ? -b->lo : b->lo, b->hi < 0 ? -b->hi : b->hi);
  // b == 0 is undefined; evaluation yields a there
  i128 q = b->lo <= 0 && b->hi >= 0 ? m : std::min(m, n);
  i128 lo = a->lo >= 0 ? 0 : -q, hi = a->hi <= 0 ? 0 : q;
  if (!fitsS(lo, hi, w)) return mkOpFull(K_SREM, w, {a, b});
  return mkOp(K_SREM, w, {a, b}, lo, hi);
}
E mkURem(E a, E b) {
  if (a->lo >= 0 && b->lo >= 0) return mkSRem(a, b);
  if (a->isConst() && b->isConst() && b->c) return mkConst(a->w, a->c % b->c);
  return mkOpFull(K_UREM, a->w, {a, b});
}
E mkShl(E a, E b) {
  if (b->isConst()) {
    if (b->c >= a->w) return mkConst(a->w, 0);
    return mkMul(a, mkConst(a->w, 1ull << b->c));
  }
  return mkOpFull(K_SHL, a->w, {a, b});
}
E mkAShr(E a, E b, bool exact) {
  int w = a->w;
  if (b->isConst()) {
    u64 s = b->c;
    if (s == 0) return a;
    if (s >= (u64)w) s = w - 1;
    if (a->isConst()) return mkConst(w, (u64)(a->sval() >> s));
    if (s < 63) {
      E o;
      if (divCoefs(a, (i128)1 << s, o)) return o;
    }
    if (a->k == K_ITE && (a->ops[1]->isConst() || a->ops[2]->isConst()))
      return mkIte(a->ops[0], mkAShr(a->ops[1], b, exact), mkAShr(a->ops[2], b, exact));
    if (a->k == K_CONCAT && s >= a->ops[1]->w) return mkSExt(mkAShr(a->ops[0], mkConst(a->ops[0]->w, s - a->ops[1]->w)), w);
    i128 k = (i128)1 << s;
    i128 lo = floordiv(a->lo, k), hi = floordiv(a->hi, k);
    if (lo == hi) return mkConst(w, (u64)(s64)lo);
    return mkOp(K_ASHR, w, {a, mkConst(w, s)}, lo, hi);
  }
  return mkOp(K_ASHR, w, {a, b}, std::min(a->lo, (i128)0), std::max(a->hi, (i128)0));
}
E mkLShr(E a, E b, bool exact) {
  if (a->k == K_CONCAT && b->isConst() && b->c >= a->ops[1]->w && b->c < a->w)
    return mkZExt(mkLShr(a->ops[0], mkConst(a->ops[0]->w, b->c - a->ops[1]->w)), a->w);
  if (a->lo >= 0) return mkAShr(a, b, exact);
  if (b->isConst()) {
    if (b->c == 0) return a;
    if (b->c >= a->w) return mkConst(a->w, 0);
    if (a->isConst()) return mkConst(a->w, a->c >> b->c);
    if (b->c == (u64)a->w - 1) return mkZExt(mkLt0(a), a->w);
    return mkOp(K_LSHR, a->w, {a, b}, 0, ((i128)1 << (a->w - b->c)) - 1);
  }
  return mkOpFull(K_LSHR, a->w, {a, b});
}
E mkZExt(E a, int w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(w, a->c);
  if (a->w == 1) {
    if (a->k == K_NOT) return mkSub(mkConst(w, 1), mkZExt(a->ops[0], w));
    return mkOp(K_ZEXT, w, {a}, 0, 1);
  }
  if (a->lo >= 0) return mkSExt(a, w);
  if (a->k == K_ZEXT) return mkZExt(a->ops[0], w);
  return mkOp(K_ZEXT, w, {a}, 0, ((i128)1 << a->w) - 1);
}
E mkSExt(E a, int w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(w, (u64)a->sval());
  if (a->w == 1) return mkNeg(mkZExt(a, w));
  if (a->k == K_POLY && a->exact) {
    E r = mkConst(w, 0);
    for (auto& t : a->terms) {
      E m = mkConst(w, (u64)sext64(t.c, a->w));
      for (E x : t.m) m = mkMul(m, mkSExt(x, w));
      r = mkAdd(r, m);
    }
    return r;
  }
  if (a->k == K_SEXT) return mkSExt(a->ops[0], w);
  if (a->k == K_ZEXT) return mkZExt(a->ops[0], w);
  if (a->k == K_ITE) return mkIte(a->ops[0], mkSExt(a->ops[1], w), mkSExt(a->ops[2], w));
  if (a->k == K_TRUNC) {
    E x = a->ops[0];
    if (fitsS(x->lo, x->hi, a->w)) return x->w == w ? x : x->w < w ? mkSExt(x, w) : mkTrunc(x, w);
  }
  return mkOp(K_SEXT, w, {a}, a->lo, a->hi);
}
E mkTrunc(E a, int w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(w, a->c);
  if (w == 1) {
    if (isBoolZ(a)) return a->ops[0];
    E b = boolOf(a);
    if (b) return b;
    if (a->lo >= 0 && a->hi <= 1) return mkNot(mkEq0(a));
    if (a->k == K_ITE) return mkIte(a->ops[0], mkTrunc(a->ops[1], 1), mkTrunc(a->ops[2], 1));
    return mkNot(mkEq0(mkAnd(a, mkConst(a->w, 1))));
  }
  if (a->k == K_POLY) {
    E r = mkConst(w, 0);
    for (auto& t : a->terms) {
      E m = mkConst(w, t.c);
      for (E x : t.m) m = mkMul(m, mkTrunc(x, w));
      r = mkAdd(r, m);
    }
    return r;
  }
  if (a->k == K_SEXT || a->k == K_ZEXT) {
    E x = a->ops[0];
    if (x->w == w) return x;
    if (x->w > w) return mkTrunc(x, w);
    return a->k == K_SEXT ? mkSExt(x, w) : mkZExt(x, w);
  }
  if (a->k == K_TRUNC) return mkTrunc(a->ops[0], w);
  if (a->k == K_ITE) return mkIte(a->ops[0], mkTrunc(a->ops[1], w), mkTrunc(a->ops[2], w));
  if (a->k == K_CONCAT && a->ops[1]->w >= w) return mkTrunc(a->ops[1], w);
  if (fitsS(a->lo, a->hi, w)) return mkOp(K_TRUNC, w, {a}, a->lo, a->hi);
  return mkOpFull(K_TRUNC, w, {a});
}
E mkExtract(E a, int lo, int w) {
  if (lo == 0) return mkTrunc(a, w);
  if (a->isConst()) return mkConst(w, a->c >> lo);
  if (a->k == K_CONCAT) {
    int lw = a->ops[1]->w;
    if (lo >= lw) return mkExtract(a->ops[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->ops[1], lo, w);
  }
  if (a->k == K_EXTRACT) return mkExtract(a->ops[0], lo + a->c, w);
  if (a->k == K_ZEXT && lo >= a->ops[0]->w) return mkConst(w, 0);
  return mkOpFull(K_EXTRACT, w, {a}, lo);
}
E mkConcat(E h, E l) {
  int w = h->w + l->w;
  if (w > 64) throw Unsupported("concat wider than 64");
  if (h->isConst() && l->isConst()) return mkConst(w, (h->c << l->w) | l->c);
  if (h->isConst() && h->c == 0) return mkZExt(l, w);
  // re-assemble adjacent extracts of the same value
  auto src = [](E e, E& s, int& lo) {
    if (e->k == K_EXTRACT) { s = e->ops[0]; lo = e->c; return true; }
    if (e->k == K_TRUNC) { s = e->ops[0]; lo = 0; return true; }
    return false;
  };
  E s1, s2;
  int l1, l2;
  if (src(h, s1, l1) && src(l, s2, l2) && s1 == s2 && l1 == l2 + l->w) return mkExtract(s1, l2, w);
  return mkOp(K_CONCAT, w, {h, l}, h->lo * ((i128)1 << l->w), h->hi * ((i128)1 << l->w) + (((i128)1 << l->w) - 1));
}
static double toD(u64 c, int w) {
  if (w == 32) { float f; uint32_t x = c; memcpy(&f, &x, 4); return f; }
  double d; memcpy(&d, &c, 8); return d;
}
static u64 fromD(double d, int w) {
  if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
  u64 c; memcpy(&c, &d, 8); return c;
}
static u64 fcmpEval(u64 sub, double a, double b) {
  bool uno = std::isnan(a) || std::isnan(b);
  bool r = false;
  if (uno) return (sub >> 3) & 1;
  if (a == b) r = sub & 1;
  else if (a > b) r = (sub >> 1) & 1;
  else r = (sub >> 2) & 1;
  return r;
}
static u64 fun1(u64 sub, double a, int w) {
  double r = 0;
  if (w == 32) {
    float f = (float)a;
    switch (sub) { case 1: f = fabsf(f); break; case 2: f = floorf(f); break; case 3: f = ceilf(f); break;
      case 4: f = sqrtf(f); break; case 5: f = sinf(f); break; case 6: f = truncf(f); break; case 7: f = roundf(f); break; case 8: f = cosf(f); break; default: throw Unsupported("fp fun"); }
    r = f;
  } else
    switch (sub) { case 1: r = fabs(a); break; case 2: r = floor(a); break; case 3: r = ceil(a); break;
      case 4: r = sqrt(a); break; case 5: r = sin(a); break; case 6: r = trunc(a); break; case 7: r = round(a); break; case 8: r = cos(a); break; default: throw Unsupported("fp fun"); }
  return fromD(r, w);
}
// FBIN sub: 0 add 1 sub 2 mul 3 div 4 rem 5 min 6 max
static u64 fpEval(Kind k, int w, u64 sub, const std::vector<u64>& v, const std::vector<E>& ops) {
  int iw = ops[0]->w;
  switch (k) {
  case K_FBIN: {
    if (w == 32) {
      float a = (float)toD(v[0], 32), b = (float)toD(v[1], 32), r = 0;
      switch (sub) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; case 4: r = fmodf(a, b); break; case 5: r = fminf(a, b); break; case 6: r = fmaxf(a, b); break; }
      uint32_t x; memcpy(&x, &r, 4); return x;
    }
    double a = toD(v[0], 64), b = toD(v[1], 64), r = 0;
    switch (sub) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; case 4: r = fmod(a, b); break; case 5: r = fmin(a, b); break; case 6: r = fmax(a, b); break; }
    return fromD(r, 64);
  }
  case K_FNEG: return v[0] ^ (1ull << (w - 1));
  case K_FCMP: return fcmpEval(sub, toD(v[0], iw), toD(v[1], iw));
  case K_SITOFP: { s64 s = sext64(v[0], iw); if (w == 32) { float f = (float)s; uint32_t x; memcpy(&x, &f, 4); return x; } return fromD((double)s, 64); }
  case K_UITOFP: { u64 s = v[0]; if (w == 32) { float f = (float)s; uint32_t x; memcpy(&x, &f, 4); return x; } return fromD((double)s, 64); }
  case K_FPTOSI: return (u64)(s64)toD(v[0], iw) & maskw(w);
  case K_FPTOUI: return (u64)toD(v[0], iw) & maskw(w);
  case K_FPEXT: return fromD(toD(v[0], 32), 64);
  case K_FPTRUNC: return fromD(toD(v[0], 64), 32);
  case K_FUN: return fun1(sub, toD(v[0], w), w);
  default: throw Unsupported("fp");
  }
}
// Floating-point values that are exactly an integer: returns that integer (64 bits), or null.  -0.0 has none.
static E asExactInt(E e) {
  i128 lim = (i128)1 << (e->w == 32 ? 24 : 53);
  if (e->isConst()) {
    double d = toD(e->c, e->w);
    if (!(std::fabs(d) <= (double)(s64)lim) || d != std::floor(d) || (d == 0 && std::signbit(d))) return nullptr;
    return mkConst(64, (u64)(s64)d);
  }
  if (e->k == K_SITOFP && e->ops[0]->w == 64 && e->ops[0]->lo >= -lim && e->ops[0]->hi <= lim) return e->ops[0];
  return nullptr;
}
static E ofInt(int w, E i) { // null if not exactly representable by its range
  i128 lim = (i128)1 << (w == 32 ? 24 : 53);
  if (i->lo < -lim || i->hi > lim) return nullptr;
  if (i->isConst()) return mkConst(w, fromD((double)i->sval(), w));
  return mkOpFull(K_SITOFP, w, {i}, 0);
}
// The integer i * m / 2^k if 2^k divides i * m by its coefficients.
static E divPow2(E i, u64 m, int k) {
  u64 msk = k >= 64 ? ~0ull : ((1ull << k) - 1);
  E p = mkMul(i, mkConst(64, m));
  if (p->isConst()) return (p->c & msk) ? nullptr : mkConst(64, (u64)(p->sval() >> k));
  if (p->k != K_POLY || !p->exact) return nullptr;
  E r = mkConst(64, 0);
  for (auto& t : p->terms) {
    if (t.c & msk) return nullptr;
    E q = mkConst(64, (u64)((s64)t.c >> k));
    for (E a : t.m) q = mkMul(q, a);
    r = mkAdd(r, q);
  }
  return r;
}
E mkF(Kind k, int w, u64 sub, std::vector<E> ops) {
  bool all = true;
  std::vector<u64> v;
  for (E o : ops) { all &= o->isConst(); v.push_back(o->c); }
  if (all) return mkConst(w, fpEval(k, w, sub, v, ops));
  // exact integer arithmetic
  if (k == K_SITOFP) {
    E i = ops[0]->w < 64 ? mkSExt(ops[0], 64) : ops[0];
    if (E r = ofInt(w, i)) return r;
  } else if (k == K_UITOFP) {
    E i = ops[0]->w < 64 ? mkZExt(ops[0], 64) : ops[0];
    if (i->lo >= 0) if (E r = ofInt(w, i)) return r;
  } else if (k == K_FPEXT || k == K_FPTRUNC) {
    if (E i = asExactInt(ops[0])) if (E r = ofInt(w, i)) return r;
  } else if (k == K_FNEG) {
    if (E i = asExactInt(ops[0])) if (i->lo > 0 || i->hi < 0) if (E r = ofInt(w, mkNeg(i))) return r;
  } else if (k == K_FPTOSI) {
    if (E i = asExactInt(ops[0])) if (i->lo >= smin(w) && i->hi <= smax(w)) return w == 64 ? i : mkTrunc(i, w);
  } else if (k == K_FCMP) {
    E a = asExactInt(ops[0]), b = asExactInt(ops[1]);
    // comparison with a constant that is no integer: against its floor
    bool eqPossible = true;
    for (int s = 0; s < 2; s++) {
      E& x = s ? b : a; E& y = s ? a : b;
      if (!x && y && ops[s]->isConst()) {
        double d = toD(ops[s]->c, ops[s]->w);
        if (std::fabs(d) < 1e15 && d != std::floor(d)) { x = mkConst(64, (u64)(s64)std::floor(d)); eqPossible = false; if (s == 0) { // a = floor < d < y iff floor < y
            E gt = mkNot(mkSlt(x, y)); // d > y iff y <= floor
            E r = mkBool(false);
            if (sub & 2) r = mkOr(r, gt);
            if (sub & 4) r = mkOr(r, mkNot(gt));
            return r;
          } else {
            E gt = mkSlt(x, y); // y > d iff y > floor
            E r = mkBool(false);
            if (sub & 2) r = mkOr(r, gt);
            if (sub & 4) r = mkOr(r, mkNot(gt));
            return r;
          }
        }
      }
    }
    if (a && b && eqPossible) {
      E r = mkBool(false);
      if (sub & 1) r = mkOr(r, mkEq(a, b));
      if (sub & 2) r = mkOr(r, mkSlt(b, a));
      if (sub & 4) r = mkOr(r, mkSlt(a, b));
      return r;
    }
  } else if (k == K_FBIN && sub <= 2) {
    E a = asExactInt(ops[0]), b = asExactInt(ops[1]);
    if (a && b) {
      E i = nullptr;
      if (sub == 0) i = mkAdd(a, b);
      else if (sub == 1) i = mkSub(a, b);
      else if (a->lo > 0 || b->lo > 0 || (a->lo >= 0 && b->lo >= 0) || (a->hi < 0 && b->hi < 0)) { // no -0.0, no overflow
        i128 m = (i128)1 << 30;
        if (a->lo > -m && a->hi < m && b->lo > -m && b->hi < m) i = mkMul(a, b);
      }
      if (i) if (E r = ofInt(w, i)) return r;
    }
    if (sub == 2 && (bool)a != (bool)b) { // times a positive dyadic constant
      E i = a ? a : b, c = a ? ops[1] : ops[0];
      if (c->isConst()) {
        double d = toD(c->c, c->w);
        int ex = 0;
        double m = std::frexp(d, &ex); // d = m * 2^ex
        u64 mi = (u64)std::ldexp(m, 53);
        ex -= 53;
        while (mi && !(mi & 1)) { mi >>= 1; ex++; }
        if (d > 0 && d < 1e6 && ex < 0 && ex > -40 && mi < ((u64)1 << 12) && i->lo > -((i128)1 << 40) && i->hi < ((i128)1 << 40))
          if (E q = divPow2(i, mi, -ex)) if (E r = ofInt(w, q)) return r;
      }
    }
  }
  return mkOpFull(k, w, ops, sub);
}

// ---------------------------------------------------------------------------------------------
static std::unordered_map<E, u64> g_evalMemo;
static const Model* g_evalModel;
static u64 ev(E e) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_VAR) {
    auto it = g_evalModel->find(e->c);
    s64 v;
    if (it != g_evalModel->end()) v = it->second;
    else { auto& vi = g_vars[e->c]; v = vi.lo > 0 ? vi.lo : vi.hi < 0 ? vi.hi : 0; }
    return (u64)v & maskw(e->w);
  }
  auto it = g_evalMemo.find(e);
  if (it != g_evalMemo.end()) return it->second;
  int w = e->w;
  u64 r = 0;
  auto S = [&](int i) { return sext64(ev(e->ops[i]), e->ops[i]->w); };
  switch (e->k) {
  case K_POLY:
    for (auto& t : e->terms) { u64 p = t.c; for (E a : t.m) p *= ev(a); r += p; }
    break;
  case K_ITE: r = ev(e->ops[0]) ? ev(e->ops[1]) : ev(e->ops[2]); break;
  case K_NOT: r = !ev(e->ops[0]); break;
  case K_AND: r = 1; for (E o : e->ops) if (!ev(o)) { r = 0; break; } break;
  case K_OR: r = 0; for (E o : e->ops) if (ev(o)) { r = 1; break; } break;
  case K_BXOR: r = ev(e->ops[0]) ^ ev(e->ops[1]); break;
  case K_BAND: r = ev(e->ops[0]) & ev(e->ops[1]); break;
  case K_BOR: r = ev(e->ops[0]) | ev(e->ops[1]); break;
  case K_EQ0: r = ev(e->ops[0]) == 0; break;
  case K_LT0: r = S(0) < 0; break;
  case K_SLT: r = S(0) < S(1); break;
  case K_ULT: r = ev(e->ops[0]) < ev(e->ops[1]); break;
  case K_SDIV: { s64 a = S(0), b = S(1); r = b == 0 ? 0 : (u64)(s64)((i128)a / b); break; }
  case K_UDIV: { u64 b = ev(e->ops[1]); r = b == 0 ? 0 : ev(e->ops[0]) / b; break; }
  case K_SREM: { s64 a = S(0), b = S(1); r = b == 0 ? (u64)a : (u64)(s64)((i128)a % b); break; }
  case K_UREM: { u64 b = ev(e->ops[1]); r = b == 0 ? ev(e->ops[0]) : ev(e->ops[0]) % b; break; }
  case K_SHL: { u64 s = ev(e->ops[1]); r = s >= (u64)w ? 0 : ev(e->ops[0]) << s; break; }
  case K_LSHR: { u64 s = ev(e->ops[1]); r = s >= (u64)w ? 0 : ev(e->ops[0]) >> s; break; }
  case K_ASHR: { u64 s = ev(e->ops[1]); if (s >= (u64)w) s = w - 1; r = (u64)(S(0) >> s); break; }
  case K_ZEXT: r = ev(e->ops[0]); break;
  case K_SEXT: r = (u64)S(0); break;
  case K_TRUNC: r = ev(e->ops[0]); break;
  case K_EXTRACT: r = ev(e->ops[0]) >> e->c; break;
  case K_CONCAT: r = (ev(e->ops[0]) << e->ops[1]->w) | ev(e->ops[1]); break;
  default: {
    std::vector<u64> v;
    for (E o : e->ops) v.push_back(ev(o));
    r = fpEval(e->k, w, e->c, v, e->ops);
  }
  }
  r &= maskw(w);
  g_evalMemo[e] = r;
  return r;
}
u64 evalE(E e, const Model& m) {
  if (e->isConst()) return e->c;
  g_evalModel = &m;
  g_evalMemo.clear();
  return ev(e);
}

static void cv(E e, std::unordered_set<u64>& out, std::unordered_set<E>& seen) {
  if (!e->vmask || !seen.insert(e).second) return;
  if (e->k == K_VAR) { out.insert(e->c); return; }
  for (E o : e->ops) cv(o, out, seen);
  for (auto& t : e->terms) for (E a : t.m) cv(a, out, seen);
}
static std::unordered_map<E, std::vector<u64>> g_varMemo;
void collectVars(E e, std::unordered_set<u64>& out) {
  auto it = g_varMemo.find(e);
  if (it == g_varMemo.end()) {
    std::unordered_set<u64> s;
    std::unordered_set<E> seen;
    cv(e, s, seen);
    it = g_varMemo.emplace(e, std::vector<u64>(s.begin(), s.end())).first;
  }
  out.insert(it->second.begin(), it->second.end());
}

E rewriteE(E e, const std::unordered_map<u64, E>& sub, std::unordered_map<E, E>& memo) {
  if (!e->vmask) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E r = e;
  int w = e->w;
  auto R = [&](E x) { return rewriteE(x, sub, memo); };
  if (e->k == K_VAR) {
    auto s = sub.find(e->c);
    if (s != sub.end()) {
      r = s->second;
      // never widen a range that is already tighter
      if (r->k == K_VAR && r->c == e->c && (e->lo > r->lo || e->hi < r->hi))
        r = mkVarRange(e->c, (s64)std::max(e->lo, r->lo), (s64)std::min(e->hi, r->hi));
    }
  } else if (e->k == K_POLY) {
    bool ch = false;
    for (auto& t : e->terms) for (E a : t.m) if (R(a) != a) { ch = true; break; }
    if (ch) {
      r = mkConst(w, 0);
      for (auto& t : e->terms) {
        E m = mkConst(w, t.c);
        for (E a : t.m) m = mkMul(m, R(a));
        r = mkAdd(r, m);
      }
    }
  } else {
    std::vector<E> o;
    bool ch = false;
    for (E x : e->ops) { E y = R(x); ch |= y != x; o.push_back(y); }
    if (ch) {
      switch (e->k) {
      case K_ITE: r = mkIte(o[0], o[1], o[2]); break;
      case K_NOT: r = mkNot(o[0]); break;
      case K_AND: r = mkBool(true); for (E x : o) r = mkAnd(r, x); break;
      case K_OR: r = mkBool(false); for (E x : o) r = mkOr(r, x); break;
      case K_BXOR: r = mkXor(o[0], o[1]); break;
      case K_BAND: r = mkAnd(o[0], o[1]); break;
      case K_BOR: r = mkOr(o[0], o[1]); break;
      case K_EQ0: r = mkEq0(o[0]); break;
      case K_LT0: r = mkSlt(o[0], mkConst(o[0]->w, 0)); break;
      case K_SLT: r = mkSlt(o[0], o[1]); break;
      case K_ULT: r = mkUlt(o[0], o[1]); break;
      case K_SDIV: r = mkSDiv(o[0], o[1]); break;
      case K_UDIV: r = mkUDiv(o[0], o[1]); break;
      case K_SREM: r = mkSRem(o[0], o[1]); break;
      case K_UREM: r = mkURem(o[0], o[1]); break;
      case K_SHL: r = mkShl(o[0], o[1]); break;
      case K_LSHR: r = mkLShr(o[0], o[1]); break;
      case K_ASHR: r = mkAShr(o[0], o[1]); break;
      case K_ZEXT: r = mkZExt(o[0], w); break;
      case K_SEXT: r = mkSExt(o[0], w); break;
      case K_TRUNC: r = mkTrunc(o[0], w); break;
      case K_EXTRACT: r = mkExtract(o[0], e->c, w); break;
      case K_CONCAT: r = mkConcat(o[0], o[1]); break;
      default: r = mkF(e->k, w, e->c, o);
      }
    }
  }
  memo[e] = r;
  return r;
}

static const char* kn[] = {"const", "var", "poly", "ite", "not", "and", "or", "xor", "band", "bor", "eq0", "lt0", "slt", "ult",
    "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "zext", "sext", "trunc", "extract", "concat", "fbin", "fneg", "fcmp",
    "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ffun"};
std::string show(E e, int depth) {
  std::ostringstream o;
  if (e->isConst()) { o << e->sval(); return o.str(); }
  if (e->k == K_VAR) return g_vars[e->c].name;
  if (depth == 0) return "...";
  if (e->k == K_POLY) {
    o << "(";
    bool f = true;
    int n = 0;
    for (auto& t : e->terms) {
      if (!f) o << " + ";
      f = false;
      if (++n > 12) { o << "..."; break; }
      o << sext64(t.c, e->w);
      for (E a : t.m) o << "*" << show(a, depth - 1);
    }
    o << ")" << (e->exact ? "" : "!");
    return o.str();
  }
  o << kn[e->k] << "(";
  for (size_t i = 0; i < e->ops.size(); i++) o << (i ? "," : "") << show(e->ops[i], depth - 1);
  o << ")";
  return o.str();
}
