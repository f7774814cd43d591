#include "solver.h"
#include <chrono>
#include <cstdio>
#include <functional>
#include <fstream>
#include <algorithm>
#include <cmath>

SolverStats g_ss;
std::string g_dumpDir;
unsigned g_dumpMax = 0;
static unsigned g_dumped = 0;

namespace {
Z3_context ctx;
void errh(Z3_context c, Z3_error_code e) {
  throw Unsupported(std::string("z3 error: ") + Z3_get_error_msg(c, e));
}
void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
}

struct Info { bool intOk, bvkOk, nonlin, fp; int bits; };
std::unordered_map<E, Info> infoMemo;
int bitsFor(i128 lo, i128 hi) {
  i128 m = std::max(hi, -lo - 1);
  int b = 1;
  while (m > 0) { m >>= 1; b++; }
  return b;
}
const Info& info(E e) {
  auto it = infoMemo.find(e);
  if (it != infoMemo.end()) return it->second;
  Info r{true, true, false, false, 1};
  auto sub = [&](E x) {
    const Info& i = info(x);
    r.intOk &= i.intOk; r.bvkOk &= i.bvkOk; r.nonlin |= i.nonlin; r.fp |= i.fp; r.bits = std::max(r.bits, i.bits);
  };
  for (E o : e->ops) sub(o);
  for (auto& t : e->terms) for (E a : t.m) sub(a);
  if (e->w > 1) r.bits = std::max(r.bits, bitsFor(e->lo, e->hi));
  auto no = [&]() { r.intOk = r.bvkOk = false; };
  switch (e->k) {
  case K_CONST: case K_VAR: case K_ITE: case K_NOT: case K_AND: case K_OR: case K_EQ0: case K_LT0:
  case K_SLT: case K_ULT: case K_SEXT: break;
  case K_POLY: {
    if (!e->exact) no();
    i128 tot = 0;
    for (auto& t : e->terms) {
      i128 m = 1;
      for (E a : t.m) {
        i128 x = std::max(a->lo < 0 ? -a->lo : a->lo, a->hi < 0 ? -a->hi : a->hi);
        if (m > 0 && x > 0 && m > ((i128)1 << 90) / x) m = (i128)1 << 90; else m *= x;
        r.bits = std::max(r.bits, bitsFor(-m, m));
      }
      i128 c = sext64(t.c, e->w);
      if (c < 0) c = -c;
      if (m > 0 && c > ((i128)1 << 90) / m) m = (i128)1 << 90; else m *= c;
      tot += m;
      if (tot > ((i128)1 << 100)) tot = (i128)1 << 100;
      r.bits = std::max(r.bits, bitsFor(-c, c));
      if (t.m.size() > 1) r.nonlin = true;
    }
    r.bits = std::max(r.bits, bitsFor(-tot, tot));
    break;
  }
  case K_BXOR: if (e->w > 1) r.intOk = false; break;
  case K_BAND: {
    bool mask = e->ops[1]->isConst() && ((e->ops[1]->c & (e->ops[1]->c + 1)) == 0);
    if (!mask) r.intOk = false;
    break;
  }
  case K_BOR: r.intOk = false; break;
  case K_SDIV: case K_SREM: if (!e->ops[1]->isConst() || e->ops[1]->c == 0) { r.intOk = false; } r.nonlin |= !e->ops[1]->isConst(); break;
  case K_ASHR: if (!e->ops[1]->isConst()) no(); break; // by a constant: floor division
  case K_ZEXT: if (e->ops[0]->w > 1) r.bvkOk = false; break;
  case K_TRUNC: if (!fitsS(e->ops[0]->lo, e->ops[0]->hi, e->w)) r.bvkOk = false; if (e->w == 1) no(); break;
  case K_FBIN: case K_FNEG: case K_FCMP: case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI: case K_FPEXT:
  case K_FPTRUNC: case K_FUN: r.fp = true; no(); break;
  default: no();
  }
  return infoMemo.emplace(e, r).first->second;
}

enum Mode { M_INT, M_ABS, M_BVK, M_BV };
struct Enc {
  Mode mode;
  int k;
  std::unordered_map<E, Z3_ast> memo;
  std::unordered_map<u64, Z3_ast> vars;
  std::vector<Z3_ast>* side = nullptr;          // side constraints (abstraction bounds)
  std::unordered_map<E, bool> inSide;
  std::map<std::pair<std::vector<E>, int>, Z3_ast> monos;
  std::map<std::pair<std::vector<E>, int>, std::pair<i128, i128>> monoB;

  Z3_sort isort() { return Z3_mk_int_sort(ctx); }
  Z3_ast num(i128 v) {
    std::string s;
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    if (u == 0) s = "0";
    while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return Z3_mk_numeral(ctx, s.c_str(), isort());
  }
  Z3_ast bvnum(int w, u64 c, bool sgn) {
    Z3_sort s = Z3_mk_bv_sort(ctx, w);
    if (sgn) return Z3_mk_int64(ctx, (s64)c, s);
    return Z3_mk_unsigned_int64(ctx, c, s);
  }
  bool isInt() { return mode == M_INT || mode == M_ABS; }
  Z3_ast cst(E e, i128 v) { return isInt() ? num(v) : bvnum(mode == M_BVK ? k : e->w, (u64)(s64)v, true); }
  Z3_ast add(std::vector<Z3_ast>& v) {
    if (v.size() == 1) return v[0];
    if (isInt()) return Z3_mk_add(ctx, v.size(), v.data());
    Z3_ast r = v[0];
    for (size_t i = 1; i < v.size(); i++) r = Z3_mk_bvadd(ctx, r, v[i]);
    return r;
  }
  Z3_ast mul(Z3_ast a, Z3_ast b) {
    if (isInt()) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(ctx, 2, x); }
    return Z3_mk_bvmul(ctx, a, b);
  }
  Z3_ast lt(Z3_ast a, Z3_ast b) { return isInt() ? Z3_mk_lt(ctx, a, b) : Z3_mk_bvslt(ctx, a, b); }
  Z3_ast le(Z3_ast a, Z3_ast b) { return isInt() ? Z3_mk_le(ctx, a, b) : Z3_mk_bvsle(ctx, a, b); }
  Z3_ast band2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(ctx, 2, x); }
  Z3_ast bor2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(ctx, 2, x); }
  Z3_ast toBool(Z3_ast bv1) { return Z3_mk_eq(ctx, bv1, bvnum(1, 1, false)); }

  Z3_ast var(E e) {
    auto it = vars.find(e->c);
    if (it != vars.end()) return it->second;
    std::string nm = "v" + std::to_string(e->c);
    Z3_symbol s = Z3_mk_string_symbol(ctx, nm.c_str());
    Z3_ast a = Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : isInt() ? isort() : Z3_mk_bv_sort(ctx, mode == M_BVK ? k : e->w));
    vars[e->c] = a;
    return a;
  }
  Z3_sort fsort(int w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
  Z3_ast fp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, enc(e), fsort(e->w)); }
  Z3_ast bits(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); }

  Z3_ast enc(E e) {
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Z3_ast r = enc1(e);
    memo[e] = r;
    return r;
  }
  Z3_ast enc1(E e) {
    int w = e->w;
    switch (e->k) {
    case K_CONST: if (w == 1) return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      if (mode == M_BV) return bvnum(w, e->c, false);
      return cst(e, e->sval());
    case K_VAR: return var(e);
    case K_POLY: {
      std::vector<Z3_ast> ts;
      for (auto& t : e->terms) {
        Z3_ast p = nullptr;
        if (mode == M_ABS && t.m.size() > 1) {
          auto key = std::make_pair(t.m, w);
          auto mi = monos.find(key);
          if (mi == monos.end()) {
            std::string nm = "m" + std::to_string(monos.size());
            Z3_ast a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), isort());
            mi = monos.emplace(key, a).first;
          }
          p = mi->second;
          for (E a : t.m) enc(a);
        } else
          for (E a : t.m) { Z3_ast x = enc(a); p = p ? mul(p, x) : x; }
        Z3_ast c = mode == M_BV ? bvnum(w, t.c, false) : cst(e, sext64(t.c, w));
        if (!p) p = c;
        else if (t.c != 1) p = mul(c, p);
        ts.push_back(p);
      }
      return add(ts);
    }
    case K_ITE: return Z3_mk_ite(ctx, enc(e->ops[0]), enc(e->ops[1]), enc(e->ops[2]));
    case K_NOT: return Z3_mk_not(ctx, enc(e->ops[0]));
    case K_AND: case K_OR: {
      std::vector<Z3_ast> v;
      for (E o : e->ops) v.push_back(enc(o));
      return e->k == K_AND ? Z3_mk_and(ctx, v.size(), v.data()) : Z3_mk_or(ctx, v.size(), v.data());
    }
    case K_BXOR:
      if (w == 1) return Z3_mk_xor(ctx, enc(e->ops[0]), enc(e->ops[1]));
      return Z3_mk_bvxor(ctx, enc(e->ops[0]), enc(e->ops[1]));
    case K_BAND:
      if (isInt()) return Z3_mk_mod(ctx, enc(e->ops[0]), num((i128)e->ops[1]->c + 1));
      return Z3_mk_bvand(ctx, enc(e->ops[0]), enc(e->ops[1]));
    case K_BOR: return Z3_mk_bvor(ctx, enc(e->ops[0]), enc(e->ops[1]));
    case K_EQ0: {
      E d = e->ops[0];
      // split positive and negative parts: a == b reads better for the solver
      return Z3_mk_eq(ctx, enc(d), mode == M_BV ? bvnum(d->w, 0, false) : cst(d, 0));
    }
    case K_LT0: { E d = e->ops[0]; return lt(enc(d), mode == M_BV ? bvnum(d->w, 0, false) : cst(d, 0)); }
    case K_SLT: return lt(enc(e->ops[0]), enc(e->ops[1]));
    case K_ULT: {
      Z3_ast a = enc(e->ops[0]), b = enc(e->ops[1]);
      if (mode == M_BV) return Z3_mk_bvult(ctx, a, b);
      if (mode == M_BVK) return Z3_mk_bvult(ctx, a, b); // sign extension is monotone for unsigned order
      Z3_ast z = num(0);
      Z3_ast an = lt(a, z), bn = lt(b, z);
      return Z3_mk_ite(ctx, Z3_mk_eq(ctx, an, bn), lt(a, b), bn);
    }
    case K_SDIV: case K_SREM: {
      Z3_ast a = enc(e->ops[0]), b = enc(e->ops[1]);
      if (!isInt()) return e->k == K_SDIV ? Z3_mk_bvsdiv(ctx, a, b) : Z3_mk_bvsrem(ctx, a, b);
      // truncated division by a non-zero constant
      s64 c = e->ops[1]->sval();
      i128 ac = c < 0 ? -(i128)c : c;
      Z3_ast n = num(ac), z = num(0);
      Z3_ast na = Z3_mk_unary_minus(ctx, a);
      Z3_ast q = Z3_mk_ite(ctx, Z3_mk_ge(ctx, a, z), Z3_mk_div(ctx, a, n), Z3_mk_unary_minus(ctx, Z3_mk_div(ctx, na, n)));
      if (e->k == K_SREM) return Z3_mk_ite(ctx, Z3_mk_ge(ctx, a, z), Z3_mk_mod(ctx, a, n), Z3_mk_unary_minus(ctx, Z3_mk_mod(ctx, na, n)));
      return c < 0 ? Z3_mk_unary_minus(ctx, q) : q;
    }
    case K_UDIV: return Z3_mk_bvudiv(ctx, enc(e->ops[0]), enc(e->ops[1]));
    case K_UREM: return Z3_mk_bvurem(ctx, enc(e->ops[0]), enc(e->ops[1]));
    case K_SHL: return Z3_mk_bvshl(ctx, enc(e->ops[0]), enc(e->ops[1]));
    case K_LSHR: return Z3_mk_bvlshr(ctx, enc(e->ops[0]), enc(e->ops[1]));
    case K_ASHR:
      if (isInt()) return Z3_mk_div(ctx, enc(e->ops[0]), num((i128)1 << e->ops[1]->c));
      if (mode == M_BVK && (int)e->ops[1]->c >= k) return Z3_mk_bvashr(ctx, enc(e->ops[0]), bvnum(k, k - 1, false));
      return Z3_mk_bvashr(ctx, enc(e->ops[0]), enc(e->ops[1]));
    case K_ZEXT: {
      E o = e->ops[0];
      Z3_ast a = enc(o);
      if (o->w == 1) {
        if (mode == M_BV) return Z3_mk_ite(ctx, a, bvnum(w, 1, false), bvnum(w, 0, false));
        return Z3_mk_ite(ctx, a, cst(e, 1), cst(e, 0));
      }
      if (isInt()) {
        Z3_ast x[2] = {a, num((i128)1 << o->w)};
        return Z3_mk_ite(ctx, lt(a, num(0)), Z3_mk_add(ctx, 2, x), a);
      }
      return Z3_mk_zero_ext(ctx, w - o->w, a);
    }
    case K_SEXT:
      if (mode == M_BV) return Z3_mk_sign_ext(ctx, w - e->ops[0]->w, enc(e->ops[0]));
      return enc(e->ops[0]);
    case K_TRUNC: {
      E o = e->ops[0];
      if (mode == M_BV) {
        Z3_ast x = Z3_mk_extract(ctx, w - 1, 0, enc(o));
        return w == 1 ? toBool(x) : x;
      }
      if (fitsS(o->lo, o->hi, w)) return enc(o);
      i128 h = (i128)1 << (w - 1);
      Z3_ast x[2] = {enc(o), num(h)};
      Z3_ast y[2] = {Z3_mk_mod(ctx, Z3_mk_add(ctx, 2, x), num(h * 2)), num(h)};
      return Z3_mk_sub(ctx, 2, y);
    }
    case K_EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, e->c + w - 1, e->c, enc(e->ops[0])); return w == 1 ? toBool(x) : x; }
    case K_CONCAT: {
      auto b = [&](E o) { return o->w == 1 ? Z3_mk_ite(ctx, enc(o), bvnum(1, 1, false), bvnum(1, 0, false)) : enc(o); };
      return Z3_mk_concat(ctx, b(e->ops[0]), b(e->ops[1]));
    }
    case K_FBIN: {
      Z3_ast a = fp(e->ops[0]), b = fp(e->ops[1]), rm = Z3_mk_fpa_rne(ctx);
      switch (e->c) {
      case 0: return bits(Z3_mk_fpa_add(ctx, rm, a, b));
      case 1: return bits(Z3_mk_fpa_sub(ctx, rm, a, b));
      case 2: return bits(Z3_mk_fpa_mul(ctx, rm, a, b));
      case 3: return bits(Z3_mk_fpa_div(ctx, rm, a, b));
      }
      throw Unsupported("symbolic fp op");
    }
    case K_FNEG: return bits(Z3_mk_fpa_neg(ctx, fp(e->ops[0])));
    case K_FCMP: {
      Z3_ast a = fp(e->ops[0]), b = fp(e->ops[1]);
      Z3_ast uno = bor2(Z3_mk_fpa_is_nan(ctx, a), Z3_mk_fpa_is_nan(ctx, b));
      Z3_ast v[4];
      int n = 0;
      if (e->c & 1) v[n++] = Z3_mk_fpa_eq(ctx, a, b);
      if (e->c & 2) v[n++] = Z3_mk_fpa_gt(ctx, a, b);
      if (e->c & 4) v[n++] = Z3_mk_fpa_lt(ctx, a, b);
      if (e->c & 8) v[n++] = uno;
      if (!n) return Z3_mk_false(ctx);
      return Z3_mk_or(ctx, n, v);
    }
    case K_SITOFP: return bits(Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), enc(e->ops[0]), fsort(w)));
    case K_UITOFP: return bits(Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), enc(e->ops[0]), fsort(w)));
    case K_FPTOSI: return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->ops[0]), w);
    case K_FPTOUI: return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->ops[0]), w);
    case K_FPEXT: case K_FPTRUNC: return bits(Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), fp(e->ops[0]), fsort(w)));
    case K_FUN: {
      Z3_ast a = fp(e->ops[0]);
      switch (e->c) {
      case 1: return bits(Z3_mk_fpa_abs(ctx, a));
      case 2: return bits(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), a));
      case 3: return bits(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), a));
      case 4: return bits(Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), a));
      case 6: return bits(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), a));
      }
      throw Unsupported("symbolic fp function");
    }
    default: throw Unsupported("encode kind");
    }
  }
};

void varNodes(E e, std::unordered_set<E>& seen, std::vector<E>& out) {
  if (!e->vmask || !seen.insert(e).second) return;
  if (e->k == K_VAR) { out.push_back(e); return; }
  for (E o : e->ops) varNodes(o, seen, out);
  for (auto& t : e->terms) for (E a : t.m) varNodes(a, seen, out);
}
void monoNodes(E e, std::unordered_set<E>& seen, std::vector<std::pair<E, const Term*>>& out) {
  if (!e->vmask || !seen.insert(e).second) return;
  for (E o : e->ops) monoNodes(o, seen, out);
  for (auto& t : e->terms) {
    for (E a : t.m) monoNodes(a, seen, out);
    if (t.m.size() > 1) out.push_back({e, &t});
  }
}

Enc* encFor(Mode m, int k) {
  static std::map<std::pair<int, int>, Enc*> encs;
  auto& e = encs[{m, k}];
  if (!e) { e = new Enc; e->mode = m; e->k = k; }
  return e;
}

Res tryMode(Mode mode, int k, const char* logic, const std::vector<E>& conj, const std::vector<E>& vn, Model& out, unsigned to) {
  Enc* en = encFor(mode, k);
  Z3_solver s = logic ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic)) : Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), to);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
  for (E c : conj) Z3_solver_assert(ctx, s, en->enc(c));
  for (E v : vn) {
    if (v->w == 1) continue;
    Z3_ast a = en->enc(v);
    bool full = mode == M_BV && v->lo == -((i128)1 << (v->w - 1)) && v->hi == ((i128)1 << (v->w - 1)) - 1;
    if (full) continue;
    Z3_ast lo = mode == M_BV ? en->bvnum(v->w, (u64)(s64)v->lo & maskw(v->w), false) : en->cst(v, v->lo);
    Z3_ast hi = mode == M_BV ? en->bvnum(v->w, (u64)(s64)v->hi & maskw(v->w), false) : en->cst(v, v->hi);
    Z3_solver_assert(ctx, s, en->le(lo, a));
    Z3_solver_assert(ctx, s, en->le(a, hi));
  }
  if (mode == M_ABS) {
    std::unordered_set<E> seen;
    std::vector<std::pair<E, const Term*>> ms;
    for (E c : conj) monoNodes(c, seen, ms);
    for (auto& m : ms) {
      Z3_ast a = en->monos[{m.second->m, m.first->w}];
      if (!a) continue;
      // interval of the product and sign facts
      i128 lo = 1, hi = 1;
      for (E x : m.second->m) {
        i128 v[4];
        bool ov = false;
        ov |= __builtin_mul_overflow(lo, x->lo, &v[0]) | __builtin_mul_overflow(lo, x->hi, &v[1]) |
              __builtin_mul_overflow(hi, x->lo, &v[2]) | __builtin_mul_overflow(hi, x->hi, &v[3]);
        if (ov) { lo = 1; hi = 0; break; }
        lo = *std::min_element(v, v + 4);
        hi = *std::max_element(v, v + 4);
      }
      if (lo <= hi) {
        Z3_solver_assert(ctx, s, en->le(en->num(lo), a));
        Z3_solver_assert(ctx, s, en->le(a, en->num(hi)));
      }
      if (m.second->m.size() == 2) {
        E x = m.second->m[0], y = m.second->m[1];
        Z3_ast zx = en->enc(x), zy = en->enc(y);
        // McCormick bounds:  (x-xl)(y-yl) >= 0 etc.
        auto mc = [&](i128 xb, i128 yb, bool ge) {
          // x*y - xb*y - yb*x + xb*yb  >=0 / <=0
          i128 k2;
          if (__builtin_mul_overflow(xb, yb, &k2)) return;
          Z3_ast t1[2] = {en->num(-xb), zy}, t2[2] = {en->num(-yb), zx};
          Z3_ast ts[4] = {a, Z3_mk_mul(ctx, 2, t1), Z3_mk_mul(ctx, 2, t2), en->num(k2)};
          Z3_ast sum = Z3_mk_add(ctx, 4, ts);
          Z3_solver_assert(ctx, s, ge ? Z3_mk_ge(ctx, sum, en->num(0)) : Z3_mk_le(ctx, sum, en->num(0)));
        };
        mc(x->lo, y->lo, true); mc(x->hi, y->hi, true); mc(x->lo, y->hi, false); mc(x->hi, y->lo, false);
      }
    }
  }
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res = r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    Model mm = out;
    for (E v : vn) {
      Z3_ast val;
      if (!Z3_model_eval(ctx, m, en->enc(v), true, &val)) continue;
      if (v->w == 1) { mm[v->c] = Z3_get_bool_value(ctx, val) == Z3_L_TRUE; continue; }
      s64 x;
      if (en->isInt()) { int64_t q; if (!Z3_get_numeral_int64(ctx, val, &q)) continue; x = q; }
      else { uint64_t q; if (!Z3_get_numeral_uint64(ctx, val, &q)) continue; x = sext64(q, mode == M_BVK ? k : v->w); }
      mm[v->c] = x;
    }
    Z3_model_dec_ref(ctx, m);
    bool ok = true;
    for (E c : conj) if (!evalE(c, mm)) { ok = false; break; }
    for (E v : vn) if (v->w > 1) { s64 x = mm[v->c]; if (x < v->lo || x > v->hi) ok = false; }
    if (ok) { out = mm; res = R_SAT; }
  }
  Z3_solver_dec_ref(ctx, s);
  return res;
}

void dump(const std::vector<E>& conj, const std::vector<E>& vn) {
  if (g_dumped >= g_dumpMax) return;
  Enc* en = encFor(M_BV, 0);
  Z3_solver s = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  for (E c : conj) Z3_solver_assert(ctx, s, en->enc(c));
  for (E v : vn) {
    if (v->w == 1) continue;
    Z3_ast a = en->enc(v);
    Z3_solver_assert(ctx, s, en->le(en->bvnum(v->w, (u64)(s64)v->lo & maskw(v->w), false), a));
    Z3_solver_assert(ctx, s, en->le(a, en->bvnum(v->w, (u64)(s64)v->hi & maskw(v->w), false)));
  }
  std::ofstream f(g_dumpDir + "/q" + std::to_string(g_dumped++) + ".smt2");
  f << "(set-logic QF_BV)\n" << Z3_solver_to_string(ctx, s) << "(check-sat)\n";
  Z3_solver_dec_ref(ctx, s);
}
struct VecHash { size_t operator()(const std::vector<E>& v) const { size_t h = 0; for (E e : v) h = h * 1000003 + e->id; return h; } };
std::unordered_map<std::vector<E>, std::pair<Res, Model>, VecHash> cache;
} // namespace

Res solve(const std::vector<E>& conjIn, Model& m, unsigned to) {
  init();
  std::vector<E> conj = conjIn;
  std::sort(conj.begin(), conj.end(), [](E a, E b) { return a->id < b->id; });
  conj.erase(std::unique(conj.begin(), conj.end()), conj.end());
  auto ci = cache.find(conj);
  if (ci != cache.end()) {
    g_ss.cacheHits++;
    if (ci->second.first == R_SAT) for (auto& kv : ci->second.second) m[kv.first] = kv.second;
    return ci->second.first;
  }
  auto t0 = std::chrono::steady_clock::now();
  std::unordered_set<E> seen;
  std::vector<E> vn;
  bool intOk = true, bvk = true, nonlin = false, fp = false;
  int bits = 1;
  for (E c : conj) {
    varNodes(c, seen, vn);
    const Info& i = info(c);
    intOk &= i.intOk; bvk &= i.bvkOk; nonlin |= i.nonlin; fp |= i.fp; bits = std::max(bits, i.bits);
  }
  for (E v : vn) bits = std::max(bits, bitsFor(v->lo, v->hi));
  g_ss.queries++;
  Res r = R_UNKNOWN;
  Model mm;
  for (E v : vn) { auto it = m.find(v->c); if (it != m.end()) mm[v->c] = it->second; }
  int which = -1;
  auto attempt = [&](Mode mo, int k, const char* lg, unsigned t, int id) {
    if (r != R_UNKNOWN) return;
    r = tryMode(mo, k, lg, conj, vn, mm, t);
    if (r != R_UNKNOWN) which = id;
  };
  bits += 1;
  if (fp) {
    attempt(M_BV, 0, nullptr, to, 4);
  } else {
    if (intOk && !nonlin) attempt(M_INT, 0, nullptr, std::min(to, 5000u), 0);
    if (intOk && nonlin) {
      attempt(M_ABS, 0, nullptr, std::min(to, 500u), 1);
      if (bvk && bits <= 20) attempt(M_BVK, bits, "QF_BV", std::min(to, 5000u), 2);
      attempt(M_INT, 0, "QF_NIA", std::min(to, 2000u), 3);
      if (r == R_UNKNOWN && bits > 20 && bvk && bits <= 62) attempt(M_BVK, bits, "QF_BV", std::min(to, 5000u), 2);
      attempt(M_INT, 0, "QF_NIA", to, 3);
    }
    if (!intOk && bvk && bits <= 62) attempt(M_BVK, bits, "QF_BV", std::min(to, 10000u), 2);
    attempt(M_BV, 0, "QF_BV", to, 4);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt;
  g_ss.maxTime = std::max(g_ss.maxTime, dt);
  if (getenv("SYMIR_SLOW") && dt > atof(getenv("SYMIR_SLOW"))) {
    fprintf(stderr, "[slow query %.2fs res=%d mode=%d intOk=%d bvk=%d nonlin=%d bits=%d]\n", dt, r, which, intOk, bvk, nonlin, bits);
    for (E c : conj) fprintf(stderr, "    %s\n", show(c).c_str());
  }
  if (which >= 0) g_ss.byMode[which]++;
  if (r == R_UNSAT) { g_ss.unsat++; if (g_dumpMax && !fp) dump(conj, vn); }
  else if (r == R_SAT) { g_ss.sat++; for (auto& kv : mm) m[kv.first] = kv.second; }
  else g_ss.unknown++;
  if (r != R_UNKNOWN) cache[conj] = {r, mm};
  return r;
}
