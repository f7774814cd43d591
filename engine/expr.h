// Hash-consed expression DAG over fixed-width integers, with a polynomial normal form
// (modulo 2^w) and interval analysis.  See DESIGN.md, "Expressions".
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <stdexcept>

typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t s64;

struct Unsupported : std::runtime_error {
  Unsupported(const std::string& s) : std::runtime_error(s) {}
};

enum Kind : uint8_t {
  K_CONST, K_VAR, K_POLY, K_ITE, K_NOT, K_AND, K_OR, K_BXOR, K_BAND, K_BOR,
  K_EQ0, K_LT0, K_SLT, K_ULT, K_SDIV, K_UDIV, K_SREM, K_UREM, K_SHL, K_LSHR, K_ASHR,
  K_ZEXT, K_SEXT, K_TRUNC, K_EXTRACT, K_CONCAT,
  // IEEE operations on bit patterns (32 or 64 bits); `c` holds the sub-operation.
  K_FBIN, K_FNEG, K_FCMP, K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FPEXT, K_FPTRUNC, K_FUN
};

struct Node;
typedef const Node* E;
struct Term {
  std::vector<E> m; // sorted by id, with repetition
  u64 c;
};

struct Node {
  Kind k;
  uint8_t w;        // width in bits, 1..64
  bool exact;       // POLY: the mathematical value of the polynomial fits w signed bits
  bool undef;       // depends on an uninitialised value
  uint32_t id;
  u64 c;            // CONST value, VAR id, EXTRACT low bit, FP sub-op
  i128 lo, hi;      // signed value interval
  u64 vmask;        // bloom filter of variables
  std::vector<E> ops;
  std::vector<Term> terms;
  size_t hash;
  bool isConst() const { return k == K_CONST; }
  s64 sval() const;
};

struct VarInfo {
  std::string name;
  int w;
  s64 lo, hi;
  bool undef;
};
extern std::vector<VarInfo> g_vars; // indexed by original var id

inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline s64 sext64(u64 v, int w) {
  if (w >= 64) return (s64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (s64)((v ^ m) - m);
}
inline s64 Node::sval() const { return sext64(c, w); }

E mkConst(int w, u64 v);
E mkBool(bool b);
E mkVar(const std::string& name, int w, s64 lo, s64 hi, bool undef = false);
E mkVarRange(u64 id, s64 lo, s64 hi); // same variable, narrower range
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkNot(E a);
E mkAnd(E a, E b); // any width
E mkOr(E a, E b, bool disjoint = false);
E mkXor(E a, E b);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkEq0(E d);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSDiv(E a, E b, bool exact = false);
E mkUDiv(E a, E b, bool exact = false);
E mkSRem(E a, E b);
E mkURem(E a, E b);
E mkShl(E a, E b);
E mkLShr(E a, E b, bool exact = false);
E mkAShr(E a, E b, bool exact = false);
E mkZExt(E a, int w);
E mkSExt(E a, int w);
E mkTrunc(E a, int w);
E mkExtract(E a, int lo, int w);
E mkConcat(E hi, E lo);
E mkF(Kind k, int w, u64 sub, std::vector<E> ops);

// Does the signed value of a-b / a+b / a*b fit w bits by interval analysis?
bool fitsS(i128 lo, i128 hi, int w);

typedef std::unordered_map<u64, s64> Model; // var id -> signed value
u64 evalE(E e, const Model& m);            // default 0 clamped into range for missing vars
void newEvalEpoch();

void collectVars(E e, std::unordered_set<u64>& out);
E rewriteE(E e, const std::unordered_map<u64, E>& sub, std::unordered_map<E, E>& memo);
std::string show(E e, int depth = 6);
size_t numNodes();
