// symir: a forking symbolic executor for LLVM IR produced from /repo's headers.
// Every fork, check, assertion and memory access is decided by the SMT solver (solver.cpp).
#include "expr.h"
#include "solver.h"
#include <llvm/ADT/APInt.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <sys/resource.h>

using namespace llvm;
typedef std::shared_ptr<std::vector<struct Val>> Agg;

struct Val {
  E e = nullptr;
  int prov = -1; // object a pointer was derived from
  Agg agg;
};

struct Slot { uint32_t size; Val v; };
struct SymW { E off; uint32_t size; Val v; };
enum OKind : uint8_t { O_GLOBAL, O_STACK, O_HEAP, O_FUNC, O_ABSTRACT };
struct Obj {
  u64 base = 0, size = 0;
  E symSize = nullptr; // symbolic allocation size
  OKind kind = O_GLOBAL;
  bool alive = true, ro = false, zero = false, log = false, arr = false, ext = false;
  std::string name;
  std::map<u64, Slot> slots;
  std::vector<SymW> writes;
};

struct Inst;
struct Opnd { int reg = -1; Val cv; };
struct Block { std::vector<Inst> ins; };
struct FnInfo {
  Function* f = nullptr;
  std::vector<Block> blocks;
  int nregs = 0;
  std::string name;
};
struct Inst {
  Instruction* I = nullptr;
  int op = 0;
  int dst = -1;
  std::vector<Opnd> ops;
  int w = 0;              // result width (int/pointer/fp)
  std::vector<int> bbs;   // successor blocks
  std::vector<u64> aux;
  FnInfo* callee = nullptr;
  std::string ext;        // external callee
  bool covered = false;
};

struct Frame {
  FnInfo* fn;
  int bb = 0, ip = 0, prev = -1;
  std::vector<Val> regs;
  std::vector<int> allocas;
  int retReg = -1;
  int retW = 0;
  bool guard = false;
  int normalBB = -1; // for invoke
};

static double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Input { std::string name; E v; };
struct TraceE { std::string label; E v; };

struct State {
  std::vector<std::shared_ptr<Frame>> st;
  std::vector<std::shared_ptr<Obj>> objs;
  std::vector<E> conj;
  std::unordered_map<u64, E> sub;
  std::unordered_map<E, E> memo;
  Model m;
  std::vector<Input> inputs;
  std::vector<TraceE> trace;
  u64 steps = 0, heapNext = 0x100000000000ull, stackNext = 0x7f0000000000ull;
  s64 live = 0, allocs = 0;
  bool forkSelect = false;
  u64 maxSteps = 20000000;
};
typedef std::shared_ptr<State> SP;

struct PathEnd {}; // this path is finished (infeasible, violation, or complete)

struct Violation {
  std::string kind, msg, where;
  std::vector<std::pair<std::string, s64>> inputs;
};

// ------------------------------------------------------------------------------------------------
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::map<Function*, std::unique_ptr<FnInfo>> fns;
static std::map<u64, Function*> fnAddr;
static std::map<const GlobalValue*, std::pair<u64, int>> gaddr; // address, object id
static std::vector<std::shared_ptr<Obj>> initObjs;
static std::vector<SP> work;
static std::vector<Violation> viols;
static std::set<std::string> violKeys;
static std::vector<std::string> undecided;
static std::map<std::string, u64> reach;
static std::set<const DISubprogram*> coveredSP;
static std::set<std::pair<std::string, unsigned>> coveredLines;
static u64 nPaths = 0, nInfeasible = 0, nChecks = 0, nCheckProved = 0, nInstr = 0, nForks = 0, nGuardFired = 0, nMem = 0, nMemSolver = 0;
static unsigned qTimeout = 20000;
static double tEnd = 0;
static u64 maxPaths = 2000000;
static unsigned maxViol = 6;
static u64 maxConc = 256;
static const char* repoPrefix = "/repo/";
struct Sample { std::vector<std::pair<std::string, s64>> in; std::vector<std::pair<std::string, u64>> tr; };
static std::vector<Sample> samples;
static unsigned maxSamples = 60;
static int dbg = 0;

static int typeW(Type* t) {
  if (t->isIntegerTy()) {
    int w = t->getIntegerBitWidth();
    if (w > 64) throw Unsupported("integer type wider than 64 bits");
    return w;
  }
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isVoidTy()) return 0;
  if (t->isStructTy() || t->isArrayTy()) return -1;
  std::string s; raw_string_ostream os(s); t->print(os);
  throw Unsupported("type " + s);
}

static Val constVal(const Constant* c);
static Val undefOf(Type* t) {
  Val v;
  int w = typeW(t);
  if (w == -1) {
    v.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++)
      v.agg->push_back(undefOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
    return v;
  }
  int rw = w;
  v.e = mkVar("undef", rw, rw == 64 ? INT64_MIN : -((s64)1 << (rw - 1)), rw == 64 ? INT64_MAX : ((s64)1 << (rw - 1)) - 1, true);
  return v;
}

static Val constVal(const Constant* c) {
  Val v;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    v.e = mkConst(typeW(c->getType()), ci->getValue().getZExtValue());
    return v;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    v.e = mkConst(typeW(c->getType()), cf->getValueAPF().bitcastToAPInt().getZExtValue());
    return v;
  }
  if (isa<ConstantPointerNull>(c)) { v.e = mkConst(64, 0); return v; }
  if (isa<UndefValue>(c)) return undefOf(c->getType());
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) throw Unsupported("global " + gv->getName().str());
    v.e = mkConst(64, it->second.first);
    v.prov = it->second.second;
    return v;
  }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    v.agg = std::make_shared<std::vector<Val>>();
    Type* t = c->getType();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement(i)));
    return v;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      Val b = constVal(ce->getOperand(0));
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep");
      b.e = mkAdd(b.e, mkConst(64, off.getZExtValue()));
      return b;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
      Val b = constVal(ce->getOperand(0));
      int w = typeW(c->getType());
      if (b.e->w > w) b.e = mkTrunc(b.e, w);
      else if (b.e->w < w) b.e = mkZExt(b.e, w);
      return b;
    }
    case Instruction::Sub: {
      Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
      a.e = mkSub(a.e, b.e);
      return a;
    }
    case Instruction::Add: {
      Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
      a.e = mkAdd(a.e, b.e);
      return a;
    }
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  throw Unsupported("constant " + s);
}

static void initGlobal(Obj& o, u64 off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) {
    return; // objects with initialisers start zeroed
  }
  if (t->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++) initGlobal(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy()) {
    u64 sz = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) initGlobal(o, off + sz * i, c->getAggregateElement(i));
    return;
  }
  Val v = constVal(c);
  u64 sz = DL->getTypeStoreSize(t);
  if (v.e->w < (int)sz * 8) v.e = mkZExt(v.e, sz * 8);
  o.slots[off] = Slot{(uint32_t)sz, v};
}

static void layoutGlobals() {
  u64 next = 0x10000000ull;
  for (Function& f : *M) {
    auto o = std::make_shared<Obj>();
    o->kind = O_FUNC; o->base = next; o->size = 16; o->ro = true; o->name = f.getName().str();
    gaddr[&f] = {next, (int)initObjs.size()};
    fnAddr[next] = &f;
    initObjs.push_back(o);
    next += 32;
  }
  next = 0x20000000ull;
  for (GlobalVariable& g : M->globals()) {
    auto o = std::make_shared<Obj>();
    u64 al = g.getAlign() ? g.getAlign()->value() : DL->getPreferredAlign(&g).value();
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
    next = (next + 2 * al - 1) / (2 * al) * (2 * al) + al;
    o->kind = O_GLOBAL; o->base = next; o->size = sz; o->ro = g.isConstant(); o->name = g.getName().str();
    o->zero = g.hasInitializer();
    o->ext = !g.hasInitializer();
    if (o->ext && (o->name == "stderr" || o->name == "stdout")) { o->ext = false; o->zero = true; o->ro = true; }
    gaddr[&g] = {next, (int)initObjs.size()};
    initObjs.push_back(o);
    next += sz + 256;
  }
  for (GlobalVariable& g : M->globals())
    if (g.hasInitializer() && !g.getName().starts_with("llvm.")) initGlobal(*initObjs[gaddr[&g].second], 0, g.getInitializer());
}

// ------------------------------------------------------------------------------------------------
static FnInfo* getFn(Function* f) {
  auto it = fns.find(f);
  if (it != fns.end()) return it->second.get();
  auto fi = std::make_unique<FnInfo>();
  FnInfo* p = fi.get();
  fns[f] = std::move(fi);
  p->f = f;
  p->name = f->getName().str();
  std::unordered_map<const Value*, int> reg;
  std::unordered_map<const BasicBlock*, int> bbn;
  int n = 0;
  for (auto& a : f->args()) reg[&a] = n++;
  int b = 0;
  for (auto& bb : *f) {
    bbn[&bb] = b++;
    for (auto& I : bb) if (!I.getType()->isVoidTy()) reg[&I] = n++;
  }
  p->nregs = n;
  p->blocks.resize(b);
  b = 0;
  auto opnd = [&](Value* v) {
    Opnd o;
    if (auto* c = dyn_cast<Constant>(v)) {
      o.cv = constVal(c);
    } else {
      auto r = reg.find(v);
      if (r == reg.end()) throw Unsupported("operand kind");
      o.reg = r->second;
    }
    return o;
  };
  for (auto& bb : *f) {
    auto& B = p->blocks[b++];
    for (auto& I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in;
      in.I = &I;
      in.op = I.getOpcode();
      auto r = reg.find(&I);
      if (r != reg.end()) in.dst = r->second;
      if (!I.getType()->isVoidTy()) {
        if (isa<LandingPadInst>(I)) { B.ins.push_back(in); continue; }
        in.w = typeW(I.getType());
      }
      switch (in.op) {
      case Instruction::Br: {
        auto* br = cast<BranchInst>(&I);
        if (br->isConditional()) in.ops.push_back(opnd(br->getCondition()));
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) in.bbs.push_back(bbn[br->getSuccessor(i)]);
        break;
      }
      case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(&I);
        in.ops.push_back(opnd(sw->getCondition()));
        in.bbs.push_back(bbn[sw->getDefaultDest()]);
        for (auto& c : sw->cases()) {
          in.aux.push_back(c.getCaseValue()->getZExtValue());
          in.bbs.push_back(bbn[c.getCaseSuccessor()]);
        }
        break;
      }
      case Instruction::PHI: {
        auto* ph = cast<PHINode>(&I);
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
          in.ops.push_back(opnd(ph->getIncomingValue(i)));
          in.bbs.push_back(bbn[ph->getIncomingBlock(i)]);
        }
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(&I);
        if (cb->isInlineAsm()) { in.ext = "!asm"; break; }
        for (auto& a : cb->args()) {
          if (a->getType()->isMetadataTy()) { in.ops.push_back(Opnd()); continue; }
          in.ops.push_back(opnd(a.get()));
        }
        Function* cf = cb->getCalledFunction();
        if (!cf) {
          if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) cf = dyn_cast<Function>(ga->getAliaseeObject());
        }
        if (cf) {
          in.ext = cf->getName().str();
        } else {
          in.ops.push_back(opnd(cb->getCalledOperand()));
          in.ext = "!indirect";
        }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) in.bbs.push_back(bbn[iv->getNormalDest()]);
        break;
      }
      case Instruction::GetElementPtr: {
        // base + sum(idx*scale) + const
        auto* g = cast<GetElementPtrInst>(&I);
        in.ops.push_back(opnd(g->getPointerOperand()));
        u64 cst = 0;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value* idx = gi.getOperand();
          if (StructType* stt = gi.getStructTypeOrNull()) {
            cst += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx)) cst += sc * (u64)ci->getSExtValue();
            else { in.ops.push_back(opnd(idx)); in.aux.push_back(sc); }
          }
        }
        in.aux.push_back(cst);
        break;
      }
      case Instruction::Alloca: {
        auto* al = cast<AllocaInst>(&I);
        in.ops.push_back(opnd(al->getArraySize()));
        in.aux = {(u64)DL->getTypeAllocSize(al->getAllocatedType()), al->getAlign().value()};
        break;
      }
      case Instruction::ExtractValue: {
        in.ops.push_back(opnd(I.getOperand(0)));
        for (unsigned x : cast<ExtractValueInst>(&I)->getIndices()) in.aux.push_back(x);
        break;
      }
      case Instruction::InsertValue: {
        in.ops.push_back(opnd(I.getOperand(0)));
        in.ops.push_back(opnd(I.getOperand(1)));
        for (unsigned x : cast<InsertValueInst>(&I)->getIndices()) in.aux.push_back(x);
        break;
      }
      case Instruction::Load: {
        auto* l = cast<LoadInst>(&I);
        in.ops.push_back(opnd(l->getPointerOperand()));
        in.aux = {(u64)DL->getTypeStoreSize(l->getType()), l->getAlign().value()};
        break;
      }
      case Instruction::Store: {
        auto* s = cast<StoreInst>(&I);
        in.ops.push_back(opnd(s->getValueOperand()));
        in.ops.push_back(opnd(s->getPointerOperand()));
        in.aux = {(u64)DL->getTypeStoreSize(s->getValueOperand()->getType()), s->getAlign().value()};
        break;
      }
      case Instruction::Resume: case Instruction::Unreachable: break;
      default:
        for (auto& o : I.operands()) in.ops.push_back(opnd(o.get()));
      }
      B.ins.push_back(std::move(in));
    }
  }
  // resolve direct callees lazily at call time
  return p;
}

// ------------------------------------------------------------------------------------------------
struct Exec {
  State* S;
  Frame* F;

  Frame* top() {
    auto& sp = S->st.back();
    if (sp.use_count() > 1) sp = std::make_shared<Frame>(*sp);
    return sp.get();
  }
  Obj* wobj(int id) {
    auto& sp = S->objs[id];
    if (sp.use_count() > 1) sp = std::make_shared<Obj>(*sp);
    return sp.get();
  }
  E rw(E e) {
    if (e->isConst() || S->sub.empty()) return e;
    return rewriteE(e, S->sub, S->memo);
  }
  u64 wit(E e) { return evalE(e, S->m); }

  std::string where() {
    // innermost frame location in the repository, else innermost with any location
    std::string best;
    for (size_t i = S->st.size(); i-- > 0;) {
      auto& fr = *S->st[i];
      int ip = std::max(0, fr.ip - 1);
      if (fr.bb >= (int)fr.fn->blocks.size() || ip >= (int)fr.fn->blocks[fr.bb].ins.size()) continue;
      const DILocation* dl = fr.fn->blocks[fr.bb].ins[ip].I->getDebugLoc();
      for (; dl; dl = dl->getInlinedAt()) {
        std::string fl = (dl->getDirectory() + "/" + dl->getFilename()).str();
        if (StringRef(dl->getFilename()).starts_with("/")) fl = dl->getFilename().str();
        std::string s = fl + ":" + std::to_string(dl->getLine());
        if (StringRef(fl).starts_with(repoPrefix)) return s;
        if (best.empty()) best = s;
      }
    }
    return best;
  }

  // ---- constraints ----
  void recomputeSubs() { for (auto& kv : S->sub) S->m[kv.first] = sext64(evalE(kv.second, S->m), g_vars[kv.first].w); }

  void addSub(u64 id, E e) {
    std::unordered_map<u64, E> one{{id, e}};
    std::unordered_map<E, E> memo;
    for (auto& kv : S->sub) kv.second = rewriteE(kv.second, one, memo);
    S->sub[id] = e;
    S->memo.clear();
    std::vector<E> old;
    old.swap(S->conj);
    for (E c : old) addC(c); // rw applies every substitution, including ones added by this loop
  }
  // c already rewritten, witness satisfies it
  void addConj(E c) {
    if (c->isConst()) return;
    if (c->k == K_AND && c->w == 1) {
      std::vector<E> parts = c->ops;
      for (E p : parts) addC(p);
      return;
    }
    if (c->k == K_NOT && c->ops[0]->k == K_OR) {
      std::vector<E> parts = c->ops[0]->ops;
      for (E p : parts) addC(mkNot(p));
      return;
    }
    // boolean variable-free simplifications
    if (c->k == K_EQ0) {
      E d = c->ops[0];
      if (d->k == K_VAR && d->w > 1) { addSub(d->c, mkConst(d->w, 0)); return; }
      if (d->k == K_POLY) {
        E best = nullptr; u64 bc = 0;
        for (auto& t : d->terms) {
          if (t.m.size() != 1 || t.m[0]->k != K_VAR) continue;
          if (!(t.c == 1 || t.c == maskw(d->w))) continue;
          E v = t.m[0];
          // v must not occur in any other term
          bool other = false;
          for (auto& u : d->terms) {
            if (&u == &t) continue;
            for (E a : u.m) { std::unordered_set<u64> vs; collectVars(a, vs); if (vs.count(v->c)) other = true; }
          }
          if (other) continue;
          if (!best || v->c > best->c) { best = v; bc = t.c; }
        }
        if (best) {
          E rest = mkSub(d, bc == 1 ? best : mkNeg(best)); // d - (+-v)
          E val = bc == 1 ? mkNeg(rest) : rest;
          i128 lo = best->lo, hi = best->hi;
          int w = best->w;
          addSub(best->c, val);
          if (val->lo < lo) addC(mkSle(mkConst(w, (u64)(s64)lo), val));
          if (val->hi > hi) addC(mkSle(val, mkConst(w, (u64)(s64)hi)));
          return;
        }
      }
    }
    bool neg = false;
    E l = c;
    if (l->k == K_NOT) { neg = true; l = l->ops[0]; }
    if (l->k == K_LT0) {
      E d = l->ops[0];
      // v < 0, v + c < 0, c - v < 0
      E v = nullptr; i128 k = 0; int sgn = 0;
      if (d->k == K_VAR) { v = d; sgn = 1; }
      else if (d->k == K_POLY && d->exact) {
        bool ok = true;
        for (auto& t : d->terms) {
          if (t.m.empty()) k = sext64(t.c, d->w);
          else if (t.m.size() == 1 && t.m[0]->k == K_VAR && !v && (t.c == 1 || t.c == maskw(d->w))) { v = t.m[0]; sgn = t.c == 1 ? 1 : -1; }
          else ok = false;
        }
        if (!ok) v = nullptr;
      }
      if (v && v->w > 1) {
        i128 lo = v->lo, hi = v->hi;
        if (sgn == 1) { if (!neg) hi = std::min(hi, -k - 1); else lo = std::max(lo, -k); }       // v < -k  /  v >= -k
        else { if (!neg) lo = std::max(lo, k + 1); else hi = std::min(hi, k); }                   // v > k  /  v <= k
        if (lo <= hi) {
          if (lo == v->lo && hi == v->hi) return;
          addSub(v->c, lo == hi ? mkConst(v->w, (u64)(s64)lo) : mkVarRange(v->c, (s64)lo, (s64)hi));
          return;
        }
      }
    }
    for (E x : S->conj) if (x == c) return;
    S->conj.push_back(c);
  }
  void addC(E c) { addConj(rw(c)); }

  // slice of the constraints that share variables with c
  std::vector<E> slice(E c) {
    std::unordered_set<u64> vs;
    collectVars(c, vs);
    std::vector<E> out;
    std::vector<char> used(S->conj.size(), 0);
    std::vector<std::unordered_set<u64>> cvs(S->conj.size());
    for (size_t i = 0; i < S->conj.size(); i++) collectVars(S->conj[i], cvs[i]);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < S->conj.size(); i++) {
        if (used[i]) continue;
        bool hit = false;
        for (u64 v : cvs[i]) if (vs.count(v)) { hit = true; break; }
        if (!hit) continue;
        used[i] = 1; ch = true;
        out.push_back(S->conj[i]);
        vs.insert(cvs[i].begin(), cvs[i].end());
      }
    }
    return out;
  }
  // Is (path condition and c) satisfiable?  m receives a full witness on SAT.
  Res sat(E c, Model& m) {
    c = rw(c);
    if (c->isConst()) { if (c->c) { m = S->m; return R_SAT; } return R_UNSAT; }
    if (wit(c) & 1) { m = S->m; return R_SAT; }
    if (nowS() > tEnd) throw Unsupported("time limit");
    auto q = slice(c);
    q.push_back(c);
    m = S->m;
    Res r = solve(q, m, qTimeout);
    if (r == R_SAT) {
      Model keep = S->m;
      S->m = m; recomputeSubs(); m = S->m; S->m = keep;
    }
    return r;
  }
  void setModel(const Model& m) { S->m = m; }

  void note(const std::string& what) {
    std::string s = what + " at " + where();
    if (undecided.size() < 20) undecided.push_back(s);
  }

  std::vector<std::pair<std::string, s64>> inputsUnder(const Model& m) {
    std::vector<std::pair<std::string, s64>> r;
    for (auto& i : S->inputs) r.push_back({i.name, sext64(evalE(i.v, m), i.v->w)});
    return r;
  }
  void violation(const std::string& kind, const std::string& msg, const Model& m) {
    Violation v{kind, msg, where(), inputsUnder(m)};
    std::string key = kind + "|" + msg + "|" + v.where;
    if (!violKeys.insert(key).second) return;
    viols.push_back(v);
    tEnd = std::min(tEnd, nowS() + 15); // one violation settles the verdict: only look around for a moment
    if (dbg) {
      fprintf(stderr, "violation %s %s %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
      for (size_t i = S->st.size(); i-- > 0;) {
        auto& fr = *S->st[i];
        int ip = std::max(0, fr.ip - 1);
        if (fr.bb >= (int)fr.fn->blocks.size() || ip >= (int)fr.fn->blocks[fr.bb].ins.size()) continue;
        const DILocation* dl = fr.fn->blocks[fr.bb].ins[ip].I->getDebugLoc();
        for (; dl; dl = dl->getInlinedAt()) fprintf(stderr, "   %s:%u\n", dl->getFilename().str().c_str(), dl->getLine());
      }
    }
    if (viols.size() >= maxViol) { work.clear(); throw Unsupported("!maxviol"); }
  }
  [[noreturn]] void fatal(const std::string& kind, const std::string& msg) {
    violation(kind, msg, S->m);
    throw PathEnd();
  }
  // require c; on failure report and continue on the passing side
  void require(E c, const std::string& kind, const std::string& msg) {
    c = rw(c);
    if (c->isConst() && c->c) return;
    if (c->undef) { c = determined(c, ("uninitialised value used in: " + msg).c_str()); if (c->isConst() && c->c) return; }
    E nc = mkNot(c);
    Model m;
    Res r = sat(nc, m);
    if (r == R_UNSAT) return;
    if (r == R_UNKNOWN) { note("undecided: " + kind + " " + msg); }
    else violation(kind, msg, m);
    Model m2;
    Res r2 = sat(c, m2);
    if (r2 != R_SAT) throw PathEnd();
    setModel(m2);
    addC(c);
  }

  // An expression over uninitialised values is only a use of them if its value really depends on them
  // (the optimiser combines speculated loads with `and`/`or`/`select`).  Returns the expression with the
  // uninitialised values eliminated when it does not depend on them on this path.
  E determined(E c, const char* msg) {
    if (!c->undef) return c;
    std::unordered_set<u64> vs;
    collectVars(c, vs);
    std::unordered_map<u64, E> s1, s2;
    for (u64 v : vs)
      if (g_vars[v].undef) { s1[v] = mkConst(g_vars[v].w, 0); s2[v] = undefVar(g_vars[v].w); }
    std::unordered_map<E, E> m1, m2;
    E c1 = rw(rewriteE(c, s1, m1)), c2 = rw(rewriteE(c, s2, m2));
    if (c1 != c2) {
      Model m;
      E ne = mkNot(mkEq(c1, c2));
      if (!(ne->isConst() && !ne->c)) {
        Res r = sat(ne, m);
        if (r != R_UNSAT) {
          if (r == R_SAT) violation("uninit", msg, m);
          else note(std::string("undecided: ") + msg);
          throw PathEnd();
        }
      }
    }
    return c1;
  }

  // Branch on c: continue with the returned side, the other feasible side is queued.
  // `alt` is applied to the forked state (same program point; must re-execute or set its own continuation).
  bool branch(E c, const std::function<void(State&, bool)>& alt) {
    c = rw(c);
    if (c->isConst()) return c->c & 1;
    if (c->undef) { c = determined(c, "branch depends on uninitialised memory"); if (c->isConst()) return c->c & 1; }
    bool w = wit(c) & 1;
    E other = w ? mkNot(c) : c;
    Model m;
    Res r = sat(other, m);
    if (r == R_UNKNOWN) note("undecided branch");
    if (r == R_SAT) {
      nForks++;
      auto n = std::make_shared<State>(*S);
      Exec x; x.S = n.get(); x.F = nullptr;
      x.setModel(m);
      x.addC(other);
      alt(*n, !w);
      work.push_back(n);
      // the frames/objects are now shared: re-own ours
      F = top();
    }
    if (r != R_UNSAT) addC(w ? c : mkNot(c));
    return w;
  }
  // fork-by-reexecution: the alternative state re-executes the current instruction
  bool branchRe(E c) {
    int ip = F->ip;
    (void)ip;
    return branch(c, [&](State& n, bool) {
      auto fr = std::make_shared<Frame>(*n.st.back());
      fr->ip--; // ip was advanced before execution
      n.st.back() = fr;
    });
  }
  // Make e concrete on this path, forking over its feasible values (others re-execute this instruction).
  u64 concretize(E e, const char* what) {
    e = rw(e);
    if (e->isConst()) return e->c;
    if (e->undef) fatal("uninit", std::string("uninitialised value used as ") + what);
    u64 v = wit(e);
    (void)what;
    // fork: e == v here, others elsewhere
    branchRe(mkEq(e, mkConst(e->w, v)));
    return v;
  }

  // ---- values ----
  Val get(const Opnd& o) { return o.reg >= 0 ? F->regs[o.reg] : o.cv; }
  void set(const Inst& in, Val v) { if (in.dst >= 0) F->regs[in.dst] = std::move(v); }

  int newObj(OKind k, u64 size, u64 align, E symSize, const std::string& name) {
    auto o = std::make_shared<Obj>();
    o->kind = k; o->size = size; o->symSize = symSize; o->name = name;
    u64& nx = k == O_STACK ? S->stackNext : S->heapNext;
    nx = (nx + 2 * align - 1) / (2 * align) * (2 * align) + align; // exactly `align`-aligned
    o->base = nx;
    nx += symSize ? ((u64)1 << 42) : size + 4096;
    S->objs.push_back(o);
    return (int)S->objs.size() - 1;
  }

  // resolve an access; returns object id and offset expression after bounds checking
  int access(const Val& p, u64 sz, bool write, E& off, u64 align) {
    nMem++;
    E a = rw(p.e);
    if (a->undef) fatal("uninit", "address depends on uninitialised memory");
    int id = p.prov;
    if (id < 0) {
      u64 v = a->isConst() ? a->c : wit(a);
      for (int i = (int)S->objs.size() - 1; i >= 0; i--) {
        auto& o = S->objs[i];
        if (!o || o->symSize) continue;
        if (v >= o->base && v < o->base + std::max<u64>(o->size, 1)) { id = i; break; }
      }
      if (id < 0) fatal("memory", v < 4096 ? "null pointer dereference" : "wild pointer dereference");
    }
    if (!S->objs[id]) fatal("memory", "use of dead object");
    Obj& o = *S->objs[id];
    if (!o.alive) fatal("memory", o.kind == O_HEAP ? "use after free" : "use of out-of-scope object");
    if (o.kind == O_ABSTRACT) fatal("memory", "dereference of abstract pointer");
    if (o.kind == O_FUNC) fatal("memory", "access to function memory");
    if (o.ext) throw Unsupported("access to external global " + o.name);
    if (write && o.ro) fatal("memory", "write to constant memory");
    off = mkSub(a, mkConst(64, o.base));
    const char* rwm = write ? "out of bounds write" : "out of bounds read";
    if (o.symSize) {
      nMemSolver++;
      require(mkAnd(mkSle(mkConst(64, 0), off), mkSle(mkAdd(off, mkConst(64, sz)), rw(o.symSize))), "memory", rwm);
    } else if (off->isConst()) {
      if (off->sval() < 0 || (u64)off->sval() + sz > o.size) fatal("memory", rwm);
    } else {
      nMemSolver++;
      if (o.size < sz) fatal("memory", rwm);
      require(mkAnd(mkSle(mkConst(64, 0), off), mkSle(off, mkConst(64, o.size - sz))), "memory", rwm);
      off = rw(off);
    }
    if (align > 1 && align <= 16 && off->isConst()) {
      if (dbg && ((o.base + off->c) & (align - 1))) fprintf(stderr, "misaligned: object %s base %llx size %llu offset %lld align %llu\n", o.name.c_str(), (unsigned long long)o.base, (unsigned long long)o.size, (long long)off->sval(), (unsigned long long)align);
      if ((o.base + off->c) & (align - 1)) fatal("memory", "misaligned access");
    }
    return id;
  }


  // ---- memory contents ----
  E undefVar(int w) {
    return mkVar("uninit", w, w == 64 ? INT64_MIN : -((s64)1 << (w - 1)), w == 64 ? INT64_MAX : ((s64)1 << (w - 1)) - 1, true);
  }
  // read sz bytes at a concrete offset from the slot map
  Val readSlots(const Obj& o, u64 off, uint32_t sz) {
    auto it = o.slots.find(off);
    if (it != o.slots.end() && it->second.size == sz) return it->second.v;
    if (sz > 8) throw Unsupported("wide memory read");
    // gather overlapping slots
    auto lo = o.slots.lower_bound(off >= 16 ? off - 16 : 0);
    std::vector<std::pair<u64, const Slot*>> ov;
    for (auto i = lo; i != o.slots.end() && i->first < off + sz; ++i)
      if (i->first + i->second.size > off) ov.push_back({i->first, &i->second});
    if (ov.empty()) {
      Val v;
      v.e = o.zero ? mkConst(sz * 8, 0) : undefVar(sz * 8);
      return v;
    }
    E acc = nullptr;
    int prov = -1;
    u64 p = off;
    auto app = [&](E piece) { acc = acc ? mkConcat(piece, acc) : piece; };
    for (auto& s : ov) {
      if (s.first > p) { int n = s.first - p; app(o.zero ? mkConst(n * 8, 0) : undefVar(n * 8)); p = s.first; }
      u64 e = std::min(off + sz, s.first + s.second->size);
      int n = e - p;
      E v = s.second->v.e;
      if (!v) throw Unsupported("aggregate in memory");
      if (v->w < (int)s.second->size * 8) v = mkZExt(v, s.second->size * 8);
      app(n == (int)s.second->size ? v : mkExtract(v, (p - s.first) * 8, n * 8));
      if (s.second->v.prov >= 0) prov = s.second->v.prov;
      p = e;
    }
    if (p < off + sz) { int n = off + sz - p; app(o.zero ? mkConst(n * 8, 0) : undefVar(n * 8)); }
    Val v; v.e = acc; v.prov = prov;
    return v;
  }
  void eraseRange(Obj& o, u64 off, u64 sz) {
    // remove/split slots overlapping [off, off+sz)
    auto it = o.slots.lower_bound(off >= 16 ? off - 16 : 0);
    while (it != o.slots.end() && it->first < off + sz) {
      u64 b = it->first, e = b + it->second.size;
      if (e <= off) { ++it; continue; }
      Slot s = it->second;
      it = o.slots.erase(it);
      if (b < off) {
        int n = off - b;
        o.slots[b] = Slot{(uint32_t)n, Val{mkExtract(widen(s), 0, n * 8)}};
      }
      if (e > off + sz) {
        int n = e - (off + sz);
        o.slots[off + sz] = Slot{(uint32_t)n, Val{mkExtract(widen(s), (off + sz - b) * 8, n * 8)}};
        it = o.slots.upper_bound(off + sz);
      }
    }
  }
  E widen(const Slot& s) { return s.v.e->w < (int)s.size * 8 ? mkZExt(s.v.e, s.size * 8) : s.v.e; }
  void writeSlots(Obj& o, u64 off, uint32_t sz, const Val& v) {
    auto it = o.slots.find(off);
    if (it != o.slots.end() && it->second.size == sz) { it->second.v = v; return; }
    eraseRange(o, off, sz);
    o.slots[off] = Slot{sz, v};
  }
  void toLog(Obj& o) {
    if (o.log) return;
    o.log = true;
    for (auto& kv : o.slots) o.writes.push_back({mkConst(64, kv.first), kv.second.size, kv.second.v});
  }
  // number of distinct values an offset can take according to its interval
  bool smallRange(E off) {
    i128 n = off->hi - off->lo;
    return n <= 64 * 8;
  }
  Val readMem(int id, E off, uint32_t sz) {
    if (S->objs[id]->log) return readLog(id, off, sz);
    if (!off->isConst()) {
      if (!S->objs[id]->symSize && (S->objs[id]->size <= 4096 || smallRange(off))) {
        u64 v = concretize(off, "address");
        return readSlots(*S->objs[id], v, sz);
      }
      toLog(*wobj(id));
      return readLog(id, off, sz);
    }
    return readSlots(*S->objs[id], off->c, sz);
  }
  Val readLog(int id, E off, uint32_t sz) {
    // decide against each earlier write, newest first
    for (size_t i = S->objs[id]->writes.size(); i-- > 0;) {
      const SymW& w = S->objs[id]->writes[i];
      E d = rw(mkSub(off, w.off));
      if (d->isConst()) {
        s64 k = d->sval();
        if (k == 0 && w.size == sz) return w.v;
        if (k >= (s64)w.size || k <= -(s64)sz) continue;
        throw Unsupported("partial overlap in symbolic memory");
      }
      if (d->lo >= (s64)w.size || d->hi <= -(i128)sz) continue;
      if (w.size != sz || !multipleOf(d, sz)) {
        // must be provably disjoint
        E dis = mkOr(mkSle(mkConst(64, w.size), d), mkSle(d, mkConst(64, -(s64)sz)));
        Model m;
        if (sat(mkNot(dis), m) != R_UNSAT) throw Unsupported("possible partial overlap in symbolic memory");
        continue;
      }
      bool eq = branchRe(mkEq0(d));
      if (eq) return S->objs[id]->writes[i].v;
    }
    Val v;
    v.e = S->objs[id]->zero ? mkConst(sz * 8, 0) : undefVar(sz * 8);
    return v;
  }
  bool multipleOf(E d, uint32_t sz) {
    if (sz == 1) return true;
    if (d->isConst()) return d->c % sz == 0;
    if (d->k == K_POLY) {
      for (auto& t : d->terms) if (t.c % sz) return false;
      return true;
    }
    return false;
  }
  void writeMem(int id, E off, uint32_t sz, const Val& v) {
    if (v.agg) throw Unsupported("aggregate store");
    if (!S->objs[id]->log && !off->isConst()) {
      if (!S->objs[id]->symSize && (S->objs[id]->size <= 4096 || smallRange(off))) {
        u64 c = concretize(off, "address");
        writeSlots(*wobj(id), c, sz, v);
        return;
      }
      toLog(*wobj(id));
    }
    Obj* o = wobj(id);
    if (o->log) o->writes.push_back({off, sz, v});
    else writeSlots(*o, off->c, sz, v);
  }
  void copyMem(const Val& d, const Val& s, E nE) {
    u64 n = concretize(nE, "length");
    if (n == 0) return;
    E so, dof;
    int si = access(s, n, false, so, 1), di = access(d, n, true, dof, 1);
    if (so->isConst() && dof->isConst() && !S->objs[si]->log && !S->objs[di]->log) {
      u64 sb = so->c, db = dof->c;
      std::shared_ptr<Obj> src = S->objs[si];
      std::vector<std::pair<u64, Slot>> cp;
      auto it = src->slots.lower_bound(sb >= 16 ? sb - 16 : 0);
      u64 p = sb;
      for (; it != src->slots.end() && it->first < sb + n; ++it) {
        u64 b = it->first, e = b + it->second.size;
        if (e <= sb) continue;
        if (src->zero && b > p) for (u64 q = p; q < b; q++) cp.push_back({q - sb, Slot{1, Val{mkConst(8, 0)}}});
        if (b >= sb && e <= sb + n) cp.push_back({b - sb, it->second});
        else {
          u64 x = std::max(b, sb), y = std::min(e, sb + n);
          cp.push_back({x - sb, Slot{(uint32_t)(y - x), Val{mkExtract(widen(it->second), (x - b) * 8, (y - x) * 8)}}});
        }
        p = e;
      }
      if (src->zero) for (u64 q = p; q < sb + n; q++) cp.push_back({q - sb, Slot{1, Val{mkConst(8, 0)}}});
      src.reset();
      Obj* o = wobj(di);
      eraseRange(*o, db, n);
      if (o->zero && !cp.empty()) {} // uninitialised source bytes copied over zero bytes stay unmodelled
      for (auto& c : cp) o->slots[db + c.first] = c.second;
      if (o->zero && cp.empty()) throw Unsupported("copy of uninitialised bytes into zeroed object");
      return;
    }
    // symbolic placement: element-wise with the granularity of the source
    uint32_t g = n % 8 == 0 ? 8 : n % 4 == 0 ? 4 : 1;
    const Obj& so_ = *S->objs[si];
    if (so_.log && !so_.writes.empty()) g = so_.writes.back().size;
    else if (!so_.slots.empty() && so->isConst()) { auto f = so_.slots.lower_bound(so->c); if (f != so_.slots.end()) g = f->second.size; }
    if (n % g) throw Unsupported("symbolic memcpy granularity");
    std::vector<Val> vals;
    for (u64 k = 0; k < n; k += g) vals.push_back(readMem(si, rw(mkAdd(so, mkConst(64, k))), g));
    for (u64 k = 0; k < n; k += g) writeMem(di, rw(mkAdd(dof, mkConst(64, k))), g, vals[k / g]);
  }
  void setMem(const Val& d, E byte, E nE) {
    u64 n = concretize(nE, "length");
    if (n == 0) return;
    E off;
    int di = access(d, n, true, off, 1);
    if (!off->isConst()) off = mkConst(64, concretize(off, "address"));
    E b8 = mkTrunc(rw(byte), 8);
    if (byte->w == 8) b8 = rw(byte);
    Obj* o = wobj(di);
    if (o->log) throw Unsupported("memset of symbolic memory");
    eraseRange(*o, off->c, n);
    u64 k = 0;
    E b64 = nullptr, b32 = nullptr;
    auto rep = [&](int bytes) { E r = b8; for (int i = 1; i < bytes; i++) r = mkConcat(b8, r); return r; };
    while (k < n) {
      if ((off->c + k) % 8 == 0 && n - k >= 8) { if (!b64) b64 = rep(8); o->slots[off->c + k] = Slot{8, Val{b64}}; k += 8; }
      else if ((off->c + k) % 4 == 0 && n - k >= 4) { if (!b32) b32 = rep(4); o->slots[off->c + k] = Slot{4, Val{b32}}; k += 4; }
      else { o->slots[off->c + k] = Slot{1, Val{b8}}; k++; }
    }
  }

  // ---- calls ----
  void enter(FnInfo* fn, std::vector<Val> args, int retReg, int retW, int normalBB, bool guard) {
    if (S->st.size() > 2000) fatal("hang", "call stack overflow");
    auto fr = std::make_shared<Frame>();
    fr->fn = fn;
    fr->regs.resize(fn->nregs);
    for (size_t i = 0; i < args.size() && i < fn->f->arg_size(); i++) fr->regs[i] = args[i];
    // byval arguments are copied by the caller's frame semantics
    for (size_t i = 0; i < fn->f->arg_size(); i++)
      if (fn->f->hasParamAttribute(i, Attribute::ByVal)) {
        Type* t = fn->f->getParamByValType(i);
        u64 sz = DL->getTypeAllocSize(t), al = DL->getABITypeAlign(t).value();
        if (auto pa = fn->f->getParamAlign(i)) al = std::max<u64>(al, pa->value());
        int id = newObj(O_STACK, sz, al, nullptr, "byval");
        Val v; v.e = mkConst(64, S->objs[id]->base); v.prov = id;
        if (sz) copyMem(v, args[i], mkConst(64, sz));
        fr->regs[i] = v;
        fr->allocas.push_back(id);
      }
    fr->retReg = retReg; fr->retW = retW; fr->normalBB = normalBB; fr->guard = guard;
    S->st.push_back(fr);
    F = fr.get();
  }
  void popFrame() {
    for (int id : S->st.back()->allocas) S->objs[id] = nullptr;
    S->st.pop_back();
  }
  void doReturn(const Val* v) {
    int rr = S->st.back()->retReg, nb = S->st.back()->normalBB;
    bool guard = S->st.back()->guard;
    Val rv;
    if (v) rv = *v;
    popFrame();
    if (S->st.empty()) { F = nullptr; return; }
    F = top();
    if (guard) { rv = Val(); rv.e = mkConst(32, 0); }
    if (rr >= 0) F->regs[rr] = rv;
    if (nb >= 0) jump(nb);
  }
  // unwind to the innermost guard; false if there is none
  bool unwindGuard() {
    int g = -1;
    for (int i = (int)S->st.size() - 1; i >= 0; i--) if (S->st[i]->guard) { g = i; break; }
    if (g < 0) return false;
    int rr = S->st[g]->retReg, nb = S->st[g]->normalBB;
    while ((int)S->st.size() > g) popFrame();
    F = top();
    if (rr >= 0) { Val v; v.e = mkConst(32, 1); F->regs[rr] = v; }
    if (nb >= 0) jump(nb);
    return true;
  }
  void jump(int bb) {
    int from = F->bb;
    F->prev = from; F->bb = bb; F->ip = 0;
    auto& ins = F->fn->blocks[bb].ins;
    std::vector<std::pair<int, Val>> vals;
    size_t i = 0;
    for (; i < ins.size() && ins[i].op == Instruction::PHI; i++) {
      for (size_t k = 0; k < ins[i].bbs.size(); k++)
        if (ins[i].bbs[k] == from) { vals.push_back({ins[i].dst, get(ins[i].ops[k])}); break; }
    }
    for (auto& p : vals) F->regs[p.first] = std::move(p.second);
    F->ip = i;
  }

  std::string cstr(const Val& p) {
    E a = rw(p.e);
    if (!a->isConst() || p.prov < 0 || !S->objs[p.prov]) return "?";
    auto& o = *S->objs[p.prov];
    std::string s;
    for (u64 k = a->c - o.base; k < o.size; k++) {
      Val v = readSlots(o, k, 1);
      if (!v.e->isConst() || !v.e->c) break;
      s += (char)v.e->c;
    }
    return s;
  }
  E cond(const Val& v) { return mkNot(mkEq0(rw(v.e))); }

  bool external(const Inst& in, const std::string& n, std::vector<Val>& a); // returns true if handled
  void step();
  void run();
};

static bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

static u64 hashName(const std::string& s, u64 n) {
  u64 h = 1469598103934665603ull ^ (n * 0x9e3779b97f4a7c15ull);
  for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull;
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h;
}

bool Exec::external(const Inst& in, const std::string& n, std::vector<Val>& a) {
  auto ret = [&](E e, int prov = -1) { Val v; v.e = e; v.prov = prov; set(in, v); };
  auto afterInvoke = [&]() { if (in.op == Instruction::Invoke) jump(in.bbs[0]); };
  if (startsWith(n, "vs_")) {
    if (n == "vs_sym") {
      std::string nm = cstr(a[0]);
      E lo = rw(a[1].e), hi = rw(a[2].e);
      if (!lo->isConst() || !hi->isConst()) throw Unsupported("vs_sym bounds");
      if (lo->sval() > hi->sval()) { nInfeasible++; throw PathEnd(); }
      E v = mkVar(nm, 64, lo->sval(), hi->sval());
      if (!v->isConst()) {
        u64 span = (u64)hi->sval() - (u64)lo->sval();
        u64 h = hashName(nm, S->inputs.size());
        s64 val = span < 1000000000ull ? lo->sval() + (s64)(h % (span + 1)) : 0;
        if (span >= 1000000000ull) { val = (s64)(h % 199) - 99; if (val < lo->sval()) val = lo->sval(); if (val > hi->sval()) val = hi->sval(); }
        S->m[v->c] = val;
      }
      S->inputs.push_back({nm, v});
      ret(v); afterInvoke(); return true;
    }
    if (n == "vs_conc") { u64 v = concretize(a[0].e, "vs_conc"); ret(mkConst(a[0].e->w, v)); afterInvoke(); return true; }
    if (n == "vs_assume") {
      E c = cond(a[0]);
      if (c->undef) fatal("uninit", "assumption on uninitialised value");
      Model m;
      Res r = sat(c, m);
      if (r == R_UNKNOWN) note("undecided assumption");
      if (r != R_SAT) { nInfeasible++; throw PathEnd(); }
      setModel(m);
      addC(c);
      afterInvoke(); return true;
    }
    if (n == "vs_check") {
      nChecks++;
      size_t before = viols.size(), ub = undecided.size();
      require(cond(a[0]), "check", cstr(a[1]));
      if (viols.size() == before && undecided.size() == ub) nCheckProved++;
      afterInvoke(); return true;
    }
    if (n == "vs_reach") { reach[cstr(a[0])]++; afterInvoke(); return true; }
    if (n == "vs_trace") { S->trace.push_back({cstr(a[0]), a[1].e}); afterInvoke(); return true; }
    if (n == "vs_guard") {
      E f = rw(a[0].e);
      if (!f->isConst() || !fnAddr.count(f->c)) throw Unsupported("vs_guard target");
      enter(getFn(fnAddr[f->c]), {a[1]}, in.dst, 32, in.op == Instruction::Invoke ? in.bbs[0] : -1, true);
      return true;
    }
    if (n == "vs_abstract") {
      E k = rw(a[0].e);
      u64 base = ((u64)1 << 61) + k->c * ((u64)1 << 58);
      int id = -1;
      for (size_t i = 0; i < S->objs.size(); i++) if (S->objs[i] && S->objs[i]->kind == O_ABSTRACT && S->objs[i]->base == base) id = i;
      if (id < 0) {
        auto o = std::make_shared<Obj>();
        o->kind = O_ABSTRACT; o->base = base; o->name = "abstract";
        S->objs.push_back(o);
        id = S->objs.size() - 1;
      }
      ret(mkConst(64, base), id); afterInvoke(); return true;
    }
    if (n == "vs_must") { // 1 iff the condition is valid on this path; never forks
      E c = cond(a[0]);
      bool r;
      if (c->undef) c = determined(c, "vs_must depends on uninitialised memory");
      if (c->isConst()) r = c->c & 1;
      else if (!(wit(c) & 1)) r = false;
      else { Model m; r = sat(mkNot(c), m) == R_UNSAT; }
      ret(mkConst(32, r)); afterInvoke(); return true;
    }
    if (n == "vs_ite") { ret(mkIte(cond(a[0]), rw(a[1].e), rw(a[2].e))); afterInvoke(); return true; }
    if (n == "vs_opt") {
      std::string o = cstr(a[0]);
      E v = rw(a[1].e);
      if (o == "forkselect") S->forkSelect = v->c;
      else if (o == "maxsteps") S->maxSteps = v->c;
      else throw Unsupported("vs_opt " + o);
      afterInvoke(); return true;
    }
    if (n == "vs_live") { ret(mkConst(64, S->live)); afterInvoke(); return true; }
    if (n == "vs_allocs") { ret(mkConst(64, S->allocs)); afterInvoke(); return true; }
    throw Unsupported("intrinsic " + n);
  }
  if (startsWith(n, "llvm.")) {
    if (startsWith(n, "llvm.dbg.") || startsWith(n, "llvm.experimental.noalias") || startsWith(n, "llvm.donothing") || startsWith(n, "llvm.prefetch")) return true;
    if (startsWith(n, "llvm.lifetime.")) {
      bool start = startsWith(n, "llvm.lifetime.start");
      int id = a[1].prov;
      if (id >= 0 && S->objs[id]) {
        Obj* o = wobj(id);
        o->slots.clear(); o->writes.clear(); o->log = false;
        o->alive = start;
      }
      return true;
    }
    if (startsWith(n, "llvm.memcpy") || startsWith(n, "llvm.memmove")) { copyMem(a[0], a[1], rw(a[2].e)); return true; }
    if (startsWith(n, "llvm.memset")) { setMem(a[0], a[1].e, rw(a[2].e)); return true; }
    if (startsWith(n, "llvm.assume")) {
      E c = cond(a[0]);
      if (c->isConst() && c->c) return true;
      require(c, "check", "llvm.assume violated");
      return true;
    }
    if (startsWith(n, "llvm.expect")) { set(in, a[0]); return true; }
    if (startsWith(n, "llvm.launder") || startsWith(n, "llvm.strip.invariant") || startsWith(n, "llvm.threadlocal")) { set(in, a[0]); return true; }
    if (startsWith(n, "llvm.is.constant")) { ret(mkBool(false)); return true; }
    if (startsWith(n, "llvm.objectsize")) { ret(mkConst(in.w, ~0ull)); return true; }
    if (startsWith(n, "llvm.stacksave")) { ret(mkConst(64, 0)); return true; }
    if (startsWith(n, "llvm.stackrestore")) return true;
    if (startsWith(n, "llvm.invariant")) { if (in.dst >= 0) ret(mkConst(64, 0)); return true; }
    if (startsWith(n, "llvm.trap") || startsWith(n, "llvm.ubsantrap")) {
      std::string k = "trap";
      if (!a.empty() && a[0].e->isConst()) {
        static const std::map<u64, const char*> names = {{0, "signed add overflow"}, {3, "divide/remainder overflow or by zero"},
          {7, "implicit conversion"}, {12, "signed multiply overflow"}, {13, "signed negate overflow"}, {15, "nonnull argument"},
          {19, "pointer overflow"}, {20, "shift out of bounds"}, {21, "signed subtract overflow"}, {22, "null/misaligned access"},
          {18, "array index out of bounds"}, {10, "load of invalid bool/enum value"}, {1, "builtin unreachable"}, {2, "cfi"}, {11, "missing return"}};
        auto it = names.find(a[0].e->c);
        k = it != names.end() ? it->second : "ub check " + std::to_string(a[0].e->c);
      }
      fatal("ub", k);
    }
    auto w = in.w;
    if (startsWith(n, "llvm.smax") || startsWith(n, "llvm.smin") || startsWith(n, "llvm.umax") || startsWith(n, "llvm.umin")) {
      E x = rw(a[0].e), y = rw(a[1].e);
      E lt = n[5] == 's' ? mkSlt(x, y) : mkUlt(x, y);
      bool mx = n[6] == 'm' && n[7] == 'a';
      if (S->forkSelect && !lt->isConst()) { bool b = branchRe(lt); ret((b == mx) ? y : x); return true; }
      ret(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)); return true;
    }
    if (startsWith(n, "llvm.abs.")) {
      E x = rw(a[0].e), ng = mkSlt(x, mkConst(w, 0));
      if (S->forkSelect && !ng->isConst()) { bool b = branchRe(ng); ret(b ? mkNeg(x) : x); return true; }
      ret(mkIte(ng, mkNeg(x), x)); return true;
    }
    if (startsWith(n, "llvm.fshl.") || startsWith(n, "llvm.fshr.")) {
      E x = rw(a[0].e), y = rw(a[1].e), sh = rw(a[2].e);
      if (!sh->isConst()) sh = mkConst(w, (u64)concretize(sh, "funnel shift amount"));
      u64 k = sh->c % (u64)w;
      if (startsWith(n, "llvm.fshr.")) k = (w - k) % w;
      else if (k == 0) { ret(x); return true; }
      if (k == 0) { ret(y); return true; }
      ret(mkOr(mkShl(x, mkConst(w, k)), mkLShr(y, mkConst(w, w - k)), true)); return true;
    }
    if (startsWith(n, "llvm.bswap")) {
      E x = rw(a[0].e), r = nullptr;
      for (int b = 0; b < w; b += 8) { E t = mkExtract(x, b, 8); r = r ? mkConcat(r, t) : t; }
      ret(r); return true;
    }
    if (startsWith(n, "llvm.usub.sat.") || startsWith(n, "llvm.uadd.sat.")) {
      E x = rw(a[0].e), y = rw(a[1].e);
      if (startsWith(n, "llvm.usub.sat.")) ret(mkIte(mkUlt(x, y), mkConst(w, 0), mkSub(x, y)));
      else { E t = mkAdd(x, y); ret(mkIte(mkUlt(t, x), mkConst(w, ~0ull), t)); }
      return true;
    }
    if (startsWith(n, "llvm.ctlz")) {
      E x = rw(a[0].e);
      if (!x->isConst()) x = mkConst(x->w, concretize(x, "ctlz"));
      u64 r = x->w;
      for (int i = x->w - 1; i >= 0; i--) if (x->c >> i & 1) { r = x->w - 1 - i; break; }
      ret(mkConst(w, r)); return true;
    }
    if (startsWith(n, "llvm.cttz")) {
      E x = rw(a[0].e);
      if (!x->isConst()) x = mkConst(x->w, concretize(x, "cttz"));
      u64 r = x->w;
      for (int i = 0; i < x->w; i++) if (x->c >> i & 1) { r = i; break; }
      ret(mkConst(w, r)); return true;
    }
    if (startsWith(n, "llvm.ctpop")) {
      E x = rw(a[0].e), s = mkConst(w, 0);
      for (int i = 0; i < w; i++) s = mkAdd(s, mkZExt(mkExtract(x, i, 1), w));
      ret(s); return true;
    }
    if (n.find(".with.overflow.") != std::string::npos) {
      E x = rw(a[0].e), y = rw(a[1].e);
      bool sg = n[5] == 's';
      char op = n[6]; // a s m
      int ww = x->w;
      E r = op == 'a' ? mkAdd(x, y) : op == 's' ? mkSub(x, y) : mkMul(x, y);
      E ov;
      i128 c[4];
      auto uns = [&](E e, i128& lo, i128& hi) { if (e->lo >= 0) { lo = e->lo; hi = e->hi; } else { lo = 0; hi = (i128)maskw(ww); } };
      i128 xl = x->lo, xh = x->hi, yl = y->lo, yh = y->hi;
      if (!sg) { uns(x, xl, xh); uns(y, yl, yh); }
      if (op == 'a') { c[0] = xl + yl; c[1] = xh + yh; c[2] = c[0]; c[3] = c[1]; }
      else if (op == 's') { c[0] = xl - yh; c[1] = xh - yl; c[2] = c[0]; c[3] = c[1]; }
      else {
        c[0] = xl * yl; c[1] = xl * yh; c[2] = xh * yl; c[3] = xh * yh; // |.| <= 2^126 for 64-bit signed
        if (!sg && ww == 64 && xh > ((i128)1 << 62) && yh > ((i128)1 << 62)) c[3] = (i128)1 << 126;
      }
      i128 lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3])), hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
      i128 L = sg ? -((i128)1 << (ww - 1)) : 0, H = sg ? ((i128)1 << (ww - 1)) - 1 : (i128)maskw(ww);
      if (lo >= L && hi <= H) ov = mkBool(false);
      else if (hi < L || lo > H) ov = mkBool(true);
      else if (sg && op == 'a') { E z = mkConst(ww, 0); ov = mkAnd(mkEq(mkZExt(mkSlt(x, z), 8), mkZExt(mkSlt(y, z), 8)), mkXor(mkSlt(x, z), mkSlt(r, z))); }
      else if (sg && op == 's') { E z = mkConst(ww, 0); ov = mkAnd(mkXor(mkSlt(x, z), mkSlt(y, z)), mkXor(mkSlt(x, z), mkSlt(r, z))); }
      else if (!sg && op == 'a') ov = mkUlt(r, x);
      else if (!sg && op == 's') ov = mkUlt(x, y);
      else {
        // multiplication: y == 0 or (x*y)/y == x (and not MIN * -1)
        E z = mkConst(ww, 0);
        E q = sg ? mkSDiv(r, y) : mkUDiv(r, y);
        ov = mkAnd(mkNot(mkEq(y, z)), mkNot(mkEq(q, x)));
        if (sg) ov = mkOr(ov, mkAnd(mkEq(y, mkConst(ww, ~0ull)), mkEq(x, mkConst(ww, 1ull << (ww - 1)))));
      }
      Val v; v.agg = std::make_shared<std::vector<Val>>(2);
      (*v.agg)[0].e = r; (*v.agg)[1].e = ov;
      set(in, v); return true;
    }
    auto un = [&](u64 sub) { ret(mkF(K_FUN, w, sub, {rw(a[0].e)})); return true; };
    if (startsWith(n, "llvm.fabs")) return un(1);
    if (startsWith(n, "llvm.floor")) return un(2);
    if (startsWith(n, "llvm.ceil")) return un(3);
    if (startsWith(n, "llvm.sqrt")) return un(4);
    if (startsWith(n, "llvm.sin")) return un(5);
    if (startsWith(n, "llvm.trunc")) return un(6);
    if (startsWith(n, "llvm.round")) return un(7);
    if (startsWith(n, "llvm.cos")) return un(8);
    if (startsWith(n, "llvm.fmuladd") || startsWith(n, "llvm.fma")) {
      ret(mkF(K_FBIN, w, 0, {mkF(K_FBIN, w, 2, {rw(a[0].e), rw(a[1].e)}), rw(a[2].e)})); return true;
    }
    if (startsWith(n, "llvm.minnum") || startsWith(n, "llvm.minimum")) { ret(mkF(K_FBIN, w, 5, {rw(a[0].e), rw(a[1].e)})); return true; }
    if (startsWith(n, "llvm.maxnum") || startsWith(n, "llvm.maximum")) { ret(mkF(K_FBIN, w, 6, {rw(a[0].e), rw(a[1].e)})); return true; }
    throw Unsupported("intrinsic " + n);
  }
  // allocation
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") {
    E sz = rw(a[0].e);
    if (sz->undef) fatal("uninit", "allocation size depends on uninitialised memory");
    u64 al = 16;
    if (n.find("align_val") != std::string::npos) al = concretize(a[1].e, "alignment");
    int id;
    if (sz->isConst()) {
      if (sz->c > ((u64)1 << 40)) fatal("memory", "absurd allocation size");
      id = newObj(O_HEAP, sz->c, al, nullptr, n);
    } else if (sz->hi - sz->lo <= 64) {
      u64 c = concretize(sz, "size");
      id = newObj(O_HEAP, c, al, nullptr, n);
    } else {
      require(mkUle(sz, mkConst(64, (u64)1 << 41)), "memory", "absurd allocation size");
      id = newObj(O_HEAP, 0, al, rw(sz), n);
    }
    S->objs[id]->arr = n[2] == 'n' && n[3] == 'a';
    S->live++; S->allocs++;
    ret(mkConst(64, S->objs[id]->base), id);
    afterInvoke(); return true;
  }
  if (startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv") || n == "free") {
    E p = rw(a[0].e);
    if (p->isConst() && p->c == 0) { afterInvoke(); return true; }
    if (!p->isConst()) {
      E z = mkEq0(p);
      if (!z->isConst()) { if (branchRe(z)) { afterInvoke(); return true; } }
      p = rw(p);
    }
    int id = a[0].prov;
    if (id < 0) for (size_t i = 0; i < S->objs.size(); i++) if (S->objs[i] && p->isConst() && S->objs[i]->base == p->c) id = i;
    if (id < 0 || !S->objs[id] || S->objs[id]->kind != O_HEAP) fatal("memory", "delete of non-heap pointer");
    if (!S->objs[id]->alive) fatal("memory", "double free");
    require(mkEq(p, mkConst(64, S->objs[id]->base)), "memory", "delete of interior pointer");
    if (n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvmSt11align_val_t") {
      Obj& o = *S->objs[id];
      require(mkEq(rw(a[1].e), o.symSize ? rw(o.symSize) : mkConst(64, o.size)), "memory", "sized delete with the wrong size");
    }
    Obj* o = wobj(id);
    o->alive = false; o->slots.clear(); o->writes.clear();
    S->live--;
    afterInvoke(); return true;
  }
  if (n == "memcpy" || n == "memmove") { copyMem(a[0], a[1], rw(a[2].e)); set(in, a[0]); afterInvoke(); return true; }
  if (n == "memset") { setMem(a[0], a[1].e, rw(a[2].e)); set(in, a[0]); afterInvoke(); return true; }
  if (n == "memcmp" || n == "bcmp") {
    u64 k = concretize(a[2].e, "length");
    E r = mkConst(32, 0);
    if (k) {
      E o1, o2;
      int i1 = access(a[0], k, false, o1, 1), i2 = access(a[1], k, false, o2, 1);
      if (!o1->isConst() || !o2->isConst()) throw Unsupported("memcmp address");
      for (u64 i = k; i-- > 0;) {
        E x = mkZExt(readSlots(*S->objs[i1], o1->c + i, 1).e, 32), y = mkZExt(readSlots(*S->objs[i2], o2->c + i, 1).e, 32);
        r = mkIte(mkEq(x, y), r, mkSub(x, y));
      }
    }
    ret(r); afterInvoke(); return true;
  }
  if (n == "strlen") {
    std::string s = cstr(a[0]);
    ret(mkConst(64, s.size())); afterInvoke(); return true;
  }
  if (n == "__assert_fail") {
    std::string msg = cstr(a[0]);
    if (unwindGuard()) { nGuardFired++; return true; }
    fatal("assert", "assertion failed: " + msg);
  }
  if (n == "fprintf" || n == "printf" || n == "fputs" || n == "puts" || n == "fputc" || n == "putchar" || n == "fflush" || n == "fwrite") { // diagnostics: output is not modelled
    if (in.w) ret(mkConst(in.w, 1));
    afterInvoke(); return true;
  }
  if (n == "abort" || n == "exit" || n == "_ZSt9terminatev") fatal("abort", n);
  if (startsWith(n, "_ZSt") && n.find("__throw_") != std::string::npos) fatal("throw", n);
  if (n == "__cxa_throw" || n == "__cxa_rethrow") fatal("throw", "exception thrown");
  if (n == "__cxa_allocate_exception") fatal("throw", "exception thrown");
  if (n == "__cxa_atexit" || n == "atexit") { ret(mkConst(32, 0)); afterInvoke(); return true; }
  if (n == "__cxa_pure_virtual") fatal("abort", n);
  if (startsWith(n, "_ZNSt8ios_base4Init")) { afterInvoke(); return true; }
  if (n == "__cxa_guard_acquire") {
    E off; int id = access(a[0], 1, false, off, 1);
    Val v = readSlots(*S->objs[id], off->c, 1);
    bool done = v.e->isConst() && v.e->c;
    ret(mkConst(32, done ? 0 : 1)); afterInvoke(); return true;
  }
  if (n == "__cxa_guard_release") {
    E off; int id = access(a[0], 1, true, off, 1);
    writeSlots(*wobj(id), off->c, 1, Val{mkConst(8, 1)}); afterInvoke(); return true;
  }
  if (n == "abs" || n == "labs" || n == "llabs") {
    E x = rw(a[0].e), ng = mkSlt(x, mkConst(x->w, 0));
    if (S->forkSelect && !ng->isConst()) { bool b = branchRe(ng); ret(b ? mkNeg(x) : x); afterInvoke(); return true; }
    ret(mkIte(ng, mkNeg(x), x)); afterInvoke(); return true;
  }
  static const std::map<std::string, int> fun = {{"fabs", 1}, {"fabsf", 1}, {"floor", 2}, {"floorf", 2}, {"ceil", 3}, {"ceilf", 3},
    {"sqrt", 4}, {"sqrtf", 4}, {"sin", 5}, {"sinf", 5}, {"trunc", 6}, {"truncf", 6}, {"round", 7}, {"roundf", 7}, {"cos", 8}, {"cosf", 8}};
  auto fi = fun.find(n);
  if (fi != fun.end()) { ret(mkF(K_FUN, in.w, fi->second, {rw(a[0].e)})); afterInvoke(); return true; }
  return false;
}

void Exec::step() {
  Block& B = F->fn->blocks[F->bb];
  Inst& in = B.ins[F->ip++];
  nInstr++;
  if (++S->steps > S->maxSteps) fatal("hang", "step limit exceeded");
  if (!in.covered) {
    in.covered = true;
    for (const DILocation* dl = in.I->getDebugLoc(); dl; dl = dl->getInlinedAt()) {
      if (StringRef(dl->getFilename()).starts_with(repoPrefix)) {
        coveredLines.insert({dl->getFilename().str(), dl->getLine()});
        if (auto* sp = dl->getScope()->getSubprogram()) coveredSP.insert(sp);
      }
    }
  }
  auto V = [&](int i) { return get(in.ops[i]); };
  auto setE = [&](E e, int prov = -1) { Val v; v.e = e; v.prov = prov; F->regs[in.dst] = std::move(v); };
  switch (in.op) {
  case Instruction::Add: case Instruction::Sub: {
    Val a = V(0), b = V(1);
    E r = in.op == Instruction::Add ? mkAdd(a.e, b.e) : mkSub(a.e, b.e);
    int pv = -1;
    if (a.prov >= 0 && b.prov < 0) pv = a.prov;
    else if (in.op == Instruction::Add && a.prov < 0) pv = b.prov;
    setE(r, pv);
    return;
  }
  case Instruction::Mul: setE(mkMul(V(0).e, V(1).e)); return;
  case Instruction::And: { Val a = V(0), b = V(1); setE(mkAnd(a.e, b.e), a.prov >= 0 && b.prov < 0 ? a.prov : b.prov >= 0 && a.prov < 0 ? b.prov : -1); return; }
  case Instruction::Or: {
    bool dj = false;
    if (auto* pd = dyn_cast<PossiblyDisjointInst>(in.I)) dj = pd->isDisjoint();
    setE(mkOr(V(0).e, V(1).e, dj)); return;
  }
  case Instruction::Xor: setE(mkXor(V(0).e, V(1).e)); return;
  case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem: {
    E x = rw(V(0).e), y = rw(V(1).e);
    require(mkNot(mkEq0(y)), "ub", "division by zero");
    x = rw(x); y = rw(y);
    bool ex = isa<PossiblyExactOperator>(in.I) && cast<PossiblyExactOperator>(in.I)->isExact();
    switch (in.op) {
    case Instruction::SDiv: setE(mkSDiv(x, y, ex)); break;
    case Instruction::UDiv: setE(mkUDiv(x, y, ex)); break;
    case Instruction::SRem: setE(mkSRem(x, y)); break;
    default: setE(mkURem(x, y));
    }
    return;
  }
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    E x = rw(V(0).e), y = rw(V(1).e);
    if (!y->isConst() && (x->isConst() || x->k == K_VAR || true)) y = mkConst(y->w, concretize(y, "shift amount"));
    if (y->c >= (u64)x->w) fatal("ub", "shift amount out of range");
    bool ex = isa<PossiblyExactOperator>(in.I) && cast<PossiblyExactOperator>(in.I)->isExact();
    if (in.op == Instruction::Shl) setE(mkShl(x, y));
    else if (in.op == Instruction::LShr) setE(mkLShr(x, y, ex));
    else setE(mkAShr(x, y, ex));
    return;
  }
  case Instruction::ZExt: { Val a = V(0); setE(mkZExt(a.e, in.w), a.prov); return; }
  case Instruction::SExt: { Val a = V(0); setE(mkSExt(rw(a.e), in.w), a.prov); return; }
  case Instruction::Trunc: { Val a = V(0); setE(mkTrunc(rw(a.e), in.w)); return; }
  case Instruction::PtrToInt: {
    Val a = V(0);
    E e = a.e;
    if (in.w < 64) e = mkTrunc(rw(e), in.w);
    setE(e, in.w == 64 ? a.prov : -1); return;
  }
  case Instruction::IntToPtr: { Val a = V(0); E e = a.e; if (e->w < 64) e = mkZExt(e, 64); setE(e, a.prov); return; }
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: F->regs[in.dst] = V(0); return;
  case Instruction::ICmp: {
    E a = rw(V(0).e), b = rw(V(1).e), r;
    switch (cast<ICmpInst>(in.I)->getPredicate()) {
    case CmpInst::ICMP_EQ: r = mkEq(a, b); break;
    case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
    case CmpInst::ICMP_SLT: r = mkSlt(a, b); break;
    case CmpInst::ICMP_SLE: r = mkSle(a, b); break;
    case CmpInst::ICMP_SGT: r = mkSlt(b, a); break;
    case CmpInst::ICMP_SGE: r = mkSle(b, a); break;
    case CmpInst::ICMP_ULT: r = mkUlt(a, b); break;
    case CmpInst::ICMP_ULE: r = mkUle(a, b); break;
    case CmpInst::ICMP_UGT: r = mkUlt(b, a); break;
    default: r = mkUle(b, a); break;
    }
    setE(r); return;
  }
  case Instruction::FAdd: setE(mkF(K_FBIN, in.w, 0, {rw(V(0).e), rw(V(1).e)})); return;
  case Instruction::FSub: setE(mkF(K_FBIN, in.w, 1, {rw(V(0).e), rw(V(1).e)})); return;
  case Instruction::FMul: setE(mkF(K_FBIN, in.w, 2, {rw(V(0).e), rw(V(1).e)})); return;
  case Instruction::FDiv: setE(mkF(K_FBIN, in.w, 3, {rw(V(0).e), rw(V(1).e)})); return;
  case Instruction::FRem: setE(mkF(K_FBIN, in.w, 4, {rw(V(0).e), rw(V(1).e)})); return;
  case Instruction::FNeg: setE(mkF(K_FNEG, in.w, 0, {rw(V(0).e)})); return;
  case Instruction::FCmp: setE(mkF(K_FCMP, 1, (u64)cast<FCmpInst>(in.I)->getPredicate(), {rw(V(0).e), rw(V(1).e)})); return;
  case Instruction::SIToFP: setE(mkF(K_SITOFP, in.w, 0, {rw(V(0).e)})); return;
  case Instruction::UIToFP: setE(mkF(K_UITOFP, in.w, 0, {rw(V(0).e)})); return;
  case Instruction::FPToSI: setE(mkF(K_FPTOSI, in.w, 0, {rw(V(0).e)})); return;
  case Instruction::FPToUI: setE(mkF(K_FPTOUI, in.w, 0, {rw(V(0).e)})); return;
  case Instruction::FPExt: setE(mkF(K_FPEXT, in.w, 0, {rw(V(0).e)})); return;
  case Instruction::FPTrunc: setE(mkF(K_FPTRUNC, in.w, 0, {rw(V(0).e)})); return;
  case Instruction::Select: {
    Val c = V(0), a = V(1), b = V(2);
    E ce = rw(c.e);
    if (ce->isConst()) { F->regs[in.dst] = ce->c ? a : b; return; }
    if (ce->undef) { // a select between equal values does not use its condition; otherwise keep it symbolic
      if (a.e && b.e && !a.agg && !b.agg && a.prov == b.prov) { setE(mkIte(ce, rw(a.e), rw(b.e)), a.prov); return; }
      ce = determined(ce, "select depends on uninitialised memory");
      if (ce->isConst()) { F->regs[in.dst] = ce->c ? a : b; return; }
    }
    if (a.agg || b.agg || a.prov != b.prov || (S->forkSelect && a.e->w > 1)) {
      bool t = branchRe(ce);
      F->regs[in.dst] = t ? a : b;
      return;
    }
    setE(mkIte(ce, rw(a.e), rw(b.e)), a.prov);
    return;
  }
  case Instruction::PHI: throw Unsupported("phi");
  case Instruction::Br: {
    if (in.ops.empty()) { jump(in.bbs[0]); return; }
    E c = rw(V(0).e);
    int t = in.bbs[0], f = in.bbs[1];
    bool w = branchRe(c);
    jump(w ? t : f);
    return;
  }
  case Instruction::Switch: {
    E c = rw(V(0).e);
    for (size_t i = 0; i < in.aux.size(); i++) {
      bool eq = branchRe(mkEq(rw(c), mkConst(c->w, in.aux[i])));
      if (eq) { jump(in.bbs[i + 1]); return; }
    }
    jump(in.bbs[0]);
    return;
  }
  case Instruction::Ret: {
    if (in.ops.empty()) { doReturn(nullptr); return; }
    Val v = V(0);
    doReturn(&v);
    return;
  }
  case Instruction::Unreachable: fatal("ub", "unreachable code reached");
  case Instruction::Resume: fatal("throw", "resume");
  case Instruction::Alloca: {
    E n = rw(V(0).e);
    if (!n->isConst()) throw Unsupported("variable alloca");
    int id = newObj(O_STACK, in.aux[0] * n->c, in.aux[1], nullptr, in.I->getName().str());
    F->allocas.push_back(id);
    setE(mkConst(64, S->objs[id]->base), id);
    return;
  }
  case Instruction::Load: {
    E off;
    if (in.w == -1) throw Unsupported("aggregate load");
    int id = access(V(0), in.aux[0], false, off, in.aux[1]);
    Val v = readMem(id, off, in.aux[0]);
    if (v.e->w != in.w) v.e = in.w < v.e->w ? mkTrunc(rw(v.e), in.w) : mkZExt(v.e, in.w);
    F->regs[in.dst] = v;
    return;
  }
  case Instruction::Store: {
    E off;
    Val v = V(0);
    if (v.agg) throw Unsupported("aggregate store");
    int id = access(V(1), in.aux[0], true, off, in.aux[1]);
    if (v.e->w < (int)in.aux[0] * 8) v.e = mkZExt(v.e, in.aux[0] * 8);
    writeMem(id, off, in.aux[0], v);
    return;
  }
  case Instruction::GetElementPtr: {
    Val b = V(0);
    E e = b.e;
    for (size_t i = 1; i < in.ops.size(); i++) {
      E x = V(i).e;
      if (x->w < 64) x = mkSExt(rw(x), 64);
      e = mkAdd(e, mkMul(x, mkConst(64, in.aux[i - 1])));
    }
    e = mkAdd(e, mkConst(64, in.aux.back()));
    setE(e, b.prov);
    return;
  }
  case Instruction::ExtractValue: {
    Val v = V(0);
    for (u64 i : in.aux) { Val t = (*v.agg)[i]; v = t; }
    F->regs[in.dst] = v;
    return;
  }
  case Instruction::InsertValue: {
    Val v = V(0);
    Val nv; nv.agg = std::make_shared<std::vector<Val>>(*v.agg);
    Val* cur = &nv;
    for (size_t i = 0; i < in.aux.size(); i++) {
      if (i) cur->agg = std::make_shared<std::vector<Val>>(*cur->agg);
      cur = &(*cur->agg)[in.aux[i]];
    }
    *cur = V(1);
    F->regs[in.dst] = nv;
    return;
  }
  case Instruction::Call: case Instruction::Invoke: {
    if (in.ext == "!asm") throw Unsupported("inline assembly");
    size_t na = in.ops.size() - (in.ext == "!indirect" ? 1 : 0);
    std::vector<Val> args;
    args.reserve(na);
    for (size_t i = 0; i < na; i++) args.push_back(in.ops[i].reg < 0 && !in.ops[i].cv.e && !in.ops[i].cv.agg ? Val() : V(i));
    Function* f = nullptr;
    auto* cb = cast<CallBase>(in.I);
    if (in.ext == "!indirect") {
      E t = rw(V(na).e);
      if (!t->isConst()) t = mkConst(64, concretize(t, "function pointer"));
      auto it = fnAddr.find(t->c);
      if (it == fnAddr.end()) fatal("memory", "call through an invalid function pointer");
      f = it->second;
    } else {
      f = cb->getCalledFunction();
      if (!f) f = cast<Function>(cast<GlobalAlias>(cb->getCalledOperand())->getAliaseeObject());
    }
    std::string nm = f->getName().str();
    if (f->isDeclaration() || startsWith(nm, "vs_")) {
      if (external(in, nm, args)) return;
      throw Unsupported("external function " + nm);
    }
    enter(getFn(f), std::move(args), in.dst, in.w, in.op == Instruction::Invoke ? in.bbs[0] : -1, false);
    return;
  }
  default: {
    std::string s; raw_string_ostream os(s); in.I->print(os);
    throw Unsupported("instruction" + s);
  }
  }
}

void Exec::run() {
  while (!S->st.empty()) {
    F = top();
    // run within this frame until it changes
    size_t depth = S->st.size();
    while (S->st.size() == depth && S->st.back().get() == F) step();
  }
}

// ------------------------------------------------------------------------------------------------
static std::string jesc(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

int main(int argc, char** argv) {
  std::string file, entry, out;
  double limit = 600;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--limit") limit = atof(argv[++i]);
    else if (a == "--qtimeout") qTimeout = atoi(argv[++i]);
    else if (a == "--samples") maxSamples = atoi(argv[++i]);
    else if (a == "--dump") { g_dumpDir = argv[++i]; g_dumpMax = atoi(argv[++i]); }
    else if (a == "--repo") repoPrefix = argv[++i];
    else if (a == "--list") list = true;
    else if (a == "-v") dbg = 1;
    else file = a;
  }
  SMDiagnostic err;
  M = parseIRFile(file, err, LC);
  if (!M) { err.print("symir", errs()); return 3; }
  DL = &M->getDataLayout();
  if (list) {
    for (Function& f : *M) if (!f.isDeclaration() && f.getName().starts_with("P") && f.getName().size() > 4 && isdigit(f.getName()[1]) && f.getName()[3] == '_') printf("%s\n", f.getName().str().c_str());
    return 0;
  }
  double t0 = nowS();
  tEnd = t0 + limit;
  std::string unsup;
  u64 rng = 88172645463325252ull;
  try {
    layoutGlobals();
    auto init = std::make_shared<State>();
    init->objs = initObjs;
    initObjs.clear();
    // static constructors
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
      if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& op : arr->operands()) {
          auto* f = dyn_cast<Function>(cast<Constant>(op)->getAggregateElement(1u));
          if (!f) continue;
          Exec x; x.S = init.get();
          x.enter(getFn(f), {}, -1, 0, -1, false);
          x.run();
        }
    init->live = init->allocs = 0; init->steps = 0;
    for (auto& o : init->objs) if (o && o.use_count() > 1) o = std::make_shared<Obj>(*o);
    Function* ef = M->getFunction(entry);
    if (!ef || ef->isDeclaration()) throw Unsupported("no entry " + entry);
    { Exec x; x.S = init.get(); x.enter(getFn(ef), {}, -1, 0, -1, false); }
    work.push_back(init);
    while (!work.empty()) {
      SP s = work.back();
      work.pop_back();
      if (nowS() > tEnd) throw Unsupported("time limit");
      Exec x; x.S = s.get(); x.F = nullptr;
      try {
        x.run();
        nPaths++;
        Sample sm;
        sm.in = x.inputsUnder(s->m);
        for (auto& t : s->trace) { E e = x.rw(t.v); if (e->undef) continue; sm.tr.push_back({t.label, (u64)sext64(evalE(e, s->m), e->w)}); }
        if (samples.size() < maxSamples) samples.push_back(sm);
        else {
          rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
          u64 k = rng % nPaths;
          if (k < maxSamples) samples[k] = sm;
        }
        if (nPaths > maxPaths) throw Unsupported("path limit");
      } catch (PathEnd&) {
      } catch (Unsupported& u) {
        if (std::string(u.what()) == "!maxviol") throw;
        std::string wh = s->st.empty() ? "" : x.where();
        throw Unsupported(std::string(u.what()) + (wh.empty() ? "" : " at " + wh) + (s->st.empty() ? "" : " in " + llvm::demangle(s->st.back()->fn->name)));
      }
    }
  } catch (Unsupported& u) {
    unsup = u.what();
    if (unsup == "!maxviol") unsup.clear();
  } catch (PathEnd&) {
    unsup = "static initialisation did not complete";
  }
  double dt = nowS() - t0;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(fo, "{\"entry\":%s,\"complete\":%s,\"unsupported\":%s,\n", jesc(entry).c_str(), unsup.empty() && undecided.empty() ? "true" : "false", jesc(unsup).c_str());
  fprintf(fo, "\"undecided\":[");
  for (size_t i = 0; i < undecided.size(); i++) fprintf(fo, "%s%s", i ? "," : "", jesc(undecided[i]).c_str());
  fprintf(fo, "],\n\"paths\":%lu,\"infeasible\":%lu,\"forks\":%lu,\"checks\":%lu,\"checks_proved\":%lu,\"instructions\":%lu,\"guards_fired\":%lu,\"mem_accesses\":%lu,\"mem_symbolic\":%lu,\n",
          nPaths, nInfeasible, nForks, nChecks, nCheckProved, nInstr, nGuardFired, nMem, nMemSolver);
  fprintf(fo, "\"solver\":{\"queries\":%lu,\"unsat\":%lu,\"sat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"time\":%.3f,\"max\":%.3f,\"modes\":[%lu,%lu,%lu,%lu,%lu,%lu]},\n",
          g_ss.queries, g_ss.unsat, g_ss.sat, g_ss.unknown, g_ss.cacheHits, g_ss.time, g_ss.maxTime,
          g_ss.byMode[0], g_ss.byMode[1], g_ss.byMode[2], g_ss.byMode[3], g_ss.byMode[4], g_ss.byMode[5]);
  fprintf(fo, "\"wall\":%.3f,\"rss_mb\":%ld,\"nodes\":%zu,\n\"reach\":{", dt, ru.ru_maxrss / 1024, numNodes());
  bool first = true;
  for (auto& r : reach) { fprintf(fo, "%s%s:%lu", first ? "" : ",", jesc(r.first).c_str(), r.second); first = false; }
  fprintf(fo, "},\n\"violations\":[");
  first = true;
  auto prIn = [&](const std::vector<std::pair<std::string, s64>>& v) {
    fprintf(fo, "[");
    for (size_t i = 0; i < v.size(); i++) fprintf(fo, "%s[%s,%ld]", i ? "," : "", jesc(v[i].first).c_str(), v[i].second);
    fprintf(fo, "]");
  };
  for (auto& v : viols) {
    fprintf(fo, "%s\n{\"kind\":%s,\"msg\":%s,\"where\":%s,\"inputs\":", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str());
    prIn(v.inputs);
    fprintf(fo, "}");
    first = false;
  }
  fprintf(fo, "],\n\"samples\":[");
  first = true;
  for (auto& s : samples) {
    fprintf(fo, "%s\n{\"in\":", first ? "" : ",");
    prIn(s.in);
    fprintf(fo, ",\"tr\":[");
    for (size_t i = 0; i < s.tr.size(); i++) fprintf(fo, "%s[%s,%ld]", i ? "," : "", jesc(s.tr[i].first).c_str(), (long)s.tr[i].second);
    fprintf(fo, "]}");
    first = false;
  }
  fprintf(fo, "],\n\"functions\":[");
  std::set<std::string> fnames;
  for (auto* sp : coveredSP) fnames.insert(sp->getFilename().str() + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str());
  first = true;
  for (auto& f : fnames) { fprintf(fo, "%s%s", first ? "" : ",", jesc(f).c_str()); first = false; }
  fprintf(fo, "],\n\"lines\":%zu}\n", coveredLines.size());
  if (fo != stdout) fclose(fo);
  return 0;
}
