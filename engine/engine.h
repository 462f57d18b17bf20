// Symbolic executor over LLVM IR (LLVM 18) with Z3 as the decision procedure.
#pragma once
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/CFG.h>
#include <algorithm>
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <deque>
#include <functional>

namespace sx {
using namespace llvm;

enum Kind : uint8_t {
  KU,  // undefined / uninitialised
  KI,  // concrete integer or pointer, width bits<=64
  KF,  // concrete float/double, raw bits in u
  KS,  // symbolic bit-vector (Z3 BV sort), width bits (may be >64)
  KR,  // symbolic real standing for a floating point number of width bits
  KP,  // symbolic IEEE float (Z3 FP sort) of width bits
  KA   // aggregate or vector
};

struct Val {
  Kind k = KU;
  uint16_t bits = 0;
  union { uint64_t u; std::vector<Val>* agg; };
  Z3_ast a = nullptr;
  Val() : u(0) {}
  static Val I(uint64_t v, unsigned b) { Val x; x.k = KI; x.bits = b; x.u = b >= 64 ? v : (v & ((1ull << b) - 1)); return x; }
  static Val F(double d) { Val x; x.k = KF; x.bits = 64; memcpy(&x.u, &d, 8); return x; }
  static Val F32(float f) { Val x; x.k = KF; x.bits = 32; uint32_t t; memcpy(&t, &f, 4); x.u = t; return x; }
  static Val S(Z3_ast e, unsigned b) { Val x; x.k = KS; x.bits = b; x.a = e; return x; }
  static Val R(Z3_ast e, unsigned b) { Val x; x.k = KR; x.bits = b; x.a = e; return x; }
  static Val P(Z3_ast e, unsigned b) { Val x; x.k = KP; x.bits = b; x.a = e; return x; }
  static Val A(std::vector<Val>&& v) { Val x; x.k = KA; x.agg = new std::vector<Val>(std::move(v)); return x; }
  static Val U(unsigned b) { Val x; x.k = KU; x.bits = b; return x; }
  bool conc() const { return k == KI || k == KF; }
  bool sym() const { return k == KS || k == KR || k == KP; }
  double dbl() const { if (bits == 32) { float f; uint32_t t = (uint32_t)u; memcpy(&f, &t, 4); return f; } double d; memcpy(&d, &u, 8); return d; }
  int64_t s() const { if (bits >= 64) return (int64_t)u; uint64_t m = 1ull << (bits - 1); return (int64_t)((u ^ m) - m); }
};

struct SymCell { Val v; uint32_t n; };  // n bytes

enum OKind : uint8_t { OHEAP, OSTACK, OGLOB, OCONST };
struct Obj {
  uint64_t base = 0, size = 0;
  OKind kind = OHEAP;
  uint8_t alloc = 0;  // 0 n/a, 1 malloc, 2 new, 3 new[]
  std::vector<uint8_t> b;      // concrete bytes
  std::vector<uint8_t> m;      // 0 uninit 1 concrete 2 symbolic (covered by cell)
  std::map<uint32_t, SymCell> cells;
  const char* name = "";
};
using ObjP = std::shared_ptr<Obj>;

struct Opnd { int slot; Val c; };  // slot>=0: register, else constant

struct DFunc;
struct DInst {
  unsigned op = 0;
  const Instruction* I = nullptr;
  int dst = -1;
  uint16_t bits = 0;        // result bits if scalar
  uint8_t tk = 0;           // result type kind: 0 void 1 int 2 fp 3 ptr 4 aggregate/vector
  std::vector<Opnd> o;
  // gep
  int64_t goff = 0;
  std::vector<std::pair<Opnd, int64_t>> gidx;
  // branch
  int b0 = -1, b1 = -1;
  std::vector<std::pair<uint64_t, int>> cases;
  // call
  const Function* callee = nullptr;
  DFunc* dcallee = nullptr;
  int builtin = -1;
  Type* ty = nullptr;
  bool seen = false;
};
struct DBlock {
  const BasicBlock* bb = nullptr;
  std::vector<DInst> in;
  int nphi = 0;
  std::vector<int> preds;                    // pred block ids
  std::vector<std::vector<Opnd>> phiv;       // [phi][pred index]
};
struct DFunc {
  const Function* F = nullptr;
  std::vector<DBlock> bl;
  int nslots = 0;
  std::string name;
  uint64_t calls = 0;
};

struct Frame {
  DFunc* f = nullptr;
  int bb = 0, pc = 0, prev = -1;
  std::vector<Val> r;
  std::vector<uint64_t> allocas;
  int retslot = -1;
  int nrm = -1, unw = -1;  // invoke destinations in the CALLER frame (stored in callee frame)
  int exSel = 0;
};

struct ExObj { uint64_t p; uint64_t tinfo; };

struct Input { char kind; unsigned bits; Val v; const char* name; int64_t lo=0, hi=0; };

struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> mem;
  std::vector<Z3_ast> pc;
  Z3_model model = nullptr;
  std::vector<Input> inputs;
  std::vector<ExObj> caught;
  ExObj cur{0, 0};
  uint64_t steps = 0;
  uint64_t nextHeap = 0, nextStack = 0;
  unsigned forks = 0;
  std::vector<std::string> trace;
  int heapLive = 0;
};
}  // namespace sx
