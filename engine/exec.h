// Symbolic executor over LLVM IR: state, memory, compiled instruction form.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Obj {
  int ref = 1;
  uint32_t size = 0;
  uint8_t alive = 1, ro = 0, kind = 0;   // kind: 0 heap, 1 stack, 2 global, 3 function
  uint8_t* data = nullptr;
  Node** sym = nullptr;
};
static const int CH = 64;
struct Chunk { int ref = 1; Obj* o[CH]; };

struct Memory {
  std::vector<Chunk*> ch;
  uint64_t next = 1;
  Memory() {}
  Memory(const Memory& m);
  ~Memory();
  Memory& operator=(const Memory&) = delete;
  uint64_t alloc(uint64_t size, int kind, int fill);
  const Obj* get(uint64_t idx) const {
    if (idx >= next) return nullptr;
    return ch[idx / CH]->o[idx % CH];
  }
  Obj* getW(uint64_t idx);
};

struct Opnd { int reg; Val cv; };
struct CFunc;
struct CInst {
  const llvm::Instruction* I = nullptr;
  uint16_t op = 0, w = 0, ow = 0;  // opcode, result width, operand width
  uint8_t simple = 0, exec = 0;    // exec: executed at least once
  int dst = -1;
  std::vector<Opnd> ops;
  int64_t off = 0;                                   // GEP constant offset
  std::vector<std::pair<uint32_t, int64_t>> scale;   // GEP (operand index, scale)
  std::vector<int> succ;                             // successor block indices
  int intrin = -1;
  CFunc* callee = nullptr;
};
struct CBlock {
  std::vector<CInst> insts;
  // phis: for each, dst + (pred block index -> operand)
  struct Phi { int dst; std::vector<std::pair<int, Opnd>> in; };
  std::vector<Phi> phis;
  const llvm::BasicBlock* bb = nullptr;
};
struct CFunc {
  const llvm::Function* F = nullptr;
  bool compiled = false, decl = false;
  std::vector<CBlock> blocks;
  int nregs = 0;
  int handler = -1;
  uint64_t addr = 0;
};

struct Frame {
  int ref = 1;
  CFunc* f = nullptr;
  int bb = 0, ip = 0;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<std::pair<Val, unsigned>> varargs;
};

struct ExcInfo { uint64_t obj, tinfo; int handlers; };

struct State {
  std::vector<Frame*> stack;
  Memory mem;
  std::vector<Node*> pc;
  std::vector<Node*> known;     // implied conditions (cache)
  Model model;
  std::vector<uint32_t> inputs;  // variables in creation order
  std::vector<std::pair<std::string, Val>> obs;
  std::vector<uint32_t> covers;
  uint64_t steps = 0;
  int nextEntry = 0;
  uint64_t unwinding = 0;
  std::vector<ExcInfo> excs;
  std::vector<uint64_t> caught;
  int depth = 0;
  std::vector<std::vector<Frame*>> threads;  // suspended cooperative threads (slot of the running one is empty)
  int cur = 0;
  State() {}
  State(const State& s);
  ~State();
  Frame& top() {
    Frame*& f = stack.back();
    if (f->ref > 1) { f->ref--; f = new Frame(*f); f->ref = 1; }
    return *f;
  }
};
