// llsym: symbolic interpreter for LLVM IR
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <set>
#include <deque>
#include <unordered_set>
#include <list>

struct Val { uint64_t c; SVp s; };   // int: s==null -> concrete c ; ptr: address = c + s

enum OK_ : uint8_t { O_HEAP, O_STACK, O_GLOBAL, O_FUNC };
struct Obj {
  uint64_t size = 0; uint8_t kind = O_HEAP; bool alive = true, ro = false; int fn = -1; int owner = -1;
  std::vector<uint8_t> d, un; std::vector<SVp> sy; const char *name = "";
};
typedef std::shared_ptr<Obj> ObjP;

enum OpC : uint16_t {
  X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM, X_SHL, X_LSHR, X_ASHR, X_AND, X_OR, X_XOR,
  X_FADD, X_FSUB, X_FMUL, X_FDIV, X_FREM, X_FNEG,
  X_ICMP, X_FCMP, X_SELECT, X_COPY, X_GEP, X_LOAD, X_STORE, X_ALLOCA, X_CALL, X_RET, X_BR, X_CBR, X_SWITCH, X_UNREACH,
  X_TRUNC, X_ZEXT, X_SEXT, X_PTRTOINT, X_INTTOPTR, X_FPCAST, X_FPTOUI, X_FPTOSI, X_UITOFP, X_SITOFP, X_BITCAST,
  X_MULTICOPY, X_RMW, X_CMPXCHG, X_UNSUP
};
struct GepT { int op; int64_t scale; uint16_t w; };
struct In {
  uint16_t op; uint16_t sub = 0; uint32_t w = 0, w2 = 0; int dst = -1, a = -1, b = -1, c = -1; int lanes = 1;
  bool ptr = false; int64_t imm = 0; uint32_t x = 0; // x: extra index
  const llvm::Instruction *src = nullptr; uint32_t mfail = 0;
};
struct Edge { int block; std::vector<std::array<int, 3>> cp; }; // dst, src, (isptr)
struct Blk { int start, end; std::vector<bool> live; bool haveLive = false; int ipdom = -1; std::string name; };
struct Fn {
  llvm::Function *f = nullptr; bool ready = false; int nregs = 0, nargs = 0; std::vector<In> code; std::vector<Blk> blks; std::vector<Edge> edges;
  std::vector<std::vector<GepT>> geps; std::vector<std::vector<int>> lists; std::vector<std::vector<uint64_t>> clists;
  std::vector<uint8_t> isptr; std::vector<uint32_t> regw; int builtin = -1; uint32_t obj = 0; std::string name; uint64_t calls = 0, icount = 0; bool user = true;
};
struct Frame { Fn *f; std::vector<Val> r; int pc = 0; int blk = 0; int dst = -1; int dlanes = 0; std::vector<uint32_t> allocas; std::vector<Val> va; };

struct SeqItem { std::string name; SVp sv; uint64_t c; bool choice; };
struct Race { std::map<uint64_t, std::array<uint64_t, 4>> log; }; // thread masks: read, write, critical read, critical write
struct State {
  std::vector<ObjP> objs; std::vector<uint32_t> freeIds;
  std::vector<Frame> st; std::vector<Bit> pc; std::unordered_map<Bit, bool> known; std::unordered_map<uint32_t, uint64_t> conc;
  std::shared_ptr<Model> model; std::vector<SeqItem> seq; bool merge = true; uint64_t icount = 0; int nalloc = 0; std::vector<std::string> reach; int id = 0;
  std::vector<std::string> choices; std::vector<int> clsA; int omp_tid = -1, omp_n = 1, omp_want = 2, crit = 0, omp_rev = 0; std::map<int, std::array<int64_t, 5>> disp; size_t ompBase = 0; std::vector<std::vector<Frame>> park; std::vector<int> thst; // 0 runnable 1 barrier 2 done
  std::shared_ptr<Race> race; int heaplive = 0; std::map<std::string, int> varCount; std::map<std::pair<int, std::string>, APInt> permDef; // concrete points of uninterpreted permutations
};
