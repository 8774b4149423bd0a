// Pre-decoded LLVM IR.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
#include "expr.h"

struct Val { E e; uint64_t c; };          // e == nullptr: concrete value c

enum class Op : uint8_t {
  Bin, ICmp, Select, Cast, Alloca, Load, Store, Gep, Br, CondBr, Switch, Ret,
  Call, Invoke, Landingpad, Resume, Unreachable, ExtractValue, InsertValue, Freeze, Unsupported
};
enum class Pred : uint8_t { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
enum class CastK : uint8_t { Trunc, ZExt, SExt, Same };

// Operand: n scalars, either registers [idx, idx+n) or pool constants.
struct Opnd { int32_t idx = -1; uint16_t n = 0; bool reg = false; uint8_t w = 0; };

struct ClauseT { bool isCatch; uint64_t ti; };  // ti == 0: catch-all

struct Scalar { uint32_t off; uint8_t w; };     // scalar inside a flattened type (byte offset)

struct Inst {
  Op op;
  uint8_t sub = 0;            // K / Pred / CastK
  uint8_t w = 0;              // result width (scalars)
  uint8_t w2 = 0;             // operand width
  bool hit = false;
  uint16_t nres = 0;
  int32_t dest = -1;          // first result register
  uint32_t loc = 0;           // index in locs
  std::vector<Opnd> ops;
  // Gep: ops[0] base, constant offset, then (ops[i], scale)
  int64_t off = 0;
  std::vector<int64_t> scale;
  std::vector<Scalar> lay;    // load/store/alloca/call layouts
  uint64_t size = 0;          // alloca element size
  uint32_t bb[2] = {0, 0};    // br targets; invoke: normal, unwind
  std::vector<std::pair<uint64_t, uint32_t>> cases;
  int32_t callee = -1;        // defined function index
  int32_t ext = -1;           // external/intrinsic index
  std::vector<ClauseT> clauses;
  bool cleanup = false;
  uint32_t exidx = 0;         // extract/insert scalar index
  std::string txt;            // unsupported
};

struct Phi { int32_t dest; uint16_t n; std::vector<std::pair<uint32_t, Opnd>> in; };
struct Block { std::vector<Phi> phis; std::vector<Inst> insts; };
struct Function {
  std::string name, pretty;
  std::vector<Block> blocks;
  uint32_t nregs = 0;
  std::vector<int32_t> argReg; std::vector<uint16_t> argN; std::vector<uint8_t> argW;
  std::vector<uint64_t> byval;   // size when argument is byval, else 0
  uint64_t addr = 0;
  bool entered = false;
  bool fromRepo = false;
};
struct Loc { std::string file; uint32_t line; std::string func; };
struct GlobalInit { uint64_t size; std::vector<uint8_t> bytes; bool constant; std::string name; std::vector<uint8_t> undefs; };

struct Program {
  std::vector<Function> fns;
  std::unordered_map<std::string, int> byName;
  std::unordered_map<uint64_t, int> byAddr;
  std::vector<std::string> exts;          // names of external functions
  std::unordered_map<uint64_t, int> extByAddr;
  std::unordered_map<std::string, uint64_t> globalAddr;
  std::unordered_map<uint64_t, std::string> nameOfAddr;
  std::vector<GlobalInit> globals;        // global i lives at globalBase(i)
  std::vector<uint64_t> globalAddrs;
  std::vector<Val> pool;
  std::vector<Loc> locs;
  std::vector<int> ctors;                 // static constructors
};
bool loadProgram(const char* path, Program& P, std::string& err);

// Address space.
const uint64_t FN_BASE = 0x1000000ull;         // functions: 16 bytes apart
const uint64_t OBJ_BASE = 0x100000000000ull;   // objects: one slot per 64 KiB
const unsigned SLOT_BITS = 16;
const uint64_t SLOT_PAD = 0x1000;              // object starts this far into its slot
const uint64_t STACK_BASE = 0x700000000000ull;
const uint64_t GLOB_BASE = 0x200000000ull;
