#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <unordered_map>

enum OpC : u8 {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_ICMP, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP,
  O_TRUNC, O_ZEXT, O_SEXT, O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP, O_FPTRUNC, O_FPEXT, O_MOV,
  O_SELECT, O_LOAD, O_STORE, O_ALLOCA, O_GEP, O_BR, O_CONDBR, O_SWITCH, O_INDIRECTBR,
  O_CALL, O_RET, O_UNREACHABLE, O_ATOMICRMW, O_CMPXCHG, O_NOP, O_UNSUPPORTED,
  O_OVF, O_MINMAX, O_VAINTR, O_ABS, O_BSWAP, O_CTPOP, O_CTLZ, O_CTTZ, O_FSH, O_LOADREL
};
// operands: >=0 register slot, <0 constant pool index ~x
struct Edge { int target; std::vector<std::pair<int,int>> moves; };  // pc, (dst,src)
struct GepPart { int op; i64 scale; u8 w; };
struct CallInfo {
  int callee = -1;        // function index, or -1 when indirect (operand a)
  std::vector<int> args;  // operand slots
  std::vector<u8> argw;   // width of each
  int nret = 0;
  bool vararg = false; int nfixed = 0;
};
struct Inst {
  OpC op; u8 w, w2, pred;
  int dst, a, b, c;
  i64 imm;
  void *aux;
  u32 line;
};
struct Func {
  std::string name; int idx = 0;
  bool decl = true; bool vararg = false;
  int nregs = 0, nargs = 0; 
  std::vector<int> argw;
  std::vector<Inst> code;
  std::vector<int> blockPc;
  int builtin = -1;
  u64 addr = 0;
  int enterHook = -1;
};
struct Val { u64 c; Expr *s; };

extern std::vector<Func *> gFuncs;
extern std::vector<Val> gConsts;
extern std::unordered_map<std::string, u64> gGlobalAddr;
extern std::unordered_map<u64, Func *> gFuncByAddr;
extern std::unordered_map<u64, std::pair<Func *, int>> gBlockByAddr;   // blockaddress -> pc

void loadModule(const char *path);

// memory layout
#define ARENA   0x1000000000ULL
#define ARENA_SZ 0x400000000ULL
#define SHADOW(a) ((u8 *)((a) + 0x10000000000ULL))
#define GLOB_BASE ARENA
#define FUNC_BASE (ARENA + 0x10000000ULL)
#define BLK_BASE  (ARENA + 0x18000000ULL)
#define STACK_BASE (ARENA + 0x20000000ULL)
#define STACK_SZ 0x2000000ULL
#define HEAP_BASE (ARENA + 0x80000000ULL)
enum { SH_NONE = 0, SH_OK = 1, SH_FREED = 2, SH_RO = 4, SH_SYM = 0x80 };
static inline bool inArena(u64 a) { return a >= ARENA && a < ARENA + ARENA_SZ; }
u64 globAlloc(u64 sz, u64 align);
