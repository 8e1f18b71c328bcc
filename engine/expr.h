// Hash-consed bit-vector expression DAG with simplification, concrete
// evaluation and lowering to Z3.  All widths are 1..64.  Floating point
// operations work on the 64-bit patterns of doubles.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <z3.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
typedef uint16_t u16;

enum EK : u8 {
  K_CONST, K_SYM,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_SHL, K_LSHR, K_ASHR, K_AND, K_OR, K_XOR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point (64-bit patterns)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM,
  K_FEQ, K_FLT, K_FLE, K_FUNO,
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI,
  K_FFLOOR, K_FCEIL, K_FTRUNC
};

struct Expr {
  EK k; u8 w; u8 flags; u8 pad;
  u32 id;
  u64 c;              // const value / symbol index / extract low bit
  Expr *a, *b, *d;
  i64 slo, shi;       // signed range (always valid)
  u64 ulo, uhi;       // unsigned range
  Z3_ast z;
  u64 gen; u64 ev;    // evaluation memo
};
enum { EF_NUM = 1 /* bits are never a NaN-tagged (boxed) value */, EF_FIN = 2 };

static inline u64 maskw(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sextw(u64 v, int w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }

Expr *eConst(u64 v, int w);
Expr *eSym(u32 idx, int w);
Expr *eBin(EK k, Expr *a, Expr *b);     // arithmetic / logic, same widths
Expr *eCmp(EK k, Expr *a, Expr *b);     // EQ/ULT/ULE/SLT/SLE -> width 1
Expr *eNot(Expr *a);                    // 1 bit
Expr *eIte(Expr *c, Expr *a, Expr *b);
Expr *eConcat(Expr *hi, Expr *lo);
Expr *eExtract(Expr *a, int lo, int w);
Expr *eZext(Expr *a, int w);
Expr *eSext(Expr *a, int w);
Expr *eFBin(EK k, Expr *a, Expr *b);
Expr *eFCmp(EK k, Expr *a, Expr *b);
Expr *eFNeg(Expr *a);
Expr *eItoF(Expr *a, bool sgn);
Expr *eFtoI(Expr *a, int w, bool sgn);
Expr *eFUn(EK k, Expr *a);

u64 fpop(EK k, u64 a, u64 b);           // concrete FP semantics
bool fpcmp(EK k, u64 a, u64 b);
u64 ftoi(u64 a, int w, bool sgn);
double u2d(u64); u64 d2u(double);

struct Model { std::vector<u64> v; };
u64 eEval(Expr *e, const Model &m, u64 gen);
u64 newEvalGen();

struct SymInfo { std::string name; int w; };
extern std::vector<SymInfo> gSyms;

// solver
void solverInit();
void solverAssert(Expr *e);
enum SatRes { SR_UNSAT, SR_SAT, SR_UNK };
SatRes solverCheck(Expr *extra, Model *out);
extern unsigned gRlimit;
std::string eStr(Expr *e, int depth = 4);
