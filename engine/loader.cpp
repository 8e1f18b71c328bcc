// LLVM bitcode -> compact internal code
#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <malloc.h>
using namespace llvm;

std::vector<Func *> gFuncs;
std::vector<Val> gConsts;
std::unordered_map<std::string, u64> gGlobalAddr;
std::unordered_map<u64, Func *> gFuncByAddr;
std::unordered_map<u64, std::pair<Func *, int>> gBlockByAddr;

static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<const Function *, int> fidx;
static std::unordered_map<const BasicBlock *, u64> baddr;
static u64 nextBlk = BLK_BASE;
static std::map<u64, int> constIdx;
static u64 globTop = GLOB_BASE + 64;

u64 globAlloc(u64 sz, u64 align) {
  if (align < 16) align = 16;
  globTop = (globTop + align - 1) & ~(align - 1);
  u64 a = globTop; globTop += sz + 32;
  memset(SHADOW(a), SH_OK, sz);
  return a;
}
static int K(u64 v) {
  auto it = constIdx.find(v); if (it != constIdx.end()) return ~it->second;
  int i = gConsts.size(); gConsts.push_back({v, nullptr}); constIdx[v] = i; return ~i;
}
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy(); }
static int slots(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *st = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : st->elements()) n += slots(e); return n; }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slots(at->getElementType());
  return 1;
}
static int width(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  return 0;
}
static bool okTy(Type *t) {
  if (t->isVoidTy() || t->isPointerTy() || t->isDoubleTy() || t->isFloatTy()) return true;
  if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
  if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) if (!okTy(e)) return false; return true; }
  if (auto *at = dyn_cast<ArrayType>(t)) return okTy(at->getElementType());
  return false;
}
static u64 blockAddr(const BasicBlock *bb) { auto &x = baddr[bb]; if (!x) { x = nextBlk; nextBlk += 16; } return x; }

static u64 evalConst(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() <= 64 ? ci->getZExtValue() : 0;
  if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv); if (it != gaddr.end()) return it->second;
    if (auto *al = dyn_cast<GlobalAlias>(gv)) return evalConst(al->getAliasee());
    fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); exit(3);
  }
  if (auto *ba = dyn_cast<BlockAddress>(c)) return blockAddr(ba->getBasicBlock());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "bad const gep\n"); exit(3); }
      return evalConst(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { u64 v = evalConst(ce->getOperand(0)); return v & maskw(width(ce->getType())); }
    case Instruction::ZExt: return evalConst(ce->getOperand(0));
    case Instruction::SExt: return sextw(evalConst(ce->getOperand(0)), width(ce->getOperand(0)->getType())) & maskw(width(ce->getType()));
    case Instruction::Add: return (evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1))) & maskw(width(ce->getType()));
    case Instruction::Sub: return (evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1))) & maskw(width(ce->getType()));
    case Instruction::Mul: return (evalConst(ce->getOperand(0)) * evalConst(ce->getOperand(1))) & maskw(width(ce->getType()));
    case Instruction::And: return evalConst(ce->getOperand(0)) & evalConst(ce->getOperand(1));
    case Instruction::Or: return evalConst(ce->getOperand(0)) | evalConst(ce->getOperand(1));
    case Instruction::Xor: return evalConst(ce->getOperand(0)) ^ evalConst(ce->getOperand(1));
    case Instruction::Shl: return (evalConst(ce->getOperand(0)) << evalConst(ce->getOperand(1))) & maskw(width(ce->getType()));
    case Instruction::LShr: return evalConst(ce->getOperand(0)) >> evalConst(ce->getOperand(1));
    default: fprintf(stderr, "const expr %s\n", ce->getOpcodeName()); exit(3);
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "constant? %s\n", s.c_str()); exit(3);
}
static void writeInit(const Constant *c, u64 addr) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  Type *t = c->getType();
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy((void *)addr, r.data(), r.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) writeInit(c->getAggregateElement(i), addr + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) writeInit(c->getAggregateElement(i), addr + i * es); return; }
  u64 v = evalConst(c); memcpy((void *)addr, &v, (DL->getTypeStoreSize(t)));
}
static void aggConst(const Constant *c, std::vector<int> &out) {
  Type *t = c->getType();
  if (isAgg(t)) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) aggConst(c->getAggregateElement(i), out); return; }
  out.push_back(K(evalConst(c)));
}

struct FT {
  Function &F; Func *f; std::unordered_map<const Value *, int> reg; int next = 0;
  std::vector<std::pair<Edge *, const BasicBlock *>> fix; std::unordered_map<const BasicBlock *, int> bpc;
  FT(Function &F, Func *f) : F(F), f(f) {}
  int op(const Value *v) { if (auto *c = dyn_cast<Constant>(v)) { 
      if (isAgg(c->getType())) { std::vector<int> o; aggConst(c, o); return o.empty() ? K(0) : o[0]; } return K(evalConst(c)); }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return K(0);
    return reg.at(v); }
  void ops(const Value *v, std::vector<int> &out) {
    int n = slots(v->getType());
    if (auto *c = dyn_cast<Constant>(v)) { if (isAgg(c->getType())) aggConst(c, out); else out.push_back(K(evalConst(c))); return; }
    if (isa<MetadataAsValue>(v)) return;
    int r = reg.at(v); for (int i = 0; i < n; i++) out.push_back(r + i);
  }
  Inst &emit(OpC o, int w, int dst = -1, int a = -1, int b = -1, int c = -1) {
    Inst in; memset(&in, 0, sizeof in); in.op = o; in.w = w; in.dst = dst; in.a = a; in.b = b; in.c = c; in.line = curLine; f->code.push_back(in); return f->code.back(); }
  u32 curLine = 0;
  Edge *edge(const BasicBlock *from, const BasicBlock *to) {
    Edge *e = new Edge; 
    for (auto &phi : to->phis()) { std::vector<int> s; ops(phi.getIncomingValueForBlock(from), s); int d = reg.at(&phi); for (size_t i = 0; i < s.size(); i++) if (s[i] != d + (int)i) e->moves.push_back({d + (int)i, s[i]}); }
    fix.push_back({e, to}); return e; }
  void unsup(const Instruction &I) { std::string s; raw_string_ostream os(s); I.print(os); Inst &in = emit(O_UNSUPPORTED, 0); in.aux = strdup(s.c_str()); }
  void memAgg(Type *t, u64 off, std::vector<std::pair<u64, Type *>> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) memAgg(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) memAgg(at->getElementType(), off + i * es, out); return; }
    out.push_back({off, t}); }
  void run() {
    for (auto &a : F.args()) { reg[&a] = next; int n = slots(a.getType()); next += n; for (int i = 0; i < n; i++) f->argw.push_back(width(a.getType())); }
    f->nargs = next;
    for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) { reg[&I] = next; next += slots(I.getType()) ? slots(I.getType()) : 1; }
    for (auto &B : F) {
      bpc[&B] = f->code.size();
      for (auto &I : B) { if (auto &d = I.getDebugLoc()) curLine = d.getLine(); inst(B, I); }
    }
    for (auto &p : fix) p.first->target = bpc[p.second];
    f->nregs = next + 1;
  }
  int gepParts(const GEPOperator *g, i64 &off, std::vector<GepPart> &parts) {
    off = 0;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      Value *idx = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
      else { u64 sz = it.getSequentialElementStride(*DL); if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * (i64)sz; else parts.push_back({op(idx), (i64)sz, (u8)width(idx->getType())}); }
    }
    return 0;
  }
  void inst(BasicBlock &B, Instruction &I) {
    if (isa<PHINode>(I)) { if (!okTy(I.getType())) {} return; }
    for (auto &o : I.operands()) if (!o->getType()->isLabelTy() && !o->getType()->isMetadataTy() && !okTy(o->getType()) ) { if (!isa<CallInst>(I)) { unsup(I); return; } }
    if (!okTy(I.getType())) { unsup(I); return; }
    int d = I.getType()->isVoidTy() ? -1 : reg[&I];
    int w = width(I.getType());
    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
      OpC o;
      switch (bo->getOpcode()) {
      case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
      case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SRem: o = O_SREM; break;
      case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
      case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break;
      case Instruction::FAdd: o = O_FADD; break; case Instruction::FSub: o = O_FSUB; break; case Instruction::FMul: o = O_FMUL; break;
      case Instruction::FDiv: o = O_FDIV; break; case Instruction::FRem: o = O_FREM; break;
      default: unsup(I); return;
      }
      emit(o, w, d, op(bo->getOperand(0)), op(bo->getOperand(1))); return;
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg: emit(O_FNEG, w, d, op(I.getOperand(0))); return;
    case Instruction::ICmp: { auto &c = cast<ICmpInst>(I); Inst &in = emit(O_ICMP, width(c.getOperand(0)->getType()), d, op(c.getOperand(0)), op(c.getOperand(1))); in.pred = c.getPredicate(); return; }
    case Instruction::FCmp: { auto &c = cast<FCmpInst>(I); Inst &in = emit(O_FCMP, width(c.getOperand(0)->getType()), d, op(c.getOperand(0)), op(c.getOperand(1))); in.pred = c.getPredicate(); return; }
    case Instruction::Trunc: { Inst &in = emit(O_TRUNC, w, d, op(I.getOperand(0))); in.w2 = width(I.getOperand(0)->getType()); return; }
    case Instruction::ZExt: { Inst &in = emit(O_ZEXT, w, d, op(I.getOperand(0))); in.w2 = width(I.getOperand(0)->getType()); return; }
    case Instruction::SExt: { Inst &in = emit(O_SEXT, w, d, op(I.getOperand(0))); in.w2 = width(I.getOperand(0)->getType()); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { int w2 = width(I.getOperand(0)->getType()); Inst &in = emit(w < w2 ? O_TRUNC : w > w2 ? O_ZEXT : O_MOV, w, d, op(I.getOperand(0))); in.w2 = w2; return; }
    case Instruction::BitCast: case Instruction::Freeze: { std::vector<int> s; ops(I.getOperand(0), s); for (size_t i = 0; i < s.size(); i++) emit(O_MOV, w, d + i, s[i]); return; }
    case Instruction::FPToSI: { Inst &in = emit(O_FPTOSI, w, d, op(I.getOperand(0))); in.w2 = width(I.getOperand(0)->getType()); return; }
    case Instruction::FPToUI: { Inst &in = emit(O_FPTOUI, w, d, op(I.getOperand(0))); in.w2 = width(I.getOperand(0)->getType()); return; }
    case Instruction::SIToFP: { Inst &in = emit(O_SITOFP, w, d, op(I.getOperand(0))); in.w2 = width(I.getOperand(0)->getType()); return; }
    case Instruction::UIToFP: { Inst &in = emit(O_UITOFP, w, d, op(I.getOperand(0))); in.w2 = width(I.getOperand(0)->getType()); return; }
    case Instruction::FPTrunc: emit(O_FPTRUNC, w, d, op(I.getOperand(0))); return;
    case Instruction::FPExt: emit(O_FPEXT, w, d, op(I.getOperand(0))); return;
    case Instruction::Select: { std::vector<int> s, t; ops(I.getOperand(1), s); ops(I.getOperand(2), t); for (size_t i = 0; i < s.size(); i++) emit(O_SELECT, w, d + i, op(I.getOperand(0)), s[i], t[i]); return; }
    case Instruction::Load: {
      if (isAgg(I.getType())) { std::vector<std::pair<u64, Type *>> m; memAgg(I.getType(), 0, m); for (size_t i = 0; i < m.size(); i++) { Inst &in = emit(O_LOAD, width(m[i].second), d + i, op(I.getOperand(0))); in.imm = m[i].first; } return; }
      emit(O_LOAD, w, d, op(I.getOperand(0))); return; }
    case Instruction::Store: { Type *t = I.getOperand(0)->getType(); std::vector<int> s; ops(I.getOperand(0), s);
      std::vector<std::pair<u64, Type *>> m; memAgg(t, 0, m);
      for (size_t i = 0; i < m.size(); i++) { Inst &in = emit(O_STORE, width(m[i].second), -1, s[i], op(I.getOperand(1))); in.imm = m[i].first; } return; }
    case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); Inst &in = emit(O_ALLOCA, 64, d, op(A.getArraySize())); in.imm = DL->getTypeAllocSize(A.getAllocatedType()); in.w2 = std::min<u64>(A.getAlign().value(), 128); return; }
    case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(&I); i64 off; std::vector<GepPart> p; gepParts(g, off, p); Inst &in = emit(O_GEP, 64, d, op(g->getPointerOperand())); in.imm = off; in.aux = p.empty() ? nullptr : new std::vector<GepPart>(p); return; }
    case Instruction::Br: { auto &b = cast<BranchInst>(I);
      if (b.isUnconditional()) { Inst &in = emit(O_BR, 0); in.aux = edge(&B, b.getSuccessor(0)); }
      else { int c = op(b.getCondition()); Edge **e = new Edge *[2]{edge(&B, b.getSuccessor(0)), edge(&B, b.getSuccessor(1))}; Inst &in = emit(O_CONDBR, 1, -1, c); in.aux = e; } return; }
    case Instruction::Switch: { auto &s = cast<SwitchInst>(I); auto *v = new std::vector<std::pair<u64, Edge *>>; v->push_back({0, edge(&B, s.getDefaultDest())});
      for (auto &c : s.cases()) v->push_back({c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor())});
      Inst &in = emit(O_SWITCH, width(s.getCondition()->getType()), -1, op(s.getCondition())); in.aux = v; return; }
    case Instruction::IndirectBr: { auto &s = cast<IndirectBrInst>(I); auto *v = new std::vector<std::pair<u64, Edge *>>;
      std::map<BasicBlock *, bool> seen;
      for (unsigned i = 0; i < s.getNumDestinations(); i++) { auto *bb = s.getDestination(i); if (seen[bb]) continue; seen[bb] = true; v->push_back({blockAddr(bb), edge(&B, bb)}); }
      Inst &in = emit(O_INDIRECTBR, 64, -1, op(s.getAddress())); in.aux = v; return; }
    case Instruction::Ret: { std::vector<int> s; if (I.getNumOperands()) ops(I.getOperand(0), s); Inst &in = emit(O_RET, 0); in.aux = new std::vector<int>(s); return; }
    case Instruction::Unreachable: emit(O_UNREACHABLE, 0); return;
    case Instruction::ExtractValue: { auto &e = cast<ExtractValueInst>(I); Type *t = e.getAggregateOperand()->getType(); int off = 0;
      for (unsigned ix : e.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slots(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * slots(at->getElementType()); t = at->getElementType(); } }
      std::vector<int> s; ops(e.getAggregateOperand(), s); for (int i = 0; i < slots(t); i++) emit(O_MOV, w, d + i, s[off + i]); return; }
    case Instruction::InsertValue: { auto &e = cast<InsertValueInst>(I); Type *t = e.getType(); int off = 0;
      for (unsigned ix : e.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slots(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * slots(at->getElementType()); t = at->getElementType(); } }
      std::vector<int> s, v; ops(e.getAggregateOperand(), s); ops(e.getInsertedValueOperand(), v);
      for (size_t i = 0; i < s.size(); i++) emit(O_MOV, 64, d + i, (int)i >= off && (int)i < off + (int)v.size() ? v[i - off] : s[i]); return; }
    case Instruction::Fence: return;
    case Instruction::Call: call(cast<CallInst>(I), d, w); return;
    default: unsup(I); return;
    }
  }
  void call(CallInst &C, int d, int w) {
    if (C.isInlineAsm()) { unsup(C); return; }
    Function *cf = C.getCalledFunction();
    if (cf && cf->isIntrinsic()) {
      switch (cf->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: return;
      case Intrinsic::stacksave: emit(O_MOV, 64, d, K(0)); return;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: emit(O_MOV, w, d, op(C.getArgOperand(0))); return;
      case Intrinsic::is_constant: emit(O_MOV, 1, d, K(0)); return;
      case Intrinsic::objectsize: emit(O_MOV, w, d, K(maskw(w))); return;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { Inst &in = emit(O_MINMAX, w, d, op(C.getArgOperand(0)), op(C.getArgOperand(1)));
        in.pred = cf->getIntrinsicID() == Intrinsic::umin ? 0 : cf->getIntrinsicID() == Intrinsic::umax ? 1 : cf->getIntrinsicID() == Intrinsic::smin ? 2 : 3; return; }
      case Intrinsic::abs: emit(O_ABS, w, d, op(C.getArgOperand(0))); return;
      case Intrinsic::bswap: emit(O_BSWAP, w, d, op(C.getArgOperand(0))); return;
      case Intrinsic::ctpop: emit(O_CTPOP, w, d, op(C.getArgOperand(0))); return;
      case Intrinsic::ctlz: emit(O_CTLZ, w, d, op(C.getArgOperand(0))); return;
      case Intrinsic::cttz: emit(O_CTTZ, w, d, op(C.getArgOperand(0))); return;
      case Intrinsic::fshl: case Intrinsic::fshr: { Inst &in = emit(O_FSH, w, d, op(C.getArgOperand(0)), op(C.getArgOperand(1)), op(C.getArgOperand(2))); in.pred = cf->getIntrinsicID() == Intrinsic::fshl ? 0 : 1; return; }
      case Intrinsic::load_relative: { emit(O_LOADREL, 64, d, op(C.getArgOperand(0)), op(C.getArgOperand(1))); return; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        int id = 0; switch (cf->getIntrinsicID()) { case Intrinsic::sadd_with_overflow: id = 0; break; case Intrinsic::uadd_with_overflow: id = 1; break; case Intrinsic::ssub_with_overflow: id = 2; break; case Intrinsic::usub_with_overflow: id = 3; break; case Intrinsic::smul_with_overflow: id = 4; break; default: id = 5; }
        Inst &in = emit(O_OVF, width(C.getArgOperand(0)->getType()), d, op(C.getArgOperand(0)), op(C.getArgOperand(1))); in.pred = id; return; }
      case Intrinsic::vastart: { Inst &in = emit(O_VAINTR, 0, -1, op(C.getArgOperand(0))); in.pred = 0; return; }
      case Intrinsic::vaend: return;
      case Intrinsic::vacopy: { Inst &in = emit(O_VAINTR, 0, -1, op(C.getArgOperand(0)), op(C.getArgOperand(1))); in.pred = 2; return; }
      case Intrinsic::trap: case Intrinsic::debugtrap: emit(O_UNREACHABLE, 0); return;
      default: break;
      }
    }
    CallInfo *ci = new CallInfo; ci->nret = C.getType()->isVoidTy() ? 0 : slots(C.getType());
    ci->vararg = C.getFunctionType()->isVarArg(); ci->nfixed = C.getFunctionType()->getNumParams();
    for (auto &a : C.args()) { if (!okTy(a->getType())) { unsup(C); return; }
      if (a->getType()->isMetadataTy()) continue;
      std::vector<int> s; ops(a, s); for (int x : s) { ci->args.push_back(x); ci->argw.push_back(width(a->getType())); } }
    int callee = -1;
    const Value *cv = C.getCalledOperand()->stripPointerCasts();
    if (auto *ff = dyn_cast<Function>(cv)) callee = fidx.at(ff);
    ci->callee = callee;
    Inst &in = emit(O_CALL, w, d, callee < 0 ? op(C.getCalledOperand()) : -1); in.aux = ci;
  }
};

void loadModule(const char *path) {
  LLVMContext *cx = new LLVMContext; SMDiagnostic err;
  auto M = parseIRFile(path, err, *cx);
  if (!M) { err.print("symex", errs()); exit(3); }
  DL = &M->getDataLayout();
  // like ld --wrap: calls of X go to the harness's __wrap_X, whose calls of __real_X go to X
  { std::vector<std::pair<Function *, Function *>> ws;
    for (auto &F : *M) if (F.getName().starts_with("__wrap_") && !F.isDeclaration()) if (Function *X = M->getFunction(F.getName().substr(7))) ws.push_back({X, &F});
    for (auto &w : ws) { w.first->replaceAllUsesWith(w.second); if (Function *R = M->getFunction(("__real_" + w.first->getName()).str())) R->replaceAllUsesWith(w.first); } }
  for (auto &F : *M) {
    if (F.isIntrinsic() && !F.getName().starts_with("llvm.mem") ) { }
    Func *f = new Func; f->name = F.getName().str(); f->idx = gFuncs.size(); f->decl = F.isDeclaration(); f->vararg = F.isVarArg();
    f->addr = FUNC_BASE + 16 * f->idx; gFuncByAddr[f->addr] = f; fidx[&F] = f->idx; gaddr[&F] = f->addr; gFuncs.push_back(f);
  }
  for (auto &G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    u64 a = globAlloc(sz, std::max<u64>(DL->getPreferredAlign(&G).value(), 16));
    gaddr[&G] = a; gGlobalAddr[G.getName().str()] = a;
  }
  for (auto &G : M->globals()) if (G.hasInitializer()) { writeInit(G.getInitializer(), gaddr[&G]); }
  for (auto &F : *M) if (!F.isDeclaration()) {
    FT t(F, gFuncs[fidx[&F]]); t.run();
    for (auto &B : F) { t.f->blockPc.push_back(t.bpc[&B]); auto it = baddr.find(&B); if (it != baddr.end()) gBlockByAddr[it->second] = {t.f, t.bpc[&B]}; }
  }
  M.reset(); delete cx; malloc_trim(0);
}
