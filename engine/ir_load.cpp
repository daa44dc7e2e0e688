#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <set>
using namespace llvm;

namespace {
struct L {
  ::Module& m; llvm::Module& lm; const DataLayout& dl;
  std::map<const Function*, int> fid; std::map<const GlobalVariable*, int> gid; std::map<std::string,int> files;
  L(::Module& a, llvm::Module& b) : m(a), lm(b), dl(b.getDataLayout()) {}
  int fileId(StringRef dir, StringRef f) {
    std::string s = f.str(); if (!s.empty() && s[0] != '/' && !dir.empty()) s = dir.str() + "/" + s;
    auto i = files.find(s); if (i != files.end()) return i->second;
    int id = m.files.size(); m.files.push_back(s); files[s] = id; return id;
  }
  int width(Type* t) { if (t->isVoidTy()) return -1; if (t->isPointerTy()) return 0; if (auto* i = dyn_cast<IntegerType>(t)) return i->getBitWidth(); return -2; }
  void initCells(const Constant* c, i64 off, std::vector<InitCell>& out) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back({off, (int)dl.getTypeStoreSize(t), InitCell::Int, ci->getBitWidth() <= 64 ? (i64)ci->getZExtValue() : 0, 0}); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back({off, m.ptrSize, InitCell::Null, 0, 0}); return; }
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
      if (auto* st = dyn_cast<StructType>(t)) { auto* sl = dl.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initCells(Constant::getNullValue(st->getElementType(i)), off + sl->getElementOffset(i), out); return; }
      if (auto* at = dyn_cast<ArrayType>(t)) { i64 es = dl.getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initCells(Constant::getNullValue(at->getElementType()), off + i * es, out); return; }
      return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = dl.getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initCells(cs->getOperand(i), off + sl->getElementOffset(i), out); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { i64 es = dl.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initCells(ca->getOperand(i), off + i * es, out); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { i64 es = dl.getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initCells(cd->getElementAsConstant(i), off + i * es, out); return; }
    if (t->isPointerTy()) {
      APInt o(dl.getIndexTypeSizeInBits(t), 0); const Value* b = c->stripAndAccumulateConstantOffsets(dl, o, true);
      if (auto* f = dyn_cast<Function>(b)) { out.push_back({off, m.ptrSize, InitCell::Func, 0, fid[f]}); return; }
      if (auto* g = dyn_cast<GlobalVariable>(b)) { out.push_back({off, m.ptrSize, InitCell::Glob, o.getSExtValue(), gid[g]}); return; }
    }
    m.error += "unsupported initializer; ";
  }
  Opnd operand(const Value* v, std::map<const Value*, int>& regs) {
    Opnd o;
    if (auto* ci = dyn_cast<ConstantInt>(v)) {
      o.k = Opnd::Const; unsigned w = ci->getBitWidth(); if (w > 64) { o.k = Opnd::Bad; return o; }
      o.v = w >= 32 ? ci->getSExtValue() : (i64)ci->getZExtValue(); return o; }
    if (isa<ConstantPointerNull>(v)) { o.k = Opnd::Null; return o; }
    if (isa<UndefValue>(v)) { o.k = Opnd::Undef; return o; }
    if (auto* f = dyn_cast<Function>(v)) { o.k = Opnd::Func; o.id = fid.count(f) ? fid[f] : -1; return o; }
    if (isa<Constant>(v) && v->getType()->isPointerTy()) {
      APInt of(dl.getIndexTypeSizeInBits(v->getType()), 0); const Value* b = v->stripAndAccumulateConstantOffsets(dl, of, true);
      if (auto* g = dyn_cast<GlobalVariable>(b)) { o.k = Opnd::Glob; o.id = gid[g]; o.v = of.getSExtValue(); return o; }
      if (auto* f = dyn_cast<Function>(b)) { o.k = Opnd::Func; o.id = fid[f]; return o; }
      o.k = Opnd::Bad; return o;
    }
    auto it = regs.find(v); if (it != regs.end()) { o.k = Opnd::Reg; o.id = it->second; return o; }
    o.k = Opnd::Bad; return o;
  }
  void order(Func& f) {   // weak topological order (Bourdoncle), flattened: loop bodies contiguous, exits after them
    int n = f.blocks.size(); std::vector<std::vector<int>> succ(n);
    for (int b = 0; b < n; b++) { auto& t = f.blocks[b].insts.back(); for (int s : t.succ) { succ[b].push_back(s); f.blocks[s].preds.push_back(b); } }
    std::vector<int> dfn(n, 0), stack; int num = 0; std::vector<int> part; // reversed
    const int INF = 1 << 30;
    struct R { static void comp(int v, std::vector<std::vector<int>>& succ, std::vector<int>& dfn, std::vector<int>& st, int& num, std::vector<int>& out, Func& f) {
        std::vector<int> sub; for (int s : succ[v]) if (dfn[s] == 0) visit(s, succ, dfn, st, num, sub, f);
        f.blocks[v].loopHead = true; for (int x : sub) out.push_back(x); out.push_back(v); }
      static int visit(int v, std::vector<std::vector<int>>& succ, std::vector<int>& dfn, std::vector<int>& st, int& num, std::vector<int>& out, Func& f) {
        st.push_back(v); int head = dfn[v] = ++num; bool loop = false;
        for (int s : succ[v]) { int mn = dfn[s] == 0 ? visit(s, succ, dfn, st, num, out, f) : dfn[s]; if (mn <= head) { head = mn; loop = true; } }
        if (head == dfn[v]) {
          dfn[v] = 1 << 30; int e = st.back(); st.pop_back();
          if (loop) { while (e != v) { dfn[e] = 0; e = st.back(); st.pop_back(); } comp(v, succ, dfn, st, num, out, f); }
          else out.push_back(v);
        }
        return head; } };
    R::visit(0, succ, dfn, stack, num, part, f); (void)INF;
    std::reverse(part.begin(), part.end()); f.orderToBlock = part; for (auto& b : f.blocks) b.order = -1;
    for (size_t i = 0; i < part.size(); i++) f.blocks[part[i]].order = i;
  }
  void func(const Function& lf, Func& f) {
    std::map<const Value*, int> regs; int nr = 0;
    for (auto& a : lf.args()) { regs[&a] = nr; f.argRegs.push_back(nr++); }
    std::map<const BasicBlock*, int> bid; int nb = 0;
    for (auto& b : lf) { bid[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) regs[&i] = nr++; }
    f.nregs = nr; f.blocks.resize(nb);
    for (auto& b : lf) {
      auto& B = f.blocks[bid[&b]];
      for (auto& i : b) {
        if (isa<DbgInfoIntrinsic>(i)) continue;
        Inst in; in.op = Op::Unsup; if (!i.getType()->isVoidTy()) in.dst = regs[&i];
        in.width = width(i.getType());
        if (auto& d = i.getDebugLoc()) { in.line = d.getLine(); in.file = fileId(d->getScope()->getDirectory(), d->getScope()->getFilename()); }
        auto O = [&](unsigned k) { return operand(i.getOperand(k), regs); };
        if (auto* a = dyn_cast<AllocaInst>(&i)) { in.op = Op::Alloca; auto s = a->getAllocationSize(dl); in.size = s ? (int)s->getFixedValue() : -1; in.text = a->getName().str(); }
        else if (auto* l = dyn_cast<LoadInst>(&i)) { in.op = Op::Load; in.ops = {O(0)}; in.size = dl.getTypeStoreSize(l->getType()); }
        else if (auto* s = dyn_cast<StoreInst>(&i)) { in.op = Op::Store; in.ops = {O(0), O(1)}; in.size = dl.getTypeStoreSize(s->getValueOperand()->getType()); in.srcw = width(s->getValueOperand()->getType()); if (in.srcw == -2) in.op = Op::Unsup; }
        else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
          in.op = Op::Gep; in.ops = {O(0)}; in.imm = {0}; Type* t = g->getSourceElementType(); bool first = true;
          for (auto k = g->idx_begin(); k != g->idx_end(); ++k) {
            const Value* idx = *k; i64 scale;
            if (!first) {
              if (auto* st = dyn_cast<StructType>(t)) { unsigned e = cast<ConstantInt>(idx)->getZExtValue(); in.imm[0] += dl.getStructLayout(st)->getElementOffset(e); t = st->getElementType(e); continue; }
              t = cast<ArrayType>(t)->getElementType();
            }
            scale = dl.getTypeAllocSize(t); first = false;
            if (auto* c = dyn_cast<ConstantInt>(idx)) in.imm[0] += c->getSExtValue() * scale;
            else { in.ops.push_back(operand(idx, regs)); in.imm.push_back(scale); }
          }
        }
        else if (auto* bo = dyn_cast<BinaryOperator>(&i)) {
          in.op = Op::Bin; in.ops = {O(0), O(1)};
          switch (bo->getOpcode()) {
            case Instruction::Add: in.sub = (u8)Bin::Add; break; case Instruction::Sub: in.sub = (u8)Bin::Sub; break; case Instruction::Mul: in.sub = (u8)Bin::Mul; break;
            case Instruction::UDiv: in.sub = (u8)Bin::UDiv; break; case Instruction::SDiv: in.sub = (u8)Bin::SDiv; break; case Instruction::URem: in.sub = (u8)Bin::URem; break; case Instruction::SRem: in.sub = (u8)Bin::SRem; break;
            case Instruction::Shl: in.sub = (u8)Bin::Shl; break; case Instruction::LShr: in.sub = (u8)Bin::LShr; break; case Instruction::AShr: in.sub = (u8)Bin::AShr; break;
            case Instruction::And: in.sub = (u8)Bin::And; break; case Instruction::Or: in.sub = (u8)Bin::Or; break; case Instruction::Xor: in.sub = (u8)Bin::Xor; break;
            default: in.op = Op::Unsup; }
        }
        else if (auto* c = dyn_cast<ICmpInst>(&i)) {
          in.op = Op::ICmp; in.ops = {O(0), O(1)}; in.srcw = width(c->getOperand(0)->getType());
          switch (c->getPredicate()) { case CmpInst::ICMP_EQ: in.sub = (u8)Cmp::EQ; break; case CmpInst::ICMP_NE: in.sub = (u8)Cmp::NE; break; case CmpInst::ICMP_UGT: in.sub = (u8)Cmp::UGT; break; case CmpInst::ICMP_UGE: in.sub = (u8)Cmp::UGE; break; case CmpInst::ICMP_ULT: in.sub = (u8)Cmp::ULT; break; case CmpInst::ICMP_ULE: in.sub = (u8)Cmp::ULE; break; case CmpInst::ICMP_SGT: in.sub = (u8)Cmp::SGT; break; case CmpInst::ICMP_SGE: in.sub = (u8)Cmp::SGE; break; case CmpInst::ICMP_SLT: in.sub = (u8)Cmp::SLT; break; case CmpInst::ICMP_SLE: in.sub = (u8)Cmp::SLE; break; default: in.op = Op::Unsup; }
        }
        else if (auto* iv = dyn_cast<InsertValueInst>(&i); iv && iv->getNumIndices() == 1 && isa<StructType>(iv->getType()) && width(iv->getInsertedValueOperand()->getType()) >= 0) { auto* st = cast<StructType>(iv->getType()); unsigned e = iv->getIndices()[0]; in.op = Op::Ins; in.width = 0; in.ops = {O(0), O(1)}; in.imm = {8 * (i64)dl.getStructLayout(st)->getElementOffset(e), 8 * (i64)dl.getTypeStoreSize(st->getElementType(e))}; }
        else if (auto* ev = dyn_cast<ExtractValueInst>(&i); ev && ev->getNumIndices() == 1 && isa<StructType>(ev->getAggregateOperand()->getType()) && in.width >= 0) { auto* st = cast<StructType>(ev->getAggregateOperand()->getType()); unsigned e = ev->getIndices()[0]; in.op = Op::Ext; in.ops = {O(0)}; in.imm = {8 * (i64)dl.getStructLayout(st)->getElementOffset(e), 8 * (i64)dl.getTypeStoreSize(st->getElementType(e))}; }
        else if (isa<SelectInst>(i)) { in.op = Op::Select; in.ops = {O(0), O(1), O(2)}; }
        else if (auto* ca = dyn_cast<CastInst>(&i)) {
          in.op = Op::Cast; in.ops = {O(0)}; in.srcw = width(ca->getSrcTy());
          switch (ca->getOpcode()) { case Instruction::ZExt: in.sub = (u8)::Cast::ZExt; break; case Instruction::SExt: in.sub = (u8)::Cast::SExt; break; case Instruction::Trunc: in.sub = (u8)::Cast::Trunc; break; case Instruction::PtrToInt: in.sub = (u8)::Cast::PtrToInt; break; case Instruction::IntToPtr: in.sub = (u8)::Cast::IntToPtr; break; case Instruction::BitCast: in.sub = (u8)::Cast::Bit; break; default: in.op = Op::Unsup; }
        }
        else if (isa<FreezeInst>(i)) { in.op = Op::Freeze; in.ops = {O(0)}; }
        else if (auto* ms = dyn_cast<MemSetInst>(&i)) { in.op = Op::MemSet; in.ops = {operand(ms->getRawDest(), regs), operand(ms->getValue(), regs), operand(ms->getLength(), regs)}; in.dst = -1; }
        else if (auto* mc = dyn_cast<MemTransferInst>(&i)) { in.op = Op::MemCpy; in.ops = {operand(mc->getRawDest(), regs), operand(mc->getRawSource(), regs), operand(mc->getLength(), regs)}; in.dst = -1; }
        else if (auto* ii = dyn_cast<IntrinsicInst>(&i); ii && (ii->isLifetimeStartOrEnd() || ii->isAssumeLikeIntrinsic())) { in.op = Op::Nop; }
        else if (auto* bs = dyn_cast<IntrinsicInst>(&i); bs && bs->getIntrinsicID() == Intrinsic::bswap && in.width <= 32) { in.op = Op::Cast; in.sub = (u8)::Cast::Bswap; in.srcw = in.width; in.ops = {O(0)}; }
        else if (isa<IntrinsicInst>(i)) { }
        else if (auto* cb = dyn_cast<CallInst>(&i)) {
          in.op = Op::Call; if (cb->isInlineAsm()) { in.op = Op::Unsup; in.text = "inline asm"; }
          in.ops.push_back(operand(cb->getCalledOperand(), regs)); for (auto& a : cb->args()) in.ops.push_back(operand(a.get(), regs));
        }
        else if (auto* p = dyn_cast<PHINode>(&i)) { in.op = Op::Phi; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { in.ops.push_back(operand(p->getIncomingValue(k), regs)); in.succ.push_back(bid[p->getIncomingBlock(k)]); } }
        else if (auto* br = dyn_cast<BranchInst>(&i)) {
          if (br->isConditional()) { in.op = Op::CondBr; in.ops = {O(0)}; in.succ = {bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
          else { in.op = Op::Br; in.succ = {bid[br->getSuccessor(0)]}; } }
        else if (auto* sw = dyn_cast<SwitchInst>(&i)) { in.op = Op::Switch; in.ops = {O(0)}; in.srcw = width(sw->getCondition()->getType()); in.succ = {bid[sw->getDefaultDest()]}; for (auto& cs : sw->cases()) { unsigned w = cs.getCaseValue()->getBitWidth(); in.imm.push_back(w >= 32 ? cs.getCaseValue()->getSExtValue() : (i64)cs.getCaseValue()->getZExtValue()); in.succ.push_back(bid[cs.getCaseSuccessor()]); } }
        else if (auto* r = dyn_cast<ReturnInst>(&i)) { in.op = Op::Ret; if (r->getReturnValue()) in.ops = {O(0)}; }
        else if (isa<UnreachableInst>(i)) { in.op = Op::Unreachable; }
        // parts of a struct that clang packs into an integer (sroa): insertion as one operation
        if (i.getName().ends_with(".insert.ext") || i.getName().ends_with(".insert.shift") || i.getName().ends_with(".insert.mask")) { bool only = true; for (auto* u : i.users()) { auto* ui = dyn_cast<Instruction>(u); if (!ui || !(ui->getName().ends_with(".insert.shift") || ui->getName().ends_with(".insert.insert"))) only = false; } if (only) { in = Inst(); in.op = Op::Nop; } }
        if (i.getName().ends_with(".insert.insert") && i.getOpcode() == Instruction::Or) {
          const Value* base = nullptr; const Value* val = nullptr; i64 sh = 0; bool ok = true;
          for (unsigned k = 0; k < 2; k++) { const Value* o = i.getOperand(k); if (o->getName().ends_with(".insert.mask")) base = cast<Instruction>(o)->getOperand(0); else val = o; }
          if (auto* si = dyn_cast_or_null<Instruction>(val); si && si->getName().ends_with(".insert.shift")) { auto* c = dyn_cast<ConstantInt>(si->getOperand(1)); if (c) sh = c->getZExtValue(); else ok = false; val = si->getOperand(0); }
          if (auto* zi = dyn_cast_or_null<Instruction>(val); zi && zi->getName().ends_with(".insert.ext") && isa<ZExtInst>(zi)) val = zi->getOperand(0); else ok = false;
          if (ok && base && width(val->getType()) > 0) { int w = in.width; in.op = Op::Ins; in.srcw = w; in.ops = {operand(base, regs), operand(val, regs)}; in.imm = {sh, width(val->getType())}; }
          else in.op = Op::Unsup;
        }
        if (in.op == Op::Unsup && in.text.empty()) { raw_string_ostream os(in.text); i.print(os); }
        B.insts.push_back(std::move(in));
      }
    }
    order(f);
  }
  void run() {
    m.ptrSize = dl.getPointerSize();
    for (auto& f : lm) { if (f.isIntrinsic()) continue; int id = m.funcs.size(); fid[&f] = id; Func F; F.id = id; F.name = f.getName().str(); F.decl = f.isDeclaration(); F.internal = f.hasInternalLinkage(); F.nargs = f.arg_size(); F.retw = width(f.getReturnType());
      for (auto& a : f.args()) { F.argw.push_back(width(a.getType())); F.argNames.push_back(a.getName().str()); }
      if (auto* sp = f.getSubprogram()) { F.line = sp->getLine(); F.file = fileId(sp->getDirectory(), sp->getFilename()); }
      m.fnByName[F.name] = id; m.funcs.push_back(F); }
    for (auto& g : lm.globals()) { int id = m.globals.size(); gid[&g] = id; Global G; G.id = id; G.name = g.getName().str(); G.size = dl.getTypeAllocSize(g.getValueType()); G.constant = g.isConstant(); G.internal = g.hasInternalLinkage(); G.decl = g.isDeclaration();
      if (auto* at = dyn_cast<ArrayType>(g.getValueType())) { G.elems = at->getNumElements(); Type* et = at->getElementType(); G.ptrArray = et->isPointerTy(); G.byteArray = et->isIntegerTy(8);
        if (auto* a2 = dyn_cast<ArrayType>(et)) G.ptrRows = a2->getElementType()->isIntegerTy(8); }
      SmallVector<DIGlobalVariableExpression*, 2> dg; g.getDebugInfo(dg); if (!dg.empty()) { G.srcname = dg[0]->getVariable()->getName().str(); G.line = dg[0]->getVariable()->getLine(); G.file = fileId(dg[0]->getVariable()->getDirectory(), dg[0]->getVariable()->getFilename()); }
      m.glByName[G.name] = id; m.globals.push_back(G); }
    for (auto& g : lm.globals()) if (g.hasInitializer()) initCells(g.getInitializer(), 0, m.globals[gid[&g]].init);
    for (auto& f : lm) if (!f.isIntrinsic() && !f.isDeclaration()) func(f, m.funcs[fid[&f]]);
  }
};
}
bool loadModule(const std::string& path, ::Module& m) {
  static LLVMContext ctx; SMDiagnostic err; auto lm = parseIRFile(path, err, ctx);
  if (!lm) { m.error = "cannot parse " + path + ": " + err.getMessage().str(); return false; }
  L l(m, *lm); l.run(); return true;
}
