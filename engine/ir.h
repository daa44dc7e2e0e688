// Own, small IR: what the analyses need from the LLVM IR of the library.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <memory>
typedef int64_t i64; typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

enum class Op : u8 { Alloca, Load, Store, Gep, Bin, ICmp, Select, Cast, Call, Phi, Br, CondBr, Switch, Ret, MemSet, MemCpy, Nop, Unreachable, Freeze, Ins, Ext, Unsup };   // Ins/Ext: part of a small struct carried in a register (imm: bit offset, bits)
enum class Bin : u8 { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor };
enum class Cmp : u8 { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
enum class Cast : u8 { ZExt, SExt, Trunc, PtrToInt, IntToPtr, Bit, Bswap };

struct Opnd { enum K : u8 { None, Const, Reg, Glob, Func, Null, Undef, Bad } k = None; i64 v = 0; int id = -1; };   // Glob: id region, v offset

struct Inst {
  Op op; u8 sub = 0; int dst = -1; int width = 0;         // width: result bits (0 = pointer)
  int srcw = 0;                                           // operand width (casts, icmp, store value, ...)
  std::vector<Opnd> ops; std::vector<i64> imm;            // gep: imm[0]=const offset, imm[i]=scale of ops[i]
  std::vector<int> succ;                                  // br/switch targets, phi incoming blocks
  int line = 0; int file = -1; int size = 0;              // size: bytes accessed / allocated
  std::string text;
};
struct Block { std::vector<Inst> insts; std::vector<int> preds; int order = 0; bool loopHead = false; };
struct Func {
  int id; std::string name; int nargs = 0, nregs = 0; bool decl = false; bool internal = false; int retw = -1; // retw -1 void, 0 ptr
  std::vector<int> argw; std::vector<Block> blocks; std::vector<int> orderToBlock; int line = 0; int file = -1;
  std::vector<int> argRegs;
  std::vector<std::string> argNames;
};
struct InitCell { i64 off; int size; enum K : u8 { Int, Glob, Func, Null } k; i64 v; int id; };
struct Global { int id; std::string name; i64 size; bool constant = false, internal = false, decl = false; std::vector<InitCell> init; std::string srcname; int line = 0; int file = -1;
  bool ptrArray = false; i64 elems = 0; bool ptrRows = false; bool byteArray = false; };
struct Module {
  std::vector<Func> funcs; std::vector<Global> globals; std::vector<std::string> files; int ptrSize = 8;
  std::map<std::string,int> fnByName, glByName; std::string error;
  const Func* fn(const std::string& n) const { auto i = fnByName.find(n); return i == fnByName.end() ? nullptr : &funcs[i->second]; }
  int gl(const std::string& n) const { auto i = glByName.find(n); return i == glByName.end() ? -1 : i->second; }
};
bool loadModule(const std::string& path, Module& m);
