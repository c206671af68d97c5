// Hash-consed expression DAG over bit-vectors (width 1..128) with IEEE-754 operations on bit patterns.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Op : u8 {
	E_CONST, E_SYM,
	E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
	E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
	E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
	E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE,
	// floating point: operands are bit patterns (32 or 64 bits)
	E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FNEG, E_FABS, E_FSQRT,
	E_FRND,   // aux: 0 floor 1 ceil 2 trunc 3 round-half-away 4 nearest-even
	E_FEQ, E_FLT, E_FLE, E_FUNO,
	E_FPTOSI, E_FPTOUI, E_SITOFP, E_UITOFP, E_FPCVT,
	E_UF,     // uninterpreted function number aux of up to 3 arguments
	E_NOPS
};

struct Expr {
	Op op;
	u8 nk;
	u16 w;
	u32 id;
	u32 aux;      // symbol index, extract low bit, rounding kind, UF index
	u32 nsyms;    // filled in lazily (see symsOf)
	Expr* k[3];
	u128 c;       // constant value
};

static inline u128 maskw(unsigned w){ return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w){ if(w >= 128) return (i128)v; u128 m = (u128)1 << (w-1); v &= maskw(w); return (i128)((v ^ m) - m); }

struct SymInfo { std::string name; unsigned w; bool undef; };
extern std::vector<SymInfo> g_syms;
extern std::vector<std::string> g_ufs;

Expr* mkConst(u128 v, unsigned w);
Expr* mkSym(const std::string& name, unsigned w, bool undef=false);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);               // bitwise not
Expr* mkEq(Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkFp(Op op, Expr* a, Expr* b, unsigned w, u32 aux=0);
Expr* mkUF(const std::string& name, unsigned w, Expr* a, Expr* b=nullptr);
static inline bool isC(const Expr* e){ return e->op == E_CONST; }
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
u128 foldFp(Op op, u128 a, u128 b, unsigned wa, unsigned w, u32 aux);
const std::vector<u32>& symsOf(Expr* e);   // sorted symbol indices
// An assignment gives every symbol a value; symbols beyond its size are 0.
struct Model { std::vector<u128> v; u128 get(u32 i) const { return i < v.size() ? v[i] : 0; } };
// Evaluation; ok=false when an uninterpreted function is met.
u128 evalExpr(Expr* e, const Model& m, bool& ok);
std::string exprStr(Expr* e, int depth=6);
size_t exprCount();
