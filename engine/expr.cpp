#include "expr.h"
#include <cstring>
#include <cmath>
#include <unordered_map>
#include <deque>
#include <algorithm>
#include <sstream>

std::vector<SymInfo> g_syms;
std::vector<std::string> g_ufs;
static std::deque<Expr> arena;
struct Key { Op op; u16 w; u32 aux; Expr* k[3]; u128 c; };
struct KeyHash { size_t operator()(const Expr* e) const {
	u64 h = e->op * 0x9E3779B97F4A7C15ull ^ e->w * 0xC2B2AE3D27D4EB4Full ^ e->aux * 0x165667B19E3779F9ull;
	for(int i = 0; i < e->nk; i++) h = (h ^ e->k[i]->id) * 0x9E3779B97F4A7C15ull + (h >> 29);
	h ^= (u64)e->c * 0xff51afd7ed558ccdull ^ (u64)(e->c >> 64);
	return h ^ (h >> 32);
}};
struct KeyEq { bool operator()(const Expr* a, const Expr* b) const {
	return a->op == b->op && a->w == b->w && a->aux == b->aux && a->nk == b->nk && a->c == b->c &&
		a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
}};
#include <unordered_set>
static std::unordered_set<Expr*, KeyHash, KeyEq> table(1<<16);
size_t exprCount(){ return arena.size(); }

static Expr* intern(Op op, unsigned w, u32 aux, int nk, Expr* a, Expr* b, Expr* c, u128 v){
	Expr t; t.op = op; t.w = w; t.aux = aux; t.nk = nk; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = v; t.id = 0; t.nsyms = 0;
	auto it = table.find(&t);
	if(it != table.end()) return *it;
	arena.push_back(t);
	Expr* e = &arena.back();
	e->id = arena.size();
	table.insert(e);
	return e;
}
Expr* mkConst(u128 v, unsigned w){ return intern(E_CONST, w, 0, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
Expr* mkSym(const std::string& name, unsigned w, bool undef){
	g_syms.push_back({name, w, undef});
	return intern(E_SYM, w, g_syms.size()-1, 0, nullptr, nullptr, nullptr, 0);
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w){
	u128 m = maskw(w); a &= m; b &= m;
	switch(op){
		case E_ADD: return (a + b) & m;
		case E_SUB: return (a - b) & m;
		case E_MUL: return (a * b) & m;
		case E_UDIV: return b ? a / b : m;
		case E_UREM: return b ? a % b : a;
		case E_SDIV: { if(!b) return (sextw(a,w) < 0) ? 1 : m; i128 x = sextw(a,w), y = sextw(b,w); if(y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
		case E_SREM: { if(!b) return a; i128 x = sextw(a,w), y = sextw(b,w); if(y == -1) return 0; return (u128)(x % y) & m; }
		case E_AND: return a & b;
		case E_OR: return a | b;
		case E_XOR: return a ^ b;
		case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
		case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
		case E_ASHR: { i128 x = sextw(a,w); unsigned s = b >= w ? w-1 : (unsigned)b; return (u128)(x >> s) & m; }
		case E_EQ: return a == b;
		case E_ULT: return a < b;
		case E_ULE: return a <= b;
		case E_SLT: return sextw(a,w) < sextw(b,w);
		case E_SLE: return sextw(a,w) <= sextw(b,w);
		default: return 0;
	}
}
static bool isCmp(Op o){ return o >= E_EQ && o <= E_SLE; }
static bool isComm(Op o){ return o == E_ADD || o == E_MUL || o == E_AND || o == E_OR || o == E_XOR || o == E_EQ; }

Expr* mkNot(Expr* a){ return mkBin(E_XOR, a, mkConst(maskw(a->w), a->w)); }
Expr* mkEq(Expr* a, Expr* b){ return mkBin(E_EQ, a, b); }
static Expr* boolC(bool b){ return mkConst(b, 1); }

Expr* mkBin(Op op, Expr* a, Expr* b){
	unsigned w = a->w;
	unsigned rw = isCmp(op) ? 1 : w;
	if(isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), rw);
	if(isComm(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	bool cb = isC(b), ca = isC(a);
	u128 m = maskw(w);
	switch(op){
		case E_ADD:
			if(cb){ if(b->c == 0) return a;
				if(a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
				if(a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w));
			} else {
				if(a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
				if(b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
				if(b->op == E_SUB && b->k[1] == a) return b->k[0];
				if(a->op == E_SUB && a->k[1] == b) return a->k[0];
			}
			if(w == 1) return mkBin(E_XOR, a, b);
			break;
		case E_SUB:
			if(a == b) return mkConst(0, w);
			if(cb) return mkBin(E_ADD, a, mkConst((0 - b->c) & m, w));
			if(a->op == E_ADD && a->k[0] == b) return a->k[1];
			if(a->op == E_ADD && a->k[1] == b) return a->k[0];
			if(a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]);
			if(b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a, b->k[0]), mkConst((0 - b->k[1]->c) & m, w));
			if(a->op == E_SUB && a->k[0] == b) return mkBin(E_SUB, mkConst(0,w), a->k[1]);
			if(b->op == E_SUB && b->k[0] == a) return b->k[1];
			if(ca && a->c == 0 && b->op == E_SUB) return mkBin(E_SUB, b->k[1], b->k[0]);
			if(w == 1) return mkBin(E_XOR, a, b);
			break;
		case E_MUL:
			if(cb){ if(b->c == 0) return b; if(b->c == 1) return a;
				if(b->c == m) return mkBin(E_SUB, mkConst(0, w), a);
				if((b->c & (b->c - 1)) == 0){ unsigned s = 0; while(((u128)1 << s) != b->c) s++; return mkBin(E_SHL, a, mkConst(s, w)); }
			}
			break;
		case E_UDIV:
			if(cb){ if(b->c == 1) return a; if(b->c && (b->c & (b->c - 1)) == 0){ unsigned s = 0; while(((u128)1 << s) != b->c) s++; return mkBin(E_LSHR, a, mkConst(s, w)); } }
			break;
		case E_UREM:
			if(cb){ if(b->c == 1) return mkConst(0, w); if(b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_AND, a, mkConst(b->c - 1, w));
				if(a->op == E_ZEXT && maskw(a->k[0]->w) < b->c) return a; }
			break;
		case E_SDIV: if(cb && b->c == 1) return a; break;
		case E_SREM: if(cb && (b->c == 1 || (b->c == m && w > 1))) return mkConst(0, w); break;
		case E_AND:
			if(a == b) return a;
			if(cb){ if(b->c == 0) return b; if(b->c == m) return a;
				if(a->op == E_AND && isC(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
				if(a->op == E_ZEXT && (b->c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
				// low mask -> zext(extract)
				if((b->c & (b->c + 1)) == 0){ unsigned n = 0; while((b->c >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
				if(a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2])) && w > 1) return mkIte(a->k[0], mkBin(E_AND, a->k[1], b), mkBin(E_AND, a->k[2], b));
			} else if(w == 1){
				if(a->op == E_XOR && isC(a->k[1]) && a->k[0] == b) return boolC(0);
				if(b->op == E_XOR && isC(b->k[1]) && b->k[0] == a) return boolC(0);
				if(b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b;
				if(a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a;
			}
			break;
		case E_OR:
			if(a == b) return a;
			if(cb){ if(b->c == 0) return a; if(b->c == m) return b; 
				if(a->op == E_OR && isC(a->k[1])) return mkBin(E_OR, a->k[0], mkConst(a->k[1]->c | b->c, w));
			} else if(w == 1){
				if(a->op == E_XOR && isC(a->k[1]) && a->k[0] == b) return boolC(1);
				if(b->op == E_XOR && isC(b->k[1]) && b->k[0] == a) return boolC(1);
			}
			break;
		case E_XOR:
			if(a == b) return mkConst(0, w);
			if(cb){ if(b->c == 0) return a;
				if(a->op == E_XOR && isC(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
				if(w == 1){ // logical not
					if(a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
					if(a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
					if(a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
					if(a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
					if(a->op == E_ITE) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
				}
			}
			break;
		case E_SHL: case E_LSHR: case E_ASHR:
			if(cb && b->c == 0) return a;
			if(cb && b->c >= w && op != E_ASHR) return mkConst(0, w);
			if(cb && op == E_LSHR) return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
			if(cb && op == E_SHL) return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkConst(0, (unsigned)b->c));
			if(cb && op == E_ASHR && b->c < w) return mkSext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
			break;
		case E_EQ:
			if(a == b) return boolC(1);
			if(w == 1){ if(cb) return b->c ? a : mkNot(a); }
			if(cb){
				if(a->op == E_ZEXT){ if(b->c > maskw(a->k[0]->w)) return boolC(0); return mkEq(a->k[0], mkConst(b->c, a->k[0]->w)); }
				if(a->op == E_SEXT){ u128 lo = b->c & maskw(a->k[0]->w); if(((u128)sextw(lo, a->k[0]->w) & m) != b->c) return boolC(0); return mkEq(a->k[0], mkConst(lo, a->k[0]->w)); }
				if(a->op == E_ADD && isC(a->k[1])) return mkEq(a->k[0], mkConst((b->c - a->k[1]->c) & m, w));
				if(a->op == E_SUB && isC(a->k[0])) return mkEq(a->k[1], mkConst((a->k[0]->c - b->c) & m, w));
				if(a->op == E_XOR && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w));
				if(a->op == E_CONCAT){ Expr* hi = a->k[0]; Expr* lo = a->k[1]; return mkBin(E_AND, mkEq(hi, mkConst(b->c >> lo->w, hi->w)), mkEq(lo, mkConst(b->c, lo->w))); }
				if(a->op == E_ITE){
					if(isC(a->k[1])){ if(a->k[1]->c == b->c) return mkBin(E_OR, a->k[0], mkEq(a->k[2], b)); return mkBin(E_AND, mkNot(a->k[0]), mkEq(a->k[2], b)); }
					if(isC(a->k[2])){ if(a->k[2]->c == b->c) return mkBin(E_OR, mkNot(a->k[0]), mkEq(a->k[1], b)); return mkBin(E_AND, a->k[0], mkEq(a->k[1], b)); }
				}
			} else {
				if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
				if(a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
				if(a->op == E_ADD && b->op == E_ADD && isC(a->k[1]) && isC(b->k[1])){
					if(a->k[0] == b->k[0]) return boolC(a->k[1] == b->k[1]);
				}
				if(a->op == E_ADD && a->k[0] == b) return mkEq(a->k[1], mkConst(0, w));
				if(a->op == E_ADD && a->k[1] == b) return mkEq(a->k[0], mkConst(0, w));
				if(b->op == E_ADD && b->k[0] == a) return mkEq(b->k[1], mkConst(0, w));
				if(b->op == E_ADD && b->k[1] == a) return mkEq(b->k[0], mkConst(0, w));
			}
			break;
		case E_ULT:
			if(a == b) return boolC(0);
			if(cb && b->c == 0) return boolC(0);
			if(cb && b->c == 1) return mkEq(a, mkConst(0, w));
			if(ca && a->c == m) return boolC(0);
			if(ca && a->c == 0) return mkNot(mkEq(b, a));
			if(cb && a->op == E_ZEXT){ if(b->c > maskw(a->k[0]->w)) return boolC(1); return mkBin(E_ULT, a->k[0], mkConst(b->c, a->k[0]->w)); }
			if(ca && b->op == E_ZEXT){ if(a->c >= maskw(b->k[0]->w)) return boolC(0); return mkBin(E_ULT, mkConst(a->c, b->k[0]->w), b->k[0]); }
			if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULT, a->k[0], b->k[0]);
			break;
		case E_ULE:
			if(a == b) return boolC(1);
			if(ca && a->c == 0) return boolC(1);
			if(cb && b->c == m) return boolC(1);
			if(cb && b->c == 0) return mkEq(a, b);
			if(ca) return mkBin(E_ULT, mkConst(a->c - 1, w), b);
			if(cb) return mkBin(E_ULT, a, mkConst(b->c + 1, w));
			if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULE, a->k[0], b->k[0]);
			break;
		case E_SLT: {
			if(a == b) return boolC(0);
			u128 smin = (u128)1 << (w-1), smax = smin - 1;
			if(cb && b->c == smin) return boolC(0);
			if(ca && a->c == smax) return boolC(0);
			if(cb && a->op == E_ZEXT && a->k[0]->w < w){ if(sextw(b->c,w) <= 0) return boolC(0); return mkBin(E_ULT, a, b); }
			if(ca && b->op == E_ZEXT && b->k[0]->w < w){ if(sextw(a->c,w) < 0) return boolC(1); return mkBin(E_ULT, a, b); }
			if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w && a->k[0]->w < w) return mkBin(E_ULT, a->k[0], b->k[0]);
			if(a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_SLT, a->k[0], b->k[0]);
			if(cb && a->op == E_SEXT){ i128 v = sextw(b->c,w); unsigned iw = a->k[0]->w; i128 lo = -((i128)1 << (iw-1)), hi = ((i128)1 << (iw-1)) - 1; if(v > hi) return boolC(1); if(v <= lo) return boolC(0); return mkBin(E_SLT, a->k[0], mkConst((u128)v, iw)); }
			if(ca && b->op == E_SEXT){ i128 v = sextw(a->c,w); unsigned iw = b->k[0]->w; i128 lo = -((i128)1 << (iw-1)), hi = ((i128)1 << (iw-1)) - 1; if(v < lo) return boolC(1); if(v >= hi) return boolC(0); return mkBin(E_SLT, mkConst((u128)v, iw), b->k[0]); }
			break; }
		case E_SLE: {
			if(a == b) return boolC(1);
			u128 smin = (u128)1 << (w-1), smax = smin - 1;
			if(ca && a->c == smin) return boolC(1);
			if(cb && b->c == smax) return boolC(1);
			if(ca) return mkBin(E_SLT, mkConst(a->c - 1, w), b);
			if(cb) return mkBin(E_SLT, a, mkConst(b->c + 1, w));
			break; }
		default: break;
	}
	return intern(op, rw, 0, 2, a, b, nullptr, 0);
}

Expr* mkConcat(Expr* hi, Expr* lo){
	unsigned w = hi->w + lo->w;
	if(isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
	if(isC(hi) && hi->c == 0) return mkZext(lo, w);
	if(hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
	if(lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->k[0]->op == E_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
		return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
	if(hi->op == E_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
	if(lo->op == E_CONCAT && isC(hi) && isC(lo->k[0])) return mkConcat(mkConst((hi->c << lo->k[0]->w) | lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
	return intern(E_CONCAT, w, 0, 2, hi, lo, nullptr, 0);
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w){
	if(lo == 0 && w == a->w) return a;
	switch(a->op){
		case E_CONST: return mkConst(a->c >> lo, w);
		case E_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
		case E_CONCAT: { unsigned lw = a->k[1]->w;
			if(lo + w <= lw) return mkExtract(a->k[1], lo, w);
			if(lo >= lw) return mkExtract(a->k[0], lo - lw, w);
			return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
		case E_ZEXT: { unsigned iw = a->k[0]->w;
			if(lo >= iw) return mkConst(0, w);
			if(lo + w <= iw) return mkExtract(a->k[0], lo, w);
			return mkZext(mkExtract(a->k[0], lo, iw - lo), w); }
		case E_SEXT: { unsigned iw = a->k[0]->w;
			if(lo + w <= iw) return mkExtract(a->k[0], lo, w);
			if(lo < iw) return mkSext(mkExtract(a->k[0], lo, iw - lo), w);
			return mkSext(mkExtract(a->k[0], iw-1, 1), w); }
		case E_AND: case E_OR: case E_XOR:
			if(isC(a->k[1])) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
			break;
		case E_ADD: case E_SUB: case E_MUL:
			if(lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
			break;
		case E_ITE:
			if(isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
			break;
		default: break;
	}
	return intern(E_EXTRACT, w, lo, 1, a, nullptr, nullptr, 0);
}
Expr* mkZext(Expr* a, unsigned w){
	if(w == a->w) return a;
	if(isC(a)) return mkConst(a->c, w);
	if(a->op == E_ZEXT) return mkZext(a->k[0], w);
	if(a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c, w), mkConst(a->k[2]->c, w));
	return intern(E_ZEXT, w, 0, 1, a, nullptr, nullptr, 0);
}
Expr* mkSext(Expr* a, unsigned w){
	if(w == a->w) return a;
	if(isC(a)) return mkConst((u128)sextw(a->c, a->w), w);
	if(a->op == E_SEXT) return mkSext(a->k[0], w);
	if(a->op == E_ZEXT && a->k[0]->w < a->w) return mkZext(a->k[0], w);
	if(a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
	return intern(E_SEXT, w, 0, 1, a, nullptr, nullptr, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b){
	if(isC(c)) return c->c ? a : b;
	if(a == b) return a;
	if(a->w == 1){
		if(isC(a) && isC(b)) return a->c ? c : mkNot(c);
		if(isC(a)) return a->c ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
		if(isC(b)) return b->c ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
	} else if(isC(a) && isC(b) && a->c == 1 && b->c == 0) return intern(E_ZEXT, a->w, 0, 1, c, nullptr, nullptr, 0);
	if(c->op == E_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
	if(b->op == E_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
	if(a->op == E_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
	return intern(E_ITE, a->w, 0, 3, c, a, b, 0);
}

// ---------------------------------------------------------------- floating point
template<class T> static T asF(u128 v){ T r; memcpy(&r, &v, sizeof r); return r; }
template<class T> static u128 asB(T f){ u128 r = 0; memcpy(&r, &f, sizeof f); return r; }
template<class T> static u128 fold1(Op op, T a, T b, u32 aux){
	switch(op){
		case E_FADD: return asB<T>(a + b);
		case E_FSUB: return asB<T>(a - b);
		case E_FMUL: return asB<T>(a * b);
		case E_FDIV: return asB<T>(a / b);
		case E_FNEG: return asB<T>(-a);
		case E_FABS: return asB<T>(std::fabs(a));
		case E_FSQRT: return asB<T>(std::sqrt(a));
		case E_FRND: switch(aux){ case 0: return asB<T>(std::floor(a)); case 1: return asB<T>(std::ceil(a)); case 2: return asB<T>(std::trunc(a)); case 3: return asB<T>(std::round(a)); default: return asB<T>(std::nearbyint(a)); }
		case E_FEQ: return a == b;
		case E_FLT: return a < b;
		case E_FLE: return a <= b;
		case E_FUNO: return std::isnan(a) || std::isnan(b);
		default: return 0;
	}
}
u128 foldFp(Op op, u128 a, u128 b, unsigned wa, unsigned w, u32 aux){
	switch(op){
		case E_FPTOSI: case E_FPTOUI: {
			double d = wa == 32 ? asF<float>(a) : asF<double>(a);
			if(std::isnan(d)) return (u128)1 << (w-1);
			double lim = std::ldexp(1.0, op == E_FPTOSI ? w-1 : w);
			if(op == E_FPTOSI){ if(d >= lim || d < -lim) return (u128)1 << (w-1); return (u128)(i128)d & maskw(w); }
			if(d <= -1 || d >= lim) return (u128)1 << (w-1);
			return (u128)d & maskw(w); }
		case E_SITOFP: { i128 v = sextw(a, wa); return w == 32 ? asB<float>((float)v) : asB<double>((double)v); }
		case E_UITOFP: { return w == 32 ? asB<float>((float)a) : asB<double>((double)a); }
		case E_FPCVT: { if(wa == w) return a; if(wa == 32) return asB<double>((double)asF<float>(a)); return asB<float>((float)asF<double>(a)); }
		default: break;
	}
	if(wa == 32) return fold1<float>(op, asF<float>(a), asF<float>(b), aux);
	return fold1<double>(op, asF<double>(a), asF<double>(b), aux);
}
Expr* mkFp(Op op, Expr* a, Expr* b, unsigned w, u32 aux){
	// Conversions out of range are undefined; do what x86-64 compilers do, so that replays agree.
	if(op == E_FPTOSI && w < 32) return mkExtract(mkFp(E_FPTOSI, a, nullptr, 32, 0), 0, w);
	if(op == E_FPTOUI && w < 32) return mkExtract(mkFp(E_FPTOSI, a, nullptr, 32, 0), 0, w);
	if(op == E_FPTOUI && w == 32) return mkExtract(mkFp(E_FPTOSI, a, nullptr, 64, 0), 0, 32);
	if(op == E_FPTOUI && w == 64 && a->w == 64){
		Expr* lim = mkConst(0x43e0000000000000ull, 64), *top = mkConst((u128)1 << 63, 64);
		Expr* hi = mkBin(E_XOR, mkFp(E_FPTOSI, mkFp(E_FSUB, a, lim, 64, 0), nullptr, 64, 0), top);
		return mkIte(mkFp(E_FLT, a, lim, 1, 0), mkFp(E_FPTOSI, a, nullptr, 64, 0), hi);
	}
	if(isC(a) && (!b || isC(b))) return mkConst(foldFp(op, a->c, b ? b->c : 0, a->w, w, aux), w);
	if(op == E_FNEG) return mkBin(E_XOR, a, mkConst((u128)1 << (w-1), w));
	if(op == E_FABS) return mkBin(E_AND, a, mkConst(maskw(w-1), w));
	// An int -> double -> int round trip of values that fit the mantissa is the identity.
	if(op == E_FPTOSI && a->op == E_SITOFP && a->w == 64 && a->k[0]->w <= 53) { Expr* s = a->k[0]; return w >= s->w ? mkSext(s, w) : mkExtract(s, 0, w); }
	if(op == E_SITOFP && a->op == E_SEXT) return mkFp(E_SITOFP, a->k[0], nullptr, w);
	if(op == E_SITOFP && a->op == E_ZEXT && a->k[0]->w + 1u < a->w) a = mkZext(a->k[0], a->k[0]->w + 1);
	return intern(op, w, aux, b ? 2 : 1, a, b, nullptr, 0);
}
Expr* mkUF(const std::string& name, unsigned w, Expr* a, Expr* b){
	u32 i = 0;
	for(; i < g_ufs.size(); i++) if(g_ufs[i] == name) break;
	if(i == g_ufs.size()) g_ufs.push_back(name);
	return intern(E_UF, w, i, b ? 2 : 1, a, b, nullptr, 0);
}

// ---------------------------------------------------------------- symbol sets and evaluation
static std::vector<std::vector<u32>> symsets(1);
static std::unordered_map<u64, std::vector<u32>> symsetIdx;
static u32 internSet(std::vector<u32>&& s){
	u64 h = 1469598103934665603ull; for(u32 x : s) h = (h ^ x) * 1099511628211ull;
	auto& v = symsetIdx[h];
	for(u32 i : v) if(symsets[i] == s) return i;
	symsets.push_back(std::move(s));
	v.push_back(symsets.size()-1);
	return symsets.size()-1;
}
static void computeSyms(Expr* root){
	std::vector<Expr*> st{root};
	while(!st.empty()){
		Expr* e = st.back();
		if(e->nsyms){ st.pop_back(); continue; }
		if(e->op == E_CONST){ e->nsyms = 1; if(symsets.size() < 2) symsets.push_back({}); st.pop_back(); continue; }
		if(e->op == E_SYM){ if(symsets.size() < 2) symsets.push_back({}); e->nsyms = internSet({e->aux}); st.pop_back(); continue; }
		bool ready = true;
		for(int i = 0; i < e->nk; i++) if(!e->k[i]->nsyms){ st.push_back(e->k[i]); ready = false; }
		if(!ready) continue;
		if(e->nk == 1) e->nsyms = e->k[0]->nsyms;
		else {
			u32 cur = e->k[0]->nsyms;
			for(int i = 1; i < e->nk; i++){
				u32 o = e->k[i]->nsyms;
				if(o == cur || symsets[o].empty()) continue;
				if(symsets[cur].empty()){ cur = o; continue; }
				std::vector<u32> r; std::set_union(symsets[cur].begin(), symsets[cur].end(), symsets[o].begin(), symsets[o].end(), std::back_inserter(r));
				cur = internSet(std::move(r));
			}
			e->nsyms = cur;
		}
		st.pop_back();
	}
}
const std::vector<u32>& symsOf(Expr* e){ if(!e->nsyms) computeSyms(e); return symsets[e->nsyms]; }

static std::vector<u128> memoV; static std::vector<u32> memoE; static u32 epoch = 0;
static const Model* memoM = nullptr;
u128 evalExpr(Expr* root, const Model& m, bool& ok){
	++epoch; if(epoch == 0){ std::fill(memoE.begin(), memoE.end(), 0); epoch = 1; }
	if(memoE.size() < arena.size() + 1){ memoE.resize(arena.size() * 2 + 64, 0); memoV.resize(memoE.size()); }
	std::vector<Expr*> st{root};
	while(!st.empty()){
		Expr* e = st.back();
		if(memoE[e->id] == epoch){ st.pop_back(); continue; }
		u128 r = 0;
		if(e->op == E_CONST) r = e->c;
		else if(e->op == E_SYM) r = m.get(e->aux) & maskw(e->w);
		else if(e->op == E_ITE){
			if(memoE[e->k[0]->id] != epoch){ st.push_back(e->k[0]); continue; }
			Expr* t = memoV[e->k[0]->id] ? e->k[1] : e->k[2];
			if(memoE[t->id] != epoch){ st.push_back(t); continue; }
			r = memoV[t->id];
		} else {
			bool ready = true;
			for(int i = 0; i < e->nk; i++) if(memoE[e->k[i]->id] != epoch){ st.push_back(e->k[i]); ready = false; }
			if(!ready) continue;
			u128 a = memoV[e->k[0]->id], b = e->nk > 1 ? memoV[e->k[1]->id] : 0;
			switch(e->op){
				case E_CONCAT: r = (a << e->k[1]->w) | b; break;
				case E_EXTRACT: r = (a >> e->aux) & maskw(e->w); break;
				case E_ZEXT: r = a; break;
				case E_SEXT: r = (u128)sextw(a, e->k[0]->w) & maskw(e->w); break;
				case E_UF: ok = false; r = 0; break;
				default:
					if(e->op >= E_FADD) r = foldFp(e->op, a, b, e->k[0]->w, e->w, e->aux);
					else r = foldBin(e->op, a, b, e->k[0]->w);
			}
		}
		memoE[e->id] = epoch; memoV[e->id] = r;
		st.pop_back();
	}
	(void)memoM;
	return memoV[root->id];
}

std::string exprStr(Expr* e, int d){
	static const char* nm[] = {"const","sym","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","++","ext","zext","sext","ite","f+","f-","f*","f/","fneg","fabs","fsqrt","frnd","f==","f<","f<=","funo","f2si","f2ui","si2f","ui2f","fcvt","uf"};
	std::ostringstream o;
	if(e->op == E_CONST){ o << (i64)sextw(e->c, e->w); return o.str(); }
	if(e->op == E_SYM) return g_syms[e->aux].name;
	if(d <= 0) return "...";
	o << "(" << nm[e->op]; if(e->op == E_EXTRACT) o << ":" << e->aux << "+" << e->w; if(e->op == E_UF) o << ":" << g_ufs[e->aux];
	for(int i = 0; i < e->nk; i++) o << " " << exprStr(e->k[i], d-1);
	o << ")";
	return o.str();
}
