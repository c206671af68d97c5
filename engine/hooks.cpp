// Models of intrinsics, allocation, exceptions, threads and the harness interface.
#include "engine.h"
#include <cmath>
#include <functional>
bool derives(Engine& E, State& s, u64 sub, u64 sup);

void Engine::ret(State& s, const DInst& d, const std::vector<Val>& v){
	Thread& t = s.th[s.cur]; Frame& f = t.fr.back();
	for(u32 i = 0; i < v.size() && i < d.imm; i++) t.vs[f.base + d.dst + i] = v[i];
	if(d.flags & 1) jump(s, d.e0);
}
// A point where another thread may take over (schedule exploration only).
void Engine::preempt(State& s){
	if(!s.explore) return;
	if(s.preempts > 0){
		for(size_t r = 0; r < s.th.size(); r++) if((int)r != s.cur && s.th[r].st == TH_RUN){
			State* n = fork(s);
			n->preempts--; n->cur = r; n->sched.push_back(r);
		}
	}
	s.sched.push_back(s.cur);
}
typedef std::vector<Val> Args;
#define H [](Engine& E, State& s, const DInst& d, Args& a)
static void again(State& s, const DInst& d){ Frame& f = s.th[s.cur].fr.back(); f.pc = &d - f.f->code.data(); }

static u64 allocSize(Engine& E, State& s, Val n){
	const u64 lim = 64u << 20;
	if(E.decide(s, mkBin(E_ULT, mkConst(lim, 64), E.ex(n, 64)))){
		if(E.decide(s, mkBin(E_ULT, mkConst(16ull << 30, 64), E.ex(n, 64)))) throw PathEnd{"crash", "allocation of more than 16 GiB (std::bad_alloc)"};
		throw PathEnd{"crash", "allocation of more than 64 MiB"};
	}
	return E.concretize(s, n, 64, "allocation size");
}
static Hook mathFn(const char* name, double(*fn)(double), float(*fnf)(float), unsigned w){
	std::string nm(name);
	return [=](Engine& E, State& s, const DInst& d, Args& a){
		if(!a[0].e){
			u64 r;
			if(w == 64){ double x; memcpy(&x, &a[0].c, 8); x = fn(x); memcpy(&r, &x, 8); }
			else { float x; u32 b = a[0].c, c; memcpy(&x, &b, 4); x = fnf(x); memcpy(&c, &x, 4); r = c; }
			E.ret(s, d, {VC(r)});
		} else E.ret(s, d, {E.mk(mkUF(nm, w, a[0].e))});
	};
}
static u128 pc128(u128 v){ u128 n = 0; for(; v; v &= v-1) n++; return n; }

void Engine::setupHooks(){
	auto& h = hooks;
	// ---- harness interface
	h["vp_sym"] = H { std::string nm = E.cstr(s, a[0].c); unsigned w = a[1].c; Expr* e = mkSym(nm, w); s.log.push_back({nm, w, e, 0}); E.ret(s, d, {E.mk(mkZext(e, 64))}); };
	h["vp_assume"] = H { E.assume(s, mkNot(mkEq(E.ex(a[0], 32), mkConst(0, 32)))); E.ret(s, d, {}); };
	h["vp_check"] = H {
		Expr* c = mkNot(mkEq(E.ex(a[0], 32), mkConst(0, 32)));
		__sync_fetch_and_add(&E.sh->checks, 1);
		if(isC(c)){ if(!c->c) throw PathEnd{"check", E.cstr(s, a[1].c)}; E.ret(s, d, {}); return; }
		__sync_fetch_and_add(&E.sh->checksSolver, 1);
		Model m; Expr* nc = mkNot(c);
		if(E.feasible(s, nc, &m)){
			State v(s); v.model = std::make_shared<Model>(m); v.stepBase = v.steps; E.addPc(v, nc);
			E.endPath(v, PathEnd{"check", E.cstr(s, a[1].c)});
			Model g; if(!E.feasible(s, c, &g)) throw PathEnd{"stop", ""};
			s.model = std::make_shared<Model>(g);
		}
		E.addPc(s, c); E.ret(s, d, {});
	};
	// variadic arguments: everything in the overflow area of the System V va_list
	h["llvm.va_start"] = H {
		auto& va = s.th[s.cur].fr.back().va; std::vector<Val> v(va.begin(), va.end()); u64 id = s.mem.alloc(v.size() * 8 + 8, OK_STACK, true);
		for(size_t i = 0; i < v.size(); i++) E.storeC(s, objAddr(id) + 8 * i, v[i].e ? E.mk(mkZext(v[i].e, 64)) : v[i], 64);
		E.storeC(s, a[0].c, VC(48), 32); E.storeC(s, a[0].c + 4, VC(304), 32); E.storeC(s, a[0].c + 8, VC(objAddr(id)), 64); E.storeC(s, a[0].c + 16, VC(0), 64); E.ret(s, d, {}); };
	h["llvm.va_copy"] = H { for(u64 i = 0; i < 24; i += 8) E.storeC(s, a[0].c + i, E.loadC(s, a[1].c + i, 64), 64); E.ret(s, d, {}); };
	h["vp_fail"] = H { throw PathEnd{"check", E.cstr(s, a[0].c)}; };
	h["vp_end"] = H { throw PathEnd{"ok", ""}; };
	h["vp_choose"] = H {
		i64 lo = a[1].c, hi = a[2].c; std::string nm = E.cstr(s, a[0].c);
		if(hi < lo) throw PathEnd{"assume", ""};
		for(i64 v = hi; v > lo; v--){
			State* n = new State(s); n->forks++;
			__sync_fetch_and_add(&E.sh->forks, 1);
			n->log.push_back({nm, 64, nullptr, (u64)v}); E.ret(*n, d, {VC((u64)v)});
			E.pending.push_back(n);
		}
		s.log.push_back({nm, 64, nullptr, (u64)lo}); E.ret(s, d, {VC((u64)lo)});
	};
	h["vp_reach"] = H { s.reached.push_back(E.cstr(s, a[0].c)); E.ret(s, d, {}); };
	h["vp_observe"] = H { s.obs.push_back(a[0]); E.ret(s, d, {}); };
	h["vp_concretize"] = H { u64 v = E.concretize(s, a[0], 64, "harness"); E.ret(s, d, {VC(v)}); };
	h["vp_symbolic"] = H { E.ret(s, d, {VC(1)}); };
	h["vp_is_sym"] = H { E.ret(s, d, {VC(a[0].e ? 1 : 0)}); };
	h["vp_must"] = H { Expr* c = mkNot(mkEq(E.ex(a[0], 32), mkConst(0, 32))); bool r = !E.feasible(s, mkNot(c)); E.ret(s, d, {VC(r)}); };
	h["vp_steps"] = H { E.ret(s, d, {VC(s.steps)}); };
	h["vp_budget"] = H { s.steps = E.maxSteps > a[0].c ? E.maxSteps - a[0].c : 0; s.stepBase = std::min(s.stepBase, s.steps); E.ret(s, d, {}); };
	h["vp_explore"] = H { s.explore = true; s.preempts = (int)a[0].c; E.ret(s, d, {}); };
	h["vp_print"] = H { fprintf(stderr, "[%llu] %s %s\n", (unsigned long long)s.id, E.cstr(s, a[0].c).c_str(), a[1].e ? exprStr(a[1].e, 10).c_str() : std::to_string((i64)a[1].c).c_str()); E.ret(s, d, {}); };
	// ---- allocation
	auto mal = [&](u8 fam){ return Hook([fam](Engine& E, State& s, const DInst& d, Args& a){ u64 n = allocSize(E, s, a[0]); u64 id = s.mem.alloc(n, OK_HEAP, true); s.mem.getW(id)->akind = fam; E.ret(s, d, {VC(objAddr(id))}); }); };
	h["malloc"] = mal(1); h["_Znwm"] = mal(2); h["_Znam"] = mal(3); h["_ZnwmSt11align_val_t"] = mal(2); h["_ZnwmRKSt9nothrow_t"] = mal(2); h["_ZnamRKSt9nothrow_t"] = mal(3);
	h["calloc"] = H { u64 n = allocSize(E, s, E.mk(mkBin(E_MUL, E.ex(a[0], 64), E.ex(a[1], 64)))); u64 id = s.mem.alloc(n, OK_HEAP, false); s.mem.getW(id)->akind = 1; E.ret(s, d, {VC(objAddr(id))}); };
	h["realloc"] = H { u64 n = allocSize(E, s, a[1]); u64 id = s.mem.alloc(n, OK_HEAP, true); s.mem.getW(id)->akind = 1; u64 p = a[0].c;
		if(p){ Obj* o = s.mem.get(addrObj(p)); if(!o) throw PathEnd{"memory", "realloc of freed memory"}; E.memCopy(s, objAddr(id), p, std::min(n, o->size)); E.release(s, p, 1); } E.ret(s, d, {VC(objAddr(id))}); };
	auto fre = [&](u8 fam){ return Hook([fam](Engine& E, State& s, const DInst& d, Args& a){ E.release(s, E.concretize(s, a[0], 64, "free"), fam); E.ret(s, d, {}); }); };
	h["free"] = fre(1); h["_ZdlPv"] = h["_ZdlPvm"] = h["_ZdlPvSt11align_val_t"] = h["_ZdlPvmSt11align_val_t"] = h["_ZdlPvRKSt9nothrow_t"] = fre(2); h["_ZdaPv"] = h["_ZdaPvm"] = fre(3);
	// ---- memory intrinsics
	Hook cpy = H { u64 n = E.concretize(s, a[2], 64, "memcpy length"); u64 dst = E.concretize(s, a[0], 64, "memcpy"); u64 src = E.concretize(s, a[1], 64, "memcpy"); E.memCopy(s, dst, src, n); E.ret(s, d, {VC(dst)}); };
	h["memcpy"] = h["memmove"] = h["llvm.memcpy"] = h["llvm.memmove"] = cpy;
	h["memset"] = h["llvm.memset"] = H {
		u64 n = E.concretize(s, a[2], 64, "memset length"), p = E.concretize(s, a[0], 64, "memset");
		Val v = a[1].e ? E.mk(mkExtract(a[1].e, 0, 8)) : VC(a[1].c & 255);
		if(n){ u64 id = E.checkAddr(s, p, n, true, "write (memset)"); Obj* o = s.mem.getW(id); u64 off = addrOff(p);
			if(!v.e){ memset(&o->b[off], v.c, n); if(!o->tag.empty()) memset(&o->tag[off], T_CONC, n); } else for(u64 i = 0; i < n; i++) E.objWrite(o, off + i, v, 8); }
		E.ret(s, d, {VC(p)}); };
	// ---- other intrinsics
	auto bin = [&](const char* n, Op o, bool wantA){ h[n] = [o, wantA](Engine& E, State& s, const DInst& d, Args& a){ unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); Expr* y = E.ex(a[1], w); Expr* lt = mkBin(o, x, y); E.ret(s, d, {E.mk(wantA ? mkIte(lt, x, y) : mkIte(lt, y, x))}); }; };
	bin("llvm.smin", E_SLT, true); bin("llvm.smax", E_SLT, false); bin("llvm.umin", E_ULT, true); bin("llvm.umax", E_ULT, false);
	h["llvm.abs"] = H { unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); E.ret(s, d, {E.mk(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x))}); };
	auto ov = [&](const char* n, int op, bool sg){ h[n] = [op, sg](Engine& E, State& s, const DInst& d, Args& a){
		unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); Expr* y = E.ex(a[1], w); unsigned W = std::min(128u, op == 2 ? 2 * w : w + 1);
		Op o = op == 0 ? E_ADD : op == 1 ? E_SUB : E_MUL;
		Expr* X = sg ? mkSext(x, W) : mkZext(x, W); Expr* Y = sg ? mkSext(y, W) : mkZext(y, W);
		Expr* r = mkBin(o, X, Y); Expr* lo = mkBin(o, x, y);
		E.ret(s, d, {E.mk(lo), E.mk(mkNot(mkEq(r, sg ? mkSext(lo, W) : mkZext(lo, W))))}); }; };
	ov("llvm.sadd.with.overflow", 0, true); ov("llvm.uadd.with.overflow", 0, false); ov("llvm.ssub.with.overflow", 1, true); ov("llvm.usub.with.overflow", 1, false); ov("llvm.smul.with.overflow", 2, true); ov("llvm.umul.with.overflow", 2, false);
	h["llvm.ctpop"] = H { unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); Expr* r = mkConst(0, w); if(isC(x)) r = mkConst(pc128(x->c), w); else for(unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(x, i, 1), w)); E.ret(s, d, {E.mk(r)}); };
	h["llvm.ctlz"] = H { unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); Expr* r = mkConst(w, w); for(unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); E.ret(s, d, {E.mk(r)}); };
	h["llvm.cttz"] = H { unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); Expr* r = mkConst(w, w); for(unsigned i = w; i-- > 0; ) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); E.ret(s, d, {E.mk(r)}); };
	h["llvm.bswap"] = H { unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); Expr* r = nullptr; for(unsigned i = 0; i < w / 8; i++){ Expr* b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } E.ret(s, d, {E.mk(r)}); };
	auto fsh = [&](const char* n, bool left){ h[n] = [left](Engine& E, State& s, const DInst& d, Args& a){ unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); Expr* y = E.ex(a[1], w); Expr* c = mkBin(E_UREM, E.ex(a[2], w), mkConst(w, w));
		Expr* cc = mkConcat(x, y); Expr* C2 = mkZext(c, 2 * w); Expr* r = left ? mkExtract(mkBin(E_SHL, cc, C2), w, w) : mkExtract(mkBin(E_LSHR, cc, C2), 0, w); E.ret(s, d, {E.mk(r)}); }; };
	fsh("llvm.fshl", true); fsh("llvm.fshr", false);
	h["llvm.expect"] = H { E.ret(s, d, {a[0]}); };
	h["llvm.is.constant"] = H { E.ret(s, d, {VC(0)}); };
	h["llvm.objectsize"] = H { E.ret(s, d, {VC(~0ull)}); };
	h["llvm.stacksave"] = H { E.ret(s, d, {VC(0)}); };
	h["llvm.trap"] = H { throw PathEnd{"crash", "trap"}; };
	h["llvm.eh.typeid.for"] = H { E.ret(s, d, {VC(addrObj(a[0].c) & 0x7fffffff)}); };
	h["llvm.fmuladd"] = H { unsigned w = (*d.leaves)[0].w; E.ret(s, d, {E.mk(mkFp(E_FADD, mkFp(E_FMUL, E.ex(a[0], w), E.ex(a[1], w), w), E.ex(a[2], w), w))}); };
	auto rnd = [&](const char* n, const char* lib, u32 k){ Hook f = [k](Engine& E, State& s, const DInst& d, Args& a){ unsigned w = (*d.leaves)[0].w; E.ret(s, d, {E.mk(mkFp(E_FRND, E.ex(a[0], w), nullptr, w, k))}); }; h[n] = f; h[lib] = f; h[std::string(lib) + "f"] = f; };
	rnd("llvm.floor", "floor", 0); rnd("llvm.ceil", "ceil", 1); rnd("llvm.trunc", "trunc", 2); rnd("llvm.round", "round", 3); rnd("llvm.rint", "rint", 4); rnd("llvm.nearbyint", "nearbyint", 4);
	auto fpc = [&](const char* n, unsigned w, unsigned m){ h[n] = [w, m](Engine& E, State& s, const DInst& d, Args& a){ // classes: 0 sNaN 1 qNaN 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 ... 9 +inf
		Expr* x = E.ex(a[0], w); Expr* ex = mkExtract(x, m, w - 1 - m); Expr* fr = mkExtract(x, 0, m); Expr* sg = mkExtract(x, w - 1, 1); u64 mask = a[1].c;
		Expr* all = mkEq(ex, mkConst((1u << (w - 1 - m)) - 1, w - 1 - m)); Expr* none = mkEq(ex, mkConst(0, w - 1 - m)); Expr* fz = mkEq(fr, mkConst(0, m)); Expr* neg = mkEq(sg, mkConst(1, 1)); Expr* q = mkEq(mkExtract(x, m - 1, 1), mkConst(1, 1));
		Expr* r = mkConst(0, 1); auto add = [&](int b, Expr* c){ if(mask >> b & 1) r = mkIte(c, mkConst(1, 1), r); };
		auto And = [](Expr* p, Expr* q){ return mkIte(p, q, mkConst(0, 1)); };
		add(0, And(all, And(mkNot(fz), mkNot(q)))); add(1, And(all, And(mkNot(fz), q)));
		for(int k = 0; k < 2; k++){ Expr* sn = k ? mkNot(neg) : neg; add(k ? 9 : 2, And(sn, And(all, fz))); add(k ? 8 : 3, And(sn, And(mkNot(all), mkNot(none)))); add(k ? 7 : 4, And(sn, And(none, mkNot(fz)))); add(k ? 6 : 5, And(sn, And(none, fz))); }
		E.ret(s, d, {E.mk(r)}); }; };
	fpc("llvm.is.fpclass.f64", 64, 52); fpc("llvm.is.fpclass.f32", 32, 23);
	h["llvm.threadlocal.address"] = H { if(s.cur) throw PathEnd{"unmodelled", "thread-local variable outside the first thread"}; E.ret(s, d, {a[0]}); };
	for(const char* n : {"llvm.minnum", "llvm.maxnum"}){ bool mn = n[6] == 'i'; h[n] = [mn](Engine& E, State& s, const DInst& d, Args& a){ unsigned w = (*d.leaves)[0].w; Expr* x = E.ex(a[0], w); Expr* y = E.ex(a[1], w);
		Expr* lt = mn ? mkFp(E_FLT, y, x, w) : mkFp(E_FLT, x, y, w); E.ret(s, d, {E.mk(mkIte(mkFp(E_FUNO, x, x, w), y, mkIte(mkFp(E_FUNO, y, y, w), x, mkIte(lt, y, x))))}); }; }
	Hook fab = H { unsigned w = (*d.leaves)[0].w; E.ret(s, d, {E.mk(mkFp(E_FABS, E.ex(a[0], w), nullptr, w))}); };
	h["llvm.fabs"] = h["fabs"] = h["fabsf"] = fab;
	Hook sq = H { unsigned w = (*d.leaves)[0].w; E.ret(s, d, {E.mk(mkFp(E_FSQRT, E.ex(a[0], w), nullptr, w))}); };
	h["llvm.sqrt"] = h["sqrt"] = h["sqrtf"] = sq;
	h["llvm.copysign"] = H { unsigned w = (*d.leaves)[0].w; E.ret(s, d, {E.mk(mkConcat(mkExtract(E.ex(a[1], w), w-1, 1), mkExtract(E.ex(a[0], w), 0, w-1)))}); };
#define MATH(n) h[#n] = mathFn(#n, ::n, nullptr, 64); h[#n "f"] = mathFn(#n "f", nullptr, ::n##f, 32); h["llvm." #n] = H { E.hooks[(*d.leaves)[0].w == 64 ? #n : #n "f"](E, s, d, a); };
	MATH(sin) MATH(cos) MATH(tan) MATH(asin) MATH(acos) MATH(atan) MATH(exp) MATH(log) MATH(log10)
#define MATH2(n) { Hook pw = H { unsigned w = (*d.leaves)[0].w; \
		if(!a[0].e && !a[1].e){ u64 r = 0; if(w == 64){ double x, y; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); x = ::n(x, y); memcpy(&r, &x, 8); } else { float x, y; u32 p = a[0].c, q = a[1].c; memcpy(&x, &p, 4); memcpy(&y, &q, 4); x = ::n##f(x, y); memcpy(&r, &x, 4); } E.ret(s, d, {VC(r)}); } \
		else E.ret(s, d, {E.mk(mkUF(#n + std::to_string(w), w, E.ex(a[0], w), E.ex(a[1], w)))}); }; \
		h[#n] = h[#n "f"] = h["llvm." #n] = pw; }
	MATH2(pow) MATH2(fmod) MATH2(atan2) MATH2(hypot) MATH2(remainder)
	// fsym_fmt(buf, size, fmt, double): host formatting of a concrete double
	h["fsym_fmt_double"] = H {
		u64 fm = a[2].c; std::string f = E.cstr(s, fm); double x; u64 c = E.concretize(s, a[3], 64, "formatting of a floating-point value"); memcpy(&x, &c, 8); char b[512]; int n = snprintf(b, sizeof b, f.c_str(), x);
		u64 cap = a[1].c; for(u64 i = 0; i + 1 < cap && i <= (u64)n; i++) E.storeC(s, a[0].c + i, VC((u8)b[i]), 8); if(cap) E.storeC(s, a[0].c + std::min<u64>(n, cap - 1), VC(0), 8); E.ret(s, d, {VC((u32)n)}); };
	h["fsym_strtod"] = H { std::string t; for(u64 i = 0; i < 300; i++){ Val v = E.loadC(s, a[0].c + i, 8); u64 c = E.concretize(s, v, 8, "strtod"); if(!c) break; t += (char)c; } char* e; double x = ::strtod(t.c_str(), &e); u64 r; memcpy(&r, &x, 8); if(a[1].c) E.storeC(s, a[1].c, VC(a[0].c + (e - t.c_str())), 64); E.ret(s, d, {VC(r)}); };
	// ---- termination
	auto crash = [&](const char* n, const char* m){ std::string ms = m; h[n] = [ms](Engine&, State&, const DInst&, Args&){ throw PathEnd{"crash", ms}; }; };
	crash("abort", "abort()"); crash("_ZSt9terminatev", "std::terminate()"); crash("__cxa_pure_virtual", "pure virtual function called"); crash("__assert_fail", "assertion failed"); crash("exit", "exit() called"); crash("_exit", "_exit() called"); crash("_ZSt10unexpectedv", "unexpected"); crash("__stack_chk_fail", "stack smashed"); crash("__cxa_bad_cast", "bad cast");
	// ---- exceptions
	h["__cxa_allocate_exception"] = H { u64 id = s.mem.alloc(a[0].c + 16, OK_HEAP, true); E.ret(s, d, {VC(objAddr(id) + 16)}); };
	h["__cxa_free_exception"] = H { s.mem.release(addrObj(a[0].c)); E.ret(s, d, {}); };
	h["__cxa_throw"] = H { E.storeC(s, a[0].c - 16, a[1], 64); E.throwExc(s, a[0].c); };
	h["__cxa_begin_catch"] = H { s.th[s.cur].caught.push_back(a[0].c); E.ret(s, d, {a[0]}); };
	h["__cxa_get_exception_ptr"] = H { E.ret(s, d, {a[0]}); };
	h["__cxa_end_catch"] = H { auto& c = s.th[s.cur].caught; if(!c.empty()) c.pop_back(); E.ret(s, d, {}); };
	h["__cxa_rethrow"] = H { auto& c = s.th[s.cur].caught; if(c.empty()) throw PathEnd{"crash", "rethrow without exception"}; u64 x = c.back(); c.pop_back(); E.throwExc(s, x); };
	h["_Unwind_Resume"] = H { E.throwExc(s, a[0].c); };
	h["__dynamic_cast"] = H { u64 vp = E.loadC(s, a[0].c, 64).c, ti = E.loadC(s, vp - 8, 64).c, top = E.loadC(s, vp - 16, 64).c; // single inheritance: every base is at the start of the object
		if(derives(E, s, ti, a[2].c)) E.ret(s, d, {VC(a[0].c + top)});
		else if(derives(E, s, ti, a[1].c)) E.ret(s, d, {VC(0)});
		else throw PathEnd{"unmodelled", "dynamic_cast in a class with several bases"}; };
	// ---- static initialisation
	h["__cxa_guard_acquire"] = H { Val v = E.loadC(s, a[0].c, 8); E.ret(s, d, {VC(v.c ? 0 : 1)}); };
	h["__cxa_guard_release"] = H { E.storeC(s, a[0].c, VC(1), 8); E.ret(s, d, {}); };
	h["__cxa_guard_abort"] = H { E.ret(s, d, {}); };
	h["__cxa_atexit"] = H { E.ret(s, d, {VC(0)}); };
	h["__cxa_thread_atexit"] = H { E.ret(s, d, {VC(0)}); };
	// ---- threads
	h["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = H {
		E.preempt(s);
		u64 st = E.loadC(s, a[1].c, 64).c; E.storeC(s, a[1].c, VC(0), 64);
		auto it = E.fnByName.find("vp_thread_main"); if(it == E.fnByName.end()) throw PathEnd{"unmodelled", "vp_thread_main is missing"};
		int id = s.th.size(), me = s.cur;
		E.storeC(s, a[0].c, VC(id), 64);
		E.ret(s, d, {});
		s.th.emplace_back(); s.cur = id;
		E.call(s, it->second, {VC(st)}, 0, 0, false, 0, 0);
		s.cur = me; };
	h["_ZNSt6thread4joinEv"] = H {
		E.preempt(s);
		u64 id = E.loadC(s, a[0].c, 64).c;
		if(id == 0 || id >= s.th.size()) throw PathEnd{"crash", "join of a thread that is not joinable (std::system_error)"};
		E.storeC(s, a[0].c, VC(0), 64); E.ret(s, d, {});
		if(s.th[id].st != TH_DONE) E.block(s, TH_JOIN, id); };
	h["_ZNSt6thread6detachEv"] = H { E.storeC(s, a[0].c, VC(0), 64); E.ret(s, d, {}); };
	Hook lock = H {
		E.preempt(s);
		if(E.mutexLock(s, a[0].c)){ E.ret(s, d, {VC(0)}); return; }
		again(s, d); E.block(s, TH_MUTEX, a[0].c); };
	h["pthread_mutex_lock"] = lock;
	h["pthread_mutex_trylock"] = H { E.preempt(s); bool r = E.mutexLock(s, a[0].c, true); E.ret(s, d, {VC(r ? 0 : 16)}); };
	h["pthread_mutex_unlock"] = H { E.mutexUnlock(s, a[0].c); E.ret(s, d, {VC(0)}); };
	h["pthread_rwlock_rdlock"] = h["pthread_rwlock_wrlock"] = lock; h["pthread_rwlock_tryrdlock"] = h["pthread_rwlock_trywrlock"] = h["pthread_mutex_trylock"]; h["pthread_rwlock_unlock"] = h["pthread_mutex_unlock"];
	h["pthread_rwlock_init"] = h["pthread_rwlock_destroy"] = h["pthread_mutexattr_init"] = h["pthread_mutexattr_destroy"] = h["pthread_mutexattr_settype"] = H { E.ret(s, d, {VC(0)}); };
	h["pthread_mutex_init"] = h["pthread_mutex_destroy"] = H { E.ret(s, d, {VC(0)}); };
	h["_ZNSt18condition_variableC1Ev"] = h["_ZNSt18condition_variableC2Ev"] = h["_ZNSt18condition_variableD1Ev"] = h["_ZNSt18condition_variableD2Ev"] = H { E.ret(s, d, {}); };
	h["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = H {
		Thread& t = s.th[s.cur];
		u64 m = E.loadC(s, a[1].c, 64).c;
		if(!t.relock){
			E.mutexUnlock(s, m);
			t.relock = true; again(s, d); E.block(s, TH_COND, a[0].c);
		} else {
			E.preempt(s);
			if(E.mutexLock(s, m)){ s.th[s.cur].relock = false; E.ret(s, d, {}); return; }
			again(s, d); E.block(s, TH_MUTEX, m);
		} };
	h["_ZNSt18condition_variable10notify_allEv"] = H { for(auto& t : s.th) if(t.st == TH_COND && t.waitOn == a[0].c) t.st = TH_RUN; E.ret(s, d, {}); };
	h["_ZNSt18condition_variable10notify_oneEv"] = H { for(auto& t : s.th) if(t.st == TH_COND && t.waitOn == a[0].c){ t.st = TH_RUN; break; } E.ret(s, d, {}); };
	Hook yield = H { E.ret(s, d, {VC(0)}); if(s.th.size() > 1) E.schedule(s, true); };
	h["sched_yield"] = h["nanosleep"] = h["usleep"] = h["vp_yield"] = yield;
	h["pthread_self"] = H { E.ret(s, d, {VC(s.cur + 1)}); };
}
