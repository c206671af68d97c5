// Interpreter core: memory, decisions, instructions, threads.
#include "engine.h"
#include <cmath>
#include <chrono>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <csignal>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

static Expr undefMark;
Expr* UNDEF_MARK = &undefMark;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0 = now();
static u64 stateIds = 0;
static thread_local u32 retryPc = 0;

static inline Val rd(Thread& t, const Frame& f, i32 o){
	if(o >= 0) return t.vs[f.base + o];
	Val v = f.f->consts[~o];
	if(v.e == UNDEF_MARK) return VC(0);
	return v;
}
static inline Val opv(Thread& t, const Frame& f, const DInst& d, u32 i){ return rd(t, f, f.f->ops[d.ops + i]); }
static inline i32 nth(i32 base, u32 i){ return base >= 0 ? base + (i32)i : ~(~base + (i32)i); }

void Engine::unknown(const std::string& what){
	__sync_fetch_and_add(&sh->incomplete, 1);
	if(res){ fprintf(res, "INCOMPLETE\t%s\n", what.c_str()); fflush(res); }
}
std::string Engine::stackTrace(State& s){
	std::string r;
	Thread& t = s.th[s.cur];
	int n = 0;
	for(size_t i = t.fr.size(); i-- > 0 && n < 12; n++){
		Frame& f = t.fr[i];
		u32 pc = f.pc ? f.pc - 1 : 0;
		if(i + 1 == t.fr.size()) pc = retryPc;
		if(pc < f.f->code.size()) r += (n ? " < " : "") + where(f.f->code[pc]);
	}
	return r;
}
// ------------------------------------------------------------------------------------------------ decisions
State* Engine::fork(State& s){
	State* n = new State(s);
	n->id = ++stateIds;
	n->th[n->cur].fr.back().pc = retryPc;
	s.forks++; n->forks++;
	__sync_fetch_and_add(&sh->forks, 1);
	pending.push_back(n);
	return n;
}
void Engine::addPc(State& s, Expr* c){
	if(isC(c)) return;
	if(c->op == E_AND){ addPc(s, c->k[0]); addPc(s, c->k[1]); return; }
	for(auto p : s.pcs) if(p == c) return;
	s.pcs.push_back(c);
}
static bool known(State& s, Expr* c, Expr* nc, bool& v){
	for(auto p : s.pcs){ if(p == c){ v = true; return true; } if(p == nc){ v = false; return true; } }
	return false;
}
bool Engine::decide(State& s, Expr* c){
	if(isC(c)) return c->c != 0;
	Expr* nc = mkNot(c);
	bool kv; if(known(s, c, nc, kv)) return kv;
	bool ok = true; bool v = evalExpr(c, *s.model, ok) != 0;
	if(!ok){
		std::vector<Expr*> q; slice(s.pcs, c, q); q.push_back(c); Model m;
		SatRes r = solve(q, *s.model, m);
		if(r == UNKNOWN){ unknown("solver gave no answer for a branch at " + stackTrace(s)); }
		if(r == SAT){ v = true; s.model = std::make_shared<Model>(m); }
		else v = false;
	}
	Expr* other = v ? nc : c;
	std::vector<Expr*> q; slice(s.pcs, other, q); q.push_back(other);
	Model m;
	SatRes r = solve(q, *s.model, m);
	if(r == UNKNOWN) unknown("solver gave no answer for a branch at " + stackTrace(s));
	if(r == SAT){
		State* n = fork(s);
		n->model = std::make_shared<Model>(std::move(m));
		addPc(*n, other);
		addPc(s, v ? c : nc);
	}
	return v;
}
bool Engine::feasible(State& s, Expr* c, Model* out){
	if(isC(c)){ if(c->c && out) *out = *s.model; return c->c != 0; }
	bool kv; if(known(s, c, mkNot(c), kv)){ if(kv && out) *out = *s.model; return kv; }
	bool ok = true;
	if(evalExpr(c, *s.model, ok) && ok){ if(out) *out = *s.model; return true; }
	std::vector<Expr*> q; slice(s.pcs, c, q); q.push_back(c);
	Model m; SatRes r = solve(q, *s.model, m);
	if(r == UNKNOWN) unknown("solver gave no answer for an assertion at " + stackTrace(s));
	if(r == SAT && out) *out = m;
	return r == SAT;
}
void Engine::assume(State& s, Expr* c){
	if(isC(c)){ if(!c->c) throw PathEnd{"assume", ""}; return; }
	Model m;
	if(!feasible(s, c, &m)) throw PathEnd{"assume", ""};
	s.model = std::make_shared<Model>(m);
	addPc(s, c);
}
u64 Engine::modelVal(State& s, Expr* e, bool& ok){ return (u64)evalExpr(e, *s.model, ok); }
u64 Engine::concretize(State& s, Val v, unsigned w, const char* why){
	if(!v.e) return v.c;
	if(isC(v.e)) return (u64)v.e->c;
	bool ok = true; u64 a = modelVal(s, v.e, ok);
	Expr* eq = mkEq(v.e, mkConst(a, w));
	if(!ok){ // uninterpreted function: ask the solver whether the guess is possible
		if(!feasible(s, eq)) throw PathEnd{"error", std::string("cannot concretize a value of an uninterpreted function: ") + why};
	}
	if(++s.conc > 20000) throw PathEnd{"error", "too many concretizations"};
	decide(s, eq);
	// decide() follows the model, under which eq holds
	return a;
}

// ------------------------------------------------------------------------------------------------ memory
static Expr* undefSym(unsigned w){ return mkSym("undef", w, true); }
Val Engine::objRead(Obj* o, u64 off, unsigned w, State& s){
	unsigned n = (w + 7) / 8;
	bool conc = o->tag.empty();
	if(!conc){ conc = true; for(unsigned i = 0; i < n; i++) if(o->tag[off+i]){ conc = false; break; } }
	if(conc){
		u128 v = 0; memcpy(&v, &o->b[off], n);
		v &= maskw(w);
		if(w <= 64) return VC((u64)v);
		return Val{mkConst(v, w), 0};
	}
	// One whole expression stored here?
	if(o->tag[off] == T_SYM){
		Expr* e = o->sym[off].e; unsigned i0 = o->sym[off].i; bool same = true;
		for(unsigned i = 1; i < n; i++) if(o->tag[off+i] != T_SYM || o->sym[off+i].e != e || o->sym[off+i].i != i0 + i){ same = false; break; }
		if(same){
			if(i0 * 8 + w <= e->w) return mk(mkExtract(e, i0 * 8, w));
			if(i0 == 0 && n * 8 > e->w && w > e->w && n == (e->w + 7) / 8) return mk(mkZext(e, w));
			if(i0 * 8 < e->w) return mk(mkZext(mkExtract(e, i0*8, e->w - i0*8), w));
		}
	}
	bool allUndef = true; for(unsigned i = 0; i < n; i++) if(o->tag[off+i] != T_UNDEF) allUndef = false;
	if(allUndef){
		Expr* e = undefSym(n * 8);
		// make the value stick: later reads see the same unknown value
		if(o->sym.empty()) o->sym.resize(o->size);
		for(unsigned i = 0; i < n; i++){ o->tag[off+i] = T_SYM; o->sym[off+i] = {e, (u8)i}; }
		return mk(mkExtract(e, 0, w));
	}
	Expr* r = nullptr;
	for(unsigned i = 0; i < n; i++){
		Expr* x;
		if(o->tag[off+i] == T_CONC) x = mkConst(o->b[off+i], 8);
		else if(o->tag[off+i] == T_UNDEF){
			x = undefSym(8); if(o->sym.empty()) o->sym.resize(o->size); o->tag[off+i] = T_SYM; o->sym[off+i] = {x, 0};
		} else { SymB& b = o->sym[off+i]; unsigned lo = b.i * 8; x = lo + 8 <= b.e->w ? mkExtract(b.e, lo, 8) : mkZext(mkExtract(b.e, lo, b.e->w - lo), 8); }
		r = r ? mkConcat(x, r) : x;
	}
	return mk(mkExtract(r, 0, w));
}
void Engine::objWrite(Obj* o, u64 off, const Val& v, unsigned w){
	unsigned n = (w + 7) / 8;
	if(!v.e || isC(v.e)){
		u128 c = v.e ? v.e->c : v.c;
		memcpy(&o->b[off], &c, n);
		if(!o->tag.empty()) memset(&o->tag[off], T_CONC, n);
		return;
	}
	if(o->tag.empty()) o->tag.assign(o->size, T_CONC);
	if(o->sym.empty()) o->sym.resize(o->size);
	for(unsigned i = 0; i < n; i++){ o->tag[off+i] = T_SYM; o->sym[off+i] = {v.e, (u8)i}; }
}
u64 Engine::checkAddr(State& s, u64 a, u64 n, bool write, const char* what){
	u64 id = addrObj(a); i64 off = addrOff(a);
	Obj* o = s.mem.get(id);
	if(!o){
		if(s.mem.wasFreed(id)) throw PathEnd{"memory", std::string("use after free or out of scope (") + what + ")"};
		if(a < 0x10000) throw PathEnd{"memory", std::string("null pointer ") + what};
		throw PathEnd{"memory", std::string("wild pointer ") + what + " " + hex(a)};
	}
	if(o->kind == OK_FUNC) throw PathEnd{"memory", std::string("access to code (") + what + ")"};
	if(off < 0 || (u64)off + n > o->size) throw PathEnd{"memory", std::string("out-of-bounds ") + what + ": offset " + std::to_string(off) + " size " + std::to_string(n) + " in object of " + std::to_string(o->size) + " bytes"};
	if(write && o->ro) throw PathEnd{"memory", std::string("write to constant (") + what + ")"};
	return id;
}
Val Engine::loadC(State& s, u64 a, unsigned w){
	u64 id = checkAddr(s, a, (w + 7) / 8, false, "read");
	Obj* o = s.mem.get(id); u64 off = addrOff(a);
	if(!o->tag.empty()){ unsigned n = (w+7)/8; for(unsigned i = 0; i < n; i++) if(o->tag[off+i] == T_UNDEF){ o = s.mem.getW(id); break; } }
	return objRead(o, off, w, s);
}
void Engine::storeC(State& s, u64 a, const Val& v, unsigned w){
	u64 id = checkAddr(s, a, (w + 7) / 8, true, "write");
	objWrite(s.mem.getW(id), addrOff(a), v, w);
}
static unsigned tzExpr(Expr* e, int d = 8){   // known trailing zero bits
	if(isC(e)){ if(!e->c) return e->w; unsigned n = 0; while(!((e->c >> n) & 1)) n++; return n; }
	if(d == 0) return 0;
	switch(e->op){
		case E_CONCAT: { unsigned l = tzExpr(e->k[1], d-1); return l == e->k[1]->w ? l + tzExpr(e->k[0], d-1) : l; }
		case E_ADD: case E_SUB: case E_OR: case E_XOR: return std::min(tzExpr(e->k[0], d-1), tzExpr(e->k[1], d-1));
		case E_MUL: return std::min((unsigned)e->w, tzExpr(e->k[0], d-1) + tzExpr(e->k[1], d-1));
		case E_ITE: return std::min(tzExpr(e->k[1], d-1), tzExpr(e->k[2], d-1));
		case E_ZEXT: case E_SEXT: { unsigned t = tzExpr(e->k[0], d-1); return t == e->k[0]->w ? e->w : t; }
		default: return 0;
	}
}
// Symbolic pointer: pick the object the model points into; other objects are explored by forked states.
// Returns the object's id with symOff = offset expression, or (symOff == nullptr) a concrete address.
u64 Engine::resolve(State& s, const Val& p, u64 n, bool write, Expr*& symOff){
	symOff = nullptr;
	if(!p.e || isC(p.e)) return p.e ? (u64)p.e->c : p.c;
	bool ok = true; u64 a = modelVal(s, p.e, ok);
	Obj* o = s.mem.get(addrObj(a));
	u64 base = objAddr(addrObj(a));
	if(!o || o->kind == OK_FUNC || addrOff(a) < 0 || (u64)addrOff(a) + n > o->size){
		// Prefer a report only when truly feasible, which it is: the model satisfies the path condition.
		decide(s, mkEq(p.e, mkConst(a, 64)));
		return a;
	}
	Expr* off = mkBin(E_SUB, p.e, mkConst(base, 64));
	Expr* in = mkBin(E_ULE, off, mkConst(o->size - n, 64));
	decide(s, in);
	symOff = off;
	return addrObj(a);
}
Val Engine::load(State& s, const Val& p, unsigned w, bool){
	if(!p.e) return loadC(s, p.c, w);
	unsigned n = (w + 7) / 8;
	Expr* off; u64 r = resolve(s, p, n, false, off);
	if(!off) return loadC(s, r, w);
	Obj* o = s.mem.get(r);
	u64 stride = 1ull << std::min<unsigned>(tzExpr(off), 6);
	u64 cand = (o->size - n) / stride + 1;
	if(cand > 600){ u64 c = concretize(s, Val{off, 0}, 64, "load"); return loadC(s, objAddr(r) + c, w); }
	o = s.mem.getW(r);
	Expr* v = nullptr;
	// group equal neighbouring values
	std::vector<std::pair<u64, Expr*>> vals;
	for(u64 k = 0; k < cand; k++){
		if(!o->tag.empty()){ bool und = false; for(unsigned i = 0; i < n; i++) if(o->tag[k*stride+i] == T_UNDEF) und = true;
			if(und && !feasible(s, mkEq(off, mkConst(k*stride, 64)))) continue; }
		Val x = objRead(o, k * stride, w, s);
		vals.push_back({k * stride, ex(x, w)});
	}
	for(size_t i = vals.size(); i-- > 0; ){
		if(!v){ v = vals[i].second; continue; }
		if(v == vals[i].second) continue;
		// ite(off < next, val, rest) keeps runs of equal values in one test
		if(i + 1 < vals.size() && (v->op != E_ITE || true)) v = mkIte(mkBin(E_ULE, off, mkConst(vals[i].first, 64)), vals[i].second, v);
	}
	return mk(v);
}
void Engine::store(State& s, const Val& p, const Val& v, unsigned w){
	if(!p.e){ storeC(s, p.c, v, w); return; }
	unsigned n = (w + 7) / 8;
	Expr* off; u64 r = resolve(s, p, n, true, off);
	if(!off){ storeC(s, r, v, w); return; }
	Obj* o = s.mem.get(r);
	if(o->ro) throw PathEnd{"memory", "write to constant"};
	u64 stride = 1ull << std::min<unsigned>(tzExpr(off), 6);
	u64 cand = (o->size - n) / stride + 1;
	if(cand > 128 || stride < n){ u64 c = concretize(s, Val{off, 0}, 64, "store"); storeC(s, objAddr(r) + c, v, w); return; }
	o = s.mem.getW(r);
	for(u64 k = 0; k < cand; k++){
		Expr* eq = mkEq(off, mkConst(k * stride, 64));
		if(isC(eq) && !eq->c) continue;
		Val old = objRead(o, k * stride, w, s);
		objWrite(o, k * stride, mk(mkIte(eq, ex(v, w), ex(old, w))), w);
	}
}
void Engine::memCopy(State& s, u64 d, u64 src, u64 n){
	if(!n) return;
	u64 si = checkAddr(s, src, n, false, "read (memcpy)");
	u64 di = checkAddr(s, d, n, true, "write (memcpy)");
	Obj* so = s.mem.get(si); so->rc++;                // keep alive across the write
	Obj* dob = s.mem.getW(di);
	so->rc--; if(si == di) so = dob;
	u64 a = addrOff(src), b = addrOff(d);
	std::vector<u8> tags; std::vector<SymB> sy;
	bool st = !so->tag.empty();
	if(st){ tags.assign(so->tag.begin() + a, so->tag.begin() + a + n); if(!so->sym.empty()) sy.assign(so->sym.begin() + a, so->sym.begin() + a + n); }
	std::vector<u8> bytes(so->b.begin() + a, so->b.begin() + a + n);
	memcpy(&dob->b[b], bytes.data(), n);
	if(!st){ if(!dob->tag.empty()) memset(&dob->tag[b], T_CONC, n); return; }
	if(dob->tag.empty()) dob->tag.assign(dob->size, T_CONC);
	memcpy(&dob->tag[b], tags.data(), n);
	if(!sy.empty()){ if(dob->sym.empty()) dob->sym.resize(dob->size); std::copy(sy.begin(), sy.end(), dob->sym.begin() + b); }
}
std::string Engine::cstr(State& s, u64 a){
	std::string r;
	for(int i = 0; i < 400; i++){ Val v = loadC(s, a + i, 8); if(v.e){ r += '?'; continue; } if(!v.c) break; r += (char)v.c; }
	return r;
}
void Engine::release(State& s, u64 a, u8 fam){
	if(!a) return;
	u64 id = addrObj(a); Obj* o = s.mem.get(id);
	if(!o) throw PathEnd{"memory", s.mem.wasFreed(id) ? "double free" : "free of wild pointer"};
	if(o->kind != OK_HEAP || addrOff(a) != 0) throw PathEnd{"memory", "free of a pointer not returned by the allocator"};
	if(o->akind != fam) throw PathEnd{"memory", "allocation and deallocation functions do not match"};
	s.mem.release(id);
}

// ------------------------------------------------------------------------------------------------ calls
void Engine::call(State& s, Func* f, const std::vector<Val>& args, u32 dst, u32 retn, bool invoke, u32 ne, u32 ue){
	if(!f->decoded) decode(f);
	f->executed = true; f->calls++;
	Thread& t = s.th[s.cur];
	if(t.fr.size() > 3000) throw PathEnd{"stack", "call stack deeper than 3000 frames"};
	Frame n; n.f = f; n.pc = 0; n.base = t.fr.empty() ? 0 : t.fr.back().base + t.fr.back().f->nslots;
	n.retdst = dst; n.retn = retn; n.invoke = invoke; n.nedge = ne; n.uedge = ue;
	if(t.vs.size() < n.base + f->nslots) t.vs.resize(n.base + f->nslots + 256);
	u32 k = std::min<size_t>(args.size(), f->nargs);
	for(u32 i = 0; i < k; i++) t.vs[n.base + i] = args[i];
	for(u32 i = k; i < f->nargs; i++) t.vs[n.base + i] = VC(0);
	if(args.size() > f->nargs) n.va.assign(args.begin() + f->nargs, args.end());
	t.fr.push_back(std::move(n));
}
void Engine::jump(State& s, u32 ei){
	Thread& t = s.th[s.cur]; Frame& f = t.fr.back(); Func* F = f.f;
	const Edge& e = F->edges[ei];
	if(e.n == 1){
		const Copy& c = F->copies[e.first];
		if(c.n == 1) t.vs[f.base + c.dst] = rd(t, f, c.src);
		else { std::vector<Val> tmp; for(u32 k = 0; k < c.n; k++) tmp.push_back(rd(t, f, nth(c.src, k))); for(u32 k = 0; k < c.n; k++) t.vs[f.base + c.dst + k] = tmp[k]; }
	} else if(e.n){
		Val buf[64]; std::vector<Val> big; Val* tmp = buf; u32 tot = 0;
		for(u32 i = 0; i < e.n; i++) tot += F->copies[e.first + i].n;
		if(tot > 64){ big.resize(tot); tmp = big.data(); }
		u32 p = 0;
		for(u32 i = 0; i < e.n; i++){ const Copy& c = F->copies[e.first + i]; for(u32 k = 0; k < c.n; k++) tmp[p++] = rd(t, f, nth(c.src, k)); }
		p = 0;
		for(u32 i = 0; i < e.n; i++){ const Copy& c = F->copies[e.first + i]; for(u32 k = 0; k < c.n; k++) t.vs[f.base + c.dst + k] = tmp[p++]; }
	}
	f.pc = e.target;
}
void Engine::doReturn(State& s, const std::vector<Val>& rv){
	Thread& t = s.th[s.cur];
	Frame& f = t.fr.back();
	for(u64 a : f.allocas) s.mem.release(a);
	u32 dst = f.retdst, n = f.retn; bool inv = f.invoke; u32 ne = f.nedge;
	t.fr.pop_back();
	if(t.fr.empty()){
		if(s.cur == 0) throw PathEnd{"ok", ""};
		t.st = TH_DONE;
		for(auto& o : s.th) if(o.st == TH_JOIN && o.waitOn == (u64)s.cur) o.st = TH_RUN;
		schedule(s, true);
		return;
	}
	Frame& c = t.fr.back();
	for(u32 i = 0; i < n && i < rv.size(); i++) t.vs[c.base + dst + i] = rv[i];
	if(inv) jump(s, ne);
}
static const char* typeName(Engine& E, u64 ti){ for(auto& g : E.globalAddr) if(g.second == ti) return g.first.c_str(); return "?"; }
// Itanium type_info: {vtable, name, base...}; is `sub` equal to or (singly) derived from `sup`?
bool derives(Engine& E, State& s, u64 sub, u64 sup){
	for(int d = 0; d < 16 && sub; d++){
		if(sub == sup) return true;
		Obj* o = s.mem.get(addrObj(sub)); if(!o || o->size < 24) return false;
		u64 vt; memcpy(&vt, &o->b[0], 8);
		auto it = E.globalAddr.find("_ZTVN10__cxxabiv120__si_class_type_infoE");
		if(it == E.globalAddr.end() || vt != it->second + 16) return false;
		memcpy(&sub, &o->b[16], 8);
	}
	return false;
}
// exception object layout: hidden header object maps exc -> typeinfo (kept in the thrown object's 8-byte prefix)
void Engine::throwExc(State& s, u64 exc){
	u64 ti = loadC(s, exc - 16, 64).c;
	Thread& t = s.th[s.cur];
	// phase 1: is there a handler?
	int target = -1; u64 sel = 0;
	for(size_t i = t.fr.size(); i-- > 0; ){
		Frame& f = t.fr[i];
		const DInst& ci = f.f->code[f.pc ? f.pc - 1 : 0];
		if(ci.op != D_CALL || !(ci.flags & 1)) continue;
		const Edge& e = f.f->edges[ci.e1];
		u32 p = e.target; while(f.f->code[p].op != D_LPAD && p < f.f->code.size()) p++;
		LPad* lp = f.f->code[p].lpad;
		for(u64 c : lp->catches) if(c == 0 || derives(*this, s, ti, c)){ target = i; sel = c ? (addrObj(c) & 0x7fffffff) : 1; break; }
		if(target >= 0) break;
	}
	if(target < 0) throw PathEnd{"crash", std::string("uncaught exception (std::terminate) of type ") + typeName(*this, ti)};
	// phase 2: go to the nearest landing pad (cleanup or handler)
	for(size_t i = t.fr.size(); i-- > 0; ){
		Frame& f = t.fr[i];
		const DInst& ci = f.f->code[f.pc ? f.pc - 1 : 0];
		if(ci.op == D_CALL && (ci.flags & 1)){
			const Edge& e = f.f->edges[ci.e1];
			u32 p = e.target; while(f.f->code[p].op != D_LPAD && p < f.f->code.size()) p++;
			LPad* lp = f.f->code[p].lpad;
			if((int)i == target || lp->cleanup){
				jump(s, ci.e1);
				f.exc[0] = VC(exc); f.exc[1] = VC((int)i == target ? sel : 0);
				return;
			}
		}
		for(u64 a : f.allocas) s.mem.release(a);
		t.fr.pop_back();
	}
}
void Engine::doCall(State& s, const DInst& d){
	Thread& t = s.th[s.cur]; Frame& f = t.fr.back();
	std::vector<Val> args; args.reserve(d.nops);
	for(u32 i = 1; i < d.nops; i++) args.push_back(opv(t, f, d, i));
	Func* callee = d.callee;
	if(!callee){
		Val fp = opv(t, f, d, 0);
		u64 a = fp.e ? concretize(s, fp, 64, "call") : fp.c;
		auto it = fnById.find(addrObj(a));
		if(it == fnById.end() || addrOff(a) != 0) throw PathEnd{"memory", a ? "call through a bad function pointer " + hex(a) : "call through a null function pointer"};
		callee = it->second;
	}
	if(callee->hook){ callee->calls++; (*callee->hook)(*this, s, d, args); return; }
	if(!callee->decoded && callee->name.compare(0, 5, "llvm.") != 0) decode(callee);
	if(callee->code.empty()) throw PathEnd{"unmodelled", "call to " + callee->name + ", which has no body and no model"};
	for(u32 i = 0; i < args.size(); i++) if((*d.leaves)[i].off){      // byval copy
		u64 n = (*d.leaves)[i].off; u64 id = s.mem.alloc(n, OK_STACK, true);
		memCopy(s, objAddr(id), args[i].c, n); args[i] = VC(objAddr(id));
	}
	call(s, callee, args, d.dst, d.imm, d.flags & 1, d.e0, d.e1);
}

// ------------------------------------------------------------------------------------------------ instructions
static Val binop(Engine& E, Op op, const Val& a, const Val& b, unsigned w){
	if(!a.e && !b.e){
		u64 m = w >= 64 ? ~0ull : (1ull << w) - 1;
		switch(op){
			case E_ADD: return VC((a.c + b.c) & m);
			case E_SUB: return VC((a.c - b.c) & m);
			case E_MUL: return VC((a.c * b.c) & m);
			case E_AND: return VC(a.c & b.c);
			case E_OR: return VC(a.c | b.c);
			case E_XOR: return VC(a.c ^ b.c);
			default: return VC((u64)foldBin(op, a.c, b.c, w));
		}
	}
	return E.mk(mkBin(op, E.ex(a, w), E.ex(b, w)));
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w){
	i64 x = w >= 64 ? (i64)a : (i64)sextw(a, w), y = w >= 64 ? (i64)b : (i64)sextw(b, w);
	switch(p){ case 32: return a == b; case 33: return a != b; case 34: return a > b; case 35: return a >= b; case 36: return a < b; case 37: return a <= b; case 38: return x > y; case 39: return x >= y; case 40: return x < y; case 41: return x <= y; }
	return false;
}
static Expr* icmpE(unsigned p, Expr* a, Expr* b){
	switch(p){ case 32: return mkEq(a, b); case 33: return mkNot(mkEq(a, b)); case 34: return mkBin(E_ULT, b, a); case 35: return mkBin(E_ULE, b, a); case 36: return mkBin(E_ULT, a, b); case 37: return mkBin(E_ULE, a, b); case 38: return mkBin(E_SLT, b, a); case 39: return mkBin(E_SLE, b, a); case 40: return mkBin(E_SLT, a, b); default: return mkBin(E_SLE, a, b); }
}
static Expr* fcmpE(unsigned p, Expr* a, Expr* b){
	Expr* uno = mkFp(E_FUNO, a, b, 1);
	Expr* r;
	switch(p & 7){
		case 0: r = mkConst(0, 1); break;
		case 1: r = mkFp(E_FEQ, a, b, 1); break;
		case 2: r = mkFp(E_FLT, b, a, 1); break;
		case 3: r = mkFp(E_FLE, b, a, 1); break;
		case 4: r = mkFp(E_FLT, a, b, 1); break;
		case 5: r = mkFp(E_FLE, a, b, 1); break;
		case 6: r = mkBin(E_AND, mkNot(uno), mkNot(mkFp(E_FEQ, a, b, 1))); break;
		default: r = mkNot(uno); break;
	}
	return (p & 8) ? mkBin(E_OR, r, uno) : r;
}
void Engine::step(State& s){
	Thread* tp = &s.th[s.cur];
	Frame* fp = &tp->fr.back();
	const DInst& d = fp->f->code[fp->pc];
	retryPc = fp->pc;
	fp->pc++;
	Thread& t = *tp; Frame& f = *fp;
	Val* R = &t.vs[f.base];
	switch(d.op){
		case D_NOP: break;
		case D_BIN: {
			Val a = opv(t, f, d, 0), b = opv(t, f, d, 1);
			switch(d.sub){
				case E_UDIV: case E_SDIV: case E_UREM: case E_SREM: {
					if(b.e){ if(decide(s, mkEq(ex(b, d.w), mkConst(0, d.w)))) throw PathEnd{"crash", "division by zero (SIGFPE)"}; }
					else if(b.c == 0) throw PathEnd{"crash", "division by zero (SIGFPE)"};
					if(d.sub == E_SDIV || d.sub == E_SREM){
						Expr* ov = mkBin(E_AND, mkEq(ex(b, d.w), mkConst(maskw(d.w), d.w)), mkEq(ex(a, d.w), mkConst((u128)1 << (d.w-1), d.w)));
						if(d.w >= 32 && decide(s, ov)) throw PathEnd{"crash", "signed division overflow (SIGFPE)"};
					}
					break; }
				case E_SHL: case E_LSHR: case E_ASHR:
					if(d.w == 32 || d.w == 64){ if(!b.e) b.c &= d.w - 1; else b = mk(mkBin(E_AND, b.e, mkConst(d.w - 1, d.w))); }
					break;
				default: break;
			}
			R[d.dst] = binop(*this, (Op)d.sub, a, b, d.w);
			break; }
		case D_ICMP: {
			Val a = opv(t, f, d, 0), b = opv(t, f, d, 1);
			if(!a.e && !b.e) R[d.dst] = VC(icmpC(d.sub, a.c, b.c, d.w2));
			else R[d.dst] = mk(icmpE(d.sub, ex(a, d.w2), ex(b, d.w2)));
			break; }
		case D_TRUNC: { Val a = opv(t, f, d, 0); if(!a.e) R[d.dst] = VC(a.c & (u64)maskw(d.w)); else R[d.dst] = mk(mkExtract(a.e, 0, d.w)); break; }
		case D_ZEXT: { Val a = opv(t, f, d, 0); if(!a.e && d.w <= 64) R[d.dst] = a; else R[d.dst] = mk(mkZext(ex(a, d.w2), d.w)); break; }
		case D_SEXT: { Val a = opv(t, f, d, 0); if(!a.e && d.w <= 64) R[d.dst] = VC((u64)sextw(a.c, d.w2) & (u64)maskw(d.w)); else R[d.dst] = mk(mkSext(ex(a, d.w2), d.w)); break; }
		case D_COPY: R[d.dst] = opv(t, f, d, 0); break;
		case D_FP: {
			if(d.w > 64) throw PathEnd{"unmodelled", "80-bit floating point"};
			Val a = opv(t, f, d, 0), b = d.nops > 1 ? opv(t, f, d, 1) : VC(0);
			if(!a.e && !b.e) R[d.dst] = VC((u64)foldFp((Op)d.sub, a.c, b.c, d.w, d.w, 0));
			else R[d.dst] = mk(mkFp((Op)d.sub, ex(a, d.w), d.nops > 1 ? ex(b, d.w) : nullptr, d.w));
			break; }
		case D_FCMP: R[d.dst] = mk(fcmpE(d.sub, ex(opv(t, f, d, 0), d.w2), ex(opv(t, f, d, 1), d.w2))); break;
		case D_FCONV: R[d.dst] = mk(mkFp((Op)d.sub, ex(opv(t, f, d, 0), d.w2), nullptr, d.w)); break;
		case D_ALLOCA: {
			Val n = opv(t, f, d, 0); u64 cnt = n.c;
			if(d.flags){
				// variable-length array: sizes beyond the thread's stack end in a crash
				u64 lim = (4u << 20) / (d.imm ? d.imm : 1);
				if(decide(s, mkBin(E_ULT, mkConst(lim, d.w2), ex(n, d.w2)))) throw PathEnd{"crash", "variable-length array larger than the stack"};
				cnt = concretize(s, n, d.w2, "variable-length array");
			}
			u64 id = s.mem.alloc(cnt * d.imm, OK_STACK, true);
			f.allocas.push_back(id); R[d.dst] = VC(objAddr(id));
			break; }
		case D_LOAD: {
			Val p = opv(t, f, d, 0);
			if(d.w){ Val v = load(s, p, d.w); s.th[s.cur].vs[f.base + d.dst] = v; }
			else {
				if(p.e) p = VC(concretize(s, p, 64, "aggregate load"));
				u32 k = 0; for(auto& l : *d.leaves) R[d.dst + k++] = loadC(s, p.c + l.off, l.w);
			}
			break; }
		case D_STORE: {
			Val p = opv(t, f, d, 1);
			if(d.w) store(s, p, opv(t, f, d, 0), d.w);
			else {
				if(p.e) p = VC(concretize(s, p, 64, "aggregate store"));
				i32 b = f.f->ops[d.ops]; u32 k = 0; for(auto& l : *d.leaves) storeC(s, p.c + l.off, rd(t, f, nth(b, k++)), l.w);
			}
			break; }
		case D_GEP: {
			Val p = opv(t, f, d, 0); 
			Val r = binop(*this, E_ADD, p, VC(d.imm), 64);
			for(u32 i = 1; i < d.nops; i++){
				u64 sc = f.f->aux[d.e0 + 2*(i-1)], w = f.f->aux[d.e0 + 2*(i-1) + 1];
				Val x = opv(t, f, d, i);
				if(!x.e) x = VC((u64)sextw(x.c, w) * sc); else x = mk(mkBin(E_MUL, mkSext(x.e, 64), mkConst(sc, 64)));
				r = binop(*this, E_ADD, r, x, 64);
			}
			R[d.dst] = r;
			break; }
		case D_SELECT: {
			Val c = opv(t, f, d, 0);
			if(d.leaves){
				bool b = c.e ? decide(s, c.e) : c.c & 1;
				i32 o = f.f->ops[d.ops + (b ? 1 : 2)]; for(u32 k = 0; k < d.leaves->size(); k++) R[d.dst + k] = rd(t, f, nth(o, k));
			} else if(!c.e) R[d.dst] = (c.c & 1) ? opv(t, f, d, 1) : opv(t, f, d, 2);
			else R[d.dst] = mk(mkIte(c.e, ex(opv(t, f, d, 1), d.w), ex(opv(t, f, d, 2), d.w)));
			break; }
		case D_BR: jump(s, d.e0); break;
		case D_CBR: {
			Val c = opv(t, f, d, 0);
			bool b = c.e ? decide(s, c.e) : (c.c & 1);
			jump(s, b ? d.e0 : d.e1);
			break; }
		case D_SWITCH: {
			Val c = opv(t, f, d, 0);
			if(!c.e){
				u32 e = d.e0; for(auto& k : *d.cases) if((u64)k.first == c.c){ e = k.second; break; }
				jump(s, e);
			} else {
				// decide the case the model selects; the rest is left to forked states
				bool ok = true; u64 a = modelVal(s, c.e, ok);
				u32 e = d.e0; bool found = false;
				for(auto& k : *d.cases) if((u64)k.first == a){ e = k.second; found = true; }
				Expr* cond = mkConst(0, 1);
				for(auto& k : *d.cases) if(!found || k.second == e) cond = mkBin(E_OR, cond, mkEq(c.e, mkConst(k.first, d.w2)));
				if(!found) cond = mkNot(cond);
				decide(s, cond);
				jump(s, e);
			}
			break; }
		case D_RET: {
			std::vector<Val> rv;
			if(d.nops){ i32 b = f.f->ops[d.ops]; for(u32 k = 0; k < f.f->retn; k++) rv.push_back(rd(t, f, nth(b, k))); }
			doReturn(s, rv);
			break; }
		case D_CALL: doCall(s, d); break;
		case D_UNREACH: throw PathEnd{"crash", "unreachable code reached"};
		case D_LPAD: R[d.dst] = f.exc[0]; R[d.dst + 1] = f.exc[1]; break;
		case D_RESUME: {
			u64 exc = opv(t, f, d, 0).c;
			for(u64 a : f.allocas) s.mem.release(a);
			t.fr.pop_back();
			throwExc(s, exc);
			break; }
		case D_EXTRACTV: { i32 b = f.f->ops[d.ops]; for(u32 k = 0; k < d.e0; k++) R[d.dst + k] = rd(t, f, nth(b, d.imm + k)); break; }
		case D_INSERTV: {
			i32 a = f.f->ops[d.ops], b = f.f->ops[d.ops + 1];
			for(u32 k = 0; k < d.e0; k++) R[d.dst + k] = (k >= d.imm && k < d.imm + d.e1) ? rd(t, f, nth(b, k - d.imm)) : rd(t, f, nth(a, k));
			break; }
		case D_RMW: {
			Val p = opv(t, f, d, 0), v = opv(t, f, d, 1);
			Val old = load(s, p, d.w); Val n;
			switch(d.sub){
				case 0: n = v; break;
				case 1: n = binop(*this, E_ADD, old, v, d.w); break;
				case 2: n = binop(*this, E_SUB, old, v, d.w); break;
				case 3: n = binop(*this, E_AND, old, v, d.w); break;
				case 5: n = binop(*this, E_OR, old, v, d.w); break;
				case 6: n = binop(*this, E_XOR, old, v, d.w); break;
				default: throw PathEnd{"unmodelled", "atomicrmw"};
			}
			store(s, p, n, d.w);
			s.th[s.cur].vs[f.base + d.dst] = old;
			break; }
		case D_CMPXCHG: {
			Val p = opv(t, f, d, 0), c = opv(t, f, d, 1), n = opv(t, f, d, 2);
			Val old = load(s, p, d.w);
			Expr* eq = mkEq(ex(old, d.w), ex(c, d.w));
			bool b = decide(s, eq);
			if(b) store(s, p, n, d.w);
			R[d.dst] = old; R[d.dst + 1] = VC(b);
			break; }
		default: { throw PathEnd{"unmodelled", "instruction not supported at " + where(d)}; }
	}
}

// ------------------------------------------------------------------------------------------------ threads
void Engine::schedule(State& s, bool voluntary){
	std::vector<int> run;
	for(size_t i = 0; i < s.th.size(); i++) if(s.th[i].st == TH_RUN) run.push_back(i);
	if(run.empty()) throw PathEnd{"deadlock", "every thread is blocked"};
	int next = run[0];
	if(!s.explore){
		for(int r : run) if(r > s.cur){ next = r; break; }
	} else {
		if(run.size() > 1){
			// every runnable thread may continue (a yielding thread gives way when another can run)
			std::vector<int> c; for(int r : run) if(r != s.cur || s.th[s.cur].st != TH_RUN) c.push_back(r);
			if(c.empty()) c = run;
			for(size_t k = 1; k < c.size(); k++){
				State* n = new State(s); n->id = ++stateIds; n->cur = c[k]; n->sched.push_back(c[k]); n->forks++;
				__sync_fetch_and_add(&sh->forks, 1);
				pending.push_back(n);
			}
			next = c[0];
		}
	}
	if(s.explore) s.sched.push_back(next);
	s.cur = next;
}
bool Engine::mutexLock(State& s, u64 m, bool tryOnly){
	Mutex& mu = s.mutexes[m];
	if(mu.owner < 0){ mu.owner = s.cur; mu.depth = 1; return true; }
	Val kind = VC(0);
	{ Obj* o = s.mem.get(addrObj(m)); if(o && addrOff(m) >= 0 && addrOff(m) + 20 <= (i64)o->size) kind = loadC(s, m + 16, 32); }
	if(mu.owner == s.cur && !kind.e && kind.c == 1){ mu.depth++; return true; }
	if(tryOnly) return false;
	if(mu.owner == s.cur) throw PathEnd{"deadlock", "a thread locks a mutex it already holds"};
	return false;
}
void Engine::mutexUnlock(State& s, u64 m){
	Mutex& mu = s.mutexes[m];
	if(mu.owner != s.cur) throw PathEnd{"memory", "unlock of a mutex the thread does not hold"};
	if(--mu.depth == 0){ mu.owner = -1; for(auto& t : s.th) if(t.st == TH_MUTEX && t.waitOn == m) t.st = TH_RUN; }
}
void Engine::block(State& s, ThSt st, u64 on){ Thread& t = s.th[s.cur]; t.st = st; t.waitOn = on; schedule(s, true); }

// ------------------------------------------------------------------------------------------------ exploration
void Engine::writeReplay(State& s, const std::string& file, const std::string& kind, const std::string& msg, const Model& m){
	FILE* f = fopen(file.c_str(), "w"); if(!f) return;
	fprintf(f, "entry %s\nkind %s\nmsg %s\n", entry.c_str(), kind.c_str(), msg.c_str());
	if(kind != "ok") fprintf(f, "where %s\n", stackTrace(s).c_str());
	for(auto& r : s.log){
		bool ok = true; u64 v = r.e ? (u64)evalExpr(r.e, m, ok) : r.c;
		fprintf(f, "v %s %u %llu\n", r.name.c_str(), r.w, (unsigned long long)v);
	}
	for(auto& o : s.obs){
		if(!o.e){ fprintf(f, "o %llu\n", (unsigned long long)o.c); continue; }
		bool ok = true; u64 v = (u64)evalExpr(o.e, m, ok);
		bool und = false; for(u32 i : symsOf(o.e)) if(g_syms[i].undef) und = true;
		if(ok && !und) fprintf(f, "o %llu\n", (unsigned long long)v); else fprintf(f, "o ?\n");
	}
	if(s.explore){ fprintf(f, "S"); for(auto c : s.sched) fprintf(f, " %d", (int)c); fprintf(f, "\n"); }
	fclose(f);
}
void Engine::endPath(State& s, const PathEnd& e){
	__sync_fetch_and_add(&sh->paths, 1);
	__sync_fetch_and_add(&sh->steps, s.steps - s.stepBase);
	npaths++;
	if(e.kind == "ok"){
		u64 k = __sync_fetch_and_add(&sh->okpaths, 1);
		for(auto& r : s.reached) if(res) fprintf(res, "REACH\t%s\n", r.c_str());
		bool keep = k < 4 || (k * 2654435761u + seed * 40503u) % 1024 < (k < 200 ? 120 : k < 5000 ? 12 : 1);
		if(keep){
			u64 n = __sync_fetch_and_add(&sh->replays, 1);
			if(n < 40){
				std::string fn = outdir + "/ok" + std::to_string(n) + ".txt";
				writeReplay(s, fn, "ok", "", *s.model);
				if(res) fprintf(res, "SAMPLE\t%s\n", fn.c_str());
			}
		}
	} else if(e.kind == "assume" || e.kind == "stop"){
	} else if(e.kind == "unmodelled" || e.kind == "error"){
		unknown(e.kind + ": " + e.msg + " | " + stackTrace(s));
	} else {
		// a crash-like end: memory, crash, deadlock, check, stack, steps
		std::string key = e.kind + "|" + e.msg + "|" + stackTrace(s).substr(0, 60);
		__sync_fetch_and_add(&sh->viol, 1);
		if(violCount[key]++ < 2 && sh->nextFile < 400){
			u64 n = __sync_fetch_and_add(&sh->nextFile, 1);
			std::string fn = outdir + "/v" + std::to_string(n) + ".txt";
			writeReplay(s, fn, e.kind, e.msg, *s.model);
			if(res){ fprintf(res, "VIOL\t%s\t%s\t%s\t%s\n", e.kind.c_str(), e.msg.c_str(), fn.c_str(), stackTrace(s).c_str()); }
		}
	}
	if(res) fflush(res);
}
void Engine::runPath(State* s){
	cur = s;
	s->stepBase = s->steps;
	try {
		for(;;){
			step(*s);
			if(++s->steps >= maxSteps) throw PathEnd{"steps", "no end after " + std::to_string(maxSteps) + " steps"};
			if((s->steps & 0xfff) == 0){
				if(sh->stop) throw PathEnd{"stop", ""};
				if(now() - T0 > maxSecs){ if(!sh->stop){ sh->stop = 1; unknown("time limit of " + std::to_string((int)maxSecs) + " s reached"); } throw PathEnd{"stop", ""}; }
			}
		}
	} catch(PathEnd& e){
		endPath(*s, e);
	}
	cur = nullptr;
	delete s;
}
static void flushStats(Engine& E){
	Shared* sh = E.sh;
	__sync_fetch_and_add(&sh->queries, g_sstat.queries); __sync_fetch_and_add(&sh->z3calls, g_sstat.z3calls);
	__sync_fetch_and_add(&sh->sat, g_sstat.sat); __sync_fetch_and_add(&sh->unsat, g_sstat.unsat); __sync_fetch_and_add(&sh->unk, g_sstat.unknown);
	__sync_fetch_and_add(&sh->cachehits, g_sstat.cachehits);
	fprintf(E.res, "SECS\t%.3f\t%.3f\n", g_sstat.secs, g_sstat.maxsecs);
	for(auto f : E.funcs) if(f->executed) fprintf(E.res, "FN\t%s\t%s\t%llu\n", f->name.c_str(), E.fnFile(f).c_str(), (unsigned long long)f->calls);
	fflush(E.res);
	g_sstat = SolverStats();
}
void Engine::run(State* init){
	int pfd[2];
	if(pipe(pfd)){ perror("pipe"); exit(2); }
	pid_t root = getpid();
	sh->running = 1; sh->started = 1;
	pending.push_back(init);
	auto openRes = [&]{ char fn[700]; snprintf(fn, sizeof fn, "%s/res.%d", outdir.c_str(), (int)getpid()); res = fopen(fn, "w"); if(!res){ perror(fn); exit(2); } };
	openRes();
	pid_t first = ::fork();          // the root only waits
	if(first != 0){
		close(pfd[1]);
		char c; while(read(pfd[0], &c, 1) > 0){}
		while(waitpid(-1, nullptr, 0) > 0){}
		fclose(res);
		return;
	}
	(void)root;
	close(pfd[0]); openRes();
	signal(SIGCHLD, SIG_IGN);
	while(!pending.empty()){
		if(sh->stop) break;
		if(maxPaths && sh->paths >= maxPaths){ if(!sh->stop){ sh->stop = 1; unknown("path limit reached"); } break; }
		while(pending.size() >= 2 && (int)sh->running < maxProcs){
			if((int)__sync_add_and_fetch(&sh->running, 1) > maxProcs){ __sync_fetch_and_sub(&sh->running, 1); break; }
			__sync_fetch_and_add(&sh->started, 1);
			fflush(res);
			flushStats(*this);
			// the child takes every other pending state, oldest included
			std::vector<State*> a, b;
			for(size_t i = 0; i < pending.size(); i++) (i % 2 ? b : a).push_back(pending[i]);
			pid_t p = ::fork();
			if(p < 0){ __sync_fetch_and_sub(&sh->running, 1); __sync_fetch_and_sub(&sh->started, 1); break; }
			if(p == 0){
				openRes(); for(auto f : funcs){ f->executed = false; f->calls = 0; }
				for(auto x : b) delete x; 
				pending = a; stateIds += 1000003ull * getpid();
				signal(SIGCHLD, SIG_IGN);
			} else { for(auto x : a) delete x; pending = b; }
		}
		State* s = pending.back(); pending.pop_back();
		runPath(s);
	}
	flushStats(*this);
	fclose(res);
	__sync_fetch_and_add(&sh->finished, 1);
	__sync_fetch_and_sub(&sh->running, 1);
	_exit(0);
}
