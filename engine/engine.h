// fsym: symbolic executor for LLVM IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <memory>
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <cstring>

namespace llvm { class Function; class Instruction; }

// A value of at most 64 bits is concrete (e == nullptr) or an expression; wider values are always expressions.
struct Val { Expr* e; u64 c; };
static inline Val VC(u64 c){ return Val{nullptr, c}; }

// ------------------------------------------------------------------------------------------------ memory
struct SymB { Expr* e; u8 i; };
enum { T_CONC = 0, T_UNDEF = 1, T_SYM = 2 };
enum ObjKind : u8 { OK_HEAP, OK_STACK, OK_GLOBAL, OK_FUNC };
struct Obj {
	int rc = 1;
	u64 size = 0;
	ObjKind kind = OK_HEAP;
	u8 akind = 0;                 // allocator family: 1 malloc 2 new 3 new[]
	bool ro = false;
	std::vector<u8> b;
	std::vector<u8> tag;          // empty: all concrete
	std::vector<SymB> sym;        // empty: no symbolic byte
};
static const unsigned OSHIFT = 28;
static const u64 OBASE = 1u << 26;
static inline u64 objAddr(u64 id){ return (id << OSHIFT) + OBASE; }
static inline u64 addrObj(u64 a){ return a >> OSHIFT; }
static inline i64 addrOff(u64 a){ return (i64)(a & ((1ull << OSHIFT) - 1)) - (i64)OBASE; }
static const unsigned CHUNK = 128;
struct Chunk { int rc = 1; Obj* o[CHUNK] = {}; u8 freed[CHUNK] = {}; };
struct Mem {
	std::vector<Chunk*> ch;
	u64 next = 1;
	Mem(){}
	Mem(const Mem& m) : ch(m.ch), next(m.next) { for(auto c : ch) c->rc++; }
	Mem& operator=(const Mem&) = delete;
	~Mem(){ for(auto c : ch) drop(c); }
	static void drop(Chunk* c){ if(--c->rc == 0){ for(auto o : c->o) if(o && --o->rc == 0) delete o; delete c; } }
	Obj* get(u64 id) const { u64 k = id / CHUNK; if(k >= ch.size()) return nullptr; return ch[k]->o[id % CHUNK]; }
	bool wasFreed(u64 id) const { u64 k = id / CHUNK; return k < ch.size() && ch[k]->freed[id % CHUNK]; }
	Chunk* own(u64 k){
		Chunk* c = ch[k];
		if(c->rc > 1){ Chunk* n = new Chunk(*c); n->rc = 1; for(auto o : n->o) if(o) o->rc++; c->rc--; ch[k] = n; c = n; }
		return c;
	}
	Obj* getW(u64 id){
		u64 k = id / CHUNK; if(k >= ch.size()) return nullptr;
		Obj* o = ch[k]->o[id % CHUNK]; if(!o) return nullptr;
		if(ch[k]->rc > 1 || o->rc > 1){
			Chunk* c = own(k); o = c->o[id % CHUNK];
			if(o->rc > 1){ Obj* n = new Obj(*o); n->rc = 1; o->rc--; c->o[id % CHUNK] = n; o = n; }
		}
		return o;
	}
	u64 alloc(u64 size, ObjKind kind, bool undef){
		u64 id = next++;
		u64 k = id / CHUNK;
		while(ch.size() <= k) ch.push_back(new Chunk);
		Chunk* c = own(k);
		Obj* o = new Obj; o->size = size; o->kind = kind; o->b.assign(size, 0); if(undef) o->tag.assign(size, T_UNDEF);
		c->o[id % CHUNK] = o;
		return id;
	}
	void release(u64 id){
		u64 k = id / CHUNK; Chunk* c = own(k); Obj* o = c->o[id % CHUNK];
		if(o){ if(--o->rc == 0) delete o; c->o[id % CHUNK] = nullptr; c->freed[id % CHUNK] = 1; }
	}
};

// ------------------------------------------------------------------------------------------------ code
enum DOp : u8 {
	D_BIN, D_ICMP, D_TRUNC, D_ZEXT, D_SEXT, D_COPY, D_FP, D_FCMP, D_FCONV, D_ALLOCA, D_LOAD, D_STORE, D_GEP, D_SELECT,
	D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_UNREACH, D_RESUME, D_LPAD, D_EXTRACTV, D_INSERTV, D_RMW, D_CMPXCHG, D_NOP, D_VAARG, D_BAD
};
struct Leaf { u32 off; u32 w; };
struct Edge { u32 target; u32 first; u32 n; };      // phi copies [first, first+n) in Func::copies
struct Copy { u32 dst; i32 src; u32 n; };
struct Func;
struct LPad { bool cleanup; std::vector<u64> catches; bool catchAll; };
struct DInst {
	DOp op; u8 sub; u16 w; u16 w2; u16 flags;
	u32 dst; u32 nops; u32 ops;        // operands in Func::ops
	u64 imm;
	u32 e0, e1;                        // edges (br, invoke normal / unwind)
	Func* callee;                      // direct call target
	std::vector<Leaf>* leaves;
	LPad* lpad;
	std::vector<std::pair<u128,u32>>* cases;
	const llvm::Instruction* src;
};
struct Engine; struct State; struct Thread;
typedef std::function<void(Engine&, State&, const DInst&, std::vector<Val>&)> Hook;
struct Func {
	std::string name;
	llvm::Function* f = nullptr;
	bool decoded = false, executed = false, vararg = false;
	u64 id = 0;                        // object id
	Hook* hook = nullptr;
	u32 nargs = 0; u32 nslots = 0;
	std::vector<u32> argw;             // slots per argument
	std::vector<u32> argn;
	u32 retn = 0; u32 retw = 0;
	std::vector<DInst> code;
	std::vector<i32> ops;
	std::vector<u64> aux;
	std::vector<Val> consts;
	std::vector<Copy> copies;
	std::vector<Edge> edges;
	u64 calls = 0;
};

struct Frame {
	Func* f; u32 pc; u32 base;
	u32 retdst; u32 retn; bool invoke; u32 nedge, uedge;
	std::vector<u64> allocas;
	std::vector<Val> va;
	Val exc[2] = {};
	u64 vaobj = 0;
};
enum ThSt : u8 { TH_RUN, TH_MUTEX, TH_COND, TH_JOIN, TH_DONE };
struct Thread {
	std::vector<Frame> fr;
	std::vector<Val> vs;
	ThSt st = TH_RUN;
	u64 waitOn = 0, waitMutex = 0;
	bool relock = false;      // woken from a condition variable: take waitMutex before continuing
	std::vector<u64> caught;  // exception objects being handled
	std::vector<u32> vc;      // vector clock
	bool yielded = false;
};
struct SymRec { std::string name; unsigned w; Expr* e; u64 c; };
struct Mutex { int owner = -1; u32 depth = 0; std::vector<u32> vc; };

struct State {
	u64 id = 0;
	Mem mem;
	std::vector<Thread> th;
	int cur = 0;
	std::vector<Expr*> pcs;
	std::shared_ptr<Model> model;
	std::vector<SymRec> log;
	std::vector<Val> obs;
	std::map<u64, Mutex> mutexes;
	std::vector<u8> sched;       // chosen thread at each scheduling decision
	int preempts = 0;            // preemption budget left; -1: no schedule exploration
	bool explore = false;
	u64 steps = 0, forks = 0;
	u64 conc = 0;
	u64 stepBase = 0;
	std::vector<std::string> reached;
	std::map<u64, std::vector<std::pair<u64,u64>>> races;
	std::string pathKey;
	bool replayOnlySched = false;
	State() : model(std::make_shared<Model>()) {}
	State(const State&) = default;
};

struct PathEnd { std::string kind; std::string msg; };   // thrown to end the current path

struct Violation { std::string kind, msg, where; };
struct Shared;   // counters shared by the worker processes
struct Engine {
	std::vector<Func*> funcs;                       // by index
	std::unordered_map<std::string, Func*> fnByName;
	std::unordered_map<u64, Func*> fnById;          // object id -> function
	std::unordered_map<std::string, u64> globalAddr;
	std::unordered_map<std::string, Hook> hooks;
	std::vector<std::pair<u32, Func*>> ctors;
	std::vector<State*> pending;
	std::string entry, outdir, srcPrefix;
	u64 maxSteps = 40000000;      // instructions on one path
	u64 maxPaths = 0;             // 0: no limit
	double maxSecs = 800;
	u64 seed = 1;
	int maxProcs = 8;
	u64 sampleMod = 1;
	bool verbose = false;
	Shared* sh = nullptr;

	// decode.cpp
	void load(const std::string& bc, State& init);
	void decode(Func* f);
	std::string where(const DInst& i);
	std::string fnFile(Func* f);
	// exec.cpp
	void setupHooks();
	void run(State* init);                          // explore everything from init
	void runPath(State* s);
	void step(State& s);
	void call(State& s, Func* f, const std::vector<Val>& args, u32 dst, u32 retn, bool invoke, u32 ne, u32 ue);
	void doReturn(State& s, const std::vector<Val>& rv);
	void doCall(State& s, const DInst& i);
	void jump(State& s, u32 edge);
	void throwExc(State& s, u64 exc);
	std::string stackTrace(State& s);
	// values
	Expr* ex(const Val& v, unsigned w){ return v.e ? v.e : mkConst(v.c, w); }
	Val mk(Expr* e){ if(isC(e) && e->w <= 64) return VC((u64)e->c); return Val{e, 0}; }
	// decisions
	bool decide(State& s, Expr* c);                 // branch on a 1-bit expression, forking when both sides are possible
	void assume(State& s, Expr* c);
	bool feasible(State& s, Expr* c, Model* out=nullptr);  // may c hold?
	u64 concretize(State& s, Val v, unsigned w, const char* why); // fork over the values
	u64 modelVal(State& s, Expr* e, bool& ok);
	void addPc(State& s, Expr* c);
	void unknown(const std::string& what);
	// memory
	Val load(State& s, const Val& p, unsigned w, bool atomic=false);
	void store(State& s, const Val& p, const Val& v, unsigned w);
	Val loadC(State& s, u64 a, unsigned w);
	void storeC(State& s, u64 a, const Val& v, unsigned w);
	Val objRead(Obj* o, u64 off, unsigned w, State& s);
	void objWrite(Obj* o, u64 off, const Val& v, unsigned w);
	u64 checkAddr(State& s, u64 a, u64 n, bool write, const char* what);   // -> object id
	u64 resolve(State& s, const Val& p, u64 n, bool write, Expr*& symOff);  // concrete address, or object with symbolic offset
	void memCopy(State& s, u64 d, u64 src, u64 n);
	std::string cstr(State& s, u64 a);
	void release(State& s, u64 a, u8 fam);
	// threads
	void block(State& s, ThSt st, u64 on);
	void schedule(State& s, bool voluntary);
	void preempt(State& s);
	void ret(State& s, const DInst& d, const std::vector<Val>& v);
	bool mutexLock(State& s, u64 m, bool tryOnly=false);
	void mutexUnlock(State& s, u64 m);
	// results
	void endPath(State& s, const PathEnd& e);
	void writeReplay(State& s, const std::string& file, const std::string& kind, const std::string& msg, const Model& m);
	State* fork(State& s);
	State* cur = nullptr;
	std::map<std::string, u64> violCount;
	FILE* res = nullptr;
	u64 npaths = 0;
};
struct Shared {
	volatile u64 running, started, finished, paths, okpaths, steps, forks, viol, unknownq, incomplete, checks, checksSolver, replays, nextFile;
	volatile u64 queries, z3calls, sat, unsat, unk, cachehits; volatile double secs, maxsecs;
	volatile int stop;
};
std::string hex(u64 v);
