// Helpers for harnesses that drive the interpreter through its public classes.
#pragma once
#include "vp.h"
#include "FungeUniverse.h"
#include "FungeRunner.h"
#include "FungeConfig.h"
#include "FungeMultiverse.h"
#include "FungeSemantic.h"
#include "Field.h"
#include "Vector.h"
#include "Stack.h"
#include "StackStack.h"
#include "InstructionPointer.h"
#include <sstream>
#include <string>
#include <initializer_list>
#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
using namespace Funge;
typedef uint64_t U;
static inline int64_t wadd(int64_t a, int64_t b){ return (int64_t)((U)a + (U)b); }
static inline int64_t wsub(int64_t a, int64_t b){ return (int64_t)((U)a - (U)b); }
static inline int64_t wmul(int64_t a, int64_t b){ return (int64_t)((U)a * (U)b); }
static inline int64_t wneg(int64_t a){ return (int64_t)(0 - (U)a); }
static const int64_t I64MIN = (int64_t)0x8000000000000000ull, I64MAX = 0x7fffffffffffffffll;

static inline FungeConfig config98(size_t dim = 2){ FungeConfig c; c.standard = FUNGE_98; c.dimensions = dim; c.name = "u"; return c; }
static inline FungeConfig config93(){ FungeConfig c; c.standard = FUNGE_93; c.dimensions = 2; c.topo = TOPO_TORUS; c.cells = CELL_CHAR; c.strings = STRING_MULTISPACE; c.name = "u"; return c; }
static inline FungeConfig configFish(bool star = false){ FungeConfig c; c.standard = star ? FUNGE_STARFISH : FUNGE_FISH; c.dimensions = 2; c.name = "u"; return c; }
// A universe with one IP that is stepped by the harness.  The universe's own thread stays blocked.
struct World {
	FungeUniverse* uni; FungeRunner* r; std::istringstream* in;
	World(const std::string& prog, const FungeConfig& cfg, const Vector& pos = Vector{0}, const Vector& delta = Vector{1}){
		in = new std::istringstream(prog);
		uni = new FungeUniverse(*in, Field::FORMAT_BF, cfg);
		r = new FungeRunner(*uni, pos, delta);
	}
	Stack& st(){ return r->getStack().top(); }
	StackStack& ss(){ return r->getStack(); }
	Field& field(){ return uni->getField(); }
	InstructionPointer& ip(){ return r->getIP(); }
	FungeError ex(int64_t i){ return r->execute(i); }
	void tick(){ r->tick(); }
};
// arbitrary 64-bit values pushed on a stack; v[0] is the bottom
static inline void pushSyms(Stack& s, int64_t* v, int n, const char* name = "s"){ for(int i = 0; i < n; ++i){ v[i] = vp_i64(name); s.push(v[i]); } }
// value at depth d (1 = top) of a stack holding v[0..n)
static inline int64_t ref(const int64_t* v, int n, int d){ return d <= n ? v[n - d] : 0; }
// the stack holds exactly v[0..n), v[0] at the bottom
static inline int stackIs(const Stack& s, const int64_t* v, int n){
	if(s.size() != (size_t)n) return 0;
	int ok = 1;
	for(int i = 0; i < n; ++i) ok &= s.get(i + 1) == v[n - 1 - i];
	return ok;
}
// component-wise comparison on dimensions 0..n-1, without using the code's own operators
static inline int vecIs(const Vector& v, std::initializer_list<int64_t> c){ int ok = 1; size_t i = 0; for(auto x : c){ ok &= v.get(i) == x; ++i; } for(; i < v.size(); ++i) ok &= v.get(i) == 0; return ok; }
