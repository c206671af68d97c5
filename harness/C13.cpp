//@ entry h_fixed
//@ entry h_if
//@ entry h_turn
//@ entry h_away reach=end,d0,d1,d2,d3,d4,d5
//@ entry h_absolute
//@ bounds dimensions 1..3; any 64-bit delta before the instruction; any 64-bit operands; every value the random source can return
//@ outside more than 3 dimensions
#include "funge_h.h"
static int D; static int64_t d[3];
static World* setup(char inst, int lo = 1, bool inv = false, int hi = 3){
	D = vp_choose("dims", lo, hi); FungeConfig c = config98(D); c.inverthl = inv; World* w = new World("@", c);
	Vector x; for(int i = 0; i < 3; ++i){ d[i] = i < D ? vp_i64("delta") : 0; x.set(i, d[i]); } w->ip().setDelta(x);
	int64_t g = vp_i64("guard"); w->st().push(g); return w;
}
static void is(World* w, int64_t x, int64_t y, int64_t z, const char* msg, size_t left = 1){
	const Vector& r = w->ip().getDelta(); vp_observe((U)r.get(0)); vp_observe((U)r.get(1)); vp_observe((U)r.get(2));
	vp_check((r.get(0) == x) & (r.get(1) == y) & (r.get(2) == z), msg);
	vp_check(w->st().size() == left, "only the operands are popped"); vp_check(vecIs(w->ip().getPos(), {0}), "the position is not changed");
	vp_reach("end"); vp_end();
}
extern "C" void h_fixed(){
	int k = vp_choose("inst", 0, 6); bool inv = k >= 4 && k < 6 ? vp_choose("invert", 0, 1) : false;
	World* w = setup(0, k >= 4 && k < 6 ? 3 : k >= 2 && k < 4 ? 2 : 1, inv); vp_check(w->ex("><^vhlr"[k]) == ERROR_NONE, "the instruction is implemented");
	switch(k){
		case 0: is(w, 1, 0, 0, "> goes east"); break;
		case 1: is(w, -1, 0, 0, "< goes west"); break;
		case 2: is(w, 0, -1, 0, "^ goes north"); break;
		case 3: is(w, 0, 1, 0, "v goes south"); break;
		case 4: is(w, 0, 0, inv ? -1 : 1, "h goes high"); break;
		case 5: is(w, 0, 0, inv ? 1 : -1, "l goes low"); break;
		default: is(w, wneg(d[0]), wneg(d[1]), wneg(d[2]), "r reverses the delta");
	}
}
extern "C" void h_if(){
	int k = vp_choose("inst", 0, 2); World* w = setup(0, k + 1); int64_t c = 0; bool empty = vp_choose("empty", 0, 1);
	if(empty) w->st().pop(); else { c = vp_i64("cond"); w->st().push(c); }
	vp_check(w->ex("_|m"[k]) == ERROR_NONE, "the instruction is implemented"); int64_t s = c == 0 ? 1 : -1;
	is(w, k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0, "a conditional goes on zero one way, on any other value the other", empty ? 0 : 1);
}
extern "C" void h_turn(){
	int k = vp_choose("inst", 0, 2); World* w = setup(0, 2, false, 3); int64_t a = 0, b = 0; if(D == 3) vp_assume(d[2] == 0);
	if(k == 2){ a = vp_i64("a"); b = vp_i64("b"); w->st().push(a); w->st().push(b); }
	vp_check(w->ex("[]w"[k]) == ERROR_NONE, "the instruction is implemented");
	int t = k == 0 ? -1 : k == 1 ? 1 : a < b ? -1 : a > b ? 1 : 0;
	if(t < 0) is(w, d[1], wneg(d[0]), 0, "turn left"); else if(t > 0) is(w, wneg(d[1]), d[0], 0, "turn right"); else is(w, d[0], d[1], d[2], "w goes straight on equal operands");
}
extern "C" void h_away(){
	World* w = setup(0); vp_check(w->ex('?') == ERROR_NONE, "? succeeds"); const Vector& r = w->ip().getDelta(); int n = 0, k = -1;
	for(int i = 0; i < 3; ++i) for(int s = 0; s < 2; ++s) if((r.get(i) == (s ? 1 : -1)) & (r.get((i + 1) % 3) == 0) & (r.get((i + 2) % 3) == 0)){ ++n; k = i * 2 + s; }
	vp_check(n == 1, "? picks one of the cardinal directions"); vp_check(k < 2 * D, "of the dimensions of the program");
	if(D == 3) vp_reach(k == 0 ? "d0" : k == 1 ? "d1" : k == 2 ? "d2" : k == 3 ? "d3" : k == 4 ? "d4" : "d5");
	vp_check(w->st().size() == 1, "no operands"); vp_reach("end"); vp_end();
}
extern "C" void h_absolute(){
	World* w = setup(0); int64_t x[3] = {0, 0, 0}; int n = vp_choose("given", 0, D); if(n < D) w->st().pop();
	for(int i = 0; i < n; ++i){ int64_t q = vp_i64("x"); w->st().push(q); x[D - n + i] = q; }
	vp_check(w->ex('x') == ERROR_NONE, "x succeeds"); is(w, x[0], x[1], x[2], "x sets the delta to the vector popped", n < D ? 0 : 1);
}
