//@ entry h_toggle
//@ entry h_stacks
//@ entry h_hover
//@ entry h_switch
//@ entry h_mirrors
//@ entry h_fisherman
//@ entry h_shift
//@ entry h_select
//@ entry h_conditional
//@ entry h_dive
//@ bounds every sequence of 3 toggles of the four modes; stacks of up to 4 arbitrary cells; deltas arbitrary; two IPs and up to 3 stacks; fisherman sequences of 4 instructions
//@ outside FISH mirrors in hover mode; stacks too long for the memory
#include "funge_h.h"
static const uint64_t MODE = 0x4D4F4445, FISH = 0x46495348;
static FungeConfig with(uint64_t fp, size_t d = 2){ FungeConfig c = config98(d); c.fingerprints.push_back(fp); return c; }
static bool flag[4];       // H I Q S
static void modes(World& w, int n){ for(int i = 0; i < 4; ++i) flag[i] = false; for(int i = 0; i < n; ++i){ int k = vp_choose("mode", 0, 3); flag[k] ^= 1; vp_check(w.ex("HIQS"[k]) == ERROR_NONE, "MODE succeeds"); } }
static void setModes(World& w, int q, int i){ if(q) w.ex('Q'); if(i) w.ex('I'); }
// a stack as the modes make it: cells from the bottom
struct M { int64_t v[16]; int n = 0; void push(int64_t x, bool inv){ if(inv){ for(int i = n; i > 0; --i) v[i] = v[i - 1]; v[0] = x; ++n; } else v[n++] = x; } int64_t pop(bool queue){ if(!n) return 0; if(queue){ int64_t x = v[0]; --n; for(int i = 0; i < n; ++i) v[i] = v[i + 1]; return x; } return v[--n]; } };
static void use(Stack& s, M& m, bool q, bool inv, int n, const char* msg){ for(int i = 0; i < n; ++i){ int64_t x = vp_i64("x"); s.push(x); m.push(x, inv); } int ok = 1; for(int i = 0; i < n; ++i) ok &= s.pop() == m.pop(q); vp_check(ok, msg); }
extern "C" void h_toggle(){
	World w("@", with(MODE)); int64_t g[2]; pushSyms(w.st(), g, 2); size_t id = w.r->getID(); bool other = vp_choose("other", 0, 1); if(other) w.uni->createRunner(Vector{0}, Vector{1}); modes(w, 3); if(!other) w.uni->createRunner(Vector{0}, Vector{1}); FungeRunner* o = w.uni->getRunner(id + 1); vp_check(o != nullptr, "other IP"); if(!o) vp_end();
	static const FungeMode m[4] = {FUNGE_MODE_HOVER, FUNGE_MODE_INVERT, FUNGE_MODE_QUEUE, FUNGE_MODE_SWITCH}; for(int i = 0; i < 4; ++i) vp_check(o->isMode(m[i]) == flag[i] && w.r->isMode(m[i]) == flag[i], "each letter turns its own mode on and off, for every IP");
	M t; use(o->getStack().top(), t, flag[2], flag[1], 3, "the stacks of every IP follow the modes"); w.uni->toggleMode(FUNGE_MODE_QUEUE); if(!flag[2]) w.uni->toggleMode(FUNGE_MODE_QUEUE); // back to stack order
	vp_check(w.st().size() == 2, "toggling keeps the cells"); vp_reach("end"); vp_end();
}
extern "C" void h_stacks(){
	// stacks made while a mode is on follow it, too, and so do those below
	World w("@", with(MODE)); w.uni->createRunner(Vector{0}, Vector{1}); FungeRunner* r = w.uni->getRunner(w.r->getID() + 1); int q = vp_choose("queue", 0, 1), inv = vp_choose("invert", 0, 1), when = vp_choose("when", 0, 2); StackStack& ss = r->getStack();
	auto set = [&]{ if(q) r->execute('Q'); if(inv) r->execute('I'); }; auto open = [&]{ ss.top().clear(); r->execute('0'); r->execute('{'); }; auto close = [&]{ ss.top().clear(); r->execute('0'); r->execute('}'); };
	if(when == 0) set(); open(); if(when == 1) set(); open(); if(when == 2) set(); vp_check(ss.size() == 3, "blocks are open"); if(ss.size() != 3) vp_end();
	for(int i = 3; i > 0; --i){ ss.top().clear(); M a; use(ss.top(), a, q, inv, 3, i == 3 ? "a stack follows the modes, whenever it was made" : "and so do the stacks below"); if(i > 1) close(); }
	FungeRunner* c = nullptr; w.uni->cloneRunner(*r); c = w.uni->getRunner(w.r->getID() + 2); vp_check(c != nullptr, "clone"); if(!c) vp_end(); c->getStack().top().clear(); c->execute('0'); c->execute('{'); M b; use(c->getStack().top(), b, q, inv, 3, "and those of a new IP"); vp_reach("end"); vp_end();
}
extern "C" void h_hover(){
	int D = vp_choose("dims", 1, 3); World w("@", with(MODE, D)); int64_t d[3] = {0, 0, 0}; Vector v; for(int i = 0; i < D; ++i){ d[i] = vp_i64("d"); v.set(i, d[i]); } w.ip().setDelta(v); w.ex('H');
	int k = vp_choose("op", 0, D == 1 ? 2 : D == 2 ? 5 : 8); int64_t c = vp_i64("c"); static const char ops[] = "<>_^v|hlm"; int ax = k / 3, s = k % 3 == 0 ? -1 : k % 3 == 1 ? 1 : 0; if(k >= 6) s = k == 6 ? 1 : k == 7 ? -1 : 0;
	if(s == 0){ w.st().push(c); s = c == 0 ? 1 : -1; }
	vp_check(w.ex(ops[k]) == ERROR_NONE, "moves"); const Vector& q = w.ip().getDelta(); for(int i = 0; i < 3; ++i) vp_check(q.get(i) == (i == ax ? wadd(d[i], s) : d[i]), "in hover mode a direction is added to the delta"); w.ex('H'); w.ex('>'); vp_check(vecIs(w.ip().getDelta(), {1}), "and no longer when it is off"); vp_reach("end"); vp_end();
}
extern "C" void h_switch(){
	World w("x\n@", with(MODE)); bool on = vp_choose("on", 0, 1); if(on) w.ex('S'); int k = vp_choose("op", 0, 5); int64_t x = vp_i64("x"), y = vp_i64("y"); w.ip().setDelta(Vector{x, y});
	static const char ops[] = "[]{}()"; if(k == 3){ w.ss().push(); } w.st().push(k >= 4 ? 0 : 1); w.field().put(Vector{0}, ops[k]); FungeError e = w.ex(ops[k]); vp_check(w.field().get(Vector{0}) == (on ? ops[k ^ 1] : ops[k]), "in switch mode a bracket turns into its counterpart when it is executed");
	if(k == 0) vp_check(vecIs(w.ip().getDelta(), {y, wneg(x)}), "and still does what it says"); if(k == 1) vp_check(vecIs(w.ip().getDelta(), {wneg(y), x}), "and still does what it says"); if(k == 2) vp_check(w.ss().size() == 2, "and still does what it says"); if(k == 3) vp_check(w.ss().size() == 1, "and still does what it says"); (void)e; vp_reach("end"); vp_end();
}
extern "C" void h_mirrors(){
	World w("@", with(FISH)); int64_t x = vp_i64("x"), y = vp_i64("y"), g = vp_i64("g"); w.st().push(g); w.ip().setDelta(Vector{x, y}); int k = vp_choose("op", 0, 3); vp_check(w.ex("HVMN"[k]) == ERROR_NONE, "mirrors");
	vp_check(k == 0 ? vecIs(w.ip().getDelta(), {x, wneg(y)}) : k == 1 ? vecIs(w.ip().getDelta(), {wneg(x), y}) : k == 2 ? vecIs(w.ip().getDelta(), {wneg(y), wneg(x)}) : vecIs(w.ip().getDelta(), {y, x}), "H, V, M and N mirror the delta as _ | / and \\ do in ><>"); vp_check(stackIs(w.st(), &g, 1), "and leave the stack alone"); vp_reach("end"); vp_end();
}
extern "C" void h_fisherman(){
	World w("@", with(FISH)); int64_t dx = 1; int down = 1; int64_t x = 1, y = 0;
	for(int i = 0; i < (VP_THOROUGH ? 6 : 5); ++i) switch(vp_choose("op", 0, 3)){
		case 0: w.ex('F'); if(y == 0){ x = 0; y = down ? 1 : -1; down = !down; } else { x = dx; y = 0; } vp_check(vecIs(w.ip().getDelta(), {x, y}), "F turns a horizontal IP down and up in turn, and a vertical one back to its last horizontal delta"); break;
		case 1: { int64_t d = vp_i64("dx"); vp_assume(d != 0); w.ip().setDelta(Vector{d, 0}); x = dx = d; y = 0; } break;
		case 2: { int64_t d = vp_i64("dy"); vp_assume(d != 0); w.ip().setDelta(Vector{0, d}); x = 0; y = d; } break;
		default: { int64_t d = vp_i64("fx"), f = vp_i64("fy"); vp_assume((d != 0) & (f != 0)); w.ip().setDelta(Vector{d, f}); x = d; y = f; }
	}
	vp_reach("end"); vp_end();
}
extern "C" void h_shift(){
	World w("@", with(FISH)); int n = vp_choose("n", 0, 4), k = vp_choose("op", 0, 3); int64_t v[4], e[5]; pushSyms(w.st(), v, n); vp_check(w.ex("LRST"[k]) == ERROR_NONE, "succeeds"); int m = n;
	if(k == 0) for(int i = 0; i < n; ++i) e[i] = v[(i + 1) % n]; else if(k == 1) for(int i = 0; i < n; ++i) e[i] = v[(i + n - 1) % n]; else if(k == 2) for(int i = 0; i < n; ++i) e[i] = v[n - 1 - i];
	else { m = 0; for(; m < n - 3; ++m) e[m] = v[m]; e[m++] = ref(v, n, 1); e[m++] = ref(v, n, 3); e[m++] = ref(v, n, 2); }
	vp_check(stackIs(w.st(), e, m), "L and R rotate the stack, S reverses it, T rotates the top three cells"); vp_check(vecIs(w.ip().getDelta(), {1}), "delta is kept"); vp_reach("end"); vp_end();
}
extern "C" void h_select(){
	World w("@", with(FISH)); int k = vp_choose("stacks", 1, 3); int64_t id[3]; for(int i = 0; i < k; ++i){ if(i) w.ss().push(); id[k - 1 - i] = vp_i64("mark"); w.st().push(id[k - 1 - i]); } int at = 0;
	for(int i = 0; i < 4; ++i){ bool dec = vp_choose("D", 0, 1); FungeError e = w.ex(dec ? 'D' : 'I'); bool can = dec ? at < k - 1 : at > 0; vp_check((e == ERROR_NONE) == can, "D and I reflect at either end"); if(can) at += dec ? 1 : -1; vp_check(stackIs(w.st(), &id[at], 1), "D selects the stack below, I the one above"); }
	vp_check(w.ss().size() == (size_t)k, "the stacks stay"); vp_reach("end"); vp_end();
}
extern "C" void h_conditional(){
	World w("C12@", with(FISH)); int64_t g = vp_i64("g"), c = vp_i64("c"); w.st().push(g); w.st().push(c); w.tick(); w.tick(); int64_t e[2] = {g, c ? 1 : 2}; vp_check(stackIs(w.st(), e, 2), "C skips the next cell if it pops 0"); vp_reach("end"); vp_end();
}
extern "C" void h_dive(){
	int n = vp_choose("n", 0, 3); static const char set[] = "1+:$"; std::string in; for(int i = 0; i < n; ++i) in += set[vp_choose("c", 0, 3)]; World w("U" + in + "O3U@", with(FISH)); int64_t v[2], e[3]; pushSyms(w.st(), v, 2); w.tick(); w.tick(); w.tick(); e[0] = v[0]; e[1] = v[1]; e[2] = 3;
	vp_check(stackIs(w.st(), e, 3), "between U and O nothing is executed"); vp_check(vecIs(w.ip().getDelta(), {1}) & vecIs(w.ip().getPos(), {n + 3}), "the IP passes over it"); w.ex('U'); w.ip().setDelta(Vector{3, 3}); static const int64_t d[4][2] = {{1, 0}, {-1, 0}, {0, -1}, {0, 1}}; int k = vp_choose("dir", 0, 3);
	vp_check(w.ex("><^v"[k]) == ERROR_NONE, "directions do act"); vp_check(vecIs(w.ip().getDelta(), {d[k][0], d[k][1]}), "directions do act"); vp_reach("end"); vp_end();
}
