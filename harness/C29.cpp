//@ entry h_call
//@ entry h_routine
//@ entry h_stacks
//@ entry h_fisherman
//@ entry h_dive
//@ entry h_time
//@ entry h_file_read
//@ entry h_file_write
//@ entry h_sleep
//@ entry h_fish
//@ bounds call addresses and positions any 32-bit integers; sequences of 5 (thorough 6) of C R [ ] I D & with stacks of up to 4 cells; fisherman sequences of 5; files of 0..3 arbitrary bytes; any time of the day
//@ outside registers of stacks reached by I and D
#include "funge_h.h"
static int64_t bits(double d){ int64_t r; __builtin_memcpy(&r, &d, 8); return r; }
static int64_t real(const char* n){ int64_t r = vp_i64(n); vp_assume(((uint64_t)r >> 52 & 0x7ff) != 0x7ff); return r; }
extern "C" void h_call(){
	World w(";", configFish(true)); int n = vp_choose("depth", 0, 3), extra = vp_choose("results", 0, 2); int64_t v[6]; for(int i = 0; i < n; ++i){ v[i] = real("s"); w.st().push(v[i]); } int32_t x = vp_i32("x"), y = vp_i32("y"), px = vp_i32("px"), py = vp_i32("py"); int64_t dx = vp_i64("dx"), dy = vp_i64("dy"); w.ip().setPos(Vector{px, py}); w.ip().setDelta(Vector{dx, dy});
	w.st().push(bits(x)); w.st().push(bits(y)); vp_check(w.ex('C') == ERROR_NONE, "C succeeds"); vp_check(vecIs(w.ip().getPos(), {x, y}) & vecIs(w.ip().getDelta(), {dx, dy}), "C goes to the address popped"); vp_check(stackIs(w.st(), v, n), "and leaves the rest of the stack in place");
	int take = n && vp_choose("take", 0, 1); if(take){ vp_check(w.ex('~') == ERROR_NONE, "the routine takes arguments"); --n; } for(int i = 0; i < extra; ++i){ vp_check(w.ex('1' + i) == ERROR_NONE, "and makes results"); v[n++] = bits(i + 1); }
	w.ip().setPos(Vector{vp_i32("qx"), 3}); vp_check(w.ex('R') == ERROR_NONE, "R succeeds"); vp_check(vecIs(w.ip().getPos(), {px, py}), "R returns to the call"); vp_check(w.ss().size() == 1, "the return address is gone"); vp_check(stackIs(w.st(), v, n), "and the stack is as the routine left it"); vp_check(w.ex('R') == ERROR_UNSPEC, "R without a call is an error"); vp_reach("end"); vp_end();
}
extern "C" void h_routine(){
	// calls inside calls return in order, whatever the depth
	int k = vp_choose("depth", 1, 3); World w(";", configFish(true)); int64_t g = real("g"); w.st().push(g); int32_t p[3]; for(int i = 0; i < k; ++i){ p[i] = vp_i32("p"); w.ip().setPos(Vector{p[i], i}); w.st().push(bits(i)); w.st().push(bits(7)); vp_check(w.ex('C') == ERROR_NONE, "C succeeds"); vp_check(vecIs(w.ip().getPos(), {i, 7}), "C goes there"); }
	for(int i = k - 1; i >= 0; --i){ vp_check(w.ex('R') == ERROR_NONE, "R succeeds"); vp_check(vecIs(w.ip().getPos(), {p[i], i}), "calls return in reverse order"); } vp_check(w.ss().size() == 1 && stackIs(w.st(), &g, 1), "and leave the stack alone"); vp_reach("end"); vp_end();
}
// all instructions that make, remove, select or use stacks, in any order
extern "C" void h_stacks(){
	World w(";", configFish(true)); struct S { int64_t v[16]; int n = 0; }; S m[8]; int k = 1, sel = 0; for(int i = 0; i < 2; ++i){ int64_t x = real("s"); m[0].v[m[0].n++] = x; w.st().push(x); } bool regs = true; (void)regs;
	for(int step = 0; step < (VP_THOROUGH ? 6 : 5); ++step){
		int op = vp_choose("op", 0, 6); S& t = m[sel]; bool below = sel + 1 < k; FungeError e; bool ok = true;      // m[0] is the topmost
		switch(op){
			case 0: { int64_t x = bits(step), y = bits(9); t.v[t.n] = x; t.v[t.n + 1] = y; w.st().push(x); w.st().push(y); w.ip().setPos(Vector{step + 20, 5}); e = w.ex('C'); for(int i = k; i > sel + 1; --i) m[i] = m[i - 1]; ++k; S& u = m[sel + 1]; u.n = 0; u.v[u.n++] = bits(step + 20); u.v[u.n++] = bits(5); break; }
			case 1: { e = w.ex('R'); ok = below && m[sel + 1].n >= 2; if(ok){ m[sel + 1] = S(); for(int i = sel + 1; i + 1 < k; ++i) m[i] = m[i + 1]; --k; } break; }
			case 2: { int n = vp_choose("n", 0, 1); w.st().push(bits(n)); e = w.ex('['); ok = n <= t.n; if(ok){ for(int i = k; i > sel; --i) m[i] = m[i - 1]; ++k; m[sel] = S(); if(n) m[sel].v[m[sel].n++] = m[sel + 1].v[--m[sel + 1].n]; } break; }
			case 3: { e = w.ex(']'); ok = below; if(ok){ S& u = m[sel + 1]; while(t.n) u.v[u.n++] = t.v[--t.n]; for(int i = sel; i + 1 < k; ++i) m[i] = m[i + 1]; --k; } break; }
			case 4: e = w.ex('I'); ok = sel > 0; if(ok) --sel; break;
			case 5: e = w.ex('D'); ok = below; if(ok) ++sel; break;
			default: { int64_t x = bits(step + 40); w.ex('&'); w.st().clear(); t.n = 0; t.v[t.n++] = x; w.st().push(x); e = ERROR_NONE; }
		}
		vp_check(e == (ok ? ERROR_NONE : ERROR_UNSPEC), "an instruction that needs a stack that is not there is an error, and no other"); if(!ok){ vp_reach("end"); vp_end(); }
		vp_check(w.ss().size() == (size_t)k, "stacks are made and removed one at a time"); if(w.ss().size() != (size_t)k) vp_end(); for(int i = 0; i < k; ++i) vp_check(stackIs(w.ss().at(i), m[i].v, m[i].n), "every stack keeps its place and its cells"); vp_check(&w.ss().top() == &w.ss().at(sel), "and the selected one stays selected");
	}
	vp_reach("end"); vp_end();
}
extern "C" void h_fisherman(){
	World w("@", configFish(true)); int64_t dx = 1; int down = 1; int64_t x = 1, y = 0;
	for(int i = 0; i < (VP_THOROUGH ? 6 : 5); ++i) switch(vp_choose("op", 0, 3)){
		case 0: w.ex('`'); if(y == 0){ x = 0; y = down ? 1 : -1; down = !down; } else { x = dx; y = 0; } vp_check(vecIs(w.ip().getDelta(), {x, y}), "` turns a horizontal IP down and up in turn, and a vertical one back to its last horizontal delta"); break;
		case 1: { int64_t d = vp_i64("dx"); vp_assume(d != 0); w.ip().setDelta(Vector{d, 0}); x = dx = d; y = 0; } break;
		case 2: { int64_t d = vp_i64("dy"); vp_assume(d != 0); w.ip().setDelta(Vector{0, d}); x = 0; y = d; } break;
		default: { int64_t d = vp_i64("fx"), f = vp_i64("fy"); vp_assume((d != 0) & (f != 0)); w.ip().setDelta(Vector{d, f}); x = d; y = f; }
	}
	vp_reach("end"); vp_end();
}
extern "C" void h_dive(){
	int n = vp_choose("n", 0, 3); static const char set[] = "1+~oz"; std::string in; for(int i = 0; i < n; ++i) in += set[vp_choose("c", 0, 4)]; World w("u" + in + "O3;", configFish(true)); int64_t v[2]; for(int i = 0; i < 2; ++i){ v[i] = real("s"); w.st().push(v[i]); }
	for(int i = 0; i < n + 3; ++i) w.tick(); int64_t e[3] = {v[0], v[1], bits(3)}; VpExpect none; bool full = stackIs(w.st(), e, 3) || stackIs(w.st(), e, 2); vp_check(full & vp_out_is(none), "between u and O nothing is executed"); for(int i = 0; i < n && !stackIs(w.st(), e, 3); ++i) w.tick(); vp_check(stackIs(w.st(), e, 3), "after O instructions are executed again");
	w.ex('u'); w.ip().setDelta(Vector{3, 5}); int k = vp_choose("dir", 0, 8); static const int64_t d[9][2] = {{1, 0}, {-1, 0}, {0, -1}, {0, 1}, {5, 3}, {-5, -3}, {-3, 5}, {3, -5}, {-3, -5}}; vp_check(w.ex("><^v\\/|_#"[k]) == ERROR_NONE, "directions and mirrors act"); vp_check(vecIs(w.ip().getDelta(), {d[k][0], d[k][1]}), "while diving directions and mirrors act"); vp_reach("end"); vp_end();
}
extern "C" void h_time(){
	World w(";", configFish(true)); int64_t g = real("g"), e[4]; w.st().push(g); e[0] = g; static const int at[] = {2, 1, 0}; static const int lim[] = {23, 59, 60}; for(int i = 0; i < 3; ++i){ int v = vp_i32("t"); vp_assume((v >= 0) & (v <= lim[i])); env_tm[at[i]] = v; e[i + 1] = bits(v); } for(int i = 0; i < 3; ++i) vp_check(w.ex("hms"[i]) == ERROR_NONE, "h, m and s succeed"); vp_check(stackIs(w.st(), e, 4), "h, m and s push hour, minute and second"); vp_reach("end"); vp_end();
}
static void name(World& w, const char* f){ int n = 0; for(; f[n]; ++n) w.st().push(bits((unsigned char)f[n])); w.st().push(bits(n)); }
extern "C" void h_file_read(){
	World w(";", configFish(true)); int64_t g = real("g"); w.st().push(g); int n = vp_choose("len", 0, 3); std::string t; int64_t e[6]; e[0] = g; for(int i = 0; i < n; ++i){ uint8_t c = vp_u8("byte"); t += (char)c; e[i + 1] = bits(c); } vp_file_put("data", t); env_stdin("XY", 2); name(w, "data"); vp_check(w.ex('F') == ERROR_NONE, "F opens the file it names"); vp_check(stackIs(w.st(), e, 1), "popping its name");
	for(int i = 0; i <= n; ++i) vp_check(w.ex('i') == ERROR_NONE, "i succeeds"); e[n + 1] = bits(-1); vp_check(stackIs(w.st(), e, n + 2), "i reads from the file while it is open, -1 at its end"); w.st().clear(); w.st().push(bits(0)); vp_check(w.ex('F') == ERROR_NONE, "F closes it"); vp_check(w.ex('i') == ERROR_NONE, "i"); e[0] = bits('X'); vp_check(stackIs(w.st(), e, 1), "and then from standard input again"); vp_reach("end"); vp_end();
}
extern "C" void h_file_write(){
	World w(";", configFish(true)); int64_t g = real("g"); w.st().push(g); if(vp_choose("exists", 0, 1)) vp_file_put("data", "something longer"); name(w, "data"); vp_check(w.ex('F') == ERROR_NONE, "F opens"); int n = vp_choose("len", 0, 3); std::string want; uint8_t c[3]; for(int i = 0; i < n; ++i){ c[i] = vp_u8("byte"); w.st().push(bits(c[i])); } for(int i = n; i > 0; --i) want += (char)c[i - 1];
	w.st().push(bits(n)); vp_check(w.ex('F') == ERROR_NONE, "F writes and closes"); std::string got; vp_check(vp_file_get("data", got), "there is a file"); vp_check(got == want, "the second F writes the cells popped to the file, as it pops them"); vp_check(stackIs(w.st(), &g, 1), "and pops no more"); w.st().push(bits(2)); vp_check(w.ex('F') == ERROR_UNSPEC, "F needs as many cells as it is told"); vp_reach("end"); vp_end();
}
extern "C" void h_sleep(){
	World w(";", configFish(true)); int64_t g = real("g"); w.st().push(g); w.st().push(bits(vp_choose("t", 0, 3))); vp_check(w.ex('S') == ERROR_NONE, "S succeeds"); vp_check(stackIs(w.st(), &g, 1), "S pops the time to sleep and goes on"); w.st().clear(); vp_check(w.ex('S') == ERROR_UNSPEC, "S needs a time"); vp_check(w.ex('C') == ERROR_UNSPEC, "and C an address"); vp_reach("end"); vp_end();
}
extern "C" void h_fish(){
	// *><> instructions are no instructions of ><>
	World w(";", configFish(false)); int64_t v[2]; for(int i = 0; i < 2; ++i){ v[i] = real("s"); w.st().push(v[i]); } int k = vp_choose("inst", 0, 11); vp_check(w.ex("`CRuOIDFShms"[k]) == ERROR_UNIMP, "is not known to ><>"); vp_check(stackIs(w.st(), v, 2) & vecIs(w.ip().getDelta(), {1}), "and does nothing"); vp_reach("end"); vp_end();
}
