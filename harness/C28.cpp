//@ entry h_push
//@ entry h_arith
//@ entry h_modulo
//@ entry h_compare
//@ entry h_underflow
//@ entry h_move
//@ entry h_mirror
//@ entry h_skip
//@ entry h_jump
//@ entry h_stack
//@ entry h_nest
//@ entry h_output
//@ entry h_input
//@ entry h_cells
//@ entry h_string
//@ entry h_end
//@ entry h_error
//@ entry h_fraction
//@ bounds stacks of 0..4 arbitrary doubles, up to 3 nested stacks moving 0..3 cells; deltas arbitrary; addresses and values of cells any 32-bit integer; strings of 3 arbitrary cells; input of 0..2 arbitrary bytes; rows of 3 instructions of a small alphabet for errors
//@ assume operands of modulo are whole numbers below 2^53, those of jumps, addresses and printed characters whole numbers; printed fractions are a few fixed values
//@ outside NaN, conversion of values of 2^63 and above to cells
#include "funge_h.h"
static int64_t bits(double d){ int64_t r; __builtin_memcpy(&r, &d, 8); return r; }
static double dbl(int64_t r){ double d; __builtin_memcpy(&d, &r, 8); return d; }
static int64_t real(const char* n){ int64_t r = vp_i64(n); vp_assume(((uint64_t)r >> 52 & 0x7ff) != 0x7ff); return r; }
static int64_t whole(const char* n){ return bits((double)vp_i32(n)); }
static void push(World& w, int64_t* v, int n, const char* nm = "s"){ for(int i = 0; i < n; ++i){ v[i] = real(nm); w.st().push(v[i]); } }
extern "C" void h_push(){
	World w(";", configFish()); int n = vp_choose("depth", 0, 3); int64_t v[5]; push(w, v, n); int k = vp_choose("inst", 0, 16);
	vp_check(w.ex("0123456789abcdefl"[k]) == ERROR_NONE, "a digit is executed"); v[n] = bits(k == 16 ? n : k); vp_check(stackIs(w.st(), v, n + 1), "a digit pushes its value, l the length of the stack"); vp_check(vecIs(w.ip().getDelta(), {1}) & vecIs(w.ip().getPos(), {0}), "and nothing else"); vp_reach("end"); vp_end();
}
extern "C" void h_arith(){
	World w(";", configFish()); int n = vp_choose("depth", 2, 3), k = vp_choose("op", 0, 3); int64_t v[4]; push(w, v, n); double x = dbl(v[n - 2]), y = dbl(v[n - 1]); FungeError e = w.ex("+-*,"[k]);
	if(k == 3 && y == 0){ vp_check(e == ERROR_UNSPEC, "division by zero is an error"); vp_reach("end"); vp_end(); }
	vp_check(e == ERROR_NONE, "arithmetic succeeds"); v[n - 2] = bits(k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : x / y); vp_check(stackIs(w.st(), v, n - 1), "+ - * , compute in floating point on the top two cells"); vp_reach("end"); vp_end();
}
extern "C" void h_modulo(){
	World w(";", configFish()); int64_t g = real("g"), a = vp_i32("a"), b = vp_i32("b"); bool big = vp_choose("smallest", 0, 1); if(big) a = I64MIN; w.st().push(g); w.st().push(bits(a)); w.st().push(bits(b)); if(big) vp_assume((b == -1) | (b == 1) | (b == 0)); FungeError e = w.ex('%');
	if(b == 0){ vp_check(e == ERROR_UNSPEC, "modulo by zero is an error"); vp_reach("end"); vp_end(); }
	int64_t r[2] = {g, bits(b == -1 ? 0 : a % b)}; vp_check(e == ERROR_NONE && stackIs(w.st(), r, 2), "% pushes the remainder"); vp_reach("end"); vp_end();
}
extern "C" void h_compare(){
	World w(";", configFish()); int n = vp_choose("depth", 2, 3), k = vp_choose("op", 0, 2); int64_t v[4]; push(w, v, n); double x = dbl(v[n - 2]), y = dbl(v[n - 1]); vp_check(w.ex("=)("[k]) == ERROR_NONE, "comparison succeeds"); bool c = k == 0 ? x == y : k == 1 ? x > y : x < y; v[n - 2] = bits(c ? 1 : 0); vp_check(stackIs(w.st(), v, n - 1), "= ) ( compare the top two cells"); vp_reach("end"); vp_end();
}
static const char NEED[] = "?.+-*,%=)(:~$@{}[ongp&"; static const int OPS[] = {1,2,2,2,2,2,2,2,2,2,1,1,2,3,1,1,1,1,1,2,3,1};
extern "C" void h_underflow(){
	World w(";", configFish()); int k = vp_choose("inst", 0, 21), n = vp_choose("depth", 0, 2); int64_t v[4]; if(n >= OPS[k]) vp_assume(0); push(w, v, n);
	vp_check(w.ex(NEED[k]) == ERROR_UNSPEC, "an instruction without enough operands is an error"); vp_check(stackIs(w.st(), v, n), "and takes nothing"); vp_check(w.ex(']') == ERROR_UNSPEC, "so is ] of the only stack"); vp_reach("end"); vp_end();
}
extern "C" void h_move(){
	World w(";", configFish()); int64_t v[2]; push(w, v, 2); w.ip().setDelta(Vector{vp_i64("x"), vp_i64("y")}); int k = vp_choose("inst", 0, 4);
	vp_check(w.ex("><^vx"[k]) == ERROR_NONE, "a direction succeeds"); const Vector& d = w.ip().getDelta(); static const int64_t t[4][2] = {{1, 0}, {-1, 0}, {0, -1}, {0, 1}};
	if(k < 4) vp_check(vecIs(d, {t[k][0], t[k][1]}), "directions set the delta"); else { int f = -1; for(int i = 0; i < 4; ++i) if(vecIs(d, {t[i][0], t[i][1]})) f = i; vp_check(f >= 0, "x goes in one of the four directions"); }
	vp_check(stackIs(w.st(), v, 2) & vecIs(w.ip().getPos(), {0}), "and nothing else"); vp_reach("end"); vp_end();
}
extern "C" void h_mirror(){
	World w(";", configFish()); int64_t v[2]; push(w, v, 2); int64_t x = vp_i64("x"), y = vp_i64("y"); w.ip().setDelta(Vector{x, y}); int k = vp_choose("inst", 0, 4); vp_check(w.ex("\\/|_#"[k]) == ERROR_NONE, "a mirror succeeds"); int64_t nx = wneg(x), ny = wneg(y);
	const Vector& d = w.ip().getDelta(); vp_check(k == 0 ? vecIs(d, {y, x}) : k == 1 ? vecIs(d, {ny, nx}) : k == 2 ? vecIs(d, {nx, y}) : k == 3 ? vecIs(d, {x, ny}) : vecIs(d, {nx, ny}), "mirrors reflect the delta at their own angle"); vp_check(stackIs(w.st(), v, 2), "and leave the stack"); vp_reach("end"); vp_end();
}
extern "C" void h_skip(){
	bool cond = vp_choose("cond", 0, 1); World w(cond ? "?12;" : "!12;", configFish()); int64_t v[3]; push(w, v, 2); w.tick(); w.tick(); bool skip = !cond || dbl(v[1]) == 0; int n = cond ? 1 : 2; v[n] = bits(skip ? 2 : 1); vp_check(stackIs(w.st(), v, n + 1), "! skips the next instruction, ? if it pops 0"); vp_reach("end"); vp_end();
}
extern "C" void h_jump(){
	World w(";", configFish()); int64_t g = real("g"); w.st().push(g); int32_t x = vp_i32("x"), y = vp_i32("y"); w.st().push(bits(x)); w.st().push(bits(y)); int64_t dx = vp_i64("dx"); w.ip().setDelta(Vector{dx, 1}); vp_check(w.ex('.') == ERROR_NONE, ". succeeds"); vp_check(vecIs(w.ip().getPos(), {x, y}) & vecIs(w.ip().getDelta(), {dx, 1}), ". moves to x, y"); vp_check(stackIs(w.st(), &g, 1), "and pops them"); vp_reach("end"); vp_end();
}
extern "C" void h_stack(){
	World w(";", configFish()); static const char op[] = ":~$@{}r"; static const int need[] = {1, 1, 2, 3, 1, 1, 0}; int k = vp_choose("inst", 0, 6), n = vp_choose("depth", 0, 4); if(n < need[k]) vp_assume(0); int64_t v[5], e[6]; push(w, v, n); vp_check(w.ex(op[k]) == ERROR_NONE, "succeeds"); int m = n; for(int i = 0; i < n; ++i) e[i] = v[i];
	switch(k){ case 0: e[m++] = v[n - 1]; break; case 1: --m; break; case 2: e[n - 2] = v[n - 1]; e[n - 1] = v[n - 2]; break; case 3: e[n - 3] = v[n - 1]; e[n - 2] = v[n - 3]; e[n - 1] = v[n - 2]; break;
		case 4: for(int i = 0; i < n; ++i) e[i] = v[(i + 1) % n]; break; case 5: for(int i = 0; i < n; ++i) e[i] = v[(i + n - 1) % n]; break; default: for(int i = 0; i < n; ++i) e[i] = v[n - 1 - i]; }
	vp_check(stackIs(w.st(), e, m), ": ~ $ @ { } r rearrange the stack as they should"); vp_check(vecIs(w.ip().getDelta(), {1}), "and nothing else"); vp_reach("end"); vp_end();
}
// nested stacks, each with its own register
extern "C" void h_nest(){
	World w(";", configFish()); struct S { int64_t v[8]; int n = 0; bool set = false; int64_t reg = 0; } s[4]; int k = 0; s[0].n = vp_choose("depth", 1, 3); push(w, s[0].v, s[0].n);
	for(int step = 0; step < (VP_THOROUGH ? 5 : 4); ++step){ S& t = s[k]; switch(vp_choose("op", 0, 2)){
		case 0: { if(k == 3) vp_assume(0); int n = vp_choose("moved", 0, 3); w.st().push(bits(n)); FungeError e = w.ex('['); if(n > t.n){ vp_check(e == ERROR_UNSPEC, "[ of more cells than there are is an error"); vp_reach("end"); vp_end(); } vp_check(e == ERROR_NONE, "[ succeeds"); S& u = s[++k]; u = S(); for(int i = 0; i < n; ++i) u.v[u.n++] = t.v[--t.n]; break; }
		case 1: { FungeError e = w.ex(']'); if(!k){ vp_check(e == ERROR_UNSPEC, "] of the only stack is an error"); vp_reach("end"); vp_end(); } vp_check(e == ERROR_NONE, "] succeeds"); S& u = s[--k]; while(t.n) u.v[u.n++] = t.v[--t.n]; break; }
		default: { FungeError e = w.ex('&'); if(!t.set && !t.n){ vp_check(e == ERROR_UNSPEC, "& needs a cell"); vp_reach("end"); vp_end(); } vp_check(e == ERROR_NONE, "& succeeds"); if(t.set){ t.v[t.n++] = t.reg; t.set = false; } else { t.reg = t.v[--t.n]; t.set = true; } }
		}
		vp_check(w.ss().size() == (size_t)k + 1, "[ opens a stack, ] closes it"); if(w.ss().size() != (size_t)k + 1) vp_end(); for(int i = 0; i <= k; ++i) vp_check(stackIs(w.ss().at(k - i), s[i].v, s[i].n), "[ and ] move cells one by one, & moves the top cell to the register of the stack and back");
	}
	vp_reach("end"); vp_end();
}
extern "C" void h_output(){
	World w(";", configFish()); int64_t g = real("g"); w.st().push(g); int32_t x = vp_i32("x"); w.st().push(bits(x)); bool num = vp_choose("n", 0, 1); vp_check(w.ex(num ? 'n' : 'o') == ERROR_NONE, "output succeeds"); VpExpect e; if(num) e.num(x); else e.ch(x); vp_check(vp_out_is(e), "n prints a number in decimal and nothing else, o a character"); vp_check(stackIs(w.st(), &g, 1), "and pops it"); vp_reach("end"); vp_end();
}
extern "C" void h_fraction(){
	static const double d[] = {0.5, -2.25, 1e-3, 123456.75, 1.0 / 3, 1e15, -1e18, 4503599627370496.0}; static const char* t[] = {"0.5", "-2.25", "0.001", "123457", "0.333333", "1000000000000000", "-1000000000000000000", "4503599627370496"};
	World w(";", configFish()); int k = vp_choose("v", 0, 7); w.st().push(bits(d[k])); vp_check(w.ex('n') == ERROR_NONE, "n succeeds"); VpExpect e; if(k < 5) e.str(t[k]); else e.num((int64_t)d[k]); vp_check(vp_out_is(e), "n prints whole numbers in full and fractions with six digits"); vp_reach("end"); vp_end();
}
extern "C" void h_input(){
	World w(";", configFish()); int n = vp_choose("len", 0, 2); char in[2]; int64_t e[3]; for(int i = 0; i < n; ++i){ uint8_t c = vp_u8("in"); in[i] = c; e[i] = bits(c); } for(int i = n; i < 3; ++i) e[i] = bits(-1); env_stdin(in, n); for(int i = 0; i < 3; ++i) vp_check(w.ex('i') == ERROR_NONE, "i succeeds"); vp_check(stackIs(w.st(), e, 3), "i pushes the next byte, -1 at the end"); vp_reach("end"); vp_end();
}
extern "C" void h_cells(){
	World w(";", configFish()); int64_t g = real("g"); int32_t x = vp_i32("x"), y = vp_i32("y"), v = vp_i32("v"); int32_t ox = vp_i32("ox"), oy = vp_i32("oy"); vp_assume(!((ox == x) & (oy == y)));
	int64_t before = w.field().get(Vector{ox, oy}); w.st().push(g); w.st().push(bits(v)); w.st().push(bits(x)); w.st().push(bits(y)); vp_check(w.ex('p') == ERROR_NONE, "p succeeds"); vp_check(stackIs(w.st(), &g, 1), "and pops its operands"); vp_check(w.field().get(Vector{x, y}) == v, "p stores the value at x, y"); vp_check(w.field().get(Vector{ox, oy}) == before, "and nowhere else");
	w.st().push(bits(x)); w.st().push(bits(y)); vp_check(w.ex('g') == ERROR_NONE, "g succeeds"); int64_t e[2] = {g, bits(v)}; vp_check(stackIs(w.st(), e, 2), "g reads it back"); vp_reach("end"); vp_end();
}
extern "C" void h_string(){
	FungeConfig c = configFish(); c.strings = STRING_MULTISPACE; char q = vp_choose("quote", 0, 1) ? '"' : '\''; World w("", c); Field& f = w.field(); f.put(Vector{0}, q); int64_t e[4]; for(int i = 0; i < 3; ++i){ int64_t x = vp_i32("cell"); vp_assume(x != q); f.put(Vector{i + 1}, x); e[i] = bits(x); } f.put(Vector{4}, q); f.put(Vector{5}, '1'); e[3] = bits(1);
	for(int i = 0; i < 6; ++i) w.tick(); vp_check(stackIs(w.st(), e, 4), "a string pushes all its cells up to the same kind of quote"); vp_reach("end"); vp_end();
}
static int64_t num(const char* p, std::string* out){ FungeConfig c = configFish(); c.strings = STRING_MULTISPACE; std::istringstream in(p); FungeUniverse* u = new FungeUniverse(in, Field::FORMAT_BF, c); u->createRunner(Vector{0}, Vector{1}); u->wait(); *out = vp_out_text(); return u->get(); }
extern "C" void h_end(){
	int n = vp_choose("n", 0, 3); std::string p(n, '1'), o; for(int i = 0; i < n; ++i) p += 'n'; p += ";2n"; int64_t r = num(p.c_str(), &o); vp_check(r == 0, "; ends the program with exit code 0"); vp_check(o == std::string(n, '1'), "after all instructions before it and none behind"); vp_reach("end"); vp_end();
}
extern "C" void h_error(){
	// any row of three instructions of an alphabet: ends at ; with 0, or with 1 at the first error, having printed what comes before
	static const char A[] = "1+n:, z0"; std::string p, want, o; int d = 0; double v[8]; bool err = false;
	for(int i = 0; i < 3; ++i){ char c = A[vp_choose("c", 0, 7)]; p += c; if(err) continue; switch(c){
		case '1': v[d++] = 1; break; case '0': v[d++] = 0; break; case '+': if(d < 2) err = true; else { v[d - 2] += v[d - 1]; --d; } break; case 'n': if(d < 1) err = true; else want += (char)('0' + (int)v[--d]); break;
		case ':': if(d < 1) err = true; else { v[d] = v[d - 1]; ++d; } break; case ',': if(d < 2 || v[d - 1] == 0) err = true; else { v[d - 2] /= v[d - 1]; --d; } break; case 'z': err = true; break; } }
	p += ';'; int64_t r = num(p.c_str(), &o); vp_check(r == err, "the program ends with 1 if there was an error and else with 0"); vp_check(o == want, "having printed what comes before"); vp_reach("end"); vp_end();
}
