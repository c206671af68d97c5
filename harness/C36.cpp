//@ entry h_modu t=120
//@ entry h_roma steps=1000000000
//@ entry h_roman t=400 steps=1000000000
//@ entry h_null
//@ entry h_term t=120 steps=200000000
//@ entry h_letters
//@ entry h_same_stack
//@ entry h_override
//@ entry h_unload
//@ entry h_caller
//@ entry h_caller_ip
//@ entry h_caller_stack
//@ bounds every pair of 64-bit operands for R and for U, 16-bit (thorough 32-bit) operands for M; roman numerals of 1..99 (thorough 1..4999); cursor movements of 1..999 and positions of 0..99; rolls and picks of up to 4 (thorough 6) cells on stacks of up to 5 (thorough 7)
//@ outside P of ROMA for numbers below 1; cursor movements by 0; what the terminal does with the escape sequences; the instructions of dynamicf where the caller is in another universe
//@ assume the directory fing beside bin holds the files of /repo/fing
#include "funge_h.h"
#include "fl.h"
#include "FingerprintDynamic.h"
static uint64_t id(const char* s){ uint64_t r = 0; for(; *s; ++s) r = r << 8 | (unsigned char)*s; return r; }
static void lib(const char* name, const std::string& text){ vp_file_put((std::string("bin/../fing/") + name + ".fl").c_str(), text); }
static FungeConfig with(const char* f){ FungeConfig c = config98(); c.fingerprints.push_back(id(f)); return c; }
static std::string planes(std::initializer_list<const char*> p){ std::string s; for(auto x : p){ s += '='; s += x[0]; s += '\n'; s += x + 1; s += '\n'; } return s; }
static int unmoved(World& w, int64_t x = 0, int64_t dx = 1){ return vecIs(w.ip().getPos(), {x}) & vecIs(w.ip().getDelta(), {dx}); }
// the space of a dynamic fingerprint has three dimensions, and so have its vectors
static void push3(World& w, int64_t x, int64_t y){ w.st().push(x); w.st().push(y); w.st().push(0); }
extern "C" void h_modu(){
	lib("MODU", FL_MODU); World w("@", with("MODU")); int op = vp_choose("op", 0, 2); int64_t g = vp_i64("guard"), a, b;
	if(op){ a = vp_i64("a"); b = vp_i64("b"); }
	else { int64_t m = VP_THOROUGH ? 1ll << 31 : 1 << 15; a = vp_range("a", -m, m - 1); b = vp_range("b", -m, m - 1); }
	w.st().push(g); w.st().push(a); w.st().push(b); int64_t want;
	if(b == 0) want = 0; else { int64_t r = b == -1 ? 0 : a % b; if(op == 0) want = ((r != 0) & ((r < 0) != (b < 0))) ? wadd(r, b) : r; else if(op == 1) want = r; else want = r < 0 ? (b < 0 ? wsub(r, b) : wadd(r, b)) : r; }
	vp_check(w.ex("MRU"[op]) == ERROR_NONE, "no error"); int64_t e[2] = {g, want}; vp_check(stackIs(w.st(), e, 2), op == 0 ? "M is the modulo that has the sign of the divisor" : op == 1 ? "R is the remainder of C" : "U is the modulo that is not negative"); vp_check(unmoved(w), "the IP is not moved"); vp_reach("end"); vp_end();
}
extern "C" void h_roma(){
	lib("ROMA", FL_ROMA); World w("@", with("ROMA")); static const int V[7] = {1, 5, 10, 50, 100, 500, 1000}; int k = vp_choose("letter", 0, 6); int64_t v[3]; int n = vp_choose("depth", 0, 2); pushSyms(w.st(), v, n); v[n] = V[k]; vp_check(w.ex("IVXLCDM"[k]) == ERROR_NONE && stackIs(w.st(), v, n + 1), "a roman digit pushes its value"); vp_check(unmoved(w) && vp_out_count() == 0, "and does nothing else"); vp_reach("end"); vp_end();
}
extern "C" void h_roman(){
	lib("ROMA", FL_ROMA); World w("@", with("ROMA")); int64_t g = vp_i64("guard"), n = vp_range("n", 1, VP_THOROUGH ? 4999 : 99); w.st().push(g); w.st().push(n); vp_check(w.ex('P') == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), &g, 1), "P takes the number");
	static const int64_t V[13] = {1000, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1}; static const char* S[13] = {"M", "CM", "D", "CD", "C", "XC", "L", "XL", "X", "IX", "V", "IV", "I"}; VpExpect e; int64_t left = n; for(int i = 0; i < 13; ++i) while(left >= V[i]){ e.str(S[i]); left -= V[i]; }
	e.ch(' '); vp_check(vp_out_is(e), "and prints it in roman numerals"); vp_reach("end"); vp_end();
}
extern "C" void h_null(){
	lib("NULL", FL_NULL); World w("@", with("NULL")); int64_t v[3]; int n = vp_choose("depth", 0, 2); pushSyms(w.st(), v, n); int64_t l = vp_choose("letter", 'A', 'Z'); FungeError e = w.ex(l); bool back = e != ERROR_NONE || vecIs(w.ip().getDelta(), {-1}); vp_check(back, "every letter reflects"); vp_check(e == ERROR_NONE || vecIs(w.ip().getDelta(), {1}), "once"); vp_check(stackIs(w.st(), v, n) & (vp_out_count() == 0), "and does nothing else"); vp_reach("end"); vp_end();
}
static void dec(VpExpect& e, int64_t n){ if(n >= 100) e.ch('0' + n / 100); if(n >= 10) e.ch('0' + n / 10 % 10); e.ch('0' + n % 10); }
extern "C" void h_term(){
	lib("TERM", FL_TERM); World w("@", with("TERM")); int64_t g = vp_i64("guard"); w.st().push(g); VpExpect e; int op = vp_choose("op", 0, 6); e.ch(27).ch('[');
	if(op <= 1){ int64_t n = vp_range("n", 1, 999); bool up = vp_bool("negative"); w.st().push(up ? -n : n); dec(e, n); e.ch("AB"[(op == 0) != up]); }
	else if(op == 2){ int64_t x = vp_range("x", 0, 99), y = vp_range("y", 0, 99); w.st().push(x); w.st().push(y); dec(e, y + 1); e.ch(';'); dec(e, x + 1); e.ch('H'); }
	VpExpect e2 = e; if(op >= 3){ static const char* A[] = {"2J", "1;1H", "0K", "0J"}; static const char* B[] = {"2J", "H", "K", "J"}; e.str(A[op - 3]); e2.str(B[op - 3]); }
	vp_check(w.ex("DUGCHLS"[op]) == ERROR_NONE, "no error"); vp_check(vp_out_is(e) || (op >= 3 && vp_out_is(e2)), "TERM writes the control sequence"); vp_check(stackIs(w.st(), &g, 1), "and takes exactly its operands"); vp_check(unmoved(w), "the IP is not moved"); vp_reach("end"); vp_end();
}
// a letter is defined exactly when the file has a plane for it
extern "C" void h_letters(){
	std::string t; int p[2] = {(int)vp_choose("first", 'A', 'Z'), (int)vp_choose("second", 'A', 'Z')}; vp_assume(p[0] < p[1]); bool blank = vp_choose("rows", 0, 1); for(int i = 0; i < 2; ++i){ t += '='; t += (char)p[i]; t += '\n'; if(blank) t += "v\n>"; t += '1' + i; t += "@\n"; } lib("TEST", t); World w("@", with("TEST"));
	int64_t v[2]; pushSyms(w.st(), v, 1); int64_t l = vp_choose("letter", 'A', 'Z'); vp_assume(l == p[0] || l == p[1] || l == p[0] + 1 || l == p[1] - 1); FungeError e = w.ex(l); if(l == p[0] || l == p[1]){ v[1] = l == p[0] ? 1 : 2; vp_check(e == ERROR_NONE && stackIs(w.st(), v, 2), "a letter runs its own plane"); vp_check(unmoved(w), "and the IP stays"); } else { vp_check(e != ERROR_NONE && stackIs(w.st(), v, 1), "a letter without a plane reflects"); } vp_reach("end"); vp_end();
}
extern "C" void h_same_stack(){
	lib("TEST", planes({"A+\\@", "B0{5$$@", "C{@"})); World w("@", with("TEST")); int64_t v[5]; int n = vp_choose("depth", 0, 3); pushSyms(w.st(), v, n); w.ip().setStorage(Vector{3, 4});
	vp_check(w.ex('A') == ERROR_NONE, "no error"); int64_t s = wadd(ref(v, n, 1), ref(v, n, 2)), under = ref(v, n, 3); int64_t e[3]; int k = 0; for(int i = 0; i < n - 3; ++i) e[k++] = v[i]; e[k++] = s; e[k++] = under; vp_check(stackIs(w.st(), e, k), "the instruction works on the stack of its caller"); vp_check(unmoved(w) & vecIs(w.ip().getStorage(), {3, 4}), "position, delta and storage offset of the caller stay"); vp_reach("end"); vp_end();
}
extern "C" void h_override(){
	bool file = vp_choose("file", 0, 1); if(file) lib("BOOL", planes({"A7@"})); World w("@", with("BOOL")); int64_t v[3]; pushSyms(w.st(), v, 2);
	FungeError e = w.ex("AO"[vp_choose("op", 0, 0)]); if(file){ v[2] = 7; vp_check(e == ERROR_NONE && stackIs(w.st(), v, 3), "a file replaces the fingerprint built in"); vp_check(w.ex('O') != ERROR_NONE, "with all its instructions"); } else { int64_t r = v[0] & v[1] ? 0 : 0; (void)r; vp_check(e == ERROR_NONE && w.st().size() == 1, "the fingerprint built in serves where there is no file"); } vp_reach("end"); vp_end();
}
extern "C" void h_unload(){
	lib("TEST", planes({"A7@"})); World w("@", config98()); int64_t k = vp_choose("loads", 0, 2), u = vp_choose("unloads", 0, 3); auto op = [&](char c){ for(const char* s = "TSET"; *s; ++s) w.st().push(*s); w.st().push(4); return w.ex(c); };
	for(int i = 0; i < k; ++i){ vp_check(op('(') == ERROR_NONE, "( finds the file"); int64_t e[2] = {(int64_t)id("TEST"), 1}; vp_check(stackIs(w.st(), e, 2), "and pushes the fingerprint and 1"); w.st().pop(); w.st().pop(); }
	for(int i = 0; i < u; ++i) op(')'); FungeError e = w.ex('A'); int64_t s = 7; if(k > u) vp_check(e == ERROR_NONE && stackIs(w.st(), &s, 1), "the instruction works until it is unloaded as often as it was loaded"); else vp_check(e != ERROR_NONE && w.st().size() == 0, "and reflects afterwards"); vp_reach("end"); vp_end();
}
// dynamicf: what the caller's space and IP look like from inside
extern "C" void h_caller(){
	lib("TEST", planes({"GG@", "PP@", "NN@", "MM@"})); World w("abcdefgh\nijklmnop", with("TEST")); int64_t x = vp_range("x", 0, 7), y = vp_range("y", 0, 1), at = vp_choose("at", 0, 5), g = vp_i64("guard"); w.ip().setPos(Vector{at}); w.st().push(g); int64_t e[2] = {g, 0};
	switch(vp_choose("op", 0, 2)){
		case 0: push3(w, x, y); vp_check(w.ex('G') == ERROR_NONE, "no error"); e[1] = 'a' + x + 8 * y; vp_check(stackIs(w.st(), e, 2), "G reads the caller's space"); break;
		case 1: { int64_t v = vp_i64("v"); vp_assume(v != ' '); w.st().push(v); push3(w, x, y); vp_check(w.ex('P') == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), e, 1), "P takes a value and a place"); vp_check(w.field().get(Vector{x, y}) == v, "and puts the value in the caller's space"); int64_t x2 = vp_range("x2", 0, 7), y2 = vp_range("y2", 0, 1); vp_assume((x2 != x) | (y2 != y)); vp_check(w.field().get(Vector{x2, y2}) == 'a' + x2 + 8 * y2, "and changes nothing else"); } break;
		default: vp_check(w.ex('N') == ERROR_NONE, "no error"); e[1] = 'a' + at + 1; vp_check(stackIs(w.st(), e, 2), "N reads the cell the caller comes to next"); }
	vp_check(unmoved(w, at), "the caller's IP is not moved"); vp_reach("end"); vp_end();
}
extern "C" void h_caller_ip(){
	lib("TEST", planes({"BB@", "DD@", "FF@", "LL@", "QQ@", "RR@", "SS@", "XX7@"})); World w("abcdefgh\nijklmnop", with("TEST")); int64_t g = vp_i64("guard"), x = vp_i64("x"), y = vp_i64("y"); static const int AT[] = {3, 0, 7}; int at = AT[vp_choose("at", 0, 2)]; w.ip().setPos(Vector{at}); w.ip().setStorage(Vector{5, 6}); w.st().push(g); int64_t e[7] = {g}; int k = 1; int64_t px = at, py = 0, dx = 1, dy = 0, sx = 5, sy = 6;
	static const char OPS[] = "BDFLQRSX"; char op = OPS[vp_choose("op", 0, 7)];
	if(op == 'D' || op == 'L' || op == 'S') push3(w, x, y);
	vp_check(w.ex(op) == ERROR_NONE, "no error"); vp_check(!w.r->isRunning() == (op == 'X'), "X stops the caller, the others do not");
	switch(op){ case 'B': px = at ? at - 1 : 7; break; case 'D': dx = x; dy = y; break; case 'F': px = at == 7 ? 0 : at + 1; break; case 'L': px = x; py = y; break; case 'Q': e[1] = at; e[2] = 0; e[3] = 1; e[4] = 0; e[5] = 5; e[6] = 6; k = 7; break; case 'R': dx = -1; break; case 'S': sx = x; sy = y; break; default: break; }
	vp_check(stackIs(w.st(), e, k), "takes exactly its operands, pushes exactly its results"); vp_check(vecIs(w.ip().getPos(), {px, py}), "position of the caller"); vp_check(vecIs(w.ip().getDelta(), {dx, dy}), "delta of the caller"); vp_check(vecIs(w.ip().getStorage(), {sx, sy}), "storage offset of the caller"); vp_reach("end"); vp_end();
}
extern "C" void h_caller_stack(){
	lib("TEST", planes({"EE@", "KK@", "OO@"})); World w("@", with("TEST")); int64_t v[9]; const int m = VP_THOROUGH ? 7 : 5, u = vp_choose("u", 0, VP_THOROUGH ? 6 : 4); int n = vp_choose("depth", 0, m); pushSyms(w.st(), v, n); bool neg = vp_choose("negative", 0, 1); int op = vp_choose("op", 0, 2);
	if(op == 0){ vp_check(w.ex('E') == ERROR_NONE, "no error"); v[n] = n; vp_check(stackIs(w.st(), v, n + 1), "E pushes the number of cells"); }
	else if(op == 1){ vp_assume(!neg); w.st().push(u); vp_check(w.ex('K') == ERROR_NONE, "no error"); v[n] = ref(v, n, u + 1); vp_check(stackIs(w.st(), v, n + 1), "K copies a cell to the top"); }
	else { vp_assume(n > u); w.st().push(neg ? -u : u); vp_check(w.ex('O') == ERROR_NONE, "no error"); int64_t e[9]; int k = 0; for(int i = 0; i < n - u - 1; ++i) e[k++] = v[i]; if(neg){ e[k++] = v[n - 1]; for(int i = n - u - 1; i < n - 1; ++i) e[k++] = v[i]; } else { for(int i = n - u; i < n; ++i) e[k++] = v[i]; e[k++] = v[n - u - 1]; } vp_check(stackIs(w.st(), e, k), "O rolls"); }
	vp_reach("end"); vp_end();
}
