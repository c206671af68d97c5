//@ entry h_bool
//@ entry h_cpli
//@ entry h_cpli_out
//@ entry h_fixp
//@ entry h_fixp_p
//@ entry h_fixp_q t=120 tt=600
//@ entry h_fixp_d
//@ entry h_nfun
//@ entry h_trig
//@ entry h_cpli_float
//@ entry h_power
//@ bounds CPLI D of parts -2..2 (thorough -4..4), V of multiples of 7 and 5 up to 14 and 10 (28 and 20), FIXP R of -5..5 to the power of 0..6; BOOL, BITW, CPLI A S M O and D by zero, FIXP A O X N S V for every pair of 64-bit cells on stacks of 0 to 3 and more cells; FIXP P for cells of magnitude up to 2^50; FIXP Q up to 2^12 (2^16 thorough); FIXP D for limits -3 to 3 over every random draw; NFUN in up to 8 dimensions
//@ outside FIXP B C I J T U (transcendental floating point) other than at 25 exact angles and ratios; FIXP N and V of the smallest cell
#include "funge_h.h"
static FungeConfig with(uint64_t f){ FungeConfig c = config98(); c.fingerprints.push_back(f); return c; }
static const uint64_t BOOL = 0x424F4F4C, BITW = 0x42495457, CPLI = 0x43504C49, FIXP = 0x46495850, NFUN = 0x4E46554E;
static const char* ROW = "@                    @";
static int64_t sh(int64_t x, int64_t n){ // left by n
	if(n >= 64) return 0; if(n <= -64) return x < 0 ? -1 : 0; return n >= 0 ? (int64_t)((U)x << n) : x >> (-n & 63); }
// result(s) replace the operands; everything below is untouched, IP is not moved
static void expect(World& w, const int64_t* v, int n, int pops, std::initializer_list<int64_t> res){
	int64_t e[12]; int k = 0; for(; k < n - pops; ++k) e[k] = v[k]; for(auto x : res) e[k++] = x;
	vp_check(stackIs(w.st(), e, k), "result"); vp_check(vecIs(w.ip().getPos(), {5}) & vecIs(w.ip().getDelta(), {1}), "IP untouched"); vp_check(w.ss().size() == 1, "stacks untouched");
}
extern "C" void h_bool(){
	int bw = vp_choose("bitw", 0, 1); World w(ROW, with(bw ? BITW : BOOL), Vector{5}); int n = vp_choose("n", 0, 4); int64_t v[4]; pushSyms(w.st(), v, n); int64_t a = ref(v, n, 1), b = ref(v, n, 2);
	static const char I[] = "ANOXLR"; int i = vp_choose("inst", 0, bw ? 5 : 3);
	FungeError e = w.ex(I[i]); vp_check(e == ERROR_NONE, "no error"); int p = i == 1 ? 1 : 2;
	int64_t nn = a == I64MIN ? I64MAX : -a;
	int64_t r = i == 0 ? (a & b) : i == 1 ? ~a : i == 2 ? (a | b) : i == 3 ? (a ^ b) : i == 4 ? sh(b, a) : sh(b, nn);
	expect(w, v, n, p, {r}); vp_reach("end"); vp_end();
}
extern "C" void h_cpli(){
	World w(ROW, with(CPLI), Vector{5}); int n = vp_choose("n", 0, 5); int64_t v[5]; pushSyms(w.st(), v, n); int64_t bi = ref(v, n, 1), br = ref(v, n, 2), ai = ref(v, n, 3), ar = ref(v, n, 4);
	int i = vp_choose("inst", 0, 3); if(i == 3){ vp_assume(bi == 0); vp_assume(br == 0); }
	vp_check(w.ex("ASMD"[i]) == ERROR_NONE, "no error");
	int64_t r = i == 0 ? wadd(ar, br) : i == 1 ? wsub(ar, br) : i == 2 ? wsub(wmul(ar, br), wmul(ai, bi)) : 0, m = i == 0 ? wadd(ai, bi) : i == 1 ? wsub(ai, bi) : i == 2 ? wadd(wmul(ar, bi), wmul(ai, br)) : 0;
	expect(w, v, n, 4, {r, m}); vp_reach("end"); vp_end();
}
extern "C" void h_cpli_out(){
	World w(ROW, with(CPLI), Vector{5}); int n = vp_choose("n", 0, 3); int64_t v[3]; pushSyms(w.st(), v, n); int64_t i = ref(v, n, 1), r = ref(v, n, 2);
	vp_out_reset(); vp_check(w.ex('O') == ERROR_NONE, "no error"); expect(w, v, n, 2, {});
	VpExpect x; if(i == 0) x.num(r).ch(' '); else if(r == 0) x.num(i).str("i "); else if(i < 0) x.num(r).num(i).str("i "); else x.num(r).ch('+').num(i).str("i ");
	vp_check(vp_out_is(x), "O prints the complex number"); vp_reach("end"); vp_end();
}
// exact angles only: within one unit of the last place, so that another order of the same arithmetic is no alarm
extern "C" void h_trig(){
	static const struct { char op; int64_t in, out; } T[] = {{'C', 0, 10000}, {'C', 600000, 5000}, {'C', 900000, 0}, {'C', 1800000, -10000}, {'C', -600000, 5000}, {'I', 0, 0}, {'I', 300000, 5000}, {'I', 900000, 10000}, {'I', -300000, -5000}, {'I', 2700000, -10000}, {'T', 0, 0}, {'T', 450000, 10000}, {'T', -450000, -10000}, {'T', 1350000, -10000}, {'B', 10000, 0}, {'B', 5000, 600000}, {'B', 0, 900000}, {'B', -10000, 1800000}, {'J', 0, 0}, {'J', 5000, 300000}, {'J', 10000, 900000}, {'J', -5000, -300000}, {'U', 0, 0}, {'U', 10000, 450000}, {'U', -10000, -450000}};
	World w(ROW, with(FIXP), Vector{5}); int64_t g = vp_i64("g"); auto& t = T[vp_choose("case", 0, (int)(sizeof T / sizeof *T) - 1)]; w.st().push(g); w.st().push(t.in); vp_check(w.ex(t.op) == ERROR_NONE, "no error");
	vp_check(w.st().size() == 2 && w.st().get(2) == g, "one operand, one result"); int64_t d = wsub(w.st().get(1), t.out); vp_check((d >= -1) & (d <= 1), "FIXP angles are degrees, numbers have four decimals"); vp_reach("end"); vp_end();
}
extern "C" void h_fixp(){
	World w(ROW, with(FIXP), Vector{5}); int n = vp_choose("n", 0, 3); int64_t v[3]; pushSyms(w.st(), v, n); int64_t a = ref(v, n, 1), b = ref(v, n, 2); int i = vp_choose("inst", 0, 5);
	if(i == 3 || i == 5) vp_assume(a != I64MIN);
	vp_check(w.ex("AOXNSV"[i]) == ERROR_NONE, "no error");
	expect(w, v, n, i < 3 ? 2 : 1, {i == 0 ? (a & b) : i == 1 ? (a | b) : i == 2 ? (a ^ b) : i == 3 ? wneg(a) : i == 4 ? (a > 0) - (a < 0) : a < 0 ? wneg(a) : a}); vp_reach("end"); vp_end();
}
extern "C" void h_fixp_p(){
	World w(ROW, with(FIXP), Vector{5}); int64_t g = vp_i64("g"), n = vp_i64("n"), B = 1ll << 50; vp_assume(n <= B); vp_assume(n >= -B); w.st().push(g); w.st().push(n); vp_check(w.ex('P') == ERROR_NONE, "no error");
	int64_t v[2] = {g, n}; expect(w, v, 2, 1, {(int64_t)((double)n * 3.14159265358979323846)}); vp_reach("end"); vp_end();
}
extern "C" void h_fixp_q(){
	World w(ROW, with(FIXP), Vector{5}); int64_t g = vp_i64("g"), n = vp_i64("n"); vp_assume(n <= (VP_THOROUGH ? 65536 : 4096)); w.st().push(g); w.st().push(n); FungeError e = w.ex('Q');
	if(n < 0){ vp_check(e != ERROR_NONE && e != ERROR_SKIP, "no square root of a negative"); vp_reach("neg"); vp_end(); return; }
	vp_check(e == ERROR_NONE, "no error"); vp_check(w.st().size() == 2, "one result"); int64_t r = w.st().get(1); vp_check(w.st().get(2) == g, "rest of the stack"); vp_check(r >= 0, "the root is not negative"); vp_check(r <= 256, "size"); vp_check(r * r <= n, "r*r <= n"); vp_check((r + 1) * (r + 1) > n, "(r+1)^2 > n"); vp_reach("end"); vp_end();
}
extern "C" void h_fixp_d(){
	World w(ROW, with(FIXP), Vector{5}); int64_t g = vp_i64("g"); int64_t n = vp_choose("n", -3, 3); w.st().push(g); w.st().push(n); vp_check(w.ex('D') == ERROR_NONE, "no error"); vp_check(w.st().size() == 2, "one result"); vp_check(w.st().get(2) == g, "rest of the stack");
	int64_t r = w.st().get(1); vp_check(n >= 0 ? (r >= 0) & (r <= n) : (r <= 0) & (r >= n), "D is between 0 and n"); if(n == 3 && r == 3) vp_reach("max"); if(n == 3 && r == 0) vp_reach("min"); vp_reach("end"); vp_end();
}
extern "C" void h_nfun(){
	FungeConfig c = with(NFUN); int d0 = vp_choose("dim", 2, 5) ; c.dimensions = d0; c.inverthl = vp_choose("inv", 0, 1); World w(ROW, c, Vector{5}); int n = vp_choose("n", 0, 3); int64_t v[3]; pushSyms(w.st(), v, n);
	static const char I[] = "ACDHILMRVXYZ"; int i = vp_choose("inst", 0, 11); char ch = I[i]; int axis = 0, sign = 1, pops = 0; int64_t a = ref(v, n, 1), b = ref(v, n, 2);
	switch(ch){ case 'A': axis = 3; sign = -1; break; case 'V': axis = 3; break; case 'C': axis = 5; sign = -1; break; case 'D': axis = 5; break; case 'H': axis = 4; sign = c.inverthl ? -1 : 1; break; case 'L': axis = 4; sign = c.inverthl ? 1 : -1; break;
		case 'I': axis = 3; pops = 1; sign = a == 0 ? 1 : -1; break; case 'M': axis = 4; pops = 1; sign = a == 0 ? 1 : -1; break; case 'R': axis = 5; pops = 1; sign = a == 0 ? 1 : -1; break;
		case 'Y': case 'Z': case 'X': if(n == 0) axis = 0; else { vp_assume(a <= 7); axis = -1; if(a >= 0) axis = (int)vp_concretize(a); } pops = ch == 'X' ? 2 : 1; sign = ch == 'Y' ? -1 : ch == 'Z' ? 1 : b == 0 ? 1 : -1; break; }
	FungeError e = w.ex(ch);
	if(axis < 0){ vp_check(e != ERROR_NONE && e != ERROR_SKIP, "no direction in a negative dimension"); vp_check(vecIs(w.ip().getDelta(), {1}), "delta untouched"); vp_reach("neg"); vp_end(); return; }
	vp_check(e == ERROR_NONE, "no error"); int64_t want[8]; for(int k = 0; k < 8; ++k) want[k] = k == axis ? sign : 0; const Vector& dl = w.ip().getDelta(); int ok = 1; for(int k = 0; k < 8; ++k) ok &= dl.get(k) == want[k]; vp_check(ok, "delta along the one axis"); vp_check(dl.size() <= 8, "no further axis");
	vp_check(stackIs(w.st(), v, n > pops ? n - pops : 0), "stack"); vp_check(vecIs(w.ip().getPos(), {5}), "position untouched");
	vp_check(w.uni->dimensions() == (size_t)(axis + 1 > d0 ? axis + 1 : d0), "the program has at least the dimension the IP moves in"); vp_reach("end"); vp_end();
}
// results of floating-point functions on small integers: the nearest integer, either one of a tie
extern "C" void h_cpli_float(){
	World w(ROW, with(CPLI), Vector{5}); int64_t g = vp_i64("g"); bool div = vp_choose("div", 0, 1); const int M = VP_THOROUGH ? 4 : 2; int64_t a = vp_choose("a", -M, M), b = vp_choose("b", -M, M), c = 1, d = 0; if(div){ c = vp_choose("c", -M, M); d = vp_choose("d", -M, M); vp_assume(c != 0 || d != 0); } else { a *= 7; b *= 5; }
	w.st().push(g); w.st().push(a); w.st().push(b); if(div){ w.st().push(c); w.st().push(d); } vp_check(w.ex(div ? 'D' : 'V') == ERROR_NONE, "no error"); vp_check(w.st().size() == (div ? 3u : 2u) && w.st().get(div ? 3 : 2) == g, "operands popped, results pushed"); int64_t q = w.st().get(1);
	if(div){ int64_t n = c * c + d * d, re = 2 * (a * c + b * d) - 2 * w.st().get(2) * n, im = 2 * (b * c - a * d) - 2 * q * n; vp_check((re <= n) & (re >= -n), "the real part of the quotient"); vp_check((im <= n) & (im >= -n), "the imaginary part of the quotient"); }
	else vp_check(q >= 0 && 4 * (a * a + b * b) <= (2 * q + 1) * (2 * q + 1) && (q == 0 || 4 * (a * a + b * b) >= (2 * q - 1) * (2 * q - 1)), "the absolute value");
	vp_reach("end"); vp_end();
}
extern "C" void h_power(){
	World w(ROW, with(FIXP), Vector{5}); int64_t g = vp_i64("g"), a = vp_choose("a", -5, 5), b = vp_choose("b", 0, 6), p = 1; for(int i = 0; i < b; ++i) p *= a; w.st().push(g); w.st().push(a); w.st().push(b); vp_check(w.ex('R') == ERROR_NONE, "no error"); int64_t e[2] = {g, p}; vp_check(stackIs(w.st(), e, 2), "R is the power"); vp_reach("end"); vp_end();
}
