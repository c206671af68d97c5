//@ entry h_arith
//@ entry h_sum
//@ entry h_repeat
//@ entry h_shift
//@ entry h_turns
//@ entry h_dir reach=end,bad
//@ entry h_tumbler
//@ entry h_wait
//@ entry h_area t=120
//@ entry h_getput t=60
//@ entry h_copy t=200 tt=900
//@ entry h_row t=60
//@ bounds arithmetic, sums, shifts, waiting and positions over every pair of 64-bit cells on stacks of 0 to 3 cells; repetition counts up to 3 (negative: any); areas with sizes -2..2 (copies: 0..2) in each of two dimensions at arbitrary coordinates; overlapping copies with offsets -2..2; rows and columns of 3 cells of the first plane shifted by -4..4, in two and three dimensions; random draws arbitrary
//@ outside areas in three dimensions; the order of copies with negative sizes
#include "funge_h.h"
static const uint64_t TOYS = 0x544F5953;
static FungeConfig with(size_t d = 2){ FungeConfig c = config98(d); c.fingerprints.push_back(TOYS); return c; }
static const char* ROW = "@                    @";
static void ipIs(World& w, std::initializer_list<int64_t> p, std::initializer_list<int64_t> d){ vp_check(vecIs(w.ip().getPos(), p), "position"); vp_check(vecIs(w.ip().getDelta(), d), "delta"); vp_check(w.ss().size() == 1, "stacks untouched"); }
static void expect(World& w, const int64_t* v, int n, int pops, std::initializer_list<int64_t> res){
	int64_t e[12]; int k = 0; for(; k < n - pops; ++k) e[k] = v[k]; for(auto x : res) e[k++] = x;
	vp_check(stackIs(w.st(), e, k), "result"); }
extern "C" void h_arith(){
	World w(ROW, with(), Vector{5}); int n = vp_choose("n", 0, 3); int64_t v[3]; pushSyms(w.st(), v, n); int64_t b = ref(v, n, 1), a = ref(v, n, 2);
	int i = vp_choose("inst", 0, 3); vp_check(w.ex("BDIN"[i]) == ERROR_NONE, "no error");
	if(i == 0) expect(w, v, n, 2, {wadd(a, b), wsub(a, b)}); else expect(w, v, n, 1, {i == 1 ? wsub(b, 1) : i == 2 ? wadd(b, 1) : b == 0});
	ipIs(w, {5}, {1}); vp_reach("end"); vp_end();
}
extern "C" void h_sum(){
	World w(ROW, with(), Vector{5}); int n = vp_choose("n", 0, 3), p = vp_choose("product", 0, 1); int64_t v[3]; pushSyms(w.st(), v, n);
	vp_check(w.ex(p ? 'P' : 'E') == ERROR_NONE, "no error"); int64_t r = p; for(int i = n; i > 0; --i) r = p ? wmul(r, v[i - 1]) : wadd(r, v[i - 1]);
	vp_check(w.st().size() == 1 && w.st().get(1) == r, "the whole stack is replaced by its sum or product"); ipIs(w, {5}, {1}); vp_reach("end"); vp_end();
}
extern "C" void h_repeat(){
	World w(ROW, with(), Vector{5}); int n = vp_choose("n", 0, 2); int64_t v[2]; pushSyms(w.st(), v, n); int64_t c = vp_i64("count"); vp_assume(c <= 3); w.st().push(c);
	int64_t a = ref(v, n, 1); vp_check(w.ex('A') == ERROR_NONE, "no error"); if(c < 0) c = 0; c = vp_concretize(c);
	int64_t e[6]; int k = 0; for(; k < n - 1; ++k) e[k] = v[k]; for(int i = 0; i < c; ++i) e[k++] = a; vp_check(stackIs(w.st(), e, k), "the cell, as often as asked for"); ipIs(w, {5}, {1}); vp_reach("end"); vp_end();
}
extern "C" void h_shift(){
	World w(ROW, with(), Vector{5}); int n = vp_choose("n", 0, 3); int64_t v[3]; pushSyms(w.st(), v, n); int64_t b = ref(v, n, 1), a = ref(v, n, 2);
	vp_check(w.ex('H') == ERROR_NONE, "no error"); int64_t r = b >= 64 ? 0 : b <= -64 ? (a < 0 ? -1 : 0) : b >= 0 ? (int64_t)((U)a << (b & 63)) : a >> (-b & 63);
	expect(w, v, n, 2, {r}); ipIs(w, {5}, {1}); vp_reach("end"); vp_end();
}
// cells beside and behind the IP; steps to the next coordinate
extern "C" void h_turns(){
	int i = vp_choose("inst", 0, 5), dims = i < 3 ? 2 : vp_choose("dims", 1, 3); World w(ROW, with(dims)); int64_t p[3] = {0,0,0}, d[3] = {0,0,0}; Vector P, Dl; for(int k = 0; k < dims; ++k){ p[k] = vp_i64("pos"); P.set(k, p[k]); d[k] = vp_i64("delta"); Dl.set(k, d[k]); }
	w.ip().setPos(P); w.ip().setDelta(Dl); int n = vp_choose("n", 0, 1); int64_t v[1]; pushSyms(w.st(), v, n); FungeError e; bool ok = true;
	if(i < 2){ Vector at; at.set(0, i == 0 ? wadd(p[0], d[1]) : wsub(p[0], d[1])); at.set(1, i == 0 ? wsub(p[1], d[0]) : wadd(p[1], d[0])); int64_t x = vp_i64("cell"); w.field().put(at, x); vp_assume(x != ' ');
		e = w.ex(i == 0 ? 'L' : 'R'); expect(w, v, n, 0, {x}); }
	else if(i == 2){ e = w.ex('Q'); Vector at; at.set(0, wsub(p[0], d[0])); at.set(1, wsub(p[1], d[1])); vp_check(w.field().get(at) == ref(v, n, 1), "the cell behind the IP is written"); expect(w, v, n, 1, {}); }
	else { int k = i - 3; ok = k < dims; e = w.ex("XYZ"[k]); if(ok) p[k] = wadd(p[k], 1); expect(w, v, n, 0, {}); }
	vp_check((e == ERROR_NONE) == ok && (ok || e == ERROR_UNSPEC), "reflects exactly if there is no such dimension"); ipIs(w, {p[0], p[1], p[2]}, {d[0], d[1], d[2]}); vp_reach("end"); vp_end();
}
extern "C" void h_dir(){
	int dims = vp_choose("dims", 1, 3); World w(ROW, with(dims), Vector{5}); int n = vp_choose("n", 0, 2); int64_t v[2]; pushSyms(w.st(), v, n); int64_t k = ref(v, n, 1), s = ref(v, n, 2);
	FungeError e = w.ex('T'); expect(w, v, n, 2, {});
	if((k >= 0) & (k < dims)){ vp_check(e == ERROR_NONE, "no error"); int64_t d[3] = {0,0,0}; for(int j = 0; j < 3; ++j) d[j] = k == j ? (s == 0 ? 1 : -1) : 0; ipIs(w, {5}, {d[0], d[1], d[2]}); vp_reach("end"); }
	else { vp_check(e == ERROR_UNSPEC, "a dimension the program does not have is refused"); ipIs(w, {5}, {1}); vp_reach("bad"); }
	vp_end();
}
extern "C" void h_tumbler(){
	int dims = vp_choose("dims", 1, 3); World w(ROW, with(dims), Vector{5}); vp_check(w.ex('U') == ERROR_NONE, "no error"); int64_t c = w.field().get(Vector{5});
	static const char A[] = "><v^hl"; int64_t k = -1; for(int j = 0; j < 2 * dims; ++j) if(c == A[j]) k = j; vp_check(k >= 0, "the cell becomes an arrow of the program's dimensions"); if(k < 0) vp_end();
	int64_t d[3] = {0,0,0}; d[k / 2] = k & 1 ? -1 : 1; ipIs(w, {5}, {d[0], d[1], d[2]}); w.ip().setDelta(Vector{7}); w.ex(c); ipIs(w, {5}, {d[0], d[1], d[2]}); vp_check(w.st().size() == 0, "stack untouched"); vp_reach("end"); vp_end();
}
extern "C" void h_wait(){
	World w(ROW, with(), Vector{5}); int64_t x = vp_i64("x"), y = vp_i64("y"), c = vp_i64("cell"), val = vp_i64("value"), j = vp_i64("below"); w.st().push(j); w.st().push(val); w.st().push(x); w.st().push(y); Vector at; at.set(0, x); at.set(1, y); vp_assume((x != 5) | (y != 0)); vp_assume((x != 6) | (y != 0)); w.field().put(at, c); w.field().put(Vector{5}, 'W'); w.field().put(Vector{6}, '1');
	vp_check(w.ex('W') == (c < val ? ERROR_BLOCK : ERROR_NONE), "waits exactly while the cell is below the value"); int64_t all[4] = {j, val, x, y};
	vp_check(stackIs(w.st(), all, c < val ? 4 : 1), "operands stay while waiting, and are gone after"); ipIs(w, {5}, {c > val ? -1 : 1}); vp_reach("end"); vp_end();
}
static int ext(int64_t s){ return s < 0 ? (int)-s : (int)s; }
// S fills, F writes an area; nothing else changes
extern "C" void h_area(){
	World w(ROW, with(), Vector{5}); int64_t sx = vp_choose("sx", -2, 2), sy = vp_choose("sy", -2, 2), x = vp_i64("x"), y = vp_i64("y"); int fill = vp_choose("fill", 0, 1), n = ext(sx) * ext(sy); int64_t v[5]; v[0] = vp_i64("below"); w.st().push(v[0]);
	for(int i = fill ? 1 : n; i > 0; --i){ v[i] = vp_i64("v"); w.st().push(v[i]); vp_assume(v[i] != ' '); }
	w.st().push(sx); w.st().push(sy); w.st().push(x); w.st().push(y);
	int64_t ox = vp_i64("ox"), oy = vp_i64("oy"), o = vp_i64("o"); vp_assume(o != ' '); Vector O; O.set(0, ox); O.set(1, oy); w.field().put(O, o);
	vp_check(w.ex(fill ? 'S' : 'F') == ERROR_NONE, "no error"); int64_t want = o; int k = 0;
	for(int b = 0; b < ext(sy); ++b) for(int a = 0; a < ext(sx); ++a){ ++k; want = ((ox == wadd(x, sx < 0 ? -a : a)) & (oy == wadd(y, sy < 0 ? -b : b))) ? v[fill ? 1 : k] : want; }
	vp_check(w.field().get(O) == want, "each cell of the area gets its value, all others keep theirs"); vp_check(stackIs(w.st(), v, 1), "operands popped"); ipIs(w, {5}, {1}); vp_reach("end"); vp_end();
}
// G pushes an area so that F writes it back
extern "C" void h_getput(){
	World w(ROW, with(), Vector{5}); int64_t sx = vp_choose("sx", -2, 2), sy = vp_choose("sy", -2, 2); int64_t v[5], x = vp_choose("x", -1, 1), y = vp_choose("y", 3, 4); int n = ext(sx) * ext(sy); v[0] = vp_i64("below"); w.st().push(v[0]);
	int k = n; for(int b = 0; b < ext(sy); ++b) for(int a = 0; a < ext(sx); ++a){ int64_t c = vp_i64("c"); v[k--] = c; Vector p; p.set(0, x + (sx < 0 ? -a : a)); p.set(1, y + (sy < 0 ? -b : b)); w.field().put(p, c); }
	w.st().push(sx); w.st().push(sy); w.st().push(x); w.st().push(y); vp_check(w.ex('G') == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), v, n + 1), "the cells of the area, first one on top"); ipIs(w, {5}, {1}); vp_reach("end"); vp_end();
}
// C K copy, M V move, in ascending or descending order
extern "C" void h_copy(){
	World w(ROW, with(), Vector{5}); int op = vp_choose("op", 0, 3); bool low = op == 0 || op == 2, move = op >= 2; int64_t sx = vp_choose("sx", 0, 2), sy = vp_choose("sy", 0, 2), ox = vp_choose("ox", -2, 2), oy = vp_choose("oy", -2, 2);
	if(sx * sy == 0){ vp_assume(ox == 1); vp_assume(oy == 1); }
	const int64_t X = 10, Y = 10; int64_t m[8][8]; for(int b = 0; b < 8; ++b) for(int a = 0; a < 8; ++a) m[b][a] = ' ';
	for(int b = 0; b < sy; ++b) for(int a = 0; a < sx; ++a){ int64_t c = vp_i64("c"); vp_assume(c != ' '); m[b + 2][a + 2] = c; Vector p; p.set(0, X + a); p.set(1, Y + b); w.field().put(p, c); }
	{ int64_t c = vp_i64("z"); vp_assume(c != ' '); m[2 + oy][2 + ox] = c; Vector p; p.set(0, X + ox); p.set(1, Y + oy); w.field().put(p, c); }
	w.st().push(X); w.st().push(Y); w.st().push(sx); w.st().push(sy); w.st().push(X + ox); w.st().push(Y + oy); vp_check(w.ex("CKMV"[op]) == ERROR_NONE, "no error");
	int n = sx * sy; for(int i = 0; i < n; ++i){ int k = low ? i : n - 1 - i, a = k % sx, b = k / sx; m[b + 2 + oy][a + 2 + ox] = m[b + 2][a + 2]; if(move) m[b + 2][a + 2] = ' '; }
	int ok = 1; for(int b = 0; b < 8; ++b) for(int a = 0; a < 8; ++a){ Vector p; p.set(0, X + a - 2); p.set(1, Y + b - 2); ok &= w.field().get(p) == m[b][a]; }
	vp_check(ok, "the area is copied (moved) cell by cell in its order"); vp_check(w.st().size() == 0, "operands popped"); ipIs(w, {5}, {1}); vp_reach("end"); vp_end();
}
// J and O shift the column or row of the IP
extern "C" void h_row(){
	int row = vp_choose("row", 0, 1), lo = vp_choose("lo", -2, 0); int64_t n = vp_choose("by", -4, 4), at = 2; FungeConfig cfg = with(); if(vp_choose("three", 0, 1)) cfg.dimensions = 3; World w("@", cfg); int64_t m[20]; for(auto& c : m) c = ' ';
	w.ip().setPos(row ? Vector{1, at} : Vector{at, 1}); w.field().put(Vector{0}, ' ');
	for(int i = 0; i < 3; ++i){ int64_t c = vp_i64("c"); m[10 + lo + i] = c; Vector p; p.set(row ? 0 : 1, lo + i); p.set(row ? 1 : 0, at); w.field().put(p, c); }
	int64_t o = vp_i64("o"); vp_assume(o != ' '); Vector O; O.set(row ? 0 : 1, lo); O.set(row ? 1 : 0, at + 1); w.field().put(O, o); Vector O3; O3.set(row ? 0 : 1, lo); O3.set(row ? 1 : 0, at); O3.set(2, 1); bool deep = cfg.dimensions == 3; if(deep) w.field().put(O3, o);
	w.st().push(n); vp_check(w.ex(row ? 'O' : 'J') == ERROR_NONE, "no error"); int ok = 1;
	for(int64_t i = -8; i <= 8; ++i){ Vector p; p.set(row ? 0 : 1, i); p.set(row ? 1 : 0, at); int64_t from = i - n; ok &= w.field().get(p) == (from >= -10 && from < 10 ? m[10 + from] : ' '); }
	vp_check(ok, "the whole row or column of the IP shifts"); vp_check(w.field().get(O) == o, "and no other"); if(deep) vp_check(w.field().get(O3) == o, "in no other plane"); vp_check(w.st().size() == 0, "operand popped"); ipIs(w, {row ? 1 : at, row ? at : 1}, {1}); vp_reach("end"); vp_end();
}
