//@ entry h_names
//@ entry h_count
//@ entry h_name
//@ entry h_make reach=end,fail
//@ entry h_go
//@ entry h_copy
//@ entry h_copy_any
//@ entry h_copy3
//@ entry h_mode
//@ bounds up to 4 (thorough 5) universes with names from a set made to collide; every 64-bit operand of B, G, F and P; areas of -2..2 by -2..2 (3 dimensions: 0..2 each) at any position, contents arbitrary; names of up to 3 characters
//@ outside copies within one universe whose areas overlap; universes of more than 3 dimensions
#include "funge_h.h"
static const uint64_t MVRS = 0x4d565253;
static FungeMultiverse& M(){ return FungeMultiverse::getInstance(); }
struct V { FungeUniverse* u; FungeRunner* r; V(const char* name, FungeConfig c = config98()){ c.name = name; c.fingerprints.push_back(MVRS); u = M().create(*new std::istringstream("@"), Field::FORMAT_BF, c); r = new FungeRunner(*u, Vector{0}, Vector{1}); } Stack& st(){ return r->getStack().top(); } };
static void str(Stack& s, const std::string& t){ s.push(0); for(size_t i = t.size(); i > 0; --i) s.push((unsigned char)t[i - 1]); }
static const char* NAMES[] = {"a", "a.1", "", "b"};
extern "C" void h_names(){
	std::vector<std::string> have; std::vector<FungeUniverse*> us; int k = vp_choose("universes", 1, VP_THOROUGH ? 5 : 4);
	for(int i = 0; i < k; ++i){ std::string n = NAMES[vp_choose("name", 0, VP_THOROUGH ? 3 : 2)]; FungeConfig c = config98(); c.name = n; FungeUniverse* u = i % 2 ? M().create(c) : M().create(*new std::istringstream("@"), Field::FORMAT_BF, c);
		vp_check(M().size() == (size_t)i + 1, "a universe is added"); bool fresh = true; for(auto& h : have) fresh &= h != u->getName(); vp_check(fresh, "every universe has a name of its own"); bool taken = false; for(auto& h : have) taken |= h == n; vp_check(taken || u->getName() == n, "which is the one asked for unless that is taken"); vp_check(u->getName().compare(0, n.size(), n) == 0, "or one derived from it"); have.push_back(u->getName()); us.push_back(u); }
	for(int i = 0; i < k; ++i) vp_check(M()[have[i]] == us[i], "a universe is found by its name"); vp_check(M()["none"] == nullptr, "and no other"); vp_reach("end"); vp_end();
}
extern "C" void h_count(){
	int k = vp_choose("universes", 1, 3); V a("a"); for(int i = 1; i < k; ++i){ FungeConfig c = config98(); c.name = NAMES[i]; M().create(c); } int64_t b = vp_i64("below"); a.st().push(b); vp_check(a.r->execute('C') == ERROR_NONE, "C succeeds"); int64_t e[2] = {b, k}; vp_check(stackIs(a.st(), e, 2), "C counts the universes"); vp_reach("end"); vp_end();
}
extern "C" void h_name(){
	int n = vp_choose("length", 0, 3); std::string s; int64_t e[5]; e[0] = vp_i64("below"); e[1] = 0; for(int i = 0; i < n; ++i) s += "x\xe9."[i]; for(int i = 0; i < n; ++i) e[2 + i] = (unsigned char)s[n - 1 - i]; V a(s.c_str()); a.st().push(e[0]); vp_check(a.r->execute('N') == ERROR_NONE, "N succeeds"); vp_check(stackIs(a.st(), e, n + 2), "N pushes the name of the universe"); vp_reach("end"); vp_end();
}
extern "C" void h_make(){
	V a("a"); int dim = vp_choose("dim", 0, 3), nm = vp_choose("name", 0, 2); int64_t lng = vp_i64("lng"), fl = vp_i64("flags"), b = vp_i64("below"); vp_assume(!(fl & 0x400)); a.st().push(b); str(a.st(), NAMES[nm]); a.st().push(fl); a.st().push(lng); a.st().push(dim); FungeError e = a.r->execute('B');
	uint32_t f = (uint32_t)fl; bool ok = !(f & 0x1ff) & (lng >= 0) & (lng <= 2); vp_check((e == ERROR_NONE) == ok, "B fails exactly for modes and languages it does not know"); vp_check(stackIs(a.st(), &b, 1), "and pops its operands"); vp_check(M().size() == (ok ? 2u : 1u), "one universe is made, or none"); if(!ok){ vp_reach("fail"); vp_end(); }
	std::string name = nm == 0 ? "a.1" : NAMES[nm]; FungeUniverse* u = M()[name]; vp_check(u && u != a.u, "with the name given, made unique"); if(!u) vp_end(); vp_check(u->dimensions() == (dim ? (size_t)dim : 2u), "of the dimensions given, or those of this universe"); vp_check(u->standard() == (lng == 1 ? FUNGE_93 : FUNGE_98), "of the language given, or that of this universe"); vp_check((uint32_t)u->getMode() == f, "in the modes given");
	vp_check(!u->isRunning(), "with no IP in it"); vp_check(u->getField().get(Vector{vp_i64("x"), vp_i64("y")}) == ' ', "and nothing else"); vp_check(&a.r->getUniverse() == a.u, "the IP stays"); vp_reach("end"); vp_end();
}
extern "C" void h_go(){
	V a("a"); FungeConfig c = config98(); c.name = "b"; FungeUniverse* b = M().create(c); int op = vp_choose("op", 0, 1), to = vp_choose("to", 0, 2); static const char* T[] = {"a", "b", "nope"}; int64_t j = vp_i64("below"), p[3], d[3]; for(int i = 0; i < 3; ++i){ p[i] = vp_i64("pos"); d[i] = vp_i64("delta"); } int64_t x = vp_i64("x"), y = vp_i64("y"), dx = vp_i64("dx"), dy = vp_i64("dy"); a.r->getIP().setPos(Vector{x, y}); a.r->getIP().setDelta(Vector{dx, dy});
	a.st().push(j); str(a.st(), T[to]); if(op){ for(int i = 0; i < 3; ++i) a.st().push(p[i]); for(int i = 0; i < 3; ++i) a.st().push(d[i]); } FungeError e = a.r->execute("JG"[op]); vp_check((e == ERROR_NONE) == (to != 2), "going to a universe that does not exist is an error"); vp_check(stackIs(a.st(), &j, 1), "operands popped"); vp_check(&a.r->getUniverse() == (to == 1 ? b : a.u), "the IP is in the universe named");
	if(op && to != 2) vp_check(vecIs(a.r->getIP().getPos(), {p[0], p[1], p[2]}) & vecIs(a.r->getIP().getDelta(), {d[0], d[1], d[2]}), "at the position and with the delta given"); else vp_check(vecIs(a.r->getIP().getPos(), {x, y}) & vecIs(a.r->getIP().getDelta(), {dx, dy}), "with its position and delta"); vp_reach("end"); vp_end();
}
static int ext(int64_t s){ return s < 0 ? (int)-s : (int)s; }
static void vec(Stack& s, int64_t x, int64_t y, bool three){ s.push(x); s.push(y); if(three) s.push(0); }
// any destination; one cell elsewhere
extern "C" void h_copy_any(){
	V a("a"); FungeConfig c = config98(); c.name = "b"; FungeUniverse* b = M().create(c); int put = vp_choose("put", 0, 1); Field& from = put ? a.u->getField() : b->getField(), &to = put ? b->getField() : a.u->getField(); int64_t sx = vp_choose("sx", -2, 2), sy = vp_choose("sy", -1, 1), X = vp_i64("X"), Y = vp_i64("Y"), dx = vp_i64("dx"), dy = vp_i64("dy"), ox = vp_i64("ox"), oy = vp_i64("oy"); if(ext(sx) * ext(sy) > 1){ vp_assume(X == 7); vp_assume(Y == 9); }
	int64_t m[2]; int k = 0; for(int p = 0; p < ext(sx) * ext(sy); ++p){ m[p] = vp_i64("cell"); from.put(Vector{wadd(X, sx < 0 ? -p : p), Y}, m[p]); } Vector O{ox, oy}; to.put(O, 'o'); str(a.st(), "b"); vec(a.st(), dx, dy, put); vec(a.st(), X, Y, !put); vec(a.st(), sx, sy, false);
	vp_check(a.r->execute(put ? 'P' : 'F') == ERROR_NONE, "no error"); int64_t w = 'o'; for(int p = 0; p < ext(sx) * ext(sy); ++p){ w = ((ox == wadd(dx, sx < 0 ? -p : p)) & (oy == dy)) ? m[k] : w; ++k; } vp_check(to.get(O) == w, "each cell of the area is copied to its place, and every other cell keeps what it holds"); vp_reach("end"); vp_end();
}
extern "C" void h_copy(){
	V a("a"); FungeConfig c = config98(); c.name = "b"; FungeUniverse* b = M().create(c); int put = vp_choose("put", 0, 1), miss = vp_choose("miss", 0, 1); Field& from = put ? a.u->getField() : b->getField(), &to = put ? b->getField() : a.u->getField(); int64_t sx = vp_choose("sx", -2, 2), sy = vp_choose("sy", -2, 2), X = 3, Y = vp_choose("Y", -1, 0) * 40 + 20, dx = vp_choose("dx", 0, 1) * -9 + 4, dy = 11, j = vp_i64("below");
	int64_t m[9][9], old[9][9]; for(int q = 0; q < 9; ++q) for(int p = 0; p < 9; ++p){ m[q][p] = vp_i64("cell"); vp_assume(m[q][p] != ' '); from.put(Vector{X + p - 4, Y + q - 4}, m[q][p]); old[q][p] = 'A' + p; to.put(Vector{dx + p - 4, dy + q - 4}, old[q][p]); }
	a.st().push(j); str(a.st(), miss ? "no" : "b"); vec(a.st(), dx, dy, put); vec(a.st(), X, Y, !put); vec(a.st(), sx, sy, false); FungeError e = a.r->execute(put ? 'P' : 'F'); vp_check((e == ERROR_NONE) == !miss, "a universe that does not exist is an error"); vp_check(stackIs(a.st(), &j, 1), "operands popped"); if(!miss) for(int q = 0; q < ext(sy); ++q) for(int p = 0; p < ext(sx); ++p){ int y = 4 + (sy < 0 ? -q : q), x = 4 + (sx < 0 ? -p : p); old[y][x] = m[y][x]; }
	int ok = 1; for(int q = 0; q < 9; ++q) for(int p = 0; p < 9; ++p) ok &= to.get(Vector{dx + p - 4, dy + q - 4}) == old[q][p]; vp_check(ok, "each cell of the area is copied, and every other cell keeps what it holds"); ok = 1; for(int q = 0; q < 9; ++q) for(int p = 0; p < 9; ++p) ok &= from.get(Vector{X + p - 4, Y + q - 4}) == m[q][p]; vp_check(ok, "the original stays"); vp_reach("end"); vp_end();
}
extern "C" void h_copy3(){
	V a("a", config98(3)); FungeConfig c = config98(3); c.name = "b"; FungeUniverse* b = M().create(c); int put = vp_choose("put", 0, 1); Field& from = put ? a.u->getField() : b->getField(), &to = put ? b->getField() : a.u->getField(); int64_t s[3], d[3] = {-1, 4, vp_choose("dz", -1, 1)}; for(auto& x : s) x = vp_choose("s", 0, 2); auto in = [&](int p, int q, int r){ return p < s[0] && q < s[1] && r < s[2]; };
	int64_t m[4][4][4]; for(int r = 0; r < 4; ++r) for(int q = 0; q < 4; ++q) for(int p = 0; p < 4; ++p){ m[r][q][p] = vp_i64("cell"); vp_assume(m[r][q][p] != ' '); from.put(Vector{5 + p, q, 2 + r}, m[r][q][p]); } str(a.st(), "b"); for(auto x : d) a.st().push(x); a.st().push(5); a.st().push(0); a.st().push(2); for(auto x : s) a.st().push(x); vp_check(a.r->execute(put ? 'P' : 'F') == ERROR_NONE, "no error"); vp_check(a.st().size() == 0, "operands popped");
	int ok = 1; for(int r = 0; r < 4; ++r) for(int q = 0; q < 4; ++q) for(int p = 0; p < 4; ++p){ Vector O{d[0] + p, d[1] + q, d[2] + r}; ok &= to.get(O) == (in(p, q, r) ? m[r][q][p] : (int64_t)(!put && p == 1 && d[1] + q == 0 && d[2] + r == 0 ? '@' : ' ')); } vp_check(ok, "an area of three dimensions is copied likewise"); vp_reach("end"); vp_end();
}
// the modes of a universe hold for an IP that enters it
extern "C" void h_mode(){
	V a("a"); uint32_t f = 0; for(int i = 0; i < 4; ++i) if(vp_choose("on", 0, 1)) f |= FUNGE_MODE_HOVER << i; str(a.st(), "b"); a.st().push(f ? f : 0x200); a.st().push(0); a.st().push(0); vp_check(a.r->execute('B') == ERROR_NONE, "no error"); str(a.st(), "b"); vp_check(a.r->execute('J') == ERROR_NONE, "no error");
	int64_t x = vp_i64("x"), y = vp_i64("y"); a.st().clear(); a.st().push(x); a.st().push(y); bool first = !(f & FUNGE_MODE_QUEUE) == !!(f & FUNGE_MODE_INVERT); vp_check(a.st().pop() == (first ? x : y), "the stack is in the modes of the universe"); a.r->execute('^'); int64_t dx = f & FUNGE_MODE_HOVER ? 1 : 0; vp_check(vecIs(a.r->getIP().getDelta(), {dx, -1}), "and so is the IP"); vp_reach("end"); vp_end();
}
