//@ entry h_write
//@ entry h_read
//@ entry h_round
//@ entry h_missing
//@ bounds areas of 0..2 by 0..2 cells (thorough 3 by 2) of arbitrary 64-bit values, and -1 for either extent; any position and storage offset for writing; files of 0..3 (thorough 4) arbitrary bytes for reading, in text and binary mode, at any position; 1 and 2 dimensions
//@ assume in the round trip the cells are characters other than line ends and form feeds; storage offsets and positions do not overflow within the area
//@ outside larger files; output of more than one plane
#include "funge_h.h"
#include <cstring>
static const char* NM = "f.txt";
static void name(Stack& s){ s.push(0); for(const char* p = NM + strlen(NM); p > NM; ) s.push(*--p); }
static int64_t off(const char* n){ return vp_range(n, -(1ll << 40), 1ll << 40); }
struct A { int D; int64_t sx, sy, ax, ay; int w, h; int64_t g; };
static World* area(A& a, int lo){
	a.D = vp_choose("dims", 1, 2); World* w = new World("@", config98(a.D)); a.sx = off("sx"); a.sy = a.D > 1 ? off("sy") : 0; a.ax = off("ax"); a.ay = a.D > 1 ? off("ay") : 0;
	w->ip().setStorage(Vector{a.sx, a.sy}); a.w = vp_choose("w", lo, VP_THOROUGH ? 3 : 2); a.h = a.D > 1 ? vp_choose("h", lo, 2) : 1;
	a.g = vp_i64("guard"); w->st().push(a.g); return w;
}
static void vec(A& a, Stack& s, int64_t x, int64_t y){ s.push(x); if(a.D > 1) s.push(y); }
extern "C" void h_write(){
	A a; World* w = area(a, -1); bool text = vp_choose("text", 0, 1); int64_t other = vp_i64("flags"); int64_t flags = text ? other | 1 : other & ~1ll;
	vp_assume((a.sx + a.ax < -4) | (a.sx + a.ax > 0)); int64_t c[3][2]; std::string want;
	for(int y = 0; y < a.h; ++y){
		std::string line; int sp = 0;
		for(int x = 0; x < a.w; ++x){
			c[x][y] = vp_i64("cell"); w->field().put(Vector{a.sx + a.ax + x, a.sy + a.ay + y}, c[x][y]);
			if(text && c[x][y] == ' ') ++sp; else { for(; sp; --sp) line.push_back(' '); line.push_back((char)c[x][y]); }
		}
		want += line; want.push_back('\n');
	}
	if(a.w > 0 && vp_choose("existing", 0, 1)) vp_file_put(NM, "an older\nfile\n");
	vec(a, w->st(), a.w, a.h); vec(a, w->st(), a.ax, a.ay); w->st().push(flags); name(w->st());
	vp_check(w->ex('o') == ERROR_NONE, "o succeeds"); vp_check(stackIs(w->st(), &a.g, 1), "o pops file name, flags, position and size only");
	std::string got; bool there = vp_file_get(NM, got); vp_check(there, "the file is written");
	vp_check(got.size() == want.size(), text ? "text output leaves out the spaces before line ends and nothing else" : "output is the rows of the area, each with a line end");
	if(got.size() == want.size()){ int ok = 1; for(size_t i = 0; i < got.size(); ++i) ok &= got[i] == want[i]; vp_check(ok, "the file holds the cells of the area"); }
	int same = 1; for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x) same &= w->field().get(Vector{a.sx + a.ax + x, a.sy + a.ay + y}) == c[x][y]; vp_check(same, "writing a file leaves fungespace alone");
	vp_reach("end"); vp_end();
}
extern "C" void h_read(){
	A a; a.D = 2; World* w = new World("@", config98(2)); a.sx = off("sx"); a.sy = off("sy"); a.ax = off("ax"); a.ay = off("ay"); w->ip().setStorage(Vector{a.sx, a.sy}); a.g = vp_i64("guard"); w->st().push(a.g);
	bool bin = vp_choose("binary", 0, 1); int64_t other = vp_i64("flags"), flags = bin ? other | 1 : other & ~1ll; int n = vp_choose("len", 0, VP_THOROUGH ? 4 : 3); uint8_t b[4]; std::string s;
	for(int i = 0; i < n; ++i){ b[i] = vp_u8("byte"); s.push_back((char)b[i]); } vp_file_put(NM, s);
	// where each byte goes, relative to the position given
	int64_t x[4], y[4], X = 0, Y = 0, mx = 0, my = 0; bool cell[4];
	for(int i = 0; i < n; ++i){
		cell[i] = false; x[i] = X; y[i] = Y;
		if(!bin && (b[i] == '\n' || b[i] == '\r')){ if(b[i] == '\r' && i + 1 < n && b[i + 1] == '\n'){ ++i; cell[i] = false; x[i] = y[i] = 0; } X = 0; ++Y; }
		else if(!bin && (b[i] == '\f' || b[i] == '\v')) ; else { cell[i] = true; ++X; }
		if(X > mx) mx = X; if(Y > my) my = Y;
	}
	int64_t under = vp_i64("under"); w->field().put(Vector{a.sx + a.ax, a.sy + a.ay}, under);
	vec(a, w->st(), a.ax, a.ay); w->st().push(flags); name(w->st());
	vp_check(w->ex('i') == ERROR_NONE, "i succeeds");
	int ok = 1; for(int i = 0; i < n; ++i) if(cell[i]) ok &= (b[i] == ' ') | (w->field().get(Vector{a.sx + a.ax + x[i], a.sy + a.ay + y[i]}) == b[i]); vp_check(ok, "each byte is in its cell");
	// spaces do not overwrite what is there; nothing else changes
	bool over = false; for(int i = 0; i < n; ++i) if(cell[i] && x[i] == 0 && y[i] == 0 && b[i] != ' ') over = true;
	if(!over) vp_check(w->field().get(Vector{a.sx + a.ax, a.sy + a.ay}) == under, "spaces in the file leave cells as they are");
	int64_t e[5] = {a.g, mx, my, a.ax, a.ay}; vp_check(stackIs(w->st(), e, 5), "i leaves the size of the text and the position, as o takes them"); vp_reach("end"); vp_end();
}
extern "C" void h_round(){
	// what o writes, i reads back, with the operands that i itself supplies for a second o
	A a; World* w = area(a, 1); bool text = vp_choose("text", 0, 1); int64_t c[3][2]; vp_assume((a.sx + a.ax < -8) | (a.sx + a.ax > 0));
	for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x){ c[x][y] = vp_range("cell", 14, 255); w->field().put(Vector{a.sx + a.ax + x, a.sy + a.ay + y}, c[x][y]); }
	vec(a, w->st(), a.w, a.h); vec(a, w->st(), a.ax, a.ay); w->st().push(text); name(w->st()); vp_check(w->ex('o') == ERROR_NONE, "o succeeds");
	std::string first; vp_file_get(NM, first);
	for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x) w->field().put(Vector{a.sx + a.ax + x, a.sy + a.ay + y}, ' ');
	vec(a, w->st(), a.ax, a.ay); w->st().push(0); name(w->st()); vp_check(w->ex('i') == ERROR_NONE, "i succeeds");
	int same = 1; for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x) same &= w->field().get(Vector{a.sx + a.ax + x, a.sy + a.ay + y}) == c[x][y]; vp_check(same, "i restores exactly the cells that o wrote");
	Stack& s = w->st(); vp_check(s.size() == (size_t)(1 + 2 * a.D), "position and size are left"); vp_check(a.D == 1 ? s.get(1) == a.ax : (s.get(1) == a.ay) & (s.get(2) == a.ax), "the position is relative to the storage offset, as o takes it"); vp_reach("end"); vp_end();
}
extern "C" void h_missing(){
	World w("@", config98()); int64_t v[2]; pushSyms(w.st(), v, 2); w.st().push(1); w.st().push(2); w.st().push(0); name(w.st());
	w.field().put(Vector{0}, 'i'); int opens = vp_file_count(); w.tick();
	vp_check(vecIs(w.ip().getDelta(), {-1}), "reading a file that is not there reflects"); vp_check(stackIs(w.st(), v, 2), "and pops the operands"); vp_check(vp_file_count() == opens, "and creates no file");
	vp_check(w.field().get(Vector{0}) == 'i', "and changes no cell"); vp_reach("end"); vp_end();
}
