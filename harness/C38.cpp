//@ entry h_pairs t=600 tt=2400
//@ entry h_strings t=300
//@ entry h_modify t=300
//@ bounds programs of three cells between fixed ones on two rows: the first two any of 43 core instructions, blanks or unknown cells, the third any of 4 (thorough: any); initial stack of up to 3 arbitrary 64-bit cells (two of them, then one of -1..3); 4 ticks (thorough 6)
//@ assume jumps by at most 3, iteration and blocks of at most 3 (from -2), deltas set by x of -1..1, cells written by p in a window of 6x4 cells around the program; k is not followed by k or by the end of a string
//@ outside input and output of numbers, files, fingerprints, y, t, q, ? (which have properties of their own); * / % except in strings and texts
#include "funge_h.h"
#include <cstring>
// A small reading of the standard, kept apart from the implementation: one IP, a window of fungespace, stacks as arrays.
static const int X0 = -1, X1 = 5, Y0 = -1, Y1 = 2, NS = 6, NC = 28;
enum { OK, SKIP, FAIL };
struct Ref {
	int64_t cell[Y1 - Y0 + 1][X1 - X0 + 1], st[NS][NC]; int n[NS], ns = 1; int64_t x = 0, y = 0, dx = 1, dy = 0, sx = 0, sy = 0; bool str = false, run = true, blank = false; int lx, ly, hx, hy, guard = 0; VpExpect out;
	Ref(){ for(auto& r : cell) for(auto& c : r) c = ' '; for(int& i : n) i = 0; }
	int64_t& at(int64_t px, int64_t py){ return cell[py - Y0][px - X0]; }
	void bounds(){ bool any = false; for(int py = Y0; py <= Y1; ++py) for(int px = X0; px <= X1; ++px) if(at(px, py) != ' '){ if(!any){ lx = hx = px; ly = hy = py; any = true; } if(px < lx) lx = px; if(px > hx) hx = px; if(py < ly) ly = py; if(py > hy) hy = py; } vp_assume(any); }
	bool in(int64_t px, int64_t py){ return px >= lx && px <= hx && py >= ly && py <= hy; }
	int64_t get(){ return x >= X0 && x <= X1 && y >= Y0 && y <= Y1 ? at(x, y) : (int64_t)' '; }
	void next(){
		if(!run) return;
		int64_t ax = x + dx, ay = y + dy;
		if(!in(ax, ay)){
			ax = x; ay = y; int k = 0; bool found = true; if(!in(ax, ay)){ do { ax -= dx; ay -= dy; } while(!in(ax, ay) && ++k < 16); found = in(ax, ay) && (dx || dy); }
			if(!found){ x += dx; y += dy; return; }
			vp_assume(dx != 0 || dy != 0); while(in(ax - dx, ay - dy)){ ax -= dx; ay -= dy; }
		}
		x = ax; y = ay;
	}
	void push(int64_t v){ st[ns - 1][n[ns - 1]++] = v; }
	int64_t pop(int s){ return n[s] ? st[s][--n[s]] : 0; }
	int64_t pop(){ return pop(ns - 1); }
	void reflect(){ dx = -dx; dy = -dy; }
	void left(){ int64_t t = dx; dx = dy; dy = -t; }
	void right(){ int64_t t = dx; dx = -dy; dy = t; }
	int64_t small(int64_t v, int lo, int hi){ vp_assume((v >= lo) & (v <= hi)); for(int i = lo; i <= hi; ++i) if(v == i) return i; return hi; }
	int exec(int64_t c){
		if(str){
			if(c == '"'){ str = false; return OK; }
			bool sp = c == ' ' || (c >= 9 && c <= 13); if(sp && blank) return SKIP; blank = sp; push(c); return OK;
		}
		switch(c){
			case ' ': case '\t': return SKIP;
			case '.': case '&': case '~': case '?': case 'y': case 't': case 'q': case 'i': case 'o': case '=': case '(': case ')': vp_assume(0); return OK;
			case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': push(c - '0'); return OK;
			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f': push(c - 'a' + 10); return OK;
			case '+': { int64_t b = pop(), a = pop(); push(wadd(a, b)); return OK; }
			case '-': { int64_t b = pop(), a = pop(); push(wsub(a, b)); return OK; }
			case '*': { int64_t b = pop(), a = pop(); push(wmul(a, b)); return OK; }
			case '/': { int64_t b = pop(), a = pop(); push(b == 0 ? 0 : b == -1 ? wneg(a) : a / b); return OK; }
			case '%': { int64_t b = pop(), a = pop(); push(b == 0 || b == -1 ? 0 : a % b); return OK; }
			case '`': { int64_t b = pop(), a = pop(); push(a > b); return OK; }
			case '!': push(pop() == 0); return OK;
			case ':': { int64_t a = pop(); push(a); push(a); return OK; }
			case '\\': { int64_t b = pop(), a = pop(); push(b); push(a); return OK; }
			case '$': pop(); return OK;
			case 'n': n[ns - 1] = 0; return OK;
			case '>': dx = 1; dy = 0; return OK;
			case '<': dx = -1; dy = 0; return OK;
			case '^': dx = 0; dy = -1; return OK;
			case 'v': dx = 0; dy = 1; return OK;
			case '_': dy = 0; dx = pop() == 0 ? 1 : -1; return OK;
			case '|': dx = 0; dy = pop() == 0 ? 1 : -1; return OK;
			case '[': left(); return OK;
			case ']': right(); return OK;
			case 'w': { int64_t b = pop(), a = pop(); if(a < b) left(); else if(a > b) right(); return OK; }
			case 'r': reflect(); return OK;
			case 'x': { int64_t b = pop(), a = pop(); dx = small(a, -1, 1); dy = small(b, -1, 1); return OK; }
			case '#': next(); return OK;
			case '@': run = false; return OK;
			case 'z': return OK;
			case ';': do { next(); vp_assume(++guard < 60); } while(get() != ';'); return SKIP;
			case 'j': { int64_t k = small(pop(), -3, 3); if(k < 0){ reflect(); k = -k; while(k--) next(); reflect(); } else while(k--) next(); return OK; }
			case 'k': {
				int64_t ox = x, oy = y; next(); while(get() == ' ' || get() == ';'){ if(get() == ';'){ do { next(); vp_assume(++guard < 60); } while(get() != ';'); } next(); vp_assume(++guard < 60); }
				int64_t c2 = get(); x = ox; y = oy; vp_assume((c2 != 'k') & (c2 != '"')); int64_t k = small(pop(), 0, 3);
				if(k == 0) next(); else while(k--) if(exec(c2) == FAIL) reflect(); return OK; }
			case '\'': next(); push(get()); return OK;
			case 's': { next(); vp_assume(x >= X0 && x <= X1 && y >= Y0 && y <= Y1); at(x, y) = pop(); bounds(); return OK; }
			case 'g': { int64_t b = wadd(pop(), sy), a = wadd(pop(), sx), v = ' '; for(int py = Y0; py <= Y1; ++py) for(int px = X0; px <= X1; ++px){ int64_t m = -(int64_t)((a == px) & (b == py)); v = (v & ~m) | (at(px, py) & m); } push(v); return OK; }
			case 'p': { int64_t b = wadd(pop(), sy), a = wadd(pop(), sx), v = pop(); a = small(a, X0, X1 - 1); b = small(b, Y0, Y1); at(a, b) = v; bounds(); return OK; }
			case '{': { int64_t k = small(pop(), -2, 3), t[3]; for(int i = 0; i < k; ++i) t[i] = pop(); for(int i = 0; i < -k; ++i) push(0); push(sx); push(sy); ++ns; n[ns - 1] = 0; for(int i = (int)k; i > 0; --i) push(t[i - 1]); sx = x + dx; sy = y + dy; return OK; }
			case '}': { if(ns < 2) return FAIL; int64_t k = small(pop(), -2, 3), t[3]; sy = pop(ns - 2); sx = pop(ns - 2); for(int i = 0; i < k; ++i) t[i] = pop(); --ns; for(int i = (int)k; i > 0; --i) push(t[i - 1]); for(int i = 0; i < -k; ++i) pop(); return OK; }
			case 'u': { if(ns < 2) return FAIL; int64_t k = small(pop(), -2, 3); for(int i = 0; i < k; ++i) push(pop(ns - 2)); for(int i = 0; i < -k; ++i){ int64_t t = pop(); st[ns - 2][n[ns - 2]++] = t; } return OK; }
			case '"': str = true; blank = false; return OK;
			case ',': out.ch(pop()); return OK;
			default: return FAIL;
		}
	}
	void tick(){ guard = 0; int e; do { e = exec(get()); if(e == FAIL) reflect(); next(); vp_assume(++guard < 60); } while(e == SKIP); }
};
static void same(World& w, Ref& m){
	vp_check(w.r->isRunning() == m.run, "the IP runs, or has ended");
	vp_check(w.ss().size() == (size_t)m.ns, "the number of stacks"); for(int i = 0; i < m.ns; ++i) vp_check(stackIs(w.ss().at(m.ns - 1 - i), m.st[i], m.n[i]), "the cells of every stack");
	if(m.run){ vp_check(vecIs(w.ip().getPos(), {m.x, m.y}), "position"); vp_check(vecIs(w.ip().getDelta(), {m.dx, m.dy}), "delta"); }
	vp_check(vecIs(w.ip().getStorage(), {m.sx, m.sy}), "storage offset");
	int ok = 1; for(int y = Y0; y <= Y1; ++y) for(int x = X0; x <= X1; ++x) ok &= w.field().get(Vector{x, y}) == m.at(x, y); vp_check(ok, "every cell");
	vp_check(vp_out_is(m.out), "output");
}
static void run(World& w, Ref& m, const char* rows[2], int ticks){
	for(int y = 0; y < 2; ++y) for(int x = 0; rows[y][x]; ++x){ m.at(x, y) = rows[y][x]; w.field().put(Vector{x, y}, rows[y][x]); }
	m.bounds(); for(int i = 0; i < ticks && m.run; ++i){ m.tick(); w.tick(); } same(w, m); vp_reach("end"); vp_end();
}
static void stack(World& w, Ref& m, bool full = VP_THOROUGH){ int n = full || vp_choose("depth", 0, 1) ? 3 : 0; for(int i = 0; i < n; ++i){ int64_t v = i < n - 1 ? vp_i64("s") : vp_range("t", -1, 3); m.push(v); w.st().push(v); } }
static const char ALL[] = "0123a+-`!:\\$n><^v_|[]wrx#@z;jk'sgp{}u\",A ";
static char pick(const char* set){ return set[vp_choose("cell", 0, (int)strlen(set) - 1)]; }
extern "C" void h_pairs(){
	World w("@", config98()); Ref m; stack(w, m, true); char row[5] = {pick(ALL), pick(ALL), pick(VP_THOROUGH ? ALL : "1;k<"), '@', 0}; const char* rows[2] = {row, "2:1@"}; run(w, m, rows, VP_THOROUGH ? 6 : 4);
}
extern "C" void h_strings(){
	static const char S[] = "\" a;#k2$<"; World w("@", config98()); Ref m; char row[6] = {'"', pick(S), pick(S), pick(S), VP_THOROUGH ? pick(S) : ':', 0}; const char* rows[2] = {row, "2:1@"}; run(w, m, rows, 8);
}
extern "C" void h_modify(){
	static const char S[] = "pgs'{}u:102\\ "; World w("@", config98()); Ref m; stack(w, m); char row[6] = {pick(S), pick(S), pick(S), VP_THOROUGH ? pick(S) : 'g', '@', 0}; const char* rows[2] = {row, "2:1@"}; run(w, m, rows, 5);
}
