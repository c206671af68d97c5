//@ entry h_enclose
//@ entry h_enclose3
//@ entry h_shrink
//@ bounds 3 writes (thorough 4) of a space or a non-space value at arbitrary positions of 1..2 (h_enclose3: 1..3) dimensions; bounds compared at an arbitrary position
//@ outside more than 4 writes
#include "funge_h.h"
struct P { int64_t c[3]; };
static Vector pos(P& p, int d, const char* nm){ for(int i = 0; i < 3; ++i) p.c[i] = i < d ? vp_i64(nm) : 0; return d == 1 ? Vector{p.c[0]} : d == 2 ? Vector{p.c[0], p.c[1]} : Vector{p.c[0], p.c[1], p.c[2]}; }
static int eq(const P& a, const P& b){ return (a.c[0] == b.c[0]) & (a.c[1] == b.c[1]) & (a.c[2] == b.c[2]); }
// k writes; live[i]: write i is still visible and not a space
static void body(int k, int D, bool mixed){
	Field* f = new Field(0, CELL_INT); P p[4]; int sp[4];
	for(int i = 0; i < k; ++i){ Vector x = pos(p[i], mixed ? vp_choose("d", 1, D) : D, "p"); sp[i] = vp_choose("space", 0, 1); f->put(x, sp[i] ? ' ' : 'x'); }
	int live[4]; for(int i = 0; i < k; ++i){ live[i] = !sp[i]; for(int j = i + 1; j < k; ++j) live[i] &= !(sp[j] & eq(p[i], p[j])); }
	for(int d = 0; d < D; ++d){
		int64_t lo = f->min(d), hi = f->max(d); int tl = lo == 0, th = hi == 0, in = 1;
		for(int i = 0; i < k; ++i){ in &= !live[i] | ((lo <= p[i].c[d]) & (p[i].c[d] <= hi)); tl |= live[i] & (p[i].c[d] == lo); th |= live[i] & (p[i].c[d] == hi); }
		vp_check(in, "the bounds enclose every cell that is not a space");
		vp_check(tl & th, "each bound is the coordinate of such a cell, or 0");
	}
	vp_reach("end"); vp_end();
}
extern "C" void h_enclose(){ body(VP_THOROUGH ? 4 : 3, 2, false); }
extern "C" void h_enclose3(){ body(VP_THOROUGH ? 3 : 2, 3, true); }
extern "C" void h_shrink(){
	// a far cell is written and erased again: the bounds return
	Field* f = new Field(2, CELL_INT); P a, b;
	f->put(Vector{0, 0}, '@'); Vector x = pos(a, 2, "a"); vp_assume(!((a.c[0] == 0) & (a.c[1] == 0))); f->put(x, 'x'); f->put(x, ' ');
	vp_check((f->min(0) == 0) & (f->max(0) == 0) & (f->min(1) == 0) & (f->max(1) == 0), "erasing the only cell at an edge brings the bounds back");
	Vector y = pos(b, 1, "b"); f->put(y, 'y');
	vp_check((f->min(0) == (b.c[0] < 0 ? b.c[0] : 0)) & (f->max(0) == (b.c[0] > 0 ? b.c[0] : 0)), "and later writes extend them again");
	vp_check((f->min(1) == 0) & (f->max(1) == 0), "in the dimensions concerned only");
	vp_reach("end"); vp_end();
}
