//@ entry h_last_write
//@ entry h_observers
//@ entry h_negative
//@ bounds 3 writes (thorough 4) of arbitrary 64-bit values at arbitrary positions of 1..2 dimensions (one case with 3), read back at an arbitrary position; both cell sizes
//@ outside more than 4 writes between reads
#include "funge_h.h"
static FungeCell cells(){ return vp_choose("cells", 0, 1) ? CELL_CHAR : CELL_INT; }
static int64_t stored(FungeCell c, int64_t v){ return c == CELL_CHAR ? (int64_t)(int8_t)(uint8_t)v : v; }
struct P { int64_t c[3]; };
static Vector pos(P& p, int d, const char* nm){ for(int i = 0; i < 3; ++i) p.c[i] = i < d ? vp_i64(nm) : 0; return d == 1 ? Vector{p.c[0]} : d == 2 ? Vector{p.c[0], p.c[1]} : Vector{p.c[0], p.c[1], p.c[2]}; }
static int eq(const P& a, const P& b){ return (a.c[0] == b.c[0]) & (a.c[1] == b.c[1]) & (a.c[2] == b.c[2]); }
extern "C" void h_last_write(){
	FungeCell cs = cells(); Field* f = new Field(3, cs);
	int n = vp_choose("n", 0, VP_THOROUGH ? 4 : 3); P p[4]; int64_t v[4];
	for(int i = 0; i < n; ++i){ Vector x = pos(p[i], 2, "p"); v[i] = vp_i64("v"); f->put(x, v[i]); }
	P q; Vector y = pos(q, vp_choose("qd", 1, 2), "q");
	int64_t e = ' '; for(int i = 0; i < n; ++i) e = eq(p[i], q) ? stored(cs, v[i]) : e;
	int64_t g = f->get(y); vp_observe((U)g);
	vp_check(g == e, "a cell reads as the value written last, a space when never written");
	vp_check((*f)[y] == e, "indexing is get");
	vp_reach("end"); vp_end();
}
extern "C" void h_negative(){
	FungeCell cs = cells(); Field* f = new Field(0, cs); P p, r, q;
	Vector x = pos(p, vp_choose("pd", 1, 3), "p"); int64_t v = vp_i64("v"); f->put(x, v);
	Vector y = pos(r, vp_choose("rd", 1, 3), "r"); int64_t w = vp_i64("w"); f->put(y, w);
	Vector z = pos(q, 3, "q");
	int64_t e = eq(r, q) ? stored(cs, w) : eq(p, q) ? stored(cs, v) : ' ';
	vp_check(f->get(z) == e, "positions of different dimension counts name the same cell when their components agree");
	vp_reach("end"); vp_end();
}
extern "C" void h_observers(){
	Field* f = new Field(2, CELL_INT); static int calls; static int64_t seen; static Vector at; calls = 0;
	f->addObserver([](const Vector& p, inst_t i){ ++calls; seen = i; at = p; });
	static int calls2; calls2 = 0; f->addObserver([](const Vector&, inst_t){ ++calls2; });
	P p; Vector x = pos(p, 2, "p"); int64_t v = vp_i64("v"); f->put(x, v);
	vp_check((calls == 1) & (calls2 == 1) & (seen == v) & (at.get(0) == p.c[0]) & (at.get(1) == p.c[1]), "every write is reported to every observer");
	f->get(x); vp_check(calls == 1, "reads are not reported");
	vp_reach("end"); vp_end();
}
