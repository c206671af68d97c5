//@ entry h_lahey2
//@ entry h_lahey3
//@ entry h_out2
//@ entry h_out3
//@ entry h_far
//@ entry h_torus
//@ entry h_hover
//@ entry h_turns
//@ bounds Lahey: every position inside a 4x3 field (3x2x2 in three dimensions) and every delta with components below 2^62 in magnitude; positions outside: up to 4 cells around the field (5 in three dimensions) and every delta of components -2..2 by -1..1 (-1..1 in three dimensions; thorough: 8 cells and -3..3 in two), and every distance below 2^61 along one axis; torus: every position of the 80x25 page and every unit delta
//@ assume torus: deltas of one cell, as in Befunge-93
//@ outside other field sizes
#include "funge_h.h"
static const int64_t BIG = 1ll << 62;
static void lahey(int D, const int64_t* lo, const int64_t* hi){
	World w("@", config98(D)); Vector a, b; for(int i = 0; i < D; ++i){ a.set(i, lo[i]); b.set(i, hi[i]); }
	w.field().put(a, 'a'); w.field().put(b, 'b');
	int64_t p[3] = {0, 0, 0}, d[3] = {0, 0, 0}, e[3]; Vector vp, vd;
	for(int i = 0; i < D; ++i){ p[i] = vp_range("p", lo[i], hi[i]); d[i] = vp_range("d", -BIG, BIG); vp.set(i, p[i]); vd.set(i, d[i]); }
	w.ip().setPos(vp); w.ip().setDelta(vd);
	vp_reach("set"); w.ip().next();
	auto in = [&](const int64_t* q){ int ok = 1; for(int i = 0; i < D; ++i) ok &= (q[i] >= lo[i]) & (q[i] <= hi[i]); return ok; };
	for(int i = 0; i < 3; ++i) e[i] = p[i] + d[i];
	if(!in(e)){
		// walk backwards from the old position while inside; the line through a box is connected
		for(int i = 0; i < 3; ++i) e[i] = p[i];
		for(int k = 0; k < 4; ++k){ int64_t n[3]; for(int i = 0; i < 3; ++i) n[i] = e[i] - d[i]; if(!in(n)) break; for(int i = 0; i < 3; ++i) e[i] = n[i]; }
		vp_reach("wrapped");
	}
	const Vector& r = w.ip().getPos();
	for(int i = 0; i < 3; ++i) vp_observe((U)r.get(i));
	vp_check((r.get(0) == e[0]) & (r.get(1) == e[1]) & (r.get(2) == e[2]), "the IP moves by delta, or re-enters at the opposite edge of the line it is on");
	vp_check((w.ip().getDelta().get(0) == d[0]) & (w.ip().getDelta().get(1) == d[1]) & (w.ip().getDelta().get(2) == d[2]), "delta is kept");
	vp_reach("end"); vp_end();
}
extern "C" void h_lahey2(){ static const int64_t lo[3] = {-1, 0, 0}, hi[3] = {2, 2, 0}; lahey(2, lo, hi); }
extern "C" void h_lahey3(){ static const int64_t lo[3] = {0, 0, -1}, hi[3] = {2, 1, 0}; lahey(3, lo, hi); }
// An IP outside the field that moves away from it comes back where the line it is on enters the field.
static void outside(int D, const int64_t* lo, const int64_t* hi, int R, int M, int N){
	World w("@", config98(D)); Vector a, b; for(int i = 0; i < D; ++i){ a.set(i, lo[i]); b.set(i, hi[i]); }
	w.field().put(a, 'a'); w.field().put(b, 'b');
	int64_t p[3] = {0, 0, 0}, d[3] = {0, 0, 0}, e[3], n[3]; Vector vp, vd;
	for(int i = 0; i < D; ++i){ p[i] = vp_range("p", lo[i] - R, hi[i] + R); d[i] = i == 0 ? vp_choose("d", -M, M) : vp_choose("e", -N, N); vp.set(i, p[i]); vd.set(i, d[i]); }
	auto in = [&](const int64_t* q){ int ok = 1; for(int i = 0; i < D; ++i) ok &= (q[i] >= lo[i]) & (q[i] <= hi[i]); return ok; };
	bool z = true; for(int i = 0; i < D; ++i) z = z && d[i] == 0; if(z) vp_end();
	if(in(p)) vp_end();
	w.ip().setPos(vp); w.ip().setDelta(vd); w.ip().next();
	for(int i = 0; i < 3; ++i) e[i] = p[i] + d[i];
	if(!in(e)){
		int k = 1; for(; k <= R + 1; ++k){ for(int i = 0; i < 3; ++i) n[i] = p[i] - k*d[i]; if(in(n)) break; }
		if(k <= R + 1){
			vp_reach("back");
			while(in(n)){ for(int i = 0; i < 3; ++i){ e[i] = n[i]; n[i] -= d[i]; } }
		}else{ vp_reach("away"); }
	}else{ vp_reach("enters"); }
	const Vector& r = w.ip().getPos();
	vp_check((r.get(0) == e[0]) & (r.get(1) == e[1]) & (r.get(2) == e[2]), "an IP outside the field comes back to the line it is on, if that line meets the field");
	vp_check((w.ip().getDelta().get(0) == d[0]) & (w.ip().getDelta().get(1) == d[1]) & (w.ip().getDelta().get(2) == d[2]), "delta is kept");
	vp_reach("end"); vp_end();
}
extern "C" void h_out2(){ static const int64_t lo[3] = {-1, 0, 0}, hi[3] = {2, 2, 0}; 
#if VP_THOROUGH
	outside(2, lo, hi, 8, 3, 3);
#else
	outside(2, lo, hi, 4, 2, 1);
#endif
}
extern "C" void h_out3(){ static const int64_t lo[3] = {0, 0, -1}, hi[3] = {2, 1, 0}; outside(3, lo, hi, 5, 1, 1); }
extern "C" void h_far(){
	World w("@", config98()); w.field().put(Vector{3, 2}, 'b'); int ax = vp_choose("axis", 0, 1), dir = vp_choose("dir", 0, 1) ? 1 : -1;
	int64_t far = vp_range("far", 5, 1ll << 61), o = vp_range("other", 0, 2), top = ax ? 2 : 3;
	int64_t p = dir > 0 ? far : -far; Vector vp = ax ? Vector{o, p} : Vector{p, o};
	w.ip().setPos(vp); w.ip().setDelta(ax ? Vector{0, dir} : Vector{dir, 0}); w.ip().next();
	int64_t e = dir > 0 ? 0 : top;
	vp_check(vecIs(w.ip().getPos(), ax ? std::initializer_list<int64_t>{o, e} : std::initializer_list<int64_t>{e, o}), "an IP far outside the field comes back at once");
	vp_reach("end"); vp_end();
}
extern "C" void h_torus(){
	World w("@", config93()); int64_t x = vp_range("x", 0, 79), y = vp_range("y", 0, 24);
	int64_t dx = 0, dy = 0; switch(vp_choose("dir", 0, 3)){ case 0: dx = 1; break; case 1: dx = -1; break; case 2: dy = 1; break; default: dy = -1; }
	w.ip().setPos(Vector{x, y}); w.ip().setDelta(Vector{dx, dy}); w.ip().next();
	int64_t ex = x + dx, ey = y + dy; if(ex == 80) ex = 0; if(ex == -1) ex = 79; if(ey == 25) ey = 0; if(ey == -1) ey = 24;
	const Vector& r = w.ip().getPos();
	vp_check((r.get(0) == ex) & (r.get(1) == ey) & (r.get(2) == 0), "Befunge-93: the IP moves on an 80x25 torus");
	vp_reach("end"); vp_end();
}
extern "C" void h_hover(){
	FungeConfig c = config98(); if(vp_choose("hover", 0, 1)) c.mode = FUNGE_MODE_HOVER; World w("@", c);
	int64_t d[2], e[2]; for(int i = 0; i < 2; ++i){ d[i] = vp_i64("d"); e[i] = vp_i64("e"); }
	w.ip().setDelta(Vector{d[0], d[1]}); int64_t s[2] = {w.ip().getDelta().get(0), w.ip().getDelta().get(1)};
	w.ip().setDelta(Vector{e[0], e[1]}); bool h = c.mode & FUNGE_MODE_HOVER;
	vp_check((w.ip().getDelta().get(0) == (h ? wadd(s[0], e[0]) : e[0])) & (w.ip().getDelta().get(1) == (h ? wadd(s[1], e[1]) : e[1])), "setting a delta replaces it, or adds to it in hover mode");
	vp_reach("end"); vp_end();
}
extern "C" void h_turns(){
	FungeConfig c = config98(); if(vp_choose("hover", 0, 1)) c.mode = FUNGE_MODE_HOVER; World w("@", c); w.ip().setDelta(Vector{vp_i64("x"), vp_i64("y")}); int64_t x = w.ip().getDelta().get(0), y = w.ip().getDelta().get(1);
	int64_t ex, ey;
	switch(vp_choose("op", 0, 2)){ case 0: w.ip().reflect(); ex = wneg(x); ey = wneg(y); break; case 1: w.ip().left(); ex = y; ey = wneg(x); break; default: w.ip().right(); ex = wneg(y); ey = x; }
	vp_check(vecIs(w.ip().getDelta(), {ex, ey}), "turn");
	w.ip().stop(); vp_check(w.ip().isStopped(), "stopped"); w.ip().setPos(Vector{x, y}); w.ip().next(); vp_check(vecIs(w.ip().getPos(), {x, y}), "a stopped IP does not move");
	vp_reach("end"); vp_end();
}
