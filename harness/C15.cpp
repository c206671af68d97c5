//@ entry h_put_get
//@ entry h_get
//@ entry h_fetch_store
//@ entry h_char_cells
//@ bounds any 64-bit address, storage offset and value; 1..3 dimensions; two stored cells (in three dimensions, quick tier: the other cell at storage + (5,6,7))
//@ outside more dimensions
#include "funge_h.h"
static int D; static int64_t sto[3];
static World* setup(bool chars = false){
	D = vp_choose("dims", 1, 3); FungeConfig c = config98(D); if(chars) c.cells = CELL_CHAR; World* w = new World("@", c);
	Vector a; for(int i = 0; i < 3; ++i){ sto[i] = i < D ? vp_i64("sto") : 0; a.set(i, sto[i]); } w->ip().setStorage(a); return w;
}
static Vector abs(const int64_t* a){ Vector r; for(int i = 0; i < D; ++i) r.set(i, wadd(a[i], sto[i])); return r; }
static int eqv(const int64_t* a, const int64_t* b){ int ok = 1; for(int i = 0; i < D; ++i) ok &= a[i] == b[i]; return ok; }
extern "C" void h_put_get(){
	World* w = setup(); int64_t g = vp_i64("guard"), x = vp_i64("value"), a[3], b[3]; w->st().push(g);
	// a cell is there already; another is written with p
	for(int i = 0; i < D; ++i){ b[i] = D < 3 || VP_THOROUGH ? vp_i64("b") : i + 5; } int64_t y = vp_i64("old"); w->field().put(abs(b), y);
	w->st().push(x); for(int i = 0; i < D; ++i){ a[i] = vp_i64("a"); w->st().push(a[i]); }
	vp_check(w->ex('p') == ERROR_NONE, "p succeeds");
	vp_check(stackIs(w->st(), &g, 1), "p pops value and address only");
	vp_check(w->field().get(abs(a)) == x, "p writes the whole 64-bit value at address plus storage offset");
	vp_check(eqv(a, b) | (w->field().get(abs(b)) == y), "p changes no other cell");
	for(int i = 0; i < D; ++i) w->st().push(b[i]); int64_t want = eqv(a, b) ? x : y;
	vp_check(w->ex('g') == ERROR_NONE, "g succeeds"); int64_t e[2] = {g, want};
	vp_check(stackIs(w->st(), e, 2), "g pushes the cell at address plus storage offset");
	vp_check(vecIs(w->ip().getPos(), {0}) & vecIs(w->ip().getDelta(), {1}), "the IP is not affected");
	vp_reach("end"); vp_end();
}
extern "C" void h_get(){
	// short stacks: missing components are 0; an unset cell reads as a space
	World* w = setup(); int n = vp_choose("given", 0, D - 1); int64_t a[3] = {0, 0, 0};
	for(int i = 0; i < n; ++i){ a[D - n + i] = vp_i64("a"); w->st().push(a[D - n + i]); }
	Vector at = abs(a); int64_t want = ((at.get(0) == 0) & (at.get(1) == 0) & (at.get(2) == 0)) ? '@' : ' ';
	vp_check(w->ex('g') == ERROR_NONE, "g succeeds"); vp_check(stackIs(w->st(), &want, 1), "a cell never written reads as a space");
	vp_reach("end"); vp_end();
}
extern "C" void h_fetch_store(){
	World w("'x  @", config98()); int64_t y = vp_i64("cell"), x = vp_i64("value");
	if(vp_choose("store", 0, 1)){
		w.field().put(Vector{0}, 's'); w.st().push(x); w.tick();
		vp_check(w.field().get(Vector{1}) == x, "s writes the whole value into the next cell"); vp_check(w.st().size() == 0, "s pops it");
	} else {
		w.field().put(Vector{1}, y); w.tick();
		vp_check(stackIs(w.st(), &y, 1), "' pushes the whole value of the next cell"); vp_check(w.field().get(Vector{1}) == y, "and leaves the cell");
	}
	vp_check(vecIs(w.ip().getPos(), {2}), "the IP passes over the cell"); vp_reach("end"); vp_end();
}
extern "C" void h_char_cells(){
	World* w = setup(true); int64_t x = vp_i64("value"), a[3]; w->st().push(x); for(int i = 0; i < D; ++i){ a[i] = vp_i64("a"); w->st().push(a[i]); }
	vp_check(w->ex('p') == ERROR_NONE, "p succeeds"); for(int i = 0; i < D; ++i) w->st().push(a[i]); vp_check(w->ex('g') == ERROR_NONE, "g succeeds");
	int64_t e = (int64_t)(signed char)x; vp_check(stackIs(w->st(), &e, 1), "a char-sized cell keeps the low byte"); vp_reach("end"); vp_end();
}
