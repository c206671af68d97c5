//@ entry h_call
//@ entry h_jump
//@ entry h_return
//@ entry h_round
//@ entry h_negative
//@ entry h_refc
//@ bounds counts 0..3 (negative: any), stacks of 0 to 4 arbitrary cells below the operands, addresses anywhere in a 6x3x2 field, 1 to 3 dimensions, any delta for return, absolute and relative mode; two arbitrary vectors stored as references, each dereferenced up to three times in any order, every random draw
//@ assume REFC: at most two draws
//@ outside counts beyond the memory; dereferencing what is no reference
#include "funge_h.h"
static const uint64_t SUBR = 0x53554252, REFC = 0x52454643;
static int D; static int64_t at[3];
static World* field(uint64_t fp){
	D = vp_choose("dims", 1, 3); FungeConfig c = config98(D); c.fingerprints.push_back(fp); World* w = new World("@", c); w->field().put(Vector{5, D > 1 ? 2 : 0, D > 2 ? 1 : 0}, '@');
	at[0] = 2; at[1] = D > 1 ? 1 : 0; at[2] = 0; w->ip().setPos(Vector{at[0], at[1], at[2]}); return w;
}
// an address in the field and the operand that names it
static void address(World* w, int64_t* va, bool rel){
	static const int64_t hi[3] = {5, 2, 1}; for(int i = 0; i < 3; ++i){ va[i] = i < D ? vp_range("va", 0, hi[i]) : 0; if(i < D) w->st().push(rel ? va[i] - at[i] : va[i]); }
}
static bool mode(World* w){ bool rel = vp_choose("relative", 0, 1); if(rel || vp_choose("A", 0, 1)){ vp_check(w->ex(rel ? 'O' : 'A') == ERROR_NONE, "A and O succeed"); if(rel && vp_choose("back", 0, 1)){ w->ex('A'); rel = false; } } return rel; }
static int posIs(World* w, const int64_t* p){ const Vector& q = w->ip().getPos(); return (q.get(0) == p[0]) & (q.get(1) == p[1]) & (q.get(2) == p[2]); }
static int delIs(World* w, const int64_t* p){ const Vector& q = w->ip().getDelta(); return (q.get(0) == p[0]) & (q.get(1) == p[1]) & (q.get(2) == p[2]); }
static const int64_t EAST[3] = {1, 0, 0};
extern "C" void h_call(){
	World* w = field(SUBR); bool rel = mode(w); int k = vp_choose("depth", 0, 4), n = vp_choose("n", 0, 3); int64_t v[4], va[3], d[3] = {0, 0, 0}, e[16]; for(int i = 0; i < D; ++i) d[i] = vp_i64("delta"); w->ip().setDelta(Vector{d[0], d[1], d[2]});
	w->field().put(Vector{at[0], at[1], at[2]}, 'C'); pushSyms(w->st(), v, k); address(w, va, rel); w->st().push(n); w->tick();
	vp_check(posIs(w, va) & delIs(w, EAST), "C goes on at the address, eastwards");
	int m = 0; for(; m < k - n; ++m) e[m] = v[m]; for(int i = 0; i < D; ++i) e[m++] = at[i]; for(int i = 0; i < D; ++i) e[m++] = d[i]; for(int i = n; i > 0; --i) e[m++] = ref(v, k, i);
	vp_check(stackIs(w->st(), e, m), "C leaves position and delta below the n cells"); vp_reach("end"); vp_end();
}
extern "C" void h_jump(){
	World* w = field(SUBR); bool rel = mode(w); int64_t g = vp_i64("guard"), va[3]; w->st().push(g); if(D > 1 && vp_choose("south", 0, 1)) w->ip().setDelta(Vector{0, 1});
	address(w, va, rel); vp_check(w->ex('J') == ERROR_NONE, "J succeeds"); vp_check(posIs(w, va) & delIs(w, EAST), "J goes on behind the address, eastwards"); vp_check(stackIs(w->st(), &g, 1), "J pops the address only"); vp_reach("end"); vp_end();
}
extern "C" void h_return(){
	World* w = field(SUBR); mode(w); int k = vp_choose("depth", 0, 4), n = vp_choose("n", 0, 3), have = vp_choose("have", 0, n); int64_t g[4], v[3], p[3] = {0, 0, 0}, d[3] = {0, 0, 0}, e[16];
	pushSyms(w->st(), g, k); bool frame = have == n; if(frame){ for(int i = 0; i < D; ++i) w->st().push(p[i] = vp_i64("pos")); for(int i = 0; i < D; ++i) w->st().push(d[i] = vp_i64("delta")); } pushSyms(w->st(), v, have, "r");
	if(!frame){ vp_assume(k == 0); } w->st().push(n); vp_check(w->ex('R') == ERROR_NONE, "R succeeds");
	vp_check(posIs(w, p) & delIs(w, d), "R restores position and delta, in absolute and in relative mode"); int m = 0; for(; m < k; ++m) e[m] = g[m]; for(int i = n; i > 0; --i) e[m++] = ref(v, have, i);
	vp_check(stackIs(w->st(), e, m), "R leaves the n cells on what was below"); vp_reach("end"); vp_end();
}
extern "C" void h_round(){
	// a call and its return
	World* w = field(SUBR); bool rel = mode(w); int k = vp_choose("depth", 0, 3), n = vp_choose("n", 0, 2), r = vp_choose("results", 0, 2); int64_t v[4], x[2], va[3], e[16], d[3] = {0, 0, 0}; d[D - 1] = 1; w->ip().setDelta(Vector{d[0], d[1], d[2]});
	pushSyms(w->st(), v, k); address(w, va, rel); w->st().push(n); w->ex('C'); for(int i = 0; i < n; ++i) w->ex('$'); pushSyms(w->st(), x, r, "r"); w->st().push(r); w->ex('R');
	vp_check(posIs(w, at) & delIs(w, d), "R returns to where C was, with its delta"); int m = 0; for(; m < k - n; ++m) e[m] = v[m]; for(int i = 0; i < r; ++i) e[m++] = x[i]; vp_check(stackIs(w->st(), e, m), "with the results in place of the arguments"); vp_reach("end"); vp_end();
}
extern "C" void h_negative(){
	World* w = field(SUBR); int64_t g[2], n = vp_i64("n"); vp_assume(n < 0); pushSyms(w->st(), g, 2); w->st().push(n); w->field().put(Vector{at[0], at[1], at[2]}, "CR"[vp_choose("inst", 0, 1)]);
	w->tick(); static const int64_t west[3] = {-1, 0, 0}; vp_check(delIs(w, west), "a negative count reflects"); vp_reach("end"); vp_end();
}
extern "C" void h_refc(){
	World* w = field(REFC); int64_t g = vp_i64("guard"), a[3], b[3]; w->st().push(g); for(int i = 0; i < D; ++i) w->st().push(a[i] = vp_i64("a")); vp_check(w->ex('R') == ERROR_NONE, "R succeeds"); vp_check(w->st().size() == 2, "R replaces a vector by one cell"); int64_t ra = w->st().pop();
	for(int i = 0; i < D; ++i) w->st().push(b[i] = vp_i64("b")); vp_check(w->ex('R') == ERROR_NONE, "R succeeds"); int64_t rb = w->st().pop(); vp_check(ra != rb, "references are different"); vp_check(stackIs(w->st(), &g, 1), "R pops a vector");
	World* x = w; if(vp_choose("otherIP", 0, 1)){ FungeConfig c = config98(D); c.fingerprints.push_back(REFC); x = new World("@", c); x->st().push(g); }
	for(int t = 0; t < 3; ++t){ bool first = vp_choose("first", 0, 1); x->st().push(first ? ra : rb); vp_check(x->ex('D') == ERROR_NONE, "D succeeds"); int64_t e[4]; e[0] = g; for(int i = 0; i < D; ++i) e[i + 1] = first ? a[i] : b[i]; vp_check(stackIs(x->st(), e, D + 1), "D pushes the vector the reference stands for, every time"); x->st().clear(); x->st().push(g); }
	vp_reach("end"); vp_end();
}
