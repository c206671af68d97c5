//@ entry h_add_sub_mul
//@ entry h_div
//@ entry h_rem
//@ entry h_cmp_not
//@ bounds operands: all 2^64 x 2^64 pairs; stack depth 0..4 before the instruction (missing operands read as 0)
//@ outside deeper stacks (only the top two cells are read: the frame check covers the two below)
#include "funge_h.h"
static int depth; static int64_t v[4];
static World* setup(){ World* w = new World("@", config98()); depth = vp_choose("depth", 0, 4); pushSyms(w->st(), v, depth); return w; }
static void expectBinary(World* w, int64_t inst, int64_t res){
	vp_check(w->ex(inst) == ERROR_NONE, "arithmetic instruction succeeds");
	int n = depth > 2 ? depth - 2 : 0;
	int64_t e[5]; for(int i = 0; i < n; ++i) e[i] = v[i]; e[n] = res;
	vp_observe((U)w->st().get(1));
	vp_check(stackIs(w->st(), e, n + 1), "two operands are replaced by the result, the rest of the stack is unchanged");
	vp_check(vecIs(w->ip().getPos(), {0}) & vecIs(w->ip().getDelta(), {1}), "the IP is not affected");
	vp_reach("end"); vp_end();
}
extern "C" void h_add_sub_mul(){
	World* w = setup(); int64_t a = ref(v, depth, 2), b = ref(v, depth, 1);
	switch(vp_choose("op", 0, 2)){
		case 0: expectBinary(w, '+', wadd(a, b)); break;
		case 1: expectBinary(w, '-', wsub(a, b)); break;
		default: expectBinary(w, '*', wmul(a, b)); break;
	}
}
extern "C" void h_div(){
	World* w = setup(); int64_t a = ref(v, depth, 2), b = ref(v, depth, 1);
	int64_t q = b == 0 ? 0 : b == -1 ? wneg(a) : a / b;
	expectBinary(w, '/', q);
}
extern "C" void h_rem(){
	World* w = setup(); int64_t a = ref(v, depth, 2), b = ref(v, depth, 1);
	int64_t q = b == 0 ? 0 : b == -1 ? 0 : a % b;
	expectBinary(w, '%', q);
}
extern "C" void h_cmp_not(){
	World* w = setup(); int64_t a = ref(v, depth, 2), b = ref(v, depth, 1);
	if(vp_choose("op", 0, 1)) expectBinary(w, '`', a > b ? 1 : 0);
	vp_check(w->ex('!') == ERROR_NONE, "! succeeds");
	int64_t e[5]; int n = depth > 1 ? depth - 1 : 0; for(int i = 0; i < n; ++i) e[i] = v[i]; e[n] = b == 0;
	vp_check(stackIs(w->st(), e, n + 1), "! replaces the top cell by its logical negation");
	vp_reach("end"); vp_end();
}
