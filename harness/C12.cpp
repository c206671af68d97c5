//@ entry h_literals
//@ entry h_dup_swap_pop
//@ entry h_clear
//@ bounds every literal 0-9 a-f and $ : \ n; stack depth 0..4 of arbitrary 64-bit cells; Funge-98 and Befunge-93; executed by a whole tick
//@ outside deeper stacks
#include "funge_h.h"
static int depth; static int64_t v[4], e[8]; static World* w;
static void setup(char inst, bool b93){
	w = new World("      @", b93 ? config93() : config98()); w->field().put(Vector{2}, inst); w->ip().setPos(Vector{2});
	depth = vp_choose("depth", 0, 4); pushSyms(w->st(), v, depth); for(int i = 0; i < depth; ++i) e[i] = v[i];
}
static void done(int n, const char* msg){
	w->tick();
	vp_observe(w->st().size()); if(n) vp_observe((U)w->st().get(1));
	vp_check(stackIs(w->st(), e, n), msg);
	vp_check(w->ss().size() == 1, "no stack is added or removed");
	vp_check(vecIs(w->ip().getPos(), {3}) & vecIs(w->ip().getDelta(), {1}), "the IP moves on to the next cell");
	vp_reach("end"); vp_end();
}
extern "C" void h_literals(){
	bool b93 = vp_choose("93", 0, 1); int d = vp_choose("digit", 0, b93 ? 9 : 15);
	setup("0123456789abcdef"[d], b93); e[depth] = d; done(depth + 1, "a literal pushes its value and nothing else");
}
extern "C" void h_dup_swap_pop(){
	bool b93 = vp_choose("93", 0, 1); int op = vp_choose("op", 0, 2);
	setup(op == 0 ? '$' : op == 1 ? ':' : '\\', b93);
	int64_t a = ref(v, depth, 1), b = ref(v, depth, 2); int k;
	switch(op){
		case 0: done(depth > 0 ? depth - 1 : 0, "$ drops the top cell"); break;
		case 1: k = depth > 0 ? depth - 1 : 0; e[k] = a; e[k + 1] = a; done(k + 2, ": duplicates the top cell"); break;
		default: k = depth > 1 ? depth - 2 : 0; e[k] = a; e[k + 1] = b; done(k + 2, "\\ exchanges the top two cells");
	}
}
extern "C" void h_clear(){ setup('n', false); done(0, "n empties the stack"); }
