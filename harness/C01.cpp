//@ entry h_ops
//@ entry h_get
//@ entry h_copy
//@ bounds initial stack of 0..3 arbitrary 64-bit cells, 4 mode combinations, 3 operations (thorough 5) drawn from push/pop/peek/clear with arbitrary values
//@ bounds get(p) for every 64-bit p on stacks of 0..5 cells
//@ outside stacks deeper than 8 cells
#include "funge_h.h"
struct Ref { int64_t v[16]; int lo = 8, n = 0; bool q = false, inv = false;
	void push(int64_t x){ if(inv){ v[--lo] = x; ++n; } else { v[lo + n] = x; ++n; } }
	int64_t peek(){ return n == 0 ? 0 : q ? v[lo] : v[lo + n - 1]; }
	int64_t pop(){ if(n == 0) return 0; int64_t x = peek(); if(q) ++lo; --n; return x; }
	int64_t at(int d){ return q ? v[lo + d] : v[lo + n - 1 - d]; } };      // d-th from the end that pop() takes
static void same(const Stack& s, Ref& r){
	vp_check(s.size() == (size_t)r.n, "size is the number of cells pushed and not popped");
	int ok = 1; for(int i = 0; i < r.n; ++i) ok &= s.get(i + 1) == r.at(i);
	vp_check(ok, "contents in order");
	vp_check(s.peek() == r.peek(), "peek returns what pop would");
}
static void fill(Stack& s, Ref& r, int max){
	int n = vp_choose("n", 0, max);
	for(int i = 0; i < n; ++i){ int64_t x = vp_i64("init"); s.push(x); r.push(x); }
	int m = vp_choose("mode", 0, 3); r.inv = m & 1; r.q = m & 2;
	s.setMode((FungeMode)((r.inv ? FUNGE_MODE_INVERT : 0) | (r.q ? FUNGE_MODE_QUEUE : 0) | FUNGE_MODE_HOVER));
}
extern "C" void h_ops(){
	Stack* s = new Stack; Ref r; fill(*s, r, 3);
	for(int k = 0; k < (VP_THOROUGH ? 5 : 3); ++k){
		size_t age = s->age();
		switch(vp_choose("op", 0, 2)){
			case 0: { int64_t x = vp_i64("x"); s->push(x); r.push(x); break; }
			case 1: { int64_t x = s->pop(); vp_observe((U)x); vp_check(x == r.pop(), "pop returns the end of the stack, 0 when empty"); break; }
			default: s->clear(); r.n = 0; r.lo = 8; break;
		}
		vp_check(s->age() != age, "every change is visible in the age");
	}
	same(*s, r); vp_reach("end"); vp_end();
}
extern "C" void h_get(){
	Stack* s = new Stack; Ref r; fill(*s, r, 5);
	uint64_t p = vp_sym("p", 64);
	int64_t e = 0; for(int i = 0; i < r.n; ++i) if(p == (U)i + 1) e = r.at(i);
	vp_check(s->get(p) == e, "get(p) is the p-th cell from the top, 0 outside the stack");
	vp_check((*s)[p] == e, "indexing is get");
	same(*s, r); vp_reach("end"); vp_end();
}
extern "C" void h_copy(){
	Stack* s = new Stack; Ref r; fill(*s, r, 3);
	Stack* t = new Stack(*s); Ref q = r; q.q = q.inv = false;
	same(*t, q);
	int64_t x = vp_i64("x"); t->push(x); q.push(x);
	same(*s, r); same(*t, q);
	s->clear(); r.n = 0; same(*t, q); same(*s, r);
	vp_reach("end"); vp_end();
}
