//@ entry h_visit
//@ bounds corners in 1..3 dimensions, every corner component arbitrary 64-bit with sides of 1..3 cells in either direction (3 dimensions: 1..2; thorough 1..5, 3 dimensions 1..3), not touching the ends of the 64-bit range; visits counted for an arbitrary cell
//@ outside boxes with longer sides
#include "funge_h.h"
#include "VectorRange.h"
extern "C" void h_visit(){
	int n = vp_choose("dims", 1, 3); int L = VP_THOROUGH ? (n < 3 ? 4 : 2) : n < 3 ? 2 : 1;
	int64_t a[3] = {0, 0, 0}, b[3] = {0, 0, 0}, q[3] = {0, 0, 0}; Vector va, vb; int64_t cells = 1; int inside = 1;
	for(int i = 0; i < n; ++i){
		a[i] = vp_range("a", I64MIN + 16, I64MAX - 16); int64_t len = vp_choose("len", -L, L); b[i] = a[i] + len;
		va.set(i, a[i]); vb.set(i, b[i]); q[i] = vp_i64("q"); cells *= (len < 0 ? -len : len) + 1;
		int64_t lo = len < 0 ? b[i] : a[i], hi = len < 0 ? a[i] : b[i]; inside &= (q[i] >= lo) & (q[i] <= hi);
	}
	Vector vq{q[0], q[1], q[2]};
	VectorRange r(va, vb); int64_t steps = 0; int hits = 0;
	while(*r != r.end()){
		if(steps > cells) vp_fail("the range goes on after its last cell");
		int eq = 1; for(int i = 0; i < 3; ++i) eq &= (*r).get(i) == q[i];
		hits += eq; ++steps; ++r;
	}
	vp_check(steps == cells, "as many steps as cells in the box");
	vp_check(hits == inside, "each cell of the box is visited exactly once, no other cell");
	vp_reach("end"); vp_end();
}
