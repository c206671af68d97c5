//@ entry h_begin
//@ entry h_end
//@ entry h_under
//@ entry h_roundtrip
//@ entry h_select
//@ bounds n in -3..3 (thorough -4..4); 0..3 (thorough 4) arbitrary cells below it; 0..2 on the second stack; any position, delta and storage offset; 1..3 dimensions; 1..3 stacks, any of them selected
//@ outside larger |n| (the transfer loops are unrolled up to |n|)
#include "funge_h.h"
static const int N = VP_THOROUGH ? 4 : 3;
static int D, nd, ns; static int64_t v[8], s[8], sto[3], pos[3], del[3], n; static World* w;
static void build(bool two){
	D = vp_choose("dims", 1, 3); w = new World("@", config98(D));
	Vector a, b, c; for(int i = 0; i < 3; ++i){ sto[i] = i < D ? vp_i64("sto") : 0; pos[i] = i < D ? vp_i64("pos") : 0; del[i] = i < D ? vp_i64("delta") : 0; a.set(i, sto[i]); b.set(i, pos[i]); c.set(i, del[i]); }
	w->ip().setStorage(a); w->ip().setPos(b); w->ip().setDelta(c);
	ns = 0; if(two){ ns = vp_choose("second", 0, 2 + D); pushSyms(w->st(), s, ns, "u"); w->ss().push(); }
	nd = vp_choose("depth", 0, N); pushSyms(w->st(), v, nd, "t");
	n = vp_choose("n", -N, N); w->st().push(n);
}
static int popN(int64_t* x, int& k, int64_t& out){ out = k > 0 ? x[--k] : 0; return 0; }
extern "C" void h_begin(){
	build(false); vp_check(w->ex('{') == ERROR_NONE, "{ succeeds"); vp_check(w->ss().size() == 2, "{ opens a stack");
	int64_t top[8], sec[16]; int nt = n > 0 ? n : 0, k = nd;
	for(int i = nt - 1; i >= 0; --i) popN(v, k, top[i]);
	int m = 0; for(; m < k; ++m) sec[m] = v[m]; if(n < 0) for(int i = 0; i < -n; ++i) sec[m++] = 0; for(int i = 0; i < D; ++i) sec[m++] = sto[i];
	vp_check(stackIs(w->st(), top, nt), "the new stack holds the n cells moved, in order");
	vp_check(stackIs(w->ss().second(), sec, m), "the old stack holds the rest, |n| zeros when n is negative, and the old storage offset");
	const Vector& o = w->ip().getStorage(); vp_check((o.get(0) == wadd(pos[0], del[0])) & (o.get(1) == wadd(pos[1], del[1])) & (o.get(2) == wadd(pos[2], del[2])), "the storage offset is the next position");
	vp_reach("end"); vp_end();
}
extern "C" void h_end(){
	build(true); vp_check(w->ex('}') == ERROR_NONE, "} succeeds"); vp_check(w->ss().size() == 1, "} closes the top stack");
	int64_t o[3] = {0, 0, 0}; for(int i = D - 1; i >= 0; --i) popN(s, ns, o[i]);
	int64_t res[16]; int m = 0;
	if(n > 0){ int64_t mv[8]; int k = nd; for(int i = n - 1; i >= 0; --i) popN(v, k, mv[i]); for(; m < ns; ++m) res[m] = s[m]; for(int i = 0; i < n; ++i) res[m++] = mv[i]; }
	else { int k = ns + n; if(k < 0) k = 0; for(; m < k; ++m) res[m] = s[m]; }
	vp_check(stackIs(w->st(), res, m), "the stack below gets the n cells, or loses |n| cells when n is negative");
	const Vector& q = w->ip().getStorage(); vp_check((q.get(0) == o[0]) & (q.get(1) == o[1]) & (q.get(2) == o[2]), "the storage offset is restored from it");
	vp_reach("end"); vp_end();
}
extern "C" void h_under(){
	bool two = vp_choose("two", 0, 1); build(two); FungeError r = w->ex('u');
	if(!two){ vp_check(r != ERROR_NONE && r != ERROR_SKIP, "u on a single stack fails"); vp_check(w->ss().size() == 1, "and changes no stack"); v[nd] = n; vp_check(stackIs(w->st(), v, nd + 1), "nor its contents"); vp_reach("end"); vp_end(); }
	vp_check(r == ERROR_NONE, "u succeeds");
	int64_t x; for(int i = 0; i < n; ++i){ popN(s, ns, x); v[nd++] = x; } for(int i = 0; i < -n; ++i){ popN(v, nd, x); s[ns++] = x; }
	vp_check(stackIs(w->st(), v, nd), "n cells are moved one by one to the top stack");
	vp_check(stackIs(w->ss().second(), s, ns), "or |n| cells to the stack below"); vp_check(w->ss().size() == 2, "the stacks stay");
	vp_reach("end"); vp_end();
}
extern "C" void h_roundtrip(){
	// n{ ... n} gives back stacks and storage offset for any n up to the depth
	build(false); vp_assume(n >= 0 && n <= nd);
	vp_check(w->ex('{') == ERROR_NONE, "{"); w->st().push(n); vp_check(w->ex('}') == ERROR_NONE, "}");
	vp_check(stackIs(w->st(), v, nd), "a block that moves n cells in and n out leaves the stack as it was");
	const Vector& q = w->ip().getStorage(); vp_check((q.get(0) == sto[0]) & (q.get(1) == sto[1]) & (q.get(2) == sto[2]), "and the storage offset");
	w->st().push(0); FungeError r = w->ex('}'); vp_check(r != ERROR_NONE && r != ERROR_SKIP, "} without an open block fails"); vp_check(w->ss().size() == 1, "and leaves the stack stack alone");
	vp_reach("end"); vp_end();
}
extern "C" void h_select(){
	// with a lower stack selected (FISH D) blocks open on it, and need one below it to transfer to
	FungeConfig c = config98(1); c.fingerprints.push_back(0x46495348); w = new World("@", c); int k = vp_choose("stacks", 1, 3), sel = vp_choose("selected", 0, 2); vp_assume(sel < k); StackStack& ss = w->ss(); int64_t m[3][2];
	for(int i = k - 1; i >= 0; --i){ m[i][0] = vp_i64("a"); m[i][1] = vp_i64("b"); ss.at(0).push(m[i][0]); ss.at(0).push(m[i][1]); if(i) ss.push(); }      // m[0] is the topmost
	for(int i = 0; i < sel; ++i) vp_check(w->ex('D') == ERROR_NONE, "D selects the stack below"); int op = vp_choose("op", 0, 2); n = vp_choose("n", -1, 1); w->st().push(n); FungeError e = w->ex("{}u"[op]); bool below = sel + 1 < k;
	if(op && !below){ vp_check(e != ERROR_NONE && e != ERROR_SKIP, "} and u fail when there is no stack below the selected one"); vp_check(ss.size() == (size_t)k, "and change no stack"); w->st().pop(); for(int i = 0; i < k; ++i) vp_check(stackIs(ss.at(i), m[i], 2), "nor any contents"); vp_reach("end"); vp_end(); }
	vp_check(e == ERROR_NONE, "succeeds"); int64_t* t = m[sel]; int64_t x[5], y[5];
	if(op == 0){
		vp_check(ss.size() == (size_t)k + 1, "{ opens a stack"); for(int i = 0; i < sel; ++i) vp_check(stackIs(ss.at(i), m[i], 2), "the stacks above the selected one stay"); for(int i = sel + 1; i < k; ++i) vp_check(stackIs(ss.at(i + 1), m[i], 2), "and those below");
		x[0] = t[1]; vp_check(stackIs(w->st(), x, n > 0), "the new stack is selected and holds the cells moved"); int j = 0; y[j++] = t[0]; if(n < 1) y[j++] = t[1]; if(n < 0) y[j++] = 0; y[j++] = 0; vp_check(stackIs(ss.second(), y, j), "the stack selected before is the one below it");
	} else if(op == 1){
		vp_check(ss.size() == (size_t)k - 1, "} closes the selected stack"); if(ss.size() != (size_t)k - 1) vp_end(); for(int i = 0; i < sel; ++i) vp_check(stackIs(ss.at(i), m[i], 2), "the stacks above the selected one stay"); for(int i = sel + 2; i < k; ++i) vp_check(stackIs(ss.at(i - 1), m[i], 2), "and those below");
		int j = 0; if(n >= 0) y[j++] = m[sel + 1][0]; if(n > 0) y[j++] = t[1]; vp_check(stackIs(w->st(), y, j), "the stack below is selected and gets the cells");
	} else {
		vp_check(ss.size() == (size_t)k, "u keeps the stacks"); for(int i = 0; i < k; ++i) if(i != sel && i != sel + 1) vp_check(stackIs(ss.at(i), m[i], 2), "the other stacks stay"); int64_t* u = m[sel + 1]; int a = 2, b = 2; x[0] = t[0]; x[1] = t[1]; y[0] = u[0]; y[1] = u[1]; if(n > 0) x[a++] = y[--b]; if(n < 0) y[b++] = x[--a];
		vp_check(stackIs(w->st(), x, a) & stackIs(ss.second(), y, b), "u transfers between the selected stack and the one below it");
	}
	vp_reach("end"); vp_end();
}
