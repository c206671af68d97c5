//@ entry h_algebra
//@ entry h_normal
//@ entry h_order
//@ entry h_rotate
//@ entry h_set
//@ bounds vectors of 0..3 written components (thorough 4), every component an arbitrary 64-bit value; all pairs (triples for transitivity with 2 components)
//@ outside vectors of more than 4 dimensions
#include "funge_h.h"
static const int D = VP_THOROUGH ? 4 : 3;
struct V { int64_t c[5]; int n; };
static Vector mkv(V& v, const char* nm, int maxd){
	v.n = vp_choose("dims", 0, maxd); for(int i = 0; i < 5; ++i) v.c[i] = 0;
	for(int i = 0; i < v.n; ++i) v.c[i] = vp_i64(nm);
	switch(v.n){ case 0: return Vector(); case 1: return Vector{v.c[0]}; case 2: return Vector{v.c[0], v.c[1]}; case 3: return Vector{v.c[0], v.c[1], v.c[2]}; default: return Vector{v.c[0], v.c[1], v.c[2], v.c[3]}; }
}
static int is(const Vector& v, const int64_t* c){ int ok = 1; for(int i = 0; i < 5; ++i) ok &= v.get(i) == c[i]; ok &= v[4] == c[4]; return ok; }
static int canonical(const Vector& v){ return v.size() <= 1 ? 1 : v.get(v.size() - 1) != 0; }
extern "C" void h_algebra(){
	V a, b; Vector x = mkv(a, "a", D), y = mkv(b, "b", D);
	int64_t s[5], d[5]; for(int i = 0; i < 5; ++i){ s[i] = wadd(a.c[i], b.c[i]); d[i] = wsub(a.c[i], b.c[i]); }
	Vector p = x + y, q = x - y;
	vp_check(is(p, s) & canonical(p), "sum is component-wise"); vp_check(is(q, d) & canonical(q), "difference is component-wise");
	vp_check(is(x, a.c) & is(y, b.c), "operands unchanged");
	Vector z(x); z += y; vp_check(is(z, s), "+="); z -= y; vp_check(is(z, a.c) & (z == x), "adding and subtracting returns the vector");
	Vector w; w = x; vp_check(is(w, a.c), "assignment"); w += w; int64_t t[5]; for(int i = 0; i < 5; ++i) t[i] = wadd(a.c[i], a.c[i]); vp_check(is(w, t), "v += v doubles"); w -= w; vp_check(w == Vector(), "v -= v is the origin");
	vp_reach("end"); vp_end();
}
extern "C" void h_normal(){
	V a, b; Vector x = mkv(a, "a", D), y = mkv(b, "b", D);
	int eq = 1; for(int i = 0; i < 5; ++i) eq &= a.c[i] == b.c[i];
	vp_check((x == y) == eq, "equal exactly when all components are, missing ones being 0");
	vp_check((x != y) == !eq, "!= is the negation");
	Vector::hash h; if(x == y) vp_check(h(x) == h(y), "equal vectors hash equally");
	vp_check(canonical(x), "no trailing zero component is stored");
	vp_reach("end"); vp_end();
}
extern "C" void h_order(){
	V a, b, c; Vector x = mkv(a, "a", 2), y = mkv(b, "b", 2), z = mkv(c, "c", 2);
	auto lt = [](const V& p, const V& q){ int r = 0; for(int i = 0; i < 3; ++i) r = p.c[i] < q.c[i] ? 1 : p.c[i] > q.c[i] ? 0 : r; return r; };
	bool xy = x < y, yx = y < x, yz = y < z, xz = x < z;
	vp_check(xy == lt(a, b), "order: highest dimension first");
	vp_check(!(xy & yx), "antisymmetric"); vp_check(xy | yx | (x == y), "total");
	vp_check(!(xy & yz) | xz, "transitive"); vp_check((x <= y) == (xy | (x == y)), "<= is < or ==");
	vp_reach("end"); vp_end();
}
extern "C" void h_rotate(){
	V a; Vector x = mkv(a, "a", D); Vector y(x);
	int64_t r[5], l[5], n[5]; for(int i = 0; i < 5; ++i){ r[i] = l[i] = a.c[i]; n[i] = wneg(a.c[i]); }
	l[0] = a.c[1]; l[1] = wneg(a.c[0]); r[0] = wneg(a.c[1]); r[1] = a.c[0];
	switch(vp_choose("op", 0, 2)){
		case 0: y.left(); vp_check(is(y, l) & canonical(y), "left turn"); y.right(); break;
		case 1: y.right(); vp_check(is(y, r) & canonical(y), "right turn"); y.left(); break;
		default: y.reverse(); vp_check(is(y, n) & canonical(y), "reverse negates every component"); y.reverse(); break;
	}
	vp_check(is(y, a.c) & (y == x), "the opposite turn undoes it");
	vp_reach("end"); vp_end();
}
extern "C" void h_set(){
	V a; Vector x = mkv(a, "a", D); size_t d = vp_choose("d", 0, 4); int64_t v = vp_i64("v");
	x.set(d, v); a.c[d] = v;
	vp_check(is(x, a.c) & canonical(x), "set changes one component only");
	Vector y; y = {v, a.c[1]}; vp_check((y.get(0) == v) & (y.get(1) == a.c[1]) & (y.get(2) == 0) & canonical(y), "list assignment");
	vp_reach("end"); vp_end();
}
