//@ entry h_pick
//@ entry h_all
//@ entry h_stacks
//@ bounds every n (64 bit); 1..3 dimensions; 1 to 3 stacks with 0..2 cells; arbitrary position, delta, storage offset; field corner at -3..5; 0..1 arguments and environment entries of 0..2 arbitrary bytes; arbitrary clock (calendar fields within their ranges); each capability on or off (all of them together when there are arguments or environment entries, with one stack depth; thorough: every combination)
//@ assume localtime() returns calendar fields in their documented ranges
//@ outside longer arguments
#include "funge_h.h"
#include <vector>
static World* w; static std::vector<int64_t> want; static int D;
static std::string str(const char* nm){ int n = vp_choose("len", 0, 2); std::string s; for(int i = 0; i < n; ++i){ uint8_t c = vp_u8(nm); vp_assume(c != 0); s.push_back((char)c); } return s; }
static void build(bool one, bool three = false){
	D = one ? 2 : vp_choose("dims", 1, 3); FungeConfig cfg = config98(D);
	bool args = vp_choose("args", 0, 1), env = one ? args : vp_choose("env", 0, 1), rich = !one && !VP_THOROUGH && (args || env);
	if(!one){ int m = rich ? 7 * vp_choose("allcaps", 0, 1) : vp_choose("caps", 0, 7); cfg.concurrent = m & 1; cfg.filesystem = m & 2; cfg.execute = m & 4; }
	 std::string a, b; if(args) cfg.args.push_back(a = one ? "ab" : str("arg")); if(env) cfg.env.push_back(b = one ? "X=1" : str("env"));
	w = new World("@", cfg); int64_t p[3] = {0,0,0}, d[3] = {0,0,0}, s[3] = {0,0,0}, lo[3] = {0,0,0}, hi[3] = {0,0,0}; Vector vp, vd, vs, c1, c2;
	for(int i = 0; i < D; ++i){ p[i] = vp_i64("pos"); d[i] = vp_i64("delta"); s[i] = vp_i64("sto"); vp.set(i, p[i]); vd.set(i, d[i]); vs.set(i, s[i]); lo[i] = -i - (i == 0); hi[i] = 5 - i; c1.set(i, lo[i]); c2.set(i, hi[i]); }
	w->ip().setPos(vp); w->ip().setDelta(vd); w->ip().setStorage(vs); w->field().put(c1, 'a'); w->field().put(c2, 'b');
	env_time = 0; static const int top[6] = {60, 59, 23, 31, 11, 8099}; for(int i = 0; i < 6; ++i){ env_tm[i] = vp_i32("tm"); vp_assume((env_tm[i] >= (i == 3)) & (env_tm[i] <= top[i])); }
	int ns = 0; int64_t junk[2]; int deep = 0; if(three){ deep = vp_choose("deepest", 0, 2); int64_t x[2]; pushSyms(w->st(), x, deep, "x"); w->ss().push(); } bool two = three || vp_choose("two", 0, 1); if(two){ ns = rich ? 1 : vp_choose("below", 0, 2); pushSyms(w->st(), junk, ns, "u"); w->ss().push(); }
	int nt = rich ? 2 : vp_choose("depth", 0, 2); int64_t v[2]; pushSyms(w->st(), v, nt, "t");
	auto put = [](int64_t x){ want.push_back(x); }; auto vec = [&](const int64_t* q){ for(int i = D - 1; i >= 0; --i) put(q[i]); };
	put(16 | (cfg.concurrent ? 1 : 0) | (cfg.filesystem ? 6 : 0) | (cfg.execute ? 8 : 0)); put(8); put(0x464e2b2b); put(1); put(cfg.execute ? 1 : 0); put('/'); put(D); put((int64_t)w->r->getID()); put(0);
	vec(p); vec(d); vec(s); vec(lo); int64_t ext[3]; for(int i = 0; i < 3; ++i) ext[i] = hi[i] - lo[i]; vec(ext);
	put((int64_t)env_tm[5] * 65536 + (env_tm[4] + 1) * 256 + env_tm[3]); put((int64_t)env_tm[2] * 65536 + env_tm[1] * 256 + env_tm[0]);
	put(three ? 3 : two ? 2 : 1); put(nt); if(two) put(ns); if(three) put(deep);
	auto s0 = [&](const std::string& x){ for(char c : x) put((unsigned char)c); put(0); };
	if(args) s0(a); put(0); put(0); if(env) s0(b); put(0); put(0);
	for(int i = nt; i > 0; --i) put(v[i - 1]);
}
static void all(bool three){
	build(three, three); size_t total = want.size(); int64_t n = vp_choose("n", -1, 0); w->st().push(n); vp_check(w->ex('y') == ERROR_NONE, "y succeeds");
	vp_check(w->st().size() == total, "y with n <= 0 pushes all its cells"); if(w->st().size() != total) vp_end();
	int ok = 1; for(size_t i = 0; i < total; ++i) ok &= w->st().get(i + 1) == want[i];
	vp_check(ok, "and each cell says what the standard assigns to it"); vp_reach("end"); vp_end();
}
extern "C" void h_all(){ all(false); }
extern "C" void h_stacks(){ all(true); }
extern "C" void h_pick(){
	build(true); int nt = 0; nt = w->st().size(); int64_t e[3]; for(int i = 0; i < nt; ++i) e[i] = w->st().get(nt - i);
	int64_t n = vp_i64("n"); vp_assume(n > 0); w->st().push(n); vp_check(w->ex('y') == ERROR_NONE, "y succeeds");
	int64_t x = 0; for(size_t i = 0; i < want.size(); ++i) x = n == (int64_t)i + 1 ? want[i] : x; e[nt] = x;
	vp_check(stackIs(w->st(), e, nt + 1), "y with n > 0 pushes the n-th of those cells only (beyond them, cells of the stack; beyond those, 0)"); vp_reach("end"); vp_end();
}
