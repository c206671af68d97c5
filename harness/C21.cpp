//@ entry h_table
//@ entry h_pair
//@ entry h_history
//@ entry h_clone
//@ entry h_unknown
//@ entry h_fing
//@ entry h_fing_arg
//@ bounds every built-in fingerprint except LONG and DYNA; every ordered pair of them; histories of 4 (5 thorough) loads and unloads over three overlapping fingerprints; every letter pair and operand of FING
//@ outside LONG (its library is not part of the repository), unloading a fingerprint that was loaded earlier but no longer is, FING changes in the copy of an IP
#include "funge_h.h"
struct Fp { uint64_t id; const char* l; };
static const Fp F[] = { {0x42415345, "BHINO"}, {0x42495457, "ALNORX"}, {0x424F4F4C, "ANOX"}, {0x43504C49, "ADMOSV"}, {0x44425547, "ABDEW"}, {0x44495246, "CMR"}, {0x46494e47, "XYZ"}, {0x46495348, "CDFHILMNORSTUV"}, {0x46495850, "ABCDIJNOPQRSTUVX"},
	{0x46504450, "ABCDEFGHIKLMNPQRSTVXY"}, {0x46505254, "DFILS"}, {0x46505350, "ABCDEFGHIKLMNPQRSTVXY"}, {0x46525448, "DLOPR"}, {0x48525449, "EGMST"}, {0x49495043, "ADGILP"}, {0x4A535452, "GP"}, {0x4D4F4445, "HIQS"}, {0x4D565253, "BCFGJNP"}, {0x4E46554E, "ABCDHILMRVXYZ"},
	{0x4F525448, "AEGOPSVWXYZ"}, {0x5045524C, "EIS"}, {0x52454643, "DR"}, {0x5354524E, "ACDFGILMNPRSV"}, {0x53554252, "ACJOR"}, {0x544F5953, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"} };
static const int NF = sizeof F / sizeof *F;
static bool has(const char* l, int c){ for(; *l; ++l) if(*l == c) return true; return false; }
static const char* ROW = "@                    @";
static FungeConfig cfg(){ FungeConfig c = config98(); c.fingerprint = true; return c; }
typedef FungeSemantic* Sem;
struct Tab { Sem s[26]; };
static Tab tab(FungeRunner& r){ Tab t; for(int i = 0; i < 26; ++i) t.s[i] = r.getSemantic('A' + i); return t; }
static void args(World& w, uint64_t id){ for(int k = 0; k < 4; ++k) w.st().push((id >> (8 * k)) & 255); w.st().push(4); }
// ( with 4 cells; the rest of the stack is one arbitrary cell
static FungeError load(World& w, uint64_t id){ int64_t g = vp_i64("guard"); w.st().push(g); args(w, id); FungeError e = w.ex('('); if(e == ERROR_NONE){ int64_t x[3] = {g, (int64_t)id, 1}; vp_check(stackIs(w.st(), x, 3), "( pushes the fingerprint and 1"); } else vp_check(stackIs(w.st(), &g, 1), "( pops its operands"); w.st().clear(); return e; }
static FungeError unload(World& w, uint64_t id){ int64_t g = vp_i64("guard"); w.st().push(g); args(w, id); FungeError e = w.ex(')'); vp_check(stackIs(w.st(), &g, 1), ") pops its operands"); w.st().clear(); return e; }
static void loaded(const Tab& a, const Tab& b, const char* l){ for(int i = 0; i < 26; ++i) if(has(l, 'A' + i)) vp_check(b.s[i] != nullptr && b.s[i] != a.s[i], "a loaded instruction has a new meaning"); else vp_check(b.s[i] == a.s[i], "other letters keep theirs"); }
static void same(const Tab& a, const Tab& b){ for(int i = 0; i < 26; ++i) vp_check(a.s[i] == b.s[i], "unloading restores the earlier meanings"); }
extern "C" void h_table(){
	World w(ROW, cfg()); Tab t0 = tab(*w.r); for(int i = 0; i < 26; ++i) vp_check(!t0.s[i], "without a fingerprint the letters mean nothing"); int f = vp_choose("f", 0, NF - 1); vp_check(unload(w, F[f].id) != ERROR_NONE, "what was never loaded cannot be unloaded");
	vp_check(load(w, F[f].id) == ERROR_NONE, "a built-in fingerprint loads"); Tab t1 = tab(*w.r); loaded(t0, t1, F[f].l);
	vp_check(unload(w, F[f].id) == ERROR_NONE, "unloads"); same(t0, tab(*w.r));
	int l = vp_choose("letter", 0, 25); int64_t v[2]; pushSyms(w.st(), v, 2); w.ip().setPos(Vector{5}); FungeError e = w.ex('A' + l); vp_check(e != ERROR_NONE && e != ERROR_SKIP, "an unloaded letter is no instruction"); vp_check(stackIs(w.st(), v, 2), "and leaves the stack alone"); vp_reach("end"); vp_end();
}
extern "C" void h_pair(){
	World w(ROW, cfg()); int a = vp_choose("f", 0, NF - 1), b = vp_choose("g", 0, NF - 1); Tab t0 = tab(*w.r); load(w, F[a].id); Tab t1 = tab(*w.r); loaded(t0, t1, F[a].l); vp_check(load(w, F[b].id) == ERROR_NONE, "loads"); Tab t2 = tab(*w.r); loaded(t1, t2, F[b].l);
	vp_check(unload(w, F[b].id) == ERROR_NONE, "unloads"); same(t1, tab(*w.r)); vp_check(unload(w, F[a].id) == ERROR_NONE, "unloads"); same(t0, tab(*w.r)); vp_reach("end"); vp_end();
}
// what the letters do, on arbitrary operands: 0 nothing, 1 BOOL, 2 BITW, 3 CPLI
static void does(FungeRunner& r, int who, char c){
	Stack& s = r.getStack().top(); s.clear(); int64_t v[4]; pushSyms(s, v, 4); FungeError e = r.execute(c);
	if(!who){ vp_check(e != ERROR_NONE && e != ERROR_SKIP, "no instruction"); return; }
	vp_check(e == ERROR_NONE, "an instruction"); if(c == 'L') { int64_t n = v[3]; vp_assume(n >= 0); vp_assume(n < 64); int64_t x[3] = {v[0], v[1], (int64_t)((U)v[2] << n)}; vp_check(stackIs(s, x, 3), "L of BITW"); return; }
	if(c == 'S'){ int64_t x[2] = {wsub(v[0], v[2]), wsub(v[1], v[3])}; vp_check(stackIs(s, x, 2), "S of CPLI"); return; }
	if(who == 3){ int64_t x[2] = {wadd(v[0], v[2]), wadd(v[1], v[3])}; vp_check(stackIs(s, x, 2), "A of CPLI"); } else { int64_t x[3] = {v[0], v[1], v[2] & v[3]}; vp_check(stackIs(s, x, 3), "A of BOOL and BITW"); }
}
static const int H[] = {2, 1, 3};
extern "C" void h_history(){
	World w(ROW, cfg()); std::vector<Sem> m[26]; int up[3] = {0, 0, 0}; std::vector<int> order; int n = VP_THOROUGH ? 5 : 4;
	for(int k = 0; k < n; ++k){
		int op = vp_choose("op", 0, 5), f = op % 3; const Fp& p = F[H[f]];
		if(op < 3){ Tab a = tab(*w.r); vp_check(load(w, p.id) == ERROR_NONE, "loads"); Tab b = tab(*w.r); loaded(a, b, p.l); for(int i = 0; i < 26; ++i) if(has(p.l, 'A' + i)) m[i].push_back(b.s[i]); ++up[f]; }
		else { if(!up[f]){ vp_end(); return; } vp_check(unload(w, p.id) == ERROR_NONE, "unloads"); for(int i = 0; i < 26; ++i) if(has(p.l, 'A' + i)) m[i].pop_back(); --up[f]; }
		Tab t = tab(*w.r); for(int i = 0; i < 26; ++i) vp_check(t.s[i] == (m[i].empty() ? nullptr : m[i].back()), "loading pushes one meaning per instruction and unloading pops one");
	}
	vp_reach("end"); vp_end();
}
extern "C" void h_clone(){
	World w(ROW, cfg()); std::vector<int> o; int n = vp_choose("n", 0, 3); for(int k = 0; k < n; ++k){ int f = vp_choose("f", 0, 2); load(w, F[H[f]].id); o.push_back(f); } bool un = n && vp_choose("un", 0, 1); if(un){ unload(w, F[H[o.back()]].id); o.pop_back(); }
	FungeRunner c(*w.r); int top[26]; for(int i = 0; i < 26; ++i){ top[i] = 0; for(int f : o) if(has(F[H[f]].l, 'A' + i)) top[i] = f + 1; vp_check((c.getSemantic('A' + i) != nullptr) == (top[i] != 0), "a new IP has the instructions of its parent"); vp_check((w.r->getSemantic('A' + i) != nullptr) == (top[i] != 0), "which keeps its own"); if(top[i]) vp_check(c.getSemantic('A' + i) != w.r->getSemantic('A' + i), "not shared"); }
	char L = "ALS"[vp_choose("letter", 0, 2)]; w.ip().setPos(Vector{5}); c.getIP().setPos(Vector{9}); Vector d = w.ip().getDelta();
	does(c, top[L - 'A'], L); vp_check(w.st().size() == 0 && vecIs(w.ip().getPos(), {5}), "what the new IP does leaves the parent alone"); does(*w.r, top[L - 'A'], L);
	// unloading in one does not change the other
	if(!o.empty()){ Tab t = tab(*w.r); Stack& s = c.getStack().top(); s.clear(); uint64_t id = F[H[o.back()]].id; for(int k = 0; k < 4; ++k) s.push((id >> (8 * k)) & 255); s.push(4); vp_check(c.execute(')') == ERROR_NONE, "the new IP unloads"); Tab u = tab(*w.r); for(int i = 0; i < 26; ++i) vp_check(t.s[i] == u.s[i], "the parent keeps its instructions"); }
	vp_reach("end"); vp_end();
}
extern "C" void h_unknown(){
	World w(ROW, cfg()); Tab t = tab(*w.r); static const uint64_t X[] = {0, 1, 0x41, 0x58595A57, 0x4241534500ull, 0x100000000ull + 0x424F4F4C, 0x626F6F6C, 0x4C4F4F42}; int i = vp_choose("id", 0, 7); int n = vp_choose("n", 4, 5); int64_t g = vp_i64("guard"); w.st().push(g); for(int k = 0; k < n; ++k) w.st().push((X[i] >> (8 * k)) & 255); w.st().push(n);
	uint64_t id = n == 4 ? X[i] & 0xffffffff : X[i]; bool known = false; for(auto& f : F) known |= f.id == id; int op = vp_choose("op", 0, 1); FungeError e = w.ex(op ? ')' : '(');
	if(known && !op){ vp_check(e == ERROR_NONE, "loads"); } else { vp_check(e != ERROR_NONE && e != ERROR_SKIP, "an unknown fingerprint reflects"); vp_check(stackIs(w.st(), &g, 1), "and only its operands are popped"); same(t, tab(*w.r)); } vp_reach("end"); vp_end();
}
extern "C" void h_fing(){
	FungeConfig c = cfg(); c.fingerprints = {0x43504C49, 0x424F4F4C, 0x46494e47}; World w(ROW, c); Tab t = tab(*w.r); int op = vp_choose("op", 0, 2); int a = vp_choose("a", 0, 25), b = op == 1 ? a : vp_choose("b", 0, 25); int64_t g = vp_i64("guard");
	// letters may be given as 0..25 or as A..Z
	int64_t oa = vp_i64("oa"), ob = vp_i64("ob"); vp_assume((oa == a) | (oa == a + 'A')); vp_assume((ob == b) | (ob == b + 'A')); w.st().push(g); if(op != 1) w.st().push(ob); w.st().push(oa); w.ip().setPos(Vector{5});
	vp_check(w.ex("XYZ"[op]) == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), &g, 1), "pops its operands"); Tab u = tab(*w.r);
	for(int i = 0; i < 26; ++i) if(i != a && !(op == 0 && i == b)) vp_check(u.s[i] == t.s[i], "other letters keep their meaning");
	if(op == 0){ if(a != b){ if(t.s[b]) vp_check(u.s[a] == t.s[b], "X exchanges"); if(t.s[a]) vp_check(u.s[b] == t.s[a], "X exchanges"); } else if(t.s[a]) vp_check(u.s[a] == t.s[a], "X with itself"); }
	if(op == 1){ Sem below = nullptr; if(has("AOX", a + 'A')) below = u.s[a]; vp_check((below || !u.s[a]) && (!t.s[a] || u.s[a] != t.s[a]), "Y drops the topmost meaning"); }
	if(op == 2 && t.s[b]) vp_check(u.s[a] == t.s[b], "Z copies"); 
	// a letter without meaning reflects
	int z = op == 0 && !t.s[b] ? a : op == 0 && !t.s[a] ? b : op == 2 && !t.s[b] ? a : op == 1 && !u.s[a] ? a : -1;
	if(z >= 0){ FungeError e = w.ex('A' + z); vp_check((e == ERROR_NONE && vecIs(w.ip().getDelta(), {-1})) || (e != ERROR_NONE && e != ERROR_SKIP && vecIs(w.ip().getDelta(), {1})), "a letter without meaning reflects"); vp_check(stackIs(w.st(), &g, 1), "and leaves the stack alone"); }
	if(op == 1 && a == 0){ w.st().clear(); does(*w.r, 3, 'A'); }
	vp_reach("end"); vp_end();
}
extern "C" void h_fing_arg(){
	FungeConfig c = cfg(); c.fingerprints = {0x424F4F4C, 0x46494e47}; World w(ROW, c); Tab t = tab(*w.r); int op = vp_choose("op", 0, 2); int64_t g = vp_i64("guard"), x = vp_i64("x"); bool first = op == 1 || vp_choose("which", 0, 1); vp_assume((x < 0) | (x > 25)); vp_assume((x < 'A') | (x > 'Z')); w.st().push(g); if(op != 1) w.st().push(first ? 3 : x); w.st().push(first ? x : 3);
	FungeError e = w.ex("XYZ"[op]); vp_check(e != ERROR_NONE && e != ERROR_SKIP, "what is no letter reflects"); same(t, tab(*w.r)); vp_check(w.st().size() >= 1 && w.st().get(w.st().size()) == g, "rest of the stack"); vp_reach("end"); vp_end();
}
