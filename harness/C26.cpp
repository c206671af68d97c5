//@ entry h_child
//@ entry h_turns
//@ entry h_fork
//@ entry h_shared
//@ entry h_end
//@ entry h_quit
//@ entry h_iipc
//@ entry h_parent
//@ entry h_dormant
//@ bounds 1 to 3 IPs; stacks of 0..3 arbitrary cells, a second stack of 0..1; programs of up to 3 outputs per IP with every combination of lengths and blanks; storage offsets and cell values arbitrary; IP ids arbitrary 64-bit operands; dormant for 0..3 turns
//@ outside native threads (-fthreads=native), whose order is up to the operating system
#include "funge_h.h"
static const uint64_t IIPC = 0x49495043;
static FungeUniverse* uni(const std::string& prog, const FungeConfig& c = config98()){ std::istringstream* in = new std::istringstream(prog); return new FungeUniverse(*in, Field::FORMAT_BF, c); }
extern "C" void h_child(){
	World w("@abcdefg\n  t\n       @", config98()); int x = vp_choose("dx", -1, 1), y = vp_choose("dy", -1, 1); w.ip().setPos(Vector{2, 1}); w.ip().setDelta(Vector{x, y}); int64_t so[2] = {vp_i64("sto"), vp_i64("sto")}; w.ip().setStorage(Vector{so[0], so[1]});
	int two = vp_choose("two", 0, 1); int64_t b = vp_i64("below"), v[3]; if(two){ w.st().push(b); w.ss().push(); } int n = vp_choose("depth", 0, 3); pushSyms(w.st(), v, n);
	size_t id = w.r->getID(); w.tick(); FungeRunner* c = nullptr; int others = 0; for(size_t i = 0; i < id + 4; ++i){ FungeRunner* r = w.uni->getRunner(i); if(r){ c = r; ++others; } }
	vp_check(others == 1, "t makes one IP"); if(!c) vp_end(); vp_check(c->getID() != id, "with an id of its own"); vp_check(vecIs(w.ip().getPos(), {2 + x, 1 + y}) & vecIs(w.ip().getDelta(), {x, y}), "the parent goes on");
	vp_check(vecIs(c->getIP().getDelta(), {-x, -y}), "the child has the opposite delta"); vp_check(vecIs(c->getIP().getPos(), {2 - x, 1 - y}), "and starts on the cell that lies there"); vp_check(vecIs(c->getIP().getStorage(), {so[0], so[1]}), "with the storage offset of its parent"); vp_check(c->isRunning(), "the child runs");
	StackStack& q = c->getStack(); vp_check(q.size() == w.ss().size() && stackIs(q.top(), v, n) && (!two || stackIs(q.second(), &b, 1)), "with a copy of its stacks");
	int64_t g = vp_i64("g"), e[4]; for(int i = 0; i < n; ++i) e[i] = v[i]; e[n] = g; bool child = vp_choose("who", 0, 1); (child ? q : w.ss()).top().push(g); vp_check(stackIs((child ? q : w.ss()).top(), e, n + 1) & stackIs((child ? w.ss() : q).top(), v, n), "and from then on a stack of its own");
	(child ? c : w.r)->getIP().setStorage(Vector{9}); vp_check(vecIs((child ? w.r : c)->getIP().getStorage(), {so[0], so[1]}), "and a storage offset"); vp_reach("end"); vp_end();
}
// Rows are executed in turn, one instruction each; blanks take no time.
struct Ref { std::string row; size_t p; };
static void row(Ref& r, VpExpect& e, std::vector<char>& st, bool& live){
	while(r.row[r.p] == ' ') ++r.p; char c = r.row[r.p++]; if(c == '@') live = false; else if(c == '.'){ e.num(st.empty() ? 0 : st.back() - '0'); e.ch(' '); if(!st.empty()) st.pop_back(); } else if(c != 'z') st.push_back(c);
}
extern "C" void h_turns(){
	int k = vp_choose("ips", 1, 3); std::string prog; Ref r[3]; std::vector<char> st[3]; bool live[3];
	for(int i = 0; i < k; ++i){ int n = vp_choose("prints", 0, k < 3 || VP_THOROUGH ? 3 : 2), late = vp_choose("late", 0, 1); r[i] = {late ? "z" : "", 0}; live[i] = true; for(int j = 0; j < n; ++j){ r[i].row += char('1' + 3 * i + j); if(j == 1) r[i].row += "  "; r[i].row += '.'; } r[i].row += '@'; prog += r[i].row + "\n"; }
	FungeUniverse* u = uni(prog); for(int i = 0; i < k; ++i) u->createRunner(Vector{0, i}, Vector{1}); u->wait(); vp_check(!u->isRunning() & (u->get() == 0), "the program ends with its last IP");
	VpExpect e; for(bool any = true; any; ){ any = false; for(int i = 0; i < k; ++i) if(live[i]){ row(r[i], e, st[i], live[i]); any = true; } }
	vp_check(vp_out_is(e), "IPs take turns, one instruction each"); vp_reach("end"); vp_end();
}
extern "C" void h_fork(){
	// the parent starts in the middle and splits; the child runs the other way, and before its parent
	int other = vp_choose("other", 0, 2), a = vp_choose("a", 0, 2), b = vp_choose("b", 0, 2); std::string left = "@", right = "t", third = "789...@"; for(int i = 0; i < a; ++i) left += std::string(".") + char('1' + i); for(int i = 0; i < b; ++i) right += std::string(1, char('4' + i)) + "."; right += "@";
	FungeUniverse* u = uni(left + right + "\n" + third); Vector mid{(int64_t)left.size(), 0}; if(other == 1) u->createRunner(Vector{0, 1}, Vector{1}); u->createRunner(mid, Vector{1}); if(other == 2) u->createRunner(Vector{0, 1}, Vector{1}); u->wait();
	std::string rl(left.rbegin(), left.rend()); struct S { Ref r; std::vector<char> st; bool live; }; S P{{right, 0}, {}, true}, C{{rl, 0}, {}, true}, O{{third, 0}, {}, other != 0};
	VpExpect e; auto go = [&](S& s){ if(s.live) row(s.r, e, s.st, s.live); }; if(other == 1) go(O); P.r.p = 1; /* t */ if(other == 2) go(O); if(other == 1) go(O);
	for(int i = 0; i < 12; ++i){ go(C); go(P); go(O); }
	vp_check(vp_out_is(e), "a child first runs after the other IPs and before its parent"); vp_reach("end"); vp_end();
}
extern "C" void h_shared(){
	int at = vp_choose("when", 0, 8); int64_t v = vp_i64("value"), old = vp_i64("old"); std::string b(at, 'z'); b += "80g.@"; FungeUniverse* u = uni("'?80p@  ?\n" + b); u->getField().put(Vector{1, 0}, v); u->getField().put(Vector{8, 0}, old);
	u->createRunner(Vector{0, 0}, Vector{1}); u->createRunner(Vector{0, 1}, Vector{1}); u->wait(); // p is the 4th instruction, g the (at+3)rd
	vp_check(vp_out_is(VpExpect().num(at + 3 >= 4 ? v : old).ch(' ')), "one fungespace: a cell written is read by the others from then on"); vp_reach("end"); vp_end();
}
extern "C" void h_end(){
	int k = vp_choose("first", 0, 1), n = vp_choose("steps", 0, 3); std::string a(n, 'z'); a += "@"; FungeUniverse* u; std::string r0 = k ? a : "1.2.@", r1 = k ? "1.2.@" : a;
	u = uni(r0 + "\n" + r1); u->createRunner(Vector{0, 0}, Vector{1}); u->createRunner(Vector{0, 1}, Vector{1}); u->wait(); vp_check(vp_out_is(VpExpect().num(1).ch(' ').num(2).ch(' ')), "the end of one IP leaves the others running"); vp_reach("end"); vp_end();
}
extern "C" void h_quit(){
	int first = vp_choose("first", 0, 1), n = vp_choose("steps", 0, 6); int64_t code = vp_i64("code"); std::string a(n, 'z'); a += "'?q"; FungeUniverse* u = uni(first ? a + "\n1.2.3.4.@" : "1.2.3.4.@\n" + a); u->getField().put(Vector{n + 1, first ? 0 : 1}, code);
	u->createRunner(Vector{0, 0}, Vector{1}); u->createRunner(Vector{0, 1}, Vector{1}); u->wait(); VpExpect e; int done = n + 2 - first; for(int i = 1; 2 * i <= done && i <= 4; ++i) e.num(i).ch(' ');
	vp_check(vp_out_is(e), "q ends every IP at once"); vp_check(u->get() == (int)code, "with the exit code popped"); vp_check(!u->isRunning(), "and the program"); vp_reach("end"); vp_end();
}
static World* comm(FungeRunner** r, int n){
	FungeConfig c = config98(); c.fingerprints.push_back(IIPC); World* w = new World("z       @", c); size_t id = w->r->getID(); for(int i = 0; i < n; ++i){ w->uni->createRunner(Vector{i}, Vector{1}); r[i] = w->uni->getRunner(id + 1 + i); vp_check(r[i] != nullptr, "an IP is found by its id"); if(!r[i]) vp_end(); } return w;
}
extern "C" void h_iipc(){
	FungeRunner* r[2]; World* w = comm(r, 2); int64_t a[3], b[2], e[4]; int n = vp_choose("own", 0, 2), m = vp_choose("others", 0, 2); Stack& s = r[0]->getStack().top(); Stack& t = r[1]->getStack().top(); pushSyms(s, a, n, "a"); pushSyms(t, b, m, "b"); int i = vp_choose("inst", 0, 3); int k = 0; for(; k < n; ++k) e[k] = a[k];
	if(i == 3){ vp_check(r[0]->execute('I') == ERROR_NONE, "I succeeds"); e[k++] = r[0]->getID(); vp_check(stackIs(s, e, k) & stackIs(t, b, m), "I pushes the id of the IP"); vp_reach("end"); vp_end(); }
	bool known = vp_choose("known", 0, 1); int64_t id = vp_i64("id"); if(known) id = r[1]->getID(); else { vp_assume(id != (int64_t)r[0]->getID()); vp_assume(id != (int64_t)r[1]->getID()); vp_assume(w->r->getID() != (size_t)id); }
	s.push(id); FungeError err = r[0]->execute("GLP"[i]); vp_check((err == ERROR_NONE) == known, "G, L and P reflect if there is no such IP");
	if(!known){ vp_check(stackIs(t, b, m), "and leave the others alone"); vp_reach("end"); vp_end(); }
	if(i < 2){ e[k++] = ref(b, m, 1); vp_check(stackIs(s, e, k), "G and L push the top cell of the other IP"); vp_check(stackIs(t, b, i == 0 && m ? m - 1 : m), "G takes it, L leaves it"); }
	else { int64_t f[3]; for(int j = 0; j < m; ++j) f[j] = b[j]; f[m] = ref(a, n, 1); vp_check(stackIs(t, f, m + 1) & stackIs(s, a, n ? n - 1 : 0), "P moves a cell to the other IP"); }
	vp_reach("end"); vp_end();
}
extern "C" void h_parent(){
	FungeRunner* r[1]; World* w = comm(r, 1); size_t id = r[0]->getID(); int64_t g = vp_i64("guard");
	r[0]->getStack().top().push(g);
	if(vp_choose("orphan", 0, 1)){ vp_check(r[0]->execute('A') != ERROR_NONE, "an IP without a parent reflects on A"); vp_check(stackIs(r[0]->getStack().top(), &g, 1), "and pushes nothing"); vp_reach("end"); vp_end(); }
	int z = vp_choose("turns", 0, 3); bool dead = vp_choose("dead", 0, 1); std::string left = "@.A" + std::string(z, 'z'); FungeConfig c = config98(); c.fingerprints.push_back(IIPC); FungeUniverse* u = uni(left + "t" + std::string(dead ? 0 : 9, 'z') + "@", c);
	u->createRunner(Vector{(int64_t)left.size()}, Vector{1}); u->wait(); vp_check(vp_out_is(VpExpect().num(id + 1).ch(' ')), "A pushes the id of the parent, alive or not"); vp_reach("end"); vp_end();
}
extern "C" void h_dormant(){
	FungeRunner* r[2]; World* w = comm(r, 2); int64_t a[2], v = vp_i64("v"); int n = vp_choose("own", 0, 2); Stack& s = r[0]->getStack().top(); pushSyms(s, a, n, "a"); w->field().put(Vector{0}, 'D');
	int k = vp_choose("turns", 1, 4); for(int i = 0; i < k; ++i) r[0]->tick(); vp_check(vecIs(r[0]->getIP().getPos(), {0}), "D waits"); vp_check(stackIs(s, a, n), "and leaves the stack alone");
	bool put = vp_choose("put", 0, 1); if(put) r[1]->getStack().top().push(v); r[1]->getStack().top().push(r[0]->getID()); r[1]->execute(put ? 'P' : 'G'); r[0]->tick(); vp_check(vecIs(r[0]->getIP().getPos(), {1}), "until another IP writes or takes a cell");
	r[0]->getIP().setPos(Vector{0}); r[0]->tick(); r[0]->tick(); vp_check(vecIs(r[0]->getIP().getPos(), {0}), "and the next D waits again"); vp_reach("end"); vp_end();
}
