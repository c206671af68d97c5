//@ entry h_wait
//@ entry h_native
//@ entry h_native_quit
//@ entry h_multi
//@ entry h_made
//@ entry h_travel
//@ entry h_return
//@ entry h_native_travel
//@ entry h_kill
//@ entry h_teardown
//@ bounds 1 to 3 universes of 1 or 2 IPs; programs of up to 8 instructions; every schedule with up to 2 (thorough 3; with native threads 1 and 2) preemptions at locks, condition variables and yields, and any choice of thread wherever one blocks; exit codes arbitrary
//@ outside preemption between two instructions of the machine that touch no lock; more preemptions than the bound
//@ assume threads are sequentially consistent
#include "funge_h.h"
static const uint64_t MVRS = 0x4d565253;
static const int K = VP_THOROUGH ? 3 : 2;
static FungeUniverse* uni(const std::string& prog, const FungeConfig& c = config98()){ std::istringstream* in = new std::istringstream(prog); return new FungeUniverse(*in, Field::FORMAT_BF, c); }
static FungeUniverse* verse(const char* name, const std::string& prog, FungeConfig c = config98()){ c.name = name; c.fingerprints.push_back(MVRS); std::istringstream* in = new std::istringstream(prog); return FungeMultiverse::getInstance().create(*in, Field::FORMAT_BF, c); }
static FungeConfig native(){ FungeConfig c = config98(); c.threads = THREAD_NATIVE; return c; }
// what was printed is some interleaving of the rows, each of them whole
static bool digits(const std::string& out, const std::vector<std::string>& rows){
	std::string d; for(char c : out) if(c >= '0' && c <= '9') d += c; size_t n = 0; for(auto& r : rows) n += r.size(); if(d.size() != n) return false;
	for(auto& r : rows){ size_t p = 0; for(char c : d) if(p < r.size() && c == r[p]) ++p; if(p != r.size()) return false; } return true;   // digits of different rows differ
}
extern "C" void h_wait(){
	vp_explore(K); int ips = vp_choose("ips", 1, 2), n = vp_choose("prints", 0, 2), quit = vp_choose("quit", 0, 1); int64_t code = vp_i64("code"); std::string p; std::vector<std::string> rows;
	for(int i = 0; i < ips; ++i){ std::string r; for(int j = 0; j < n; ++j){ p += std::string(1, '1' + 3 * i + j) + "."; r += '1' + 3 * i + j; } rows.push_back(r); p += quit && i == ips - 1 ? "'?q\n" : "@\n"; }
	FungeUniverse* u = uni(p); if(quit) u->getField().put(Vector{2 * n + 1, ips - 1}, code); for(int i = 0; i < ips; ++i) u->createRunner(Vector{0, i}, Vector{1}); u->wait();
	vp_check(!u->isRunning(), "waiting for a program returns when it has ended"); vp_check(digits(vp_out_text(), rows), "and not before all of its IPs have"); vp_check(u->get() == (quit ? (int)code : 0), "with its exit code"); vp_reach("end"); vp_end();
}
extern "C" void h_native(){
	// every IP is a thread of its own
	vp_explore(K - 1); int ips = vp_choose("ips", 1, 2), a = vp_choose("a", 0, 2), b = vp_choose("b", 0, 1); std::string p, r[2]; for(int j = 0; j < a; ++j){ p += std::string(1, '1' + j) + "."; r[0] += '1' + j; } p += "@\n"; for(int j = 0; j < b; ++j){ p += std::string(1, '5' + j) + "."; r[1] += '5' + j; } p += "@";
	FungeUniverse* u = uni(p, native()); for(int i = 0; i < ips; ++i) u->createRunner(Vector{0, i}, Vector{1}); u->wait(); vp_check(!u->isRunning(), "with native threads waiting returns as well"); std::vector<std::string> rows{r[0]}; if(ips == 2) rows.push_back(r[1]);
	vp_check(digits(vp_out_text(), rows), "and not before every IP has ended"); vp_check(u->get() == 0, "with exit code 0"); if(vp_choose("delete", 0, 1)) delete u; vp_reach("end"); vp_end();
}
extern "C" void h_native_quit(){
	vp_explore(K - 1); int64_t code = vp_i64("code"); int n = vp_choose("steps", 0, 2), other = vp_choose("other", 0, 2); std::string p(n, 'z'); p += "'?q\n"; p += other == 1 ? "1.@" : "zzz@"; FungeUniverse* u = uni(p, native()); u->getField().put(Vector{n + 1, 0}, code);
	u->createRunner(Vector{0, 0}, Vector{1}); if(other) u->createRunner(Vector{0, 1}, Vector{1}); u->wait(); vp_check(!u->isRunning() & (u->get() == (int)code), "q ends a program with native threads, with its exit code"); delete u; vp_reach("end"); vp_end();
}
extern "C" void h_multi(){
	vp_explore(K); int k = vp_choose("universes", 1, VP_THOROUGH ? 3 : 2), who = vp_choose("quits", 0, k); int64_t code = vp_i64("code"); std::vector<std::string> rows; FungeUniverse* u[3];
	for(int i = 0; i < k; ++i){ int n = vp_choose("prints", 0, 1); std::string p, r; for(int j = 0; j < n; ++j){ p += std::string(1, '1' + 3 * i + j) + "."; r += '1' + 3 * i + j; } p += who == i ? "'?q" : "@"; rows.push_back(r); std::string name(1, 'a' + i); u[i] = verse(name.c_str(), p); if(who == i) u[i]->getField().put(Vector{2 * n + 1, 0}, code); u[i]->createRunner(Vector{0}, Vector{1}); }
	int rc = FungeMultiverse::getInstance().waitAll(); for(int i = 0; i < k; ++i) vp_check(!u[i]->isRunning(), "every universe has ended"); vp_check(digits(vp_out_text(), rows), "and done all it had to"); vp_check(rc == (who == 0 ? (int)code : 0), "the exit code is that of the first universe"); vp_reach("end"); vp_end();
}
// Universes that a program makes, one or two, change neither when it ends nor its exit code.
extern "C" void h_made(){
	vp_explore(K - 1); int k = vp_choose("made", 0, 2), go = k ? vp_choose("goes", 0, 1) : 0; int64_t code = vp_i64("code"); std::string p; for(int i = 0; i < k; ++i) p += std::string("0\"") + (char)('u' + i) + "\"000B"; p += "1."; if(go){ std::string n = std::string("0\"") + (char)('u' + k - 1) + "\""; p += n + "0000111P" + n + "J\n@"; } else p += "'?q";
	FungeUniverse* u = verse("a", p); if(!go) u->getField().put(Vector{(int64_t)p.size() - 2, 0}, code); u->createRunner(Vector{0}, Vector{1});
	int rc = FungeMultiverse::getInstance().waitAll(); vp_check(FungeMultiverse::getInstance().size() == (size_t)k + 1, "every universe is there"); vp_check(digits(vp_out_text(), {"1"}), "everything is done"); vp_check(rc == (go ? 0 : (int)code), "universes a program makes do not change its exit code"); vp_reach("end"); vp_end();
}
// An IP that goes to another universe is executed there, by that universe, and not by the one it left.
extern "C" void h_travel(){
	vp_explore(K); int n = vp_choose("before", 0, 1), m = vp_choose("after", 0, 2); std::string a, b; for(int j = 0; j < n; ++j) a += std::string(1, '1' + j) + "."; std::string w; for(int j = 0; j < n; ++j) w += '1' + j; size_t at = a.size() + 5; a += "0\"b\"J7.@"; b = std::string(at, '8'); for(int j = 0; j < m; ++j){ b += std::string(1, '4' + j) + "."; w += '4' + j; } b += "@";
	int busy = vp_choose("busy", 0, 1); std::vector<std::string> rows{w}; if(busy){ b += "\n9.@"; rows.push_back("9"); } FungeUniverse* u = verse("a", a); FungeUniverse* v = verse("b", b); if(busy) v->createRunner(Vector{0, 1}, Vector{1}); u->createRunner(Vector{0}, Vector{1});
	int rc = FungeMultiverse::getInstance().waitAll(); vp_check(!u->isRunning() & !v->isRunning() & (rc == 0), "the program ends"); vp_check(digits(vp_out_text(), rows), "an IP that moves goes on in the other universe, each instruction executed once"); vp_reach("end"); vp_end();
}
extern "C" void h_return(){
	// there and back; the IP always exists in exactly one universe, so waiting must not return between
	vp_explore(K); std::string a = "0\"b\"J     1.@", b = "zzzzz0\"a\"J9.@"; FungeUniverse* u = verse("a", a); FungeUniverse* v = verse("b", b); (void)v; u->createRunner(Vector{0}, Vector{1});
	FungeMultiverse::getInstance().waitAll(); vp_check(digits(vp_out_text(), {"1"}), "waiting does not return before an IP that moves among universes has ended"); vp_reach("end"); vp_end();
}
extern "C" void h_native_travel(){
	vp_explore(K - 1); int an = vp_choose("anative", 0, 1), bn = vp_choose("bnative", 0, 1); FungeUniverse* u = verse("a", "0\"b\"J7.@", an ? native() : config98()); FungeUniverse* v = verse("b", "zzzzz1.@", bn ? native() : config98()); u->createRunner(Vector{0}, Vector{1});
	FungeMultiverse::getInstance().waitAll(); vp_check(!u->isRunning() & !v->isRunning(), "the program ends"); vp_check(digits(vp_out_text(), {"1"}), "an IP moves to and from universes with native threads as well"); vp_reach("end"); vp_end();
}
extern "C" void h_kill(){
	vp_explore(K); int64_t code = vp_i64("code"); int nat = vp_choose("native", 0, 1), ips = vp_choose("ips", 0, 2); FungeUniverse* u = uni("zzzz@\nzz@", nat ? native() : config98()); for(int i = 0; i < ips; ++i) u->createRunner(Vector{0, i}, Vector{1});
	u->killAll((int)code); u->wait(); vp_check(!u->isRunning() & (u->get() == (int)code), "a program can be ended from outside at any time"); delete u; vp_reach("end"); vp_end();
}
extern "C" void h_teardown(){
	vp_explore(K); int nat = vp_choose("native", 0, 1), ips = vp_choose("ips", 0, 2); FungeUniverse* u = uni("1zz@\n@", nat ? native() : config98()); for(int i = 0; i < ips; ++i) u->createRunner(Vector{0, i}, Vector{1}); delete u; vp_reach("end"); vp_end();
}
