//@ entry h_inspect t=200
//@ entry h_inspect_args
//@ entry h_step
//@ entry h_quit
//@ entry h_end_of_input
//@ entry h_break
//@ entry h_watch
//@ entry h_peek
//@ entry h_read
//@ entry h_print
//@ entry h_set
//@ entry h_vector t=120
//@ entry h_text t=200
//@ entry h_backtrace
//@ entry h_threads
//@ entry h_ended
//@ entry h_traveller
//@ entry h_fingerprint
//@ entry h_list
//@ entry h_list_dims
//@ entry h_list_default
//@ entry h_alias t=120
//@ entry h_marks
//@ entry h_universes
//@ entry h_written
//@ bounds one or two (thorough three) inspecting commands at a time, with and without arguments, at any stack of up to 3 cells and 3 stacks; programs of up to 12 instructions; breakpoints and watchpoints at any of 9 positions; vectors of up to 2 digits per coordinate with signs and blanks; arbitrary text of up to 4 (thorough 5) bytes as an argument
//@ outside the colours chosen by list and get; areas of more than 3 by 3 cells, except the one of 7 by 7 shown when none is asked for; vectors of more than 18 digits; native threads
#include "funge_h.h"
#include <cstring>
namespace Funge { int fungemain(int argc, char** argv, char** envp); }
static void feed(const std::string& s){ char* p = new char[s.size() + 1]; memcpy(p, s.data(), s.size()); env_stdin(p, s.size()); }
static FungeConfig dbg(int dim = 2){ FungeConfig c = config98(dim); c.mode |= FUNGE_MODE_DEBUG; return c; }
// an IP of the universe (quit ends those of universes only), executed by the harness
struct DW { FungeUniverse* uni; FungeRunner* r; DW(const char* prog, FungeConfig c){ uni = FungeMultiverse::getInstance().create(*new std::istringstream(prog), Field::FORMAT_BF, c); uni->createRunner(Vector{0}, Vector{1}); for(size_t i = 0; !(r = uni->getRunner(i)); ++i); } Stack& st(){ return r->getStack().top(); } Field& field(){ return uni->getField(); } InstructionPointer& ip(){ return r->getIP(); } FungeError ex(int64_t i){ return r->execute(i); } void tick(){ r->tick(); } };
static int start(const char* prog){ vp_file_put("p.b98", prog); static char a[3][16] = {"funge", "-g", "p.b98"}; static char* v[4] = {a[0], a[1], a[2], nullptr}; static char* e[1] = {nullptr}; return fungemain(3, v, e); }
static const char* LOOK[] = {"peek", "peek 1", "peek 2 1", "peek 1 9", "delta", "dir", "storage", "position", "pos", "thread", "t 0", "t 99", "backtrace", "bt", "get", "g (0,0)", "get (1,0) (1,1)", "list", "l (2,1)", "list (1,1,0) (0,1)", "read", "read (1,0)", "u", "universe nothing", "nonsense", ""};
static const int NLOOK = sizeof LOOK / sizeof *LOOK;
struct Twin { World a, b; int64_t v[3]; int n; Twin(const char* prog) : a(prog, dbg()), b(prog, config98()) {} };
static int sameStacks(World& a, World& b){ if(a.ss().size() != b.ss().size()) return 0; int ok = 1; for(size_t j = 0; j < a.ss().size(); ++j){ const Stack &x = a.ss().at(j), &y = b.ss().at(j); if(x.size() != y.size()) return 0; for(size_t i = 1; i <= x.size(); ++i) ok &= x.get(i) == y.get(i); } return ok; }
static int sameIP(World& a, World& b){ int ok = 1; for(int d = 0; d < 3; ++d) ok &= (a.ip().getPos()[d] == b.ip().getPos()[d]) & (a.ip().getDelta()[d] == b.ip().getDelta()[d]) & (a.ip().getStorage()[d] == b.ip().getStorage()[d]); return ok; }
// the same stack, position and storage offset in a program with and without debugger
static void both(Twin& t, int stacks){ t.n = vp_choose("depth", 0, 3); for(int i = 0; i < t.n; ++i){ t.v[i] = vp_i64("s"); t.a.st().push(t.v[i]); t.b.st().push(t.v[i]); } for(int i = 0; i < stacks; ++i){ t.a.st().push(0); t.b.st().push(0); t.a.ex('{'); t.b.ex('{'); int64_t x = vp_i64("s"); t.a.st().push(x); t.b.st().push(x); } int64_t p = vp_choose("at", 0, 2); t.a.ip().setPos(Vector{p}); t.b.ip().setPos(Vector{p}); t.a.ip().setStorage(Vector{7, 8}); t.b.ip().setStorage(Vector{7, 8}); }
static void steps(Twin& t, int n){ for(int i = 0; i < n; ++i){ t.a.tick(); t.b.tick(); } vp_check(sameStacks(t.a, t.b), "looking changes no stack"); vp_check(sameIP(t.a, t.b), "nor the IP"); for(int x = 0; x < 6; ++x) for(int y = 0; y < 2; ++y) vp_check(t.a.field().get(Vector{x, y}) == t.b.field().get(Vector{x, y}), "nor a cell"); vp_check(t.a.r->isRunning() == t.b.r->isRunning(), "and the program goes on"); vp_reach("end"); vp_end(); }
extern "C" void h_inspect(){
	Twin t("+:\\12\nabcdef"); both(t, 0); std::string s; int n = vp_choose("commands", 1, VP_THOROUGH ? 3 : 2); for(int i = 0; i < n; ++i){ s += LOOK[vp_choose("command", 0, NLOOK - 1)]; s += '\n'; } s += vp_choose("run", 0, 1) ? "c\n" : "step\nr\n"; feed(s); steps(t, 2);
}
extern "C" void h_inspect_args(){
	Twin t("+:\\12\nabcdef"); both(t, vp_choose("stacks", 0, 2)); static const char* C[] = {"peek ", "peek 1 ", "t "}; int k = vp_choose("command", 0, 2); uint8_t d = vp_u8("digit"); vp_assume((d >= '0') & (d <= '9')); bool more = vp_choose("more", 0, 1); feed(std::string(C[k]) + (char)d + (more ? " 1\n" : "\n") + "c\n"); steps(t, 2);
}
// every step is one instruction
extern "C" void h_step(){
	DW w("12345678", dbg()); int n = vp_choose("steps", 0, 7); static const char* S[] = {"s\n", "step\n", "stp\n"}; std::string s; const char* c = S[vp_choose("command", 0, 2)]; for(int i = 0; i < n; ++i) s += c; s += "q\n"; feed(s); int k = 0; while(w.r->isRunning() && k < 20){ w.tick(); ++k; if(k <= n) vp_check(w.st().size() == (size_t)k, "a step executes one instruction"); else break; } vp_check(w.st().size() == (size_t)n, "and nothing is executed before the next command"); vp_reach("end"); vp_end();
}
extern "C" void h_quit(){
	static const char* P[] = {"1.@", "3q", "@", "12+.@"}; int p = vp_choose("program", 0, 3), n = vp_choose("steps", 0, 1); if(p == 2) n = 0; bool l = vp_choose("long", 0, 1); feed(std::string(n ? "s\n" : "") + (l ? "quit\n" : "q\n")); vp_out_reset(); int rc = start(P[p]); vp_check(rc == 1, "quit ends the program with 1"); std::string o = vp_out_text(); size_t at = o.rfind("(defunge)"); vp_check(at != std::string::npos && o.size() - at < 16, "and nothing is executed after it"); vp_reach("end"); vp_end();
}
extern "C" void h_end_of_input(){
	int n = vp_choose("steps", 0, 3); bool line = vp_choose("newline", 0, 1); std::string s; for(int i = 0; i < n; ++i) s += i + 1 < n || line ? "s\n" : "s"; feed(s); int rc = start("12345@"); vp_check(rc == 1, "the end of the input ends the program"); std::string o = vp_out_text(); int k = 0; for(size_t at = 0; (at = o.find("(defunge)", at)) != std::string::npos; ++at) ++k; vp_check(k == n + 1, "after the commands that were read"); vp_reach("end"); vp_end();
}
static std::string digit(int64_t& v){ uint8_t d = vp_u8("digit"); vp_assume((d >= '0') & (d <= '8')); v = d - '0'; return std::string(1, (char)d); }
extern "C" void h_break(){
	DW w("123456789@", dbg()); int64_t a, b; std::string s = vp_choose("long", 0, 1) ? "break (" : "bp ("; s += digit(a); s += ")\n"; bool two = vp_choose("two", 0, 1); b = a; if(two) s += "bp (" + digit(b) + ",0)\n"; feed(s + "c\nq\n"); int k = 0; do { w.tick(); ++k; } while(w.r->isRunning() && k < 15);
	int64_t first = two ? (a == 0 ? b : b == 0 ? a : a < b ? a : b) : a;      // the IP is at 0 when the breakpoints are made
	if(first == 0){ vp_check(k == 10 && w.st().size() == 9, "a program with no breakpoint ahead runs to its end"); } else { vp_check((int64_t)w.st().size() == first, "a program stops before the instruction at the first breakpoint"); vp_check(w.ip().getPos()[0] == first && w.ip().getPos()[1] == 0, "there"); } vp_reach("end"); vp_end();
}
extern "C" void h_watch(){
	DW w("p5@", dbg()); int64_t x, y, v = vp_i64("value"), px = vp_range("px", 0, 8), py = vp_range("py", 1, 8); vp_assume(v != ' '); std::string s = vp_choose("long", 0, 1) ? "watch (" : "wp ("; s += digit(x); s += "," + digit(y) + ")\nc\nq\n"; if(y > 0 && vp_choose("same", 0, 1)) w.field().put(Vector{x, y}, v); w.st().push(v); w.st().push(px); w.st().push(py); feed(s); vp_out_reset(); w.tick(); bool hit = (px == x) & (py == y); vp_check(w.r->isRunning() != hit, "a program stops when, and only when, the cell is written"); if(!hit){ w.tick(); w.tick(); vp_check(w.st().size() == 1 && w.st().get(1) == 5, "and goes on otherwise"); } vp_reach("end"); vp_end();
}
static const char* PROMPT = "\x1b[33m(defunge)\x1b[0m ";
static VpExpect head(World& w, const char* at, int c){ VpExpect e; e.num(w.r->getID()).str(": ").str(at).str(" \"").ch(c).str("\"\n").str(PROMPT); return e; }
static void first(World& w, const std::string& more){ feed("s\n" + more); w.tick(); vp_out_reset(); w.tick(); }
extern "C" void h_peek(){
	World w("zzz", dbg()); int64_t v[3], u[2]; int n = vp_choose("depth", 0, 3), m = 0; pushSyms(w.st(), v, n); bool two = vp_choose("two", 0, 1); if(two){ w.st().push(0); w.ex('{'); m = 2; pushSyms(w.st(), u, m, "u"); } int c = vp_choose("element", 0, 4), s = vp_choose("stack", 0, 2); vp_assume(c > 0 || s == 0); if(two) vp_assume(n == 2);
	std::string cmd = "peek"; if(c){ cmd += ' '; cmd += (char)('0' + c); if(s){ cmd += ' '; cmd += (char)('0' + s); } } first(w, cmd + "\nc\n"); VpExpect e = head(w, "(1)", 'z'); int64_t below[5]; int k = 0; for(int i = 0; i < n; ++i) below[k++] = v[i]; if(two){ below[k++] = 0; below[k++] = 0; } const int64_t* top = two ? u : below; int tn = two ? m : k;
	if(c){ if(s >= (two ? 2 : 1)) e.str("No stack.\n"); else e.num(s == 0 ? ref(top, tn, c) : ref(below, k, c)).ch('\n'); }
	else { for(int j = 0; j < (two ? 2 : 1); ++j){ const int64_t* q = j ? below : top; int qn = j ? k : tn; e.ch('[').ch('0' + j).str("] "); for(int i = 0; i < qn; ++i) e.num(q[i]).ch(' '); e.ch('\n'); } }
	e.str(PROMPT); vp_check(vp_out_is(e), "peek prints the cells asked for"); vp_reach("end"); vp_end();
}
extern "C" void h_read(){
	World w("zzz", dbg()); int64_t x, y, v = vp_i64("value"); vp_assume(v != ' '); std::string s = "read (" + digit(x); s += "," + digit(y) + ")\nc\n"; vp_assume((y != 0) | (x > 2)); w.field().put(Vector{x, y}, v); first(w, s); VpExpect e = head(w, "(1)", 'z'); e.str("Value = (").num(v).str(") \"").ch(v).str("\"\n").str(PROMPT); vp_check(vp_out_is(e), "read prints the cell asked for"); vp_reach("end"); vp_end();
}
extern "C" void h_print(){
	World w("zzz", dbg(3)); int64_t a = vp_i64("a"), b = vp_i64("b"), c = vp_i64("c"); vp_assume((a != 0) & (b != 0) & (c != 0)); int op = vp_choose("op", 0, 2); if(op == 0) w.ip().setStorage(Vector{a, b, c}); static const char* C[] = {"storage\nc\n", "delta\nc\n", "pos\nc\n"}; first(w, C[op]); VpExpect e = head(w, "(1)", 'z'); if(op == 0) e.str("Storage (").num(a).str(", ").num(b).str(", ").num(c).str(")\n"); else if(op == 1) e.str("Delta (1)\n"); else e.num(w.r->getID()).str(": (1) \"z\"\n"); e.str(PROMPT); vp_check(vp_out_is(e), "storage, delta and position print those of the IP"); vp_reach("end"); vp_end();
}
static std::string number(int64_t& v, bool zero){ bool neg = vp_choose("sign", 0, 1); int n = vp_choose("digits", 1, 2); std::string s = neg ? "-" : ""; v = 0; for(int i = 0; i < n; ++i){ uint8_t d = vp_u8("digit"); vp_assume((d >= '0') & (d <= '9')); s += (char)d; v = v * 10 + (d - '0'); } if(neg) v = -v; (void)zero; return s; }
extern "C" void h_set(){
	DW w("zzz", dbg()); int64_t x, y; bool pos = vp_choose("position", 0, 1); std::string a = number(x, false), b = number(y, false); static const char* SEP[] = {",", ", ", " , "}; vp_assume(pos || (x != 0) | (y != 0)); int64_t g = vp_i64("guard"); w.st().push(g);
	w.ip().setStorage(Vector{7, 8}); const char* sep = SEP[vp_choose("separator", 0, 2)]; feed((pos ? "setpos (" : "setdelta (") + a + sep + b + ")\nq\n"); w.tick(); if(pos) vp_check(vecIs(w.ip().getPos(), {x, y}) & vecIs(w.ip().getDelta(), {1}), "setpos sets the position"); else vp_check(vecIs(w.ip().getDelta(), {x, y}) & vecIs(w.ip().getPos(), {0}), "setdelta sets the delta"); vp_check(stackIs(w.st(), &g, 1) & vecIs(w.ip().getStorage(), {7, 8}), "and nothing else"); vp_reach("end"); vp_end();
}
// vectors of one to three coordinates
extern "C" void h_vector(){
	int n = vp_choose("coordinates", 1, 3); std::string s; int64_t v[3] = {0, 0, 0}; bool lead = vp_choose("blank", 0, 1); s = lead ? " (" : "("; for(int i = 0; i < n; ++i){ if(i) s += lead ? " ," : ","; s += number(v[i], true); } if(vp_choose("closed", 0, 1)) s += lead ? " )" : ")"; std::istringstream is(s); Vector r{99, 99, 99, 99}; is >> r; vp_check(vecIs(r, {v[0], v[1], v[2]}), "a vector is read as it is written"); vp_reach("end"); vp_end();
}
// no text makes the debugger hang or fail
extern "C" void h_text(){
	static const char* C[] = {"setpos ", "bp ", "wp ", "read ", "peek ", "t ", "u ", "setdelta "}; DW w("zzz", dbg()); int k = vp_choose("command", 0, 7), n = vp_choose("length", 0, VP_THOROUGH ? 5 : k < 4 ? 4 : 3); std::string s = C[k]; for(int i = 0; i < n; ++i){ uint8_t b = vp_u8("byte"); vp_assume((b != '\n') & (b < 128)); s += (char)b; } int64_t g = vp_i64("guard"); w.st().push(g); feed(s + "\nq\n"); w.tick(); vp_check(!w.r->isRunning(), "the next command is read"); vp_check(stackIs(w.st(), &g, 1), "the stack is left alone"); vp_reach("end"); vp_end();
}
extern "C" void h_backtrace(){
	World w("0123456789abcdef", dbg()); int n = vp_choose("steps", 0, 12); std::string s; for(int i = 0; i < n; ++i) s += "s\n"; feed(s + "bt\nc\n"); for(int i = 0; i < n; ++i) w.tick(); vp_out_reset(); w.tick(); std::string o = vp_out_text(), e = "Backtrace\n"; for(int i = 0; i <= n && i < 10; ++i){ int p = n - i; e += "#" + std::to_string(i) + "  (" + std::to_string(p) + ") \"" + "0123456789abcdef"[p] + "\"\n"; } vp_check(o.find(e + PROMPT) != std::string::npos, "backtrace prints the last positions of the IP, the latest first"); vp_reach("end"); vp_end();
}
// two IPs: a command concerns the one selected
extern "C" void h_threads(){
	int sel = vp_choose("selected", 0, 2); int64_t x = vp_choose("x", 1, 3), y = vp_choose("y", 1, 3); std::string set = "setpos (" + std::string(1, (char)('0' + x)) + "," + std::string(1, (char)('0' + y)) + ")\n"; static const char* T[] = {"", "t 0\n", "t 1\n"};
	feed("c\n" + std::string(T[sel]) + "t\n" + set + "q\n"); vp_out_reset(); int rc = start("#vt1..@\n >   z"); vp_check(rc == 1, "quit ends all IPs"); std::string o = vp_out_text(); int s = sel == 0 ? 1 : sel - 1; std::string b = std::to_string(s) + ": (" + std::to_string(x) + ", " + std::to_string(y) + ")"; vp_check(o.find(b) != std::string::npos, "setpos concerns the IP selected"); size_t i0 = o.find(s == 0 ? "* 0: (" : "  0: ("), i1 = o.find(s == 1 ? "* 1: (" : "  1: ("); vp_check(i0 != std::string::npos && i1 != std::string::npos, "thread lists every IP, and marks the one selected"); size_t e0 = o.find(")", i0), e1 = o.find(")", i1); vp_check(o.substr(i0 + 5, e0 - i0 - 5) != o.substr(i1 + 5, e1 - i1 - 5), "each with its own position"); vp_reach("end"); vp_end();
}
// IPs that have ended
extern "C" void h_ended(){
	static const char* C[] = {"t 0", "t 1", "t", "l", "get (0,0)", "u p.b98", "t 1\nl", "t 0\npos\nbt\npeek", "u p.b98\npos\nl"}; int k = vp_choose("command", 0, 8), gone = vp_choose("gone", 0, 1), twice = vp_choose("twice", 0, 1); std::string s = C[k]; s += '\n'; if(twice){ s += C[vp_choose("second", 0, 8)]; s += '\n'; }
	// one IP runs into @, the other one goes on; "bp" stops the survivor
	feed(std::string(gone ? "bp (4,0)\nc\nc\n" : "bp (0,0)\nc\nc\n") + s + "q\n"); int rc = start(gone ? "@ tzz" "zz" : "zztz@"); vp_check(rc == 1 || rc == 0, "the debugger goes on when an IP has ended"); vp_reach("end"); vp_end();
}
// an IP that goes to another universe and comes back
extern "C" void h_traveller(){
	FungeConfig c = dbg(); c.name = "b"; std::istringstream* nb = new std::istringstream("zzzzzz0\"a\"Jz@"); FungeUniverse* b = FungeMultiverse::getInstance().create(*nb, Field::FORMAT_BF, c); c = dbg(); c.name = "a"; c.fingerprints.push_back(0x4d565253); std::istringstream* na = new std::istringstream("0\"b\"J    zz@"); FungeUniverse* a = FungeMultiverse::getInstance().create(*na, Field::FORMAT_BF, c); (void)b;
	static const char* C[] = {"t", "u a", "u a\nt\nl", "u a\npos", "l"}; int n = vp_choose("steps", 3, 16); std::string s; for(int i = 0; i < n; ++i) s += "s\n"; s += C[vp_choose("command", 0, 4)]; feed(s + "\nq\n"); a->createRunner(Vector{0}, Vector{1}); FungeMultiverse::getInstance().waitAll(); vp_check(!a->isRunning() & !b->isRunning(), "quit ends every universe"); vp_reach("end"); vp_end();
}
extern "C" void h_fingerprint(){
	FungeConfig c = config98(); c.fingerprints.push_back(0x44425547); DW w("zzzz", c); int64_t g = vp_i64("guard"); w.st().push(g); int op = vp_choose("op", 0, 4); feed("q\n");
	if(op == 0){ w.tick(); vp_check(w.r->isRunning(), "without E the debugger does not stop"); vp_check(w.ex('B') == ERROR_NONE && w.r->isRunning(), "nor does B"); }
	else { vp_check(w.ex('E') == ERROR_NONE, "E succeeds"); if(op == 1){ w.tick(); vp_check(!w.r->isRunning(), "E enables the debugger"); }
		else if(op == 2){ w.ex('D'); w.tick(); vp_check(w.r->isRunning(), "D disables it"); }
		else if(op == 3){ feed("c\nq\n"); int64_t x = vp_range("x", 0, 3); w.st().push(x); w.st().push(0); vp_check(w.ex('A') == ERROR_NONE, "A succeeds"); int k = 0; while(w.r->isRunning() && k < 5){ w.tick(); ++k; } vp_check(k == (x == 0 ? 5 : x + 1), "A makes a breakpoint"); }
		else { feed("c\nq\n"); int64_t x = vp_range("x", 0, 8), y = vp_range("y", 1, 8), px = vp_range("px", 0, 8), py = vp_range("py", 1, 8); w.st().push(x); w.st().push(y); vp_check(w.ex('W') == ERROR_NONE, "W succeeds"); w.tick(); w.st().push(65); w.st().push(px); w.st().push(py); w.ex('p'); vp_check(w.r->isRunning() != ((px == x) & (py == y)), "W makes a watchpoint"); vp_check(w.field().get(Vector{px, py}) == 65, "and the cell is written"); } }
	vp_check(stackIs(w.st(), &g, 1), "the stack is left alone"); vp_reach("end"); vp_end();
}

// the text of an area without the colours: list and get show the cells around a place, row by row
static std::string plain(const std::string& o){ std::string r; for(size_t i = 0; i < o.size(); ++i){ if(o[i] == '\x1b'){ while(i < o.size() && o[i] != 'm') ++i; continue; } r += o[i]; } return r; }
extern "C" void h_list(){
	int dim = vp_choose("dim", 2, 3), sx = vp_choose("sx", 0, 1), sy = vp_choose("sy", 0, 1), get = vp_choose("get", 0, 1), d0 = vp_choose("d0", 0, dim - 1), d1 = vp_choose("d1", 0, dim - 1); if(d0 == d1){ vp_reach("end"); vp_end(); return; } World w("1zzzzzz", dbg(dim)); int64_t size[3] = {0, 0, 0}, c[3] = {0, 0, 0}; size[d0] = sx; size[d1] = sy; if(get){ c[0] = 2; c[1] = 1; c[2] = dim - 2; }
	std::string rows; int64_t q[3]; for(int64_t j = -sy; j <= sy; ++j){ for(int64_t i = -sx; i <= sx; ++i){ for(int k = 0; k < 3; ++k) q[k] = c[k]; q[d0] += i; q[d1] += j; uint8_t ch = vp_u8("cell"); vp_assume((ch >= 'A') & (ch <= 'Z')); if(dim == 2) w.field().put(Vector{q[0], q[1]}, ch); else w.field().put(Vector{q[0], q[1], q[2]}, ch); rows += (char)ch; } rows += '\n'; }
	std::string cmd = get ? dim == 2 ? "get (2,1) " : "get (2,1,1) " : "list "; cmd += "(" + std::to_string(size[0]) + "," + std::to_string(size[1]); if(dim == 3) cmd += "," + std::to_string(size[2]); cmd += ") (" + std::to_string(d0) + "," + std::to_string(d1) + ")\nc\n"; feed(cmd); vp_out_reset(); w.tick();
	std::string o = plain(vp_out_text()); const char* pr = "(defunge) "; size_t a = o.find(pr); vp_check(a != std::string::npos, "a command is read"); a += 10; std::string got = o.substr(a); size_t len = rows.size(); vp_check(got.size() >= len && got.compare(len, 10, pr) == 0, "an area has as many rows and columns as asked for"); bool ok = got.size() >= len; for(size_t i = 0; ok && i < len; ++i) ok &= got[i] == rows[i]; vp_check(ok, "and shows the cells there, in both dimensions asked for"); vp_reach("end"); vp_end();
}
extern "C" void h_list_dims(){
	Twin t("+:\\12\nabcdef"); both(t, 0); int d[2]; std::string s = vp_choose("get", 0, 1) ? "get (0,0) (1,1) (" : "list (1,1) ("; int n = vp_choose("given", 0, 2); for(int i = 0; i < n; ++i){ d[i] = vp_choose("d", -1, 2); if(i) s += ','; s += std::to_string(d[i]); } if(n == 2 && vp_choose("huge", 0, 1)) { s += "99999999"; d[1] = d[1] < 0 ? -99 : 99; } feed(s + ")\nc\n"); vp_out_reset(); t.a.tick(); t.b.tick(); int d0 = n ? d[0] : 0, d1 = n == 0 ? 1 : n > 1 ? d[1] : 0; bool two = n == 0 || (d0 != d1 && d0 >= 0 && d0 < 2 && d1 >= 0 && d1 < 2), said = vp_out_text().find("Not two dimensions") != std::string::npos; if(n != 0) vp_check(two != said, "what is not two dimensions of fungespace is refused, and only that"); steps(t, 1);
}
// without a size an area of three cells around the place is shown, in the first two dimensions
extern "C" void h_list_default(){
	int dim = vp_choose("dim", 2, 3), k = vp_choose("command", 0, 5); static const char* C[] = {"list\nc\n", "get\nc\n", "get (5,4)\nc\n", "g (5,4) (3,3)\nc\n", "list (1,1)\nc\n", "get (5,4) (1,1)\nc\n"}; World w("z", dbg(dim)); int64_t cx = k >= 2 && k != 4 ? 5 : 4, cy = 4, r = k >= 4 ? 1 : 3; w.ip().setPos(Vector{4, 4}); std::string rows; int cells = 0; uint8_t ch[9]; for(int i = 0; i < 9; ++i){ ch[i] = vp_u8("cell"); vp_assume((ch[i] >= 'A') & (ch[i] <= 'Z')); }
	for(int64_t y = cy - r - 1; y <= cy + r + 1; ++y) for(int64_t x = cx - r - 1; x <= cx + r + 1; ++x){ bool in = x >= cx - r && x <= cx + r && y >= cy - r && y <= cy + r; w.field().put(Vector{x, y}, in ? ch[cells % 9] : '#'); if(dim == 3) w.field().put(Vector{x, y, 1}, '#'); if(in){ rows += (char)ch[cells % 9]; ++cells; if(x == cx + r) rows += '\n'; } }
	feed(C[k]); vp_out_reset(); w.tick(); std::string o = plain(vp_out_text()); const char* pr = "(defunge) "; size_t a = o.find(pr); vp_check(a != std::string::npos, "a command is read"); std::string got = o.substr(a + 10); size_t len = rows.size(); vp_check(got.size() >= len && got.compare(len, 10, pr) == 0, "an area of the default size is shown"); bool ok = got.size() >= len; for(size_t i = 0; ok && i < len; ++i) ok &= got[i] == rows[i]; vp_check(ok, "with the cells there"); vp_reach("end"); vp_end();
}
// every name of a command is that command
extern "C" void h_alias(){
	static const char* LONG[] = {"peek", "delta", "delta", "position", "thread", "backtrace", "get", "list", "break (9,9)", "watch (9,9)", "universe", "peek 1", "get (0,1)"}; static const char* SHORT[] = {"p", "dir", "d", "pos", "t", "bt", "g", "l", "bp (9,9)", "wp (9,9)", "u", "p 1", "g (0,1)"}; static const char* GO[] = {"c", "continue", "con", "r", "run"};
	DW w("zzzzzzzz", dbg()); int n = vp_choose("steps", 0, 3), k = vp_choose("command", 0, 12); int64_t x = vp_range("x", 0, 9); w.st().push(x); std::string s; for(int i = 0; i < n; ++i) s += "s\n"; feed(s + LONG[k] + "\n" + SHORT[k] + "\n" + GO[vp_choose("go", 0, 4)] + "\n"); for(int i = 0; i < n; ++i) w.tick(); vp_out_reset(); w.tick();
	std::string o = vp_out_text(), pr = PROMPT; size_t a = o.find(pr); vp_check(a != std::string::npos, "a command is read"); a += pr.size(); size_t b = o.find(pr, a); vp_check(b != std::string::npos && b > a, "and answered"); std::string first = o.substr(a, b - a); b += pr.size(); vp_check(o.compare(b, first.size(), first) == 0 && o.compare(b + first.size(), pr.size(), pr) == 0 && o.size() == b + first.size() + pr.size(), "the short name of a command does the same, and nothing is read after the program is told to go on");
	if(k != 8) for(int i = 0; i < 3; ++i) w.tick(); vp_check(w.r->isRunning() && vp_out_text().size() == o.size(), "the program goes on"); vp_reach("end"); vp_end();
}
// break and watch list what has been set, each place once
extern "C" void h_marks(){
	World w("zzz", dbg()); bool br = vp_choose("break", 0, 1); std::string s; bool at[4] = {false, false, false, false}; int n = vp_choose("marks", 1, 3); for(int i = 0; i < n; ++i){ int c = vp_choose("place", 0, 3); at[c] = true; s += std::string(br ? "bp (" : "wp (") + (char)('5' + c) + ",3)\n"; } feed(s + "c\n"); vp_out_reset(); w.tick(); std::string o = vp_out_text(), pr = PROMPT; size_t p = 0; for(int i = 0; i < n; ++i) p = o.find(pr, p) + pr.size(); std::string last = o.substr(p); size_t end = last.find(pr); vp_check(end != std::string::npos, "every command is read"); last.resize(end); size_t len = 0; bool all = true; for(int c = 0; c < 4; ++c){ std::string line = std::string(br ? "Breakpoint (" : "Watchpoint (") + (char)('5' + c) + ", 3)\n"; bool has = last.find(line) != std::string::npos; all &= has == at[c]; if(at[c]) len += line.size(); } vp_check(all && last.size() == len, "all places set are listed, and no others"); vp_reach("end"); vp_end();
}
// universe lists all of them and marks the one looked at
extern "C" void h_universes(){
	static const char* NAME[] = {"a", "b", "cc", "d"}; FungeUniverse* u[3]; int n = vp_choose("universes", 1, 3), go = vp_choose("go", 0, 3); FungeRunner* r = nullptr; for(int i = 0; i < n; ++i){ FungeConfig c = dbg(); c.name = NAME[i]; u[i] = FungeMultiverse::getInstance().create(*new std::istringstream("zzzz"), Field::FORMAT_BF, c); } u[0]->createRunner(Vector{0}, Vector{1}); for(size_t i = 0; !(r = u[0]->getRunner(i)); ++i);
	for(int i = 0; i < n; ++i) u[i]->getField().put(Vector{5, 5}, 'A' + i); static const char* U[] = {"u ", "universe "}; feed(std::string(U[vp_choose("long", 0, 1)]) + NAME[go] + "\nread (5,5)\nu\nu a\nc\n"); vp_out_reset(); r->tick(); std::string o = vp_out_text(), pr = PROMPT; int cur = go < n ? go : 0; std::string val = "Value = (" + std::to_string('A' + cur) + ") \"" + (char)('A' + cur) + "\"\n"; size_t a = o.find(pr) + pr.size(), b = o.find(pr, a), c = o.find(pr, b + 1), d = o.find(pr, c + 1); vp_check(d != std::string::npos, "every command is read"); std::string l1 = "\n" + o.substr(a, b - a), rd = o.substr(b + pr.size(), c - b - pr.size()), l2 = "\n" + o.substr(c + pr.size(), d - c - pr.size()); size_t len = 1; for(int i = 0; i < n; ++i){ std::string line = std::string(i == cur ? "\n* " : "\n  ") + NAME[i] + "\n"; len += line.size() - 1; vp_check(l1.find(line) != std::string::npos && l2.find(line) != std::string::npos, "universe lists every universe, and marks the one looked at"); } vp_check(l1.size() == len && l2.size() == len, "and nothing else"); vp_check(rd == val, "cells are read there"); vp_check(r->isRunning(), "the program goes on"); vp_reach("end"); vp_end();
}
// what a watchpoint reports
extern "C" void h_written(){
	DW w("p5@", dbg()); int64_t x = vp_range("x", 0, 8), y = vp_range("y", 1, 8), v = vp_i64("value"), old = vp_i64("old"); int64_t cx, cy; std::string s = "wp (" + digit(cx); s += "," + digit(cy) + ")\nc\nc\n"; vp_assume((cx == x) & (cy == y) & (old != ' ')); w.field().put(Vector{x, y}, old); w.st().push(v); w.st().push(x); w.st().push(y); feed(s); w.tick(); vp_check(w.field().get(Vector{x, y}) == v, "a watched cell gets its value"); vp_check(w.r->isRunning(), "the program goes on when told to"); w.tick(); vp_check(w.st().size() == 1 && w.st().get(1) == 5, "with the next instruction"); vp_reach("end"); vp_end();
}
