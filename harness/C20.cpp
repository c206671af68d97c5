//@ entry h_gate98
//@ entry h_gate_star
//@ entry h_gate_fing
//@ entry h_allowed
//@ entry h_made
//@ entry h_dynamic
//@ bounds every combination of the four capabilities; every gated instruction and fingerprint instruction; stacks of 4 arbitrary cells; any delta of -2..2
//@ outside loading of fingerprints given on the command line, which the fingerprint capability does not cover
#include "funge_h.h"
// no file opened or created, no command run, no directory touched, no IP made
static void quiet(World& w){
	vp_check(env_system_calls == 0, "no command is run"); vp_check(vp_file_opens() <= 0 && vp_file_count() == 0, "no file is opened or created"); vp_check(env_dirops == 0, "no directory is touched");
	size_t id = w.r->getID(); int more = 0; for(size_t i = 0; i < 4; ++i) more |= (w.uni->getRunner(id + 1 + i) != nullptr); vp_check(!more, "no IP is created");
}
static void refused(World& w, int64_t inst, const int64_t* v, int n){
	int64_t d = vp_range("delta", -2, 2); vp_assume(d != 0); int64_t at = 10; w.field().put(Vector{at}, inst); w.ip().setPos(Vector{at}); w.ip().setDelta(Vector{d});
	size_t cells = w.ss().size(); w.tick();
	vp_check(vecIs(w.ip().getDelta(), {-d}), "an instruction that is not available reflects"); vp_check(stackIs(w.st(), v, n) & (w.ss().size() == cells), "and leaves the stack alone"); vp_check(vecIs(w.ip().getPos(), {at - d}), "and the IP goes on"); quiet(w);
}
struct Caps { bool c, e, f, p; };
static FungeConfig caps(FungeConfig c, Caps& k){ int m = vp_choose("caps", 0, 15); k = {!!(m & 1), !!(m & 2), !!(m & 4), !!(m & 8)}; c.concurrent = k.c; c.execute = k.e; c.filesystem = k.f; c.fingerprint = k.p; return c; }
static const char* ROW = "@                    @";
extern "C" void h_gate98(){
	Caps k; World w(ROW, caps(config98(), k)); int64_t v[4]; pushSyms(w.st(), v, 4); static const char I[] = "tio=()"; int i = vp_choose("inst", 0, 5);
	bool on = i == 0 ? k.c : i < 3 ? k.f : i == 3 ? k.e : k.p; if(on){ vp_reach("end"); vp_end(); return; }
	refused(w, I[i], v, 4); vp_reach("end"); vp_end();
}
extern "C" void h_gate_star(){
	Caps k; FungeConfig c = caps(configFish(true), k); World w(ROW, c); int64_t v[4]; pushSyms(w.st(), v, 4); if(k.f){ vp_reach("end"); vp_end(); return; }
	FungeError e = w.ex('F'); vp_check(e != ERROR_NONE && e != ERROR_SKIP, "the file instruction of *><> fails when files are not allowed"); vp_check(stackIs(w.st(), v, 4), "and leaves the stack alone"); quiet(w); vp_reach("end"); vp_end();
}
extern "C" void h_gate_fing(){
	Caps k; FungeConfig c = caps(config98(), k); bool dirf = vp_choose("dirf", 0, 1); c.fingerprints.push_back(dirf ? 0x44495246 : 0x5045524C); World w(ROW, c); int opens = vp_file_opens(); vp_check(opens <= 0, "loading a built-in fingerprint opens no file");
	int64_t v[4]; pushSyms(w.st(), v, 4); int i = vp_choose("inst", 0, dirf ? 2 : 1); bool on = dirf ? k.f : k.e; if(on){ vp_reach("end"); vp_end(); return; }
	refused(w, dirf ? "CMR"[i] : "EI"[i], v, 4); vp_reach("end"); vp_end();
}
extern "C" void h_allowed(){
	// the counterpart: with the capability, and nothing else, the instruction works
	int i = vp_choose("inst", 0, 6); FungeConfig c = config98(); c.concurrent = i == 0; c.filesystem = i == 1 || i == 2 || i == 5; c.execute = i == 3 || i == 6; c.fingerprint = i == 4; if(i == 5) c.fingerprints.push_back(0x44495246); if(i == 6) c.fingerprints.push_back(0x5045524C);
	vp_file_put("f", "x"); env_isdir = "f"; World w(ROW, c); size_t id = w.r->getID(); static const char I[] = "tio=(CI"; Stack& s = w.st(); int64_t g = vp_i64("guard"); s.push(g); env_system_result = 256 * 7; std::string x;
	if(i == 1 || i == 2){ if(i == 2){ s.push(1); s.push(1); } s.push(4); s.push(0); s.push(0); s.push(0); s.push('f'); } if(i == 3 || i >= 5){ s.push(0); s.push('f'); } if(i == 4){ for(int b : {'L', 'O', 'O', 'B'}) s.push(b); s.push(4); }
	vp_check(w.ex(I[i]) == ERROR_NONE, "an instruction that is allowed succeeds");
	if(i == 0) vp_check(w.uni->getRunner(id + 1) != nullptr, "t creates an IP");
	if(i == 1) vp_check(w.field().get(Vector{0, 4}) == 'x' || w.field().get(Vector{4}) == 'x', "i reads the file");
	if(i == 2) vp_check(vp_file_get("f", x) && x.size() == 2, "o writes the file");
	if(i == 3) { int64_t e[2] = {g, 256 * 7}; vp_check(env_system_calls == 1 && env_system_cmd[0] == 'f' && !env_system_cmd[1], "= runs the command"); vp_check(stackIs(s, e, 2), "and pushes its result"); }
	if(i == 4) { int64_t e[3] = {g, 0x424F4F4C, 1}; vp_check(stackIs(s, e, 3), "( pushes the fingerprint and 1"); }
	if(i == 5) vp_check(env_dirops == 1 && stackIs(s, &g, 1), "C changes the directory");
	if(i == 6) { int64_t e[2] = {g, 7}; vp_check(env_system_calls == 1 && stackIs(s, e, 2), "I runs perl and pushes its exit code"); }
	vp_reach("end"); vp_end();
}
// A universe made by a program may do no more than the one it was made in.
extern "C" void h_made(){
	Caps k; FungeConfig c = caps(config98(), k); c.name = "a"; c.fingerprints.push_back(0x4d565253); FungeMultiverse& m = FungeMultiverse::getInstance(); FungeUniverse* a = m.create(*new std::istringstream("@"), Field::FORMAT_BF, c); FungeRunner r(*a, Vector{0}, Vector{1}); Stack& s = r.getStack().top(); s.push(0); s.push('b'); s.push(0); s.push(vp_choose("language", 0, 2)); s.push(vp_choose("dimensions", 0, 3)); vp_check(r.execute('B') == ERROR_NONE, "a universe is made"); FungeUniverse* b = m["b"]; vp_check(b != nullptr, "with its name"); if(!b) vp_end();
	vp_check(b->allowConcurrent() == k.c && b->allowExecute() == k.e && b->allowFilesystem() == k.f && b->allowFingerprints() == k.p, "in which the same is allowed");
	s.push(0); s.push('b'); r.execute('J'); static const char I[] = "tio=()"; int i = vp_choose("inst", 0, 5); bool on = i == 0 ? k.c : i < 3 ? k.f : i == 3 ? k.e : k.p; if(!on){ int64_t v[4]; pushSyms(s, v, 4); FungeError e = r.execute(I[i]); vp_check(e != ERROR_NONE && stackIs(s, v, 4), "an IP that goes there is refused what it was refused before"); vp_check(env_system_calls == 0 && vp_file_opens() <= 0 && vp_file_count() == 0, "and nothing is done"); } vp_reach("end"); vp_end();
}
// A fingerprint written in Funge may do no more than the program that uses it.
extern "C" void h_dynamic(){
	vp_file_put("bin/../fing/TEST.fl", "=A\n#@t7@\n=B\n#@i7@\n=C\n#@o7@\n=D\n#@=7@\n=E\n#@(7@\n=F\n#@)7@\n"); Caps k; FungeConfig c = caps(config98(), k); c.fingerprints.push_back(0x54455354); World w(ROW, c);
	int64_t v[4]; pushSyms(w.st(), v, 4); int i = vp_choose("inst", 0, 5); bool on = i == 0 ? k.c : i < 3 ? k.f : i == 3 ? k.e : k.p; if(on && i > 0){ vp_reach("end"); vp_end(); return; }
	int opens = vp_file_opens(), files = vp_file_count(); vp_check(w.ex('A' + i) == ERROR_NONE, "no error"); if(on){ vp_check(w.st().size() == 5 && w.st().get(1) == 7, "what is allowed works"); vp_reach("end"); vp_end(); return; }
	vp_check(stackIs(w.st(), v, 4), "an instruction of a fingerprint written in Funge is refused what its caller is"); vp_check(env_system_calls == 0 && vp_file_opens() == opens && vp_file_count() == files, "and nothing is done"); vp_reach("end"); vp_end();
}
