//@ entry h_shell t=200
//@ entry h_shell_run
//@ entry h_result
//@ entry h_shelled
//@ entry h_marks
//@ entry h_granularity
//@ entry h_second
//@ bounds programs for perl of up to 4 (thorough 5) arbitrary bytes; exit codes 0..255; sequences of 5 (thorough 6) timer instructions at any nanoseconds of 36 years that do not go back
//@ outside what perl and the shell do; perl ended by a signal; cells that are not bytes in the code given to perl
//@ assume the shell splits and quotes as POSIX says
#include "funge_h.h"
#include <cstring>
static FungeConfig with(uint64_t f){ FungeConfig c = config98(); c.fingerprints.push_back(f); return c; }
static const uint64_t PERL = 0x5045524C, HRTI = 0x48525449;
// Splits a command as a POSIX shell would; anything the shell would expand or act upon is an error.
static bool words(const char* c, std::vector<std::string>& out){
	std::string w; bool in = false;
	while(*c){
		char x = *c++;
		if(x == ' ' || x == '\t'){ if(in) out.push_back(w); w.clear(); in = false; }
		else if(x == '\''){ in = true; while(*c && *c != '\'') w += *c++; if(!*c) return false; ++c; }
		else if(x == '"'){ in = true; while(*c && *c != '"'){ if(*c == '$' || *c == '`') return false; if(*c == '\\' && (c[1] == '$' || c[1] == '`' || c[1] == '"' || c[1] == '\\')) ++c; w += *c++; } if(!*c) return false; ++c; }
		else if(x == '\\'){ in = true; if(!*c) return false; w += *c++; }
		else if(strchr("|&;<>()$`*?[#~%!{}\n", x)) return false;
		else { in = true; w += x; }
	}
	if(in) out.push_back(w); return true;
}
static bool command(const std::string& code){
	std::vector<std::string> w; if(!words(env_system_cmd, w)) return false; std::string e = "exit(eval{" + code + "})"; if(w.size() != 3) return false; if(w[0] != "perl" || w[1] != "-e" || w[2].size() != e.size()) return false; int ok = 1; for(size_t i = 0; i < e.size(); ++i) ok &= w[2][i] == e[i]; return ok;
}
extern "C" void h_shell(){
	World w("@", with(PERL)); int n = vp_choose("length", 0, VP_THOROUGH ? 5 : 4); std::string code; for(int i = 0; i < n; ++i){ uint8_t b = vp_u8("byte"); vp_assume(b != 0); code += (char)b; } int64_t g = vp_i64("guard"); w.st().push(g); w.st().push(0); for(int i = n; i > 0; --i) w.st().push((uint8_t)code[i - 1]);
	int op = vp_choose("op", 0, 1); env_system_result = 0; vp_check(w.ex("EI"[op]) == ERROR_NONE, "no error"); vp_check(env_system_calls == 1, "perl is run once"); vp_check(command(code), "with exactly the code given, whatever its bytes"); vp_reach("end"); vp_end();
}
// longer programs, made of what a shell might take for something else
extern "C" void h_shell_run(){
	static const char* P[] = {"'", "\\", "\"", "$x", "`", "''", "\\'", " ", "\n", ";", "a"}; World w("@", with(PERL)); std::string code; int n = vp_choose("parts", 0, VP_THOROUGH ? 4 : 3); for(int i = 0; i < n; ++i) code += P[vp_choose("part", 0, 10)]; w.st().push(0); for(size_t i = code.size(); i > 0; --i) w.st().push((uint8_t)code[i - 1]); env_system_result = 0; vp_check(w.ex('I') == ERROR_NONE, "no error"); vp_check(command(code), "perl gets exactly the code given"); vp_reach("end"); vp_end();
}
extern "C" void h_result(){
	World w("@", with(PERL)); int64_t g = vp_i64("guard"), c = vp_range("code", 0, 255); w.st().push(g); w.st().push(0); w.st().push('1'); env_system_result = (int)(c << 8); int op = vp_choose("op", 0, 1);
	if(op == 0){ int64_t e[2] = {g, c}; vp_check(w.ex('I') == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), e, 2), "I pushes the result as a number"); }
	else { vp_check(w.ex('E') == ERROR_NONE, "no error"); int64_t d[3] = {c / 100, c / 10 % 10, c % 10}; int k = c >= 100 ? 3 : c >= 10 ? 2 : 1; int64_t e[5] = {g, 0}; for(int i = 0; i < k; ++i) e[2 + i] = '0' + d[2 - i]; vp_check(stackIs(w.st(), e, 2 + k), "E pushes the result as a string"); } vp_reach("end"); vp_end();
}
extern "C" void h_shelled(){
	World w("@", with(PERL)); int64_t v[3]; int n = vp_choose("depth", 0, 2); pushSyms(w.st(), v, n); v[n] = 1; vp_check(w.ex('S') == ERROR_NONE && stackIs(w.st(), v, n + 1), "S says that perl is run through the shell"); vp_check(env_system_calls == 0, "and does not run it"); vp_reach("end"); vp_end();
}
extern "C" void h_marks(){
	World w("@", with(HRTI)); bool on = false; int64_t at = 0, now = vp_i64("start"); vp_assume((now > 0) & (now < (1ll << 60))); int64_t st[8]; int n = 0;
	for(int i = 0; i < (VP_THOROUGH ? 6 : 5); ++i){ int64_t t = vp_i64("now"); vp_assume((t >= now) & (t < (1ll << 60))); now = env_clock_ns = t; switch(vp_choose("op", 0, 2)){
		case 0: vp_check(w.ex('M') == ERROR_NONE, "M succeeds"); on = true; at = now; break;
		case 1: vp_check(w.ex('E') == ERROR_NONE, "E succeeds"); on = false; break;
		default: { FungeError e = w.ex('T'); vp_check((e == ERROR_NONE) == on, "T fails exactly when there is no mark"); if(on) st[n++] = (now - at) / 1000; } }
		vp_check(stackIs(w.st(), st, n), "T pushes the microseconds since the last mark, the others push nothing"); }
	vp_reach("end"); vp_end();
}
extern "C" void h_granularity(){ World w("@", with(HRTI)); int64_t v[2] = {vp_i64("below"), 1}; w.st().push(v[0]); vp_check(w.ex('G') == ERROR_NONE && stackIs(w.st(), v, 2), "G pushes the granularity of the clock in microseconds, at least 1"); vp_reach("end"); vp_end(); }
extern "C" void h_second(){ World w("@", with(HRTI)); int64_t b = vp_i64("below"); w.st().push(b); int64_t now = vp_i64("now"); vp_assume((now >= 0) & (now < (1ll << 62))); env_clock_ns = now; vp_check(w.ex('S') == ERROR_NONE, "S succeeds"); int64_t e[2] = {b, now / 1000 % 1000000}; vp_check(stackIs(w.st(), e, 2), "S pushes the microseconds since the last whole second"); vp_reach("end"); vp_end(); }
