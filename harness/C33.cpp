//@ entry h_options t=200
//@ entry h_value t=120
//@ entry h_missing
//@ entry h_fingerprint
//@ entry h_args
//@ entry h_extension
//@ entry h_unopened
//@ entry h_fmv
//@ entry h_fmv_files
//@ entry h_fmv_bad
//@ bounds command lines of up to 2 (thorough 3) options from all that are documented; option values of up to 5 (thorough 6) arbitrary bytes; fingerprints of up to 8 arbitrary bytes (of four bytes: BOOL and BITW); 2 arguments of up to 2 (thorough 3) arbitrary bytes; FMV files of up to 2 (thorough 3) lines
//@ outside -g; options that are not documented; FMV files that include themselves
#include "funge_h.h"
#include <cerrno>
#include <cstring>
namespace Funge { int fungemain(int argc, char** argv, char** envp); }
static int start(const std::vector<std::string>& a, const std::vector<std::string>& env = {}){
	std::vector<char*> v, e; for(auto& s : a){ char* p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); v.push_back(p); } for(auto& s : env){ char* p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); e.push_back(p); } int n = v.size(); v.push_back(nullptr); e.push_back(nullptr); return fungemain(n, v.data(), e.data());
}
static FungeUniverse* uni(const char* n){ return FungeMultiverse::getInstance()[n]; }
static bool none(){ return FungeMultiverse::getInstance().size() == 0; }
static bool charCells(FungeUniverse* u){ u->getField().put(Vector{0}, 0x141); return u->getField().get(Vector{0}) == 0x41; }
struct Want { int dim = 0; FungeStandard std = FUNGE_98; FungeTopo topo = TOPO_LAHEY; FungeString str = STRING_SGML; bool chr = false, con = true, exe = true, fil = true, hl = false; };
static const char* OPT[] = {"-std=une93", "-std=une98", "-std=be93", "-std=be98", "-std=tre98", "-std=fish", "-std=sfish", "-fconcurrent", "-fno-concurrent", "-fexecute", "-fno-execute", "-ffilesystem", "-fno-filesystem", "-finvert-hl", "-ftopo=torus", "-ftopo=lahey", "-fstrings=multispace", "-fstrings=sgml", "-fstrings=c", "-fcells=char", "-fcells=int", "-fthreads=native", "-fthreads=funge"};
static void apply(Want& w, int o){
	if(o < 7){ static const int D[] = {1, 1, 2, 2, 3, 2, 2}; static const FungeStandard S[] = {FUNGE_93, FUNGE_98, FUNGE_93, FUNGE_98, FUNGE_98, FUNGE_FISH, FUNGE_STARFISH}; w.dim = D[o]; w.std = S[o]; w.topo = w.std == FUNGE_93 ? TOPO_TORUS : TOPO_LAHEY; w.str = w.std == FUNGE_98 ? STRING_SGML : STRING_MULTISPACE; w.chr = w.std == FUNGE_93; }
	else switch(o){ case 7: w.con = true; break; case 8: w.con = false; break; case 9: w.exe = true; break; case 10: w.exe = false; break; case 11: w.fil = true; break; case 12: w.fil = false; break; case 13: w.hl = true; break; case 14: w.topo = TOPO_TORUS; break; case 15: w.topo = TOPO_LAHEY; break; case 16: w.str = STRING_MULTISPACE; break; case 17: w.str = STRING_SGML; break; case 18: w.str = STRING_C; break; case 19: w.chr = true; break; case 20: w.chr = false; break; default: break; }
}
static void is(FungeUniverse* u, const Want& w){
	vp_check(u != nullptr, "the program is loaded under its name"); vp_check(u->standard() == w.std, "language"); vp_check(w.dim == 0 || u->dimensions() == (size_t)w.dim, "dimensions"); vp_check(u->topology() == w.topo, "topology"); vp_check(u->stringStyle() == w.str, "strings"); vp_check(u->allowConcurrent() == w.con, "t"); vp_check(u->allowExecute() == w.exe, "="); vp_check(u->allowFilesystem() == w.fil, "i and o"); vp_check(u->invertHL() == w.hl, "h and l"); vp_check(charCells(u) == w.chr, "cells"); vp_check(u->allowFingerprints(), "fingerprints stay allowed");
}
// every option sets what it says, later ones override earlier ones
extern "C" void h_options(){
	std::vector<std::string> a = {"funge"}; Want w; int n = vp_choose("options", 0, VP_THOROUGH ? 3 : 2); for(int i = 0; i < n; ++i){ int o = vp_choose("option", 0, 22); a.push_back(OPT[o]); apply(w, o); } bool fish = w.std == FUNGE_FISH || w.std == FUNGE_STARFISH; vp_file_put("prog", fish ? ";" : "@"); a.push_back("prog");
	vp_check(start(a) == 0, "the program runs and ends with 0"); is(uni("prog"), w); vp_reach("end"); vp_end();
}
// a value is one of the list or is refused
extern "C" void h_value(){
	static const char* P[] = {"-std=", "-ftopo=", "-fstrings=", "-fcells=", "-fthreads="}; int k = vp_choose("option", 0, 4), n = vp_choose("length", 1, VP_THOROUGH ? 6 : 5); std::string v; for(int i = 0; i < n; ++i){ uint8_t b = vp_u8("byte"); vp_assume((b != 0) & (b != '=')); v += (char)b; } int o = -1; for(int i = 0; i < 23; ++i) if(strncmp(OPT[i], P[k], strlen(P[k])) == 0 && v == OPT[i] + strlen(P[k])) o = i;
	bool fish = o == 5 || o == 6; vp_file_put("prog", fish ? ";" : "@"); int rc = start({"funge", P[k] + v, "prog"}); if(o < 0){ vp_check(rc == EINVAL, "a value that is not in the list is refused"); vp_check(none(), "and nothing is run"); } else { vp_check(rc == 0, "a value of the list is accepted"); Want w; apply(w, o); is(uni("prog"), w); } vp_reach("end"); vp_end();
}
extern "C" void h_missing(){
	static const char* P[] = {"-std=", "-ftopo=", "-fstrings=", "-fcells=", "-fthreads="}; int k = vp_choose("option", 0, 5); vp_file_put("prog", "@"); int rc = k < 5 ? start({"funge", P[k], "prog"}) : start({"funge", "-fconcurrent"}); vp_check(rc == EINVAL && none(), k < 5 ? "a missing value is refused" : "a missing file is refused"); vp_reach("end"); vp_end();
}
extern "C" void h_fingerprint(){
	int n = vp_choose("length", 1, 8); std::string f; uint64_t id = 0; for(int i = 0; i < n; ++i){ uint8_t b = vp_u8("byte"); vp_assume((b >= '0') & (b != '@')); f += (char)b; id = id << 8 | b; } vp_file_put("prog", "@"); if(n == 4) vp_assume(id == 0x424f4f4c || id == 0x42495457);
	vp_check(start({"funge", "-l" + f, "prog"}) == 0, "the program runs"); FungeUniverse* u = uni("prog"); vp_check(u && u->fingerprints().size() == 1 && u->fingerprints()[0] == id, "the fingerprint is the one named"); vp_reach("end"); vp_end();
}
static std::string text(const char* n, int max){ std::string s; int k = vp_choose("length", 0, max); for(int i = 0; i < k; ++i){ uint8_t b = vp_u8(n); vp_assume(b != 0); s += (char)b; } return s; }
static bool same(const std::string& a, const std::string& b){ if(a.size() != b.size()) return false; int ok = 1; for(size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
extern "C" void h_args(){
	vp_file_put("prog", "@"); std::string a = text("arg", VP_THOROUGH ? 3 : 2), b = text("arg", VP_THOROUGH ? 3 : 2), e = text("env", 2); vp_check(start({"funge", "-fno-execute", "prog", a, b}, {"A=1", e}) == 0, "the program runs"); FungeUniverse* u = uni("prog"); Want w; w.exe = false; is(u, w); auto& g = u->arguments(); vp_check(g.size() == 3 && same(g[0], "prog") && same(g[1], a) && same(g[2], b), "what follows the program is given to it, unchanged"); auto& v = u->environment(); vp_check(v.size() == 2 && same(v[0], "A=1") && same(v[1], e), "and so is the environment"); vp_reach("end"); vp_end();
}
extern "C" void h_extension(){
	static const char* X[] = {"p.bf", "p.b98", "p.beq", "p.fish", "p.sf", "p.txt", "p"}; static const FungeStandard S[] = {FUNGE_93, FUNGE_98, FUNGE_98, FUNGE_FISH, FUNGE_STARFISH, FUNGE_98, FUNGE_98}; int k = vp_choose("file", 0, 6), s = vp_choose("std", 0, 2); std::vector<std::string> a = {"funge"}; FungeStandard want = S[k]; if(s){ a.push_back(s == 1 ? "-std=be98" : "-std=be93"); want = s == 1 ? FUNGE_98 : FUNGE_93; }
	vp_file_put(X[k], want == FUNGE_FISH || want == FUNGE_STARFISH ? ";" : k == 2 ? "Version 1,Dimensions 2\nLines 1,Origin 0:0\n@\n" : "@"); a.push_back(X[k]); vp_check(start(a) == 0, "the program runs"); FungeUniverse* u = uni(X[k]); vp_check(u && u->standard() == want, "the extension decides the language unless -std does"); bool fish = want == FUNGE_FISH || want == FUNGE_STARFISH; vp_check(u->stringStyle() == (s == 2 || fish ? STRING_MULTISPACE : s == 1 || k != 0 ? STRING_SGML : u->stringStyle()), "with its strings"); if(s || k) vp_check(u->topology() == (s == 2 ? TOPO_TORUS : TOPO_LAHEY) && charCells(u) == (s == 2), "its topology and cells"); if(s || fish) vp_check(u->dimensions() == 2, "and its dimensions"); auto& f = u->fingerprints(); vp_check(k == 2 ? (f.size() == 1 && f[0] == 0x4e46554e) : f.empty(), "NFUN is loaded for BeQunge"); vp_reach("end"); vp_end();
}
extern "C" void h_unopened(){
	vp_file_put("dir/x", "@"); static const char* N[] = {"nothing", "nothing.bf", "nothing.fmv", "dir", "dir/", "dir/nothing.b98"}; vp_check(start({"funge", N[vp_choose("file", 0, 5)]}) == EIO, "a file that cannot be opened is an error"); vp_check(none(), "and nothing is run"); vp_reach("end"); vp_end();
}
// every line is a universe
extern "C" void h_fmv(){
	const char* dir = vp_choose("elsewhere", 0, 1) ? "d/" : ""; std::string D = dir; vp_file_put((D + "a.bf").c_str(), "@"); vp_file_put((D + "b.b98").c_str(), "@"); std::string t; std::vector<std::string> name; std::vector<std::vector<std::string>> args; int n = vp_choose("lines", 0, VP_THOROUGH ? 3 : 2);
	for(int i = 0; i < n; ++i){ static const char* L[] = {"a.bf", "b.b98", "./a.bf", "b.b98 x", "a.bf  x yz ", "  b.b98", ""}; static const int F[] = {0, 1, 0, 1, 0, 1, 2}, A[] = {0, 0, 0, 1, 2, 0, 0}; int l = vp_choose("line", 0, 6); t += L[l]; if(i + 1 < n || vp_choose("newline", 0, 1)) t += '\n'; if(F[l] < 2){ name.push_back(F[l] ? "b.b98" : "a.bf"); args.push_back({}); if(A[l] >= 1) args.back().push_back("x"); if(A[l] >= 2) args.back().push_back("yz"); } }
	vp_file_put((D + "m.fmv").c_str(), t); vp_check(start({"funge", D + "m.fmv", "arg"}) == 0, "all universes run and end"); auto& m = FungeMultiverse::getInstance(); vp_check(m.size() == name.size(), "one universe per line that names a file"); 
	std::vector<bool> used(name.size()); int found = 0; for(auto i = m.cbegin(); i != m.cend(); ++i){ FungeUniverse* u = i->second; auto& g = u->arguments(); for(size_t j = 0; j < name.size(); ++j) if(!used[j] && u->standard() == (name[j] == "a.bf" ? FUNGE_93 : FUNGE_98) && g.size() == 2 + args[j].size() && g[0] == D + "m.fmv" && g[1] == "arg" && std::equal(args[j].begin(), args[j].end(), g.begin() + 2)){ used[j] = true; ++found; break; } }
	vp_check(found == (int)name.size(), "each with the arguments of its line after those of the command line"); vp_reach("end"); vp_end();
}
// the first universe gives the exit code
extern "C" void h_fmv_files(){
	int first = vp_choose("first", 0, 2), second = vp_choose("second", 0, 2); static const char* N[] = {"p.b98", "q.b98", "in.fmv"}; vp_file_put("p.b98", "@"); vp_file_put("q.b98", "2q"); vp_file_put("r.b98", "3q"); vp_file_put("in.fmv", "r.b98\np.b98"); vp_file_put("m.fmv", std::string(N[first]) + "\n" + N[second] + "\n"); static const int C[] = {0, 2, 3}; vp_check(start({"funge", "m.fmv"}) == C[first], "the prime universe gives the exit code"); vp_check(FungeMultiverse::getInstance().size() == (size_t)(2 + (first == 2) + (second == 2)), "a multiverse in a multiverse adds its universes"); vp_reach("end"); vp_end();
}
extern "C" void h_fmv_bad(){
	vp_file_put("p.b98", "@"); int n = vp_choose("before", 0, 1); vp_file_put("m.fmv", std::string(n ? "p.b98\n" : "") + "nothing.b98\n"); vp_check(start({"funge", "m.fmv"}) == EIO, "a line that names no file is an error"); vp_reach("end"); vp_end();
}
