//@ entry h_base t=400 tt=800
//@ entry h_93
//@ entry h_fp t=400 tt=800
//@ entry h_area t=400 tt=800
//@ entry h_modes t=200 tt=400
//@ entry h_many steps=1000000000
//@ bounds one instruction: every letter of Funge-98 in 1 to 3 dimensions and in each mode of MODE, of Befunge-93, of 19 fingerprints; stacks of 0 to 3 (thorough 5) arbitrary cells; counts and sizes within -3..3 (thorough -5..5), or, for blocks, rolls and rotations, 1200000 cells
//@ outside CPLI D and V (complex floating-point functions of the library), STRN I, FPDP and FPSP R and P (C37), i, o and y (C08, C18, C20); counts so large that the cells asked for exceed the memory of the machine, which C++ reports by ending the program; loops of the program itself
#include "funge_h.h"
static const char* PROG = "@ 1+:.z  @\n v\" ab\"<k9\n";
static bool in(char c, const char* s){ for(; *s; ++s) if(*s == c) return true; return false; }
// the interpreter still works: it executes the next instruction, which adds one cell
static void intact(World& w){ size_t n = w.st().size(); vp_check(w.ss().size() >= 1, "there is a stack"); w.ex('7'); vp_check(w.st().size() == n + 1, "the interpreter goes on"); (void)w.field().get(Vector{-7, 5}); }
static void count(int64_t v){ int64_t k = VP_THOROUGH ? 5 : 3; vp_assume((v >= -k) & (v <= k)); }
static void one(World& w, char c){ w.field().put(Vector{1}, c); w.ex(c); intact(w); vp_reach("end"); vp_end(); }
extern "C" void h_base(){
	int dim = vp_choose("dim", 1, 3), n = vp_choose("n", 0, VP_THOROUGH ? 5 : 3); char c = (char)vp_choose("inst", 33, 126); FungeConfig cfg = config98(dim); cfg.execute = vp_choose("exec", 0, 1); if(in(c, "ioy")){ vp_reach("end"); vp_end(); return; }
	World w(PROG, cfg, Vector{1}); int64_t v[6]; pushSyms(w.st(), v, n); if(in(c, "{}ukj()") && n) count(v[n - 1]); one(w, c);
}
extern "C" void h_93(){
	int n = vp_choose("n", 0, VP_THOROUGH ? 5 : 3); char c = (char)vp_choose("inst", 33, 126); World w(PROG, config93(), Vector{1}); int64_t v[6]; pushSyms(w.st(), v, n); one(w, c);
}
struct Letters { uint64_t id; const char* name; const char* letters; const char* counts; };
static const Letters FP[] = {
	{0x42415345, "BASE", "BHINO", "N"}, {0x42495457, "BITW", "ALNORX", ""}, {0x424F4F4C, "BOOL", "ANOX", ""}, {0x43504C49, "CPLI", "AMOS", ""}, {0x46495348, "FISH", "CDFHILMNORSTV", "LRSD"},
	{0x46495850, "FIXP", "ABCDIJNOPQRSTUVX", "DPQ"}, {0x46505450, "", "", ""}, {0x46525448, "FRTH", "DLOPR", "LPR"}, {0x48525449, "HRTI", "EGMST", ""}, {0x49495043, "IIPC", "ADGILP", ""}, {0x4D4F4445, "MODE", "HIQS", ""},
	{0x4E46554E, "NFUN", "ABCDHILMRVXYZ", "ABCDHILMRVXYZ"}, {0x4F525448, "ORTH", "AEGOPSVWXYZ", ""}, {0x52454643, "REFC", "RD", ""}, {0x5354524E, "STRN", "ACDFGILMNPRSV", "LMRSVG"}, {0x53554252, "SUBR", "ACJOR", "CR"}, {0x46494E47, "FING", "XYZ", ""}, {0x4D565253, "MVRS", "CN", ""},
	{0x46504450, "FPDP", "ABCDEFGHIKLMNQSTVXY", ""}, {0x46505350, "FPSP", "ABCDEFGHIKLMNQSTVXY", ""} };
extern "C" void h_fp(){
	int f = vp_choose("fp", 0, (int)(sizeof FP / sizeof *FP) - 1), dim = vp_choose("dim", 1, 2), n = vp_choose("n", 0, VP_THOROUGH ? 5 : 3); const Letters& L = FP[f]; int len = 0; while(L.letters[len]) ++len; if(!len){ vp_reach("end"); vp_end(); return; } char c = L.letters[vp_choose("inst", 0, len - 1)];
	FungeConfig cfg = config98(dim); cfg.fingerprints.push_back(L.id); World w(PROG, cfg, Vector{1}); int64_t v[6]; pushSyms(w.st(), v, n); if(in(c, L.counts)) for(int i = 0; i < n && i < 2; ++i) count(v[n - 1 - i]); one(w, c);
}
extern "C" void h_area(){
	int jstr = vp_choose("jstr", 0, 1), dim = vp_choose("dim", 1, 2), n = vp_choose("n", 0, VP_THOROUGH ? 4 : 3); char c = jstr ? "GP"[vp_choose("inst", 0, 1)] : (char)vp_choose("inst", 'A', 'Z'); FungeConfig cfg = config98(dim); cfg.fingerprints.push_back(jstr ? 0x4A535452 : 0x544F5953);
	World w(PROG, cfg, Vector{1}); int64_t v[6]; for(int i = 0; i < n; ++i){ v[i] = vp_i64("s"); vp_assume((v[i] >= -2) & (v[i] <= 2)); w.st().push(v[i]); } one(w, c);
}
// the modes of MODE: the interpreter is as sound in them
extern "C" void h_modes(){
	int m = vp_choose("mode", 0, 3), n = vp_choose("n", 0, 2); char c = (char)vp_choose("inst", 33, 126); if(in(c, "ioy;")){ vp_reach("end"); vp_end(); return; } World w(PROG, config98(), Vector{1}); int64_t v[2]; pushSyms(w.st(), v, n);
	if(m < 2) w.st().setMode(m ? FUNGE_MODE_INVERT : FUNGE_MODE_QUEUE); else w.r->setMode(m == 2 ? FUNGE_MODE_HOVER : FUNGE_MODE_SWITCH); if(in(c, "{}ukj()")) for(int i = 0; i < n; ++i) count(v[i]); one(w, c);
}
// More cells than fit on the stack of a thread.
extern "C" void h_many(){
	static const int64_t N = 1200000; int k = vp_choose("what", 0, 6); int64_t a = vp_i64("a"), b = vp_i64("b"); FungeConfig cfg = config98(); if(k > 1) cfg.fingerprints.push_back(k == 2 ? 0x46525448 : 0x46495348); World w(PROG, cfg, Vector{1});
	if(k == 0){ w.st().push(a); w.st().push(b); w.st().push(N); w.ex('{'); vp_check(w.ss().size() == 2, "a block opens"); vp_check((w.st().size() == (size_t)N) & (w.st().get(1) == b) & (w.st().get(2) == a) & (w.st().get(3) == 0) & (w.st().get(N) == 0), "with all of the cells"); }
	else if(k == 1){ w.st().push(0); w.ex('{'); w.st().push(a); w.st().push(b); w.st().push(N); w.ex('}'); vp_check(w.ss().size() == 1, "a block closes"); vp_check((w.st().size() == (size_t)N) & (w.st().get(1) == b) & (w.st().get(2) == a) & (w.st().get(3) == 0), "moving all of the cells"); }
	else if(k == 2){ w.st().push(a); w.st().push(b); w.st().push(N); w.ex('L'); vp_check((w.st().get(2) == b) & (w.st().get(3) == a) & (w.st().get(1) == 0), "a cell rolls up from any depth"); }
	else if(k == 3 || k == 4 || k == 6){ for(int64_t i = 0; i < N; ++i) w.st().push(i == 0 ? a : i == N - 1 ? b : 7); w.ex(k == 3 ? 'L' : k == 4 ? 'R' : 'S'); bool ok = w.st().size() == (size_t)N; if(k == 3) ok &= (w.st().get(N) == 7) & (w.st().get(1) == a) & (w.st().get(2) == b); else if(k == 4) ok &= (w.st().get(N) == b) & (w.st().get(1) == 7) & (w.st().get(N - 1) == a); else ok &= (w.st().get(N) == b) & (w.st().get(1) == a); vp_check(ok, "a stack of any depth rotates and reverses"); }
	else { w.st().push(a); w.st().push(b); w.st().push(-N); w.ex('{'); vp_check(w.ss().size() == 2, "a block opens"); vp_check(w.ss().second().size() == (size_t)N + 4, "with zeros below"); }
	vp_reach("end"); vp_end();
}
