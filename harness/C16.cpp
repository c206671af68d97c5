//@ entry h_unimplemented
//@ entry h_blanks
//@ entry h_jump
//@ entry h_iterate
//@ entry h_iterate_cell
//@ entry h_stop_quit
//@ bounds rows of 6 cells over {space ; z 1 #}; j by -4..4 and k with 0..3 repetitions; unimplemented cells: every 64-bit value that is no instruction of the standard, in 1 and 2 dimensions
//@ assume a row of blanks and comments holds an instruction (without one the IP runs for ever, as the standard says)
//@ outside k with a negative count, and k 0 before a space or comment (the standard does not say); longer rows
#include "funge_h.h"
#include <string.h>
static void notIn(int64_t c, const char* set){ for(; *set; ++set) vp_assume(c != (unsigned char)*set); }
extern "C" void h_unimplemented(){
	int k = vp_choose("standard", 0, 4); bool b93 = k == 1; FungeConfig cfg = b93 ? config93() : config98(k == 2 ? 1 : k == 3 ? 3 : 2); if(k == 4){ cfg.standard = FUNGE_93; cfg.dimensions = 1; }
	if(b93) cfg.cells = CELL_INT;
	World w("       @", cfg); int64_t c = vp_i64("cell"), g = vp_i64("guard");
	notIn(c, " \t0123456789<>@#_?!%*+-/`$:\\&~\".,gp");
	if(k <= 1 || k == 3) notIn(c, "^v|");
	if(k == 0 || k == 2 || k == 3) notIn(c, "abcdefyz;jrxkqtnu{}io='s()");
	if(k == 0 || k == 3) notIn(c, "[]w");
	if(k == 3) notIn(c, "hlm");
	w.field().put(Vector{2}, c); w.ip().setPos(Vector{2}); w.st().push(g); w.tick();
	vp_check(vecIs(w.ip().getDelta(), {-1}), "a cell that is no instruction reflects the IP");
	vp_check(vecIs(w.ip().getPos(), {1}), "and the IP moves on, back where it came from");
	vp_check(stackIs(w.st(), &g, 1) & (w.field().get(Vector{2}) == c), "stack and cell are left alone"); vp_check(w.r->isRunning(), "the IP lives on");
	vp_reach("end"); vp_end();
}
extern "C" void h_blanks(){
	static const char set[] = " ;z1#"; char row[7]; for(int i = 0; i < 5; ++i) row[i] = set[vp_choose("c", 0, 4)]; row[5] = '@'; row[6] = 0;
	World w("", config98()); for(int i = 0; i < 6; ++i) w.field().put(Vector{i}, row[i]);
	int p = 0, guard = 0; while(row[p] == ' ' || row[p] == ';'){ if(row[p] == ';'){ do { p = (p + 1) % 6; } while(row[p] != ';'); } p = (p + 1) % 6; vp_assume(++guard <= 8); }
	int one = row[p] == '1', stop = row[p] == '@', next = (p + 1 + (row[p] == '#')) % 6;
	w.tick();
	vp_check(w.st().size() == (size_t)one && (!one || w.st().get(1) == 1), "one tick passes blanks and comments and executes the next instruction");
	vp_check(w.r->isRunning() == !stop, "@ ends the IP, and nothing else does");
	if(!stop) vp_check(vecIs(w.ip().getPos(), {next}) & vecIs(w.ip().getDelta(), {1}), "the IP ends on the cell after it; # passes one more");
	vp_reach("end"); vp_end();
}
extern "C" void h_jump(){
	World w("z          @", config98()); int j = vp_choose("n", -4, 4), s = vp_choose("start", 0, 11); int64_t g = vp_i64("guard");
	w.field().put(Vector{s}, 'j'); bool rev = vp_choose("west", 0, 1); if(rev) w.ip().setDelta(Vector{-1}); w.ip().setPos(Vector{s}); w.st().push(g); w.st().push(j);
	w.tick(); int e = ((s + (rev ? -1 : 1) * (j + 1)) % 12 + 12) % 12; if(s == 0 || s == 11) vp_check(1, "");
	vp_check(vecIs(w.ip().getPos(), {e}), "j n jumps over n cells, backwards when n is negative, around the edge"); vp_check(vecIs(w.ip().getDelta(), {rev ? -1 : 1}), "delta is kept"); vp_check(stackIs(w.st(), &g, 1), "n is popped");
	vp_reach("end"); vp_end();
}
extern "C" void h_iterate(){
	int n = vp_choose("n", 0, 3), op = vp_choose("op", 0, 4), gap = n ? vp_choose("gap", 0, 5) : 0; static const char* const gaps[] = {"", "  ", ";q;", ";q; ", " ;q;", ";q;;q;"}; std::string prog = std::string("  k") + gaps[gap] + "1:+<#"[op] + "     @";
	World w(prog, config98()); w.ip().setPos(Vector{2}); int64_t v[3], e[8]; pushSyms(w.st(), v, 3); w.st().push(n); w.tick();
	int k = 3; for(int i = 0; i < 3; ++i) e[i] = v[i]; int64_t pos = 2, d = 1;
	for(int i = 0; i < n; ++i) switch(op){
		case 0: e[k++] = 1; break;
		case 1: { int64_t t = e[k - 1]; e[k++] = t; break; }
		case 2: { int64_t a = k > 1 ? e[k - 2] : 0, b = e[k - 1]; k = k > 1 ? k - 2 : 0; e[k++] = wadd(a, b); break; }
		case 3: d = -1; break;
		default: pos += d; // # once more each time
	}
	pos += d; if(n == 0) ++pos;
	vp_check(stackIs(w.st(), e, k), "k executes the next instruction n times"); vp_check(vecIs(w.ip().getPos(), {pos}) & vecIs(w.ip().getDelta(), {d}), "from where k stands; 0k skips it");
	vp_reach("end"); vp_end();
}
extern "C" void h_iterate_cell(){
	// the repeated cell is taken whole: one outside the character set is no instruction, and reflects once each time
	World w("   k    @", config98()); w.ip().setPos(Vector{3}); int64_t c = vp_i64("cell"), g = vp_i64("guard"); int n = vp_choose("n", 0, 3); w.field().put(Vector{4}, c); bool under = vp_choose("under", 0, 1);
	if(under) vp_assume(c == '}' || c == 'A' || c == 'u'); else vp_assume((c < -128) | (c > 255));
	w.st().push(g); w.st().push(n); w.tick(); vp_check(stackIs(w.st(), &g, 1), "k with a cell that is no instruction, or fails, leaves the stack"); vp_check(w.r->isRunning() & (w.ss().size() == 1), "the IP lives on");
	int d = n % 2 ? -1 : 1; vp_check(vecIs(w.ip().getDelta(), {d}) & vecIs(w.ip().getPos(), {n == 0 ? 5 : 3 + d}), "and reflects the IP each time");
	vp_reach("end"); vp_end();
}
extern "C" void h_stop_quit(){
	World w("@", config98()); int64_t g = vp_i64("guard"), x = vp_i64("code"); w.st().push(g);
	if(vp_choose("quit", 0, 1)){ w.st().push(x); w.uni->createRunner(Vector{0}, Vector{1}); vp_check(w.uni->isRunning(), "running"); w.ex('q'); vp_check(!w.uni->isRunning(), "q ends the program"); vp_check(w.uni->get() == (int)x, "the exit code is the cell popped"); vp_check(stackIs(w.st(), &g, 1), "one cell is popped"); }
	else { w.ex('@'); vp_check(!w.r->isRunning(), "@ ends the IP"); vp_check(w.uni->get() == 0, "without an exit code"); vp_check(stackIs(w.st(), &g, 1), "nothing is popped"); }
	vp_reach("end"); vp_end();
}
