//@ entry h_string
//@ entry h_twice
//@ bounds strings of 0..3 (thorough 4) arbitrary 64-bit cells in each of the three string styles; two strings one after the other with a cell between them
//@ outside longer strings
#include "funge_h.h"
static int spc(int64_t c){ return (c == ' ') | ((c >= 9) & (c <= 13)); }
static int64_t esc(int64_t c){ static const char f[] = "0abtnvfre"; static const char t[] = "\0\a\b\t\n\v\f\r\033"; int64_t r = c; for(int i = 0; i < 9; ++i) r = c == f[i] ? t[i] : r; return r; }
static World* make(int style, int64_t* cell, int n){
	FungeConfig cfg = config98(); cfg.strings = style == 0 ? STRING_SGML : style == 1 ? STRING_MULTISPACE : STRING_C;
	World* w = new World("", cfg); Field& f = w->field(); f.put(Vector{0}, '"'); for(int i = 0; i < n; ++i) if(cell[i] != ' ') f.put(Vector{i + 1}, cell[i]); f.put(Vector{n + 1}, '"'); f.put(Vector{n + 2}, '1'); f.put(Vector{n + 3}, '@'); return w;
}
extern "C" void h_string(){
	int style = vp_choose("style", 0, 2), n = vp_choose("len", 0, VP_THOROUGH ? 4 : 3); int64_t c[4], e[6]; int k = 0;
	for(int i = 0; i < n; ++i){ c[i] = vp_i64("cell"); if(style != 2) vp_assume(c[i] != '"'); }
	bool prev = false; int i = 0;
	for(; i < n; ++i){
		if(c[i] == '"') break;
		if(style == 0){ bool s = spc(c[i]); if(!(s && prev)) e[k++] = c[i]; prev = s; }
		else if(style == 1) e[k++] = c[i];
		else if(c[i] == '\\'){ ++i; e[k++] = i < n ? esc(c[i]) : '"'; if(i >= n) vp_assume(0); }
		else e[k++] = c[i];
	}
	vp_assume(i == n);
	World* w = make(style, c, n);
	for(int t = 0; t < k + 2; ++t) w->tick();
	vp_check(stackIs(w->st(), e, k), "a string pushes its cells one per tick, as the string style says");
	vp_check(vecIs(w->ip().getPos(), {n + 2}) & vecIs(w->ip().getDelta(), {1}), "and ends behind the closing quote");
	w->tick(); e[k] = 1; vp_check(stackIs(w->st(), e, k + 1), "where normal execution resumes");
	vp_reach("end"); vp_end();
}
extern "C" void h_twice(){
	// the first string leaves nothing behind that changes the second
	int style = vp_choose("style", 0, 1); int64_t a = vp_i64("a"), b = vp_i64("b"); vp_assume((a != '"') & (b != '"'));
	FungeConfig cfg = config98(); cfg.strings = style ? STRING_MULTISPACE : STRING_SGML; World w("", cfg); Field& f = w.field(); int64_t row[7] = {'"', a, '"', '"', b, '"', '@'}; for(int i = 0; i < 7; ++i) f.put(Vector{i}, row[i]);
	for(int t = 0; t < 6; ++t) w.tick();
	int64_t e[2] = {a, b}; vp_check(stackIs(w.st(), e, 2), "each string starts afresh"); vp_reach("end"); vp_end();
}
