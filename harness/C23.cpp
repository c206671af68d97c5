//@ entry h_frth
//@ entry h_append
//@ entry h_compare
//@ entry h_slice
//@ entry h_find
//@ entry h_field
//@ entry h_num
//@ entry h_io
//@ entry h_jstr
//@ entry h_orth
//@ entry h_base_out
//@ entry h_base_neg
//@ entry h_base_in
//@ bounds stacks of up to 5 arbitrary cells with counts -4..5 (FRTH); strings of up to 3 arbitrary bytes 1..255, every slice operand; strings and numbers of up to 2 (3 thorough) digits and the extreme cells (STRN S, V); vectors and offsets within 2^40 along one axis, with fixed steps along the others (JSTR); all cells (ORTH); BASE for numbers of magnitude up to 1000 in all bases 1..90 sampled by class {1,2,8,16,31,32,33,36,58,64,85,86}, input of up to 3 digits (2 above base 2, 1 above base 16)
//@ outside FRTH L with counts beyond the memory; cells that are no bytes in strings
#include "funge_h.h"
static const uint64_t FRTH = 0x46525448, STRN = 0x5354524E, JSTR = 0x4A535452, ORTH = 0x4F525448, BASE = 0x42415345;
static FungeConfig with(uint64_t f, int dim = 2){ FungeConfig c = config98(dim); c.fingerprints.push_back(f); return c; }
static const char* ROW = "@                    @";
static int fails(FungeError e){ return e != ERROR_NONE && e != ERROR_SKIP && e != ERROR_BLOCK; }
static void put0(World& w){ vp_check(vecIs(w.ip().getPos(), {5}) & vecIs(w.ip().getDelta(), {1}), "IP untouched"); vp_check(w.ss().size() == 1, "stacks untouched"); }
extern "C" void h_frth(){
	World w(ROW, with(FRTH), Vector{5}); int n = vp_choose("n", 0, 5); int64_t v[6], e[16]; pushSyms(w.st(), v, n); int i = vp_choose("inst", 0, 4); int64_t u = 0; if(i >= 3){ u = vp_choose("u", -4, 5); w.st().push(u); }
	if(i == 3 && n && vp_choose("any", 0, 1)){ u = vp_i64("u"); w.st().pop(); w.st().push(u); if(u >= 0 && u < n) u = vp_concretize(u); else if(u >= 0) u = n; }
	FungeError r = w.ex("DORPL"[i]); int k = 0;
	if(i == 3 && u < 0){ vp_check(fails(r), "P of a negative"); vp_check(stackIs(w.st(), v, n), "pops its operand"); vp_reach("neg"); vp_end(); return; }
	vp_check(r == ERROR_NONE, "no error");
	if(i == 0 || i == 3){ for(; k < n; ++k) e[k] = v[k]; e[k++] = i ? ref(v, n, u + 1) : n; }
	if(i == 1){ for(; k < n - 2; ++k) e[k] = v[k]; e[k++] = ref(v, n, 2); e[k++] = ref(v, n, 1); e[k++] = ref(v, n, 2); }
	if(i == 2){ for(; k < n - 3; ++k) e[k] = v[k]; e[k++] = ref(v, n, 2); e[k++] = ref(v, n, 1); e[k++] = ref(v, n, 3); }
	if(i == 4){ int c = u < 0 ? -u : u; for(; k < n - c - 1; ++k) e[k] = v[k]; if(u >= 0){ for(int d = c; d >= 1; --d) e[k++] = ref(v, n, d); e[k++] = ref(v, n, c + 1); } else { e[k++] = ref(v, n, 1); for(int d = c + 1; d >= 2; --d) e[k++] = ref(v, n, d); } }
	vp_check(stackIs(w.st(), e, k), "result"); put0(w); vp_reach("end"); vp_end();
}
static void bytes(int64_t* c, int n){ for(int i = 0; i < n; ++i){ c[i] = vp_i64("c"); vp_assume(c[i] >= 1); vp_assume(c[i] <= 255); } }
static void pushS(Stack& s, const int64_t* c, int n){ s.push(0); for(int i = n; i-- > 0;) s.push(c[i]); }
// the stack is g, then one string c[0..n)
static void isStr(World& w, int64_t g, const int64_t* c, int n, const char* msg){ int64_t e[12]; e[0] = g; e[1] = 0; for(int i = 0; i < n; ++i) e[2 + i] = c[n - 1 - i]; vp_check(stackIs(w.st(), e, n + 2), msg); put0(w); }
extern "C" void h_append(){
	World w(ROW, with(STRN), Vector{5}); int64_t g = vp_i64("g"), a[3], b[3], e[6]; int n = vp_choose("n", 0, 3), m = vp_choose("m", 0, 3); bytes(a, n); bytes(b, m); w.st().push(g); pushS(w.st(), b, m); pushS(w.st(), a, n);
	vp_check(w.ex('A') == ERROR_NONE, "no error"); for(int i = 0; i < n; ++i) e[i] = a[i]; for(int i = 0; i < m; ++i) e[n + i] = b[i]; isStr(w, g, e, n + m, "A appends"); vp_reach("end"); vp_end();
}
extern "C" void h_compare(){
	World w(ROW, with(STRN), Vector{5}); int64_t g = vp_i64("g"), a[3], b[3]; int n = vp_choose("n", 0, 3), m = vp_choose("m", 0, 3); bytes(a, n); bytes(b, m); w.st().push(g); pushS(w.st(), b, m); pushS(w.st(), a, n);
	vp_check(w.ex('C') == ERROR_NONE, "no error"); int c = n < m ? -1 : n > m; for(int i = (n < m ? n : m); i-- > 0;) c = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : c;
	vp_check(w.st().size() == 2 && w.st().get(2) == g, "one cell"); int64_t r = w.st().get(1); vp_check((r < 0) == (c < 0), "C is negative if less"); vp_check((r > 0) == (c > 0), "C is positive if greater"); put0(w); vp_reach("end"); vp_end();
}
extern "C" void h_slice(){
	World w(ROW, with(STRN), Vector{5}); int64_t g = vp_i64("g"), a[3]; int n = vp_choose("n", 0, 3); bytes(a, n); w.st().push(g); pushS(w.st(), a, n); int i = vp_choose("inst", 0, 3); int64_t p = 0, k = 0; if(i == 1){ p = vp_i64("start"); w.st().push(p); } if(i != 3){ k = vp_i64("len"); w.st().push(k); }
	FungeError e = w.ex("LMRN"[i]);
	if(i == 3){ vp_check(e == ERROR_NONE, "no error"); vp_check(w.st().get(1) == n, "N is the length"); w.st().pop(); isStr(w, g, a, n, "N keeps the string"); vp_reach("end"); vp_end(); return; }
	if((k < 0) | (p < 0) | (p > n)){ vp_check(fails(e), "a slice outside the string reflects"); vp_reach("bad"); vp_end(); return; }
	vp_check(e == ERROR_NONE, "no error"); p = (int64_t)vp_concretize(p); if(k > n) k = n; k = (int64_t)vp_concretize(k); int from = i == 0 ? 0 : i == 1 ? p : n - k, len = i == 1 && k > n - p ? n - p : k;
	isStr(w, g, a + from, len, "slice"); vp_reach("end"); vp_end();
}
extern "C" void h_find(){
	World w(ROW, with(STRN), Vector{5}); int64_t g = vp_i64("g"), a[3], b[2]; int n = vp_choose("n", 0, 3), m = vp_choose("m", 0, 2); bytes(a, n); bytes(b, m); w.st().push(g); pushS(w.st(), b, m); pushS(w.st(), a, n);
	vp_check(w.ex('F') == ERROR_NONE, "no error"); int at = n; for(int k = 0; k + m <= n; ++k){ bool eq = true; for(int i = 0; i < m; ++i) if(a[k + i] != b[i]) eq = false; if(eq){ at = k; break; } }
	isStr(w, g, a + at, n - at, "F finds the first occurrence, or gives the empty string"); vp_reach("end"); vp_end();
}
static const int64_t B = 1ll << 40;
extern "C" void h_field(){
	int dim = vp_choose("dim", 1, 2); World w(ROW, with(STRN, dim), Vector{5}); int64_t g = vp_i64("g"), a[3], x = vp_range("x", -B, B), y = 7, s = vp_range("s", -B, B); int n = vp_choose("n", 0, 3); bytes(a, n); w.ip().setStorage(Vector{s}); int64_t X = x + s; vp_assume((X > 100) | (X < -100)); if(dim == 1) y = 0;
	auto at = [&](int64_t k){ return dim == 1 ? Vector{k} : Vector{k, y}; }; w.st().push(g); pushS(w.st(), a, n); w.st().push(x); if(dim == 2) w.st().push(y);
	vp_check(w.ex('P') == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), &g, 1), "P pops the string"); for(int i = 0; i <= n; ++i) vp_check(w.field().get(at(X + i)) == (i < n ? a[i] : 0), "P writes the string and a 0"); vp_check(w.field().get(at(X + n + 1)) == ' ' && w.field().get(at(X - 1)) == ' ', "and nothing else");
	w.st().push(x); if(dim == 2) w.st().push(y); if(vp_choose("term", 0, 1)){ vp_check(w.ex('G') == ERROR_NONE, "no error"); isStr(w, g, a, n, "G reads what P wrote"); }
	else { // the terminator goes, and nothing ends the string in that row
		w.field().put(at(X + n), 'x'); vp_assume(X > 0); FungeError e = w.ex('G'); vp_check(fails(e), "G of a string without end reflects"); vp_reach("noend"); }
	vp_reach("end"); vp_end();
}
extern "C" void h_num(){
	World w(ROW, with(STRN), Vector{5}); int64_t g = vp_i64("g"); int i = vp_choose("inst", 0, 1); w.st().push(g);
	if(i == 0){ int64_t n; int c = vp_choose("class", 0, 2); n = c == 0 ? vp_range("n", VP_THOROUGH ? -999 : -99, VP_THOROUGH ? 999 : 99) : c == 1 ? I64MIN : I64MAX; w.st().push(n); vp_check(w.ex('S') == ERROR_NONE, "no error"); int len = w.st().size() - 2; vp_check(len >= 1 && w.st().get(len + 1) == 0 && w.st().get(len + 2) == g, "S gives a string");
		uint64_t v = 0; bool neg = w.st().get(1) == '-'; for(int k = neg; k < len; ++k){ int64_t d = w.st().get(k + 1); vp_check((d >= '0') & (d <= '9'), "a digit"); v = v * 10 + (d - '0'); } vp_check((int64_t)(neg ? 0 - v : v) == n, "S gives the digits"); if(len > 1 + neg) vp_check(w.st().get(1 + neg) != '0', "no leading zero");
		vp_check(w.ex('V') == ERROR_NONE, "no error"); int64_t e[2] = {g, n}; vp_check(stackIs(w.st(), e, 2), "V of S"); put0(w); }
	else { int64_t a[3]; int n = vp_choose("n", 0, 3); bytes(a, n); pushS(w.st(), a, n); vp_check(w.ex('V') == ERROR_NONE, "V takes any string"); int k = 0; bool neg = false; while(k < n && (a[k] == ' ' || (a[k] >= 9 && a[k] <= 13))) ++k; if(k < n && (a[k] == '-' || a[k] == '+')){ neg = a[k] == '-'; ++k; } int64_t v = 0; for(; k < n && a[k] >= '0' && a[k] <= '9'; ++k) v = v * 10 + a[k] - '0';
		int64_t e[2] = {g, neg ? -v : v}; vp_check(stackIs(w.st(), e, 2), "V is the number at the start of the string"); put0(w); }
	vp_reach("end"); vp_end();
}
extern "C" void h_io(){
	static char buf[8]; int o = vp_choose("orth", 0, 1); World w(ROW, with(o ? ORTH : STRN), Vector{5}); int64_t g = vp_i64("g"), a[3]; int n = vp_choose("n", 0, 3); bytes(a, n); w.st().push(g); int i = o ? 0 : vp_choose("inst", 0, 1); vp_out_reset();
	if(i == 0){ pushS(w.st(), a, n); vp_check(w.ex(o ? 'S' : 'D') == ERROR_NONE, "no error"); VpExpect x; for(int k = 0; k < n; ++k) x.ch(a[k]); if(o) x.ch(10); vp_check(vp_out_is(x), "prints the string"); vp_check(stackIs(w.st(), &g, 1), "and pops it"); put0(w); }
	else { int len = n; for(int k = n; k-- > 0;) if(a[k] == 10) len = k; for(int k = 0; k < n; ++k) buf[k] = (char)a[k]; env_stdin(buf, n); vp_check(w.ex('I') == ERROR_NONE, "no error"); isStr(w, g, a, len, "I reads a line"); }
	vp_reach("end"); vp_end();
}
extern "C" void h_jstr(){
	int dim = vp_choose("dim", 1, 3); World w(ROW, with(JSTR, dim), Vector{5}); int64_t g = vp_i64("g"), va[3], vd[3], s[3], v[4]; int n = vp_choose("n", 0, 3); for(int k = 0; k < 3; ++k){ va[k] = k ? 0 : vp_range("va", -B, B); vd[k] = k == 0 ? vp_range("vd", 1, B) : k < dim ? -3 * k : 0; s[k] = k == 0 ? vp_range("s", -B, B) : 0; } if(dim == 2){ va[1] = 17; s[1] = -90; vd[0] = 0; } if(dim == 3){ va[2] = -8; s[2] = 3; }
	vp_assume((va[0] + s[0] > 100)); Vector S; for(int k = 0; k < dim; ++k) S.set(k, s[k]); w.ip().setStorage(S);
	auto at = [&](int k){ Vector p; for(int j = 0; j < dim; ++j) p.set(j, va[j] + s[j] + k * vd[j]); return p; }; auto ops = [&](int64_t c){ for(int k = 0; k < dim; ++k) w.st().push(vd[k]); for(int k = 0; k < dim; ++k) w.st().push(va[k]); w.st().push(c); };
	w.st().push(g); pushSyms(w.st(), v, n); ops(n); vp_check(w.ex('P') == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), &g, 1), "P pops n cells"); for(int k = 0; k < n; ++k) vp_check(w.field().get(at(k)) == v[n - 1 - k], "P writes them along the vector");
	ops(n); vp_check(w.ex('G') == ERROR_NONE, "no error"); int64_t e[6] = {g, 0}; for(int k = 0; k < n; ++k) e[2 + k] = v[n - 1 - k]; vp_check(stackIs(w.st(), e, n + 2), "G reads n cells along the vector"); put0(w); vp_reach("end"); vp_end();
}
extern "C" void h_orth(){
	World w(ROW, with(ORTH), Vector{5, 3}, Vector{2, -3}); w.ip().setStorage(Vector{11, 13}); int n = vp_choose("n", 0, 4); int64_t v[5], e[5]; pushSyms(w.st(), v, n); int i = vp_choose("inst", 0, 9); char c = "AEOGPVWXYZ"[i]; int64_t a = ref(v, n, 1), b = ref(v, n, 2), d = ref(v, n, 3), old = vp_i64("old");
	if(c == 'G') { vp_assume((a < -4) | (a > 30)); w.field().put(Vector{a, b}, old); } int pops = c == 'P' ? 3 : i < 4 ? 2 : 1;
	vp_check(w.ex(c) == ERROR_NONE, "no error"); int k = 0; for(; k < n - pops; ++k) e[k] = v[k]; if(i < 4) e[k++] = i == 0 ? (a & b) : i == 1 ? (a ^ b) : i == 2 ? (a | b) : old; vp_check(stackIs(w.st(), e, k), "stack");
	if(c == 'P') vp_check(w.field().get(Vector{a, b}) == d, "P writes the cell");
	vp_check(vecIs(w.ip().getDelta(), {c == 'V' ? a : 2, c == 'W' ? a : -3}), "delta");
	if(c != 'Z') vp_check(vecIs(w.ip().getPos(), {c == 'X' ? a : 5, c == 'Y' ? a : 3}), "position"); else if(a != 0) vp_check(vecIs(w.ip().getPos(), {5, 3}), "no ramp"); else vp_check(!vecIs(w.ip().getPos(), {5, 3}), "ramp");
	vp_check(vecIs(w.ip().getStorage(), {11, 13}), "offset untouched"); vp_reach("end"); vp_end();
}
static const char* digits(int base){ return base <= 32 ? "0123456789ABCDEFGHJKMNPQRSTVWXYZ" : base == 36 ? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" : base == 58 ? "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz" : base == 64 ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	: base == 85 ? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~" : nullptr; }
static const int BS[] = {1, 2, 8, 10, 16, 31, 32, 33, 36, 58, 64, 85, 86};
static void num(VpExpect& x, int64_t n, int base){ const char* d = digits(base); if(base == 1){ for(int64_t k = vp_concretize(n); k > 0; --k) x.ch('0'); return; } int64_t p = 1; int len = 1; while(p <= n / base){ p *= base; ++len; } for(; len > 0; --len, p /= base){ int64_t g = (n / p) % base; if(d) x.ch(d[g]); else { x.num(g); if(len > 1) x.ch(','); } } }
extern "C" void h_base_out(){
	World w(ROW, with(BASE), Vector{5}); int64_t g = vp_i64("g"); w.st().push(g); int i = vp_choose("inst", 0, 3); int base = i == 0 ? 2 : i == 1 ? 8 : i == 2 ? 16 : BS[vp_choose("base", 0, 12)]; int64_t n = vp_range("n", 0, base == 1 ? 4 : 1000); w.st().push(n); if(i == 3) w.st().push(base); vp_out_reset();
	vp_check(w.ex("BOHN"[i]) == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), &g, 1), "pops its operands"); VpExpect x; num(x, n, base); x.ch(' '); vp_check(vp_out_is(x), "prints the digits"); put0(w); vp_reach("end"); vp_end();
}
extern "C" void h_base_neg(){
	World w(ROW, with(BASE), Vector{5}); int64_t g = vp_i64("g"); w.st().push(g); int i = vp_choose("inst", 0, 4); int base = i == 0 ? 2 : i == 1 ? 8 : i == 2 ? 16 : BS[vp_choose("base", 1, 12)]; 
	if(i == 4){ int64_t b = vp_i64("b"), n = vp_i64("n"); vp_assume((b <= 0)); w.st().push(n); w.st().push(b); vp_out_reset(); vp_check(fails(w.ex(vp_choose("in", 0, 1) ? 'I' : 'N')), "there is no base below 1"); VpExpect x; vp_check(vp_out_is(x), "nothing printed"); vp_reach("bad"); vp_end(); return; }
	int64_t n = vp_choose("min", 0, 1) ? I64MIN : vp_range("n", -200, -1); w.st().push(n); if(i == 3) w.st().push(base); vp_out_reset();
	vp_check(w.ex("BOHN"[i]) == ERROR_NONE, "no error"); vp_check(stackIs(w.st(), &g, 1), "pops its operands"); if(n != I64MIN){ VpExpect x; x.ch('-'); num(x, -n, base); x.ch(' '); vp_check(vp_out_is(x), "prints sign and digits"); } else vp_check(vp_out_count() > 10, "prints digits"); put0(w); vp_reach("end"); vp_end();
}
extern "C" void h_base_in(){
	static char buf[8]; World w(ROW, with(BASE), Vector{5}); int64_t g = vp_i64("g"); w.st().push(g); int base = BS[vp_choose("base", 0, 12)]; int n = vp_choose("n", 0, base <= 2 ? 3 : base <= 16 || VP_THOROUGH ? 2 : 1); const char* d = digits(base); if(base == 1) d = "0"; if(!d){ vp_end(); return; }
	int64_t want = base == 1 ? n : 0; int dg[3]; for(int k = 0; k < n; ++k){ int64_t q = vp_range("digit", 0, base - 1); if(base == 1) buf[k] = '0'; else { int c = (unsigned char)d[q]; if(base <= 36 && vp_choose("lower", 0, 1)) c = (c >= 'A' && c <= 'Z') ? c + 32 : c; buf[k] = (char)c; want = want * base + q; } }
	buf[n] = "\n ~,"[vp_choose("end", 0, 2)]; if(buf[n] == '~' && (base == 85 || base == 1)) buf[n] = ' '; env_stdin(buf, n + 1); w.st().push(base); vp_check(w.ex('I') == ERROR_NONE, "no error"); int64_t e[2] = {g, want}; if(n || buf[0] != 10) vp_check(stackIs(w.st(), e, 2), "reads the digits"); put0(w); vp_reach("end"); vp_end();
}
