//@ entry h_arith
//@ entry h_func
//@ entry h_convert
//@ entry h_parse
//@ entry h_print
//@ entry h_int
//@ entry h_float
//@ entry h_string
//@ entry h_bad
//@ bounds stacks of 1 to 4 arbitrary cells, every bit pattern an operand; numbers read from texts of up to 4 (thorough 5) characters of a numeric alphabet; formats made of up to 2 characters of text, a flag, a width, a precision and a conversion; formats of up to 3 (thorough 4) characters of a hostile alphabet
//@ outside the accuracy of the functions of the C library (sin, log, pow and the others are uninterpreted: only which one is applied to what is decided); which NaN a result is; integers of a floating-point number that has none; formats of more than one conversion; the printed digits of a floating-point number other than 12 chosen ones
#include "funge_h.h"
#include <cmath>
static const uint64_t FPDP = 0x46504450, FPSP = 0x46505350, FPRT = 0x46505254;
static FungeConfig with(uint64_t f){ FungeConfig c = config98(); c.fingerprints.push_back(f); return c; }
static const char* ROW = "@          @";
static double D(int64_t r){ double d; __builtin_memcpy(&d, &r, 8); return d; }
static float F(int64_t r){ float d; int32_t i = (int32_t)r; __builtin_memcpy(&d, &i, 4); return d; }
static int64_t bits(double d){ int64_t r; __builtin_memcpy(&r, &d, 8); return r; }
static int64_t bits(float d){ int32_t r; __builtin_memcpy(&r, &d, 4); return r; }
template<typename T> static T num(int64_t r);
template<> double num<double>(int64_t r){ return D(r); }
template<> float num<float>(int64_t r){ return F(r); }
// the cell holds the number: the same bits, or both are no number.  A single uses the lower half of its cell.
static bool holds(int64_t cell, double want){ return (cell == bits(want)) | ((D(cell) != D(cell)) & (want != want)); }
static bool holds(int64_t cell, float want){ return ((int32_t)cell == (int32_t)bits(want)) | ((F(cell) != F(cell)) & (want != want)); }
struct Fp : World { int n; int64_t v[8]; Fp(uint64_t f, int lo, int hi) : World(ROW, with(f), Vector{5}){ n = vp_choose("n", lo, hi); pushSyms(st(), v, n); }
	void rest(int pops, int pushed){ int keep = n > pops ? n - pops : 0; bool ok = st().size() == (size_t)(keep + pushed); for(int i = 0; ok && i < keep; ++i) ok &= st().get(pushed + i + 1) == v[keep - 1 - i]; vp_check(ok, "what lies below the operands stays as it was"); vp_check(vecIs(ip().getPos(), {5}) & vecIs(ip().getDelta(), {1}) & (ss().size() == 1), "nothing else changes"); } };
template<typename T> static void arith(uint64_t f){
	Fp w(f, 0, VP_THOROUGH ? 4 : 3); T b = num<T>(ref(w.v, w.n, 1)), a = num<T>(ref(w.v, w.n, 2)); int i = vp_choose("inst", 0, 3);
	vp_check(w.ex("ASMD"[i]) == ERROR_NONE, "arithmetic never fails"); w.rest(2, 1); T r = i == 0 ? a + b : i == 1 ? a - b : i == 2 ? a * b : a / b; vp_check(holds(w.st().get(1), r), "the result is that of IEEE arithmetic");
}
extern "C" void h_arith(){ if(vp_choose("single", 0, 1)) arith<float>(FPSP); else arith<double>(FPDP); vp_reach("end"); vp_end(); }
template<typename T> static void func(uint64_t f){
	Fp w(f, 0, 3); T a = num<T>(ref(w.v, w.n, 1)), b = num<T>(ref(w.v, w.n, 2)); int i = vp_choose("inst", 0, 12); vp_check(w.ex("NVQBCTEHGKLXY"[i]) == ERROR_NONE, "a function never fails"); T r = 0;
	switch(i){ case 0: r = -a; break; case 1: r = std::fabs(a); break; case 2: r = std::sqrt(a); break; case 3: r = std::sin(a); break; case 4: r = std::cos(a); break; case 5: r = std::tan(a); break; case 6: r = std::asin(a); break; case 7: r = std::acos(a); break; case 8: r = std::atan(a); break; case 9: r = std::log(a); break; case 10: r = std::log10(a); break; case 11: r = std::exp(a); break; case 12: r = std::pow(b, a); break; }
	w.rest(i == 12 ? 2 : 1, 1); vp_check(holds(w.st().get(1), r), "the letter applies its function");
}
extern "C" void h_func(){ if(vp_choose("single", 0, 1)) func<float>(FPSP); else func<double>(FPDP); vp_reach("end"); vp_end(); }
template<typename T> static void conv(uint64_t f){
	Fp w(f, 0, 3); int64_t c = ref(w.v, w.n, 1); if(vp_choose("toint", 0, 1)){ T a = num<T>(c); vp_assume((a > (T)-9.2e18) & (a < (T)9.2e18)); vp_check(w.ex('I') == ERROR_NONE, "a number converts to an integer"); w.rest(1, 1); vp_check(w.st().get(1) == (int64_t)a, "towards zero"); }
	else { vp_check(w.ex('F') == ERROR_NONE, "an integer converts to a number"); w.rest(1, 1); vp_check(holds(w.st().get(1), (T)c), "the nearest one"); }
}
extern "C" void h_convert(){ if(vp_choose("single", 0, 1)) conv<float>(FPSP); else conv<double>(FPDP); vp_reach("end"); vp_end(); }
static void pushText(Stack& s, const std::string& t){ s.push(0); for(size_t i = t.size(); i-- > 0;) s.push((unsigned char)t[i]); }
static bool isText(const Stack& s, size_t at, const std::string& t){ bool ok = s.size() >= at + t.size(); for(size_t i = 0; ok && i < t.size(); ++i) ok &= s.get(at + i) == (unsigned char)t[i]; return ok && s.get(at + t.size()) == 0; }
// A number from a text: value of the longest prefix that is one, or the text is refused.
static bool parse(const std::string& t, double& out){
	size_t p = 0; while(p < t.size() && t[p] == ' ') ++p; bool neg = false; if(p < t.size() && (t[p] == '-' || t[p] == '+')) neg = t[p++] == '-'; double m = 0; int scale = 0, digits = 0; while(p < t.size() && t[p] >= '0' && t[p] <= '9'){ m = m * 10 + (t[p++] - '0'); ++digits; }
	if(p < t.size() && t[p] == '.'){ ++p; while(p < t.size() && t[p] >= '0' && t[p] <= '9'){ m = m * 10 + (t[p++] - '0'); --scale; ++digits; } } if(!digits) return false;
	if(p < t.size() && t[p] == 'e'){ size_t q = p + 1; bool en = false; if(q < t.size() && (t[q] == '-' || t[q] == '+')) en = t[q++] == '-'; int x = 0, ed = 0; while(q < t.size() && t[q] >= '0' && t[q] <= '9'){ x = x * 10 + (t[q++] - '0'); ++ed; } if(ed) scale += en ? -x : x; }
	double ten = 1; for(int i = 0; i < (scale < 0 ? -scale : scale); ++i) ten *= 10; out = scale < 0 ? m / ten : m * ten; if(neg) out = -out; return true;
}
extern "C" void h_parse(){
	int single = vp_choose("single", 0, 1); Fp w(single ? FPSP : FPDP, 0, 1); int n = vp_choose("len", 0, VP_THOROUGH ? 5 : 4); std::string t; static const char A[] = "17.-e +x"; for(int i = 0; i < n; ++i) t += A[vp_choose("c", 0, 7)];
	double want = 0; bool ok = parse(t, want); if(ok && (want > 1e20 || want < -1e20 || (want != 0 && want < 1e-20 && want > -1e-20))){ vp_reach("end"); vp_end(); return; } pushText(w.st(), t); FungeError e = w.ex('R');
	if(!ok){ vp_check(e != ERROR_NONE, "a text that is no number reflects"); vp_reach("end"); vp_end(); return; }
	vp_check(e == ERROR_NONE, "a text that is a number is read"); w.rest(0, 1); if(single) vp_check(holds(w.st().get(1), (float)want), "its value, in single precision"); else vp_check(holds(w.st().get(1), want), "its value"); vp_reach("end"); vp_end();
}
static const double NUM[] = {0, 1, -1, 0.5, -2.25, 1048576, 0.0009765625, 100000.125, -3.0e6, 8388608.5, 1e9, 123456.75};
static const char* TXT[] = {"0.000000", "1.000000", "-1.000000", "0.500000", "-2.250000", "1048576.000000", "0.000977", "100000.125000", "-3000000.000000", "8388608.500000", "1000000000.000000", "123456.750000"};
extern "C" void h_print(){
	int single = vp_choose("single", 0, 1); Fp w(single ? FPSP : FPDP, 0, 1); int i = vp_choose("value", 0, 11); if(single && i == 9){ vp_reach("end"); vp_end(); return; } w.st().push(single ? bits((float)NUM[i]) : bits(NUM[i])); vp_out_reset(); vp_check(w.ex('P') == ERROR_NONE, "a number can be printed"); w.rest(0, 0); VpExpect x; x.str(TXT[i]).ch(' '); vp_check(vp_out_is(x), "with six decimals and a space"); vp_reach("end"); vp_end();
}
// ---- FPRT
static std::string lit(const char* name){ int k = vp_choose(name, 0, 3); return k == 0 ? "" : k == 1 ? "a" : k == 2 ? "%%" : "b%%"; }
static std::string shown(const std::string& l){ std::string r; for(size_t i = 0; i < l.size(); ++i){ r += l[i]; if(l[i] == '%') ++i; } return r; }
static std::string digitsOf(uint64_t u, int base, bool up){ std::string r; do { int d = (int)(uint32_t)(u % base); r.insert(r.begin(), (char)('0' + d + (d >= 10) * ((up ? 'A' : 'a') - '0' - 10))); u /= base; } while(u); return r; }
static std::string padded(std::string num, int width, bool left, bool zero){ if((int)num.size() >= width) return num; if(left) return num + std::string(width - num.size(), ' '); if(zero){ size_t sg = num.size() && (num[0] == '-' || num[0] == '+'); num.insert(sg, width - num.size(), '0'); return num; } return std::string(width - num.size(), ' ') + num; }
extern "C" void h_int(){
	Fp w(FPRT, 0, 1); std::string a = lit("before"), b = lit("after"); int kind = vp_choose("conv", 0, 3), flag = vp_choose("flag", 0, 3), width = vp_choose("width", 0, 1) * 12, ll = vp_choose("length", 0, 2), L = vp_choose("long", 0, 1);
	static const char* LEN[] = {"", "l", "ll"}; std::string f = a + "%" + (flag == 1 ? "-" : flag == 2 ? "0" : flag == 3 ? "+" : "") + (width ? "12" : "") + LEN[ll] + "dxXu"[kind] + b; pushText(w.st(), f);
	static const int64_t V[] = {0, 7, -1, 2147483648ll, -4294967297ll, I64MAX, I64MIN, 65536}; int vi = vp_choose("value", 0, 8); int64_t v; if(vi < 8) v = V[vi]; else { if(ll || (width && flag) || kind == 0 || kind == 3){ vp_reach("end"); vp_end(); return; } v = vp_i64("v"); } if(L){ w.st().push(v >> 32); w.st().push(v & 0xffffffff); } else w.st().push(v);
	if((flag == 2 && !width) || (flag == 3 && kind != 0)){ vp_reach("end"); vp_end(); return; }
	vp_check(w.ex(L ? 'L' : 'I') == ERROR_NONE, "an integer can be formatted"); std::string num = kind == 0 ? (v < 0 ? "-" + digitsOf(0 - (U)v, 10, false) : (flag == 3 ? "+" : "") + digitsOf((U)v, 10, false)) : kind == 3 ? digitsOf((U)v, 10, false) : digitsOf((U)v, 16, kind == 2);
	std::string want = shown(a) + padded(num, width, flag == 1, flag == 2) + shown(b); vp_check(isText(w.st(), 1, want), "the whole 64-bit cell is formatted as the format says"); w.rest(0, (int)want.size() + 1); vp_reach("end"); vp_end();
}
extern "C" void h_float(){
	Fp w(FPRT, 0, 1); std::string a = lit("before"), b = lit("after"); int i = vp_choose("value", 0, 11), single = vp_choose("single", 0, 1), form = vp_choose("form", 0, 2); if(single && i == 9){ vp_reach("end"); vp_end(); return; }
	pushText(w.st(), a + (form == 0 ? "%f" : form == 1 ? "%.0f" : "%20f") + b); w.st().push(single ? bits((float)NUM[i]) : bits(NUM[i])); vp_check(w.ex(single ? 'F' : 'D') == ERROR_NONE, "a number can be formatted"); std::string t = TXT[i];
	if(form == 1){ if(i == 3 || i == 4 || i == 7 || i == 9 || i == 11 || i == 6){ vp_reach("end"); vp_end(); return; } t = t.substr(0, t.find('.')); } if(form == 2) t = padded(t, 20, false, false);
	std::string want = shown(a) + t + shown(b); vp_check(isText(w.st(), 1, want), "as the format says"); w.rest(0, (int)want.size() + 1); vp_reach("end"); vp_end();
}
extern "C" void h_string(){
	Fp w(FPRT, 0, 1); std::string a = lit("before"), b = lit("after"); int n = vp_choose("len", 0, 3), form = vp_choose("form", 0, 3); static const char* FM[] = {"%s", "%5s", "%-5s", "%.2s"}; pushText(w.st(), a + FM[form] + b); std::string s; for(int i = 0; i < n; ++i){ char c = (char)vp_u8("c"); vp_assume(c != 0); s += c; } pushText(w.st(), s);
	vp_check(w.ex('S') == ERROR_NONE, "a string can be formatted"); std::string t = form == 1 ? padded(s, 5, false, false) : form == 2 ? padded(s, 5, true, false) : form == 3 ? s.substr(0, 2) : s; std::string want = shown(a) + t + shown(b); vp_check(isText(w.st(), 1, want), "as the format says"); w.rest(0, (int)want.size() + 1); vp_reach("end"); vp_end();
}
// A format is data of the program: one that asks for what is not there reflects, and reads or writes nothing.
extern "C" void h_bad(){
	Fp w(FPRT, 0, 0); int i = vp_choose("inst", 0, 4), n = vp_choose("len", 0, VP_THOROUGH ? 4 : 3); static const char A[] = "%dsnflx*1h"; std::string f; for(int k = 0; k < n; ++k) f += A[vp_choose("c", 0, 9)];
	pushText(w.st(), f); if(i == 3){ w.st().push(1); } if(i == 4) pushText(w.st(), "q"); else w.st().push(i == 0 ? bits(1.0) : i == 1 ? bits(1.0f) : 77);
	int convs = 0; bool bad = false, unfinished = false; char last = 0; for(size_t p = 0; p < f.size(); ++p) if(f[p] == '%'){ ++p; if(p < f.size() && f[p] == '%') continue; while(p < f.size() && (f[p] == '1' || f[p] == 'l' || f[p] == 'h')) ++p; if(p >= f.size()){ unfinished = true; break; } ++convs; last = f[p]; if(last == '*' || last == 'n' || last == '%') bad = true; }
	bool fits = !bad && !unfinished && convs <= 1 && (!convs || (i < 2 ? last == 'f' : i < 4 ? (last == 'd' || last == 'x') : last == 's')); bool h = f.find('h') != std::string::npos || f.find('l') != std::string::npos;
	FungeError e = w.ex("DFILS"[i]); if(!fits) vp_check(e != ERROR_NONE, "a format that does not suit its operand reflects"); else if(!h) vp_check(e == ERROR_NONE, "one that does is used"); vp_check(w.ss().size() == 1, "nothing else changes"); vp_reach("end"); vp_end();
}
