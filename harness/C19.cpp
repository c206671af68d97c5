//@ entry h_num_out
//@ entry h_char_out
//@ entry h_mixed_out
//@ entry h_num_in
//@ entry h_char_in
//@ entry h_in_sequence
//@ bounds output of any 64-bit cells, up to 3 in a row, with 0..2 cells below; standard input of 0..4 (thorough 6) arbitrary bytes, read by one instruction or (0..3 bytes, thorough 4) by two in any combination
//@ outside longer input; numbers of more than 6 digits; terminal modes
#include "funge_h.h"
static const int N = VP_THOROUGH ? 6 : 4;
extern "C" void h_num_out(){
	World w("@", config98()); int n = vp_choose("depth", 0, 2); int64_t v[3]; pushSyms(w.st(), v, n); vp_out_reset();
	vp_check(w.ex('.') == ERROR_NONE, ". succeeds"); VpExpect e; e.num(ref(v, n, 1)).ch(' '); vp_check(vp_out_is(e), ". prints the cell in decimal and a space, and nothing else");
	vp_check(stackIs(w.st(), v, n ? n - 1 : 0), ". pops one cell"); vp_reach("end"); vp_end();
}
extern "C" void h_char_out(){
	World w("@", vp_choose("b93", 0, 1) ? config93() : config98()); int n = vp_choose("depth", 0, 2); int64_t v[3]; pushSyms(w.st(), v, n); vp_out_reset();
	vp_check(w.ex(',') == ERROR_NONE, ", succeeds"); VpExpect e; e.ch(ref(v, n, 1)); vp_check(vp_out_is(e), ", writes one byte");
	vp_check(stackIs(w.st(), v, n ? n - 1 : 0), ", pops one cell"); vp_reach("end"); vp_end();
}
extern "C" void h_mixed_out(){
	World w("@", config98()); int64_t v[3]; pushSyms(w.st(), v, 3); vp_out_reset(); VpExpect e;
	for(int i = 2; i >= 0; --i){ bool num = vp_choose("num", 0, 1); w.ex(num ? '.' : ','); if(num) e.num(v[i]).ch(' '); else e.ch(v[i]); }
	vp_check(vp_out_is(e), "output appears in program order"); vp_reach("end"); vp_end();
}
// reference readers over bytes b[0..n) from position p; return false at the end of input
static bool rnum(const uint8_t* b, int n, int& p, int64_t& v){ while(p < n && !(b[p] >= '0' && b[p] <= '9')) ++p; if(p >= n) return false; v = 0; while(p < n && b[p] >= '0' && b[p] <= '9') v = v * 10 + (b[p++] - '0'); return true; }
static bool rchr(const uint8_t* b, int n, int& p, int64_t& v){ if(p < n && b[p] == 13) ++p; if(p >= n) return false; v = b[p++]; return true; }
static void in(World& w, bool num, const uint8_t* b, int n, int& p, int64_t* s, int& k){
	int64_t v; bool got = num ? rnum(b, n, p, v) : rchr(b, n, p, v); w.ip().setPos(Vector{5}); w.ip().setDelta(Vector{1}); w.field().put(Vector{5}, num ? '&' : '~'); w.tick();
	if(got) s[k++] = v; vp_check(stackIs(w.st(), s, k), got ? num ? "& skips what is no digit and pushes the decimal number" : "~ pushes the next byte, except carriage returns" : "at the end of input nothing is pushed");
	vp_check(vecIs(w.ip().getDelta(), {got ? 1 : -1}), got ? "input leaves the delta alone" : "the end of input reflects the IP"); vp_check(vecIs(w.ip().getPos(), {got ? 6 : 4}), "and the IP moves on"); vp_check((int)env_stdin_pos() == p, num ? "& leaves what follows the number unread" : "~ reads no further");
}
static World* make(uint8_t* b, int& n, int max, int64_t& g){ n = vp_choose("len", 0, max); static std::string s; for(int i = 0; i < n; ++i){ b[i] = vp_u8("byte"); s.push_back((char)b[i]); } env_stdin(s.data(), s.size()); World* w = new World("@         @", config98()); g = vp_i64("guard"); w->st().push(g); return w; }
extern "C" void h_num_in(){ uint8_t b[8]; int n, p = 0, k = 1; int64_t s[4]; World* w = make(b, n, N, s[0]); in(*w, true, b, n, p, s, k); vp_reach("end"); vp_end(); }
extern "C" void h_char_in(){ uint8_t b[8]; int n, p = 0, k = 1; int64_t s[4]; World* w = make(b, n, 2, s[0]); in(*w, false, b, n, p, s, k); vp_reach("end"); vp_end(); }
extern "C" void h_in_sequence(){ uint8_t b[8]; int n, p = 0, k = 1; int64_t s[4]; World* w = make(b, n, N - 1 > 4 ? 4 : N - 1, s[0]); bool a = vp_choose("num", 0, 1), c = vp_choose("num2", 0, 1); in(*w, a, b, n, p, s, k); in(*w, c, b, n, p, s, k); vp_reach("end"); vp_end(); }
