//@ entry h_load2
//@ entry h_load3
//@ entry h_load_auto
//@ entry h_parse_at
//@ bounds files of 0..4 (thorough 5) arbitrary bytes; fields fixed at 2 and 3 dimensions and with the dimension count taken from the file; insertion of 0..2 (thorough 3) bytes at positions in x -2..0, y 0 or 7
//@ assume a form feed or vertical tab is followed by at most one line end (what several mean is not documented)
//@ outside longer files
#include "funge_h.h"
static const int N = VP_THOROUGH ? 5 : 4;
struct Ref {
	int n = 0; int64_t x[8], y[8], z[8], w[8]; int64_t c[8]; int64_t mx = 0, my = 0, mz = 0, mw = 0;
	void load(const uint8_t* b, int len, bool planes){
		int64_t X = 0, Y = 0, Z = 0, W = 0; bool ff = false; int swallowed = 0;
		for(int i = 0; i < len; ++i){
			uint8_t ch = b[i];
			if(ch == '\n' || ch == '\r'){
				if(ch == '\r' && i + 1 < len && b[i + 1] == '\n') ++i;
				if(ff){ if(swallowed++) vp_assume(0); continue; }
				++Y; X = 0;
			} else if(ch == '\f'){ if(planes){ X = Y = 0; ++Z; ff = true; swallowed = 0; } }
			else if(ch == '\v'){ if(planes){ X = Y = Z = 0; ++W; ff = true; swallowed = 0; } }
			else { x[n] = X; y[n] = Y; z[n] = Z; w[n] = W; c[n] = ch; ++n; ++X; ff = false; }
			if(X > mx) mx = X; if(Y > my) my = Y; if(Z > mz) mz = Z; if(W > mw) mw = W;
		}
	}
};
static std::string file(uint8_t* b, int& len, int n = N){ len = vp_choose("len", 0, n); std::string s; for(int i = 0; i < len; ++i){ b[i] = vp_u8("byte"); s.push_back((char)b[i]); } return s; }
static void same(Field* f, const Ref& r, const int64_t* o){
	int ok = 1; for(int i = 0; i < r.n; ++i) ok &= f->get(Vector{wadd(r.x[i], o[0]), wadd(r.y[i], o[1]), wadd(r.z[i], o[2]), r.w[i]}) == r.c[i];
	vp_check(ok, "each character of the file is in its column, line, plane");
	// no other cell
	int64_t q[4]; int listed = 0; for(int i = 0; i < 4; ++i) q[i] = vp_range("q", -2, N + 1);
	for(int i = 0; i < r.n; ++i) listed |= (r.x[i] == q[0]) & (r.y[i] == q[1]) & (r.z[i] == q[2]) & (r.w[i] == q[3]);
	vp_check(listed | (f->get(Vector{wadd(q[0], o[0]), wadd(q[1], o[1]), wadd(q[2], o[2]), q[3]}) == ' '), "every other cell is a space");
}
static const int64_t O[3] = {0, 0, 0};
static void load(size_t dims, bool planes){
	uint8_t b[8]; int len; std::string s = file(b, len);
	std::istringstream in(s); Field* f = new Field(in, Field::FORMAT_BF, dims, CELL_INT);
	Ref r; r.load(b, len, planes); same(f, r, O);
	if(dims) vp_check(f->size() == dims, "a fixed dimension count stays");
	else { size_t d = 0; for(int i = 0; i < r.n; ++i){ size_t k = r.w[i] ? 4 : r.z[i] ? 3 : r.y[i] ? 2 : 1; if(r.c[i] != ' ' && k > d) d = k; } vp_check(f->size() == d, "the dimension count is that of the cells in the file"); }
	vp_reach("end"); vp_end();
}
extern "C" void h_load2(){ load(2, false); }
extern "C" void h_load3(){ load(3, true); }
extern "C" void h_load_auto(){ load(0, true); }
extern "C" void h_parse_at(){
	// insertion elsewhere: text mode as loading, binary mode as one line
	uint8_t b[8]; int len; std::string s = file(b, len, N - 2); int64_t o[3] = {vp_choose("ox", -2, 0), vp_choose("oy", 0, 1) * 7, 0};
	bool bin = vp_choose("binary", 0, 1);
	Field* f = new Field(2, CELL_INT); std::istringstream in(s); Vector size = f->parse(Vector{o[0], o[1]}, in, bin);
	Ref r;
	if(bin){ for(int i = 0; i < len; ++i){ r.x[i] = i; r.y[i] = r.z[i] = r.w[i] = 0; r.c[i] = b[i]; } r.n = len; r.mx = len; } else r.load(b, len, false);
	same(f, r, o);
	vp_check((size.get(0) == r.mx) & (size.get(1) == r.my), "the size reported is that of the text inserted");
	vp_reach("end"); vp_end();
}
