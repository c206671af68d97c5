//@ entry h_fl
//@ entry h_beq
//@ entry h_beq_two
//@ entry h_beq_dims
//@ entry h_beq_bad
//@ entry h_beq_number
//@ bounds funge-lib files of 0..5 (thorough 6) arbitrary bytes; BeQunge files of one section of 1..2 lines of 0..1 (thorough 2) arbitrary bytes in 1..5 dimensions, or of two sections of one line in three dimensions, one coordinate (each in turn) an arbitrary digit with either sign; malformed directives: each keyword followed by 0..2 arbitrary bytes; 10 chosen extreme or malformed numbers at any place
//@ assume the two sections of a BeQunge file do not overlap
//@ outside longer files; numbers of more digits; comments in BeQunge files
#include "funge_h.h"
static uint8_t lineByte(){ uint8_t c = vp_u8("byte"); vp_assume(c != '\n'); return c; }
extern "C" void h_fl(){
	static const int M = VP_THOROUGH ? 6 : 5;
	int n = vp_choose("len", 0, M); uint8_t b[8]; std::string s; for(int i = 0; i < n; ++i){ b[i] = vp_u8("byte"); s.push_back((char)b[i]); }
	int64_t x[8], y[8], z[8]; int k = 0; uint8_t c[8]; char planes[8]; int np = 0; int64_t Y = 0, Z = 0;
	for(int i = 0; i < n; ){
		int e = i; while(e < n && b[e] != '\n') ++e;
		if(e - i == 2 && b[i] == '=' && b[i + 1] >= 'A' && b[i + 1] <= 'Z'){ Z = b[i + 1] - 'A'; Y = 0; planes[np++] = b[i + 1]; }
		else { for(int j = i; j < e; ++j){ x[k] = j - i; y[k] = Y; z[k] = Z; c[k++] = b[j]; } ++Y; }
		i = e + 1;
	}
	std::istringstream in(s); Field* f = new Field(in, Field::FORMAT_FL, 0, CELL_INT);
	for(int i = 0; i < k; ++i){ int hidden = 0; for(int j = i + 1; j < k; ++j) hidden |= (x[i] == x[j]) & (y[i] == y[j]) & (z[i] == z[j]); vp_check(hidden | (f->get(Vector{x[i], y[i], z[i]}) == c[i]), "each character of a funge-lib file is in the plane of its section, at its line and column"); }
	int64_t q[3] = {vp_range("q", -1, 6), vp_range("q", -1, 6), vp_range("q", -1, 25)}; int listed = 0; for(int i = 0; i < k; ++i) listed |= (x[i] == q[0]) & (y[i] == q[1]) & (z[i] == q[2]);
	vp_check(listed | (f->get(Vector{q[0], q[1], q[2]}) == ' '), "every other cell is a space"); vp_check(f->size() == 3, "funge-lib files have three dimensions");
	const auto& p = f->hasPlanes(); vp_check(p.size() == (size_t)np, "the sections are listed"); int ok = 1; for(int i = 0; i < np && i < (int)p.size(); ++i) ok &= p[i] == planes[i]; vp_check(ok, "by their letters, in order");
	vp_reach("end"); vp_end();
}
static int64_t number(std::string& s){ bool neg = vp_choose("neg", 0, 1); uint8_t d = vp_u8("digit"); vp_assume(d >= '0' && d <= '9'); if(neg) s.push_back('-'); s.push_back((char)d); int64_t v = d - '0'; return neg ? -v : v; }
static std::string num(int v){ return std::to_string(v); }
// sections: lines and lengths are chosen, one coordinate of each section (which one is chosen) is arbitrary, the others are small
static void beq(int D, int secs, int maxLines, int maxLen){
	std::string s = "Version 1,Dimensions " + num(D) + "\n"; int64_t at[2][5] = {}; int lines[2], len[2][2] = {}; uint8_t c[2][2][2]; int sy = vp_choose("which", 0, D - 1);
	for(int k = 0; k < secs; ++k){
		lines[k] = vp_choose("lines", 1, D < 2 ? 1 : maxLines); s += "Lines " + num(lines[k]) + ",Origin "; int od = D < 2 ? 1 : 2;
		auto coord = [&](int d){ if(d == sy) at[k][d] = number(s); else { at[k][d] = d == 0 ? -14 : d == 3 ? 0 : d + k; s += num(at[k][d]); } };
		for(int d = 0; d < od; ++d){ if(d) s += ":"; coord(d); }
		if(D > 2){ s += ",Coord "; for(int d = 2; d < D; ++d){ coord(d); s += ":"; } }
		s += "\n"; for(int l = 0; l < lines[k]; ++l){ len[k][l] = vp_choose("len", 0, maxLen); for(int i = 0; i < len[k][l]; ++i){ c[k][l][i] = lineByte(); s.push_back((char)c[k][l][i]); } s += "\n"; }
	}
	if(secs > 1 && sy == 2) vp_assume(at[0][2] != at[1][2]);
	std::istringstream in(s); Field* f = new Field(in, Field::FORMAT_BEQ, 0, CELL_INT);
	int64_t q[5]; for(int d = 0; d < 5; ++d) q[d] = d < D ? vp_range("q", -15, 12) : 0; int listed = 0;
	for(int k = 0; k < secs; ++k) for(int l = 0; l < lines[k]; ++l) for(int i = 0; i < len[k][l]; ++i){
		int64_t v[5]; for(int d = 0; d < 5; ++d) v[d] = at[k][d] + (d == 0 ? i : d == 1 ? l : 0);
		vp_check(f->get(Vector{v[0], v[1], v[2], v[3], v[4]}) == c[k][l][i], "each character is where origin and coordinates of its section say");
		int eq = 1; for(int d = 0; d < 5; ++d) eq &= q[d] == v[d]; listed |= eq;
	}
	vp_check(listed | (f->get(Vector{q[0], q[1], q[2], q[3], q[4]}) == ' '), "every other cell is a space"); vp_check(f->size() == (size_t)D, "the dimension count is the one declared");
	vp_reach("end"); vp_end();
}
extern "C" void h_beq(){ beq(vp_choose("dims", 1, 5), 1, 2, VP_THOROUGH ? 2 : 1); }
extern "C" void h_beq_two(){ beq(3, 2, 1, 1); }
extern "C" void h_beq_dims(){
	// no Dimensions directive: the file's cells decide; a dimension count asked for wins
	int given = vp_choose("given", 0, 4), decl = vp_choose("declared", 0, 4); std::string s; if(decl) s += "Dimensions " + num(decl) + "\n"; s += "Lines 1,Origin 1:0,Coord "; int64_t z = number(s); s += ":\n@\n";
	std::istringstream in(s); Field* f = new Field(in, Field::FORMAT_BEQ, given, CELL_INT); vp_check(f->get(Vector{1, 0, z}) == '@', "the section is loaded");
	size_t want = given ? given : decl ? decl : z == 0 ? 1 : 3; vp_check(f->size() == want, "the dimension count is the one asked for, or declared, or used"); vp_reach("end"); vp_end();
}
extern "C" void h_beq_bad(){
	static const char* kw[] = {"Version", "Dimensions", "Lines", "Origin", "Coord", ""}; std::string s = kw[vp_choose("keyword", 0, 5)]; int n = vp_choose("len", 0, 2); for(int i = 0; i < n; ++i) s.push_back((char)vp_u8("byte")); s += "\n";
	std::istringstream in(s);
	Field* f = new Field(in, Field::FORMAT_BEQ, 0, CELL_INT); vp_check(f->get(Vector{vp_i64("q")}) == ' ', "a directive alone puts no cell");
	vp_reach("end"); vp_end();
}

// Numbers as large as cells; what is no number is reported, and never ends the program.
extern "C" void h_beq_number(){
	static const char* V[] = {"4294967296", "-4294967297", "9223372036854775807", "-9223372036854775808", "2147483648", "99999999999999999999", "x", "", "-", "7y"}; static const int64_t N[] = {4294967296ll, -4294967297ll, I64MAX, I64MIN, 2147483648ll, 0, 0, 0, 0, 7};
	int k = vp_choose("value", 0, 9), where = vp_choose("where", 0, 3); std::string s; int64_t x = 0, y = 0, z = 0; bool dims = false;
	if(where == 0){ s = "Dimensions 3\nLines 1,Origin " + std::string(V[k]) + ":0,Coord 0\n@\n"; x = N[k]; } else if(where == 1){ s = "Dimensions 3\nLines 1,Origin 0:" + std::string(V[k]) + ",Coord 0\n@\n"; y = N[k]; } else if(where == 2){ s = "Dimensions 3\nLines 1,Origin 0:0,Coord " + std::string(V[k]) + "\n@\n"; z = N[k]; } else { s = "Dimensions 3\nLines " + std::string(V[k]) + ",Origin 0:0,Coord 0\n@"; dims = N[k] <= 0; }
	if(where == 0 && N[k] == I64MAX){ vp_reach("end"); vp_end(); return; } std::istringstream in(s); Field* f = new Field(in, Field::FORMAT_BEQ, 0, CELL_INT); int64_t qx = vp_i64("qx"), qy = vp_i64("qy"), qz = vp_i64("qz"); bool at = (qx == x) & (qy == y) & (qz == z) & !dims;
	vp_check(f->get(Vector{qx, qy, qz}) == (at ? '@' : ' '), "a coordinate is a 64-bit number, and a text that is none is zero"); vp_check(f->size() == 3, "the dimensions stay"); vp_reach("end"); vp_end();
}
