// Symbolic run only: the parts of libstdc++/libc that live in shared libraries, instantiated from the real headers
// where they are templates, and modelled where they are not.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vp.h"
#define private public
#include <thread>
#undef private
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <list>
#include <map>
#include <unordered_map>
#include <filesystem>
#include <thread>
#include <condition_variable>
#include <locale>
#include <cstring>
#include <cstdarg>
#include <new>
#include <system_error>
#include <functional>
#include <memory_resource>
int vp_path_kind(const char*);

// ------------------------------------------------------------------------------------------------ C library
extern "C" {
FILE* stdin = (FILE*)8; FILE* stdout = (FILE*)16; FILE* stderr = (FILE*)24;
char __libc_single_threaded = 0;
char** environ = nullptr;
void* __dso_handle = nullptr;
static int errno_v;
int* __errno_location(void){ return &errno_v; }
size_t strlen(const char* s){ size_t n = 0; while(s[n]) ++n; return n; }
int strcmp(const char* a, const char* b){ while(*a && *a == *b){ ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n){ for(; n; --n, ++a, ++b){ if(*a != *b) return (unsigned char)*a - (unsigned char)*b; if(!*a) return 0; } return 0; }
int memcmp(const void* a, const void* b, size_t n){ const unsigned char* p = (const unsigned char*)a; const unsigned char* q = (const unsigned char*)b; for(; n; --n, ++p, ++q) if(*p != *q) return *p < *q ? -1 : 1; return 0; }
void* my_memchr(const void*, int, size_t) asm("memchr");
char* my_strchr(const char*, int) asm("strchr");
char* my_strrchr(const char*, int) asm("strrchr");
char* my_strstr(const char*, const char*) asm("strstr");
void* my_memchr(const void* a, int c, size_t n){ const unsigned char* p = (const unsigned char*)a; for(; n; --n, ++p) if(*p == (unsigned char)c) return (void*)p; return nullptr; }
char* my_strchr(const char* s, int c){ for(;; ++s){ if(*s == (char)c) return (char*)s; if(!*s) return nullptr; } }
char* my_strrchr(const char* s, int c){ const char* r = nullptr; for(;; ++s){ if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
char* my_strstr(const char* h, const char* n){ size_t l = strlen(n); for(;; ++h){ if(strncmp(h, n, l) == 0) return (char*)h; if(!*h) return nullptr; } }
char* strcpy(char* d, const char* s){ char* r = d; while((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n){ size_t i = 0; for(; i < n && s[i]; ++i) d[i] = s[i]; for(; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s){ strcpy(d + strlen(d), s); return d; }
static char* tokp;
char* strtok(char* s, const char* del){
	if(!s) s = tokp;
	if(!s) return nullptr;
	while(*s && strchr(del, *s)) ++s;
	if(!*s){ tokp = nullptr; return nullptr; }
	char* r = s;
	while(*s && !strchr(del, *s)) ++s;
	if(*s){ *s = 0; tokp = s + 1; } else tokp = nullptr;
	return r;
}
int isspace(int c);
int isdigit(int c){ return (c >= '0') & (c <= '9'); }
int isupper(int c){ return (c >= 'A') & (c <= 'Z'); }
int islower(int c){ return (c >= 'a') & (c <= 'z'); }
int isalpha(int c){ return isupper(c) | islower(c); }
int isalnum(int c){ return isalpha(c) | isdigit(c); }
int isprint(int c){ return (c >= 32) & (c <= 126); }
int isgraph(int c){ return (c >= 33) & (c <= 126); }
int ispunct(int c){ return isgraph(c) & !isalnum(c); }
int iscntrl(int c){ return ((c >= 0) & (c < 32)) | (c == 127); }
int isxdigit(int c){ return isdigit(c) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
int toupper(int c){ int d = c - 32; return islower(c) ? d : c; }
int tolower(int c){ int d = c + 32; return isupper(c) ? d : c; }
int abs(int x){ return x < 0 ? -x : x; }
long labs(long x){ return x < 0 ? -x : x; }
static int digval(char c){ if(c >= '0' && c <= '9') return c - '0'; if(c >= 'a' && c <= 'z') return c - 'a' + 10; if(c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long parseul(const char* s, char** e, int base, bool sg){
	const char* p = s; while(isspace((unsigned char)*p)) ++p;
	bool neg = false; if(*p == '+' || *p == '-'){ neg = *p == '-'; ++p; }
	if((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digval(p[2]) < 16){ p += 2; base = 16; }
	else if(base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0; bool any = false, ov = false;
	unsigned long lim = sg ? (neg ? 9223372036854775808ul : 9223372036854775807ul) : ~0ul;
	for(;; ++p){ int d = digval(*p); if(d >= base) break; any = true; if(v > (lim - d) / base) ov = true; else v = v * base + d; }
	if(e) *e = (char*)(any ? p : s);
	if(ov){ errno_v = 34; return lim; }
	return neg ? -v : v;
}
long my_sto1(const char*, char**, int) asm("strtol");
long my_sto1(const char* s, char** e, int b){ return (long)parseul(s, e, b, true); }
long my_sto2(const char*, char**, int) asm("__isoc23_strtol");
long my_sto2(const char* s, char** e, int b){ return (long)parseul(s, e, b, true); }
long long my_sto3(const char*, char**, int) asm("strtoll");
long long my_sto3(const char* s, char** e, int b){ return (long long)parseul(s, e, b, true); }
long long my_sto4(const char*, char**, int) asm("__isoc23_strtoll");
long long my_sto4(const char* s, char** e, int b){ return (long long)parseul(s, e, b, true); }
unsigned long my_sto5(const char*, char**, int) asm("strtoul");
unsigned long my_sto5(const char* s, char** e, int b){ return (unsigned long)parseul(s, e, b, false); }
unsigned long my_sto6(const char*, char**, int) asm("__isoc23_strtoul");
unsigned long my_sto6(const char* s, char** e, int b){ return (unsigned long)parseul(s, e, b, false); }
unsigned long long my_sto7(const char*, char**, int) asm("strtoull");
unsigned long long my_sto7(const char* s, char** e, int b){ return (unsigned long long)parseul(s, e, b, false); }
unsigned long long my_sto8(const char*, char**, int) asm("__isoc23_strtoull");
unsigned long long my_sto8(const char* s, char** e, int b){ return (unsigned long long)parseul(s, e, b, false); }
int atoi(const char* s){ return (int)parseul(s, nullptr, 10, true); }
double fsym_strtod(const char* s, char** e);
double strtod(const char* s, char** e){ return fsym_strtod(s, e); }
float strtof(const char* s, char** e){ return (float)fsym_strtod(s, e); }
int fsym_fmt_double(char* b, size_t n, const char* f, double v);
static int utoa(char* o, unsigned long v, unsigned base, bool up){ char t[70]; int n = 0; do { unsigned d = v % base; t[n++] = (char)('0' + d + (d >= 10) * ((up ? 'A' : 'a') - '0' - 10)); v /= base; } while(v); for(int i = 0; i < n; ++i) o[i] = t[n-1-i]; return n; }
char* getenv(const char*){ return nullptr; }
int puts(const char* s){ std::cout << s << '\n'; return 1; }
int putchar(int c){ std::cout.put((char)c); return c; }
int isatty(int){ return 0; }
int fileno(FILE*){ return 0; }
int fflush(FILE*){ return 0; }
void vp_thread_main(std::thread::_State* s){ s->_M_run(); delete s; }
double modf(double x, double* ip){ double t = __builtin_trunc(x); *ip = t; return x - t; }
}
std::thread::_State::~_State(){}

// ------------------------------------------------------------------------------------------------ containers
namespace std {
namespace __detail {
	void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
	void _List_node_base::_M_unhook() noexcept { _List_node_base* n = this->_M_next; _List_node_base* p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
	void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
		if(this != last){ last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
			_List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
	void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while(t != this); }
	void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
		if(x._M_next != &x){ if(y._M_next != &y){ std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
			else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
		else if(y._M_next != &y){ x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
	// Every hash table keeps one bucket: all keys are in one chain, so look-ups compare keys only.
	std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t, std::size_t) const { return {false, 0}; }
	std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t) const { return 1; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed){ const unsigned char* b = (const unsigned char*)p; size_t h = seed; for(size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ul; return h; }
// red-black trees, without the balancing: the order of the elements is the same
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
	if(x->_M_right){ x = x->_M_right; while(x->_M_left) x = x->_M_left; }
	else { _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_right){ x = y; y = y->_M_parent; } if(x->_M_right != y) x = y; }
	return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
	if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
	else if(x->_M_left){ _Rb_tree_node_base* y = x->_M_left; while(y->_M_right) y = y->_M_right; x = y; }
	else { _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_left){ x = y; y = y->_M_parent; } x = y; }
	return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
	x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;      // the header alone stays red
	if(left){ p->_M_left = x; if(p == &h){ h._M_parent = x; h._M_right = x; } else if(p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if(p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
	_Rb_tree_node_base* y; _Rb_tree_node_base* x; 
	auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n){ if(h._M_parent == o) h._M_parent = n; else if(o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if(n) n->_M_parent = o->_M_parent; };
	_Rb_tree_node_base* nl = h._M_left; _Rb_tree_node_base* nr = h._M_right;
	if(nl == z){ nl = _Rb_tree_increment(z); } 
	if(nr == z){ nr = _Rb_tree_decrement(z); }
	if(!z->_M_left) repl(z, z->_M_right);
	else if(!z->_M_right) repl(z, z->_M_left);
	else { y = z->_M_right; while(y->_M_left) y = y->_M_left;
		if(y->_M_parent != z){ x = y->_M_right; y->_M_parent->_M_left = x; if(x) x->_M_parent = y->_M_parent; y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
		repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = _S_black; }
	if(!h._M_parent){ h._M_left = h._M_right = &h; } else { h._M_left = nl; h._M_right = nr; }
	return z; }

// ------------------------------------------------------------------------------------------------ exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
// the message is kept by reference count in libstdc++; here it is a leaked copy
static const char* keep(const char* s){ size_t n = strlen(s); char* r = (char*)malloc(n + 1); memcpy(r, s, n + 1); return r; }
__cow_string::__cow_string(){ *(const char**)this = ""; }
__cow_string::__cow_string(const std::string& s){ *(const char**)this = keep(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t){ *(const char**)this = keep(s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { *(const char**)this = *(const char* const*)&o; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { *(const char**)this = *(const char* const*)&o; return *this; }
__cow_string::~__cow_string(){}
__cow_string::__cow_string(__cow_string&& o) noexcept { *(const char**)this = *(const char* const*)&o; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { *(const char**)this = *(const char* const*)&o; return *this; }
#define EXC(T, B) T::T(const char* s) : B(s) {} T::T(const std::string& s) : B(s) {} T::~T() noexcept {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {} logic_error::logic_error(const std::string& s) : _M_msg(s) {} logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return *(const char* const*)&_M_msg; }
logic_error::logic_error(const logic_error& e) noexcept : exception(e), _M_msg(e._M_msg) {}
logic_error& logic_error::operator=(const logic_error& e) noexcept { _M_msg = e._M_msg; return *this; }
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {} runtime_error::runtime_error(const std::string& s) : _M_msg(s) {} runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return *(const char* const*)&_M_msg; }
runtime_error::runtime_error(const runtime_error& e) noexcept : exception(e), _M_msg(e._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& e) noexcept { _M_msg = e._M_msg; return *this; }
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
void __throw_bad_alloc(){ throw bad_alloc(); }
void __throw_bad_array_new_length(){ throw bad_array_new_length(); }
void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_bad_cast(){ throw bad_cast(); }
void __throw_bad_exception(){ throw exception(); }
void __throw_logic_error(const char* s){ throw logic_error(s); }
void __throw_length_error(const char* s){ throw length_error(s); }
void __throw_out_of_range(const char* s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...){ throw out_of_range(s); }
void __throw_invalid_argument(const char* s){ throw invalid_argument(s); }
void __throw_domain_error(const char* s){ throw domain_error(s); }
void __throw_runtime_error(const char* s){ throw runtime_error(s); }
void __throw_range_error(const char* s){ throw range_error(s); }
void __throw_overflow_error(const char* s){ throw overflow_error(s); }
void __throw_ios_failure(const char* s){ throw runtime_error(s); }
void __throw_ios_failure(const char* s, int){ throw runtime_error(s); }
void __throw_system_error(int){ throw runtime_error("system_error"); }
} // namespace std

// ------------------------------------------------------------------------------------------------ locale and iostreams
// One fixed "C" locale.  Facets are found by specialised accessors; the locale object itself carries nothing.
namespace std {
struct FakeImpl { int x; };
static FakeImpl fakeImpl;
locale::locale() noexcept : _M_impl((_Impl*)&fakeImpl) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale&) const noexcept { return true; }
const locale& locale::classic(){ static locale l; return l; }
locale locale::global(const locale&){ return locale(); }
locale::facet::~facet(){}
size_t locale::id::_M_id() const throw() { return 1; }

static ctype_base::mask ctab[256];
static bool ctabInit = [] {
	for(int c = 0; c < 256; ++c){
		ctype_base::mask m = 0;
		if(isspace(c)) m |= ctype_base::space; if(isprint(c)) m |= ctype_base::print; if(iscntrl(c)) m |= ctype_base::cntrl;
		if(isupper(c)) m |= ctype_base::upper; if(islower(c)) m |= ctype_base::lower; if(isalpha(c)) m |= ctype_base::alpha;
		if(isdigit(c)) m |= ctype_base::digit; if(ispunct(c)) m |= ctype_base::punct; if(isxdigit(c)) m |= ctype_base::xdigit;
		ctab[c] = m; }
	return true; }();
locale::id ctype<char>::id;
ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_del(d), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : ctab), _M_widen_ok(1), _M_narrow_ok(1) { for(int i = 0; i < 256; ++i) _M_widen[i] = _M_narrow[i] = (char)i; }
ctype<char>::~ctype(){}
const ctype<char>::mask* ctype<char>::classic_table() throw() { return ctab; }
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for(; a < b; ++a) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for(; a < b; ++a) *a = do_tolower(*a); return b; }
void ctype<char>::_M_narrow_init() const {}
void ctype<char>::_M_widen_init() const {}
alignas(16) static char ctypeBuf[sizeof(ctype<char>)]; static bool ctypeUp;
static const ctype<char>& theCtype(){ if(!ctypeUp){ ctypeUp = true; new (ctypeBuf) ctype<char>(ctab, false, 1); } return *(ctype<char>*)ctypeBuf; }

// Numbers: an integer is written as decimal digits when it is a constant, and as one item when it is symbolic and
// goes straight to the captured standard output.
struct CapBuf;
static bool capInt(streambuf* sb, uint64_t v, bool isU);
struct FsymNumPut : num_put<char> {
	FsymNumPut() : num_put<char>(1) {}
	static iter_type digits(iter_type s, ios_base& io, char fill, unsigned long u, bool neg){
		char t[72]; int n = 0; int base = (io.flags() & ios_base::hex) ? 16 : (io.flags() & ios_base::oct) ? 8 : 10;
		bool up = io.flags() & ios_base::uppercase;
		do { unsigned d = u % base; t[n++] = (char)('0' + d + (d >= 10) * ((up ? 'A' : 'a') - '0' - 10)); u /= base; } while(u);
		bool left = (io.flags() & ios_base::adjustfield) == ios_base::left, internal = (io.flags() & ios_base::adjustfield) == ios_base::internal;
		streamsize w = io.width(); io.width(0); streamsize len = n + (neg ? 1 : 0);
		if(!left && !internal) for(; len < w; ++len) *s++ = fill;
		if(neg) *s++ = '-';
		if(internal) for(; len < w; ++len) *s++ = fill;
		while(n) *s++ = t[--n];
		if(left) for(; len < w; ++len) *s++ = fill;
		return s;
	}
	static bool plain(ios_base& io){ return io.width() == 0 && !(io.flags() & (ios_base::hex | ios_base::oct | ios_base::showpos)); }
	iter_type signedOut(iter_type s, ios_base& io, char fill, long v) const {
		if(vp_is_sym((uint64_t)v) && plain(io) && capInt(*(streambuf**)&s, (uint64_t)v, false)) return s;
		if(io.flags() & (ios_base::hex | ios_base::oct)) return digits(s, io, fill, (unsigned long)v, false);
		return digits(s, io, fill, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); }
	iter_type unsignedOut(iter_type s, ios_base& io, char fill, unsigned long v) const {
		if(vp_is_sym(v) && plain(io) && capInt(*(streambuf**)&s, v, true)) return s;
		return digits(s, io, fill, v, false); }
	iter_type do_put(iter_type s, ios_base& io, char fill, bool v) const override { return unsignedOut(s, io, fill, v); }
	iter_type do_put(iter_type s, ios_base& io, char fill, long v) const override { return signedOut(s, io, fill, v); }
	iter_type do_put(iter_type s, ios_base& io, char fill, unsigned long v) const override { return unsignedOut(s, io, fill, v); }
	iter_type do_put(iter_type s, ios_base& io, char fill, long long v) const override { return signedOut(s, io, fill, v); }
	iter_type do_put(iter_type s, ios_base& io, char fill, unsigned long long v) const override { return unsignedOut(s, io, fill, v); }
	iter_type dbl(iter_type s, ios_base& io, char fill, double v) const {
		char f[32], b[400]; 
		const char* kind = (io.flags() & ios_base::floatfield) == ios_base::fixed ? "f" : (io.flags() & ios_base::floatfield) == ios_base::scientific ? "e" : "g";
		int p = (int)io.precision(); int n = 0; f[n++] = '%'; f[n++] = '.'; n += utoa(f + n, p, 10, false); f[n++] = *kind; f[n] = 0;
		int l = fsym_fmt_double(b, sizeof b, f, v);
		streamsize w = io.width(); io.width(0); for(streamsize k = l; k < w; ++k) *s++ = fill;
		for(int i = 0; i < l; ++i) *s++ = b[i];
		return s; }
	iter_type do_put(iter_type s, ios_base& io, char fill, double v) const override { return dbl(s, io, fill, v); }
	iter_type do_put(iter_type s, ios_base& io, char fill, long double v) const override { return s; }
	iter_type do_put(iter_type s, ios_base& io, char fill, const void* v) const override { return digits(s, io, fill, (unsigned long)v, false); }
};
struct FsymNumGet : num_get<char> {
	FsymNumGet() : num_get<char>(1) {}
	template<class T> iter_type integer(iter_type b, iter_type e, ios_base& io, ios_base::iostate& st, T& v, bool sg, unsigned long lim) const {
		int base = (io.flags() & ios_base::basefield) == ios_base::hex ? 16 : (io.flags() & ios_base::basefield) == ios_base::oct ? 8 : 10;
		bool neg = false, any = false, ov = false; unsigned long u = 0;
		if(b != e && (*b == '-' || *b == '+')){ neg = *b == '-'; ++b; }
		unsigned long l = lim + ((sg && neg) ? 1 : 0);
		for(; b != e; ++b){ int d = digval(*b); if(d >= base) break; any = true; if(u > (l - d) / base) ov = true; else u = u * base + d; }
		if(b == e) st |= ios_base::eofbit;
		if(!any){ v = 0; st |= ios_base::failbit; }
		else if(ov){ v = (T)l; st |= ios_base::failbit; }
		else v = (T)(neg ? 0ul - u : u);
		return b; }
	iter_type do_get(iter_type b, iter_type e, ios_base& io, ios_base::iostate& st, bool& v) const override { long x = 0; b = integer(b, e, io, st, x, true, 1); v = x; return b; }
	iter_type do_get(iter_type b, iter_type e, ios_base& io, ios_base::iostate& st, long& v) const override { return integer(b, e, io, st, v, true, 0x7ffffffffffffffful); }
	iter_type do_get(iter_type b, iter_type e, ios_base& io, ios_base::iostate& st, unsigned short& v) const override { return integer(b, e, io, st, v, false, 0xffff); }
	iter_type do_get(iter_type b, iter_type e, ios_base& io, ios_base::iostate& st, unsigned int& v) const override { return integer(b, e, io, st, v, false, 0xffffffffu); }
	iter_type do_get(iter_type b, iter_type e, ios_base& io, ios_base::iostate& st, unsigned long& v) const override { return integer(b, e, io, st, v, false, ~0ul); }
	iter_type do_get(iter_type b, iter_type e, ios_base& io, ios_base::iostate& st, long long& v) const override { return integer(b, e, io, st, v, true, 0x7ffffffffffffffful); }
	iter_type do_get(iter_type b, iter_type e, ios_base& io, ios_base::iostate& st, unsigned long long& v) const override { return integer(b, e, io, st, v, false, ~0ul); }
};
alignas(16) static char putBuf[sizeof(FsymNumPut)], getBuf[sizeof(FsymNumGet)]; static bool facetUp;
const ctype<char>* fsym_ctype(){ return &theCtype(); }
const num_put<char>* fsym_num_put(){ if(!facetUp){ facetUp = true; new (putBuf) FsymNumPut; new (getBuf) FsymNumGet; } return (num_put<char>*)(FsymNumPut*)putBuf; }
const num_get<char>* fsym_num_get(){ fsym_num_put(); return (num_get<char>*)(FsymNumGet*)getBuf; }
locale::id codecvt<char, char, mbstate_t>::id;
codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r) {}
codecvt<char, char, mbstate_t>::~codecvt(){}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(mbstate_t&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(mbstate_t&, const char* f, const char* e, size_t m) const { return (int)std::min<size_t>(m, e - f); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
alignas(16) static char cvtBuf[sizeof(codecvt<char, char, mbstate_t>)]; static bool cvtUp;
const codecvt<char, char, mbstate_t>* fsym_codecvt(){ if(!cvtUp){ cvtUp = true; new (cvtBuf) codecvt<char, char, mbstate_t>(1); } return (codecvt<char, char, mbstate_t>*)cvtBuf; }

ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base(){}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_move(ios_base& o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; _M_callbacks = nullptr; _M_word = _M_local_word; _M_word_size = _S_local_word_size; }
void ios_base::_M_swap(ios_base& o) noexcept { std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags); std::swap(_M_streambuf_state, o._M_streambuf_state); }
locale ios_base::imbue(const locale& l) throw() { return l; }
void __istream_extract(istream& in, char* s, streamsize n){ streamsize k = 0; ws(in); for(; k + 1 < n; ++k){ int c = in.peek(); if(c == EOF || isspace(c)) break; s[k] = (char)in.get(); } s[k] = 0; in.width(0); if(!k) in.setstate(ios_base::failbit); }
template<> istream& operator>>(istream& in, string& s){
	istream::sentry ok(in, false); if(!ok) return in;
	s.clear(); streamsize w = in.width(); bool any = false; ios_base::iostate st = ios_base::goodbit;
	for(streamsize k = 0; w <= 0 || k < w; ++k){ int c = in.rdbuf()->sgetc(); if(c == EOF){ st |= ios_base::eofbit; break; } if(isspace(c)) break; s.push_back((char)c); any = true; in.rdbuf()->sbumpc(); }
	in.width(0); if(!any) st |= ios_base::failbit; if(st) in.setstate(st); return in; }
template<> istream& getline(istream& in, string& s, char d){
	istream::sentry ok(in, true); if(!ok){ return in; }
	s.clear(); bool any = false; ios_base::iostate st = ios_base::goodbit;
	for(;;){ int c = in.rdbuf()->sbumpc(); if(c == EOF){ st |= ios_base::eofbit; break; } any = true; if((char)c == d) break; s.push_back((char)c); }
	if(!any) st |= ios_base::failbit; if(st) in.setstate(st); return in; }
ios_base::Init::Init(){}
ios_base::Init::~Init(){}
void ios_base_library_init(void){}

// ---- standard streams
struct CapBuf : streambuf {
	vector<VpOut> out;
	int overflow(int c) override { if(c != EOF) out.push_back({false, false, (uint64_t)(unsigned char)c}); return c == EOF ? 0 : c; }
	streamsize xsputn(const char* s, streamsize n) override { for(streamsize i = 0; i < n; ++i) out.push_back({false, false, (uint64_t)(unsigned char)s[i]}); return n; }
};
struct NullBuf : streambuf {
	int overflow(int c) override { return c == EOF ? 0 : c; }
	streamsize xsputn(const char*, streamsize n) override { return n; }
};
struct InBuf : streambuf {      // std::cin reads the same bytes as getchar()
	char one; 
	int underflow() override { int c = getchar(); if(c == EOF) return EOF; one = (char)c; setg(&one, &one, &one + 1); return (unsigned char)c; }
};
alignas(16) char coutBuf[sizeof(ostream)] asm("_ZSt4cout");
alignas(16) char cerrBuf[sizeof(ostream)] asm("_ZSt4cerr");
alignas(16) char clogBuf[sizeof(ostream)] asm("_ZSt4clog");
alignas(16) char cinBuf[sizeof(istream)] asm("_ZSt3cin");
static CapBuf* cap; static NullBuf* nullOut;
bool capInt(streambuf* sb, uint64_t v, bool isU){ if(sb == nullOut) return true; if(sb != cap) return false; cap->out.push_back({true, isU, v}); return true; }
struct StreamInit { StreamInit(){ cap = new CapBuf; new (coutBuf) ostream(cap); nullOut = new NullBuf; new (cerrBuf) ostream(nullOut); new (clogBuf) ostream(nullOut); new (cinBuf) istream(new InBuf); } };
__attribute__((init_priority(101))) static StreamInit streamInit;

// ---- files
struct FsymFile { string name; string data; bool created; };
static vector<FsymFile>* files; static int nopens;
// "./" components do not matter
static string plain(const string& n){ string r; for(size_t i = 0; i < n.size(); ++i){ if((i == 0 || (!vp_is_sym((uint8_t)n[i - 1]) && n[i - 1] == '/')) && i + 1 < n.size() && !vp_is_sym((uint8_t)n[i]) && !vp_is_sym((uint8_t)n[i + 1]) && n[i] == '.' && n[i + 1] == '/'){ ++i; continue; } r += n[i]; } return r; }
static FsymFile* findFile(const string& name){ string n = plain(name); if(!files) files = new vector<FsymFile>; for(auto& f : *files) if(f.name == n) return &f; return nullptr; }
struct FsymHandle { FsymFile* f; size_t pos; ios_base::openmode m; int idx; };
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file(){ close(); }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
__basic_file<char>* __basic_file<char>::open(const char* n, ios_base::openmode m, int){
	++nopens;
	if(_M_cfile) return nullptr;
	if(!*n) return nullptr;
	FsymFile* f = findFile(n);
	if(!f){
		if(!(m & ios_base::out) && vp_path_kind(n) == 2){ _M_cfile = (__c_file*)new FsymHandle{nullptr, 0, m, -1}; _M_cfile_created = true; return this; }      // a directory opens, and cannot be read
		if(!(m & ios_base::out) || (m & ios_base::in && !(m & ios_base::trunc))) return nullptr;
		files->push_back({plain(n), "", true});
	} 
	string pn = plain(n); int idx = 0; for(auto& x : *files){ if(x.name == pn) break; ++idx; }
	if((m & ios_base::out) && !(m & ios_base::in) && !(m & ios_base::app)) (*files)[idx].data.clear();
	_M_cfile = (__c_file*)new FsymHandle{nullptr, (m & ios_base::app) ? (*files)[idx].data.size() : 0, m, idx};
	_M_cfile_created = true;
	return this; }
__basic_file<char>* __basic_file<char>::close(){ if(!_M_cfile) return nullptr; delete (FsymHandle*)_M_cfile; _M_cfile = nullptr; _M_cfile_created = false; return this; }
streamsize __basic_file<char>::xsgetn(char* s, streamsize n){ FsymHandle* h = (FsymHandle*)_M_cfile; if(h->idx < 0) return -1; string& d = (*files)[h->idx].data; streamsize k = 0; for(; k < n && h->pos < d.size(); ++k) s[k] = d[h->pos++]; return k; }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n){ FsymHandle* h = (FsymHandle*)_M_cfile; string& d = (*files)[h->idx].data; for(streamsize k = 0; k < n; ++k){ if(h->pos < d.size()) d[h->pos] = s[k]; else d.push_back(s[k]); ++h->pos; } return n; }
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize m){ xsputn(a, n); xsputn(b, m); return n + m; }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { FsymHandle* h = (FsymHandle*)_M_cfile; if(h->idx < 0) return 0; string& d = (*files)[h->idx].data; streamoff b = w == ios_base::beg ? 0 : w == ios_base::cur ? (streamoff)h->pos : (streamoff)d.size(); if(b + o < 0) return -1; h->pos = b + o; return h->pos; }
int __basic_file<char>::sync(){ return 0; }
streamsize __basic_file<char>::showmanyc(){ FsymHandle* h = (FsymHandle*)_M_cfile; if(h->idx < 0) return 0; string& d = (*files)[h->idx].data; return h->pos < d.size() ? d.size() - h->pos : 0; }
int __basic_file<char>::fd() throw() { return 3; }

// ---- paths: POSIX syntax on the native string, without splitting into components
namespace filesystem { inline namespace __cxx11 {
void path::_M_split_cmpts(){}
path::_List::_List(){}
path::_List::_List(const _List&){}
path::_List& path::_List::operator=(const _List&){ return *this; }
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
bool path::has_root_directory() const noexcept { return !_M_pathname.empty() && _M_pathname[0] == '/'; }
bool path::has_root_path() const noexcept { return has_root_directory(); }
bool path::has_filename() const noexcept { return !_M_pathname.empty() && _M_pathname.back() != '/'; }
static size_t fnameStart(const std::string& s){ size_t p = s.size(); while(p > 0 && s[p-1] != '/') --p; return p; }
path path::parent_path() const {
	const std::string& s = _M_pathname; size_t p = fnameStart(s);
	while(p > 1 && s[p-1] == '/') --p;
	return path(s.substr(0, p)); }
pair<const std::string*, size_t> path::_M_find_extension() const noexcept {
	const std::string& s = _M_pathname; size_t st = fnameStart(s); size_t n = s.size() - st;
	if(n <= 1) return {&s, std::string::npos};
	size_t p = s.size(); while(p > st && s[p-1] != '.') --p;
	if(p == st) return {nullptr, std::string::npos};           // no dot
	if(p - 1 == st) return {&s, std::string::npos};            // leading dot only
	if(n == 2 && s[st] == '.') return {&s, std::string::npos};
	return {&s, p - 1}; }
void path::_M_append(string_view s){
	if(!s.empty() && s[0] == '/'){ _M_pathname.assign(s.data(), s.size()); return; }
	if(!_M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/';
	_M_pathname.append(s.data(), s.size()); }
path& path::operator/=(const path& p){ _M_append(p._M_pathname); return *this; }
path& path::operator=(const path& p){ _M_pathname = p._M_pathname; return *this; }
}
} }
namespace std { inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c, *this); }
bool error_category::equivalent(int c, const error_condition& e) const noexcept { return default_error_condition(c) == e; }
bool error_category::equivalent(const error_code& e, int c) const noexcept { return *this == e.category() && e.value() == c; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
struct FsymCategory : error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return "error"; } };
const error_category& system_category() noexcept { static FsymCategory c; return c; }
const error_category& generic_category() noexcept { static FsymCategory c; return c; }
} }
// ---- explicit instantiation of what the headers declare extern
namespace std {
template class basic_string<char>;
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template class num_put<char>;
template class num_get<char>;
#define OS basic_ostream<char>
template OS& OS::_M_insert(long); template OS& OS::_M_insert(unsigned long); template OS& OS::_M_insert(bool); template OS& OS::_M_insert(long long); template OS& OS::_M_insert(unsigned long long); template OS& OS::_M_insert(double); template OS& OS::_M_insert(const void*);
#define IS basic_istream<char>
template IS& IS::_M_extract(long&); template IS& IS::_M_extract(unsigned long&); template IS& IS::_M_extract(unsigned int&); template IS& IS::_M_extract(unsigned short&); template IS& IS::_M_extract(bool&); template IS& IS::_M_extract(long long&); template IS& IS::_M_extract(unsigned long long&);
template IS& ws(IS&);
template OS& endl(OS&); template OS& ends(OS&); template OS& flush(OS&);
template OS& operator<<(OS&, char); template OS& operator<<(OS&, unsigned char); template OS& operator<<(OS&, signed char); template OS& operator<<(OS&, const char*);
template OS& operator<<(OS&, const string&);
template IS& operator>>(IS&, char&); template IS& operator>>(IS&, unsigned char&); template IS& getline(IS&, string&);
template OS& operator<<(OS&, _Setw); template OS& operator<<(OS&, _Setprecision); template OS& operator<<(OS&, _Setfill<char>);
template IS& operator>>(IS&, _Setw); 
template OS& __ostream_insert(OS&, const char*, streamsize);
template string operator+(const string&, const string&); template string operator+(const char*, const string&); template string operator+(const string&, const char*); template string operator+(const string&, char);
}

// ------------------------------------------------------------------------------------------------ harness services
void vp_out_reset(){ std::cap->out.clear(); }
size_t vp_out_count(){ return std::cap->out.size(); }
static bool isConst(uint64_t v){ return !vp_is_sym(v); }
// Constant integers are expanded to their digits on both sides before comparing item by item.
static void expand(const std::vector<VpOut>& in, std::vector<VpOut>& out, bool all){
	for(auto& o : in){
		if(o.isInt && (all || isConst(o.v))){
			bool neg = !o.isU && (int64_t)o.v < 0; char t[24]; int n = 0; uint64_t u = neg ? 0 - o.v : o.v;
			do { t[n++] = '0' + u % 10; u /= 10; } while(u);
			if(neg) out.push_back({false, false, '-'});
			while(n) out.push_back({false, false, (uint64_t)t[--n]});
		} else out.push_back(o);
	}
}
bool vp_out_is(const VpExpect& e){
	std::vector<VpOut> a, b;
	expand(std::cap->out, a, false); expand(e.items, b, false);
	bool shape = a.size() == b.size();
	for(size_t i = 0; shape && i < a.size(); ++i) if(a[i].isInt != b[i].isInt) shape = false;
	if(!shape){
		// one side printed digits itself: compare as text (forks over the number of digits)
		a.clear(); b.clear(); expand(std::cap->out, a, true); expand(e.items, b, true);
		if(a.size() != b.size()) return false;
	}
	bool ok = true;
	for(size_t i = 0; i < a.size(); ++i){
		bool same = a[i].v == b[i].v;
		if(a[i].isInt && a[i].isU != b[i].isU) same = same & ((int64_t)a[i].v >= 0);
		ok = ok & same;
	}
	return ok;
}
std::string vp_out_text(){ std::vector<VpOut> a; expand(std::cap->out, a, true); std::string r; for(auto& o : a) r.push_back((char)o.v); return r; }
void vp_file_put(const char* n, const std::string& d){ if(auto* f = std::findFile(n)){ f->data = d; return; } std::files->push_back({n, d, false}); }
bool vp_file_get(const char* n, std::string& d){ auto* f = std::findFile(n); if(!f) return false; d = f->data; return true; }
int vp_file_count(){ std::findFile(""); int k = 0; for(auto& f : *std::files) if(f.created) ++k; return k; }
int vp_path_kind(const char* p){ std::string n = std::plain(p); if(n.empty()) return *p ? 2 : 0; for(char c : n) if(vp_is_sym((uint8_t)c)) return std::findFile(n) ? 1 : 0; if(n == "/" || n == ".") return 2; bool d = false; while(!n.empty() && n.back() == '/'){ n.pop_back(); d = true; } if(!d && std::findFile(n)) return 1; n += '/'; if(std::files) for(auto& f : *std::files) if(f.name.compare(0, n.size(), n) == 0) return 2; return 0; }
int vp_file_opens(){ return std::nopens; }

// printf-style formatting: flags, width, precision; %d %i %u %o %x %c %s %f %g %e %a %n %%.  Other than the C library it reads
// nothing for a conversion that is unknown.
extern "C" int vsnprintf(char* b, size_t cap, const char* f, va_list ap) noexcept {
	size_t n = 0; auto put = [&](char c){ if(n + 1 < cap) b[n] = c; ++n; };
	for(; *f; ++f){
		if(*f != '%'){ put(*f); continue; }
		const char* s = f++; bool left = false, plus = false, space = false, alt = false, zero = false; int width = 0, prec = -1;
		for(;; ++f){ if(*f == '-') left = true; else if(*f == '+') plus = true; else if(*f == ' ') space = true; else if(*f == '#') alt = true; else if(*f == '0') zero = true; else break; }
		if(*f == '*'){ width = va_arg(ap, int); if(width < 0){ left = true; width = -width; } ++f; } else while(*f >= '0' && *f <= '9'){ if(width > 100000000) return -1; width = width * 10 + (*f++ - '0'); }
		if(*f == '.'){ ++f; prec = 0; if(*f == '*'){ prec = va_arg(ap, int); ++f; } else while(*f >= '0' && *f <= '9'){ if(prec > 100000000) return -1; prec = prec * 10 + (*f++ - '0'); } }
		const char* e = f; int l = 0; for(;; ++f){ if(*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') l = 8; else if(*f == 'h') l = l == 2 ? 1 : 2; else break; }
		auto field = [&](const char* pre, int np, const char* t, int k, bool zeros){
			int z = 0; if(zeros && prec >= 0 && k < prec) z = prec - k; if(zeros && zero && !left && prec < 0 && width > np + k) z = width - np - k;
			int w = width - np - z - k; if(!left) for(; w > 0; --w) put(' '); for(int i = 0; i < np; ++i) put(pre[i]); for(; z > 0; --z) put('0'); for(int i = 0; i < k; ++i) put(t[i]); for(; w > 0; --w) put(' '); };
		char t[80]; int k = 0;
		switch(*f){
			case 'd': case 'i': { long v = l == 8 ? va_arg(ap, long) : va_arg(ap, int); if(l == 2) v = (short)v; if(l == 1) v = (signed char)v; bool neg = v < 0; k = utoa(t, neg ? 0ul - v : v, 10, false); if(prec == 0 && v == 0) k = 0; char sg = neg ? '-' : plus ? '+' : space ? ' ' : 0; field(&sg, sg != 0, t, k, true); break; }
			case 'u': case 'x': case 'X': case 'o': { unsigned long v = l == 8 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if(l == 2) v = (unsigned short)v; if(l == 1) v = (unsigned char)v; k = utoa(t, v, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X'); if(prec == 0 && v == 0) k = 0; bool p = alt && v != 0 && *f != 'u'; char pre[2] = {'0', *f}; field(pre, !p ? 0 : *f == 'o' ? 1 : 2, t, k, true); break; }
			case 'c': t[0] = (char)va_arg(ap, int); field("", 0, t, 1, false); break;
			case 's': { const char* q = va_arg(ap, const char*); int m = 0; while((prec < 0 || m < prec) && q[m]) ++m; field("", 0, q, m, false); break; }
			case 'n': *va_arg(ap, int*) = (int)n; break;
			case 'f': case 'F': case 'g': case 'e': case 'E': case 'G': case 'a': case 'A': { char ff[40]; int m = 0; for(const char* q = s; q < e && m < 38; ++q) ff[m++] = *q; ff[m++] = *f; ff[m] = 0; char o[400]; int r = fsym_fmt_double(o, sizeof o, ff, va_arg(ap, double)); for(int i = 0; i < r; ++i) put(o[i]); break; }
			case '%': put('%'); break;
			case 0: return -1;
			default: put(*f);
		}
	}
	if(cap) b[n < cap ? n : cap - 1] = 0;
	return (int)n;
}
extern "C" int snprintf(char* b, size_t cap, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int n = vsnprintf(b, cap, f, ap); va_end(ap); return n; }
extern "C" int vsprintf(char* b, const char* f, va_list ap) noexcept { return vsnprintf(b, 1 << 20, f, ap); }
extern "C" int sprintf(char* b, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int n = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return n; }
extern "C" int printf(const char* f, ...){ char b[512]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); std::cout.write(b, n); return n; }
namespace std { template<> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof){ streamsize n = 0; eof = true; int c = in->sgetc(); while(c != -1){ if(out->sputc((char)c) == -1){ eof = false; break; } ++n; c = in->snextc(); } return n; } 
template streamsize __copy_streambufs(basic_streambuf<char>*, basic_streambuf<char>*); }
extern "C" int pthread_once(int* o, void (*f)()) noexcept(false) { if(*o == 0){ *o = 1; f(); *o = 2; } return 0; }
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy(void){ std::__once_call(); }
extern "C" div_t div(int a, int b){ return {a / b, a % b}; }
extern "C" ldiv_t ldiv(long a, long b){ return {a / b, a % b}; }
extern "C" lldiv_t lldiv(long long a, long long b){ return {a / b, a % b}; }

// ---- complex numbers: passed as two doubles
struct vp_cd { double re, im; };
extern "C" double hypot(double, double);
extern "C" double vp_cabs(double re, double im) __asm__("cabs");
extern "C" double vp_cabs(double re, double im){ return hypot(re, im); }
extern "C" vp_cd vp_divdc3(double a, double b, double c, double d) __asm__("__divdc3");
extern "C" vp_cd vp_divdc3(double a, double b, double c, double d){ double n = c * c + d * d; return {(a * c + b * d) / n, (b * c - a * d) / n}; }
extern "C" vp_cd vp_muldc3(double a, double b, double c, double d) __asm__("__muldc3");
extern "C" vp_cd vp_muldc3(double a, double b, double c, double d){ return {a * c - b * d, a * d + b * c}; }
