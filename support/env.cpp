// Environment stubs used by the symbolic run and by the native replay alike.
#include "vp.h"
#include <cstdio>
#include <cstring>
#include <ctime>
#include <chrono>
#include <random>
#include <filesystem>
#include <stdexcept>
extern "C" {
static const char* in_p; static size_t in_n, in_i; static int in_back = -2;
void env_stdin(const char* b, size_t n){ in_p = b; in_n = n; in_i = 0; in_back = -2; }
size_t env_stdin_pos(void){ return in_i - (in_back >= 0 ? 1 : 0); }
// glibc looks up a table; anything else is an access outside it
int isspace(int c){ if(!((c >= -128) & (c <= 255))) vp_fail("isspace() is called with a value outside its domain"); return (c == ' ') | ((c >= 9) & (c <= 13)); }
int getchar(void){ if(in_back >= 0){ int c = in_back; in_back = -2; return c; } if(in_i >= in_n) return EOF; return (unsigned char)in_p[in_i++]; }
int ungetc(int c, FILE*){ if(c == EOF) return EOF; in_back = c & 255; return in_back; }
int env_system_result, env_system_calls; char env_system_cmd[256];
int system(const char* c){ ++env_system_calls; size_t i = 0; for(; c && c[i] && i < 255; ++i) env_system_cmd[i] = c[i]; env_system_cmd[i] = 0; return env_system_result; }
int64_t env_time; int env_tm[9]; uint64_t env_clock_us; int64_t env_clock_ns; int env_random_n;
// a distribution may reject draws and try again without end: at most 4 draws are considered
static void drawn(){ vp_assume(++env_random_n <= 4); }
time_t time(time_t* p){ if(p) *p = env_time; return env_time; }
static struct tm tmv;
struct tm* localtime(const time_t*){ tmv.tm_sec = env_tm[0]; tmv.tm_min = env_tm[1]; tmv.tm_hour = env_tm[2]; tmv.tm_mday = env_tm[3]; tmv.tm_mon = env_tm[4]; tmv.tm_year = env_tm[5]; tmv.tm_wday = env_tm[6]; tmv.tm_yday = env_tm[7]; tmv.tm_isdst = env_tm[8]; return &tmv; }
long random(void){ drawn(); return (long)(vp_sym("random", 31)); }
int rand(void){ drawn(); return (int)(vp_sym("rand", 31)); }
int tcgetattr(int, struct termios*){ return 0; }
int tcsetattr(int, int, const struct termios*){ return 0; }
// std::mt19937::operator()(): any 32-bit value
uint64_t env_mt19937(void*) asm("_ZNSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEclEv");
uint64_t env_mt19937(void*){ drawn(); return vp_sym("mt19937", 32); }
uint64_t env_mt19937_64(void*) asm("_ZNSt23mersenne_twister_engineImLm64ELm312ELm156ELm31ELm13043109905998158313ELm29ELm6148914691236517205ELm17ELm8202884508482404352ELm37ELm18444473444759240704ELm43ELm6364136223846793005EEclEv");
uint64_t env_mt19937_64(void*){ drawn(); return vp_sym("mt19937_64", 64); }
}
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(std::chrono::nanoseconds((int64_t)env_clock_us * 1000 + env_clock_ns)); }
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept { return time_point(std::chrono::nanoseconds((int64_t)env_clock_us * 1000 + env_clock_ns)); }

// Directory operations are recorded and never performed.
int env_dirops; char env_dirop[8]; bool env_dirfail;
const char* env_isdir = "";                    // the one path that is a directory
int vp_path_kind(const char*);
namespace std { namespace filesystem {
file_status status(const path& p){ if(p.native() == env_isdir) return file_status(file_type::directory); int k = vp_path_kind(p.c_str()); return file_status(k == 1 ? file_type::regular : k == 2 ? file_type::directory : file_type::not_found); }
file_status status(const path& p, error_code& e) noexcept { e.clear(); return status(p); }

path canonical(const path& p){ return p.native() == "/proc/self/exe" ? path("bin/exe") : p; }      // the interpreter is bin/exe below the current directory
void current_path(const path&, error_code& e) noexcept { env_dirop[env_dirops++ & 7] = 'C'; e.clear(); if(env_dirfail) e = std::make_error_code(std::errc::io_error); }
void current_path(const path&){ env_dirop[env_dirops++ & 7] = 'C'; if(env_dirfail) throw std::runtime_error("current_path"); }
bool create_directory(const path&){ env_dirop[env_dirops++ & 7] = 'M'; return !env_dirfail; }
bool create_directory(const path&, error_code& e) noexcept { env_dirop[env_dirops++ & 7] = 'M'; e.clear(); if(env_dirfail) e = std::make_error_code(std::errc::io_error); return !env_dirfail; }
bool remove(const path&){ env_dirop[env_dirops++ & 7] = 'R'; return !env_dirfail; }
bool remove(const path&, error_code& e) noexcept { env_dirop[env_dirops++ & 7] = 'R'; e.clear(); if(env_dirfail) e = std::make_error_code(std::errc::io_error); return !env_dirfail; }
} }
