// Harness interface.  In the symbolic run the vp_ functions are engine primitives; in the native replay they
// return the recorded values.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
extern "C" {
	uint64_t vp_sym(const char* name, unsigned bits);            // arbitrary value of that many bits, zero-extended
	void vp_assume(int c);                                        // drop the path where c is false
	void vp_check(int c, const char* msg);                        // c must hold for every value
	void vp_fail(const char* msg);                                // this point must not be reached
	void vp_end(void);                                            // path ends here, without fault
	int64_t vp_choose(const char* name, int64_t lo, int64_t hi);  // one path per value in [lo, hi]
	void vp_reach(const char* label);                             // reachability witness
	void vp_observe(uint64_t v);                                  // compared between the symbolic run and the native replay
	uint64_t vp_concretize(uint64_t v);                           // one path per possible value
	int vp_symbolic(void);                                        // 1 in the symbolic run
	int vp_is_sym(uint64_t v);                                    // 1 if v is not a constant (symbolic run only)
	int vp_must(int c);                                           // 1 if c holds for every value (symbolic run only)
	void vp_budget(uint64_t steps);                               // instructions left on this path
	void vp_explore(int preemptions);                             // from here on, explore thread schedules
	void vp_yield(void);
	void vp_print(const char* what, uint64_t v);
}
static inline int64_t vp_i64(const char* n){ return (int64_t)vp_sym(n, 64); }
static inline int32_t vp_i32(const char* n){ return (int32_t)vp_sym(n, 32); }
static inline uint8_t vp_u8(const char* n){ return (uint8_t)vp_sym(n, 8); }
static inline bool vp_bool(const char* n){ return vp_sym(n, 1) != 0; }
static inline int64_t vp_range(const char* n, int64_t lo, int64_t hi){ int64_t v = vp_i64(n); vp_assume(v >= lo && v <= hi); return v; }

// ---- environment models (env.cpp), shared by both runs
extern "C" {
	// standard input
	void env_stdin(const char* bytes, size_t n);                  // getchar() yields these bytes, then EOF
	size_t env_stdin_pos(void);
	// system(): result and a record of the command
	extern int env_system_result;
	extern int env_system_calls;
	extern char env_system_cmd[256];
	extern int64_t env_time;                                      // time() result
	extern int env_tm[9];                                         // localtime(): sec min hour mday mon year wday yday isdst
	extern uint64_t env_clock_us;                                 // steady/system clock now, microseconds
	extern int64_t env_clock_ns;                                     // and nanoseconds to add
	extern int env_random_n;                                      // draws made
}
// directory operations (DIRF): recorded as C, M, R; never performed
extern int env_dirops; extern char env_dirop[8]; extern bool env_dirfail; extern const char* env_isdir;
// ---- captured standard output
// An item is a byte, or (symbolic run only) an integer that was printed in decimal.
struct VpOut { bool isInt; bool isU; uint64_t v; };
void vp_out_reset();
size_t vp_out_count();
// Compares what was written to standard output with what is expected.
struct VpExpect {
	std::vector<VpOut> items;
	VpExpect& ch(uint64_t c){ items.push_back({false, false, c & 0xff}); return *this; }
	VpExpect& str(const char* s){ for(; *s; ++s) ch((unsigned char)*s); return *this; }
	VpExpect& num(int64_t v){ items.push_back({true, false, (uint64_t)v}); return *this; }
	VpExpect& unum(uint64_t v){ items.push_back({true, true, v}); return *this; }
};
bool vp_out_is(const VpExpect& e);
std::string vp_out_text();            // only when everything printed is concrete
// ---- files: a directory private to the run
void vp_file_put(const char* name, const std::string& bytes);
bool vp_file_get(const char* name, std::string& bytes);
int vp_file_count();                  // files created by the program under test
int vp_file_opens();                  // open attempts (symbolic run only; -1 in the native run)
