// Native replay: runs a harness entry on the real code with the recorded values and the recorded schedule.
//   replay FILE...   prints one line "RESULT <file> <status> <detail>" per file
// Threads are coroutines of one OS thread, switched at the same points as in the symbolic run.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#define private public
#include <thread>
#undef private
#include <mutex>
#include <condition_variable>
#include <iostream>
#include <fstream>
#include <sstream>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <ucontext.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define ASAN 1
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:new_delete_type_mismatch=1:alloc_dealloc_mismatch=1:max_allocation_size_mb=20000"; }
extern "C" const char* __ubsan_default_options(){ return "halt_on_error=1:exitcode=78:print_stacktrace=1"; }
#else
#define ASAN 0
#endif

struct Rec { std::string name; unsigned w; uint64_t v; };
static std::vector<Rec> recs; static size_t recPos;
static std::vector<std::string> obsExp; static size_t obsPos; static bool obsBad; static std::string obsMsg;
static std::vector<int> sched; static size_t schedPos;
static std::string entry;
static int resFd = -1;
static std::string scratch;
[[noreturn]] static void finish(const char* st, const std::string& detail){
	std::string o = std::string(st) + "\t" + detail; if(o.size() > 4000) o.resize(4000);
	if(write(resFd, o.data(), o.size()) < 0){}
	_exit(0);
}
extern "C" {
uint64_t vp_sym(const char* name, unsigned bits){
	if(recPos >= recs.size()) finish("diverged", std::string("no recorded value left for ") + name);
	Rec& r = recs[recPos++];
	if(r.name != name || r.w != bits) finish("diverged", "recorded " + r.name + "/" + std::to_string(r.w) + ", asked for " + name + "/" + std::to_string(bits));
	return r.v;
}
int64_t vp_choose(const char* name, int64_t, int64_t){ return (int64_t)vp_sym(name, 64); }
void vp_assume(int c){ if(!c) finish("assume", ""); }
void vp_check(int c, const char* m){ if(!c) finish("check", m); }
void vp_fail(const char* m){ finish("check", m); }
static void endOk(){
	if(obsBad) finish("observe", obsMsg);
	if(recPos != recs.size()) finish("diverged", "values left over");
	finish("ok", std::to_string(obsPos));
}
void vp_end(void){ endOk(); }
void vp_reach(const char*){}
void vp_observe(uint64_t v){
	if(obsPos < obsExp.size() && obsExp[obsPos] != "?"){
		uint64_t e = strtoull(obsExp[obsPos].c_str(), nullptr, 10);
		if(e != v && !obsBad){ obsBad = true; obsMsg = "observation " + std::to_string(obsPos) + ": symbolic run " + std::to_string(e) + ", real code " + std::to_string(v); }
	}
	++obsPos;
}
uint64_t vp_concretize(uint64_t v){ return v; }
int vp_symbolic(void){ return 0; }
int vp_is_sym(uint64_t){ return 0; }
int vp_must(int c){ return c; }
void vp_budget(uint64_t){}
void vp_print(const char* w, uint64_t v){ fprintf(stderr, "%s %lld\n", w, (long long)v); }
}

// ------------------------------------------------------------------------------------------------ threads
enum { RUN, MUTEX, COND, JOIN, DONE };
struct Co { ucontext_t ctx; int st = RUN; void* on = nullptr; std::thread::_State* fn = nullptr; char* stack = nullptr; size_t ssz = 0; void* fake = nullptr; };
static std::vector<Co*> co; static int curCo; static bool exploring;
static const size_t STK = 1 << 20;
static const void* mainBottom; static size_t mainSize;
struct Mu { int owner = -1; unsigned depth = 0; };
static std::map<void*, Mu>* mus;
static bool active;       // inside a harness
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
static void sw(int n){
	if(n == curCo) return;
	Co* a = co[curCo]; Co* b = co[n]; curCo = n;
#if ASAN
	__sanitizer_start_switch_fiber(&a->fake, b->stack ? b->stack : (char*)mainBottom, b->stack ? b->ssz : mainSize);
#endif
	swapcontext(&a->ctx, &b->ctx);
#if ASAN
	__sanitizer_finish_switch_fiber(a->fake, nullptr, nullptr);
#endif
}
static int nextSched(){ if(schedPos >= sched.size()) finish("diverged", "schedule exhausted"); int t = sched[schedPos++]; if(t < 0 || t >= (int)co.size() || co[t]->st != RUN) finish("diverged", "schedule names a thread that cannot run"); return t; }
static void schedule(){
	std::vector<int> run; for(size_t i = 0; i < co.size(); ++i) if(co[i]->st == RUN) run.push_back(i);
	if(run.empty()) finish("deadlock", "every thread is blocked");
	int n = run[0];
	if(exploring) n = nextSched(); else for(int r : run) if(r > curCo){ n = r; break; }
	sw(n);
}
static void preempt(){ if(!exploring) return; for(;;){ int t = nextSched(); if(t == curCo) return; sw(t); } }
static void block(int st, void* on){ co[curCo]->st = st; co[curCo]->on = on; schedule(); }
static bool tryLock(void* m, bool tryOnly){
	Mu& mu = (*mus)[m];
	if(mu.owner < 0){ mu.owner = curCo; mu.depth = 1; return true; }
	if(mu.owner == curCo && ((pthread_mutex_t*)m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE){ ++mu.depth; return true; }
	if(tryOnly) return false;
	if(mu.owner == curCo) finish("deadlock", "a thread locks a mutex it already holds");
	return false;
}
static void unlock(void* m){
	Mu& mu = (*mus)[m];
	if(mu.owner != curCo) finish("memory", "unlock of a mutex the thread does not hold");
	if(--mu.depth == 0){ mu.owner = -1; for(auto c : co) if(c->st == MUTEX && c->on == m) c->st = RUN; }
}
static void coMain(){
#if ASAN
	const void* b; size_t n; __sanitizer_finish_switch_fiber(nullptr, &b, &n);
	if(!mainBottom){ mainBottom = b; mainSize = n; }
#endif
	Co* c = co[curCo];
	c->fn->_M_run(); delete c->fn;
	c->st = DONE;
	for(auto o : co) if(o->st == JOIN && o->on == c) o->st = RUN;
	schedule();
	abort();
}
extern "C" {
void vp_explore(int){ exploring = true; }
void vp_yield(void){ if(co.size() > 1) schedule(); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
	if(!active) return REAL(pthread_mutex_lock)(m);
	for(;;){ preempt(); if(tryLock(m, false)) return 0; block(MUTEX, m); } }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
	if(!active) return REAL(pthread_mutex_trylock)(m);
	preempt(); return tryLock(m, true) ? 0 : 16; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
	if(!active) return REAL(pthread_mutex_unlock)(m);
	unlock(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if(!active) return REAL(pthread_rwlock_rdlock)(m); return pthread_mutex_lock((pthread_mutex_t*)m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if(!active) return REAL(pthread_rwlock_wrlock)(m); return pthread_mutex_lock((pthread_mutex_t*)m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if(!active) return REAL(pthread_rwlock_unlock)(m); return pthread_mutex_unlock((pthread_mutex_t*)m); }
int sched_yield(void) noexcept { vp_yield(); return 0; }
int nanosleep(const struct timespec*, struct timespec*){ vp_yield(); return 0; }
int usleep(useconds_t){ vp_yield(); return 0; }
}
namespace std {
void condition_variable::wait(unique_lock<std::mutex>& l){
	void* m = l.mutex()->native_handle();
	unlock(m); block(COND, this);
	for(;;){ preempt(); if(tryLock(m, false)) return; block(MUTEX, m); } }
void condition_variable::notify_all() noexcept { for(auto c : co) if(c->st == COND && c->on == this) c->st = RUN; }
void condition_variable::notify_one() noexcept { for(auto c : co) if(c->st == COND && c->on == this){ c->st = RUN; break; } }
void thread::_M_start_thread(_State_ptr p, void (*)()){
	preempt();
	Co* c = new Co; c->fn = p.release(); c->ssz = STK; c->stack = (char*)malloc(STK);
	getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = STK; c->ctx.uc_link = nullptr;
	makecontext(&c->ctx, coMain, 0);
	co.push_back(c); *(size_t*)this = co.size() - 1; }
void thread::join(){
	preempt();
	size_t id = *(size_t*)this;
	if(id == 0 || id >= co.size()) finish("crash", "join of a thread that is not joinable (std::system_error)");
	*(size_t*)this = 0;
	if(co[id]->st != DONE) block(JOIN, co[id]); }
void thread::detach(){ *(size_t*)this = 0; }
}

// ------------------------------------------------------------------------------------------------ streams and files
struct CapBuf : std::streambuf { std::string t; int overflow(int c) override { if(c != EOF) t.push_back((char)c); return c == EOF ? 0 : c; } std::streamsize xsputn(const char* s, std::streamsize n) override { t.append(s, n); return n; } };
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } };
struct InBuf : std::streambuf { char one; int underflow() override { int c = getchar(); if(c == EOF) return EOF; one = (char)c; setg(&one, &one, &one + 1); return (unsigned char)c; } };
static CapBuf* cap;
void vp_out_reset(){ cap->t.clear(); }
size_t vp_out_count(){ return cap->t.size(); }
std::string vp_out_text(){ return cap->t; }
bool vp_out_is(const VpExpect& e){
	std::string x; for(auto& o : e.items){ if(!o.isInt) x.push_back((char)o.v); else x += o.isU ? std::to_string(o.v) : std::to_string((int64_t)o.v); }
	return x == cap->t;
}
static std::set<std::string>* given;
void vp_file_put(const char* n, const std::string& d){ for(const char* p = n; (p = strchr(p, '/')); ++p){ std::string dir(n, p); if(mkdir(dir.c_str(), 0777) == 0) given->insert(dir); } std::ofstream f(n, std::ios::binary); f << d; given->insert(n); }
bool vp_file_get(const char* n, std::string& d){ std::ifstream f(n, std::ios::binary); if(!f) return false; std::stringstream s; s << f.rdbuf(); d = s.str(); return true; }
int vp_file_count(){ int k = 0; if(DIR* d = opendir(".")){ while(auto e = readdir(d)) if(e->d_name[0] != '.' || (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))) if(!given->count(e->d_name)) ++k; closedir(d); } return k; }
int vp_path_kind(const char* p){ struct stat st; if(::stat(p, &st)) return 0; return S_ISDIR(st.st_mode) ? 2 : 1; }
int vp_file_opens(){ return -1; }

// ------------------------------------------------------------------------------------------------ driver
static void onTerm(){ 
	std::string m = "std::terminate";
	if(auto e = std::current_exception()){ try { std::rethrow_exception(e); } catch(const std::exception& x){ m += std::string(": ") + x.what(); } catch(...){} }
	finish("crash", m); }
static void child(const char* file, int fd){
	resFd = fd;
	std::ifstream f(file); std::string l;
	while(std::getline(f, l)){
		if(l.rfind("entry ", 0) == 0) entry = l.substr(6);
		else if(l.rfind("v ", 0) == 0){ std::istringstream s(l.substr(2)); Rec r; s >> r.name >> r.w >> r.v; recs.push_back(r); }
		else if(l.rfind("o ", 0) == 0) obsExp.push_back(l.substr(2));
		else if(l == "S" || l.rfind("S ", 0) == 0){ std::istringstream s(l.substr(1)); int t; while(s >> t) sched.push_back(t); }
	}
	f.close();
	void (*fn)() = (void(*)())dlsym(RTLD_DEFAULT, entry.c_str());
	if(!fn) finish("error", "no entry " + entry);
	if(chdir(scratch.c_str())) finish("error", "chdir");
	struct rlimit rl = {64u << 20, 64u << 20}; setrlimit(RLIMIT_FSIZE, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	if(!ASAN){ rl = {4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &rl); }
	given = new std::set<std::string>; mus = new std::map<void*, Mu>;
	cap = new CapBuf; std::cout.rdbuf(cap); std::cerr.rdbuf(new NullBuf); std::clog.rdbuf(new NullBuf); std::cin.rdbuf(new InBuf);
	std::set_terminate(onTerm);
	co.push_back(new Co); curCo = 0; active = true;
	fn();
	endOk();
}
static void rmrf(const std::string& d){
	if(DIR* h = opendir(d.c_str())){ while(auto e = readdir(h)){ if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; std::string p = d + "/" + e->d_name; struct stat st; if(!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str()); } closedir(h); }
	rmdir(d.c_str()); }
int main(int argc, char** argv){
	int limit = 10; if(const char* t = getenv("VP_REPLAY_SECS")) limit = atoi(t);
	for(int i = 1; i < argc; ++i){
		char* rp = realpath(argv[i], nullptr); if(!rp){ printf("RESULT\t%s\terror\tno such file\n", argv[i]); continue; }
		char tmpl[] = "/tmp/vp-replay-XXXXXX"; if(!mkdtemp(tmpl)){ perror("mkdtemp"); return 2; } scratch = tmpl;
		int pf[2]; if(pipe(pf)){ perror("pipe"); return 2; }
		fflush(stdout);
		pid_t p = fork();
		if(p == 0){ close(pf[0]); setpgid(0, 0); int n = open("/dev/null", O_RDONLY); if(n > 0) dup2(n, 0); dup2(2, 1); alarm(limit); child(rp, pf[1]); _exit(0); }
		close(pf[1]);
		std::string o; char b[512]; ssize_t k; while((k = read(pf[0], b, sizeof b)) > 0) o.append(b, k);
		close(pf[0]);
		int st = 0; waitpid(p, &st, 0);
		if(o.empty()){
			if(WIFSIGNALED(st)) o = WTERMSIG(st) == SIGALRM ? "timeout\tno end after " + std::to_string(limit) + " s" : std::string("signal\t") + strsignal(WTERMSIG(st));
			else if(WEXITSTATUS(st) == 77) o = "memory\tAddressSanitizer report";
			else if(WEXITSTATUS(st) == 78) o = "memory\tUndefinedBehaviorSanitizer report";
			else o = "exit\tstatus " + std::to_string(WEXITSTATUS(st));
		}
		for(auto& c : o) if(c == '\n') c = ' ';
		printf("RESULT\t%s\t%s\n", argv[i], o.c_str());
		fflush(stdout);
		rmrf(scratch); free(rp);
	}
	return 0;
}
