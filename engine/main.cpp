#include "engine.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
extern Expr* UNDEF_MARK;
int main(int argc, char** argv){
	Engine E;
	std::string bc;
	for(int i = 1; i < argc; i++){
		std::string a = argv[i];
		auto nxt = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "-e") E.entry = nxt(); else if(a == "-o") E.outdir = nxt(); else if(a == "-j") E.maxProcs = atoi(nxt().c_str());
		else if(a == "-t") E.maxSecs = atof(nxt().c_str()); else if(a == "-s") E.maxSteps = strtoull(nxt().c_str(), 0, 10); else if(a == "-p") E.maxPaths = strtoull(nxt().c_str(), 0, 10);
		else if(a == "-q") g_solver_ms = atoi(nxt().c_str()); else if(a == "-seed") E.seed = atoi(nxt().c_str()); else if(a == "-x") g_cross_dir = nxt(); else bc = a;
	}
	E.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	memset((void*)E.sh, 0, sizeof(Shared));
	E.setupHooks();
	State* init = new State;
	E.load(bc, *init);
	// initialisers, then the entry, run in one thread: a chain of calls set up in reverse order
	auto it = E.fnByName.find(E.entry);
	if(it == E.fnByName.end()){ fprintf(stderr, "fsym: no entry %s\n", E.entry.c_str()); return 2; }
	init->th.emplace_back();
	E.call(*init, it->second, {}, 0, 0, false, 0, 0);
	for(size_t i = E.ctors.size(); i-- > 0; ) E.call(*init, E.ctors[i].second, {}, 0, 0, false, 0, 0);
	E.run(init);
	Shared* s = E.sh;
	if(s->started != s->finished){ printf("INCOMPLETE\ta worker process died (%llu of %llu finished)\n", (unsigned long long)s->finished, (unsigned long long)s->started); }
	printf("STATS\tpaths=%llu\tok=%llu\tsteps=%llu\tforks=%llu\tviol=%llu\tincomplete=%llu\tchecks=%llu\tchecks_solver=%llu\tqueries=%llu\tz3calls=%llu\tsat=%llu\tunsat=%llu\tunknown=%llu\tcachehits=%llu\n",
		(unsigned long long)s->paths, (unsigned long long)s->okpaths, (unsigned long long)s->steps, (unsigned long long)s->forks, (unsigned long long)s->viol, (unsigned long long)s->incomplete, (unsigned long long)s->checks, (unsigned long long)s->checksSolver,
		(unsigned long long)s->queries, (unsigned long long)s->z3calls, (unsigned long long)s->sat, (unsigned long long)s->unsat, (unsigned long long)s->unk, (unsigned long long)s->cachehits);
	return 0;
}
