//@ entry h_ops
//@ entry h_clone
//@ bounds 1..3 stacks with 0..2 arbitrary cells each; 3 operations (thorough 4) from push/pop/insert/remove/select
//@ assume positions passed to insert/remove name an existing place and the selected stack is not removed below the last one (the instructions check this)
#include "funge_h.h"
#include <vector>
typedef std::vector<std::vector<int64_t>> M;    // back = outermost-top stack
static void same(StackStack& ss, const M& m, size_t sel){
	vp_check(ss.size() == m.size(), "number of stacks");
	for(size_t i = 0; i < m.size(); ++i){
		const auto& e = m[m.size() - 1 - i];
		vp_check(((const StackStack&)ss).at(i).size() == e.size(), "size of each stack");
		int ok = 1; for(size_t k = 0; k < e.size(); ++k) ok &= ss.at(i).get(k + 1) == e[e.size() - 1 - k];
		vp_check(ok, "each stack keeps its own cells");
	}
	vp_check(&ss.top() == &ss.at(sel), "top is the selected stack");
	if(sel + 1 < m.size()) vp_check(&ss.second() == &ss.at(sel + 1), "second is the one under it");
}
static void fill(StackStack& ss, M& m){
	int n = vp_choose("stacks", 1, 3); m.push_back({});
	for(int i = 0; i < n; ++i){
		if(i){ ss.push(); m.push_back({}); }
		int k = vp_choose("cells", 0, 2);
		for(int j = 0; j < k; ++j){ int64_t x = vp_i64("x"); ss.top().push(x); m.back().push_back(x); }
	}
}
extern "C" void h_ops(){
	StackStack* ss = new StackStack; M m; fill(*ss, m); size_t sel = 0;
	for(int k = 0; k < (VP_THOROUGH ? 4 : 3); ++k){
		switch(vp_choose("op", 0, 6)){
			case 0: ss->push(); m.push_back({}); break;
			case 1: if(m.size() < 2 || sel + 1 >= m.size()) vp_assume(0); ss->pop(); m.pop_back(); break;
			case 2: { size_t p = vp_choose("pos", 0, 2); if(p + sel > m.size()) vp_assume(0); ss->insert(p); m.insert(m.end() - p - sel, std::vector<int64_t>()); break; }
			case 3: { size_t p = vp_choose("pos", 1, 2); if(p + sel > m.size() || sel + 1 >= m.size()) vp_assume(0); ss->remove(p); m.erase(m.end() - p - sel); break; }
			case 4: { FungeError e = ss->increment(); vp_check((e == ERROR_NONE) == (sel > 0), "selection cannot rise above the top stack"); if(sel > 0) --sel; break; }
			case 5: { FungeError e = ss->decrement(); vp_check((e == ERROR_NONE) == (sel + 1 < m.size()), "selection cannot fall below the bottom stack"); if(sel + 1 < m.size()) ++sel; break; }
			default: { int64_t x = vp_i64("y"); ss->top().push(x); m[m.size() - 1 - sel].push_back(x); break; }
		}
	}
	same(*ss, m, sel); vp_reach("end"); vp_end();
}
extern "C" void h_clone(){
	StackStack* a = new StackStack; M m; fill(*a, m); size_t sel = vp_choose("sel", 0, m.size() - 1);
	for(size_t i = 0; i < sel; ++i) a->decrement();
	StackStack* b = new StackStack(*a); M n = m;
	same(*b, n, sel);
	int64_t x = vp_i64("x");
	if(vp_choose("who", 0, 1)){ a->top().push(x); m[m.size() - 1 - sel].push_back(x); } else { b->at(0).pop(); if(!n.back().empty()) n.back().pop_back(); }
	same(*a, m, sel); same(*b, n, sel);
	delete a; same(*b, n, sel);
	vp_reach("end"); vp_end();
}
