#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
SolverStats g_sstat;
unsigned g_solver_ms = 60000;
std::string g_cross_dir;
static Z3_context C;
static std::vector<Z3_ast> cache;
static std::vector<Z3_ast> symAst;
static Z3_solver SS;
static bool hasFp = false;
static void errh(Z3_context c, Z3_error_code e){ fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init(){
	if(C) return;
	Z3_config cfg = Z3_mk_config();
	C = Z3_mk_context(cfg);       // legacy reference management: ASTs live for the life of the process
	Z3_del_config(cfg);
	Z3_set_error_handler(C, errh);
}
static Z3_ast one1(){ static Z3_ast a = nullptr; if(!a) a = Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)); return a; }
static Z3_ast b2bv(Z3_ast b){ static Z3_ast z = nullptr; if(!z) z = Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1)); return Z3_mk_ite(C, b, one1(), z); }
static Z3_sort fsort(unsigned w){ return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast toF(Z3_ast a, unsigned w){ return Z3_mk_fpa_to_fp_bv(C, a, fsort(w)); }
static Z3_ast frF(Z3_ast a){ return Z3_mk_fpa_to_ieee_bv(C, a); }
static Z3_ast rne(){ return Z3_mk_fpa_rne(C); }
static Z3_ast mkAst1(Expr* e, Z3_ast* k){
	unsigned w = e->w;
	switch(e->op){
		case E_CONST: {
			if(w <= 64) return Z3_mk_unsigned_int64(C, (u64)e->c, Z3_mk_bv_sort(C, w));
			Z3_ast lo = Z3_mk_unsigned_int64(C, (u64)e->c, Z3_mk_bv_sort(C, 64));
			Z3_ast hi = Z3_mk_unsigned_int64(C, (u64)(e->c >> 64), Z3_mk_bv_sort(C, w - 64));
			return Z3_mk_concat(C, hi, lo); }
		case E_SYM: {
			char nm[32]; snprintf(nm, sizeof nm, "s%u", e->aux);
			Z3_ast a = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bv_sort(C, w));
			if(symAst.size() <= e->aux) symAst.resize(e->aux + 64, nullptr);
			symAst[e->aux] = a;
			return a; }
		case E_ADD: return Z3_mk_bvadd(C, k[0], k[1]);
		case E_SUB: return Z3_mk_bvsub(C, k[0], k[1]);
		case E_MUL: return Z3_mk_bvmul(C, k[0], k[1]);
		case E_UDIV: return Z3_mk_bvudiv(C, k[0], k[1]);
		case E_SDIV: return Z3_mk_bvsdiv(C, k[0], k[1]);
		case E_UREM: return Z3_mk_bvurem(C, k[0], k[1]);
		case E_SREM: return Z3_mk_bvsrem(C, k[0], k[1]);
		case E_AND: return Z3_mk_bvand(C, k[0], k[1]);
		case E_OR: return Z3_mk_bvor(C, k[0], k[1]);
		case E_XOR: return Z3_mk_bvxor(C, k[0], k[1]);
		case E_SHL: return Z3_mk_bvshl(C, k[0], k[1]);
		case E_LSHR: return Z3_mk_bvlshr(C, k[0], k[1]);
		case E_ASHR: return Z3_mk_bvashr(C, k[0], k[1]);
		case E_EQ: return b2bv(Z3_mk_eq(C, k[0], k[1]));
		case E_ULT: return b2bv(Z3_mk_bvult(C, k[0], k[1]));
		case E_ULE: return b2bv(Z3_mk_bvule(C, k[0], k[1]));
		case E_SLT: return b2bv(Z3_mk_bvslt(C, k[0], k[1]));
		case E_SLE: return b2bv(Z3_mk_bvsle(C, k[0], k[1]));
		case E_CONCAT: return Z3_mk_concat(C, k[0], k[1]);
		case E_EXTRACT: return Z3_mk_extract(C, e->aux + w - 1, e->aux, k[0]);
		case E_ZEXT: return Z3_mk_zero_ext(C, w - e->k[0]->w, k[0]);
		case E_SEXT: return Z3_mk_sign_ext(C, w - e->k[0]->w, k[0]);
		case E_ITE: return Z3_mk_ite(C, Z3_mk_eq(C, k[0], one1()), k[1], k[2]);
		default: break;
	}
	hasFp = true;
	unsigned wa = e->k[0]->w;
	switch(e->op){
		case E_FADD: return frF(Z3_mk_fpa_add(C, rne(), toF(k[0], wa), toF(k[1], wa)));
		case E_FSUB: return frF(Z3_mk_fpa_sub(C, rne(), toF(k[0], wa), toF(k[1], wa)));
		case E_FMUL: return frF(Z3_mk_fpa_mul(C, rne(), toF(k[0], wa), toF(k[1], wa)));
		case E_FDIV: return frF(Z3_mk_fpa_div(C, rne(), toF(k[0], wa), toF(k[1], wa)));
		case E_FSQRT: return frF(Z3_mk_fpa_sqrt(C, rne(), toF(k[0], wa)));
		case E_FRND: {
			Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(C) : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? Z3_mk_fpa_rtz(C) : e->aux == 3 ? Z3_mk_fpa_rna(C) : rne();
			return frF(Z3_mk_fpa_round_to_integral(C, rm, toF(k[0], wa))); }
		case E_FEQ: return b2bv(Z3_mk_fpa_eq(C, toF(k[0], wa), toF(k[1], wa)));
		case E_FLT: return b2bv(Z3_mk_fpa_lt(C, toF(k[0], wa), toF(k[1], wa)));
		case E_FLE: return b2bv(Z3_mk_fpa_leq(C, toF(k[0], wa), toF(k[1], wa)));
		case E_FUNO: { Z3_ast n[2] = {Z3_mk_fpa_is_nan(C, toF(k[0], wa)), Z3_mk_fpa_is_nan(C, toF(k[1], wa))}; return b2bv(Z3_mk_or(C, 2, n)); }
		case E_FPTOSI: case E_FPTOUI: {
			// x86-64: out of range and NaN give 0x80...0
			Z3_ast f = toF(k[0], wa);
			bool s = e->op == E_FPTOSI;
			Z3_ast v = s ? Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f, w) : Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), f, w);
			u64 lim = wa == 64 ? ((u64)(1023 + (s ? w-1 : w)) << 52) : ((u64)(127 + (s ? w-1 : w)) << 23);
			Z3_ast hi = toF(Z3_mk_unsigned_int64(C, lim, Z3_mk_bv_sort(C, wa)), wa);
			Z3_ast lo = s ? toF(Z3_mk_unsigned_int64(C, lim | ((u64)1 << (wa-1)), Z3_mk_bv_sort(C, wa)), wa)
			              : toF(Z3_mk_unsigned_int64(C, wa == 64 ? 0xBFF0000000000000ull : 0xBF800000ull, Z3_mk_bv_sort(C, wa)), wa);
			Z3_ast in[2] = {Z3_mk_fpa_lt(C, f, hi), s ? Z3_mk_fpa_geq(C, f, lo) : Z3_mk_fpa_gt(C, f, lo)};
			Z3_ast bad = Z3_mk_concat(C, one1(), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, w-1)));
			return Z3_mk_ite(C, Z3_mk_and(C, 2, in), v, bad); }
		case E_SITOFP: return frF(Z3_mk_fpa_to_fp_signed(C, rne(), k[0], fsort(w)));
		case E_UITOFP: return frF(Z3_mk_fpa_to_fp_unsigned(C, rne(), k[0], fsort(w)));
		case E_FPCVT: return frF(Z3_mk_fpa_to_fp_float(C, rne(), toF(k[0], wa), fsort(w)));
		case E_UF: {
			char nm[64]; snprintf(nm, sizeof nm, "uf%u_%u_%d", e->aux, e->w, e->nk);
			Z3_sort d[2] = {Z3_mk_bv_sort(C, e->k[0]->w), e->nk > 1 ? Z3_mk_bv_sort(C, e->k[1]->w) : nullptr};
			Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, nm), e->nk, d, Z3_mk_bv_sort(C, w));
			return Z3_mk_app(C, f, e->nk, k); }
		default: fprintf(stderr, "toZ3: bad op %d\n", e->op); abort();
	}
}
static Z3_ast toZ3(Expr* root){
	if(cache.size() <= exprCount()) cache.resize(exprCount() * 2 + 64, nullptr);
	if(cache[root->id]) return cache[root->id];
	std::vector<Expr*> st{root};
	while(!st.empty()){
		Expr* e = st.back();
		if(cache[e->id]){ st.pop_back(); continue; }
		bool ready = true;
		for(int i = 0; i < e->nk; i++) if(!cache[e->k[i]->id]){ st.push_back(e->k[i]); ready = false; }
		if(!ready) continue;
		Z3_ast k[3]; for(int i = 0; i < e->nk; i++) k[i] = cache[e->k[i]->id];
		cache[e->id] = mkAst1(e, k);
		st.pop_back();
	}
	return cache[root->id];
}

void slice(const std::vector<Expr*>& pcs, Expr* e, std::vector<Expr*>& out){
	std::vector<u32> cur = symsOf(e);
	std::vector<char> used(pcs.size(), 0);
	bool ch = true;
	while(ch){
		ch = false;
		for(size_t i = 0; i < pcs.size(); i++){
			if(used[i]) continue;
			const auto& s = symsOf(pcs[i]);
			bool hit = false;
			auto a = s.begin(); auto b = cur.begin();
			while(a != s.end() && b != cur.end()){ if(*a == *b){ hit = true; break; } if(*a < *b) ++a; else ++b; }
			if(hit){
				used[i] = 1; ch = true;
				std::vector<u32> r; std::set_union(cur.begin(), cur.end(), s.begin(), s.end(), std::back_inserter(r));
				cur.swap(r);
			}
		}
	}
	for(size_t i = 0; i < pcs.size(); i++) if(used[i]) out.push_back(pcs[i]);
}

struct QRes { SatRes r; std::vector<std::pair<u32,u128>> m; };
static std::unordered_map<std::string, QRes> qcache;

static u128 numeral(Z3_ast v, unsigned w){
	if(w <= 64){ uint64_t r = 0; if(Z3_get_numeral_uint64(C, v, &r)) return r; return 0; }
	const char* s = Z3_get_numeral_string(C, v);
	u128 r = 0; for(; *s; s++) r = r * 10 + (*s - '0');
	return r;
}

SatRes solve(const std::vector<Expr*>& cs0, const Model& base, Model& out){
	init();
	g_sstat.queries++;
	std::vector<Expr*> cs(cs0);
	std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b){ return a->id < b->id; });
	cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	std::string key;
	bool constFalse = false;
	for(auto c : cs){ if(isC(c) && !c->c) constFalse = true; key.append((const char*)&c->id, 4); }
	if(constFalse){ g_sstat.unsat++; return UNSAT; }
	auto it = qcache.find(key);
	if(it == qcache.end()){
		auto t0 = std::chrono::steady_clock::now();
		QRes q; q.r = UNKNOWN;
		hasFp = false;
		std::vector<Z3_ast> as;
		std::vector<u32> syms;
		for(auto c : cs){
			if(isC(c)) continue;
			as.push_back(Z3_mk_eq(C, toZ3(c), one1()));
			const auto& s = symsOf(c); std::vector<u32> r; std::set_union(syms.begin(), syms.end(), s.begin(), s.end(), std::back_inserter(r)); syms.swap(r);
		}
		Z3_lbool zr = Z3_L_UNDEF;
		for(int stage = 0; stage < 2 && zr == Z3_L_UNDEF; stage++){
			Z3_solver S;
			if(stage == 0) S = Z3_mk_simple_solver(C);
			else { Z3_tactic t = Z3_mk_tactic(C, "smt"); (void)t; S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BVFP")); 
				for(auto c : cs){ bool uf = false; (void)c; (void)uf; } if(!g_ufs.empty()) S = Z3_mk_solver(C); }
			Z3_solver_inc_ref(C, S);
			Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
			Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), stage == 0 ? std::min(g_solver_ms, 3000u) : g_solver_ms);
			Z3_solver_set_params(C, S, p);
			Z3_params_dec_ref(C, p);
			for(auto a : as) Z3_solver_assert(C, S, a);
			g_sstat.z3calls++;
			if(stage == 0 && !g_cross_dir.empty()){
				static u64 n = 0; char fn[600]; snprintf(fn, sizeof fn, "%s/q%d_%llu.smt2", g_cross_dir.c_str(), (int)getpid(), (unsigned long long)n++);
				FILE* f = fopen(fn, "w"); if(f){ fputs("(set-logic ALL)\n", f); fputs(Z3_solver_to_string(C, S), f); fputs("(check-sat)\n", f); fclose(f); }
			}
			zr = Z3_solver_check(C, S);
			if(zr == Z3_L_TRUE){
				Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
				for(u32 s : syms){
					Z3_ast v = nullptr;
					if(Z3_model_eval(C, m, symAst[s], true, &v) && v) q.m.push_back({s, numeral(v, g_syms[s].w)});
				}
				Z3_model_dec_ref(C, m);
			}
			Z3_solver_dec_ref(C, S);
		}
		q.r = zr == Z3_L_TRUE ? SAT : zr == Z3_L_FALSE ? UNSAT : UNKNOWN;
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		g_sstat.secs += dt; if(dt > g_sstat.maxsecs) g_sstat.maxsecs = dt;
		if(getenv("FSYM_SLOW") && dt > atof(getenv("FSYM_SLOW"))){ fprintf(stderr, "slow query %.2fs r=%d\n", dt, q.r); for(auto c : cs) fprintf(stderr, "   %s\n", exprStr(c, 12).c_str()); }
		it = qcache.emplace(key, std::move(q)).first;
	} else g_sstat.cachehits++;
	const QRes& q = it->second;
	if(q.r == SAT){ g_sstat.sat++; out = base; for(auto& p : q.m){ if(out.v.size() <= p.first) out.v.resize(p.first + 1, 0); out.v[p.first] = p.second; } }
	else if(q.r == UNSAT) g_sstat.unsat++; else g_sstat.unknown++;
	return q.r;
}
