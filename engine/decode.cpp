// LLVM bitcode -> decoded instructions.
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
using namespace llvm;
static LLVMContext CTX;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, u64> gaddr;
extern Expr* UNDEF_MARK;
std::string hex(u64 v){ char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

static void flatten(Type* t, u32 off, std::vector<Leaf>& out){
	if(auto* st = dyn_cast<StructType>(t)){
		auto* sl = DL->getStructLayout(st);
		for(unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
	} else if(auto* at = dyn_cast<ArrayType>(t)){
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for(u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
	} else if(auto* vt = dyn_cast<FixedVectorType>(t)){
		u64 es = DL->getTypeAllocSize(vt->getElementType());
		for(u64 i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out);
	} else if(t->isVoidTy()){
	} else out.push_back({off, (u32)DL->getTypeSizeInBits(t).getFixedValue()});
}
static u32 nleaves(Type* t){ std::vector<Leaf> l; flatten(t, 0, l); return l.size(); }
static u32 widthOf(Type* t){ if(t->isVoidTy() || t->isAggregateType() || t->isVectorTy()) return 0; return DL->getTypeSizeInBits(t).getFixedValue(); }
static Val VE(u128 v, unsigned w){ if(w <= 64) return VC((u64)(v & maskw(w))); return Val{mkConst(v, w), 0}; }

static void constVals(const Constant* c, std::vector<Val>& out);
static u64 constInt(const Constant* c){ std::vector<Val> v; constVals(c, v); return v.empty() ? 0 : v[0].c; }
static void constVals(const Constant* c, std::vector<Val>& out){
	Type* t = c->getType();
	if(isa<UndefValue>(c)){ std::vector<Leaf> l; flatten(t, 0, l); for(auto& x : l) out.push_back(x.w <= 64 ? Val{UNDEF_MARK, 0} : Val{mkConst(0, x.w), 0}); return; }
	if(auto* ci = dyn_cast<ConstantInt>(c)){
		APInt a = ci->getValue(); u128 v = a.getRawData()[0]; if(a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
		out.push_back(VE(v, a.getBitWidth())); return; }
	if(auto* cf = dyn_cast<ConstantFP>(c)){ APInt a = cf->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if(a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; out.push_back(VE(v, a.getBitWidth())); return; }
	if(isa<ConstantPointerNull>(c)){ out.push_back(VC(0)); return; }
	if(isa<ConstantAggregateZero>(c)){ std::vector<Leaf> l; flatten(t, 0, l); for(auto& x : l) out.push_back(VE(0, x.w)); return; }
	if(auto* ca = dyn_cast<ConstantDataSequential>(c)){ for(unsigned i = 0; i < ca->getNumElements(); i++) constVals(ca->getElementAsConstant(i), out); return; }
	if(isa<ConstantAggregate>(c)){ for(unsigned i = 0; i < c->getNumOperands(); i++) constVals(cast<Constant>(c->getOperand(i)), out); return; }
	if(auto* ga = dyn_cast<GlobalAlias>(c)){ constVals(ga->getAliasee(), out); return; }
	if(auto* gv = dyn_cast<GlobalValue>(c)){ auto it = gaddr.find(gv); out.push_back(VC(it == gaddr.end() ? 0 : it->second)); return; }
	if(auto* ce = dyn_cast<ConstantExpr>(c)){
		unsigned w = widthOf(t);
		switch(ce->getOpcode()){
			case Instruction::GetElementPtr: {
				APInt off(64, 0); auto* g = cast<GEPOperator>(ce);
				if(!g->accumulateConstantOffset(*DL, off)){ errs() << "constexpr gep\n"; }
				out.push_back(VC(constInt(cast<Constant>(g->getPointerOperand())) + off.getSExtValue())); return; }
			case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::ZExt: case Instruction::Trunc:
				out.push_back(VE(constInt(ce->getOperand(0)), w)); return;
			case Instruction::Add: out.push_back(VE(constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)), w)); return;
			case Instruction::Sub: out.push_back(VE(constInt(ce->getOperand(0)) - constInt(ce->getOperand(1)), w)); return;
			case Instruction::ICmp: out.push_back(VC(cast<ConstantExpr>(ce)->getPredicate() == CmpInst::ICMP_NE ? constInt(ce->getOperand(0)) != constInt(ce->getOperand(1)) : constInt(ce->getOperand(0)) == constInt(ce->getOperand(1)))); return;
			default: break;
		}
	}
	errs() << "unsupported constant: " << *c << "\n";
	std::vector<Leaf> l; flatten(t, 0, l); for(auto& x : l) out.push_back(VE(0, x.w));
}
static void writeInit(Obj* o, u64 off, const Constant* c){
	Type* t = c->getType();
	if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if(auto* cd = dyn_cast<ConstantDataSequential>(c)){ if(cd->getElementType()->isIntegerTy()){ StringRef r = cd->getRawDataValues(); memcpy(&o->b[off], r.data(), r.size()); return; } }
	std::vector<Val> v; std::vector<Leaf> l; constVals(c, v); flatten(t, 0, l);
	for(size_t i = 0; i < l.size() && i < v.size(); i++){
		u128 x = v[i].e ? (v[i].e == UNDEF_MARK ? 0 : v[i].e->c) : v[i].c;
		memcpy(&o->b[off + l[i].off], &x, (l[i].w + 7) / 8);
	}
}

void Engine::load(const std::string& bc, State& init){
	SMDiagnostic err;
	M = parseIRFile(bc, err, CTX);
	if(!M){ err.print("fsym", errs()); exit(2); }
	DL = &M->getDataLayout();
	init.mem.next = 16;
	for(auto& f : *M){
		Func* fn = new Func; fn->name = f.getName().str(); fn->f = &f;
		fn->id = init.mem.alloc(16, OK_FUNC, false); init.mem.getW(fn->id)->ro = true;
		funcs.push_back(fn); fnByName[fn->name] = fn; fnById[fn->id] = fn; gaddr[&f] = objAddr(fn->id);
		auto h = hooks.find(fn->name); if(h != hooks.end()) fn->hook = &h->second;
		if(!fn->hook && fn->name.compare(0, 5, "llvm.") == 0){
			std::string n = fn->name;
			while(!fn->hook){ size_t p = n.rfind('.'); if(p == std::string::npos || p < 5) break; n = n.substr(0, p); auto q = hooks.find(n); if(q != hooks.end()) fn->hook = &q->second; }
		}
		fn->vararg = f.isVarArg();
	}
	for(auto& g : M->globals()){
		u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
		if(g.isDeclaration() && sz < 256) sz = 256;
		u64 id = init.mem.alloc(sz, OK_GLOBAL, false);
		gaddr[&g] = objAddr(id); globalAddr[g.getName().str()] = objAddr(id);
	}
	for(auto& g : M->globals()) if(g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.global_dtors"){
		Obj* o = init.mem.getW(addrObj(gaddr[&g]));
		writeInit(o, 0, g.getInitializer());
		if(g.isConstant()) o->ro = true;
	}
	if(auto* gc = M->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto* a = dyn_cast<ConstantArray>(gc->getInitializer())){
		for(unsigned i = 0; i < a->getNumOperands(); i++){
			auto* s = cast<ConstantStruct>(a->getOperand(i));
			auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts());
			if(f) ctors.push_back({(u32)cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fnByName[f->getName().str()]});
		}
		std::stable_sort(ctors.begin(), ctors.end(), [](auto& x, auto& y){ return x.first < y.first; });
	}
	// Undefined functions that no hook models.
	for(auto& f : *M) if(f.isDeclaration() && !f.isIntrinsic() && !fnByName[f.getName().str()]->hook && getenv("FSYM_UNDEF")) fprintf(stderr, "undefined: %s\n", f.getName().str().c_str());
}

std::string Engine::where(const DInst& i){
	if(!i.src) return "?";
	std::string r;
	if(auto l = i.src->getDebugLoc()){ if(auto* sc = dyn_cast_or_null<DIScope>(l.getScope())) r = sc->getFilename().str(); size_t p = r.find("/src/"); if(p != std::string::npos) r = r.substr(p + 1); r += ":" + std::to_string(l.getLine()); }
	return r + " (" + i.src->getFunction()->getName().str() + ")";
}
std::string Engine::fnFile(Func* f){
	if(auto* sp = f->f->getSubprogram()) return sp->getFilename().str();
	return "";
}

struct Dec {
	Engine& E; Func* F;
	std::unordered_map<const Value*, u32> slot;
	std::unordered_map<const Constant*, i32> cslot;
	std::unordered_map<const BasicBlock*, u32> bbpc;
	i32 operand(const Value* v){    // first slot of the value
		if(auto* c = dyn_cast<Constant>(v)){
			auto it = cslot.find(c); if(it != cslot.end()) return it->second;
			i32 r = ~(i32)F->consts.size(); size_t before = F->consts.size();
			constVals(c, F->consts);
			if(F->consts.size() == before) F->consts.push_back(VC(0));
			cslot[c] = r; return r;
		}
		if(isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return ~0;
		return slot.at(v);
	}
};
static i32 nth(i32 base, u32 i){ return base >= 0 ? base + (i32)i : ~(~base + (i32)i); }

void Engine::decode(Func* F){
	F->decoded = true;
	Function& f = *F->f;
	Dec D{*this, F, {}, {}, {}};
	u32 n = 0;
	F->consts.push_back(VC(0));
	for(auto& a : f.args()){ u32 k = nleaves(a.getType()); D.slot[&a] = n; F->argn.push_back(k); n += k; }
	F->nargs = n;
	F->retn = nleaves(f.getReturnType()); F->retw = widthOf(f.getReturnType());
	for(auto& bb : f) for(auto& i : bb){ D.slot[&i] = n; n += std::max(1u, nleaves(i.getType())); }
	F->nslots = n;
	std::vector<std::pair<u32, const BasicBlock*>> fix;      // edge index -> block
	auto edge = [&](const BasicBlock* from, const BasicBlock* to){
		Edge e; e.first = F->copies.size(); e.n = 0; e.target = 0;
		for(auto& p : to->phis()){
			const Value* v = p.getIncomingValueForBlock(from);
			F->copies.push_back({D.slot[&p], D.operand(v), std::max(1u, nleaves(p.getType()))}); e.n++;
		}
		fix.push_back({(u32)F->edges.size(), to});
		F->edges.push_back(e);
		return (u32)F->edges.size() - 1;
	};
	for(auto& bb : f){
		D.bbpc[&bb] = F->code.size();
		for(auto& in : bb){
			if(isa<PHINode>(in)) continue;
			DInst d; memset(&d, 0, sizeof d);
			d.src = &in; d.dst = D.slot[&in]; d.ops = F->ops.size(); d.op = D_BAD;
			Type* t = in.getType(); d.w = widthOf(t);
			auto push = [&](const Value* v){ F->ops.push_back(D.operand(v)); d.nops++; };
			if(auto* bo = dyn_cast<BinaryOperator>(&in)){
				push(bo->getOperand(0)); push(bo->getOperand(1));
				static const std::map<unsigned, Op> bm = {{Instruction::Add,E_ADD},{Instruction::Sub,E_SUB},{Instruction::Mul,E_MUL},{Instruction::UDiv,E_UDIV},{Instruction::SDiv,E_SDIV},{Instruction::URem,E_UREM},{Instruction::SRem,E_SREM},{Instruction::And,E_AND},{Instruction::Or,E_OR},{Instruction::Xor,E_XOR},{Instruction::Shl,E_SHL},{Instruction::LShr,E_LSHR},{Instruction::AShr,E_ASHR},{Instruction::FAdd,E_FADD},{Instruction::FSub,E_FSUB},{Instruction::FMul,E_FMUL},{Instruction::FDiv,E_FDIV}};
				auto it = bm.find(bo->getOpcode());
				if(it != bm.end() && d.w){ d.sub = it->second; d.op = d.sub >= E_FADD ? D_FP : D_BIN; }
			} else if(in.getOpcode() == Instruction::FNeg && d.w){ push(in.getOperand(0)); d.op = D_FP; d.sub = E_FNEG; }
			else if(auto* ic = dyn_cast<ICmpInst>(&in)){
				d.w2 = widthOf(ic->getOperand(0)->getType());
				push(ic->getOperand(0)); push(ic->getOperand(1)); d.sub = ic->getPredicate(); if(d.w2) d.op = D_ICMP;
			} else if(auto* fc = dyn_cast<FCmpInst>(&in)){
				d.w2 = widthOf(fc->getOperand(0)->getType()); push(fc->getOperand(0)); push(fc->getOperand(1)); d.sub = fc->getPredicate(); if(d.w2 == 32 || d.w2 == 64) d.op = D_FCMP;
			} else if(auto* ca = dyn_cast<CastInst>(&in)){
				push(ca->getOperand(0)); d.w2 = widthOf(ca->getOperand(0)->getType());
				if(d.w && d.w2) switch(ca->getOpcode()){
					case Instruction::Trunc: d.op = D_TRUNC; break;
					case Instruction::ZExt: d.op = D_ZEXT; break;
					case Instruction::SExt: d.op = D_SEXT; break;
					case Instruction::PtrToInt: case Instruction::IntToPtr: d.op = d.w > d.w2 ? D_ZEXT : d.w < d.w2 ? D_TRUNC : D_COPY; break;
					case Instruction::BitCast: d.op = D_COPY; break;
					case Instruction::FPToSI: d.op = D_FCONV; d.sub = E_FPTOSI; break;
					case Instruction::FPToUI: d.op = D_FCONV; d.sub = E_FPTOUI; break;
					case Instruction::SIToFP: d.op = D_FCONV; d.sub = E_SITOFP; break;
					case Instruction::UIToFP: d.op = D_FCONV; d.sub = E_UITOFP; break;
					case Instruction::FPExt: case Instruction::FPTrunc: d.op = (d.w > 64 || d.w2 > 64) ? D_BAD : D_FCONV; d.sub = E_FPCVT; break;
					default: break;
				}

			} else if(auto* al = dyn_cast<AllocaInst>(&in)){
				d.op = D_ALLOCA; d.imm = DL->getTypeAllocSize(al->getAllocatedType()); push(al->getArraySize()); d.w2 = widthOf(al->getArraySize()->getType());
				d.flags = isa<ConstantInt>(al->getArraySize()) ? 0 : 1;
			} else if(auto* ld = dyn_cast<LoadInst>(&in)){
				d.op = D_LOAD; push(ld->getPointerOperand()); d.flags = ld->isAtomic();
				if(!d.w){ d.leaves = new std::vector<Leaf>; flatten(t, 0, *d.leaves); }
			} else if(auto* st = dyn_cast<StoreInst>(&in)){
				d.op = D_STORE; push(st->getValueOperand()); push(st->getPointerOperand()); d.w = widthOf(st->getValueOperand()->getType()); d.flags = st->isAtomic();
				if(!d.w){ d.leaves = new std::vector<Leaf>; flatten(st->getValueOperand()->getType(), 0, *d.leaves); }
			} else if(auto* g = dyn_cast<GetElementPtrInst>(&in)){
				if(t->isPointerTy()){
				d.op = D_GEP; push(g->getPointerOperand());
				i64 off = 0; d.e0 = F->aux.size();
				for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it){
					if(auto* stt = it.getStructTypeOrNull()){ off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
					u64 sc = it.getSequentialElementStride(*DL);
					if(auto* ci = dyn_cast<ConstantInt>(it.getOperand())){ off += ci->getSExtValue() * (i64)sc; continue; }
					push(it.getOperand()); F->aux.push_back(sc); F->aux.push_back(widthOf(it.getOperand()->getType()));
				}
				d.imm = (u64)off; }
			} else if(auto* se = dyn_cast<SelectInst>(&in)){
				d.op = D_SELECT; push(se->getCondition()); push(se->getTrueValue()); push(se->getFalseValue());
				d.leaves = nullptr; if(!d.w){ d.leaves = new std::vector<Leaf>; flatten(t, 0, *d.leaves); }
			} else if(auto* br = dyn_cast<BranchInst>(&in)){
				if(br->isConditional()){ d.op = D_CBR; push(br->getCondition()); d.e0 = edge(&bb, br->getSuccessor(0)); d.e1 = edge(&bb, br->getSuccessor(1)); d.ops = F->ops.size() - 1; }
				else { d.op = D_BR; d.e0 = edge(&bb, br->getSuccessor(0)); }
			} else if(auto* sw = dyn_cast<SwitchInst>(&in)){
				d.op = D_SWITCH; push(sw->getCondition()); d.w2 = widthOf(sw->getCondition()->getType());
				d.e0 = edge(&bb, sw->getDefaultDest()); d.cases = new std::vector<std::pair<u128,u32>>;
				for(auto& c : sw->cases()) d.cases->push_back({c.getCaseValue()->getZExtValue(), edge(&bb, c.getCaseSuccessor())});
			} else if(auto* rt = dyn_cast<ReturnInst>(&in)){
				d.op = D_RET; if(rt->getReturnValue()) push(rt->getReturnValue());
			} else if(isa<UnreachableInst>(in)) d.op = D_UNREACH;
			else if(isa<ResumeInst>(in)){ d.op = D_RESUME; push(in.getOperand(0)); }
			else if(auto* lp = dyn_cast<LandingPadInst>(&in)){
				d.op = D_LPAD; d.lpad = new LPad; d.lpad->cleanup = lp->isCleanup(); d.lpad->catchAll = false;
				for(unsigned i = 0; i < lp->getNumClauses(); i++){
					if(!lp->isCatch(i)) continue;       // filters: never used by C++17
					Constant* c = lp->getClause(i);
					if(c->isNullValue()){ d.lpad->catchAll = true; d.lpad->catches.push_back(0); } else d.lpad->catches.push_back(constInt(c));
				}
			} else if(auto* ev = dyn_cast<ExtractValueInst>(&in)){
				d.op = D_EXTRACTV; Type* at = ev->getAggregateOperand()->getType(); u32 idx = 0;
				for(unsigned i : ev->indices()){ for(unsigned k = 0; k < i; k++) idx += nleaves(at->isStructTy() ? at->getStructElementType(k) : at->getArrayElementType()); at = at->isStructTy() ? at->getStructElementType(i) : at->getArrayElementType(); }
				push(ev->getAggregateOperand()); d.imm = idx; d.e0 = nleaves(t);
			} else if(auto* iv = dyn_cast<InsertValueInst>(&in)){
				d.op = D_INSERTV; Type* at = t; u32 idx = 0;
				for(unsigned i : iv->indices()){ for(unsigned k = 0; k < i; k++) idx += nleaves(at->isStructTy() ? at->getStructElementType(k) : at->getArrayElementType()); at = at->isStructTy() ? at->getStructElementType(i) : at->getArrayElementType(); }
				push(iv->getAggregateOperand()); push(iv->getInsertedValueOperand()); d.imm = idx; d.e0 = nleaves(t); d.e1 = nleaves(at);
			} else if(auto* ee = dyn_cast<ExtractElementInst>(&in)){
				if(auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())){ d.op = D_EXTRACTV; push(ee->getVectorOperand()); d.imm = ci->getZExtValue(); d.e0 = 1; }
			} else if(auto* ie = dyn_cast<InsertElementInst>(&in)){
				if(auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))){ d.op = D_INSERTV; push(ie->getOperand(0)); push(ie->getOperand(1)); d.imm = ci->getZExtValue(); d.e0 = nleaves(t); d.e1 = 1; }
			} else if(auto* rm = dyn_cast<AtomicRMWInst>(&in)){
				d.op = D_RMW; push(rm->getPointerOperand()); push(rm->getValOperand()); d.sub = rm->getOperation();
			} else if(auto* cx = dyn_cast<AtomicCmpXchgInst>(&in)){
				d.op = D_CMPXCHG; push(cx->getPointerOperand()); push(cx->getCompareOperand()); push(cx->getNewValOperand()); d.w = widthOf(cx->getCompareOperand()->getType());
			} else if(isa<FenceInst>(in)) d.op = D_NOP;
			else if(isa<FreezeInst>(in)){ d.op = d.w ? D_COPY : D_BAD; push(in.getOperand(0)); }
			else if(auto* cb = dyn_cast<CallBase>(&in)){
				auto* callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
				StringRef nm = callee ? callee->getName() : "";
				if(isa<DbgInfoIntrinsic>(in) || nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.invariant") || nm.starts_with("llvm.stackrestore") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.va_end") || nm.starts_with("llvm.donothing")) continue;
				d.op = D_CALL; d.flags = 0;
				F->ops.push_back(callee ? ~0 : D.operand(cb->getCalledOperand())); d.nops++;
								d.leaves = new std::vector<Leaf>;    // argument widths
				std::vector<i32> args;
				for(auto& a : cb->args()){
					std::vector<Leaf> l; flatten(a->getType()->isMetadataTy() ? Type::getInt64Ty(CTX) : a->getType(), 0, l);
					i32 b = a->getType()->isMetadataTy() ? ~0 : D.operand(a.get());
					for(u32 k = 0; k < l.size(); k++){ F->ops.push_back(nth(b, k)); d.nops++; d.leaves->push_back({(u32)(cb->paramHasAttr(cb->getArgOperandNo(&a), Attribute::ByVal) ? DL->getTypeAllocSize(cb->getParamByValType(cb->getArgOperandNo(&a))) : 0), l[k].w}); }
				}
				if(callee){ d.callee = fnByName[callee->getName().str()]; }
				d.imm = nleaves(t);
				if(auto* iv = dyn_cast<InvokeInst>(&in)){ d.flags |= 1; d.e0 = edge(&bb, iv->getNormalDest()); d.e1 = edge(&bb, iv->getUnwindDest()); }
			}
			F->code.push_back(d);
		}
	}
	for(auto& p : fix) F->edges[p.first].target = D.bbpc[p.second];
}
