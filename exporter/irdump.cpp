// Serialises an LLVM module (textual or bitcode) as JSON for the analyses in /verif/sa.
// No analysis happens here; the tool only resolves what needs LLVM itself: type layouts,
// GEP offsets, constant initialisers, demangled names, call attributes, debug locations.
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static const DataLayout * DL;
static DenseMap<const Value *, int> ids;

static json::Value ty(Type * t) {
	if(t->isVoidTy()) return "void";
	if(t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
	if(t->isPointerTy()) return "ptr";
	if(t->isFloatTy()) return "float";
	if(t->isDoubleTy()) return "double";
	if(t->isX86_FP80Ty()) return "fp80";
	if(auto s = dyn_cast<StructType>(t)) {
		json::Array f;
		if(!s->isOpaque()) {
			auto l = DL->getStructLayout(s);
			for(unsigned i = 0; i < s->getNumElements(); ++i) f.push_back(json::Array{(int64_t)(uint64_t)l->getElementOffset(i), ty(s->getElementType(i))});
			return json::Array{"s", std::move(f), (int64_t)(uint64_t)l->getSizeInBytes()};
		}
		return json::Array{"s", std::move(f), 0};
	}
	if(auto a = dyn_cast<ArrayType>(t)) return json::Array{"a", (int64_t)a->getNumElements(), ty(a->getElementType()), (int64_t)(uint64_t)DL->getTypeAllocSize(a->getElementType())};
	if(auto v = dyn_cast<FixedVectorType>(t)) return json::Array{"vec", (int64_t)v->getNumElements(), ty(v->getElementType()), (int64_t)(uint64_t)DL->getTypeAllocSize(v->getElementType())};
	return "other";
}

static int64_t store_size(Type * t) { return t->isSized() ? (int64_t)(uint64_t)DL->getTypeStoreSize(t).getKnownMinValue() : 0; }
static int64_t alloc_size(Type * t) { return t->isSized() ? (int64_t)(uint64_t)DL->getTypeAllocSize(t).getKnownMinValue() : 0; }

static std::string big(const APInt & v) { SmallString<32> s; v.toStringSigned(s); return std::string(s); }

static json::Value operand(const Value * v);
static json::Value constant(const Constant * c) {
	if(auto i = dyn_cast<ConstantInt>(c)) return json::Array{"i", (int64_t)i->getBitWidth(), big(i->getValue())};
	if(isa<ConstantPointerNull>(c)) return json::Array{"n"};
	if(isa<UndefValue>(c)) return json::Array{"u", ty(c->getType())};
	if(auto f = dyn_cast<Function>(c)) return json::Array{"f", f->getName()};
	if(auto g = dyn_cast<GlobalAlias>(c)) return operand(g->getAliaseeObject());
	if(auto g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName(), 0};
	if(auto z = dyn_cast<ConstantAggregateZero>(c)) return json::Array{"z", ty(z->getType()), alloc_size(z->getType())};
	if(auto a = dyn_cast<ConstantAggregate>(c)) {
		json::Array e;
		for(auto & o : a->operands()) e.push_back(constant(cast<Constant>(o)));
		return json::Array{"agg", ty(a->getType()), std::move(e)};
	}
	if(auto a = dyn_cast<ConstantDataSequential>(c)) {
		json::Array e;
		for(unsigned i = 0; i < a->getNumElements(); ++i) e.push_back(constant(a->getElementAsConstant(i)));
		return json::Array{"agg", ty(a->getType()), std::move(e)};
	}
	if(auto f = dyn_cast<ConstantFP>(c)) {
		SmallString<32> s;
		f->getValueAPF().toString(s);
		return json::Array{"fp", std::string(s)};
	}
	if(auto ce = dyn_cast<ConstantExpr>(c)) {
		if(auto g = dyn_cast<GEPOperator>(ce)) {
			APInt off(64, 0);
			if(g->accumulateConstantOffset(*DL, off)) {
				auto base = g->getPointerOperand();
				return json::Array{"g+", operand(base), big(off)};
			}
		}
		json::Array e;
		for(auto & o : ce->operands()) e.push_back(constant(cast<Constant>(o)));
		return json::Array{"ce", ce->getOpcodeName(), std::move(e), ty(ce->getType())};
	}
	return json::Array{"?", "const"};
}

static json::Value operand(const Value * v) {
	if(auto c = dyn_cast<Constant>(v)) return constant(c);
	auto it = ids.find(v);
	if(it != ids.end()) return json::Array{"v", it->second};
	if(isa<MetadataAsValue>(v)) return json::Array{"m"};
	return json::Array{"?", "value"};
}

static json::Array loc(const Instruction & i) {
	json::Array out;
	if(auto l = i.getDebugLoc()) {
		auto s = cast<DIScope>(l->getScope());
		out.push_back((int64_t)l->getLine());
		std::string f = s->getFilename().str();
		if(!f.empty() && f[0] != '/' && !s->getDirectory().empty()) f = s->getDirectory().str() + "/" + f;
		out.push_back(f);
	}
	return out;
}

int main(int argc, char ** argv) {
	LLVMContext ctx;
	SMDiagnostic err;
	if(argc < 3) return 2;
	auto m = parseIRFile(argv[1], err, ctx);
	if(!m) { err.print(argv[0], errs()); return 2; }
	DL = &m->getDataLayout();
	json::Object funcs, globals;
	for(auto & g : m->globals()) {
		json::Object o;
		o["const"] = g.isConstant();
		o["size"] = alloc_size(g.getValueType());
		o["type"] = ty(g.getValueType());
		o["dem"] = demangle(g.getName().str());
		o["tls"] = g.isThreadLocal();
		if(g.hasInitializer()) o["init"] = constant(g.getInitializer());
		globals[g.getName()] = std::move(o);
	}
	for(auto & f : *m) {
		json::Object o;
		o["dem"] = demangle(f.getName().str());
		o["nounwind"] = f.doesNotThrow();
		o["noreturn"] = f.doesNotReturn();
		o["ret"] = ty(f.getReturnType());
		o["vararg"] = f.isVarArg();
		if(auto sp = f.getSubprogram()) {
			o["line"] = (int64_t)sp->getLine();
			std::string fn = sp->getFilename().str();
			if(!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
			o["file"] = fn;
		}
		ids.clear();
		int next = 0;
		json::Array params;
		for(auto & a : f.args()) {
			ids[&a] = next++;
			json::Object p;
			p["ty"] = ty(a.getType());
			if(a.hasStructRetAttr()) { p["sret"] = true; p["size"] = alloc_size(a.getParamStructRetType()); }
			if(a.hasByValAttr()) { p["byval"] = true; p["size"] = alloc_size(a.getParamByValType()); }
			if(a.onlyReadsMemory()) p["readonly"] = true;
			params.push_back(std::move(p));
		}
		o["params"] = std::move(params);
		if(!f.isDeclaration()) {
			DenseMap<const BasicBlock *, int> bids;
			int nb = 0;
			for(auto & b : f) bids[&b] = nb++;
			for(auto & b : f) for(auto & i : b) ids[&i] = next++;
			json::Array blocks;
			for(auto & b : f) {
				json::Array insts;
				for(auto & i : b) {
					if(isa<DbgInfoIntrinsic>(i)) continue;
					json::Object x;
					x["op"] = i.getOpcodeName();
					x["id"] = ids[&i];
					x["ty"] = ty(i.getType());
					if(auto l = loc(i); !l.empty()) x["loc"] = std::move(l);
					if(auto p = dyn_cast<PHINode>(&i)) {
						json::Array in;
						for(unsigned k = 0; k < p->getNumIncomingValues(); ++k) in.push_back(json::Array{bids[p->getIncomingBlock(k)], operand(p->getIncomingValue(k))});
						x["in"] = std::move(in);
					} else if(auto c = dyn_cast<CallBase>(&i)) {
						x["callee"] = operand(c->getCalledOperand());
						json::Array args, at;
						for(unsigned k = 0; k < c->arg_size(); ++k) {
							args.push_back(operand(c->getArgOperand(k)));
							json::Object a;
							a["ty"] = ty(c->getArgOperand(k)->getType());
							if(c->isByValArgument(k)) { a["byval"] = alloc_size(c->getParamByValType(k)); }
							if(c->paramHasAttr(k, Attribute::StructRet)) a["sret"] = alloc_size(c->getParamStructRetType(k));
							if(auto al = c->getParamAlign(k)) a["align"] = (int64_t)al->value();
							at.push_back(std::move(a));
						}
						x["args"] = std::move(args);
						x["attrs"] = std::move(at);
						x["nounwind"] = c->doesNotThrow();
						if(auto iv = dyn_cast<InvokeInst>(c)) { x["normal"] = bids[iv->getNormalDest()]; x["unwind"] = bids[iv->getUnwindDest()]; }
					} else if(auto g = dyn_cast<GetElementPtrInst>(&i)) {
						x["base"] = operand(g->getPointerOperand());
						MapVector<Value *, APInt> var;
						APInt off(64, 0);
						cast<GEPOperator>(g)->collectOffset(*DL, 64, var, off);
						x["off"] = big(off);
						json::Array vs;
						for(auto & [v, s] : var) vs.push_back(json::Array{operand(v), big(s), (int64_t)v->getType()->getIntegerBitWidth()});
						x["var"] = std::move(vs);
						x["inbounds"] = g->isInBounds();
					} else if(auto l = dyn_cast<LandingPadInst>(&i)) {
						x["cleanup"] = l->isCleanup();
						json::Array cl;
						for(unsigned k = 0; k < l->getNumClauses(); ++k) cl.push_back(json::Array{l->isCatch(k) ? "catch" : "filter", constant(l->getClause(k))});
						x["clauses"] = std::move(cl);
					} else if(auto b = dyn_cast<BranchInst>(&i)) {
						json::Array s;
						for(unsigned k{0}; k < b->getNumSuccessors(); ++k) s.push_back(bids[b->getSuccessor(k)]);
						x["succ"] = std::move(s);
						if(b->isConditional()) x["cond"] = operand(b->getCondition());
					} else if(auto sw = dyn_cast<SwitchInst>(&i)) {
						x["cond"] = operand(sw->getCondition());
						x["default"] = bids[sw->getDefaultDest()];
						json::Array cs;
						for(auto & c : sw->cases()) cs.push_back(json::Array{big(c.getCaseValue()->getValue()), bids[c.getCaseSuccessor()]});
						x["cases"] = std::move(cs);
					} else {
						json::Array ops;
						for(auto & o2 : i.operands()) ops.push_back(operand(o2));
						x["ops"] = std::move(ops);
						if(auto a = dyn_cast<AllocaInst>(&i)) { x["size"] = alloc_size(a->getAllocatedType()); x["aty"] = ty(a->getAllocatedType()); x["align"] = (int64_t)a->getAlign().value(); x["name"] = a->getName(); }
						if(auto ld = dyn_cast<LoadInst>(&i)) { x["size"] = store_size(ld->getType()); x["vol"] = ld->isVolatile() || ld->isAtomic(); }
						if(auto st = dyn_cast<StoreInst>(&i)) { x["size"] = store_size(st->getValueOperand()->getType()); x["vty"] = ty(st->getValueOperand()->getType()); x["vol"] = st->isVolatile() || st->isAtomic(); }
						if(auto cm = dyn_cast<CmpInst>(&i)) { x["pred"] = CmpInst::getPredicateName(cm->getPredicate()); x["vty"] = ty(cm->getOperand(0)->getType()); }
						if(auto ev = dyn_cast<ExtractValueInst>(&i)) { json::Array ix; for(auto k : ev->indices()) ix.push_back((int64_t)k); x["idx"] = std::move(ix); }
						if(auto iv = dyn_cast<InsertValueInst>(&i)) { json::Array ix; for(auto k : iv->indices()) ix.push_back((int64_t)k); x["idx"] = std::move(ix); }
						if(auto cs = dyn_cast<CastInst>(&i)) x["src"] = ty(cs->getSrcTy());
						if(isa<OverflowingBinaryOperator>(i)) { x["nsw"] = i.hasNoSignedWrap(); x["nuw"] = i.hasNoUnsignedWrap(); }
					}
					insts.push_back(std::move(x));
				}
				blocks.push_back(std::move(insts));
			}
			o["blocks"] = std::move(blocks);
		}
		funcs[f.getName()] = std::move(o);
	}
	json::Array ctors;
	if(auto g = m->getGlobalVariable("llvm.global_ctors")) if(g->hasInitializer()) ctors.push_back(constant(g->getInitializer()));
	json::Object top;
	top["functions"] = std::move(funcs);
	top["globals"] = std::move(globals);
	top["ctors"] = std::move(ctors);
	std::error_code ec;
	raw_fd_ostream os(argv[2], ec);
	if(ec) return 2;
	os << json::Value(std::move(top));
	return 0;
}
