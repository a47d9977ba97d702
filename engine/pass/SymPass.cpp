// LLVM pass: instruments every function of a module so that a symbolic shadow expression is computed alongside each
// SSA value.  A null shadow means "concrete".  The runtime (engine/rt) builds expressions, forks paths, calls Z3.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <dlfcn.h>
#include <set>
#include <string>
#include <unordered_map>
#include <cstdlib>
#include "../rt/ops.h"

using namespace llvm;

namespace {

// External functions redirected to instrumented models "vpm_<name>" (same prototype): generated from engine/rt/models.cpp
const char* const MODELS[] = {
#include "models.inc"
};
// varargs functions: fixed args, then an array of 64-bit values and a count
const char* const VAMODELS[] = { "snprintf", "sprintf", "sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "printf", "fprintf" };

// natives that may be handed pointers to symbolic memory harmlessly
const char* const HARMLESS[] = {
	"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "__cxa_throw", "__cxa_free_exception", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_rethrow",
	"__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "_ZNSt6localeC1Ev", "_ZNSt6localeC1ERKS_", "_ZNSt6localeD1Ev",
	"_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
	"_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
	"_ZNSt8__detail15_List_node_base7_M_hookEPS0_", "_ZNSt8__detail15_List_node_base9_M_unhookEv", "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_",
	"_ZNSt8__detail15_List_node_base10_M_reverseEv", "_ZNSt8__detail15_List_node_base4swapERS0_S1_",
};

std::set<std::string> models, vamodels, harmless;

struct Inst
{
	Module& M;
	LLVMContext& C;
	const DataLayout& DL;
	Type *voidTy, *i1Ty, *i8Ty, *i32Ty, *i64Ty;
	PointerType* ptrTy;
	Constant* nullE;
	GlobalVariable *gArgs, *gRets, *gCallee, *gRetfn;
	std::unordered_map<Value*, SmallVector<Value*, 2>> sh;

	Inst (Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout())
	{
		voidTy = Type::getVoidTy(C); i1Ty = Type::getInt1Ty(C); i8Ty = Type::getInt8Ty(C);
		i32Ty = Type::getInt32Ty(C); i64Ty = Type::getInt64Ty(C); ptrTy = PointerType::get(C, 0);
		nullE = ConstantPointerNull::get(ptrTy);
		auto g = [&](const char* n, Type* t) {
			auto v = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
			v->setDSOLocal(true);
			return v;
		};
		gArgs = g("__sym_args", ArrayType::get(ptrTy, 256));
		gRets = g("__sym_rets", ArrayType::get(ptrTy, 64));
		gCallee = g("__sym_callee", ptrTy);
		gRetfn = g("__sym_retfn", ptrTy);
	}

	FunctionCallee rt (const char* name, Type* ret, ArrayRef<Type*> args)
	{
		auto fc = M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
		if (auto f = dyn_cast<Function>(fc.getCallee())) { f->setDoesNotThrow(); }
		return fc;
	}

	static bool scalar (Type* t) { return !t->isStructTy() && !t->isArrayTy(); }

	unsigned leaves (Type* t)
	{
		if (auto s = dyn_cast<StructType>(t)) {
			unsigned n = 0;
			for (auto e: s->elements()) n += leaves(e);
			return n;
		}
		if (auto a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType());
		if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return 0;
		return 1;
	}

	unsigned leafOffset (Type* t, ArrayRef<unsigned> idx)
	{
		unsigned off = 0;
		for (auto i: idx) {
			if (auto s = dyn_cast<StructType>(t)) {
				for (unsigned k = 0; k < i; ++k) off += leaves(s->getElementType(k));
				t = s->getElementType(i);
			} else {
				auto a = cast<ArrayType>(t);
				off += i * leaves(a->getElementType());
				t = a->getElementType();
			}
		}
		return off;
	}

	Value* shadow (Value* v, unsigned leaf = 0)
	{
		auto i = sh.find(v);
		if (i == sh.end() || leaf >= i->second.size() || !i->second[leaf]) return nullE;
		return i->second[leaf];
	}
	bool isNull (Value* s) { return s == nullE; }
	void setShadow (Value* v, Value* s, unsigned leaf = 0)
	{
		auto& x = sh[v];
		if (x.size() <= leaf) x.resize(std::max(leaf + 1, leaves(v->getType())), nullE);
		x[leaf] = s;
	}

	unsigned bits (Type* t)
	{
		if (t->isPointerTy()) return 64;
		return DL.getTypeSizeInBits(t).getFixedValue();
	}

	// concrete value of v as i64 (0 if it does not fit)
	Value* conc (IRBuilder<>& B, Value* v)
	{
		Type* t = v->getType();
		if (t->isPointerTy()) return B.CreatePtrToInt(v, i64Ty);
		unsigned b = bits(t);
		if (t->isX86_FP80Ty() || b > 64) return ConstantInt::get(i64Ty, 0);
		if (!t->isIntegerTy()) {
			if (auto vt = dyn_cast<VectorType>(t)) if (vt->getElementType()->isPointerTy()) return ConstantInt::get(i64Ty, 0);
			v = B.CreateBitCast(v, IntegerType::get(C, b));
		}
		return B.CreateZExtOrTrunc(v, i64Ty);
	}
	Value* c32 (unsigned x) { return ConstantInt::get(i32Ty, x); }

	// Run `build` only when any shadow in s is non-null; result shadow (or null)
	template <class F>
	Value* guarded (Instruction* before, ArrayRef<Value*> s, F build)
	{
		IRBuilder<> B(before);
		Value* any = nullptr;
		for (auto x: s) {
			if (isNull(x)) continue;
			Value* p = B.CreatePtrToInt(x, i64Ty);
			any = any ? B.CreateOr(any, p) : p;
		}
		if (!any) return nullE;
		Value* cond = B.CreateICmpNE(any, ConstantInt::get(i64Ty, 0));
		MDNode* w = MDBuilder(C).createBranchWeights(1, 10000);
		BasicBlock* head = before->getParent();
		Instruction* then = SplitBlockAndInsertIfThen(cond, before, false, w);
		IRBuilder<> T(then);
		Value* r = build(T);
		if (!r) return nullE;
		PHINode* phi = PHINode::Create(ptrTy, 2, "", &*before->getParent()->begin());
		phi->addIncoming(nullE, head);
		phi->addIncoming(r, then->getParent());
		return phi;
	}
	template <class F>
	void guardedVoid (Instruction* before, ArrayRef<Value*> s, F build)
	{
		guarded(before, s, [&](IRBuilder<>& B) -> Value* { build(B); return nullptr; });
	}

	Value* rtBin (IRBuilder<>& B, unsigned op, unsigned w, Value* a, Value* b)
	{
		return B.CreateCall(rt("__sym_bin", ptrTy, {i32Ty, i32Ty, ptrTy, i64Ty, ptrTy, i64Ty}),
				    {c32(op), c32(w), shadow(a), conc(B, a), shadow(b), conc(B, b)});
	}

	unsigned newSite () { static unsigned n = 0; return ++n; }

	std::string siteName (Instruction* I)
	{
		return I->getFunction()->getName().str();
	}

	int binOp (unsigned opc)
	{
		switch (opc) {
		case Instruction::Add: return OP_ADD; case Instruction::Sub: return OP_SUB; case Instruction::Mul: return OP_MUL;
		case Instruction::UDiv: return OP_UDIV; case Instruction::SDiv: return OP_SDIV; case Instruction::URem: return OP_UREM; case Instruction::SRem: return OP_SREM;
		case Instruction::Shl: return OP_SHL; case Instruction::LShr: return OP_LSHR; case Instruction::AShr: return OP_ASHR;
		case Instruction::And: return OP_AND; case Instruction::Or: return OP_OR; case Instruction::Xor: return OP_XOR;
		case Instruction::FAdd: return OP_FADD; case Instruction::FSub: return OP_FSUB; case Instruction::FMul: return OP_FMUL;
		case Instruction::FDiv: return OP_FDIV; case Instruction::FRem: return OP_FREM;
		}
		return -1;
	}
	int icmpOp (CmpInst::Predicate p)
	{
		switch (p) {
		case CmpInst::ICMP_EQ: return OP_EQ; case CmpInst::ICMP_NE: return OP_NE;
		case CmpInst::ICMP_UGT: return OP_UGT; case CmpInst::ICMP_UGE: return OP_UGE; case CmpInst::ICMP_ULT: return OP_ULT; case CmpInst::ICMP_ULE: return OP_ULE;
		case CmpInst::ICMP_SGT: return OP_SGT; case CmpInst::ICMP_SGE: return OP_SGE; case CmpInst::ICMP_SLT: return OP_SLT; case CmpInst::ICMP_SLE: return OP_SLE;
		default: return -1;
		}
	}
	int fcmpOp (CmpInst::Predicate p)
	{
		switch (p) {
		case CmpInst::FCMP_OEQ: return OP_FOEQ; case CmpInst::FCMP_OGT: return OP_FOGT; case CmpInst::FCMP_OGE: return OP_FOGE;
		case CmpInst::FCMP_OLT: return OP_FOLT; case CmpInst::FCMP_OLE: return OP_FOLE; case CmpInst::FCMP_ONE: return OP_FONE; case CmpInst::FCMP_ORD: return OP_FORD;
		case CmpInst::FCMP_UNO: return OP_FUNO; case CmpInst::FCMP_UEQ: return OP_FUEQ; case CmpInst::FCMP_UGT: return OP_FUGT; case CmpInst::FCMP_UGE: return OP_FUGE;
		case CmpInst::FCMP_ULT: return OP_FULT; case CmpInst::FCMP_ULE: return OP_FULE; case CmpInst::FCMP_UNE: return OP_FUNE;
		default: return -1;
		}
	}

	bool supportedScalar (Type* t)
	{
		return (t->isIntegerTy() && bits(t) <= 128) || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy();
	}
	bool vecOk (Type* t)
	{
		auto v = dyn_cast<FixedVectorType>(t);
		return v && bits(t) <= 128 && (v->getElementType()->isIntegerTy() || v->getElementType()->isFloatTy() || v->getElementType()->isDoubleTy() || v->getElementType()->isPointerTy()) ;
	}

	void lost (Instruction* I, ArrayRef<Value*> s)
	{
		guardedVoid(I, s, [&](IRBuilder<>& B) {
			B.CreateCall(rt("__sym_lost", voidTy, {ptrTy}), {B.CreateGlobalStringPtr(std::string(I->getOpcodeName()) + " in " + siteName(I))});
		});
	}
	void lostOperands (Instruction* I)
	{
		SmallVector<Value*, 4> s;
		for (auto& op: I->operands()) {
			auto i = sh.find(op.get());
			if (i == sh.end()) continue;
			for (auto x: i->second) if (x && !isNull(x)) s.push_back(x);
		}
		if (!s.empty()) lost(I, s);
	}

	// ---- function ----
	std::vector<std::pair<PHINode*, std::vector<PHINode*>>> phis;

	void function (Function& F)
	{
		sh.clear();
		phis.clear();
		std::vector<Instruction*> insts;
		// static allocas first, so that one place dominates them all
		{
			BasicBlock& en = F.getEntryBlock();
			std::vector<AllocaInst*> al;
			for (auto& I: en) if (auto a = dyn_cast<AllocaInst>(&I)) if (isa<ConstantInt>(a->getArraySize())) al.push_back(a);
			Instruction* at = &*en.getFirstInsertionPt();
			for (auto a: al) { if (a == at) { at = at->getNextNode(); continue; } a->moveBefore(at); }
		}
		ReversePostOrderTraversal<Function*> rpot(&F);
		for (auto BB: rpot) for (auto& I: *BB) insts.push_back(&I);

		// shadow phis
		for (auto I: insts) {
			if (auto p = dyn_cast<PHINode>(I)) {
				unsigned n = leaves(p->getType());
				std::vector<PHINode*> v;
				for (unsigned k = 0; k < n; ++k) {
					auto q = PHINode::Create(ptrTy, p->getNumIncomingValues(), "", p);
					for (unsigned j = 0; j < p->getNumIncomingValues(); ++j) q->addIncoming(nullE, p->getIncomingBlock(j));
					v.push_back(q);
					setShadow(p, q, k);
				}
				phis.push_back({p, v});
			}
		}

		// prologue
		BasicBlock& entry = F.getEntryBlock();
		auto ip = entry.getFirstInsertionPt();
		while (isa<AllocaInst>(&*ip)) ++ip;
		Instruction* first = &*ip;
		{
			IRBuilder<> B(first);
			Value* callee = B.CreateLoad(ptrTy, gCallee);
			B.CreateStore(nullE, gCallee);
			unsigned total = 0;
			for (auto& A: F.args()) total += leaves(A.getType());
			if (total > 0 && !F.isVarArg()) {
				Value* match = B.CreateICmpEQ(callee, &F);
				unsigned off = 0;
				for (auto& A: F.args()) {
					unsigned n = leaves(A.getType());
					if (A.hasByValAttr()) {
						// slot holds the address the bytes were copied from
						Value* src = B.CreateSelect(match, B.CreateLoad(ptrTy, B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), gArgs, 0, off)), nullE);
						B.CreateCall(rt("__sym_byval", voidTy, {ptrTy, ptrTy, i64Ty}), {&A, src, ConstantInt::get(i64Ty, DL.getTypeAllocSize(A.getParamByValType()))});
						off += n;
						continue;
					}
					for (unsigned k = 0; k < n; ++k, ++off) {
						if (off >= 250) continue;
						Value* l = B.CreateLoad(ptrTy, B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), gArgs, 0, off));
						setShadow(&A, B.CreateSelect(match, l, nullE), k);
					}
				}
			}
			// stale shadows under fresh stack objects
			for (auto& I: entry) {
				if (auto a = dyn_cast<AllocaInst>(&I)) {
					if (a->isStaticAlloca() && a->getAllocationSize(DL))
						B.CreateCall(rt("__sym_clear", voidTy, {ptrTy, i64Ty}), {a, ConstantInt::get(i64Ty, a->getAllocationSize(DL)->getFixedValue())});
				}
			}
		}

		for (auto I: insts) visit(I);

		for (auto& p: phis) {
			for (unsigned j = 0; j < p.first->getNumIncomingValues(); ++j) {
				BasicBlock* bb = p.first->getIncomingBlock(j);
				for (unsigned k = 0; k < p.second.size(); ++k) {
					p.second[k]->setIncomingValue(j, shadow(p.first->getIncomingValue(j), k));
					p.second[k]->setIncomingBlock(j, bb);
				}
			}
		}
	}

	// concretise a symbolic pointer-valued operand used as an address, where it cannot be turned into an ITE
	void concretize (Instruction* before, Value* v)
	{
		Value* s = shadow(v);
		if (isNull(s)) return;
		std::string site = siteName(before);
		guardedVoid(before, {s}, [&](IRBuilder<>& B) {
			B.CreateCall(rt("__sym_concretize", voidTy, {ptrTy, ptrTy}), {s, B.CreateGlobalStringPtr(site)});
		});
	}

	void visit (Instruction* I)
	{
		if (auto p = dyn_cast<BinaryOperator>(I)) {
			Type* t = p->getType();
			Value *a = p->getOperand(0), *b = p->getOperand(1);
			int op = binOp(p->getOpcode());
			if (!supportedScalar(t) || op < 0 || bits(t) > 64) {
				if (vecOk(t) && (op == OP_AND || op == OP_OR || op == OP_XOR) && bits(t) <= 64) {
					setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) { return rtBin(B, op, bits(t), a, b); }));
				} else lostOperands(I);
				return;
			}
			setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) { return rtBin(B, op, bits(t), a, b); }));
		} else if (auto u = dyn_cast<UnaryOperator>(I)) {
			Value* a = u->getOperand(0);
			if (!supportedScalar(u->getType())) { lostOperands(I); return; }
			setShadow(I, guarded(I, {shadow(a)}, [&](IRBuilder<>& B) {
				return B.CreateCall(rt("__sym_cast", ptrTy, {i32Ty, i32Ty, i32Ty, ptrTy}), {c32(OP_FNEG), c32(bits(a->getType())), c32(bits(a->getType())), shadow(a)});
			}));
		} else if (auto c = dyn_cast<CmpInst>(I)) {
			Value *a = c->getOperand(0), *b = c->getOperand(1);
			if (!supportedScalar(a->getType()) || bits(a->getType()) > 64) { lostOperands(I); return; }
			int op = isa<ICmpInst>(c) ? icmpOp(c->getPredicate()) : fcmpOp(c->getPredicate());
			if (op < 0) { lostOperands(I); return; }
			setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) { return rtBin(B, op, bits(a->getType()), a, b); }));
		} else if (auto s = dyn_cast<SelectInst>(I)) {
			visitSelect(s);
		} else if (auto c = dyn_cast<CastInst>(I)) {
			visitCast(c);
		} else if (isa<PHINode>(I)) {
		} else if (auto l = dyn_cast<LoadInst>(I)) {
			visitLoad(l);
		} else if (auto s = dyn_cast<StoreInst>(I)) {
			visitStore(s);
		} else if (auto g = dyn_cast<GetElementPtrInst>(I)) {
			visitGEP(g);
		} else if (auto a = dyn_cast<AllocaInst>(I)) {
			concretize(I, a->getArraySize());
		} else if (auto b = dyn_cast<BranchInst>(I)) {
			if (!b->isConditional()) return;
			Value* s = shadow(b->getCondition());
			if (isNull(s)) return;
			std::string site = siteName(I);
			Value* cond = b->getCondition();
			guardedVoid(I, {s}, [&](IRBuilder<>& B) {
				B.CreateCall(rt("__sym_branch", voidTy, {ptrTy, i32Ty, ptrTy}), {s, B.CreateZExt(cond, i32Ty), B.CreateGlobalStringPtr(site)});
			});
		} else if (auto sw = dyn_cast<SwitchInst>(I)) {
			visitSwitch(sw);
		} else if (auto cb = dyn_cast<CallBase>(I)) {
			visitCall(cb);
		} else if (auto r = dyn_cast<ReturnInst>(I)) {
			Value* v = r->getReturnValue();
			IRBuilder<> B(I);
			if (v && leaves(v->getType()) > 0) {
				unsigned n = leaves(v->getType());
				for (unsigned k = 0; k < n && k < 60; ++k) {
					B.CreateStore(shadow(v, k), B.CreateConstInBoundsGEP2_32(gRets->getValueType(), gRets, 0, k));
				}
				B.CreateStore(I->getFunction(), gRetfn);
			}
		} else if (auto e = dyn_cast<ExtractValueInst>(I)) {
			unsigned off = leafOffset(e->getAggregateOperand()->getType(), e->getIndices());
			for (unsigned k = 0; k < leaves(e->getType()); ++k) setShadow(I, shadow(e->getAggregateOperand(), off + k), k);
		} else if (auto iv = dyn_cast<InsertValueInst>(I)) {
			unsigned off = leafOffset(iv->getType(), iv->getIndices());
			unsigned n = leaves(iv->getType()), m = leaves(iv->getInsertedValueOperand()->getType());
			for (unsigned k = 0; k < n; ++k) {
				if (k >= off && k < off + m) setShadow(I, shadow(iv->getInsertedValueOperand(), k - off), k);
				else setShadow(I, shadow(iv->getAggregateOperand(), k), k);
			}
		} else if (auto ee = dyn_cast<ExtractElementInst>(I)) {
			auto idx = dyn_cast<ConstantInt>(ee->getIndexOperand());
			Value* v = ee->getVectorOperand();
			if (!idx || !vecOk(v->getType())) { lostOperands(I); return; }
			unsigned eb = bits(cast<VectorType>(v->getType())->getElementType());
			unsigned lo = idx->getZExtValue() * eb;
			setShadow(I, guarded(I, {shadow(v)}, [&](IRBuilder<>& B) {
				return B.CreateCall(rt("__sym_extract", ptrTy, {ptrTy, i32Ty, i32Ty}), {shadow(v), c32(lo), c32(eb)});
			}));
		} else if (auto ie = dyn_cast<InsertElementInst>(I)) {
			auto idx = dyn_cast<ConstantInt>(ie->getOperand(2));
			Value *v = ie->getOperand(0), *x = ie->getOperand(1);
			if (!idx || !vecOk(v->getType())) { lostOperands(I); return; }
			unsigned eb = bits(x->getType());
			if (bits(v->getType()) <= 64) {
				Value* fv = v;
				setShadow(I, guarded(I, {shadow(v), shadow(x)}, [&](IRBuilder<>& B) {
					Value* cv = conc(B, isa<UndefValue>(fv) ? Constant::getNullValue(fv->getType()) : fv);
					return B.CreateCall(rt("__sym_insert", ptrTy, {ptrTy, i64Ty, i64Ty, i32Ty, ptrTy, i64Ty, i32Ty, i32Ty}),
						{shadow(v), cv, ConstantInt::get(i64Ty, 0), c32(bits(v->getType())), shadow(x), conc(B, x), c32(idx->getZExtValue() * eb), c32(eb)});
				}));
			} else {
				setShadow(I, guarded(I, {shadow(v), shadow(x)}, [&](IRBuilder<>& B) {
					Value* z = isa<UndefValue>(v) ? Constant::getNullValue(v->getType()) : v;
					if (cast<VectorType>(v->getType())->getElementType()->isPointerTy()) z = Constant::getNullValue(IntegerType::get(C, 128));
					else z = B.CreateBitCast(z, IntegerType::get(C, 128));
					Value* lo = B.CreateTrunc(z, i64Ty);
					Value* hi = B.CreateTrunc(B.CreateLShr(z, 64), i64Ty);
					return B.CreateCall(rt("__sym_insert", ptrTy, {ptrTy, i64Ty, i64Ty, i32Ty, ptrTy, i64Ty, i32Ty, i32Ty}),
						{shadow(v), lo, hi, c32(bits(v->getType())), shadow(x), conc(B, x), c32(idx->getZExtValue() * eb), c32(eb)});
				}));
			}
		} else if (auto sv = dyn_cast<ShuffleVectorInst>(I)) {
			Value *a = sv->getOperand(0), *b = sv->getOperand(1);
			if (!vecOk(a->getType()) || !vecOk(sv->getType()) || !isNull(shadow(b)) || bits(sv->getType()) > 128) { lostOperands(I); return; }
			// result = concat of extracted elements of a (b concrete/undef only)
			unsigned eb = bits(cast<VectorType>(a->getType())->getElementType());
			unsigned n = cast<FixedVectorType>(a->getType())->getNumElements();
			for (int m: sv->getShuffleMask()) if (m >= (int) n && !isa<UndefValue>(b)) { lostOperands(I); return; }
			setShadow(I, guarded(I, {shadow(a)}, [&](IRBuilder<>& B) {
				Value* r = nullE;
				unsigned pos = 0;
				for (int m: sv->getShuffleMask()) {
					Value* e = m >= 0 && m < (int) n ? (Value*) B.CreateCall(rt("__sym_extract", ptrTy, {ptrTy, i32Ty, i32Ty}), {shadow(a), c32(m * eb), c32(eb)}) : (Value*) nullE;
					r = B.CreateCall(rt("__sym_insert", ptrTy, {ptrTy, i64Ty, i64Ty, i32Ty, ptrTy, i64Ty, i32Ty, i32Ty}),
						{r, ConstantInt::get(i64Ty, 0), ConstantInt::get(i64Ty, 0), c32(bits(sv->getType())), e, ConstantInt::get(i64Ty, 0), c32(pos), c32(eb)});
					pos += eb;
				}
				return r;
			}));
		} else if (auto f = dyn_cast<FreezeInst>(I)) {
			for (unsigned k = 0; k < leaves(f->getType()); ++k) setShadow(I, shadow(f->getOperand(0), k), k);
		} else if (auto rmw = dyn_cast<AtomicRMWInst>(I)) {
			lostOperands(I);
			IRBuilder<> B(I);
			B.CreateCall(rt("__sym_clear", voidTy, {ptrTy, i64Ty}), {rmw->getPointerOperand(), ConstantInt::get(i64Ty, DL.getTypeStoreSize(rmw->getType()))});
		} else if (auto cx = dyn_cast<AtomicCmpXchgInst>(I)) {
			lostOperands(I);
			IRBuilder<> B(I);
			B.CreateCall(rt("__sym_clear", voidTy, {ptrTy, i64Ty}), {cx->getPointerOperand(), ConstantInt::get(i64Ty, DL.getTypeStoreSize(cx->getCompareOperand()->getType()))});
		} else if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) {
		} else {
			lostOperands(I);
		}
	}

	void visitSelect (SelectInst* s)
	{
		Type* t = s->getType();
		Value *c = s->getCondition(), *a = s->getTrueValue(), *b = s->getFalseValue();
		if (!scalar(t)) {
			if (!isNull(shadow(c))) concretizeBool(s, c);
			unsigned n = leaves(t);
			IRBuilder<> B(s);
			for (unsigned k = 0; k < n; ++k) {
				Value *x = shadow(a, k), *y = shadow(b, k);
				setShadow(s, isNull(x) && isNull(y) ? (Value*) nullE : B.CreateSelect(c, x, y), k);
			}
			return;
		}
		if (c->getType()->isVectorTy()) { lostOperands(s); return; }
		if (!(supportedScalar(t) || vecOk(t)) || bits(t) > 64) {
			if (!isNull(shadow(c))) concretizeBool(s, c);
			if (!isNull(shadow(a)) || !isNull(shadow(b))) {
				IRBuilder<> B(s);
				setShadow(s, B.CreateSelect(c, shadow(a), shadow(b)));
			}
			return;
		}
		if (isNull(shadow(c))) {
			if (isNull(shadow(a)) && isNull(shadow(b))) return;
			IRBuilder<> B(s);
			setShadow(s, B.CreateSelect(c, shadow(a), shadow(b)));
			return;
		}
		setShadow(s, guarded(s, {shadow(c), shadow(a), shadow(b)}, [&](IRBuilder<>& B) {
			return B.CreateCall(rt("__sym_ite", ptrTy, {i32Ty, ptrTy, i64Ty, ptrTy, i64Ty, ptrTy, i64Ty}),
				{c32(bits(t)), shadow(c), conc(B, c), shadow(a), conc(B, a), shadow(b), conc(B, b)});
		}));
	}

	void concretizeBool (Instruction* before, Value* c)
	{
		Value* s = shadow(c);
		if (isNull(s)) return;
		std::string site = siteName(before);
		guardedVoid(before, {s}, [&](IRBuilder<>& B) {
			Value* cc = c->getType()->isVectorTy() ? (Value*) c32(0) : B.CreateZExt(c, i32Ty);
			B.CreateCall(rt("__sym_branch", voidTy, {ptrTy, i32Ty, ptrTy}), {s, cc, B.CreateGlobalStringPtr(site)});
		});
	}

	void visitCast (CastInst* c)
	{
		Value* a = c->getOperand(0);
		Type *f = a->getType(), *t = c->getType();
		if (isNull(shadow(a))) return;
		auto op = c->getOpcode();
		if (op == Instruction::BitCast || op == Instruction::PtrToInt || op == Instruction::IntToPtr) {
			if (bits(f) == bits(t)) { setShadow(c, shadow(a)); return; }
			if (op == Instruction::BitCast) { lostOperands(c); return; }
			unsigned k = bits(t) < bits(f) ? OP_TRUNC : OP_ZEXT;
			setShadow(c, guarded(c, {shadow(a)}, [&](IRBuilder<>& B) {
				return B.CreateCall(rt("__sym_cast", ptrTy, {i32Ty, i32Ty, i32Ty, ptrTy}), {c32(k), c32(bits(f)), c32(bits(t)), shadow(a)});
			}));
			return;
		}
		int k = -1;
		switch (op) {
		case Instruction::ZExt: k = OP_ZEXT; break; case Instruction::SExt: k = OP_SEXT; break; case Instruction::Trunc: k = OP_TRUNC; break;
		case Instruction::SIToFP: k = OP_SITOFP; break; case Instruction::UIToFP: k = OP_UITOFP; break;
		case Instruction::FPToSI: k = OP_FPTOSI; break; case Instruction::FPToUI: k = OP_FPTOUI; break;
		case Instruction::FPExt: k = OP_FPEXT; break; case Instruction::FPTrunc: k = OP_FPTRUNC; break;
		default: break;
		}
		if (k < 0 || !supportedScalar(f) || !supportedScalar(t)) { lostOperands(c); return; }
		setShadow(c, guarded(c, {shadow(a)}, [&](IRBuilder<>& B) {
			return B.CreateCall(rt("__sym_cast", ptrTy, {i32Ty, i32Ty, i32Ty, ptrTy}), {c32(k), c32(bits(f)), c32(bits(t)), shadow(a)});
		}));
	}

	// element types stored as whole bytes?
	bool memOk (Type* t) { return supportedScalar(t) || vecOk(t); }

	// flatten type to (leaf offset, type)
	void flatten (Type* t, uint64_t off, SmallVectorImpl<std::pair<uint64_t, Type*>>& out)
	{
		if (auto s = dyn_cast<StructType>(t)) {
			auto sl = DL.getStructLayout(s);
			for (unsigned i = 0; i < s->getNumElements(); ++i) flatten(s->getElementType(i), off + sl->getElementOffset(i).getFixedValue(), out);
		} else if (auto a = dyn_cast<ArrayType>(t)) {
			uint64_t sz = DL.getTypeAllocSize(a->getElementType());
			for (unsigned i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), off + i * sz, out);
		} else out.push_back({off, t});
	}

	// the stack or global object every value of p points into, where the function itself says which
	Value* objectOf (Value* p, uint64_t& size)
	{
		SmallVector<const Value*, 4> o;
		getUnderlyingObjects(p, o, nullptr, 16);
		if (o.size() != 1) return nullptr;
		Value* v = const_cast<Value*>(o[0]);
		if (auto a = dyn_cast<AllocaInst>(v)) {
			if (!a->isStaticAlloca() || !a->getAllocationSize(DL)) return nullptr;
			size = a->getAllocationSize(DL)->getFixedValue();
			return a;
		}
		if (auto g = dyn_cast<GlobalVariable>(v)) {
			if (g->isDeclaration() || !g->getValueType()->isSized() || g->isThreadLocal()) return nullptr;
			size = DL.getTypeAllocSize(g->getValueType());
			return g;
		}
		return nullptr;
	}
	// n bytes at p lie inside their object (a symbolic p is decided over all its values)
	void bounds (Instruction* before, Value* p, Value* n)
	{
		uint64_t size;
		Value* o = objectOf(p, size);
		if (!o) return;
		APInt off(64, 0);
		auto k = dyn_cast<ConstantInt>(n);
		if (k && p->stripAndAccumulateConstantOffsets(DL, off, true) == o && off.getSExtValue() >= 0 && off.getZExtValue() + k->getZExtValue() <= size) return;
		IRBuilder<> B(before);
		B.CreateCall(rt("__sym_bounds", voidTy, {ptrTy, ptrTy, i64Ty, ptrTy, i64Ty}), {shadow(p), p, B.CreateZExtOrTrunc(n, i64Ty), o, ConstantInt::get(i64Ty, size)});
	}
	void bounds (Instruction* before, Value* p, uint64_t n) { bounds(before, p, ConstantInt::get(i64Ty, n)); }

	void visitLoad (LoadInst* l)
	{
		Value* p = l->getPointerOperand();
		bounds(l, p, DL.getTypeStoreSize(l->getType()).getFixedValue());
		Instruction* after = l->getNextNode();
		SmallVector<std::pair<uint64_t, Type*>, 4> fl;
		flatten(l->getType(), 0, fl);
		bool single = fl.size() == 1 && scalar(l->getType());
		if (!isNull(shadow(p))) {
			if (single && supportedScalar(l->getType()) && bits(l->getType()) <= 64) {
				// may become an ITE over the feasible addresses
				unsigned n = DL.getTypeStoreSize(l->getType());
				unsigned b = bits(l->getType());
				std::string site = siteName(l);
				Value* r1 = guarded(after, {shadow(p)}, [&](IRBuilder<>& B) {
					return B.CreateCall(rt("__sym_load_symptr", ptrTy, {ptrTy, ptrTy, i32Ty, i32Ty, ptrTy}), {shadow(p), p, c32(n), c32(b), B.CreateGlobalStringPtr(site)});
				});
				// (concrete pointer or concretised: ordinary load)
				IRBuilder<> B(after);
				Value* r2 = B.CreateCall(rt("__sym_load", ptrTy, {ptrTy, i32Ty, i32Ty, i64Ty}), {p, c32(n), c32(b), conc(B, l)});
				setShadow(l, B.CreateSelect(B.CreateICmpNE(r1, nullE), r1, r2));
				return;
			}
			concretize(l, p);
		}
		IRBuilder<> B(after);
		unsigned k = 0;
		for (auto& f: fl) {
			if (memOk(f.second)) {
				Value* addr = f.first ? B.CreateConstInBoundsGEP1_64(i8Ty, p, f.first) : p;
				Value* cv = ConstantInt::get(i64Ty, 0);
				if (single) cv = conc(B, l);
				else {
					// aggregate: read the leaf again for the consistency check
					if (bits(f.second) <= 64) cv = conc(B, B.CreateLoad(f.second, addr));
				}
				setShadow(l, B.CreateCall(rt("__sym_load", ptrTy, {ptrTy, i32Ty, i32Ty, i64Ty}), {addr, c32(DL.getTypeStoreSize(f.second)), c32(bits(f.second)), cv}), k);
			}
			++k;
		}
	}

	void visitStore (StoreInst* s)
	{
		Value *p = s->getPointerOperand(), *v = s->getValueOperand();
		bounds(s, p, DL.getTypeStoreSize(v->getType()).getFixedValue());
		concretize(s, p);
		SmallVector<std::pair<uint64_t, Type*>, 4> fl;
		flatten(v->getType(), 0, fl);
		IRBuilder<> B(s);
		unsigned k = 0;
		for (auto& f: fl) {
			Value* addr = f.first ? B.CreateConstInBoundsGEP1_64(i8Ty, p, f.first) : p;
			unsigned n = DL.getTypeStoreSize(f.second);
			Value* sv = memOk(f.second) ? shadow(v, k) : (Value*) nullE;
			if (isNull(sv)) B.CreateCall(rt("__sym_clear", voidTy, {ptrTy, i64Ty}), {addr, ConstantInt::get(i64Ty, n)});
			else B.CreateCall(rt("__sym_store", voidTy, {ptrTy, i32Ty, ptrTy}), {addr, c32(n), sv});
			++k;
		}
	}

	void visitGEP (GetElementPtrInst* g)
	{
		if (g->getType()->isVectorTy()) { lostOperands(g); return; }
		SmallVector<Value*, 4> s;
		struct Term { Value* v; int64_t scale; };
		SmallVector<Term, 4> terms;
		if (!isNull(shadow(g->getPointerOperand()))) { terms.push_back({g->getPointerOperand(), 1}); s.push_back(shadow(g->getPointerOperand())); }
		for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
			if (gt.getStructTypeOrNull()) continue;
			Value* idx = gt.getOperand();
			if (isNull(shadow(idx))) continue;
			terms.push_back({idx, (int64_t) gt.getSequentialElementStride(DL).getFixedValue()});
			s.push_back(shadow(idx));
		}
		if (terms.empty()) return;
		Instruction* after = g->getNextNode();
		setShadow(g, guarded(after, s, [&](IRBuilder<>& B) {
			Value* acc = nullE;
			Value* fin = B.CreatePtrToInt(g, i64Ty);
			for (auto& t: terms) {
				acc = B.CreateCall(rt("__sym_gep_term", ptrTy, {ptrTy, i64Ty, ptrTy, i64Ty}), {acc, fin, shadow(t.v), ConstantInt::get(i64Ty, t.scale)});
			}
			return acc;
		}));
	}

	void visitSwitch (SwitchInst* sw)
	{
		Value* c = sw->getCondition();
		if (isNull(shadow(c))) return;
		std::vector<Constant*> vals, dests;
		std::map<BasicBlock*, unsigned> id;
		id[sw->getDefaultDest()] = 0;
		for (auto& k: sw->cases()) {
			unsigned n = id.size();
			auto ins = id.insert({k.getCaseSuccessor(), n});
			vals.push_back(ConstantInt::get(i64Ty, k.getCaseValue()->getZExtValue()));
			dests.push_back(ConstantInt::get(i32Ty, ins.first->second));
		}
		auto arr = [&](std::vector<Constant*>& v, Type* t) {
			auto at = ArrayType::get(t, v.size());
			return new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, v));
		};
		auto gv = arr(vals, i64Ty), gd = arr(dests, i32Ty);
		std::string site = siteName(sw);
		guardedVoid(sw, {shadow(c)}, [&](IRBuilder<>& B) {
			B.CreateCall(rt("__sym_switch", voidTy, {ptrTy, i64Ty, i32Ty, i32Ty, ptrTy, ptrTy, i32Ty, ptrTy}),
				{shadow(c), conc(B, c), c32(bits(c->getType())), c32(vals.size()), gv, gd, c32(id.size()), B.CreateGlobalStringPtr(site)});
		});
	}

	static bool isRt (StringRef n) { return n.starts_with("__sym_") || n.starts_with("vp_"); }

	Instruction* afterCall (CallBase* cb)
	{
		if (auto inv = dyn_cast<InvokeInst>(cb)) {
			BasicBlock* nd = inv->getNormalDest();
			if (!nd->getSinglePredecessor() || isa<PHINode>(nd->begin())) {
				nd = SplitEdge(inv->getParent(), nd);
			}
			return &*nd->getFirstInsertionPt();
		}
		return cb->getNextNode();
	}

	void visitIntrinsic (IntrinsicInst* I)
	{
		auto id = I->getIntrinsicID();
		switch (id) {
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
			concretize(I, I->getArgOperand(0)); concretize(I, I->getArgOperand(1)); concretize(I, I->getArgOperand(2));
			bounds(I, I->getArgOperand(0), I->getArgOperand(2)); bounds(I, I->getArgOperand(1), I->getArgOperand(2));
			IRBuilder<> B(I);
			B.CreateCall(rt("__sym_memmove", voidTy, {ptrTy, ptrTy, i64Ty}), {I->getArgOperand(0), I->getArgOperand(1), B.CreateZExtOrTrunc(I->getArgOperand(2), i64Ty)});
			return;
		}
		case Intrinsic::memset: case Intrinsic::memset_inline: {
			concretize(I, I->getArgOperand(0)); concretize(I, I->getArgOperand(2));
			bounds(I, I->getArgOperand(0), I->getArgOperand(2));
			IRBuilder<> B(I);
			B.CreateCall(rt("__sym_memset", voidTy, {ptrTy, ptrTy, i64Ty}), {I->getArgOperand(0), shadow(I->getArgOperand(1)), B.CreateZExtOrTrunc(I->getArgOperand(2), i64Ty)});
			return;
		}
		case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
			if (!supportedScalar(I->getType()) || bits(I->getType()) > 64) { lostOperands(I); return; }
			int op = id == Intrinsic::umin ? OP_UMIN : id == Intrinsic::umax ? OP_UMAX : id == Intrinsic::smin ? OP_SMIN : OP_SMAX;
			Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
			setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) { return rtBin(B, op, bits(I->getType()), a, b); }));
			return;
		}
		case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
			if (!supportedScalar(I->getType()) || bits(I->getType()) > 64) { lostOperands(I); return; }
			Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
			setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) { return rtBin(B, id == Intrinsic::usub_sat ? OP_USUBSAT : OP_UADDSAT, bits(I->getType()), a, b); }));
			return;
		}
		case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
		case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
			Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
			if (!supportedScalar(a->getType()) || bits(a->getType()) > 64) { lostOperands(I); return; }
			int op, ov;
			switch (id) {
			case Intrinsic::uadd_with_overflow: op = OP_ADD; ov = OP_UADDO; break;
			case Intrinsic::sadd_with_overflow: op = OP_ADD; ov = OP_SADDO; break;
			case Intrinsic::usub_with_overflow: op = OP_SUB; ov = OP_USUBO; break;
			case Intrinsic::ssub_with_overflow: op = OP_SUB; ov = OP_SSUBO; break;
			case Intrinsic::umul_with_overflow: op = OP_MUL; ov = OP_UMULO; break;
			default: op = OP_MUL; ov = OP_SMULO; break;
			}
			setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) { return rtBin(B, op, bits(a->getType()), a, b); }), 0);
			setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) { return rtBin(B, ov, bits(a->getType()), a, b); }), 1);
			return;
		}
		case Intrinsic::fshl: case Intrinsic::fshr: {
			Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
			auto k = dyn_cast<ConstantInt>(I->getArgOperand(2));
			unsigned w = bits(I->getType());
			if (!supportedScalar(I->getType()) || w > 64 || !k) { lostOperands(I); return; }
			unsigned sft = k->getZExtValue() % w;
			if (id == Intrinsic::fshr) sft = (w - sft) % w;
			if (sft == 0) { setShadow(I, id == Intrinsic::fshl ? shadow(a) : shadow(b)); return; }
			setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) {
				auto bin = rt("__sym_bin", ptrTy, {i32Ty, i32Ty, ptrTy, i64Ty, ptrTy, i64Ty});
				Value* x = B.CreateCall(bin, {c32(OP_SHL), c32(w), shadow(a), conc(B, a), nullE, ConstantInt::get(i64Ty, sft)});
				Value* y = B.CreateCall(bin, {c32(OP_LSHR), c32(w), shadow(b), conc(B, b), nullE, ConstantInt::get(i64Ty, w - sft)});
				uint64_t mask = w == 64 ? ~0ull : ((1ull << w) - 1);
				return B.CreateCall(bin, {c32(OP_OR), c32(w), x, B.CreateAnd(B.CreateShl(conc(B, a), sft), mask), y, B.CreateLShr(conc(B, b), w - sft)});
			}));
			return;
		}
		case Intrinsic::abs: case Intrinsic::fabs: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round:
		case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::sqrt: {
			Value* a = I->getArgOperand(0);
			if (!supportedScalar(a->getType()) || bits(a->getType()) > 64) { lostOperands(I); return; }
			int op = OP_FABS;
			switch (id) {
			case Intrinsic::abs: op = OP_ABS; break; case Intrinsic::fabs: op = OP_FABS; break;
			case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: op = OP_RINT; break;
			case Intrinsic::floor: op = OP_FLOOR; break; case Intrinsic::ceil: op = OP_CEIL; break; case Intrinsic::trunc: op = OP_FTRUNC; break; case Intrinsic::round: op = OP_ROUND; break;
			case Intrinsic::bswap: op = OP_BSWAP; break; case Intrinsic::ctpop: op = OP_CTPOP; break; case Intrinsic::ctlz: op = OP_CTLZ; break; case Intrinsic::cttz: op = OP_CTTZ; break;
			case Intrinsic::sqrt: op = OP_SQRT; break;
			default: break;
			}
			unsigned w = bits(a->getType());
			setShadow(I, guarded(I, {shadow(a)}, [&](IRBuilder<>& B) {
				return B.CreateCall(rt("__sym_cast", ptrTy, {i32Ty, i32Ty, i32Ty, ptrTy}), {c32(op), c32(w), c32(w), shadow(a)});
			}));
			return;
		}
		case Intrinsic::fmuladd: case Intrinsic::fma: {
			Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *c = I->getArgOperand(2);
			if (!supportedScalar(I->getType())) { lostOperands(I); return; }
			unsigned w = bits(I->getType());
			setShadow(I, guarded(I, {shadow(a), shadow(b), shadow(c)}, [&](IRBuilder<>& B) {
				auto bin = rt("__sym_bin", ptrTy, {i32Ty, i32Ty, ptrTy, i64Ty, ptrTy, i64Ty});
				Value* m = B.CreateCall(bin, {c32(OP_FMUL), c32(w), shadow(a), conc(B, a), shadow(b), conc(B, b)});
				return B.CreateCall(bin, {c32(OP_FADD), c32(w), m, conc(B, B.CreateFMul(a, b)), shadow(c), conc(B, c)});
			}));
			return;
		}
		case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: case Intrinsic::copysign: {
			Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
			if (!supportedScalar(I->getType())) { lostOperands(I); return; }
			int op = (id == Intrinsic::minnum || id == Intrinsic::minimum) ? OP_FMIN : id == Intrinsic::copysign ? OP_COPYSIGN : OP_FMAX;
			setShadow(I, guarded(I, {shadow(a), shadow(b)}, [&](IRBuilder<>& B) { return rtBin(B, op, bits(I->getType()), a, b); }));
			return;
		}
		case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask:
			setShadow(I, shadow(I->getArgOperand(0)));
			return;
		case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
		case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for: case Intrinsic::objectsize:
		case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap: case Intrinsic::prefetch: case Intrinsic::is_constant: case Intrinsic::donothing: case Intrinsic::ubsantrap:
			return;
		case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy:
			return;
		default:
			lostOperands(I);
		}
	}

	void visitCall (CallBase* cb)
	{
		if (cb->isInlineAsm()) { lostOperands(cb); return; }
		if (auto ii = dyn_cast<IntrinsicInst>(cb)) { visitIntrinsic(ii); return; }

		Value* calleeV = cb->getCalledOperand();
		Function* F = dyn_cast<Function>(calleeV->stripPointerCasts());
		std::string name = F ? F->getName().str() : "";

		// what a library function is told it may touch lies inside its object
		{
			std::string b = name.compare(0, 4, "vpm_") == 0 ? name.substr(4) : name;
			if (b.compare(0, 3, "va_") == 0) b = b.substr(3);
			auto size = [&](unsigned p, unsigned n) {
				if (cb->arg_size() <= std::max(p, n) || !cb->getArgOperand(p)->getType()->isPointerTy() || !cb->getArgOperand(n)->getType()->isIntegerTy()) return;
				uint64_t z;
				if (!objectOf(cb->getArgOperand(p), z)) return;
				concretize(cb, cb->getArgOperand(n));
				bounds(cb, cb->getArgOperand(p), cb->getArgOperand(n));
			};
			if (F && (b == "memcpy" || b == "memmove")) { size(0, 2); size(1, 2); }
			else if (F && (b == "memset" || b == "strncpy")) size(0, 2);
			else if (F && (b == "fgets" || b == "snprintf" || b == "fgets_unlocked")) size(0, 1);
			else if (F && (b == "fread" || b == "fwrite") && cb->arg_size() == 4) {
				uint64_t z;
				auto k = dyn_cast<ConstantInt>(cb->getArgOperand(1));
				if (k && k->isOne()) size(0, 2);
				else if (objectOf(cb->getArgOperand(0), z)) {
					concretize(cb, cb->getArgOperand(1)); concretize(cb, cb->getArgOperand(2));
					IRBuilder<> B(cb);
					bounds(cb, cb->getArgOperand(0), B.CreateMul(cb->getArgOperand(1), cb->getArgOperand(2)));
				}
			}
			else if (F && (b == "_ZNSi4readEPcl" || b == "_ZNSo5writeEPKcl" || b == "_ZNSi7getlineEPcl")) size(1, 2);
		}

		if (F && (name == "memcpy" || name == "memmove")) {
			concretize(cb, cb->getArgOperand(0)); concretize(cb, cb->getArgOperand(1)); concretize(cb, cb->getArgOperand(2));
			IRBuilder<> B(cb);
			B.CreateCall(rt("__sym_memmove", voidTy, {ptrTy, ptrTy, i64Ty}), {cb->getArgOperand(0), cb->getArgOperand(1), cb->getArgOperand(2)});
			return;
		}
		if (F && (name == "wmemcpy" || name == "wmemmove")) {
			concretize(cb, cb->getArgOperand(0)); concretize(cb, cb->getArgOperand(1)); concretize(cb, cb->getArgOperand(2));
			IRBuilder<> B(cb);
			B.CreateCall(rt("__sym_memmove", voidTy, {ptrTy, ptrTy, i64Ty}), {cb->getArgOperand(0), cb->getArgOperand(1), B.CreateShl(cb->getArgOperand(2), 2)});
			return;
		}
		if (F && name == "memset") {
			concretize(cb, cb->getArgOperand(0)); concretize(cb, cb->getArgOperand(2));
			IRBuilder<> B(cb);
			Value* v = shadow(cb->getArgOperand(1));
			if (!isNull(v)) v = guarded(cb, {v}, [&](IRBuilder<>& B) { return B.CreateCall(rt("__sym_extract", ptrTy, {ptrTy, i32Ty, i32Ty}), {v, c32(0), c32(8)}); });
			IRBuilder<> B2(cb);
			B2.CreateCall(rt("__sym_memset", voidTy, {ptrTy, ptrTy, i64Ty}), {cb->getArgOperand(0), v, cb->getArgOperand(2)});
			return;
		}

		bool external = false;
		if (F && F->isDeclaration() && !(name.compare(0, 4, "vpm_") == 0)) {
			if (vamodels.count(name)) { visitVaModel(cb, F, name); return; }
			if (name.compare(0, 5, "vp_n_") == 0) external = true;
			else if (!isRt(name)) {
				external = dlsym(RTLD_DEFAULT, name.c_str()) != nullptr;
			}
		}

		if (external) {
			for (unsigned i = 0; i < cb->arg_size(); ++i) {
				Value* a = cb->getArgOperand(i);
				auto it = sh.find(a);
				if (it != sh.end() && scalar(a->getType())) concretizeNamed(cb, a, "arg of " + name);
				else if (it != sh.end()) lostOperands(cb);
			}
			if (!harmless.count(name) && name.compare(0, 5, "vp_n_") != 0) {
				IRBuilder<> B(cb);
				Value* nm = nullptr;
				for (unsigned i = 0; i < cb->arg_size(); ++i) {
					Value* a = cb->getArgOperand(i);
					if (!a->getType()->isPointerTy() || isa<Constant>(a)) continue;
					if (!nm) nm = B.CreateGlobalStringPtr(name);
					B.CreateCall(rt("__sym_check_ptr", voidTy, {ptrTy, ptrTy, i32Ty}), {nm, a, c32(i)});
				}
			}
			return;
		}

		// instrumented (or indirect) call
		if (!F) concretize(cb, calleeV);
		IRBuilder<> B(cb);
		unsigned off = 0;
		bool anySym = false;
		for (unsigned i = 0; i < cb->arg_size(); ++i) {
			Value* a = cb->getArgOperand(i);
			unsigned n = leaves(a->getType());
			for (unsigned k = 0; k < n; ++k, ++off) {
				if (off >= 250) continue;
				Value* s = shadow(a, k);
				if (cb->isByValArgument(i)) s = a;
				if (!isNull(s)) anySym = true;
				B.CreateStore(s, B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), gArgs, 0, off));
			}
		}
		if (off > 0) B.CreateStore(calleeV, gCallee);
		unsigned rn = leaves(cb->getType());
		if (rn > 0) B.CreateStore(nullE, gRetfn);
		if (!F && anySym) {
			B.CreateCall(rt("__sym_icall", voidTy, {ptrTy, i32Ty, i32Ty}), {calleeV, c32(off), c32(bits(rn == 1 ? cb->getType() : i64Ty))});
		}
		if (rn == 0 || cb->use_empty()) return;
		if (auto ci = dyn_cast<CallInst>(cb)) if (ci->isMustTailCall()) return;
		Instruction* after = afterCall(cb);
		IRBuilder<> A(after);
		Value* match = A.CreateICmpEQ(A.CreateLoad(ptrTy, gRetfn), calleeV);
		for (unsigned k = 0; k < rn && k < 60; ++k) {
			Value* l = A.CreateLoad(ptrTy, A.CreateConstInBoundsGEP2_32(gRets->getValueType(), gRets, 0, k));
			setShadow(cb, A.CreateSelect(match, l, nullE), k);
		}
	}

	void concretizeNamed (Instruction* before, Value* v, std::string what)
	{
		Value* s = shadow(v);
		if (isNull(s)) return;
		guardedVoid(before, {s}, [&](IRBuilder<>& B) {
			B.CreateCall(rt("__sym_concretize", voidTy, {ptrTy, ptrTy}), {s, B.CreateGlobalStringPtr(what)});
		});
	}

	void visitVaModel (CallBase* cb, Function* F, std::string const& name)
	{
		unsigned fixed = F->getFunctionType()->getNumParams();
		unsigned n = cb->arg_size() - fixed;
		// array of values
		Function* P = cb->getFunction();
		IRBuilder<> E(&*P->getEntryBlock().getFirstInsertionPt());
		auto at = ArrayType::get(i64Ty, std::max(1u, n));
		auto arr = E.CreateAlloca(at);
		IRBuilder<> B(cb);
		std::vector<Value*> args;
		std::vector<Type*> types;
		for (unsigned i = 0; i < fixed; ++i) { args.push_back(cb->getArgOperand(i)); types.push_back(cb->getArgOperand(i)->getType()); }
		for (unsigned i = 0; i < n; ++i) {
			Value* a = cb->getArgOperand(fixed + i);
			Value* slot = B.CreateConstInBoundsGEP2_32(at, arr, 0, i);
			B.CreateStore(conc(B, a), slot);
			Value* s = shadow(a);
			if (isNull(s)) B.CreateCall(rt("__sym_clear", voidTy, {ptrTy, i64Ty}), {slot, ConstantInt::get(i64Ty, 8)});
			else {
				unsigned w = bits(a->getType());
				Value* z = s;
				if (w < 64) z = B.CreateCall(rt("__sym_cast", ptrTy, {i32Ty, i32Ty, i32Ty, ptrTy}), {c32(OP_ZEXT), c32(w), c32(64), s});
				B.CreateCall(rt("__sym_store", voidTy, {ptrTy, i32Ty, ptrTy}), {slot, c32(8), z});
			}
		}
		args.push_back(arr); types.push_back(ptrTy);
		args.push_back(c32(n)); types.push_back(i32Ty);
		auto fc = M.getOrInsertFunction("vpm_va_" + name, FunctionType::get(cb->getType(), types, false));
		CallBase* nc;
		if (auto inv = dyn_cast<InvokeInst>(cb)) {
			nc = InvokeInst::Create(fc, inv->getNormalDest(), inv->getUnwindDest(), args, "", cb);
		} else nc = CallInst::Create(fc, args, "", cb);
		// transfer
		for (auto& p: phis) (void) p;
		cb->replaceAllUsesWith(nc);
		if (isa<InvokeInst>(cb)) { }
		cb->eraseFromParent();
		visitCall(nc);
	}
};

struct SymPass : PassInfoMixin<SymPass>
{
	PreservedAnalyses run (Module& M, ModuleAnalysisManager&)
	{
		for (auto m: MODELS) models.insert(m);
		for (auto m: VAMODELS) vamodels.insert(m);
		for (auto m: HARMLESS) harmless.insert(m);
		static bool loaded = false;
		if (!loaded) {
			loaded = true;
			for (auto l: {"libstdc++.so.6", "libm.so.6", "libboost_filesystem.so", "libboost_locale.so", "libboost_regex.so", "libcrypto.so", "libgcc_s.so.1"})
				dlopen(l, RTLD_NOW | RTLD_GLOBAL);
		}
		Inst in(M);
		std::vector<Function*> redirect;
		for (auto& F: M) if (F.isDeclaration() && models.count(F.getName().str())) redirect.push_back(&F);
		for (auto F: redirect) {
			auto fc = M.getOrInsertFunction("vpm_" + F->getName().str(), F->getFunctionType());
			F->replaceAllUsesWith(fc.getCallee());
		}
		for (auto& F: M) if (F.getName().starts_with("vpm_"))
			for (auto u: F.users()) if (auto cb = dyn_cast<CallBase>(u)) cb->setAttributes(cb->getAttributes().removeFnAttributes(M.getContext()));
		std::vector<Function*> fs;
		for (auto& F: M) {
			if (F.isDeclaration() || F.hasAvailableExternallyLinkage() || F.getName().starts_with("__sym_")) continue;
			if (F.hasFnAttribute(Attribute::Naked)) continue;
			fs.push_back(&F);
		}
		for (auto F: fs) {
			F->removeFnAttr(Attribute::Memory);
			F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::NoFree);
			in.function(*F);
		}
		// attributes inferred before instrumentation no longer hold
		for (auto& F: M) {
			if (F.isIntrinsic()) continue;
			F.removeFnAttr(Attribute::Memory);
			for (auto& A: F.args()) { A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::WriteOnly); A.removeAttr(Attribute::NoCapture); A.removeAttr(Attribute::Dereferenceable); A.removeAttr(Attribute::NoAlias); }
		}
		for (auto& F: M) for (auto& BB: F) for (auto& I: BB)
			if (auto cb = dyn_cast<CallBase>(&I)) {
				if (isa<IntrinsicInst>(cb)) continue;
				cb->removeFnAttr(Attribute::Memory);
			}
		// keep the instrumented copies of library templates out of the uninstrumented libraries
		for (auto& F: M) if (!F.isDeclaration() && (F.hasLinkOnceLinkage() || F.hasWeakLinkage())) F.setVisibility(GlobalValue::HiddenVisibility);
		for (auto& G: M.globals()) {
			if (G.isDeclaration() || !(G.hasLinkOnceLinkage() || G.hasWeakLinkage())) continue;
			if (G.getName().starts_with("_ZTV") || G.getName().starts_with("_ZTT")) G.setVisibility(GlobalValue::HiddenVisibility);
		}
		return PreservedAnalyses::none();
	}
	static bool isRequired () { return true; }
};

}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo ()
{
	return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
		PB.registerPipelineParsingCallback([](StringRef name, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
			if (name != "sym") return false;
			ScalarizerPassOptions o;
			o.ScalarizeLoadStore = true;
			MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
			MPM.addPass(SymPass());
			return true;
		});
	}};
}
