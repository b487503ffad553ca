// LLVM bitcode -> register machine
#include "prog.h"
#include <llvm/ADT/APInt.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/MemoryBuffer.h>
#include <cstdio>
#include <cstdlib>
#include <map>

using namespace llvm;

static LLVMContext* CTX;
static std::unique_ptr<Module> MOD;
static const DataLayout* DL;
static Program* P;
static std::unordered_map<const GlobalValue*, u64> gaddr;

static void fatal(const std::string& m)
{
	fprintf(stderr, "symx: %s\n", m.c_str());
	exit(2);
}
// leaf layout of a type: (offset, width) list
struct Leaf { u64 off; unsigned w; };
static std::unordered_map<Type*, std::vector<Leaf>> leafMemo;
static bool leavesInto(Type* t, u64 off, std::vector<Leaf>& out)
{
	if (t->isVoidTy()) return true;
	if (auto* it = dyn_cast<IntegerType>(t)) {
		unsigned w = it->getBitWidth();
		if (w <= 64) { out.push_back({ off, w }); return true; }
		if (w <= 128) { out.push_back({ off, 64 }); out.push_back({ off + 8, w - 64 }); return true; }
		return false;
	}
	if (t->isPointerTy()) { out.push_back({ off, 64 }); return true; }
	if (t->isDoubleTy()) { out.push_back({ off, 64 }); return true; }
	if (t->isFloatTy()) { out.push_back({ off, 32 }); return true; }
	if (t->isX86_FP80Ty()) { out.push_back({ off, 64 }); out.push_back({ off + 8, 16 }); return true; }
	if (auto* st = dyn_cast<StructType>(t)) {
		const StructLayout* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++)
			if (!leavesInto(st->getElementType(i), off + sl->getElementOffset(i), out)) return false;
		return true;
	}
	if (auto* at = dyn_cast<ArrayType>(t)) {
		u64 es = DL->getTypeAllocSize(at->getElementType());
		if (at->getNumElements() > 65536) return false;
		for (u64 i = 0; i < at->getNumElements(); i++)
			if (!leavesInto(at->getElementType(), off + i * es, out)) return false;
		return true;
	}
	if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		u64 es = DL->getTypeAllocSize(vt->getElementType());
		for (u64 i = 0; i < vt->getNumElements(); i++)
			if (!leavesInto(vt->getElementType(), off + i * es, out)) return false;
		return true;
	}
	return false;
}
static const std::vector<Leaf>& leaves(Type* t)
{
	auto it = leafMemo.find(t);
	if (it != leafMemo.end()) return it->second;
	std::vector<Leaf> v;
	if (!leavesInto(t, 0, v)) v.push_back({ 0, 64 });
	return leafMemo[t] = v;
}
static unsigned leafIndex(Type* t, ArrayRef<unsigned> idx, Type** sub)
{
	unsigned n = 0;
	for (unsigned i : idx) {
		if (auto* st = dyn_cast<StructType>(t)) {
			for (unsigned k = 0; k < i; k++) n += leaves(st->getElementType(k)).size();
			t = st->getElementType(i);
		} else {
			Type* et = cast<ArrayType>(t)->getElementType();
			n += i * leaves(et).size();
			t = et;
		}
	}
	*sub = t;
	return n;
}
static bool constLeaves(const Constant* c, std::vector<u64>& out);
static bool constInt(const Constant* c, u64& v)
{
	std::vector<u64> o;
	if (!constLeaves(c, o) || o.size() != 1) return false;
	v = o[0];
	return true;
}
static bool constLeaves(const Constant* c, std::vector<u64>& out)
{
	Type* t = c->getType();
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
		out.insert(out.end(), leaves(t).size(), 0);
		return true;
	}
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		const APInt& a = ci->getValue();
		out.push_back(a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0));
		if (a.getBitWidth() > 64) out.push_back(a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64));
		return true;
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		APInt a = cf->getValueAPF().bitcastToAPInt();
		out.push_back(a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0));
		if (a.getBitWidth() > 64) out.push_back(a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64));
		return true;
	}
	if (auto* gv = dyn_cast<GlobalValue>(c)) {
		auto it = gaddr.find(gv);
		if (it == gaddr.end()) {
			if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constLeaves(ga->getAliasee(), out);
			return false;
		}
		out.push_back(it->second);
		return true;
	}
	if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
		for (unsigned i = 0; i < ds->getNumElements(); i++)
			if (!constLeaves(ds->getElementAsConstant(i), out)) return false;
		return true;
	}
	if (isa<ConstantArray>(c) || isa<ConstantStruct>(c) || isa<ConstantVector>(c)) {
		for (unsigned i = 0; i < c->getNumOperands(); i++)
			if (!constLeaves(cast<Constant>(c->getOperand(i)), out)) return false;
		return true;
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			u64 base;
			if (!constInt(ce->getOperand(0), base)) return false;
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
			out.push_back(base + off.getSExtValue());
			return true;
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
			return constLeaves(ce->getOperand(0), out);
		case Instruction::Trunc: {
			u64 v;
			if (!constInt(ce->getOperand(0), v)) return false;
			unsigned w = t->getIntegerBitWidth();
			out.push_back(w >= 64 ? v : v & ((1ull << w) - 1));
			return true;
		}
		case Instruction::Sub: case Instruction::Add: case Instruction::Xor: {
			u64 a, b;
			if (!constInt(ce->getOperand(0), a) || !constInt(ce->getOperand(1), b)) return false;
			u64 r = ce->getOpcode() == Instruction::Sub ? a - b : ce->getOpcode() == Instruction::Add ? a + b : a ^ b;
			unsigned w = t->getIntegerBitWidth();
			out.push_back(w >= 64 ? r : r & ((1ull << w) - 1));
			return true;
		}
		case Instruction::ICmp: {
			u64 a, b;
			if (!constInt(ce->getOperand(0), a) || !constInt(ce->getOperand(1), b)) return false;
			bool r;
			switch (ce->getPredicate()) {
			case CmpInst::ICMP_EQ: r = a == b; break;
			case CmpInst::ICMP_NE: r = a != b; break;
			default: return false;
			}
			out.push_back(r);
			return true;
		}
		}
	}
	return false;
}

namespace {
struct Translator {
	Func* f;
	Function* lf;
	std::unordered_map<const Value*, i32> reg; // first leaf register
	std::map<u64, i32> constIdx;
	std::unordered_map<const BasicBlock*, u32> bbPc;
	struct Fix { u32 inst; int field; const BasicBlock* from; const BasicBlock* to; int aux; };
	std::vector<Fix> fixes;
	std::map<std::pair<const BasicBlock*, const BasicBlock*>, u32> edgePc;
	std::unordered_map<const Value*, u32> lpadIdx;
	std::vector<std::pair<u32, const Value*>> lpadFix;

	i32 newRegs(unsigned n) { i32 r = f->nregs; f->nregs += n; return r; }
	i32 cst(u64 v)
	{
		auto it = constIdx.find(v);
		if (it != constIdx.end()) return it->second;
		i32 id = ~(i32)f->consts.size();
		f->consts.push_back(v);
		constIdx[v] = id;
		return id;
	}
	Inst& emit(u16 op)
	{
		f->code.push_back(Inst {});
		Inst& i = f->code.back();
		i.op = op;
		i.dst = i.a = i.b = i.c = NOREG;
		return i;
	}
	void unsup(const std::string& m)
	{
		Inst& i = emit(O_UNSUP);
		i.extra = P->messages.size();
		P->messages.push_back(m);
	}
	bool ops(const Value* v, std::vector<i32>& out)
	{
		if (auto* c = dyn_cast<Constant>(v)) {
			std::vector<u64> l;
			if (!constLeaves(c, l)) return false;
			for (u64 x : l) out.push_back(cst(x));
			return true;
		}
		auto it = reg.find(v);
		unsigned n = leaves(v->getType()).size();
		i32 r;
		if (it == reg.end()) reg[v] = r = newRegs(n);
		else r = it->second;
		for (unsigned k = 0; k < n; k++) out.push_back(r + k);
		return true;
	}
	i32 op1(const Value* v)
	{
		std::vector<i32> o;
		if (!ops(v, o) || o.empty()) return NOREG;
		return o[0];
	}
	i32 dst(const Value* v)
	{
		auto it = reg.find(v);
		if (it != reg.end()) return it->second;
		i32 r = newRegs(leaves(v->getType()).size());
		reg[v] = r;
		return r;
	}
	static unsigned width(Type* t)
	{
		if (t->isIntegerTy()) return t->getIntegerBitWidth();
		if (t->isPointerTy()) return 64;
		if (t->isDoubleTy()) return 64;
		if (t->isFloatTy()) return 32;
		return 0;
	}
	static std::string str(const Value& v)
	{
		std::string s;
		raw_string_ostream os(s);
		v.print(os);
		return os.str();
	}
	void mov(i32 d, i32 s)
	{
		Inst& i = emit(O_MOV);
		i.dst = d;
		i.a = s;
	}
	void run()
	{
		for (auto& a : lf->args()) dst(&a);
		f->nparams = f->nregs;
		for (auto& bb : *lf) {
			bbPc[&bb] = f->code.size();
			for (auto& in : bb) inst(in);
		}
		// edge stubs
		for (auto& fx : fixes) {
			u32 pc = edge(fx.from, fx.to);
			if (fx.field == 0) f->code[fx.inst].extra = pc;
			else if (fx.field == 1) f->code[fx.inst].b = pc;
			else if (fx.field == 2) f->code[fx.inst].c = pc;
			else if (fx.field == 3) f->switches[fx.inst].def = pc;
			else if (fx.field == 4) f->switches[fx.inst].cases[fx.aux].second = pc;
			else if (fx.field == 5) f->calls[fx.inst].normal = pc;
			else if (fx.field == 6) f->calls[fx.inst].unwind = pc;
		}
	}
	void finishLpads()
	{
		for (auto& x : lpadFix) f->calls[x.first].lpad = lpadIdx[x.second];
	}
	u32 edge(const BasicBlock* from, const BasicBlock* to)
	{
		if (!isa<PHINode>(to->front())) return bbPc[to];
		auto k = std::make_pair(from, to);
		auto it = edgePc.find(k);
		if (it != edgePc.end()) return it->second;
		u32 pc = f->code.size();
		edgePc[k] = pc;
		std::vector<std::pair<i32, i32>> mv;
		bool conflict = false;
		for (auto& in : *to) {
			auto* ph = dyn_cast<PHINode>(&in);
			if (!ph) break;
			std::vector<i32> src;
			if (!ops(ph->getIncomingValueForBlock(from), src)) { unsup("phi constant"); continue; }
			i32 d = dst(ph);
			for (unsigned i = 0; i < src.size(); i++) mv.push_back({ d + (i32)i, src[i] });
		}
		for (size_t i = 0; i < mv.size(); i++)
			for (size_t j = i + 1; j < mv.size(); j++)
				if (mv[j].second == mv[i].first) conflict = true;
		if (!conflict)
			for (auto& m : mv) { if (m.first != m.second) mov(m.first, m.second); }
		else {
			i32 t = newRegs(mv.size());
			for (size_t i = 0; i < mv.size(); i++) mov(t + i, mv[i].second);
			for (size_t i = 0; i < mv.size(); i++) mov(mv[i].first, t + i);
		}
		Inst& j = emit(O_JMP);
		j.extra = bbPc[to];
		return pc;
	}
	void bin(Instruction& in, Op o)
	{
		Type* t = in.getType();
		if (t->isVectorTy()) {
			auto lv = leaves(t);
			std::vector<i32> a, b;
			if (!ops(in.getOperand(0), a) || !ops(in.getOperand(1), b)) return unsup(str(in));
			i32 d = dst(&in);
			for (size_t k = 0; k < lv.size(); k++) {
				Inst& i = emit(o);
				i.w = lv[k].w; i.dst = d + k; i.a = a[k]; i.b = b[k];
			}
			return;
		}
		unsigned w = width(t);
		if (w > 64) return bin128(in);
		i32 a = op1(in.getOperand(0)), b = op1(in.getOperand(1));
		if (a == NOREG || b == NOREG || w == 0) return unsup(str(in));
		Inst& i = emit(o);
		i.w = w;
		i.a = a;
		i.b = b;
		i.dst = dst(&in);
	}
	void bin128(Instruction& in)
	{
		W128 r {};
		std::vector<i32> a, b;
		if (!ops(in.getOperand(0), a) || !ops(in.getOperand(1), b) || a.size() != 2 || b.size() != 2) return unsup(str(in));
		r.kind = in.getOpcode();
		r.alo = a[0]; r.ahi = a[1]; r.blo = b[0]; r.bhi = b[1];
		r.dst = dst(&in);
		r.w = 128;
		Inst& i = emit(O_W128);
		i.extra = f->w128.size();
		f->w128.push_back(r);
	}
	void call(CallBase& cb)
	{
		if (cb.isInlineAsm()) {
			auto* ia = cast<InlineAsm>(cb.getCalledOperand());
			if (ia->getAsmString().empty() && cb.getType()->isVoidTy()) return;
			return unsup("inline asm");
		}
		CallSite cs;
		Function* callee = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
		if (!callee)
			if (auto* ga = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) callee = dyn_cast<Function>(ga->getAliaseeObject());
		if (callee && callee->isIntrinsic()) {
			switch (callee->getIntrinsicID()) {
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
			case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch:
				if (auto* iv = dyn_cast<InvokeInst>(&cb)) { u32 n = f->code.size(); emit(O_JMP); fixes.push_back({ n, 0, iv->getParent(), iv->getNormalDest(), 0 }); }
				return;
			case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: {
				i32 s = op1(cb.getArgOperand(0));
				mov(dst(&cb), s);
				return;
			}
			case Intrinsic::eh_typeid_for: {
				i32 s = op1(cb.getArgOperand(0));
				i32 d = dst(&cb);
				Inst& i = emit(O_TRUNCI);
				i.w = 32; i.w2 = 64; i.a = s; i.dst = d;
				return;
			}
			case Intrinsic::objectsize: mov(dst(&cb), cst(cast<ConstantInt>(cb.getArgOperand(1))->isZero() ? ~0ull : 0)); return;
			case Intrinsic::is_constant: mov(dst(&cb), cst(0)); return;
			default: break;
			}
		}
		if (callee) cs.callee = P->byName[callee->getName().str()];
		else cs.target = op1(cb.getCalledOperand());
		for (unsigned k = 0; k < cb.arg_size(); k++) {
			Value* av = cb.getArgOperand(k);
			if (av->getType()->isMetadataTy()) continue;
			std::vector<i32> o;
			if (!ops(av, o)) return unsup("call arg " + str(cb));
			const auto& lv = leaves(av->getType());
			u32 bv = cb.isByValArgument(k) ? (u32)DL->getTypeAllocSize(cb.getParamByValType(k)) : 0;
			for (unsigned q = 0; q < o.size(); q++) {
				cs.args.push_back(o[q]);
				cs.argw.push_back(lv[q].w);
				cs.byval.push_back(bv);
			}
		}
		const auto& rl = leaves(cb.getType());
		cs.nret = cb.getType()->isVoidTy() ? 0 : rl.size();
		cs.retw = cs.nret ? rl[0].w : 0;
		u32 id = f->calls.size();
		i32 d = cs.nret ? dst(&cb) : NOREG;
		f->calls.push_back(cs);
		Inst& i = emit(O_CALL);
		i.extra = id;
		i.dst = d;
		if (auto* iv = dyn_cast<InvokeInst>(&cb)) {
			fixes.push_back({ id, 5, iv->getParent(), iv->getNormalDest(), 0 });
			fixes.push_back({ id, 6, iv->getParent(), iv->getUnwindDest(), 0 });
			lpadFix.push_back({ id, iv->getLandingPadInst() });
		}
	}
	void inst(Instruction& in)
	{
		switch (in.getOpcode()) {
		case Instruction::Add: return bin(in, O_ADD);
		case Instruction::Sub: return bin(in, O_SUB);
		case Instruction::Mul: return bin(in, O_MUL);
		case Instruction::UDiv: return bin(in, O_UDIV);
		case Instruction::SDiv: return bin(in, O_SDIV);
		case Instruction::URem: return bin(in, O_UREM);
		case Instruction::SRem: return bin(in, O_SREM);
		case Instruction::Shl: return bin(in, O_SHL);
		case Instruction::LShr: return bin(in, O_LSHR);
		case Instruction::AShr: return bin(in, O_ASHR);
		case Instruction::And: return bin(in, O_AND);
		case Instruction::Or: return bin(in, O_OR);
		case Instruction::Xor: return bin(in, O_XOR);
		case Instruction::FAdd: return bin(in, O_FADD);
		case Instruction::FSub: return bin(in, O_FSUB);
		case Instruction::FMul: return bin(in, O_FMUL);
		case Instruction::FDiv: return bin(in, O_FDIV);
		case Instruction::FRem: return bin(in, O_FREM);
		case Instruction::FNeg: {
			unsigned w = width(in.getType());
			i32 a = op1(in.getOperand(0));
			if (!w) return unsup(str(in));
			Inst& i = emit(O_XOR);
			i.w = w; i.a = a; i.b = cst(1ull << (w - 1)); i.dst = dst(&in);
			return;
		}
		case Instruction::ICmp: {
			auto& c = cast<ICmpInst>(in);
			Type* t = c.getOperand(0)->getType();
			if (t->isVectorTy()) return unsup(str(in));
			unsigned w = width(t);
			if (w > 64) {
				W128 r {};
				std::vector<i32> a, b;
				if (!ops(c.getOperand(0), a) || !ops(c.getOperand(1), b)) return unsup(str(in));
				r.kind = Instruction::ICmp; r.pred = c.getPredicate();
				r.alo = a[0]; r.ahi = a[1]; r.blo = b[0]; r.bhi = b[1]; r.dst = dst(&in);
				Inst& i = emit(O_W128);
				i.extra = f->w128.size();
				f->w128.push_back(r);
				return;
			}
			i32 a = op1(c.getOperand(0)), b = op1(c.getOperand(1));
			if (a == NOREG || b == NOREG) return unsup(str(in));
			Op o;
			bool swap = false;
			switch (c.getPredicate()) {
			case CmpInst::ICMP_EQ: o = O_EQ; break;
			case CmpInst::ICMP_NE: o = O_NE; break;
			case CmpInst::ICMP_UGT: o = O_ULT; swap = true; break;
			case CmpInst::ICMP_UGE: o = O_ULE; swap = true; break;
			case CmpInst::ICMP_ULT: o = O_ULT; break;
			case CmpInst::ICMP_ULE: o = O_ULE; break;
			case CmpInst::ICMP_SGT: o = O_SLT; swap = true; break;
			case CmpInst::ICMP_SGE: o = O_SLE; swap = true; break;
			case CmpInst::ICMP_SLT: o = O_SLT; break;
			default: o = O_SLE; break;
			}
			i32 d = dst(&in);
			Inst& i = emit(o);
			i.w = w;
			i.a = swap ? b : a;
			i.b = swap ? a : b;
			i.dst = d;
			return;
		}
		case Instruction::FCmp: {
			auto& c = cast<FCmpInst>(in);
			unsigned w = width(c.getOperand(0)->getType());
			i32 a = op1(c.getOperand(0)), b = op1(c.getOperand(1));
			if (!w) return unsup(str(in));
			i32 d = dst(&in);
			Inst& i = emit(O_FCMP);
			i.w = w; i.a = a; i.b = b; i.c = (i32)c.getPredicate(); i.dst = d;
			return;
		}
		case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
			if (in.getType()->isVectorTy()) return unsup(str(in));
			unsigned sw = width(in.getOperand(0)->getType()), dw = width(in.getType());
			std::vector<i32> a;
			if (!ops(in.getOperand(0), a)) return unsup(str(in));
			i32 d = dst(&in);
			if (dw > 64) {
				if (sw > 64) return unsup(str(in));
				if (in.getOpcode() == Instruction::ZExt) { mov(d, a[0]); mov(d + 1, cst(0)); return; }
				{ Inst& i = emit(O_SEXT); i.w = 64; i.w2 = sw; i.a = a[0]; i.dst = d; }
				{ Inst& i = emit(O_ASHR); i.w = 64; i.a = d; i.b = cst(63); i.dst = d + 1; }
				return;
			}
			if (in.getOpcode() == Instruction::Trunc) {
				Inst& i = emit(O_TRUNCI);
				i.w = dw; i.w2 = sw > 64 ? 64 : sw; i.a = a[0]; i.dst = d;
			} else {
				Inst& i = emit(in.getOpcode() == Instruction::ZExt ? O_ZEXT : O_SEXT);
				i.w = dw; i.w2 = sw; i.a = a[0]; i.dst = d;
			}
			return;
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: {
			unsigned sw = width(in.getOperand(0)->getType()), dw = width(in.getType());
			i32 a = op1(in.getOperand(0));
			if (a == NOREG || sw == 0 || dw == 0 || dw > 64 || sw > 64) return unsup(str(in));
			i32 d = dst(&in);
			if (sw == dw) return mov(d, a);
			Inst& i = emit(dw < sw ? O_TRUNCI : O_ZEXT);
			i.w = dw; i.w2 = sw; i.a = a; i.dst = d;
			return;
		}
		case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
			std::vector<i32> a;
			if (!ops(in.getOperand(0), a)) return unsup(str(in));
			i32 d = dst(&in);
			const auto& dl = leaves(in.getType());
			const auto& sl = leaves(in.getOperand(0)->getType());
			if (dl.size() != sl.size()) return unsup(str(in));
			for (size_t k = 0; k < a.size(); k++) mov(d + k, a[k]);
			return;
		}
		case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
			unsigned sw = width(in.getOperand(0)->getType()), dw = width(in.getType());
			i32 a = op1(in.getOperand(0));
			if (!sw || !dw || sw > 64 || dw > 64) return unsup(str(in));
			i32 d = dst(&in);
			Inst& i = emit(in.getOpcode() == Instruction::FPToSI ? O_FPTOSI : in.getOpcode() == Instruction::FPToUI ? O_FPTOUI : in.getOpcode() == Instruction::SIToFP ? O_SITOFP : in.getOpcode() == Instruction::UIToFP ? O_UITOFP : in.getOpcode() == Instruction::FPTrunc ? O_FPTRUNC : O_FPEXT);
			i.w = dw; i.w2 = sw; i.a = a; i.dst = d;
			return;
		}
		case Instruction::Select: {
			std::vector<i32> a, b;
			if (!ops(in.getOperand(1), a) || !ops(in.getOperand(2), b) || in.getOperand(0)->getType()->isVectorTy()) return unsup(str(in));
			i32 c = op1(in.getOperand(0));
			i32 d = dst(&in);
			const auto& lv = leaves(in.getType());
			for (size_t k = 0; k < a.size(); k++) {
				Inst& i = emit(O_SELECT);
				i.w = lv[k].w; i.a = c; i.b = a[k]; i.c = b[k]; i.dst = d + k;
			}
			return;
		}
		case Instruction::GetElementPtr: {
			auto& g = cast<GetElementPtrInst>(in);
			if (g.getType()->isVectorTy()) return unsup(str(in));
			i32 base = op1(g.getPointerOperand());
			if (base == NOREG) return unsup(str(in));
			i64 off = 0;
			struct Dyn { i32 r; unsigned w; u64 sc; };
			std::vector<Dyn> dy;
			for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
				Value* idx = it.getOperand();
				if (StructType* st = it.getStructTypeOrNull()) {
					off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
				} else {
					u64 sc = DL->getTypeAllocSize(it.getIndexedType());
					if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * (i64)sc;
					else dy.push_back({ op1(idx), width(idx->getType()), sc });
				}
			}
			i32 d = dst(&in);
			auto emitG = [&](i32 dd, i32 a, i32 b, unsigned w2, u64 sc, i64 o) {
				Inst& i = emit(O_GEP);
				i.dst = dd; i.a = a; i.b = b; i.w2 = w2; i.c = (i32)sc; i.extra = (u32)(i32)o; i.w = 64;
			};
			if (dy.empty()) {
				if (off != (i32)off) { Inst& i = emit(O_ADD); i.w = 64; i.a = base; i.b = cst(off); i.dst = d; return; }
				return emitG(d, base, NOREG, 0, 0, off);
			}
			if (off != (i32)off) return unsup(str(in));
			i32 cur = base;
			for (size_t k = 0; k < dy.size(); k++) {
				i32 dd = k + 1 == dy.size() ? d : newRegs(1);
				if (dy[k].sc > 0x7fffffff) return unsup(str(in));
				emitG(dd, cur, dy[k].r, dy[k].w, dy[k].sc, k == 0 ? off : 0);
				cur = dd;
			}
			return;
		}
		case Instruction::Load: {
			i32 p = op1(in.getOperand(0));
			i32 d = dst(&in);
			const auto& lv = leaves(in.getType());
			for (size_t k = 0; k < lv.size(); k++) {
				i32 a = p;
				if (lv[k].off) {
					a = newRegs(1);
					Inst& g = emit(O_GEP);
					g.dst = a; g.a = p; g.extra = (u32)lv[k].off; g.w = 64;
				}
				Inst& i = emit(O_LOAD);
				i.w = lv[k].w; i.a = a; i.dst = d + k;
			}
			return;
		}
		case Instruction::Store: {
			std::vector<i32> v;
			if (!ops(in.getOperand(0), v)) return unsup(str(in));
			i32 p = op1(in.getOperand(1));
			if (p == NOREG) return unsup(str(in));
			const auto& lv = leaves(in.getOperand(0)->getType());
			for (size_t k = 0; k < lv.size(); k++) {
				i32 a = p;
				if (lv[k].off) {
					a = newRegs(1);
					Inst& g = emit(O_GEP);
					g.dst = a; g.a = p; g.extra = (u32)lv[k].off; g.w = 64;
				}
				Inst& i = emit(O_STORE);
				i.w = lv[k].w; i.a = a; i.b = v[k];
			}
			return;
		}
		case Instruction::Alloca: {
			auto& al = cast<AllocaInst>(in);
			i32 n = op1(al.getArraySize());
			i32 d = dst(&in);
			Inst& i = emit(O_ALLOCA);
			i.dst = d; i.b = n; i.c = (i32)DL->getTypeAllocSize(al.getAllocatedType()); i.extra = al.getAlign().value();
			i.w = width(al.getArraySize()->getType());
			return;
		}
		case Instruction::Br: {
			auto& b = cast<BranchInst>(in);
			if (b.isUnconditional()) {
				u32 n = f->code.size();
				emit(O_JMP);
				fixes.push_back({ n, 0, in.getParent(), b.getSuccessor(0), 0 });
			} else {
				i32 c = op1(b.getCondition());
				u32 n = f->code.size();
				Inst& i = emit(O_BR);
				i.a = c;
				fixes.push_back({ n, 1, in.getParent(), b.getSuccessor(0), 0 });
				fixes.push_back({ n, 2, in.getParent(), b.getSuccessor(1), 0 });
			}
			return;
		}
		case Instruction::Switch: {
			auto& s = cast<SwitchInst>(in);
			i32 c = op1(s.getCondition());
			if (width(s.getCondition()->getType()) > 64) return unsup(str(in));
			u32 id = f->switches.size();
			Switch sw;
			sw.w = width(s.getCondition()->getType());
			for (auto& cs : s.cases()) sw.cases.push_back({ cs.getCaseValue()->getZExtValue(), 0 });
			f->switches.push_back(sw);
			fixes.push_back({ id, 3, in.getParent(), s.getDefaultDest(), 0 });
			int k = 0;
			for (auto& cs : s.cases()) fixes.push_back({ id, 4, in.getParent(), cs.getCaseSuccessor(), k++ });
			Inst& i = emit(O_SWITCH);
			i.a = c;
			i.extra = id;
			return;
		}
		case Instruction::Ret: {
			auto& r = cast<ReturnInst>(in);
			std::vector<i32> v;
			if (r.getReturnValue() && !ops(r.getReturnValue(), v)) return unsup(str(in));
			Inst& i = emit(O_RET);
			i.extra = f->lists.size();
			i.c = v.size();
			f->lists.insert(f->lists.end(), v.begin(), v.end());
			return;
		}
		case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(in));
		case Instruction::PHI: dst(&in); return;
		case Instruction::LandingPad: {
			auto& l = cast<LandingPadInst>(in);
			LPad lp;
			lp.cleanup = l.isCleanup();
			for (unsigned k = 0; k < l.getNumClauses(); k++) {
				LPad::Clause c;
				c.filter = l.isFilter(k);
				if (c.filter) {
					constLeaves(l.getClause(k), c.types);
				} else {
					u64 v = 0;
					constInt(l.getClause(k), v);
					c.types.push_back(v);
				}
				lp.clauses.push_back(c);
			}
			i32 d = dst(&in);
			Inst& i = emit(O_LPAD);
			i.dst = d;
			i.extra = f->lpads.size();
			lpadIdx[&in] = f->lpads.size();
			f->lpads.push_back(lp);
			return;
		}
		case Instruction::Resume: {
			std::vector<i32> v;
			ops(in.getOperand(0), v);
			Inst& i = emit(O_RESUME);
			i.a = v[0];
			i.b = v[1];
			return;
		}
		case Instruction::Unreachable: emit(O_UNREACHABLE); return;
		case Instruction::ExtractValue: {
			auto& ev = cast<ExtractValueInst>(in);
			std::vector<i32> v;
			if (!ops(ev.getAggregateOperand(), v)) return unsup(str(in));
			Type* sub;
			unsigned ix = leafIndex(ev.getAggregateOperand()->getType(), ev.getIndices(), &sub);
			i32 d = dst(&in);
			for (unsigned k = 0; k < leaves(sub).size(); k++) mov(d + k, v[ix + k]);
			return;
		}
		case Instruction::InsertValue: {
			auto& iv = cast<InsertValueInst>(in);
			std::vector<i32> v, w;
			if (!ops(iv.getAggregateOperand(), v) || !ops(iv.getInsertedValueOperand(), w)) return unsup(str(in));
			Type* sub;
			unsigned ix = leafIndex(in.getType(), iv.getIndices(), &sub);
			i32 d = dst(&in);
			for (unsigned k = 0; k < v.size(); k++) mov(d + k, k >= ix && k < ix + w.size() ? w[k - ix] : v[k]);
			return;
		}
		case Instruction::ExtractElement: {
			std::vector<i32> v;
			auto* ci = dyn_cast<ConstantInt>(in.getOperand(1));
			if (!ci || !ops(in.getOperand(0), v)) return unsup(str(in));
			mov(dst(&in), v[ci->getZExtValue()]);
			return;
		}
		case Instruction::InsertElement: {
			std::vector<i32> v;
			auto* ci = dyn_cast<ConstantInt>(in.getOperand(2));
			if (!ci || !ops(in.getOperand(0), v)) return unsup(str(in));
			i32 e = op1(in.getOperand(1));
			i32 d = dst(&in);
			for (unsigned k = 0; k < v.size(); k++) mov(d + k, k == ci->getZExtValue() ? e : v[k]);
			return;
		}
		case Instruction::ShuffleVector: {
			auto& sv = cast<ShuffleVectorInst>(in);
			std::vector<i32> v, w;
			if (!ops(in.getOperand(0), v) || !ops(in.getOperand(1), w)) return unsup(str(in));
			v.insert(v.end(), w.begin(), w.end());
			i32 d = dst(&in);
			unsigned k = 0;
			for (int m : sv.getShuffleMask()) mov(d + k++, m < 0 ? v[0] : v[m]);
			return;
		}
		case Instruction::AtomicRMW: {
			auto& a = cast<AtomicRMWInst>(in);
			i32 p = op1(a.getPointerOperand()), v = op1(a.getValOperand());
			i32 d = dst(&in);
			Inst& i = emit(O_ATOMICRMW);
			i.w = width(a.getType()); i.a = p; i.b = v; i.c = (i32)a.getOperation(); i.dst = d;
			return;
		}
		case Instruction::AtomicCmpXchg: {
			auto& a = cast<AtomicCmpXchgInst>(in);
			i32 p = op1(a.getPointerOperand()), v = op1(a.getCompareOperand()), n = op1(a.getNewValOperand());
			i32 d = dst(&in);
			Inst& i = emit(O_CMPXCHG);
			i.w = width(a.getCompareOperand()->getType()); i.a = p; i.b = v; i.c = n; i.dst = d;
			return;
		}
		case Instruction::Fence: return;
		default: return unsup(str(in));
		}
	}
};
}

static void writeInit(u64 addr, const Constant* c)
{
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
		StringRef s = ds->getRawDataValues();
		memWriteInit(addr, s.data(), s.size());
		return;
	}
	if (isa<ConstantArray>(c)) {
		u64 es = DL->getTypeAllocSize(cast<ArrayType>(c->getType())->getElementType());
		for (unsigned i = 0; i < c->getNumOperands(); i++) writeInit(addr + i * es, cast<Constant>(c->getOperand(i)));
		return;
	}
	if (isa<ConstantStruct>(c)) {
		const StructLayout* sl = DL->getStructLayout(cast<StructType>(c->getType()));
		for (unsigned i = 0; i < c->getNumOperands(); i++) writeInit(addr + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
		return;
	}
	std::vector<u64> l;
	if (!constLeaves(c, l)) {
		std::string s;
		raw_string_ostream os(s);
		c->print(os);
		fatal("unsupported constant initialiser: " + os.str());
	}
	const auto& lv = leaves(c->getType());
	for (size_t k = 0; k < l.size(); k++) memWriteInit(addr + lv[k].off, &l[k], (lv[k].w + 7) / 8);
}

void translateFunc(Func* f)
{
	Translator t;
	t.f = f;
	t.lf = (Function*)f->llvm;
	t.run();
	t.finishLpads();
	f->translated = true;
}

Program* loadProgram(const char* path)
{
	CTX = new LLVMContext;
	auto buf = MemoryBuffer::getFile(path);
	if (!buf) fatal(std::string("cannot read ") + path);
	auto m = parseBitcodeFile((*buf)->getMemBufferRef(), *CTX);
	if (!m) fatal("cannot parse bitcode");
	MOD = std::move(*m);
	DL = &MOD->getDataLayout();
	P = new Program;
	u32 id = 0;
	for (auto& fn : *MOD) {
		Func* f = new Func;
		f->id = id++;
		f->name = fn.getName().str();
		f->defined = !fn.isDeclaration();
		f->variadic = fn.isVarArg();
		f->llvm = &fn;
		f->isRepo = f->name.find("graphql") != std::string::npos;
		u64 a = CODE_BASE + (u64)f->id * 16;
		P->funcs.push_back(f);
		P->byName[f->name] = f;
		P->byAddr[a] = f;
		gaddr[&fn] = a;
	}
	std::vector<GlobalVariable*> gvs;
	for (auto& g : MOD->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
		if (g.isDeclaration() && sz < 64) sz = 64;
		u64 a = memAllocGlobal(sz, 16, g.isConstant());
		gaddr[&g] = a;
		P->globals.push_back({ g.getName().str(), a, sz, g.isDeclaration(), g.isConstant() });
		P->globalAddr[g.getName().str()] = a;
		gvs.push_back(&g);
	}
	for (auto& al : MOD->aliases()) {
		u64 v;
		if (constInt(al.getAliasee(), v)) {
			gaddr[&al] = v;
			if (auto* fn = dyn_cast<Function>(al.getAliaseeObject())) P->byName[al.getName().str()] = P->byName[fn->getName().str()];
		}
	}
	for (auto* g : gvs)
		if (g->hasInitializer()) writeInit(gaddr[g], g->getInitializer());
	if (auto* gc = MOD->getGlobalVariable("llvm.global_ctors"))
		if (gc->hasInitializer() && isa<ConstantArray>(gc->getInitializer())) {
			std::vector<std::pair<u64, Func*>> v;
			for (auto& o : gc->getInitializer()->operands()) {
				auto* cs = cast<ConstantStruct>(o);
				auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
				if (fn) v.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), P->byName[fn->getName().str()] });
			}
			std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
			for (auto& x : v) P->ctors.push_back(x.second);
		}
	for (auto* f : P->funcs)
		if (f->defined) {
			translateFunc(f);
			P->numInsts += f->code.size();
		}
	return P;
}
void dropLLVM()
{
	MOD.reset();
	delete CTX;
	leafMemo.clear();
	gaddr.clear();
}
