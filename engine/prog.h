// Internal program representation: LLVM bitcode flattened to a register machine.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int64_t i64;
typedef int32_t i32;

enum Op : u16 {
	O_NOP, O_MOV,
	O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
	O_EQ, O_NE, O_ULT, O_ULE, O_SLT, O_SLE, // gt/ge swapped at translation
	O_TRUNCI, O_ZEXT, O_SEXT,
	O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP, // FCMP: c = predicate
	O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPTRUNC, O_FPEXT,
	O_SELECT,
	O_GEP,   // dst = a + sext(b,w2)*c(imm) + extra(imm, signed 32)   (b may be NOREG)
	O_LOAD,  // dst = [a] of w bits
	O_STORE, // [a] = b of w bits
	O_ALLOCA, // dst, size = b * c(imm) , extra = align
	O_JMP,   // extra = target
	O_BR,    // a cond; b true target (imm) ; c false target (imm)
	O_SWITCH, // a; extra = switch table index
	O_RET,   // extra = list of operands start, c = count
	O_CALL,  // extra = call-site index
	O_LPAD,  // dst (2 regs: ptr, selector), extra = landing pad index
	O_RESUME, // a ptr, b sel
	O_UNREACHABLE,
	O_ATOMICRMW, // dst = old; a ptr ; b val ; c = op ; w
	O_CMPXCHG, // dst, dst+1 = old, success ; a ptr; b cmp ; c new ; w
	O_W128, // 128-bit op: extra = index of W128 record
	O_UNSUP // extra = message index
};
const i32 NOREG = INT32_MIN;

struct Inst {
	u16 op;
	u8 w, w2;
	i32 dst, a, b, c;
	u32 extra;
};

struct Func;
struct CallSite {
	Func* callee = nullptr; // direct
	i32 target = NOREG;     // indirect
	std::vector<i32> args;  // flattened leaf operands
	std::vector<u8> argw;
	std::vector<u32> byval; // per flattened arg: byval size (0 = none)
	u32 nret = 0;           // leaf results
	u8 retw = 0;            // width of the first leaf
	i32 unwind = -1;        // pc of unwind edge (-1: call)
	i32 normal = -1;        // pc of normal edge (-1: fallthrough)
	u32 lpad = 0;
};
struct LPad {
	bool cleanup = false;
	struct Clause { bool filter; std::vector<u64> types; };
	std::vector<Clause> clauses; // catch: one type (0 = catch all)
};
struct Switch {
	u32 def;
	u8 w;
	std::vector<std::pair<u64, u32>> cases;
};
struct W128 {
	u32 kind; // LLVM-ish kind, see ir.cpp
	i32 dst, alo, ahi, blo, bhi;
	u8 w, pred;
	u64 imm;
};
struct Func {
	std::string name;
	u32 id = 0;
	bool defined = false;
	bool translated = false;
	bool isRepo = false;
	u32 nregs = 0;
	u32 nparams = 0; // leaf params
	std::vector<Inst> code;
	std::vector<u64> consts;
	std::vector<CallSite> calls;
	std::vector<LPad> lpads;
	std::vector<Switch> switches;
	std::vector<i32> lists;
	std::vector<W128> w128;
	int ext = -1; // index of extern handler
	bool variadic = false;
	void* llvm = nullptr;
};
struct Global {
	std::string name;
	u64 addr, size;
	bool external, isConst;
};
struct Program {
	std::vector<Func*> funcs;
	std::unordered_map<std::string, Func*> byName;
	std::unordered_map<u64, Func*> byAddr;
	std::vector<Global> globals;
	std::unordered_map<std::string, u64> globalAddr;
	std::vector<Func*> ctors;
	std::vector<std::string> messages;
	u64 numInsts = 0;
};
// memory services used by the loader (interp.cpp)
u64 memAllocGlobal(u64 size, u64 align, bool readonly);
void memWriteInit(u64 addr, const void* data, u64 n);
const u64 CODE_BASE = 0x600000000000ull;
Program* loadProgram(const char* path);
void dropLLVM();
