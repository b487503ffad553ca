#pragma once
#include "prog.h"
// Hash-consed bit-vector expressions. Id 0 = none.
enum EOp : u8 {
	E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
	E_AND, E_OR, E_XOR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
	E_FCMP, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FPTRUNC, E_FPEXT, E_FADD, E_FSUB, E_FMUL, E_FDIV
};
struct ENode {
	u8 op, w, aux, aux2;
	u32 a, b, c;
	u64 val; // const value / var index / extract offset
	u32 sup; // support id
};
typedef u32 Ex;
extern std::vector<ENode> EN;
Ex mkConst(u64 v, unsigned w);
Ex mkVar(unsigned idx, unsigned w);
Ex mkBin(EOp op, Ex a, Ex b);
Ex mkNot(Ex a); // width 1
Ex mkAnd1(Ex a, Ex b);
Ex mkOr1(Ex a, Ex b);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkZext(Ex a, unsigned w);
Ex mkSext(Ex a, unsigned w);
Ex mkExtract(Ex a, unsigned off, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkFp(EOp op, unsigned w, Ex a, Ex b, unsigned aux, unsigned aux2);
inline bool isC(Ex e) { return EN[e].op == E_CONST; }
inline u64 cv(Ex e) { return EN[e].val; }
inline unsigned wd(Ex e) { return EN[e].w; }
inline u64 msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
std::string exprStr(Ex e, int depth = 6);
u64 evalNodeOp(const ENode& n, u64 a, u64 b, u64 c);

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> VARS;
extern std::vector<u64> MODEL; // current satisfying assignment
u64 evalEx(Ex e);              // under MODEL
void modelChanged();

enum Sat { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
void solverInit(unsigned timeoutMs);
void pcAdd(Ex c);                      // add a constraint (must hold in MODEL)
Sat pcCheck(Ex c, std::vector<u64>* model); // PC && c satisfiable?
Sat pcCheckFull();                      // whole PC with Z3, for self-checks
extern std::vector<Ex> PC;
std::vector<Ex> pcForVar(u32 var);
bool pcKnown(Ex c); // c or its negation is one of the constraints
void* solverSave();
void solverRestore(void* p);
bool supSingle(Ex e, u32& var); // support is exactly one <=8 bit variable
struct SolverStats { u64 queries, domQueries, sat, unsat, unknown; u64 us; };
extern SolverStats SST;
// enumeration of the possible values of e under PC; returns false if more than limit
bool enumValues(Ex e, std::vector<u64>& out, unsigned limit, bool& unknown);
