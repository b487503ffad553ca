#pragma once
#include "expr.h"
#include "prog.h"
#include <cstring>
struct Val { u64 v; Ex e; };
struct Frame {
	Func* f;
	u32 pc;
	u32 rb;   // register base
	u64 sp;   // stack pointer to restore
	i32 dst;  // caller's destination register
	u32 nret;
	CallSite* site; // call site in the caller
};
struct Interp;
typedef void (*ExtFn)(Interp& I, CallSite& cs, Val* a, int n, Val* ret);
struct Ext { std::string name; ExtFn fn; };
extern Program* PROG;

// memory
const u64 ABASE = 0x10000000000ull;
const u64 ASIZE = 3ull << 30;
const u64 GLOBAL_OFF = 1 << 16, GLOBAL_SZ = 128ull << 20;
const u64 STACK_OFF = 256ull << 20, STACK_SZ = 256ull << 20;
const u64 HEAP_OFF = 512ull << 20;
extern u8* SH;  // shadow flags, indexed by addr-ABASE: 1 addressable, 2 symbolic, 4 read-only
extern u32* SE; // expr ids
void memInit();
void touch(u64 off, u64 n); // about to write arena bytes [off, off + n)
void* extSave();
void extRestore(void* p);
u64 heapAlloc(u64 n, u64 align = 16);
bool heapFree(u64 a); // false: invalid
bool addressable(u64 a, u64 n);
Val ldVal(u64 a, unsigned w);          // checked
void stVal(u64 a, unsigned w, Val v);  // checked
inline Ex toE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
inline Val fromE(Ex e) { if (isC(e)) return Val { cv(e), 0 }; return Val { 0, e }; }
inline Val C(u64 v) { return Val { v, 0 }; }

bool branchOn(Ex cond);                // forks; returns the direction taken here
u64 concretize(Val v, unsigned w, const char* what, unsigned limit = 600);
[[noreturn]] void pathEnd(int status);
[[noreturn]] void violation(const char* kind, const std::string& msg);
void reportViolation(const char* kind, const std::string& msg, const std::vector<u64>& model);
[[noreturn]] void engineError(const std::string& msg);
std::string readCStr(u64 a, unsigned max = 400);
std::string backtrace();
void throwObj(u64 obj, u64 tinfo);
u64 typeinfoOf(const char* sym);
u64 sxNewSym(const char* name, unsigned w, bool& isNew);
void registerExterns();
ExtFn findExtern(const std::string& name);
struct Exn { u64 tinfo, adj; int handlers; };
extern std::unordered_map<u64, Exn> EXNS;
extern std::vector<u64> CAUGHT;
u64 curThrowUnwind(u64 obj);
bool dynCast(u64 src, u64 dstType, u64& out);
void setPendingThrow(u64 obj);
void terminateNow(const char* why);
void addNote(const std::string& key, std::vector<Ex> bytes);
void coverId(const std::string& id);
void setOpaqueMode(int);
extern const char* OPT_HARNESS_ARG;
