#include "interp.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <memory>
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Program* PROG;
u8* SH;
u32* SE;
static u64 globTop = GLOBAL_OFF, heapTop = HEAP_OFF, sp = STACK_OFF;
std::unordered_map<u64, Exn> EXNS;
std::vector<u64> CAUGHT;
const char* OPT_HARNESS_ARG = "";

// ---- shared state across processes ------------------------------------------------------------
struct Shared {
	volatile int lock;
	volatile int freeTokens, live, stop, truncated, engineErr;
	volatile u64 paths, done, killed, forks, instrs, queries, domq, sat, unsat, unknown, solverUs, checks, violations, samples, steps;
	unsigned msgHash[64], msgCount[64], recorded;
	char errmsg[4096];
	char cover[512][48];
	volatile u64 coverN[512];
	volatile u8 func[1 << 20];
};
static Shared* G;
static std::string RUN;
static u64 myInstrs = 0;
static u64 maxInstrs = 400000000ull;
static unsigned maxViol = 12;
static double deadline = 1e18;
static bool traceOn = false;
struct NoteRec { std::string key; std::vector<Ex> bytes; };
static std::vector<NoteRec> NOTES;
static double nowS()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static void lk() { while (__sync_lock_test_and_set(&G->lock, 1)) sched_yield(); }
static void ulk() { __sync_lock_release(&G->lock); }

// ---- choice points ----------------------------------------------------------------------------
// The exploration is depth first inside one process: a choice point keeps the registers, frames and
// solver state, and the blocks of memory written since it are saved so that they can be put back.
// When a worker slot is free the oldest choice point is handed to a forked worker.
struct Blk {
	u64 idx;
	u32 epoch;
	bool sym;
	u8 mem[256], sh[256];
	std::vector<u32> se;
};
struct ChoicePoint {
	std::vector<Val> R;
	std::vector<Frame> FR;
	u64 heapTop, sp, pathInstrs;
	std::unordered_map<u64, Exn> EXNS;
	std::vector<u64> CAUGHT;
	size_t notes;
	void* solver;
	void* ext;
	std::vector<u64> model;
	Ex other;
	u32 epoch;
	std::vector<std::unique_ptr<Blk>> undo;
};
static std::vector<std::unique_ptr<ChoicePoint>> CPS;
static u32* BEPOCH;
static u32 curEpoch = 0, epochCtr = 0;
static u64 pathInstrs = 0;
struct PathEnd {};
struct PathResume {};
static void saveBlock(u64 b)
{
	auto k = std::make_unique<Blk>();
	k->idx = b;
	k->epoch = BEPOCH[b];
	memcpy(k->mem, (void*)(ABASE + b * 256), 256);
	memcpy(k->sh, SH + b * 256, 256);
	k->sym = false;
	for (int i = 0; i < 256; i += 8) {
		u64 x;
		memcpy(&x, k->sh + i, 8);
		if (x & 0x0202020202020202ull) { k->sym = true; break; }
	}
	if (k->sym) k->se.assign(SE + b * 256, SE + b * 256 + 256);
	BEPOCH[b] = curEpoch;
	CPS.back()->undo.push_back(std::move(k));
}
void touch(u64 off, u64 n)
{
	if (CPS.empty() || !n) return;
	for (u64 b = off >> 8; b <= (off + n - 1) >> 8; b++)
		if (BEPOCH[b] != curEpoch) saveBlock(b);
}
static void undoBlocks(ChoicePoint& c)
{
	for (size_t i = c.undo.size(); i-- > 0;) {
		Blk& k = *c.undo[i];
		memcpy((void*)(ABASE + k.idx * 256), k.mem, 256);
		memcpy(SH + k.idx * 256, k.sh, 256);
		if (k.sym) memcpy(SE + k.idx * 256, k.se.data(), 1024);
		BEPOCH[k.idx] = k.epoch;
	}
	c.undo.clear();
}

// ---- memory -----------------------------------------------------------------------------------
void memInit()
{
	auto mm = [](u64 at, u64 sz) {
		void* p = mmap((void*)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); exit(2); }
		return p;
	};
	mm(ABASE, ASIZE);
	SH = (u8*)mm(0, ASIZE);
	SE = (u32*)mm(0, ASIZE * 4);
	BEPOCH = (u32*)mm(0, (ASIZE >> 8) * 4);
}
u64 memAllocGlobal(u64 size, u64 align, bool ro)
{
	globTop = (globTop + 31) & ~15ull;
	if (globTop + size > GLOBAL_OFF + GLOBAL_SZ) { fprintf(stderr, "globals too big\n"); exit(2); }
	u64 a = globTop;
	memset(SH + a, ro ? 5 : 1, size);
	globTop += size + 16;
	return ABASE + a;
}
void memWriteInit(u64 addr, const void* data, u64 n) { memcpy((void*)addr, data, n); }
u64 heapAlloc(u64 n, u64 align)
{
	if (align < 16) align = 16;
	if (n > (512ull << 20)) violation("huge-alloc", "allocation of " + std::to_string(n) + " bytes");
	heapTop = (heapTop + 32 + align - 1) & ~(align - 1);
	if (heapTop + n + 64 > ASIZE) engineError("heap arena exhausted");
	u64 a = heapTop;
	touch(a - 16, n + 16);
	*(u64*)(ABASE + a - 16) = 0xA110C8EDA110C8EDull;
	*(u64*)(ABASE + a - 8) = n;
	memset(SH + a, 1, n);
	// pattern so that reads of uninitialised heap are deterministic
	memset((void*)(ABASE + a), 0xCD, n);
	heapTop += n + 16;
	return ABASE + a;
}
bool heapFree(u64 p)
{
	if (!p) return true;
	u64 a = p - ABASE;
	if (a < HEAP_OFF + 16 || a >= heapTop || *(u64*)(p - 16) != 0xA110C8EDA110C8EDull) return false;
	u64 n = *(u64*)(p - 8);
	touch(a - 16, n + 16);
	*(u64*)(p - 16) = 0xF3EEDull;
	memset(SH + a, 0, n);
	return true;
}
bool addressable(u64 a, u64 n)
{
	u64 o = a - ABASE;
	if (o >= ASIZE || o + n > ASIZE) return false;
	for (u64 i = 0; i < n; i++) if (!(SH[o + i] & 1)) return false;
	return true;
}
static void badAccess(u64 a, u64 n, bool write)
{
	char b[160];
	u64 o = a - ABASE;
	const char* what = o >= ASIZE ? (a < 4096 ? "null pointer" : "wild pointer") : "out-of-bounds or freed memory";
	snprintf(b, sizeof b, "%s of %llu bytes at %s (0x%llx)", write ? "write" : "read", (unsigned long long)n, what, (unsigned long long)a);
	violation("memory", b);
}
static const u64 ONES = 0x0101010101010101ull;
Val ldVal(u64 a, unsigned w)
{
	unsigned n = (w + 7) / 8;
	u64 o = a - ABASE;
	if (__builtin_expect(o >= ASIZE - 8, 0)) badAccess(a, n, false);
	u64 s = 0;
	memcpy(&s, SH + o, n);
	u64 want = n == 8 ? ONES : ONES & ((1ull << (8 * n)) - 1);
	if ((s & want) != want) badAccess(a, n, false);
	if (!(s & (want << 1))) {
		u64 v = 0;
		memcpy(&v, (void*)a, n);
		return C(v & msk(w));
	}
	Ex e = 0;
	for (unsigned i = 0; i < n; i++) {
		Ex b = (SH[o + i] & 2) ? SE[o + i] : mkConst(*(u8*)(a + i), 8);
		e = i ? mkConcat(b, e) : b;
	}
	if (w < 8 * n) e = mkExtract(e, 0, w);
	return fromE(e);
}
static void stRaw(u64 a, unsigned w, Val v)
{
	unsigned n = (w + 7) / 8;
	u64 o = a - ABASE;
	if (!v.e) {
		memcpy((void*)a, &v.v, n);
		for (unsigned i = 0; i < n; i++) SH[o + i] &= ~2;
		return;
	}
	Ex e = mkZext(v.e, n * 8);
	for (unsigned i = 0; i < n; i++) {
		Ex b = mkExtract(e, i * 8, 8);
		if (isC(b)) { *(u8*)(a + i) = cv(b); SH[o + i] &= ~2; }
		else { SH[o + i] |= 2; SE[o + i] = b; }
	}
}
void stVal(u64 a, unsigned w, Val v)
{
	unsigned n = (w + 7) / 8;
	u64 o = a - ABASE;
	if (__builtin_expect(o >= ASIZE - 8, 0)) badAccess(a, n, true);
	u64 s = 0;
	memcpy(&s, SH + o, n);
	u64 want = n == 8 ? ONES : ONES & ((1ull << (8 * n)) - 1);
	if ((s & (want * 5)) != want) badAccess(a, n, true);
	if (!CPS.empty()) {
		u64 b = o >> 8, b2 = (o + n - 1) >> 8;
		if (BEPOCH[b] != curEpoch) saveBlock(b);
		if (b2 != b && BEPOCH[b2] != curEpoch) saveBlock(b2);
	}
	if (!v.e && !(s & (want << 1))) {
		memcpy((void*)a, &v.v, n);
		return;
	}
	stRaw(a, w, v);
}
std::string readCStr(u64 a, unsigned max)
{
	std::string s;
	for (unsigned i = 0; i < max && addressable(a + i, 1); i++) {
		u8 c = (SH[a + i - ABASE] & 2) ? (u8)evalEx(SE[a + i - ABASE]) : *(u8*)(a + i);
		if (!c) break;
		s += c;
	}
	return s;
}

// ---- path management --------------------------------------------------------------------------
static std::vector<Val> R; // register stack
static std::vector<Frame> FR;
static std::string demangle(const std::string& n)
{
	int st;
	char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
	if (!d) return n;
	std::string s = d;
	free(d);
	return s.size() > 160 ? s.substr(0, 160) + "..." : s;
}
std::string backtrace()
{
	std::string s;
	int k = 0;
	for (size_t i = FR.size(); i-- > 0 && k < 14; k++) s += (k ? " < " : "") + demangle(FR[i].f->name);
	return s;
}
static std::string jstr(const std::string& s)
{
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
static void flushStats()
{
	__sync_fetch_and_add(&G->instrs, myInstrs); myInstrs = 0;
	__sync_fetch_and_add(&G->queries, SST.queries);
	__sync_fetch_and_add(&G->domq, SST.domQueries);
	__sync_fetch_and_add(&G->sat, SST.sat);
	__sync_fetch_and_add(&G->unsat, SST.unsat);
	__sync_fetch_and_add(&G->unknown, SST.unknown);
	__sync_fetch_and_add(&G->solverUs, SST.us);
	SST = SolverStats {};
}
static void writeModel(const std::string& path, const std::string& head, const std::vector<u64>& model)
{
	std::vector<u64> save = MODEL;
	MODEL = model;
	modelChanged();
	std::string s = "{" + head + "\"vars\":[";
	for (size_t i = 0; i < VARS.size(); i++) s += (i ? "," : "") + std::string("[") + jstr(VARS[i].name) + "," + std::to_string(VARS[i].w) + "," + std::to_string(model[i]) + "]";
	s += "],\"notes\":[";
	bool first = true;
	for (auto& n : NOTES) {
		std::string t;
		for (Ex e : n.bytes) t += (char)evalEx(e);
		s += (first ? "" : ",") + std::string("[") + jstr(n.key) + "," + jstr(t) + "]";
		first = false;
	}
	s += "]}\n";
	MODEL = save;
	modelChanged();
	std::string tmp = path + ".tmp";
	FILE* f = fopen(tmp.c_str(), "w");
	if (f) {
		fwrite(s.data(), 1, s.size(), f);
		fclose(f);
		rename(tmp.c_str(), path.c_str());
	}
}
void addNote(const std::string& key, std::vector<Ex> bytes) { NOTES.push_back({ key, std::move(bytes) }); }
void coverId(const std::string& id)
{
	unsigned h = std::hash<std::string>()(id) % 512;
	for (unsigned k = 0; k < 512; k++, h = (h + 1) % 512) {
		if (G->cover[h][0] == 0) {
			lk();
			if (G->cover[h][0] == 0) strncpy(G->cover[h], id.c_str(), 47);
			ulk();
		}
		if (!strncmp(G->cover[h], id.c_str(), 47)) { __sync_fetch_and_add(&G->coverN[h], 1); return; }
	}
}
void reportViolation(const char* kind, const std::string& msg, const std::vector<u64>& model)
{
	unsigned h = (unsigned)std::hash<std::string>()(msg) | 1;
	lk();
	unsigned k = 0;
	while (k < 64 && G->msgHash[k] && G->msgHash[k] != h) k++;
	unsigned seen = 2;
	if (k < 64) { G->msgHash[k] = h; seen = G->msgCount[k]++; }
	bool known = !msg.compare(0, 5, "KNOWN");
	if (!known) G->violations++;
	bool rec = seen < (known ? 1u : 2u) && G->recorded < maxViol;
	u64 n = rec ? G->recorded++ : 0;
	// enough distinct counterexamples: stop
	if (!known && (G->recorded >= maxViol || G->violations >= 64)) G->stop = 1;
	ulk();
	if (rec) {
		std::string head = "\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(backtrace()) + ",";
		writeModel(RUN + "/viol-" + std::to_string(n) + ".json", head, model);
	}
}
void violation(const char* kind, const std::string& msg)
{
	reportViolation(kind, msg, MODEL);
	pathEnd(3);
}
void engineError(const std::string& msg)
{
	lk();
	G->engineErr++;
	if (G->engineErr == 1) {
		snprintf(G->errmsg, sizeof G->errmsg, "%s | at %s", msg.c_str(), backtrace().c_str());
	}
	ulk();
	pathEnd(4);
}
[[noreturn]] static void workerExit()
{
	flushStats();
	lk();
	G->live--;
	G->freeTokens++;
	ulk();
	_exit(0);
}
void pathEnd(int status)
{
	flushStats();
	if (status == 0) {
		u64 k = __sync_fetch_and_add(&G->done, 1);
		bool want = k < 6 || (k & (k - 1)) == 0 || k % 997 == 0;
		if (want && G->samples < 40) {
			u64 s = __sync_fetch_and_add(&G->samples, 1);
			writeModel(RUN + "/sample-" + std::to_string(s) + ".json", "", MODEL);
		}
	} else if (status != 3) __sync_fetch_and_add(&G->killed, 1);
	if (G->stop) workerExit();
	throw PathEnd {};
}
static void checkStop()
{
	if (G->stop || nowS() > deadline) {
		if (!G->stop) { G->truncated = 1; G->stop = 1; }
		workerExit();
	}
}
static void restoreTop()
{
	ChoicePoint& c = *CPS.back();
	undoBlocks(c);
	R.swap(c.R);
	FR.swap(c.FR);
	heapTop = c.heapTop;
	sp = c.sp;
	pathInstrs = c.pathInstrs;
	EXNS.swap(c.EXNS);
	CAUGHT.swap(c.CAUGHT);
	NOTES.resize(c.notes);
	solverRestore(c.solver);
	extRestore(c.ext);
	MODEL = c.model;
	modelChanged();
	pcAdd(c.other);
	FR.back().pc--; // execute the branching instruction again
	CPS.pop_back();
	curEpoch = CPS.empty() ? 0 : CPS.back()->epoch;
}
static double lastShare = 0;
static void maybeShare()
{
	if (G->freeTokens <= 0 || CPS.empty()) return;
	double t = nowS();
	if (t - lastShare < 0.004) return;
	lastShare = t;
	checkStop();
	lk();
	if (G->freeTokens <= 0) { ulk(); return; }
	G->freeTokens--;
	G->live++;
	G->forks++;
	ulk();
	flushStats();
	pid_t pid = fork();
	if (pid < 0) {
		lk();
		G->live--;
		G->freeTokens++;
		ulk();
		return;
	}
	if (pid == 0) {
		while (CPS.size() > 1) {
			undoBlocks(*CPS.back());
			CPS.pop_back();
		}
		lastShare = nowS();
		restoreTop();
		throw PathResume {};
	}
	CPS.erase(CPS.begin());
	if (CPS.empty()) curEpoch = 0;
}
bool branchOn(Ex c)
{
	if (isC(c)) return cv(c);
	bool mv = evalEx(c);
	if (pcKnown(c)) return mv;
	Ex here = mv ? c : mkNot(c), other = mv ? mkNot(c) : c;
	std::vector<u64> m;
	Sat r = pcCheck(other, &m);
	if (r == UNSAT) return mv;
	if (r == UNKNOWN) {
		G->truncated = 1;
		pcAdd(here);
		return mv;
	}
	if (traceOn) fprintf(stderr, "[%d] fork at %s: %s\n", getpid(), demangle(FR.back().f->name).substr(0, 100).c_str(), exprStr(c).c_str());
	auto cp = std::make_unique<ChoicePoint>();
	cp->R = R;
	cp->FR = FR;
	cp->heapTop = heapTop;
	cp->sp = sp;
	cp->pathInstrs = pathInstrs;
	cp->EXNS = EXNS;
	cp->CAUGHT = CAUGHT;
	cp->notes = NOTES.size();
	cp->solver = solverSave();
	cp->ext = extSave();
	cp->model = std::move(m);
	cp->other = other;
	cp->epoch = curEpoch = ++epochCtr;
	CPS.push_back(std::move(cp));
	G->steps = G->steps + 1;
	pcAdd(here);
	maybeShare();
	return mv;
}
u64 concretize(Val v, unsigned w, const char* what, unsigned limit)
{
	if (!v.e) return v.v;
	std::vector<u64> vals;
	bool unk;
	if (!enumValues(v.e, vals, limit, unk)) {
		if (unk) { G->truncated = 1; pathEnd(5); }
		engineError(std::string("too many values for ") + what + ": " + exprStr(v.e));
	}
	std::sort(vals.begin(), vals.end());
	for (size_t i = 0; i + 1 < vals.size(); i++)
		if (branchOn(mkBin(E_EQ, v.e, mkConst(vals[i], w)))) return vals[i];
	u64 last = vals.back();
	Ex eq = mkBin(E_EQ, v.e, mkConst(last, w));
	pcAdd(eq);
	return last;
}
// resolve a symbolic pointer: small sets become ITE loads, otherwise fork
static bool objBounds(u64 a, u64& lo, u64& hi)
{
	u64 o = a - ABASE;
	if (o >= ASIZE || !(SH[o] & 1)) return false;
	lo = hi = o;
	while (lo > 0 && (SH[lo - 1] & 1) && o - lo < 65536) lo--;
	while (hi + 1 < ASIZE && (SH[hi + 1] & 1) && hi - o < 65536) hi++;
	hi++;
	return true;
}
static Val ldSym(Ex pe, unsigned w)
{
	std::vector<u64> addrs;
	bool unk;
	if (!enumValues(pe, addrs, 700, unk)) {
		if (unk) { G->truncated = 1; pathEnd(5); }
		engineError("too many addresses for load: " + exprStr(pe));
	}
	unsigned n = (w + 7) / 8;
	// out-of-bounds candidates: fork so that the violating side is reported with a proper model
	std::vector<u64> good;
	for (u64 a : addrs) {
		if (!addressable(a, n)) {
			if (branchOn(mkBin(E_EQ, pe, mkConst(a, 64)))) badAccess(a, n, false);
		} else good.push_back(a);
	}
	if (good.empty()) pathEnd(5);
	// group by loaded value
	std::vector<std::pair<Ex, std::vector<u64>>> groups;
	for (u64 a : good) {
		Ex v = toE(ldVal(a, w), w);
		bool f = false;
		for (auto& g : groups) if (g.first == v) { g.second.push_back(a); f = true; break; }
		if (!f) groups.push_back({ v, { a } });
	}
	std::sort(groups.begin(), groups.end(), [](auto& x, auto& y) { return x.second.size() > y.second.size(); });
	Ex r = groups[0].first;
	for (size_t i = 1; i < groups.size(); i++) {
		Ex c = mkConst(0, 1);
		for (u64 a : groups[i].second) c = mkOr1(c, mkBin(E_EQ, pe, mkConst(a, 64)));
		r = mkIte(c, groups[i].first, r);
	}
	return fromE(r);
}

// ---- exceptions -------------------------------------------------------------------------------
static u64 vtSI, vtVMI, vtClass;
u64 typeinfoOf(const char* sym)
{
	auto it = PROG->globalAddr.find(sym);
	return it == PROG->globalAddr.end() ? 0 : it->second;
}
static u64 rd64(u64 a) { return addressable(a, 8) ? *(u64*)a : 0; }
// find base in the class hierarchy of t; off = offset of base subobject within object at obj
static bool findBase(u64 t, u64 base, u64 obj, i64 off, i64& out, int depth = 0)
{
	if (t == base) { out = off; return true; }
	if (depth > 20 || !t) return false;
	u64 vt = rd64(t);
	if (vtSI && vt == vtSI + 16) return findBase(rd64(t + 16), base, obj, off, out, depth + 1);
	if (vtVMI && vt == vtVMI + 16) {
		u32 n = *(u32*)(t + 20);
		for (u32 i = 0; i < n; i++) {
			u64 bt = rd64(t + 24 + i * 16);
			i64 fl = (i64)rd64(t + 32 + i * 16);
			i64 bo = fl >> 8;
			if (fl & 1) { // virtual base: offset stored in vtable
				u64 vp = rd64(obj + off);
				bo = (i64)rd64(vp + bo);
			}
			if (findBase(bt, base, obj, off + bo, out, depth + 1)) return true;
		}
	}
	return false;
}
bool dynCast(u64 src, u64 dstType, u64& out)
{
	u64 vp = rd64(src);
	i64 ott = (i64)rd64(vp - 16);
	u64 ti = rd64(vp - 8);
	u64 complete = src + ott;
	i64 off;
	if (findBase(ti, dstType, complete, 0, off)) { out = complete + off; return true; }
	out = 0;
	return false;
}
static u64 pendObj = 0;
static u32 pendSel = 0;
static bool haveThrow = false;
static u64 throwingObj = 0;
void setPendingThrow(u64 obj) { haveThrow = true; throwingObj = obj; }
static bool clauseMatch(u64 ct, u64 obj, u64& adj)
{
	adj = obj;
	if (!ct) return true;
	Exn& x = EXNS[obj];
	i64 off;
	if (findBase(x.tinfo, ct, obj, 0, off)) { adj = obj + off; return true; }
	return false;
}
void terminateNow(const char* why) { violation("terminate", why); }
static void popFrame()
{
	Frame& fr = FR.back();
	if (sp > fr.sp) {
		touch(fr.sp, sp - fr.sp);
		memset(SH + fr.sp, 0, sp - fr.sp);
		sp = fr.sp;
	}
	R.resize(fr.rb);
	FR.pop_back();
}
static void unwind(u64 obj)
{
	// phase 1
	bool found = false;
	for (size_t i = FR.size(); i-- > 0 && !found;) {
		Frame& fr = FR[i];
		// call site currently active in frame i
		CallSite* cs = i + 1 < FR.size() ? FR[i + 1].site : &fr.f->calls[fr.f->code[fr.pc - 1].extra];
		if (i + 1 == FR.size() && fr.f->code[fr.pc - 1].op != O_CALL) continue; // resume
		if (!cs || cs->unwind < 0) continue;
		for (auto& c : fr.f->lpads[cs->lpad].clauses) {
			u64 adj;
			if (c.filter) {
				bool ok = false;
				for (u64 t : c.types) if (clauseMatch(t, obj, adj)) ok = true;
				if (!ok) found = true;
			} else if (clauseMatch(c.types[0], obj, adj)) { found = true; break; }
		}
	}
	if (!found) {
		std::string nm = readCStr(rd64(EXNS[obj].tinfo + 8));
		violation("uncaught", "exception of type " + demangle("_ZTS" + nm) + " is not caught");
	}
	bool top = true;
	while (true) {
		Frame& fr = FR.back();
		Inst& in = fr.f->code[fr.pc - 1];
		if (in.op == O_CALL && !(top && false)) {
			CallSite& cs = fr.f->calls[in.extra];
			if (cs.unwind >= 0) {
				LPad& lp = fr.f->lpads[cs.lpad];
				bool land = lp.cleanup;
				u32 sel = 0;
				u64 adj = obj;
				for (auto& c : lp.clauses) {
					if (c.filter) {
						bool ok = false;
						for (u64 t : c.types) if (clauseMatch(t, obj, adj)) ok = true;
						if (!ok) { land = true; sel = (u32)-1; break; }
					} else if (clauseMatch(c.types[0], obj, adj)) {
						land = true;
						sel = c.types[0] ? (u32)c.types[0] : 1;
						break;
					}
				}
				if (land) {
					EXNS[obj].adj = adj;
					pendObj = obj;
					pendSel = sel;
					fr.pc = cs.unwind;
					return;
				}
			}
		}
		top = false;
		popFrame();
		if (FR.empty()) violation("uncaught", "exception escapes");
	}
}

// ---- main loop --------------------------------------------------------------------------------
static void pushCall(Func* f, CallSite* site, i32 dst, Val* args, int n)
{
	if (FR.size() > 40000) violation("stack-overflow", "recursion deeper than 40000 frames");
	u32 rb = R.size();
	R.resize(rb + f->nregs);
	for (int i = 0; i < n && i < (int)f->nparams; i++) R[rb + i] = args[i];
	FR.push_back(Frame { f, 0, rb, sp, dst, 0, site });
	if (f->isRepo) G->func[f->id & 0xfffff] = 1;
}
static u64 stackAlloc(u64 n, u64 align)
{
	if (align < 16) align = 16;
	u64 a = (sp + 16 + align - 1) & ~(align - 1);
	if (a + n + 32 > STACK_OFF + STACK_SZ) violation("stack-overflow", "stack exhausted");
	touch(a, n);
	memset(SH + a, 1, n);
	sp = a + n + 16;
	return ABASE + a;
}
static double bD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static float bF(u64 v) { float d; u32 x = v; memcpy(&d, &x, 4); return d; }
static u64 Db(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 Fb(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static inline i64 sxt(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

static void runLoop()
{
	Frame* fr = &FR.back();
	const Inst* code = fr->f->code.data();
	const u64* K = fr->f->consts.data();
	Val* r = R.data() + fr->rb;
	u32 pc = fr->pc;
	auto reload = [&]() {
		fr = &FR.back();
		code = fr->f->code.data();
		K = fr->f->consts.data();
		r = R.data() + fr->rb;
		pc = fr->pc;
	};
	auto get = [&](i32 x) -> Val { return x >= 0 ? r[x] : C(K[~x]); };
	std::vector<Val> argbuf;
	u64 tick = 0;
	for (;;) {
		const Inst& in = code[pc++];
		if (__builtin_expect((++tick & 0xffff) == 0, 0)) {
			myInstrs += 0x10000;
			pathInstrs += 0x10000;
			if (pathInstrs > maxInstrs) { fr->pc = pc; violation("hang", "more than " + std::to_string(maxInstrs) + " instructions on one path"); }
			if (G->stop || nowS() > deadline) { fr->pc = pc; checkStop(); }
			if (G->freeTokens > 0) maybeShare();
		}
		switch (in.op) {
		case O_NOP: break;
		case O_MOV: r[in.dst] = get(in.a); break;
#define BINOP(OPC, EXPR, EOPC) \
	case OPC: { \
		Val a = get(in.a), b = get(in.b); \
		if (!(a.e | b.e)) { u64 x = a.v, y = b.v; r[in.dst] = C((EXPR) & msk(in.w)); } \
		else { fr->pc = pc; r[in.dst] = fromE(mkBin(EOPC, toE(a, in.w), toE(b, in.w))); } \
		break; \
	}
			BINOP(O_ADD, x + y, E_ADD)
			BINOP(O_SUB, x - y, E_SUB)
			BINOP(O_MUL, x* y, E_MUL)
			BINOP(O_AND, x& y, E_AND)
			BINOP(O_OR, x | y, E_OR)
			BINOP(O_XOR, x ^ y, E_XOR)
			BINOP(O_SHL, y >= in.w ? 0 : x << y, E_SHL)
			BINOP(O_LSHR, y >= in.w ? 0 : x >> y, E_LSHR)
			BINOP(O_ASHR, (u64)(sxt(x, in.w) >> (y >= in.w ? in.w - 1 : y)), E_ASHR)
#define DIVOP(OPC, EXPR, EOPC) \
	case OPC: { \
		Val a = get(in.a), b = get(in.b); \
		fr->pc = pc; \
		if (b.e) { if (branchOn(mkBin(E_EQ, b.e, mkConst(0, in.w)))) violation("div0", "division by zero"); } \
		else if (!b.v) violation("div0", "division by zero"); \
		if (!(a.e | b.e)) { u64 x = a.v, y = b.v; i64 sx_ = sxt(x, in.w), sy_ = sxt(y, in.w); (void)sx_; (void)sy_; r[in.dst] = C((EXPR) & msk(in.w)); } \
		else r[in.dst] = fromE(mkBin(EOPC, toE(a, in.w), toE(b, in.w))); \
		break; \
	}
			DIVOP(O_UDIV, x / y, E_UDIV)
			DIVOP(O_UREM, x % y, E_UREM)
			DIVOP(O_SDIV, sy_ == -1 ? 0 - (u64)sx_ : (u64)(sx_ / sy_), E_SDIV)
			DIVOP(O_SREM, sy_ == -1 ? 0 : (u64)(sx_ % sy_), E_SREM)
#define CMPOP(OPC, EXPR, MK) \
	case OPC: { \
		Val a = get(in.a), b = get(in.b); \
		if (!(a.e | b.e)) { u64 x = a.v, y = b.v; r[in.dst] = C((EXPR) ? 1 : 0); } \
		else { Ex ea = toE(a, in.w), eb = toE(b, in.w); r[in.dst] = fromE(MK); } \
		break; \
	}
			CMPOP(O_EQ, x == y, mkBin(E_EQ, ea, eb))
			CMPOP(O_NE, x != y, mkNot(mkBin(E_EQ, ea, eb)))
			CMPOP(O_ULT, x < y, mkBin(E_ULT, ea, eb))
			CMPOP(O_ULE, x <= y, mkBin(E_ULE, ea, eb))
			CMPOP(O_SLT, sxt(x, in.w) < sxt(y, in.w), mkBin(E_SLT, ea, eb))
			CMPOP(O_SLE, sxt(x, in.w) <= sxt(y, in.w), mkBin(E_SLE, ea, eb))
		case O_TRUNCI: {
			Val a = get(in.a);
			if (!a.e) r[in.dst] = C(a.v & msk(in.w));
			else r[in.dst] = fromE(mkExtract(a.e, 0, in.w));
			break;
		}
		case O_ZEXT: {
			Val a = get(in.a);
			if (!a.e) r[in.dst] = a;
			else r[in.dst] = fromE(mkZext(a.e, in.w));
			break;
		}
		case O_SEXT: {
			Val a = get(in.a);
			if (!a.e) r[in.dst] = C((u64)sxt(a.v, in.w2) & msk(in.w));
			else r[in.dst] = fromE(mkSext(a.e, in.w));
			break;
		}
#define FOP(OPC, DEXPR, FEXPR, EOPC) \
	case OPC: { \
		Val a = get(in.a), b = get(in.b); \
		if (!(a.e | b.e)) { \
			if (in.w == 64) { double x = bD(a.v), y = bD(b.v); r[in.dst] = C(Db(DEXPR)); } \
			else { float x = bF(a.v), y = bF(b.v); r[in.dst] = C(Fb(FEXPR)); } \
		} else r[in.dst] = fromE(mkFp(EOPC, in.w, toE(a, in.w), toE(b, in.w), 0, 0)); \
		break; \
	}
			FOP(O_FADD, x + y, x + y, E_FADD)
			FOP(O_FSUB, x - y, x - y, E_FSUB)
			FOP(O_FMUL, x* y, x* y, E_FMUL)
			FOP(O_FDIV, x / y, x / y, E_FDIV)
		case O_FREM: {
			Val a = get(in.a), b = get(in.b);
			fr->pc = pc;
			if (a.e | b.e) engineError("symbolic frem");
			r[in.dst] = in.w == 64 ? C(Db(fmod(bD(a.v), bD(b.v)))) : C(Fb(fmodf(bF(a.v), bF(b.v))));
			break;
		}
		case O_FCMP: {
			Val a = get(in.a), b = get(in.b);
			r[in.dst] = fromE(mkFp(E_FCMP, 1, toE(a, in.w), toE(b, in.w), in.c, 0));
			break;
		}
		case O_FPTOSI: r[in.dst] = fromE(mkFp(E_FPTOSI, in.w, toE(get(in.a), in.w2), 0, 0, 0)); break;
		case O_FPTOUI: r[in.dst] = fromE(mkFp(E_FPTOUI, in.w, toE(get(in.a), in.w2), 0, 0, 0)); break;
		case O_SITOFP: r[in.dst] = fromE(mkFp(E_SITOFP, in.w, toE(get(in.a), in.w2), 0, 0, 0)); break;
		case O_UITOFP: r[in.dst] = fromE(mkFp(E_UITOFP, in.w, toE(get(in.a), in.w2), 0, 0, 0)); break;
		case O_FPTRUNC: r[in.dst] = fromE(mkFp(E_FPTRUNC, in.w, toE(get(in.a), in.w2), 0, 0, 0)); break;
		case O_FPEXT: r[in.dst] = fromE(mkFp(E_FPEXT, in.w, toE(get(in.a), in.w2), 0, 0, 0)); break;
		case O_SELECT: {
			Val c = get(in.a);
			if (!c.e) r[in.dst] = get(c.v ? in.b : in.c);
			else {
				Val a = get(in.b), b = get(in.c);
				r[in.dst] = fromE(mkIte(c.e, toE(a, in.w), toE(b, in.w)));
			}
			break;
		}
		case O_GEP: {
			Val a = get(in.a);
			u64 off = (u64)(i64)(i32)in.extra;
			if (in.b == NOREG) {
				if (!a.e) r[in.dst] = C(a.v + off);
				else r[in.dst] = fromE(mkBin(E_ADD, a.e, mkConst(off, 64)));
			} else {
				Val b = get(in.b);
				if (!(a.e | b.e)) r[in.dst] = C(a.v + off + (u64)(sxt(b.v, in.w2) * (i64)in.c));
				else {
					Ex x = mkBin(E_MUL, mkSext(toE(b, in.w2), 64), mkConst((u64)(i64)in.c, 64));
					r[in.dst] = fromE(mkBin(E_ADD, mkBin(E_ADD, toE(a, 64), x), mkConst(off, 64)));
				}
			}
			break;
		}
		case O_LOAD: {
			Val p = get(in.a);
			fr->pc = pc;
			r[in.dst] = p.e ? ldSym(p.e, in.w) : ldVal(p.v, in.w);
			break;
		}
		case O_STORE: {
			Val p = get(in.a);
			fr->pc = pc;
			u64 a = p.e ? concretize(p, 64, "store address") : p.v;
			stVal(a, in.w, get(in.b));
			break;
		}
		case O_ALLOCA: {
			fr->pc = pc;
			u64 n = concretize(get(in.b), in.w, "alloca") * (u64)in.c;
			r[in.dst] = C(stackAlloc(n, in.extra));
			break;
		}
		case O_JMP: pc = in.extra; break;
		case O_BR: {
			Val c = get(in.a);
			bool t;
			if (!c.e) t = c.v;
			else { fr->pc = pc; t = branchOn(c.e); }
			pc = t ? in.b : in.c;
			break;
		}
		case O_SWITCH: {
			Val c = get(in.a);
			const Switch& sw = fr->f->switches[in.extra];
			if (!c.e) {
				u32 t = sw.def;
				for (auto& k : sw.cases) if (k.first == c.v) { t = k.second; break; }
				pc = t;
			} else {
				fr->pc = pc;
				std::vector<std::pair<u32, Ex>> tg;
				for (auto& k : sw.cases) {
					Ex q = mkBin(E_EQ, c.e, mkConst(k.first, sw.w));
					bool f = false;
					for (auto& t : tg) if (t.first == k.second) { t.second = mkOr1(t.second, q); f = true; break; }
					if (!f) tg.push_back({ k.second, q });
				}
				u32 t = sw.def;
				for (auto& x : tg) if (x.first != sw.def && branchOn(x.second)) { t = x.first; break; }
				pc = t;
			}
			break;
		}
		case O_RET: {
			Val rv[8];
			std::vector<Val> big;
			Val* out = rv;
			if (in.c > 8) { big.resize(in.c); out = big.data(); }
			for (int i = 0; i < in.c; i++) out[i] = get(fr->f->lists[in.extra + i]);
			i32 d = fr->dst;
			CallSite* site = fr->site;
			popFrame();
			if (FR.empty()) { myInstrs += tick & 0xffff; return; }
			fr = &FR.back();
			r = R.data() + fr->rb;
			if (d != NOREG) for (int i = 0; i < in.c; i++) r[d + i] = out[i];
			reload();
			if (site && site->normal >= 0) pc = site->normal;
			break;
		}
		case O_CALL: {
			CallSite& cs = fr->f->calls[in.extra];
			Func* f = cs.callee;
			fr->pc = pc;
			if (!f) {
				Val t = get(cs.target);
				u64 a = concretize(t, 64, "call target");
				auto it = PROG->byAddr.find(a);
				if (it == PROG->byAddr.end()) violation("memory", "call through an invalid function pointer");
				f = it->second;
				r = R.data() + fr->rb;
			}
			int n = cs.args.size();
			argbuf.resize(n);
			for (int i = 0; i < n; i++) argbuf[i] = get(cs.args[i]);
			if (f->defined) {
				u64 spSave = sp;
				for (int i = 0; i < n; i++)
					if (cs.byval[i]) {
						u64 src = concretize(argbuf[i], 64, "byval");
						u64 d = stackAlloc(cs.byval[i], 16);
						for (u32 k = 0; k < cs.byval[i]; k++) {
							if (addressable(src + k, 1)) stVal(d + k, 8, ldVal(src + k, 8));
						}
						argbuf[i] = C(d);
					}
				pushCall(f, &cs, in.dst, argbuf.data(), n);
				FR.back().sp = spSave;
				reload();
			} else {
				if (f->ext < 0) {
					ExtFn fn = findExtern(f->name);
					if (!fn) engineError("unmodelled external function " + f->name);
					f->ext = 1;
					f->llvm = (void*)fn;
				}
				Val ret[8];
				haveThrow = false;
				((ExtFn)f->llvm)(*(Interp*)nullptr, cs, argbuf.data(), n, ret);
				if (haveThrow) {
					haveThrow = false;
					unwind(throwingObj);
					reload();
					break;
				}
				r = R.data() + fr->rb;
				if (in.dst != NOREG) for (u32 i = 0; i < cs.nret && i < 8; i++) r[in.dst + i] = ret[i];
				if (cs.normal >= 0) pc = cs.normal;
			}
			break;
		}
		case O_LPAD:
			r[in.dst] = C(pendObj);
			r[in.dst + 1] = C(pendSel);
			break;
		case O_RESUME: {
			Val a = get(in.a);
			fr->pc = pc;
			// leave this frame's landing pad: continue unwinding in the callers
			popFrame();
			if (FR.empty()) violation("uncaught", "exception escapes");
			unwind(a.v);
			reload();
			break;
		}
		case O_UNREACHABLE: fr->pc = pc; violation("unreachable", "undefined behaviour: unreachable code executed"); break;
		case O_ATOMICRMW: {
			Val p = get(in.a), v = get(in.b);
			fr->pc = pc;
			u64 a = concretize(p, 64, "atomic address");
			Val o = ldVal(a, in.w), nv;
			switch (in.c) { // AtomicRMWInst::BinOp
			case 0: nv = v; break;
			case 1: nv = (o.e | v.e) ? fromE(mkBin(E_ADD, toE(o, in.w), toE(v, in.w))) : C((o.v + v.v) & msk(in.w)); break;
			case 2: nv = (o.e | v.e) ? fromE(mkBin(E_SUB, toE(o, in.w), toE(v, in.w))) : C((o.v - v.v) & msk(in.w)); break;
			case 3: nv = (o.e | v.e) ? fromE(mkBin(E_AND, toE(o, in.w), toE(v, in.w))) : C(o.v & v.v); break;
			case 5: nv = (o.e | v.e) ? fromE(mkBin(E_OR, toE(o, in.w), toE(v, in.w))) : C(o.v | v.v); break;
			case 6: nv = (o.e | v.e) ? fromE(mkBin(E_XOR, toE(o, in.w), toE(v, in.w))) : C(o.v ^ v.v); break;
			default: engineError("atomicrmw op");
			}
			stVal(a, in.w, nv);
			r[in.dst] = o;
			break;
		}
		case O_CMPXCHG: {
			Val p = get(in.a), cmp = get(in.b), nv = get(in.c);
			fr->pc = pc;
			u64 a = concretize(p, 64, "atomic address");
			Val o = ldVal(a, in.w);
			bool eq = (o.e | cmp.e) ? branchOn(mkBin(E_EQ, toE(o, in.w), toE(cmp, in.w))) : o.v == cmp.v;
			if (eq) stVal(a, in.w, nv);
			r[in.dst] = o;
			r[in.dst + 1] = C(eq);
			break;
		}
		case O_W128: {
			const W128& x = fr->f->w128[in.extra];
			fr->pc = pc;
			Val al = get(x.alo), ah = get(x.ahi), bl = get(x.blo), bh = get(x.bhi);
			if (al.e | ah.e | bl.e | bh.e) engineError("symbolic 128-bit arithmetic");
			unsigned __int128 A = (unsigned __int128)ah.v << 64 | al.v, B = (unsigned __int128)bh.v << 64 | bl.v, Rr = 0;
			switch (x.kind) { // llvm opcodes
			case 13: Rr = A + B; break;
			case 15: Rr = A - B; break;
			case 17: Rr = A * B; break;
			case 19: if (!B) violation("div0", "division by zero"); Rr = A / B; break;
			case 22: if (!B) violation("div0", "division by zero"); Rr = A % B; break;
			case 25: Rr = B >= 128 ? 0 : A << (int)B; break;
			case 26: Rr = B >= 128 ? 0 : A >> (int)B; break;
			case 28: Rr = A & B; break;
			case 29: Rr = A | B; break;
			case 30: Rr = A ^ B; break;
			case 53: {
				__int128 SA = (__int128)A, SB = (__int128)B;
				bool q = false;
				switch (x.pred) {
				case 32: q = A == B; break; case 33: q = A != B; break; case 34: q = A > B; break; case 35: q = A >= B; break;
				case 36: q = A < B; break; case 37: q = A <= B; break; case 38: q = SA > SB; break; case 39: q = SA >= SB; break;
				case 40: q = SA < SB; break; case 41: q = SA <= SB; break;
				}
				r[x.dst] = C(q);
				break;
			}
			default: engineError("128-bit op " + std::to_string(x.kind));
			}
			if (x.kind != 53) { r[x.dst] = C((u64)Rr); r[x.dst + 1] = C((u64)(Rr >> 64)); }
			break;
		}
		case O_UNSUP: fr->pc = pc; engineError("unsupported instruction: " + PROG->messages[in.extra]); break;
		default: engineError("bad opcode " + std::to_string(in.op) + " at " + std::to_string(pc - 1) + " of " + std::to_string(fr->f->code.size()));
		}
	}
}
// call a bitcode function from the host (no return values)
static void callFunc(Func* f)
{
	pushCall(f, nullptr, NOREG, nullptr, 0);
	runLoop();
}
static void onCrash(int s)
{
	static char msg[] = "engine crash (signal)";
	if (G && !G->engineErr++) { snprintf(G->errmsg, sizeof G->errmsg, "%s %d in %s", msg, s, FR.empty() ? "?" : FR.back().f->name.c_str()); }
	G->lock = 0;
	G->stop = 1;
	workerExit();
}

int main(int argc, char** argv)
{
	const char* bc = nullptr;
	const char* entry = "harness_main";
	double tmo = 600;
	int jobs = 8;
	unsigned z3ms = 10000;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return argv[++i]; };
		if (a == "-entry") entry = nx();
		else if (a == "-run") RUN = nx();
		else if (a == "-time") tmo = atof(nx());
		else if (a == "-jobs") jobs = atoi(nx());
		else if (a == "-z3ms") z3ms = atoi(nx());
		else if (a == "-maxinstr") maxInstrs = strtoull(nx(), 0, 0);
		else if (a == "-maxviol") maxViol = atoi(nx());
		else if (a == "-arg") OPT_HARNESS_ARG = nx();
		else if (a == "-trace") traceOn = true;
		else bc = argv[i];
	}
	if (!bc || RUN.empty()) { fprintf(stderr, "usage: symx -run DIR [-time S] [-jobs N] [-arg A] file.bc\n"); return 2; }
	mkdir(RUN.c_str(), 0777);
	double t0 = nowS();
	struct rlimit rl = { 512ull << 20, RLIM_INFINITY };
	setrlimit(RLIMIT_STACK, &rl);
	memInit();
	PROG = loadProgram(bc);
	dropLLVM();
	registerExterns();
	vtSI = typeinfoOf("_ZTVN10__cxxabiv120__si_class_type_infoE");
	vtVMI = typeinfoOf("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
	vtClass = typeinfoOf("_ZTVN10__cxxabiv117__class_type_infoE");
	double tLoad = nowS() - t0;
	G = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (G == MAP_FAILED) { perror("mmap shared"); return 2; }
	G->freeTokens = jobs - 1;
	G->live = 1;
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	auto itf = PROG->byName.find(entry);
	if (itf == PROG->byName.end() || !itf->second->defined) { fprintf(stderr, "no entry %s\n", entry); return 2; }
	deadline = nowS() + tmo;
	double t1 = nowS();
	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		signal(SIGCHLD, SIG_IGN);
		static char alt[1 << 16];
		stack_t ss {};
		ss.ss_sp = alt;
		ss.ss_size = sizeof alt;
		sigaltstack(&ss, nullptr);
		struct sigaction sa {};
		sa.sa_handler = onCrash;
		sa.sa_flags = SA_ONSTACK;
		sigaction(SIGSEGV, &sa, nullptr);
		sigaction(SIGBUS, &sa, nullptr);
		sigaction(SIGFPE, &sa, nullptr);
		sigaction(SIGILL, &sa, nullptr);
		sigaction(SIGABRT, &sa, nullptr);
		R.reserve(1 << 16);
		FR.reserve(1024);
		solverInit(z3ms);
		for (Func* c : PROG->ctors) if (c->defined) callFunc(c);
		pushCall(itf->second, nullptr, NOREG, nullptr, 0);
		for (;;) {
			try
			{
				runLoop();
				pathEnd(0);
			}
			catch (PathEnd&)
			{
				checkStop();
				if (CPS.empty()) workerExit();
				restoreTop();
			}
			catch (PathResume&)
			{
			}
		}
	}
	setpgid(pid, pid);
	bool lost = false;
	while (true) {
		int st;
		pid_t w = waitpid(-1, &st, WNOHANG);
		if (w > 0) continue;
		bool none = w < 0 && errno == ECHILD;
		if (G->live == 0) break;
		if (none) { lost = true; break; }
		if (nowS() > deadline + 20) { G->truncated = 1; break; }
		if (nowS() > deadline) {
			// wake sleepers so that they end
			G->stop = 1;
			if (!G->truncated) G->truncated = 1;
			break;
		}
		usleep(2000);
	}
	kill(-pid, SIGKILL);
	while (waitpid(-1, nullptr, 0) > 0) {}
	if (lost && !G->engineErr) { G->engineErr = 1; snprintf(G->errmsg, sizeof G->errmsg, "worker processes disappeared (killed: out of memory?)"); }
	// report
	std::string funcs;
	unsigned nf = 0;
	for (Func* f : PROG->funcs)
		if (f->isRepo && G->func[f->id & 0xfffff]) {
			nf++;
			funcs += (nf > 1 ? "," : "") + jstr(demangle(f->name));
		}
	std::string cov;
	for (int i = 0; i < 512; i++)
		if (G->cover[i][0]) cov += (cov.empty() ? "" : ",") + jstr(G->cover[i]) + ":" + std::to_string(G->coverN[i]);
	FILE* o = fopen((RUN + "/result.json").c_str(), "w");
	fprintf(o, "{\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"instrs\":%llu,\"queries\":%llu,\"domain_queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,"
			   "\"checks\":%llu,\"violations\":%llu,\"truncated\":%d,\"engine_errors\":%d,\"engine_error\":%s,\"branches\":%llu,\"load_s\":%.2f,\"explore_s\":%.2f,\"program_insts\":%llu,\"cover\":{%s},\"functions\":[%s]}\n",
		(unsigned long long)G->done, (unsigned long long)G->killed, (unsigned long long)G->forks, (unsigned long long)G->instrs, (unsigned long long)G->queries, (unsigned long long)G->domq,
		(unsigned long long)G->sat, (unsigned long long)G->unsat, (unsigned long long)G->unknown, G->solverUs * 1e-6, (unsigned long long)G->checks, (unsigned long long)G->violations,
		G->truncated, G->engineErr, G->engineErr ? jstr(G->errmsg).c_str() : "null", (unsigned long long)G->steps, tLoad, nowS() - t1, (unsigned long long)PROG->numInsts, cov.c_str(), funcs.c_str());
	fclose(o);
	printf("paths=%llu killed=%llu forks=%llu instrs=%.1fM z3=%llu dom=%llu solver=%.1fs unknown=%llu checks=%llu viol=%llu trunc=%d branches=%llu load=%.1fs explore=%.1fs %s\n", (unsigned long long)G->done, (unsigned long long)G->killed,
		(unsigned long long)G->forks, G->instrs / 1e6, (unsigned long long)G->queries, (unsigned long long)G->domq, G->solverUs * 1e-6, (unsigned long long)G->unknown, (unsigned long long)G->checks, (unsigned long long)G->violations, G->truncated, (unsigned long long)G->steps, tLoad, nowS() - t1,
		G->engineErr ? G->errmsg : "");
	return 0;
}
void countCheck() { __sync_fetch_and_add(&G->checks, 1); }
void truncatedUnknown() { G->truncated = 1; }
