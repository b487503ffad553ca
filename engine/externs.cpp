// Models of the functions that have no bitcode: allocation, memory and string primitives, LLVM
// intrinsics, the C++ exception ABI, and the harness interface (__sx_*).
#include "interp.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unistd.h>

#define EXT(name) static void name(Interp&, CallSite& cs, Val* a, int n, Val* ret)
#define UNUSED (void)cs, (void)a, (void)n, (void)ret

static inline u64 sx(u64 v, unsigned w) { return w >= 64 ? v : (u64)((i64)(v << (64 - w)) >> (64 - w)); }
static u64 P(Val v, const char* what = "pointer argument") { return concretize(v, 64, what); }
void countCheck();
void truncatedUnknown();

// ---- memory -----------------------------------------------------------------------------------
EXT(e_new) { UNUSED; u64 s = concretize(a[0], 64, "allocation size"); ret[0] = C(heapAlloc(s)); }
EXT(e_newal) { UNUSED; u64 s = concretize(a[0], 64, "allocation size"); ret[0] = C(heapAlloc(s, P(a[1]))); }
EXT(e_calloc)
{
	UNUSED;
	u64 s = concretize(a[0], 64, "allocation size") * concretize(a[1], 64, "allocation size");
	u64 p = heapAlloc(s);
	memset((void*)p, 0, s);
	ret[0] = C(p);
}
EXT(e_free)
{
	UNUSED;
	if (!heapFree(P(a[0]))) violation("memory", "invalid or double free");
}
static void copyMem(u64 d, u64 s, u64 k)
{
	if (!k) return;
	if (!addressable(s, k)) { for (u64 i = 0; i < k; i++) ldVal(s + i, 8); }
	for (u64 i = 0; i < k; i++) if ((SH[d + i - ABASE] & 5) != 1) { stVal(d + i, 8, C(0)); }
	bool sym = false;
	for (u64 i = 0; i < k && !sym; i++) sym = (SH[s - ABASE + i] & 2) || (SH[d - ABASE + i] & 2);
	if (!sym) { touch(d - ABASE, k); memmove((void*)d, (void*)s, k); return; }
	std::vector<Val> t(k);
	for (u64 i = 0; i < k; i++) t[i] = ldVal(s + i, 8);
	for (u64 i = 0; i < k; i++) stVal(d + i, 8, t[i]);
}
static bool inArena(u64 p, u64 k) { return p - ABASE < ASIZE && p - ABASE + k <= ASIZE; }
EXT(e_memcpy)
{
	UNUSED;
	u64 k = concretize(a[2], 64, "memcpy length");
	u64 d = P(a[0]), s = P(a[1]);
	ret[0] = C(d);
	if (!k) return;
	if (!inArena(d, k)) stVal(d, 8, C(0));
	if (!inArena(s, k)) ldVal(s, 8);
	if (!inArena(d, k) || !inArena(s, k)) violation("memory", "memcpy of " + std::to_string(k) + " bytes");
	copyMem(d, s, k);
}
EXT(e_memset)
{
	UNUSED;
	u64 k = concretize(a[2], 64, "memset length"), d = P(a[0]);
	ret[0] = C(d);
	if (!k) return;
	if (!inArena(d, k)) violation("memory", "memset of " + std::to_string(k) + " bytes");
	Val v = a[1];
	unsigned w = cs.argw[1];
	Val b = v.e ? fromE(mkExtract(toE(v, w), 0, 8)) : C(v.v & 255);
	if (!b.e && addressable(d, k)) {
		bool plain = true;
		for (u64 i = 0; i < k && plain; i++) plain = (SH[d - ABASE + i] & 7) == 1;
		if (plain) { touch(d - ABASE, k); memset((void*)d, (int)b.v, k); return; }
	}
	for (u64 i = 0; i < k; i++) stVal(d + i, 8, b);
}
EXT(e_memcmp)
{
	UNUSED;
	u64 k = concretize(a[2], 64, "memcmp length"), x = P(a[0]), y = P(a[1]);
	Ex r = mkConst(0, 32);
	bool sym = false;
	std::vector<std::pair<Val, Val>> v;
	for (u64 i = 0; i < k; i++) {
		Val p = ldVal(x + i, 8), q = ldVal(y + i, 8);
		v.push_back({ p, q });
		if (p.e | q.e) sym = true;
		else if (p.v != q.v && !sym) {
			ret[0] = C((u32)(p.v < q.v ? -1 : 1));
			return;
		} else if (p.v != q.v) break;
	}
	for (size_t i = v.size(); i-- > 0;) {
		Ex p = toE(v[i].first, 8), q = toE(v[i].second, 8);
		if (p == q) continue;
		Ex d = mkBin(E_SUB, mkZext(p, 32), mkZext(q, 32));
		r = mkIte(mkBin(E_EQ, p, q), r, d);
	}
	ret[0] = fromE(r);
}
EXT(e_bcmp)
{
	UNUSED;
	u64 k = concretize(a[2], 64, "memcmp length"), x = P(a[0]), y = P(a[1]);
	Ex ne = mkConst(0, 1);
	for (u64 i = 0; i < k; i++) {
		Val p = ldVal(x + i, 8), q = ldVal(y + i, 8);
		if (!(p.e | q.e)) {
			if (p.v != q.v) { ret[0] = C(1); return; }
		} else ne = mkOr1(ne, mkNot(mkBin(E_EQ, toE(p, 8), toE(q, 8))));
	}
	ret[0] = fromE(mkZext(ne, 32));
}
static bool isZero(Val v) { return v.e ? branchOn(mkBin(E_EQ, v.e, mkConst(0, 8))) : v.v == 0; }
static u64 symStrlen(u64 p)
{
	for (u64 i = 0;; i++) if (isZero(ldVal(p + i, 8))) return i;
}
EXT(e_strlen) { UNUSED; ret[0] = C(symStrlen(P(a[0]))); }
EXT(e_memchr)
{
	UNUSED;
	u64 k = concretize(a[2], 64, "memchr length"), p = P(a[0]);
	Ex c = toE(a[1], cs.argw[1]);
	if (wd(c) > 8) c = mkExtract(c, 0, 8);
	for (u64 i = 0; i < k; i++) {
		Val v = ldVal(p + i, 8);
		if (branchOn(mkBin(E_EQ, toE(v, 8), c))) { ret[0] = C(p + i); return; }
	}
	ret[0] = C(0);
}
EXT(e_strcmp)
{
	UNUSED;
	u64 x = P(a[0]), y = P(a[1]);
	u64 lim = n > 2 ? concretize(a[2], 64, "strncmp length") : ~0ull;
	for (u64 i = 0; i < lim; i++) {
		Val p = ldVal(x + i, 8), q = ldVal(y + i, 8);
		Ex ep = toE(p, 8), eq = toE(q, 8);
		if (!branchOn(mkBin(E_EQ, ep, eq))) {
			ret[0] = fromE(mkIte(mkBin(E_ULT, ep, eq), mkConst(0xffffffff, 32), mkConst(1, 32)));
			return;
		}
		if (isZero(p)) break;
	}
	ret[0] = C(0);
}
EXT(e_realloc)
{
	UNUSED;
	u64 p = P(a[0]), k = concretize(a[1], 64, "allocation size");
	u64 q = heapAlloc(k);
	if (p) {
		u64 old = *(u64*)(p - 8);
		copyMem(q, p, std::min(old, k));
		if (!heapFree(p)) violation("memory", "invalid realloc");
	}
	ret[0] = C(q);
}

// ---- integer intrinsics ------------------------------------------------------------------------
#define W (cs.argw[0])
EXT(i_umax) { UNUSED; Ex x = toE(a[0], W), y = toE(a[1], W); ret[0] = fromE(mkIte(mkBin(E_ULT, x, y), y, x)); }
EXT(i_umin) { UNUSED; Ex x = toE(a[0], W), y = toE(a[1], W); ret[0] = fromE(mkIte(mkBin(E_ULT, x, y), x, y)); }
EXT(i_smax) { UNUSED; Ex x = toE(a[0], W), y = toE(a[1], W); ret[0] = fromE(mkIte(mkBin(E_SLT, x, y), y, x)); }
EXT(i_smin) { UNUSED; Ex x = toE(a[0], W), y = toE(a[1], W); ret[0] = fromE(mkIte(mkBin(E_SLT, x, y), x, y)); }
EXT(i_abs) { UNUSED; Ex x = toE(a[0], W); ret[0] = fromE(mkIte(mkBin(E_SLT, x, mkConst(0, W)), mkBin(E_SUB, mkConst(0, W), x), x)); }
EXT(i_ctpop)
{
	UNUSED;
	Ex x = toE(a[0], W), r = mkConst(0, W);
	if (isC(x)) { ret[0] = C(__builtin_popcountll(cv(x))); return; }
	for (unsigned i = 0; i < W; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(x, i, 1), W));
	ret[0] = fromE(r);
}
EXT(i_ctlz)
{
	UNUSED;
	Ex x = toE(a[0], W), r = mkConst(W, W);
	if (isC(x)) { ret[0] = C(cv(x) ? (u64)(__builtin_clzll(cv(x)) - (64 - W)) : W); return; }
	for (unsigned i = 0; i < W; i++) r = mkIte(mkExtract(x, i, 1), mkConst(W - 1 - i, W), r);
	ret[0] = fromE(r);
}
EXT(i_cttz)
{
	UNUSED;
	Ex x = toE(a[0], W), r = mkConst(W, W);
	if (isC(x)) { ret[0] = C(cv(x) ? (u64)__builtin_ctzll(cv(x)) : W); return; }
	for (unsigned i = W; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, W), r);
	ret[0] = fromE(r);
}
EXT(i_bswap)
{
	UNUSED;
	Ex x = toE(a[0], W), r = mkExtract(x, 0, 8);
	for (unsigned i = 8; i < W; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
	ret[0] = fromE(r);
}
static void fsh(CallSite& cs, Val* a, Val* ret, bool left)
{
	unsigned w = W;
	u64 k = concretize(a[2], w, "funnel shift") % w;
	Ex x = toE(a[0], w), y = toE(a[1], w);
	if (!k) { ret[0] = fromE(left ? x : y); return; }
	u64 l = left ? k : w - k;
	ret[0] = fromE(mkBin(E_OR, mkBin(E_SHL, x, mkConst(l, w)), mkBin(E_LSHR, y, mkConst(w - l, w))));
}
EXT(i_fshl) { UNUSED; fsh(cs, a, ret, true); }
EXT(i_fshr) { UNUSED; fsh(cs, a, ret, false); }
static Ex bin128guard(Ex, Ex) { engineError("symbolic 64-bit multiplication with overflow"); }
static void ovf(CallSite& cs, Val* a, Val* ret, int kind, bool sgn)
{
	unsigned w = W;
	if (!(a[0].e | a[1].e)) {
		__int128 x = sgn ? (__int128)(i64)sx(a[0].v, w) : (__int128)a[0].v, y = sgn ? (__int128)(i64)sx(a[1].v, w) : (__int128)a[1].v;
		__int128 z;
		bool o = false;
		if (kind == 2) {
			if (sgn) { i64 t; o = __builtin_mul_overflow((i64)x, (i64)y, &t); z = t; }
			else { u64 t; o = __builtin_mul_overflow((u64)x, (u64)y, &t); z = t; }
		} else z = kind == 0 ? x + y : x - y;
		u64 t = (u64)z & msk(w);
		__int128 back = sgn ? (__int128)(i64)sx(t, w) : (__int128)t;
		ret[0] = C(t);
		ret[1] = C(o || back != z);
		return;
	}
	Ex x = toE(a[0], w), y = toE(a[1], w), r;
	if (w <= 31 || (kind == 2 && w <= 32) || (kind != 2 && w < 64)) {
		unsigned d = kind == 2 ? 2 * w : w + 1;
		Ex X = sgn ? mkSext(x, d) : mkZext(x, d), Y = sgn ? mkSext(y, d) : mkZext(y, d);
		Ex Z = mkBin(kind == 0 ? E_ADD : kind == 1 ? E_SUB : E_MUL, X, Y);
		r = mkExtract(Z, 0, w);
		ret[0] = fromE(r);
		ret[1] = fromE(mkNot(mkBin(E_EQ, sgn ? mkSext(r, d) : mkZext(r, d), Z)));
		return;
	}
	if (kind == 2) {
		// multiplication by a constant: overflow iff the other operand exceeds a bound
		Ex k = isC(y) ? y : x, v = isC(y) ? x : y;
		if (!isC(k) || sgn) bin128guard(x, y);
		r = mkBin(E_MUL, x, y);
		ret[0] = fromE(r);
		ret[1] = cv(k) ? fromE(mkBin(E_ULT, mkConst(msk(w) / cv(k), w), v)) : C(0);
		return;
	}
	r = mkBin(kind == 0 ? E_ADD : E_SUB, x, y);
	ret[0] = fromE(r);
	if (!sgn) ret[1] = fromE(kind == 0 ? mkBin(E_ULT, r, x) : mkBin(E_ULT, x, y));
	else {
		Ex z = mkConst(0, w);
		Ex sxn = mkBin(E_SLT, x, z), syn = mkBin(E_SLT, y, z), srn = mkBin(E_SLT, r, z);
		Ex same = mkBin(E_EQ, sxn, syn);
		ret[1] = fromE(mkAnd1(kind == 0 ? same : mkNot(same), mkNot(mkBin(E_EQ, srn, sxn))));
	}
}
EXT(i_uadd) { UNUSED; ovf(cs, a, ret, 0, false); }
EXT(i_usub) { UNUSED; ovf(cs, a, ret, 1, false); }
EXT(i_umul) { UNUSED; ovf(cs, a, ret, 2, false); }
EXT(i_sadd) { UNUSED; ovf(cs, a, ret, 0, true); }
EXT(i_ssub) { UNUSED; ovf(cs, a, ret, 1, true); }
EXT(i_smul) { UNUSED; ovf(cs, a, ret, 2, true); }
EXT(i_usubsat) { UNUSED; Ex x = toE(a[0], W), y = toE(a[1], W); ret[0] = fromE(mkIte(mkBin(E_ULT, x, y), mkConst(0, W), mkBin(E_SUB, x, y))); }
EXT(i_uaddsat)
{
	UNUSED;
	Ex x = toE(a[0], W), y = toE(a[1], W), r = mkBin(E_ADD, x, y);
	ret[0] = fromE(mkIte(mkBin(E_ULT, r, x), mkConst(msk(W), W), r));
}
EXT(i_fabs)
{
	UNUSED;
	ret[0] = fromE(mkBin(E_AND, toE(a[0], W), mkConst(msk(W - 1), W)));
}
EXT(i_isfpclass)
{
	UNUSED;
	// mask bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -sub 5 -0 6 +0 7 +sub 8 +normal 9 +inf
	u64 m = concretize(a[1], 32, "fpclass");
	unsigned w = W, ew = w == 64 ? 11 : 8, mw = w - 1 - ew;
	Ex x = toE(a[0], w);
	Ex ex = mkExtract(x, mw, ew), ma = mkExtract(x, 0, mw), sg = mkExtract(x, w - 1, 1);
	Ex emax = mkBin(E_EQ, ex, mkConst(msk(ew), ew)), e0 = mkBin(E_EQ, ex, mkConst(0, ew)), m0 = mkBin(E_EQ, ma, mkConst(0, mw));
	Ex q = mkExtract(x, mw - 1, 1), r = mkConst(0, 1);
	Ex nan = mkAnd1(emax, mkNot(m0)), inf = mkAnd1(emax, m0), zero = mkAnd1(e0, m0), sub = mkAnd1(e0, mkNot(m0)), nor = mkAnd1(mkNot(emax), mkNot(e0));
	Ex cls[10] = { mkAnd1(nan, mkNot(q)), mkAnd1(nan, q), mkAnd1(inf, sg), mkAnd1(nor, sg), mkAnd1(sub, sg), mkAnd1(zero, sg), mkAnd1(zero, mkNot(sg)), mkAnd1(sub, mkNot(sg)), mkAnd1(nor, mkNot(sg)), mkAnd1(inf, mkNot(sg)) };
	for (int i = 0; i < 10; i++) if (m >> i & 1) r = mkOr1(r, cls[i]);
	ret[0] = fromE(r);
}
static double D(Val v) { double d; u64 x = concretize(v, 64, "double", 64); memcpy(&d, &x, 8); return d; }
static Val FD(double d) { u64 x; memcpy(&x, &d, 8); return C(x); }
EXT(m_pow) { UNUSED; ret[0] = FD(pow(D(a[0]), D(a[1]))); }
EXT(m_floor) { UNUSED; ret[0] = FD(floor(D(a[0]))); }
EXT(m_ceil) { UNUSED; ret[0] = FD(ceil(D(a[0]))); }
EXT(m_trunc) { UNUSED; ret[0] = FD(trunc(D(a[0]))); }
EXT(m_fmuladd) { UNUSED; ret[0] = fromE(mkFp(E_FADD, W, mkFp(E_FMUL, W, toE(a[0], W), toE(a[1], W), 0, 0), toE(a[2], W), 0, 0)); }
EXT(i_stacksave) { UNUSED; ret[0] = C(0); }
EXT(i_nop) { UNUSED; ret[0] = C(0); }
EXT(i_ret0) { UNUSED; ret[0] = C(0); }
EXT(i_ret1) { UNUSED; ret[0] = C(1); }
EXT(i_trap) { UNUSED; violation("terminate", "trap or assertion reached"); }
EXT(e_assert) { UNUSED; violation("terminate", "assertion failed: " + readCStr(P(a[0]))); }
EXT(e_abort) { UNUSED; violation("terminate", "abort called"); }
EXT(e_terminate) { UNUSED; terminateNow("std::terminate called"); }
EXT(e_pure) { UNUSED; violation("terminate", "pure virtual function called"); }

// ---- opaque conversions ------------------------------------------------------------------------
static std::vector<Val> cstrVals(u64 p)
{
	std::vector<Val> v;
	for (u64 i = 0;; i++) {
		Val b = ldVal(p + i, 8);
		if (isZero(b)) return v;
		v.push_back(b);
		if (v.size() > 4096) engineError("unterminated string");
	}
}
static std::map<std::vector<Ex>, Ex> OPAQUE;
static Val strtodOf(u64 p, u64 endp)
{
	auto v = cstrVals(p);
	bool sym = false;
	for (auto& b : v) sym = sym || b.e;
	if (!sym) {
		std::string s;
		for (auto& b : v) s += (char)b.v;
		char* e;
		double d = strtod(s.c_str(), &e);
		if (endp) stVal(endp, 64, C(p + (e - s.c_str())));
		return FD(d);
	}
	if (endp) engineError("strtod of symbolic text with an end pointer");
	// the same text always denotes the same number; which number is left open
	std::vector<Ex> key;
	for (auto& b : v) key.push_back(toE(b, 8));
	auto it = OPAQUE.find(key);
	if (it != OPAQUE.end()) return fromE(it->second);
	bool isNew;
	u64 x = sxNewSym(("strtod#" + std::to_string(OPAQUE.size())).c_str(), 64, isNew);
	Ex e = mkVar(x, 64);
	OPAQUE[key] = e;
	return fromE(e);
}
EXT(e_strtod) { UNUSED; ret[0] = strtodOf(P(a[0]), n > 1 ? P(a[1]) : 0); }

// ---- C++ ABI -----------------------------------------------------------------------------------
EXT(x_alloc) { UNUSED; ret[0] = C(heapAlloc(concretize(a[0], 64, "exception size"))); }
EXT(x_free) { UNUSED; heapFree(P(a[0])); }
EXT(x_throw)
{
	UNUSED;
	u64 o = P(a[0]);
	EXNS[o] = Exn { P(a[1]), o, 0 };
	setPendingThrow(o);
}
EXT(x_init_primary)
{
	UNUSED;
	u64 o = P(a[0]);
	EXNS[o] = Exn { P(a[1]), o, 0 };
	ret[0] = C(o);
}
EXT(x_begin)
{
	UNUSED;
	u64 o = P(a[0]);
	auto it = EXNS.find(o);
	CAUGHT.push_back(o);
	ret[0] = C(it == EXNS.end() ? o : it->second.adj);
}
EXT(x_end) { UNUSED; if (!CAUGHT.empty()) CAUGHT.pop_back(); }
EXT(x_getptr) { UNUSED; auto it = EXNS.find(P(a[0])); ret[0] = C(it == EXNS.end() ? a[0].v : it->second.adj); }
EXT(x_rethrow)
{
	UNUSED;
	if (CAUGHT.empty()) terminateNow("rethrow without a current exception");
	setPendingThrow(CAUGHT.back());
}
EXT(x_current) // std::current_exception(): sret pointer
{
	UNUSED;
	stVal(P(a[0]), 64, C(CAUGHT.empty() ? 0 : CAUGHT.back()));
}
EXT(x_rethrow_ptr)
{
	UNUSED;
	u64 o = P(ldVal(P(a[0]), 64));
	if (!o) terminateNow("rethrow of a null exception_ptr");
	setPendingThrow(o);
}
EXT(x_ptr_ctor) { UNUSED; stVal(P(a[0]), 64, a[1]); }
EXT(x_uncaught) { UNUSED; ret[0] = C(0); }
EXT(x_dyncast)
{
	UNUSED;
	u64 out, s = P(a[0]);
	if (s) dynCast(s, P(a[2]), out); else out = 0;
	ret[0] = C(out);
}
EXT(g_acquire)
{
	UNUSED;
	Val v = ldVal(P(a[0]), 8);
	ret[0] = C(v.v == 0);
}
EXT(g_release) { UNUSED; stVal(P(a[0]), 8, C(1)); }
EXT(c_atexit) { UNUSED; ret[0] = C(0); }
EXT(e_errno)
{
	UNUSED;
	static u64 loc = memAllocGlobal(16, 16, false);
	ret[0] = C(loc);
}

// ---- harness interface -------------------------------------------------------------------------
static std::map<std::string, u32> SYMS;
u64 sxNewSym(const char* name, unsigned w, bool& isNew)
{
	auto it = SYMS.find(name);
	if (it != SYMS.end()) { isNew = false; return it->second; }
	isNew = true;
	u32 idx = VARS.size();
	VARS.push_back({ name, w });
	MODEL.push_back(0);
	modelChanged();
	SYMS[name] = idx;
	return idx;
}
// u64 __sx_sym(const char* name, u32 bits): a fresh value of that many bits
EXT(s_sym)
{
	UNUSED;
	std::string nm = readCStr(P(a[0]));
	u64 w = concretize(a[1], 32, "bits");
	bool isNew;
	u64 idx = sxNewSym(nm.c_str(), w, isNew);
	ret[0] = fromE(mkZext(mkVar(idx, w), 64));
}
EXT(s_assume)
{
	UNUSED;
	Ex c = toE(a[0], W);
	c = mkNot(mkBin(E_EQ, c, mkConst(0, wd(c))));
	if (isC(c)) {
		if (!cv(c)) pathEnd(5);
		return;
	}
	if (evalEx(c)) { pcAdd(c); return; }
	std::vector<u64> m;
	Sat r = pcCheck(c, &m);
	if (r != SAT) pathEnd(r == UNSAT ? 5 : 6);
	MODEL = m;
	modelChanged();
	pcAdd(c);
}
EXT(s_check)
{
	UNUSED;
	countCheck();
	Ex c = toE(a[0], W);
	c = mkNot(mkBin(E_EQ, c, mkConst(0, wd(c))));
	std::string msg = readCStr(P(a[1]));
	if (isC(c)) {
		if (!cv(c)) violation("check", msg);
		return;
	}
	if (!evalEx(c)) {
		reportViolation("check", msg, MODEL);
		std::vector<u64> m;
		if (pcCheck(c, &m) != SAT) pathEnd(3);
		MODEL = m;
		modelChanged();
		pcAdd(c);
		return;
	}
	std::vector<u64> m;
	Sat r = pcCheck(mkNot(c), &m);
	if (r == SAT) reportViolation("check", msg, m);
	else if (r == UNKNOWN) truncatedUnknown();
	pcAdd(c);
}
EXT(s_cover) { UNUSED; coverId(readCStr(P(a[0]))); }
// void __sx_note(const char* key, const char* data, u64 len)
EXT(s_note)
{
	UNUSED;
	std::vector<Ex> b;
	u64 p = P(a[1]), k = concretize(a[2], 64, "note length");
	for (u64 i = 0; i < k; i++) b.push_back(toE(ldVal(p + i, 8), 8));
	addNote(readCStr(P(a[0])), b);
}
EXT(s_concretize) { UNUSED; ret[0] = C(concretize(a[0], W, "requested value")); }
EXT(s_branch) // bool __sx_branch(bool): decide here (fork), result concrete
{
	UNUSED;
	Ex c = toE(a[0], W);
	ret[0] = C(branchOn(mkNot(mkBin(E_EQ, c, mkConst(0, wd(c))))));
}
EXT(s_issym) { UNUSED; ret[0] = C(a[0].e != 0); }
EXT(s_arg)
{
	UNUSED;
	size_t k = strlen(OPT_HARNESS_ARG) + 1;
	u64 p = heapAlloc(k);
	memcpy((void*)p, OPT_HARNESS_ARG, k);
	ret[0] = C(p);
}
EXT(s_fail) { UNUSED; violation("check", readCStr(P(a[0]))); }
EXT(s_debug) { UNUSED; fprintf(stderr, "[debug] %s\n", readCStr(P(a[0]), 4000).c_str()); }
// u32 __sx_and / or / not on booleans without forking
EXT(s_debugv) { UNUSED; fprintf(stderr, "[debugv] %s = %s\n", readCStr(P(a[0])).c_str(), a[1].e ? exprStr(a[1].e).c_str() : std::to_string(a[1].v).c_str()); }

struct ExtSnap {
	size_t vars;
	std::map<std::vector<Ex>, Ex> opaque;
};
void* extSave() { return new ExtSnap { VARS.size(), OPAQUE }; }
void extRestore(void* p)
{
	ExtSnap* s = (ExtSnap*)p;
	if (SYMS.size() > s->vars)
		for (auto it = SYMS.begin(); it != SYMS.end();)
			if (it->second >= s->vars) it = SYMS.erase(it); else ++it;
	OPAQUE.swap(s->opaque);
	delete s;
}
static std::unordered_map<std::string, ExtFn> TAB;
static std::vector<std::pair<std::string, ExtFn>> PRE;
void registerExterns()
{
	for (auto s : { "malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t" }) TAB[s] = e_new;
	for (auto s : { "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t" }) TAB[s] = e_newal;
	TAB["calloc"] = e_calloc;
	for (auto s : { "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t" }) TAB[s] = e_free;
	TAB["realloc"] = e_realloc;
	TAB["memcpy"] = TAB["memmove"] = e_memcpy;
	TAB["memset"] = e_memset;
	TAB["memcmp"] = e_memcmp;
	TAB["bcmp"] = e_bcmp;
	TAB["strlen"] = e_strlen;
	TAB["memchr"] = e_memchr;
	TAB["strcmp"] = TAB["strncmp"] = e_strcmp;
	TAB["strtod"] = e_strtod;
	TAB["pow"] = m_pow; TAB["floor"] = m_floor; TAB["ceil"] = m_ceil; TAB["trunc"] = m_trunc;
	TAB["__assert_fail"] = e_assert;
	TAB["abort"] = e_abort;
	TAB["_ZSt9terminatev"] = e_terminate;
	TAB["__cxa_pure_virtual"] = TAB["__cxa_deleted_virtual"] = e_pure;
	TAB["__cxa_allocate_exception"] = x_alloc;
	TAB["__cxa_free_exception"] = x_free;
	TAB["__cxa_throw"] = x_throw;
	TAB["__cxa_init_primary_exception"] = x_init_primary;
	TAB["__cxa_begin_catch"] = x_begin;
	TAB["__cxa_end_catch"] = x_end;
	TAB["__cxa_get_exception_ptr"] = x_getptr;
	TAB["__cxa_rethrow"] = x_rethrow;
	TAB["_ZSt17current_exceptionv"] = x_current;
	TAB["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = x_rethrow_ptr;
	TAB["_ZNSt15__exception_ptr13exception_ptrC1EPv"] = TAB["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = x_ptr_ctor;
	TAB["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = TAB["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = i_nop;
	TAB["_ZSt18uncaught_exceptionv"] = TAB["_ZSt19uncaught_exceptionsv"] = x_uncaught;
	TAB["__dynamic_cast"] = x_dyncast;
	TAB["__cxa_guard_acquire"] = g_acquire;
	TAB["__cxa_guard_release"] = g_release;
	TAB["__cxa_guard_abort"] = i_nop;
	TAB["__cxa_atexit"] = TAB["__cxa_thread_atexit"] = c_atexit;
	TAB["__errno_location"] = e_errno;
	for (auto s : { "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_mutex_init", "pthread_mutex_destroy" }) TAB[s] = i_ret0;
	TAB["__gxx_personality_v0"] = i_nop;
	TAB["__sx_sym"] = s_sym;
	TAB["__sx_assume"] = s_assume;
	TAB["__sx_check"] = s_check;
	TAB["__sx_cover"] = s_cover;
	TAB["__sx_note"] = s_note;
	TAB["__sx_concretize"] = s_concretize;
	TAB["__sx_branch"] = s_branch;
	TAB["__sx_issym"] = s_issym;
	TAB["__sx_arg"] = s_arg;
	TAB["__sx_fail"] = s_fail;
	TAB["__sx_debug"] = s_debug;
	TAB["__sx_debugv"] = s_debugv;
	PRE = { { "llvm.memcpy.", e_memcpy }, { "llvm.memmove.", e_memcpy }, { "llvm.memset.", e_memset }, { "llvm.umax.", i_umax }, { "llvm.umin.", i_umin }, { "llvm.smax.", i_smax }, { "llvm.smin.", i_smin },
		{ "llvm.abs.", i_abs }, { "llvm.ctpop.", i_ctpop }, { "llvm.ctlz.", i_ctlz }, { "llvm.cttz.", i_cttz }, { "llvm.bswap.", i_bswap }, { "llvm.fshl.", i_fshl }, { "llvm.fshr.", i_fshr },
		{ "llvm.uadd.with", i_uadd }, { "llvm.usub.with", i_usub }, { "llvm.umul.with", i_umul }, { "llvm.sadd.with", i_sadd }, { "llvm.ssub.with", i_ssub }, { "llvm.smul.with", i_smul },
		{ "llvm.usub.sat", i_usubsat }, { "llvm.uadd.sat", i_uaddsat }, { "llvm.fabs.", i_fabs }, { "llvm.is.fpclass", i_isfpclass }, { "llvm.pow.", m_pow }, { "llvm.floor.", m_floor }, { "llvm.ceil.", m_ceil },
		{ "llvm.fmuladd", m_fmuladd }, { "llvm.stacksave", i_stacksave }, { "llvm.stackrestore", i_nop }, { "llvm.trap", i_trap }, { "llvm.ubsantrap", i_trap } };
}
ExtFn findExtern(const std::string& name)
{
	auto it = TAB.find(name);
	if (it != TAB.end()) return it->second;
	for (auto& p : PRE) if (!name.compare(0, p.first.size(), p.first)) return p.second;
	return nullptr;
}
