#include "expr.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <time.h>
#include <z3.h>

std::vector<ENode> EN;
std::vector<VarInfo> VARS;
std::vector<u64> MODEL;
std::vector<Ex> PC;
SolverStats SST;

static std::vector<u32> htab; // open addressing
static u32 hmask = 0;
static std::vector<std::vector<u32>> SUPS; // interned supports
static std::map<std::vector<u32>, u32> supIds;
static std::unordered_map<u64, u32> supUnion;
static u32 gen = 1;
static std::vector<u32> evGen;
static std::vector<u64> evVal;

static u32 internSup(std::vector<u32> v)
{
	auto it = supIds.find(v);
	if (it != supIds.end()) return it->second;
	u32 id = SUPS.size();
	SUPS.push_back(v);
	supIds.emplace(std::move(v), id);
	return id;
}
static u32 unionSup(u32 a, u32 b)
{
	if (a == b || b == 0) return a;
	if (a == 0) return b;
	if (a > b) std::swap(a, b);
	u64 k = (u64)a << 32 | b;
	auto it = supUnion.find(k);
	if (it != supUnion.end()) return it->second;
	std::vector<u32> r;
	std::set_union(SUPS[a].begin(), SUPS[a].end(), SUPS[b].begin(), SUPS[b].end(), std::back_inserter(r));
	u32 id = internSup(r);
	supUnion[k] = id;
	return id;
}
static u64 hashNode(const ENode& n)
{
	u64 h = n.op | (u64)n.w << 8 | (u64)n.aux << 16 | (u64)n.aux2 << 24;
	auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
	mix(n.a); mix(n.b); mix(n.c); mix(n.val);
	return h;
}
static bool sameNode(const ENode& x, const ENode& y)
{
	return x.op == y.op && x.w == y.w && x.aux == y.aux && x.aux2 == y.aux2 && x.a == y.a && x.b == y.b && x.c == y.c && x.val == y.val;
}
static Ex intern(ENode n)
{
	if (EN.empty()) {
		EN.push_back(ENode {});
		internSup({});
		htab.assign(1 << 16, 0);
		hmask = htab.size() - 1;
	}
	if (EN.size() * 2 > htab.size()) {
		std::vector<u32> old;
		old.swap(htab);
		htab.assign(old.size() * 2, 0);
		hmask = htab.size() - 1;
		for (u32 id : old)
			if (id) {
				u32 h = hashNode(EN[id]) & hmask;
				while (htab[h]) h = (h + 1) & hmask;
				htab[h] = id;
			}
	}
	u32 h = hashNode(n) & hmask;
	while (htab[h]) {
		if (sameNode(EN[htab[h]], n)) return htab[h];
		h = (h + 1) & hmask;
	}
	u32 id = EN.size();
	if (n.op == E_VAR) n.sup = internSup({ (u32)n.val });
	else {
		n.sup = 0;
		if (n.a) n.sup = unionSup(n.sup, EN[n.a].sup);
		if (n.b) n.sup = unionSup(n.sup, EN[n.b].sup);
		if (n.c) n.sup = unionSup(n.sup, EN[n.c].sup);
	}
	EN.push_back(n);
	htab[h] = id;
	return id;
}
static Ex node(EOp op, unsigned w, Ex a = 0, Ex b = 0, Ex c = 0, u64 val = 0, unsigned aux = 0, unsigned aux2 = 0)
{
	ENode n {};
	n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.val = val; n.aux = aux; n.aux2 = aux2;
	return intern(n);
}
Ex mkConst(u64 v, unsigned w) { return node(E_CONST, w, 0, 0, 0, v & msk(w)); }
Ex mkVar(unsigned idx, unsigned w) { return node(E_VAR, w, 0, 0, 0, idx); }

static i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static double bitsD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static float bitsF(u64 v) { float f; u32 x = v; memcpy(&f, &x, 4); return f; }
static u64 dBits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 fBits(float f) { u32 v; memcpy(&v, &f, 4); return v; }

u64 evalNodeOp(const ENode& n, u64 a, u64 b, u64 c)
{
	unsigned w = n.w, aw = n.a ? EN[n.a].w : 0;
	u64 m = msk(w);
	switch (n.op) {
	case E_CONST: return n.val;
	case E_VAR: return MODEL[n.val];
	case E_ADD: return (a + b) & m;
	case E_SUB: return (a - b) & m;
	case E_MUL: return (a * b) & m;
	case E_UDIV: return b ? (a / b) & m : m;
	case E_UREM: return b ? a % b : a;
	case E_SDIV: {
		i64 x = sx(a, w), y = sx(b, w);
		if (!y) return x < 0 ? 1 : m;
		if (y == -1) return (u64)(0 - (u64)x) & m;
		return (u64)(x / y) & m;
	}
	case E_SREM: {
		i64 x = sx(a, w), y = sx(b, w);
		if (!y) return a;
		if (y == -1) return 0;
		return (u64)(x % y) & m;
	}
	case E_SHL: return b >= w ? 0 : (a << b) & m;
	case E_LSHR: return b >= w ? 0 : a >> b;
	case E_ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
	case E_AND: return a & b;
	case E_OR: return a | b;
	case E_XOR: return a ^ b;
	case E_EQ: return a == b;
	case E_ULT: return a < b;
	case E_ULE: return a <= b;
	case E_SLT: return sx(a, aw) < sx(b, aw);
	case E_SLE: return sx(a, aw) <= sx(b, aw);
	case E_ITE: return a ? b : c;
	case E_ZEXT: return a;
	case E_SEXT: return (u64)sx(a, aw) & m;
	case E_EXTRACT: return (a >> n.val) & m;
	case E_CONCAT: return (a << EN[n.b].w | b) & m;
	case E_FCMP: {
		double x = aw == 64 ? bitsD(a) : bitsF(a), y = aw == 64 ? bitsD(b) : bitsF(b);
		bool un = std::isnan(x) || std::isnan(y);
		switch (n.aux) { // LLVM predicate numbers
		case 0: return 0; case 1: return !un && x == y; case 2: return !un && x > y; case 3: return !un && x >= y;
		case 4: return !un && x < y; case 5: return !un && x <= y; case 6: return !un && x != y; case 7: return !un;
		case 8: return un; case 9: return un || x == y; case 10: return un || x > y; case 11: return un || x >= y;
		case 12: return un || x < y; case 13: return un || x <= y; case 14: return un || x != y; default: return 1;
		}
	}
	case E_SITOFP: { i64 x = sx(a, aw); return w == 64 ? dBits((double)x) : fBits((float)x); }
	case E_UITOFP: return w == 64 ? dBits((double)a) : fBits((float)a);
	case E_FPTOSI: { double x = aw == 64 ? bitsD(a) : bitsF(a); if (!(x > -9.3e18 && x < 9.2e18)) return (1ull << (w - 1)); return (u64)(i64)x & m; }
	case E_FPTOUI: { double x = aw == 64 ? bitsD(a) : bitsF(a); if (!(x > -1 && x < 1.8e19)) return 0; return (u64)x & m; }
	case E_FPTRUNC: return fBits((float)bitsD(a));
	case E_FPEXT: return dBits((double)bitsF(a));
	case E_FADD: return w == 64 ? dBits(bitsD(a) + bitsD(b)) : fBits(bitsF(a) + bitsF(b));
	case E_FSUB: return w == 64 ? dBits(bitsD(a) - bitsD(b)) : fBits(bitsF(a) - bitsF(b));
	case E_FMUL: return w == 64 ? dBits(bitsD(a) * bitsD(b)) : fBits(bitsF(a) * bitsF(b));
	case E_FDIV: return w == 64 ? dBits(bitsD(a) / bitsD(b)) : fBits(bitsF(a) / bitsF(b));
	}
	return 0;
}
// IEEE comparison over the bit patterns: bit-vector logic only.
static Ex lowerFcmp(Ex a, Ex b, unsigned pred)
{
	unsigned w = wd(a);
	auto fromInt = [&](Ex e) { return EN[e].op == E_SITOFP && w == 64 && wd(EN[e].a) <= 53; };
	u64 sign = 1ull << (w - 1), inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
	auto mag = [&](Ex e) { return mkBin(E_AND, e, mkConst(sign - 1, w)); };
	auto nan = [&](Ex e) { return EN[e].op == E_SITOFP || EN[e].op == E_UITOFP ? mkConst(0, 1) : mkBin(E_ULT, mkConst(inf, w), mag(e)); };
	Ex un = mkOr1(nan(a), nan(b)), p = mkConst(0, 1);
	Ex eq, lt, gt;
	if (fromInt(a) && fromInt(b)) {
		Ex x = mkSext(EN[a].a, 54), y = mkSext(EN[b].a, 54);
		eq = mkBin(E_EQ, x, y); lt = mkBin(E_SLT, x, y); gt = mkBin(E_SLT, y, x);
	}
	else {
		auto key = [&](Ex e) { // unsigned order of the keys is the order of the numbers, both zeros equal
			Ex neg = mkBin(E_EQ, mkExtract(e, w - 1, 1), mkConst(1, 1));
			return mkIte(neg, mkBin(E_SUB, mkConst(sign, w), mag(e)), mkBin(E_OR, e, mkConst(sign, w)));
		};
		Ex x = key(a), y = key(b);
		eq = mkOr1(mkBin(E_EQ, a, b), mkBin(E_EQ, x, y)); lt = mkBin(E_ULT, x, y); gt = mkBin(E_ULT, y, x);
	}
	if (pred & 1) p = mkOr1(p, eq);
	if (pred & 2) p = mkOr1(p, gt);
	if (pred & 4) p = mkOr1(p, lt);
	return pred & 8 ? mkOr1(un, p) : mkAnd1(mkNot(un), p);
}
Ex mkFp(EOp op, unsigned w, Ex a, Ex b, unsigned aux, unsigned aux2)
{
	ENode n {};
	n.op = op; n.w = w; n.a = a; n.b = b; n.aux = aux; n.aux2 = aux2;
	if (isC(a) && (!b || isC(b))) return mkConst(evalNodeOp(n, cv(a), b ? cv(b) : 0, 0), w);
	if (op == E_FCMP) return lowerFcmp(a, b, aux);
	return intern(n);
}
Ex mkNot(Ex a)
{
	if (isC(a)) return mkConst(!cv(a), 1);
	const ENode n = EN[a];
	if (n.op == E_XOR && isC(n.b)) return n.a; // xor with 1
	if (n.op == E_ULT) return mkBin(E_ULE, n.b, n.a);
	if (n.op == E_ULE) return mkBin(E_ULT, n.b, n.a);
	if (n.op == E_SLT) return mkBin(E_SLE, n.b, n.a);
	if (n.op == E_SLE) return mkBin(E_SLT, n.b, n.a);
	return node(E_XOR, 1, a, mkConst(1, 1));
}
Ex mkAnd1(Ex a, Ex b) { return mkBin(E_AND, a, b); }
Ex mkOr1(Ex a, Ex b) { return mkBin(E_OR, a, b); }

Ex mkBin(EOp op, Ex a, Ex b)
{
	unsigned w = wd(a);
	unsigned rw = (op >= E_EQ && op <= E_SLE) ? 1 : w;
	if (isC(a) && isC(b)) {
		ENode n {};
		n.op = op; n.w = rw; n.a = a; n.b = b;
		return mkConst(evalNodeOp(n, cv(a), cv(b), 0), rw);
	}
	bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
	if (comm && isC(a)) std::swap(a, b);
	else if (comm && !isC(b) && a > b) std::swap(a, b);
	const ENode A = EN[a], B = EN[b];
	u64 m = msk(w);
	if (a == b) {
		switch (op) {
		case E_SUB: case E_XOR: return mkConst(0, w);
		case E_AND: case E_OR: return a;
		case E_EQ: case E_ULE: case E_SLE: return mkConst(1, 1);
		case E_ULT: case E_SLT: return mkConst(0, 1);
		default: break;
		}
	}
	if (B.op == E_CONST) {
		u64 k = B.val;
		switch (op) {
		case E_ADD:
			if (k == 0) return a;
			if (A.op == E_ADD && isC(A.b)) return mkBin(E_ADD, A.a, mkConst(k + cv(A.b), w));
			if (A.op == E_ITE && isC(A.b) && isC(A.c)) return mkIte(A.a, mkConst(cv(A.b) + k, w), mkConst(cv(A.c) + k, w));
			break;
		case E_SUB: return mkBin(E_ADD, a, mkConst(0 - k, w));
		case E_MUL:
			if (k == 0) return b;
			if (k == 1) return a;
			if ((k & (k - 1)) == 0) return mkBin(E_SHL, a, mkConst(__builtin_ctzll(k), w));
			break;
		case E_UDIV:
			if (k == 1) return a;
			if (k && (k & (k - 1)) == 0) return mkBin(E_LSHR, a, mkConst(__builtin_ctzll(k), w));
			break;
		case E_UREM:
			if (k && (k & (k - 1)) == 0) return mkBin(E_AND, a, mkConst(k - 1, w));
			break;
		case E_SHL: case E_LSHR:
			if (k == 0) return a;
			if (k >= w) return mkConst(0, w);
			if (op == E_LSHR) return mkZext(mkExtract(a, k, w - k), w);
			return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
		case E_ASHR:
			if (k == 0) return a;
			if (k >= w) k = w - 1;
			return mkSext(mkExtract(a, k, w - k), w);
		case E_AND:
			if (k == 0) return b;
			if (k == m) return a;
			if (A.op == E_ZEXT) {
				unsigned iw = wd(A.a);
				if ((k & msk(iw)) == msk(iw)) return a;
				return mkZext(mkBin(E_AND, A.a, mkConst(k, iw)), w);
			}
			if ((k & (k + 1)) == 0) { unsigned n = __builtin_popcountll(k); return mkZext(mkExtract(a, 0, n), w); }
			if (A.op == E_CONCAT) { unsigned lw = wd(A.b); return mkConcat(mkBin(E_AND, A.a, mkConst(k >> lw, w - lw)), mkBin(E_AND, A.b, mkConst(k, lw))); }
			if (A.op == E_AND && isC(A.b)) return mkBin(E_AND, A.a, mkConst(k & cv(A.b), w));
			break;
		case E_OR:
			if (k == 0) return a;
			if (k == m) return b;
			if (A.op == E_ZEXT) {
				unsigned iw = wd(A.a);
				return mkConcat(mkConst(k >> iw, w - iw), mkBin(E_OR, A.a, mkConst(k, iw)));
			}
			if (A.op == E_CONCAT) { unsigned lw = wd(A.b); return mkConcat(mkBin(E_OR, A.a, mkConst(k >> lw, w - lw)), mkBin(E_OR, A.b, mkConst(k, lw))); }
			break;
		case E_XOR:
			if (k == 0) return a;
			if (w == 1) return mkNot(a);
			if (A.op == E_XOR && isC(A.b)) return mkBin(E_XOR, A.a, mkConst(k ^ cv(A.b), w));
			break;
		case E_EQ:
			if (w == 1) return k ? a : mkNot(a);
			if (A.op == E_ZEXT) { unsigned iw = wd(A.a); return (k & ~msk(iw)) ? mkConst(0, 1) : mkBin(E_EQ, A.a, mkConst(k, iw)); }
			if (A.op == E_SEXT) { unsigned iw = wd(A.a); u64 t = (u64)sx(k & msk(iw), iw) & m; return t != k ? mkConst(0, 1) : mkBin(E_EQ, A.a, mkConst(k, iw)); }
			if (A.op == E_ADD && isC(A.b)) return mkBin(E_EQ, A.a, mkConst(k - cv(A.b), w));
			if (A.op == E_XOR && isC(A.b)) return mkBin(E_EQ, A.a, mkConst(k ^ cv(A.b), w));
			if (A.op == E_CONCAT) { unsigned lw = wd(A.b); return mkAnd1(mkBin(E_EQ, A.a, mkConst(k >> lw, w - lw)), mkBin(E_EQ, A.b, mkConst(k, lw))); }
			if (A.op == E_ITE && (isC(A.b) || isC(A.c))) return mkIte(A.a, mkBin(E_EQ, A.b, b), mkBin(E_EQ, A.c, b));
			break;
		case E_ULT:
			if (k == 0) return mkConst(0, 1);
			if (k == 1) return mkBin(E_EQ, a, mkConst(0, w));
			if (A.op == E_ZEXT) { unsigned iw = wd(A.a); return (k & ~msk(iw)) ? mkConst(1, 1) : mkBin(E_ULT, A.a, mkConst(k, iw)); }
			if (A.op == E_ITE && isC(A.b) && isC(A.c)) return mkIte(A.a, mkBin(E_ULT, A.b, b), mkBin(E_ULT, A.c, b));
			break;
		case E_ULE:
			if (k == m) return mkConst(1, 1);
			return mkBin(E_ULT, a, mkConst(k + 1, w));
		case E_SLT:
			if (A.op == E_ZEXT) { if ((k >> (w - 1)) & 1) return mkConst(0, 1); return mkBin(E_ULT, a, b); }
			if (A.op == E_ITE && isC(A.b) && isC(A.c)) return mkIte(A.a, mkBin(E_SLT, A.b, b), mkBin(E_SLT, A.c, b));
			if (A.op == E_SEXT) {
				unsigned iw = wd(A.a);
				i64 ks = sx(k, w), lo = sx(1ull << (iw - 1), iw), hi = (i64)(msk(iw) >> 1);
				if (ks > hi) return mkConst(1, 1);
				if (ks <= lo) return mkConst(0, 1);
				return mkBin(E_SLT, A.a, mkConst((u64)ks, iw));
			}
			break;
		case E_SLE:
			if (k == (m >> 1)) return mkConst(1, 1);
			return mkBin(E_SLT, a, mkConst(k + 1, w));
		default: break;
		}
	}
	if (A.op == E_CONST) {
		u64 k = A.val;
		switch (op) {
		case E_ULT: // k < b
			if (k == m) return mkConst(0, 1);
			if (k == 0) return mkNot(mkBin(E_EQ, b, a));
			if (B.op == E_ZEXT) { unsigned iw = wd(B.a); if (k >= msk(iw)) return mkConst(0, 1); return mkBin(E_ULT, mkConst(k, iw), B.a); }
			if (B.op == E_ITE && isC(B.b) && isC(B.c)) return mkIte(B.a, mkBin(E_ULT, a, B.b), mkBin(E_ULT, a, B.c));
			break;
		case E_ULE: // k <= b
			if (k == 0) return mkConst(1, 1);
			return mkBin(E_ULT, mkConst(k - 1, w), b);
		case E_SLT:
			if (k == (m >> 1)) return mkConst(0, 1);
			if (B.op == E_ZEXT) { if ((k >> (w - 1)) & 1) return mkConst(1, 1); return mkBin(E_ULT, a, b); }
			if (B.op == E_ITE && isC(B.b) && isC(B.c)) return mkIte(B.a, mkBin(E_SLT, a, B.b), mkBin(E_SLT, a, B.c));
			if (B.op == E_SEXT) {
				unsigned iw = wd(B.a);
				i64 ks = sx(k, w), lo = sx(1ull << (iw - 1), iw), hi = (i64)(msk(iw) >> 1);
				if (ks >= hi) return mkConst(0, 1);
				if (ks < lo) return mkConst(1, 1);
				return mkBin(E_SLT, mkConst((u64)ks, iw), B.a);
			}
			break;
		case E_SLE:
			if (k == (1ull << (w - 1))) return mkConst(1, 1);
			return mkBin(E_SLT, mkConst(k - 1, w), b);
		case E_SHL: case E_LSHR: case E_UDIV: case E_UREM:
			if (k == 0) return a;
			break;
		default: break;
		}
	}
	if (op == E_EQ || op == E_ULT || op == E_ULE || op == E_SLT || op == E_SLE) {
		if (A.op == E_ZEXT && B.op == E_ZEXT && wd(A.a) == wd(B.a)) return mkBin(op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op, A.a, B.a);
		if (A.op == E_SEXT && B.op == E_SEXT && wd(A.a) == wd(B.a) && (op == E_EQ || op == E_SLT || op == E_SLE)) return mkBin(op, A.a, B.a);
	}
	if (op == E_SUB && A.op == E_CONST && A.val == 0 && B.op == E_ITE && isC(B.b) && isC(B.c)) return mkIte(B.a, mkConst(0 - cv(B.b), w), mkConst(0 - cv(B.c), w));
	if (op == E_OR && A.op == E_CONCAT && B.op == E_ZEXT && wd(A.b) >= wd(B.a) && isC(A.b) && cv(A.b) == 0) {
		return mkConcat(A.a, mkZext(B.a, wd(A.b)));
	}
	if (op == E_OR && B.op == E_CONCAT && A.op == E_ZEXT && wd(B.b) >= wd(A.a) && isC(B.b) && cv(B.b) == 0) {
		return mkConcat(B.a, mkZext(A.a, wd(B.b)));
	}
	return node(op, rw, a, b);
}
Ex mkIte(Ex c, Ex a, Ex b)
{
	if (isC(c)) return cv(c) ? a : b;
	if (a == b) return a;
	unsigned w = wd(a);
	if (w == 1) {
		if (isC(a)) return cv(a) ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
		if (isC(b)) return cv(b) ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
	}
	const ENode C = EN[c];
	if (C.op == E_XOR && isC(C.b)) return mkIte(C.a, b, a);
	if (isC(a) && isC(b) && cv(b) == 0 && cv(a) == 1) return mkZext(c, w);
	if (isC(a) && isC(b) && cv(a) == 0 && cv(b) == 1) return mkZext(mkNot(c), w);
	return node(E_ITE, w, c, a, b);
}
Ex mkZext(Ex a, unsigned w)
{
	const ENode A = EN[a];
	if (A.w == w) return a;
	if (A.op == E_CONST) return mkConst(A.val, w);
	if (A.op == E_ZEXT) return mkZext(A.a, w);
	return node(E_ZEXT, w, a);
}
Ex mkSext(Ex a, unsigned w)
{
	const ENode A = EN[a];
	if (A.w == w) return a;
	if (A.op == E_CONST) return mkConst((u64)sx(A.val, A.w), w);
	if (A.op == E_ZEXT) return mkZext(A.a, w);
	if (A.op == E_SEXT) return mkSext(A.a, w);
	if (A.op == E_ITE && isC(A.b) && isC(A.c)) return mkIte(A.a, mkSext(A.b, w), mkSext(A.c, w));
	return node(E_SEXT, w, a);
}
Ex mkExtract(Ex a, unsigned off, unsigned w)
{
	const ENode A = EN[a];
	if (off == 0 && w == A.w) return a;
	switch (A.op) {
	case E_CONST: return mkConst(A.val >> off, w);
	case E_EXTRACT: return mkExtract(A.a, off + A.val, w);
	case E_ZEXT: {
		unsigned iw = wd(A.a);
		if (off >= iw) return mkConst(0, w);
		if (off + w <= iw) return mkExtract(A.a, off, w);
		return mkZext(mkExtract(A.a, off, iw - off), w);
	}
	case E_SEXT: {
		unsigned iw = wd(A.a);
		if (off + w <= iw) return mkExtract(A.a, off, w);
		break;
	}
	case E_CONCAT: {
		unsigned lw = wd(A.b);
		if (off >= lw) return mkExtract(A.a, off - lw, w);
		if (off + w <= lw) return mkExtract(A.b, off, w);
		return mkConcat(mkExtract(A.a, 0, off + w - lw), mkExtract(A.b, off, lw - off));
	}
	case E_ITE:
		if (isC(A.b) || isC(A.c)) return mkIte(A.a, mkExtract(A.b, off, w), mkExtract(A.c, off, w));
		break;
	case E_AND: case E_OR: case E_XOR:
		return mkBin((EOp)A.op, mkExtract(A.a, off, w), mkExtract(A.b, off, w));
	case E_ADD: case E_SUB: case E_MUL:
		if (off == 0) return mkBin((EOp)A.op, mkExtract(A.a, 0, w), mkExtract(A.b, 0, w));
		break;
	}
	return node(E_EXTRACT, w, a, 0, 0, off);
}
Ex mkConcat(Ex hi, Ex lo)
{
	const ENode H = EN[hi], L = EN[lo];
	unsigned w = H.w + L.w;
	if (H.op == E_CONST && L.op == E_CONST) return mkConst(H.val << L.w | L.val, w);
	if (H.op == E_CONST && H.val == 0) return mkZext(lo, w);
	if (H.op == E_EXTRACT && L.op == E_EXTRACT && H.a == L.a && H.val == L.val + L.w) return mkExtract(H.a, L.val, w);
	if (H.op == E_ZEXT) return mkZext(mkConcat(H.a, lo), w);
	if (L.op == E_CONCAT) { // right-nested: try merge hi with L.a
		const ENode LA = EN[L.a];
		if (H.op == E_EXTRACT && LA.op == E_EXTRACT && H.a == LA.a && H.val == LA.val + LA.w) return mkConcat(mkExtract(H.a, LA.val, H.w + LA.w), L.b);
		if (H.op == E_CONST && LA.op == E_CONST) return mkConcat(mkConst(H.val << LA.w | LA.val, H.w + LA.w), L.b);
	}
	return node(E_CONCAT, w, hi, lo);
}
std::string exprStr(Ex e, int depth)
{
	static const char* nm[] = { "const", "var", "+", "-", "*", "u/", "s/", "u%", "s%", "<<", ">>u", ">>s", "&", "|", "^", "==", "<u", "<=u", "<s", "<=s", "ite", "zext", "sext", "extract", "concat", "fcmp", "sitofp", "uitofp", "fptosi", "fptoui", "fptrunc", "fpext", "fadd", "fsub", "fmul", "fdiv" };
	const ENode& n = EN[e];
	char buf[64];
	if (n.op == E_CONST) { snprintf(buf, sizeof buf, "%llu", (unsigned long long)n.val); return buf; }
	if (n.op == E_VAR) return VARS[n.val].name;
	if (depth == 0) return "...";
	std::string s = "(";
	s += nm[n.op];
	if (n.op == E_EXTRACT) { snprintf(buf, sizeof buf, "[%u:%u]", (unsigned)n.val, n.w); s += buf; }
	if (n.a) s += " " + exprStr(n.a, depth - 1);
	if (n.b) s += " " + exprStr(n.b, depth - 1);
	if (n.c) s += " " + exprStr(n.c, depth - 1);
	return s + ")";
}

void modelChanged() { ++gen; }
static u64 evalRec(Ex e)
{
	const ENode& n = EN[e];
	if (n.op == E_CONST) return n.val;
	if (evGen.size() <= e) { evGen.resize(EN.size() + 1024, 0); evVal.resize(EN.size() + 1024, 0); }
	if (evGen[e] == gen) return evVal[e];
	u64 a = 0, b = 0, c = 0;
	if (n.op == E_ITE) {
		a = evalRec(n.a);
		if (a) b = evalRec(n.b); else c = evalRec(n.c);
	} else {
		if (n.a) a = evalRec(n.a);
		if (n.b) b = evalRec(n.b);
	}
	u64 r = evalNodeOp(EN[e], a, b, c);
	evGen[e] = gen;
	evVal[e] = r;
	return r;
}
u64 evalEx(Ex e) { return evalRec(e); }

// ---- domains -------------------------------------------------------------------------------
struct B256 {
	u64 w[4] = { ~0ull, ~0ull, ~0ull, ~0ull };
	bool any() const { return w[0] | w[1] | w[2] | w[3]; }
	bool get(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
};
static std::vector<B256> DOM;
static std::vector<u8> ENT; // entangled
static std::vector<u32> UF;
static std::unordered_map<u32, B256> tables;
static u32 ufFind(u32 x)
{
	while (UF[x] != x) x = UF[x] = UF[UF[x]];
	return x;
}
static void ensureVars()
{
	while (DOM.size() < VARS.size()) {
		u32 v = DOM.size();
		B256 d;
		unsigned w = VARS[v].w;
		if (w < 8) {
			d.w[0] = d.w[1] = d.w[2] = d.w[3] = 0;
			unsigned n = 1u << w;
			for (unsigned i = 0; i < n; i++) d.w[i >> 6] |= 1ull << (i & 63);
		}
		DOM.push_back(d);
		ENT.push_back(w > 8);
		UF.push_back(v);
	}
}
bool supSingle(Ex e, u32& var)
{
	const auto& s = SUPS[EN[e].sup];
	if (s.size() != 1 || VARS[s[0]].w > 8) return false;
	var = s[0];
	return true;
}
static void topo(Ex e, std::vector<Ex>& out, std::unordered_map<Ex, u32>& pos)
{
	if (pos.count(e)) return;
	const ENode n = EN[e];
	if (n.a) topo(n.a, out, pos);
	if (n.b) topo(n.b, out, pos);
	if (n.c) topo(n.c, out, pos);
	pos[e] = out.size();
	out.push_back(e);
}
static const B256& truthTable(Ex e, u32 var)
{
	auto it = tables.find(e);
	if (it != tables.end()) return it->second;
	std::vector<Ex> order;
	std::unordered_map<Ex, u32> pos;
	topo(e, order, pos);
	std::vector<u64> val(order.size());
	std::vector<std::array<u32, 3>> ops(order.size());
	for (size_t i = 0; i < order.size(); i++) {
		const ENode& n = EN[order[i]];
		ops[i] = { n.a ? pos[n.a] : 0, n.b ? pos[n.b] : 0, n.c ? pos[n.c] : 0 };
	}
	B256 t;
	t.w[0] = t.w[1] = t.w[2] = t.w[3] = 0;
	unsigned lim = 1u << VARS[var].w;
	for (unsigned v = 0; v < lim; v++) {
		for (size_t i = 0; i < order.size(); i++) {
			const ENode& n = EN[order[i]];
			val[i] = n.op == E_VAR ? v : evalNodeOp(n, val[ops[i][0]], val[ops[i][1]], val[ops[i][2]]);
		}
		if (val.back()) t.w[v >> 6] |= 1ull << (v & 63);
	}
	return tables.emplace(e, t).first->second;
}

// ---- Z3 ------------------------------------------------------------------------------------
static Z3_context Z;
static Z3_solver S;
static std::vector<Z3_ast> zmemo;
static bool zerr = false;
static std::vector<Z3_ast> zvars;
static void onZ3Error(Z3_context c, Z3_error_code e)
{
	if (getenv("SX_TRACE")) fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
	zerr = true;
}
void solverInit(unsigned timeoutMs)
{
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context(cfg);
	Z3_set_error_handler(Z, onZ3Error);
	S = Z3_mk_simple_solver(Z);
	Z3_solver_inc_ref(Z, S);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), timeoutMs);
	Z3_solver_set_params(Z, S, p);
	mkConst(0, 1);
}
static Z3_ast B2V(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))); }
static Z3_ast toZ(Ex e)
{
	if (zmemo.size() <= e) zmemo.resize(EN.size() + 1024, nullptr);
	if (zmemo[e]) return zmemo[e];
	const ENode n = EN[e];
	Z3_ast a = n.a ? toZ(n.a) : nullptr, b = n.b ? toZ(n.b) : nullptr, c = n.c ? toZ(n.c) : nullptr, r = nullptr;
	auto one = [&]() { return Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)); };
	auto fs = [&](unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z); };
	auto f = [&](Z3_ast x, unsigned w) { return Z3_mk_fpa_to_fp_bv(Z, x, fs(w)); };
	switch (n.op) {
	case E_CONST: r = Z3_mk_unsigned_int64(Z, n.val, Z3_mk_bv_sort(Z, n.w)); break;
	case E_VAR: {
		char nm[32];
		snprintf(nm, sizeof nm, "v%u", (unsigned)n.val);
		r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, n.w));
		break;
	}
	case E_ADD: r = Z3_mk_bvadd(Z, a, b); break;
	case E_SUB: r = Z3_mk_bvsub(Z, a, b); break;
	case E_MUL: r = Z3_mk_bvmul(Z, a, b); break;
	case E_UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
	case E_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
	case E_UREM: r = Z3_mk_bvurem(Z, a, b); break;
	case E_SREM: r = Z3_mk_bvsrem(Z, a, b); break;
	case E_SHL: r = Z3_mk_bvshl(Z, a, b); break;
	case E_LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
	case E_ASHR: r = Z3_mk_bvashr(Z, a, b); break;
	case E_AND: r = Z3_mk_bvand(Z, a, b); break;
	case E_OR: r = Z3_mk_bvor(Z, a, b); break;
	case E_XOR: r = Z3_mk_bvxor(Z, a, b); break;
	case E_EQ: r = B2V(Z3_mk_eq(Z, a, b)); break;
	case E_ULT: r = B2V(Z3_mk_bvult(Z, a, b)); break;
	case E_ULE: r = B2V(Z3_mk_bvule(Z, a, b)); break;
	case E_SLT: r = B2V(Z3_mk_bvslt(Z, a, b)); break;
	case E_SLE: r = B2V(Z3_mk_bvsle(Z, a, b)); break;
	case E_ITE: r = Z3_mk_ite(Z, Z3_mk_eq(Z, a, one()), b, c); break;
	case E_ZEXT: r = Z3_mk_zero_ext(Z, n.w - EN[n.a].w, a); break;
	case E_SEXT: r = Z3_mk_sign_ext(Z, n.w - EN[n.a].w, a); break;
	case E_EXTRACT: r = Z3_mk_extract(Z, n.val + n.w - 1, n.val, a); break;
	case E_CONCAT: r = Z3_mk_concat(Z, a, b); break;
	case E_FCMP: {
		unsigned w = EN[n.a].w;
		Z3_ast x = f(a, w), y = f(b, w);
		Z3_ast un2[2] = { Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y) };
		Z3_ast un = Z3_mk_or(Z, 2, un2), p = nullptr;
		switch (n.aux & 7) {
		case 0: p = Z3_mk_false(Z); break;
		case 1: p = Z3_mk_fpa_eq(Z, x, y); break;
		case 2: p = Z3_mk_fpa_gt(Z, x, y); break;
		case 3: p = Z3_mk_fpa_geq(Z, x, y); break;
		case 4: p = Z3_mk_fpa_lt(Z, x, y); break;
		case 5: p = Z3_mk_fpa_leq(Z, x, y); break;
		case 6: { Z3_ast q[2] = { Z3_mk_not(Z, un), Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y)) }; p = Z3_mk_and(Z, 2, q); break; }
		case 7: p = Z3_mk_not(Z, un); break;
		}
		if (n.aux == 8) p = un;
		else if (n.aux == 15) p = Z3_mk_true(Z);
		else if (n.aux > 8) { Z3_ast q[2] = { un, p }; p = Z3_mk_or(Z, 2, q); }
		r = B2V(p);
		break;
	}
	case E_SITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), a, fs(n.w))); break;
	case E_UITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), a, fs(n.w))); break;
	case E_FPTOSI: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), f(a, EN[n.a].w), n.w); break;
	case E_FPTOUI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), f(a, EN[n.a].w), n.w); break;
	case E_FPTRUNC: case E_FPEXT: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, Z3_mk_fpa_rne(Z), f(a, EN[n.a].w), fs(n.w))); break;
	case E_FADD: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_add(Z, Z3_mk_fpa_rne(Z), f(a, n.w), f(b, n.w))); break;
	case E_FSUB: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sub(Z, Z3_mk_fpa_rne(Z), f(a, n.w), f(b, n.w))); break;
	case E_FMUL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_mul(Z, Z3_mk_fpa_rne(Z), f(a, n.w), f(b, n.w))); break;
	case E_FDIV: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_div(Z, Z3_mk_fpa_rne(Z), f(a, n.w), f(b, n.w))); break;
	}
	if (!r) { zerr = true; r = Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, n.w)); }
	zmemo[e] = r;
	return r;
}
static u64 nowUs()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (u64)t.tv_sec * 1000000 + t.tv_nsec / 1000;
}
static Sat z3Query(const std::vector<Ex>& cs, const std::vector<u32>& vars, std::vector<u64>* model)
{
	u64 t0 = nowUs();
	SST.queries++;
	zerr = false;
	Z3_solver_push(Z, S);
	for (Ex c : cs) Z3_solver_assert(Z, S, Z3_mk_eq(Z, toZ(c), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))));
	Z3_lbool r = Z3_solver_check(Z, S);
	Sat res = UNKNOWN;
	if (r == Z3_L_FALSE) res = UNSAT;
	else if (r == Z3_L_TRUE) {
		res = SAT;
		if (model) {
			Z3_model m = Z3_solver_get_model(Z, S);
			Z3_model_inc_ref(Z, m);
			*model = MODEL;
			for (u32 v : vars) {
				Z3_ast out;
				uint64_t x = 0;
				if (Z3_model_eval(Z, m, toZ(mkVar(v, VARS[v].w)), 1, &out) && Z3_get_numeral_uint64(Z, out, &x)) (*model)[v] = x;
				else zerr = true;
			}
			Z3_model_dec_ref(Z, m);
		}
	}
	Z3_solver_pop(Z, S, 1);
	if (zerr) res = UNKNOWN;
	SST.us += nowUs() - t0;
	(res == SAT ? SST.sat : res == UNSAT ? SST.unsat : SST.unknown)++;
	return res;
}
static std::unordered_map<Ex, u32> pcSet;
bool pcKnown(Ex c) { return pcSet.count(c) || pcSet.count(mkNot(c)); }
struct SolverSnap {
	size_t vars, pc;
	std::vector<B256> dom;
	std::vector<u8> ent;
	std::vector<u32> uf;
};
void* solverSave()
{
	ensureVars();
	return new SolverSnap { VARS.size(), PC.size(), DOM, ENT, UF };
}
void solverRestore(void* p)
{
	SolverSnap* s = (SolverSnap*)p;
	while (PC.size() > s->pc) {
		auto it = pcSet.find(PC.back());
		if (--it->second == 0) pcSet.erase(it);
		PC.pop_back();
	}
	VARS.resize(s->vars);
	DOM.swap(s->dom);
	ENT.swap(s->ent);
	UF.swap(s->uf);
	delete s;
}
void pcAdd(Ex c)
{
	ensureVars();
	if (isC(c)) return;
	const ENode n = EN[c];
	if (n.op == E_AND && n.w == 1) { pcAdd(n.a); pcAdd(n.b); return; }
	PC.push_back(c);
	pcSet[c]++;
	const auto& s = SUPS[n.sup];
	u32 v;
	if (supSingle(c, v)) {
		const B256& t = truthTable(c, v);
		for (int i = 0; i < 4; i++) DOM[v].w[i] &= t.w[i];
	} else {
		for (u32 x : s) {
			ENT[x] = 1;
			UF[ufFind(x)] = ufFind(s[0]);
		}
	}
}
std::vector<Ex> pcForVar(u32 var)
{
	std::vector<Ex> r;
	for (Ex c : PC)
		for (u32 x : SUPS[EN[c].sup])
			if (x == var) { r.push_back(c); break; }
	return r;
}
struct QEnt {
	Sat r;
	std::vector<Ex> cs;
	std::vector<u64> vals;
};
static std::unordered_map<u64, QEnt> QC;
static std::vector<std::vector<u64>> RECENT;
Sat pcCheck(Ex c, std::vector<u64>* model)
{
	ensureVars();
	if (isC(c)) {
		if (cv(c) && model) *model = MODEL;
		return cv(c) ? SAT : UNSAT;
	}
	if (evalEx(c)) {
		if (model) *model = MODEL;
		return SAT;
	}
	u32 v;
	if (supSingle(c, v)) {
		const B256& t = truthTable(c, v);
		B256 f;
		for (int i = 0; i < 4; i++) f.w[i] = DOM[v].w[i] & t.w[i];
		if (!f.any()) { SST.domQueries++; return UNSAT; }
		if (!ENT[v]) {
			SST.domQueries++;
			if (model) {
				*model = MODEL;
				// prefer printable values for readable counterexamples
				int pick = -1;
				for (int x = 'a'; x <= 'z' && pick < 0; x++) if (f.get(x)) pick = x;
				for (int x = 32; x < 127 && pick < 0; x++) if (f.get(x)) pick = x;
				for (int x = 0; x < 256 && pick < 0; x++) if (f.get(x)) pick = x;
				(*model)[v] = pick;
			}
			return SAT;
		}
	}
	std::vector<Ex> cs;
	std::vector<u32> vars;
	std::vector<u32> roots;
	for (u32 x : SUPS[EN[c].sup]) roots.push_back(ufFind(x));
	std::sort(roots.begin(), roots.end());
	roots.erase(std::unique(roots.begin(), roots.end()), roots.end());
	auto in = [&](u32 x) { return std::binary_search(roots.begin(), roots.end(), ufFind(x)); };
	for (Ex p : PC) {
		const auto& s = SUPS[EN[p].sup];
		if (!s.empty() && in(s[0])) cs.push_back(p);
	}
	std::vector<u8> seen(VARS.size(), 0);
	auto addVars = [&](Ex e) { for (u32 x : SUPS[EN[e].sup]) if (!seen[x]) { seen[x] = 1; vars.push_back(x); } };
	for (Ex p : cs) addVars(p);
	addVars(c);
	cs.push_back(c);
	std::sort(vars.begin(), vars.end());
	std::sort(cs.begin(), cs.end());
	cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	u64 key = 1469598103934665603ull;
	for (Ex x : cs) key = (key ^ x) * 1099511628211ull;
	auto hit = QC.find(key);
	if (hit != QC.end() && hit->second.cs == cs) {
		SST.domQueries++;
		if (hit->second.r == SAT && model) {
			*model = MODEL;
			for (size_t i = 0; i < vars.size(); i++) (*model)[vars[i]] = hit->second.vals[i];
		}
		return hit->second.r;
	}
	// a model found for an earlier query may do
	std::vector<u64> save0 = MODEL;
	for (size_t k = RECENT.size(); k-- > 0;) {
		MODEL = save0;
		auto& m = RECENT[k];
		for (u32 x : vars) if (x < m.size()) MODEL[x] = m[x] & (VARS[x].w >= 64 ? ~0ull : (1ull << VARS[x].w) - 1);
		modelChanged();
		bool ok = evalEx(c);
		for (size_t i = 0; ok && i < cs.size(); i++) ok = evalEx(cs[i]);
		if (ok) {
			if (model) *model = MODEL;
			MODEL = save0;
			modelChanged();
			SST.domQueries++;
			return SAT;
		}
	}
	MODEL = save0;
	modelChanged();
	Sat r = z3Query(cs, vars, model);
	if (r == SAT && model) {
		if (RECENT.size() >= 6) RECENT.erase(RECENT.begin());
		RECENT.push_back(*model);
	}
	if (r == UNSAT || (r == SAT && model)) {
		QEnt q;
		q.r = r;
		q.cs = cs;
		if (r == SAT) for (u32 x : vars) q.vals.push_back((*model)[x]);
		if (QC.size() > 200000) QC.clear();
		QC[key] = std::move(q);
	}
	if (r == SAT && model) {
		// verify the model against the encoding (guards against solver/translation bugs)
		std::vector<u64> save = MODEL;
		MODEL = *model;
		modelChanged();
		bool ok = true;
		for (Ex p : cs) if (!evalEx(p)) { ok = false; break; }
		MODEL = save;
		modelChanged();
		if (!ok) { SST.unknown++; return UNKNOWN; }
	}
	return r;
}
Sat pcCheckFull()
{
	std::vector<u32> vars;
	return z3Query(PC, vars, nullptr);
}
bool enumValues(Ex e, std::vector<u64>& out, unsigned limit, bool& unknown)
{
	unknown = false;
	if (isC(e)) { out.push_back(cv(e)); return true; }
	ensureVars();
	u32 v;
	if (supSingle(e, v) && !ENT[v]) {
		u64 save = MODEL[v];
		std::vector<u64> vals;
		unsigned lim = 1u << VARS[v].w;
		for (unsigned x = 0; x < lim; x++)
			if (DOM[v].get(x)) {
				MODEL[v] = x;
				modelChanged();
				vals.push_back(evalEx(e));
			}
		MODEL[v] = save;
		modelChanged();
		std::sort(vals.begin(), vals.end());
		vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
		SST.domQueries++;
		if (vals.size() > limit) return false;
		out = vals;
		return true;
	}
	out.push_back(evalEx(e));
	Ex excl = mkNot(mkBin(E_EQ, e, mkConst(out[0], wd(e))));
	while (true) {
		std::vector<u64> m;
		Sat r = pcCheck(excl, &m);
		if (r == UNSAT) return true;
		if (r == UNKNOWN) { unknown = true; return false; }
		std::vector<u64> save = MODEL;
		MODEL = m;
		modelChanged();
		u64 x = evalEx(e);
		MODEL = save;
		modelChanged();
		out.push_back(x);
		if (out.size() > limit) return false;
		excl = mkAnd1(excl, mkNot(mkBin(E_EQ, e, mkConst(x, wd(e)))));
	}
}
